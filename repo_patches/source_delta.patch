From b5a15615b50bc55bc2f2d5ae0a1702375c9c39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 01/64] fix: keep every gap in the gap pool exactly once

Adding a gap to a non empty pool appended it once per visited entry and
appended it again after inserting it, so the same free bits could be
handed out to two functionalities.
---
 internal/gap/pool.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/internal/gap/pool.go b/internal/gap/pool.go
index 7bdd670..d13d19c 100644
--- a/internal/gap/pool.go
+++ b/internal/gap/pool.go
@@ -8,23 +8,15 @@ type Pool struct {
 func (p *Pool) Add(g Gap) {
 	switch g := g.(type) {
 	case Single:
-		if len(p.singles) == 0 {
-			p.singles = append(p.singles, g)
-			return
-		}
 		for i, s := range p.singles {
 			if g.Width() < s.Width() {
 				p.singles = append(p.singles[:i+1], p.singles[i:]...)
 				p.singles[i] = g
 				return
 			}
-			p.singles = append(p.singles, g)
 		}
+		p.singles = append(p.singles, g)
 	case Array:
-		if len(p.arrays) == 0 {
-			p.arrays = append(p.arrays, g)
-			return
-		}
 		for i, a := range p.arrays {
 			if g.Width() < a.Width() {
 				p.arrays = append(p.arrays[:i+1], p.arrays[i:]...)
@@ -33,6 +25,7 @@ func (p *Pool) Add(g Gap) {
 				return
 			}
 		}
+		p.arrays = append(p.arrays, g)
 	}
 }
 
-- 
2.43.0


From d68b6ae512013d85f4b2f8a6c17fe7a5fd1e707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 02/64] fix: a status put into a gap leaves the gap's write
 safety unchanged

The bits left over after placing a status in a config register were marked
write safe, so an explicitly cleared irq could share a register with a config.
---
 internal/reg/status.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a8ce16e..a10ddf4 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -17,9 +17,11 @@ func regAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 
 func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
+	writeSafe := true
 
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -30,7 +32,7 @@ func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
@@ -74,9 +76,11 @@ func regNonAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 
 func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
+	writeSafe := true
 
 	if g, ok := gp.GetSingle(st.Width, false); ok {
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
+		writeSafe = g.WriteSafe
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
 		addr += acs.RegCount
@@ -87,7 +91,7 @@ func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
-- 
2.43.0


From 5834a83dde6c3b716fbc08e053a538062f732fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:07 +0000
Subject: [PATCH 03/64] fix: resolve argument lists of all nested symbols

Resolving stopped after the first functionality with inner symbols, so
arguments of the functionalities placed after it were lost.
---
 internal/ins/args.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 8bbd01a..af4716d 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -40,7 +40,10 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 		}
 
 		if len(f.Symbols()) > 0 {
-			return resolveArgListsInSymbols(f.Symbols())
+			err := resolveArgListsInSymbols(f.Symbols())
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From af28fc2a7b80004f7ac5fd23a7a58c28356c84ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 04/64] fix: report file of nested type and constant
 definitions

Only instantiations looked for the file in the outer scope, so an error
in a type defined in a functionality body ended with a nil dereference.
---
 internal/prs/inst.go   | 12 ------------
 internal/prs/symbol.go | 13 ++++++++++++-
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index b3992f8..13cb5cc 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -64,18 +64,6 @@ func (i Inst) ResolvedArgs() map[string]Expr       { return i.resolvedArgs }
 func (i Inst) Props() PropContainer                { return i.props }
 func (i Inst) Symbols() []Symbol                   { return i.symbolContainer.Symbols() }
 
-func (i Inst) File() *File {
-	if i.file != nil {
-		return i.file
-	}
-
-	if s, ok := i.scope.(Symbol); ok {
-		return s.File()
-	}
-
-	panic("should never happen")
-}
-
 func (i Inst) Params() []Param {
 	panic("should never happen, element definition cannot have parameters")
 }
diff --git a/internal/prs/symbol.go b/internal/prs/symbol.go
index 24f058e..ddbbc01 100644
--- a/internal/prs/symbol.go
+++ b/internal/prs/symbol.go
@@ -42,9 +42,20 @@ func (s symbol) Line() int      { return s.tok.Line() }
 func (s symbol) Col() int       { return s.tok.Column() }
 func (s symbol) Doc() string    { return s.doc }
 func (s symbol) Scope() Scope   { return s.scope }
-func (s symbol) File() *File    { return s.file }
 func (s symbol) Tok() tok.Token { return s.tok }
 
+func (sym symbol) File() *File {
+	if sym.file != nil {
+		return sym.file
+	}
+
+	if s, ok := sym.scope.(Symbol); ok {
+		return s.File()
+	}
+
+	panic("should never happen")
+}
+
 func (sym symbol) Loc() string {
 	return fmt.Sprintf("%d:%d", sym.Line(), sym.Col())
 }
-- 
2.43.0


From e0ab8991d4377fa42f6ae2f51c891d51b14ebd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 05/64] fix: bind arguments to parameters separately for every
 type in a type chain

Arguments for the parent type and values of own parameters were kept in
one map overwritten when a type chain was walked. Arguments were lost when
a type was instantiated more than once, a parameterized type couldn't pass
its parameters to the parent type, and an argument with the same name as
the parameter was resolved to itself. Missing, excessive and unknown
arguments weren't reported.
---
 internal/ins/args.go       | 70 +++++++++++++-------------------------
 internal/ins/ins.go        | 20 ++++++++++-
 internal/ins/type_chain.go | 50 +++++++++++++++++++++++----
 internal/prs/expr.go       | 13 +++++++
 internal/prs/func.go       |  1 +
 internal/prs/inst.go       |  8 ++---
 internal/prs/type.go       |  6 ++--
 7 files changed, 108 insertions(+), 60 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index af4716d..fd2aae7 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -2,6 +2,7 @@ package ins
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
@@ -54,61 +55,38 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 	var err error
 	args := symbol.Args()
 	resolvedArgs := make(map[string]prs.Expr)
-	inPositionalArgs := true
 
-	typeSymbol, err := symbol.GetType(symbol.Type())
+	typeSymbol, err := symbol.Scope().GetType(symbol.Type())
 	if err != nil {
 		return nil, err
 	}
 
 	params := typeSymbol.Params()
 
-	var argName string
-	var argHasName bool
-	for i, p := range params {
-		if inPositionalArgs {
-			if i < len(args) {
-				argHasName = args[i].Name != ""
-				argName = args[i].Name
-			} else {
-				inPositionalArgs = false
-				argHasName = false
+	for i, a := range args {
+		name := a.Name
+		if name == "" {
+			if i >= len(params) {
+				return nil, fmt.Errorf(
+					"too many arguments for type '%s', expected at most %d, got %d",
+					symbol.Type(), len(params), len(args),
+				)
 			}
+			name = params[i].Name
+		}
 
-			if argHasName {
-				inPositionalArgs = false
-				if argName == p.Name {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					found := false
-					for _, ar := range args {
-						if ar.Name == p.Name {
-							resolvedArgs[p.Name] = ar.Value
-							found = true
-						}
-					}
-					if !found {
-						resolvedArgs[p.Name] = p.DfltValue
-					}
-				}
-			} else {
-				if i < len(args) {
-					resolvedArgs[p.Name] = args[i].Value
-				} else {
-					resolvedArgs[p.Name] = p.DfltValue
-				}
-			}
-		} else {
-			found := false
-			for _, ar := range args {
-				if ar.Name == p.Name {
-					resolvedArgs[p.Name] = ar.Value
-					found = true
-				}
-			}
-			if !found {
-				resolvedArgs[p.Name] = p.DfltValue
-			}
+		if _, ok := resolvedArgs[name]; ok {
+			return nil, fmt.Errorf("reassignment to '%s' argument", name)
+		}
+		if !slices.ContainsFunc(params, func(p prs.Param) bool { return p.Name == name }) {
+			return nil, fmt.Errorf("type '%s' has no parameter '%s'", symbol.Type(), name)
+		}
+		resolvedArgs[name] = a.Value
+	}
+
+	for _, p := range params {
+		if _, ok := resolvedArgs[p.Name]; !ok && p.DfltValue == nil {
+			return nil, fmt.Errorf("missing argument for parameter '%s' of type '%s'", p.Name, symbol.Type())
 		}
 	}
 
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 22f3c46..9129867 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -76,6 +76,9 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 				if name != mainName && util.IsBaseType(prsFn.Type()) {
 					continue
 				}
+				if t, ok := symbol.(*prs.Type); ok && hasParamWithoutDfltValue(t) {
+					continue
+				}
 
 				f := insFunctionality(prsFn)
 
@@ -91,11 +94,26 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	return mainBus, pkgs, nil
 }
 
+// hasParamWithoutDfltValue returns true if type has at least one parameter without default value.
+// Such a type cannot be instantiated without an argument list.
+func hasParamWithoutDfltValue(t *prs.Type) bool {
+	for _, p := range t.Params() {
+		if p.DfltValue == nil {
+			return true
+		}
+	}
+	return false
+}
+
 func insFunctionality(pf prs.Functionality) fn.Functionality {
 	typeChain := resolveToBaseType(pf)
 
 	var f fn.Functionality
-	var err error
+
+	err := bindParams(typeChain)
+	if err != nil {
+		log.Fatalf("%s:%s: %v", pf.File().Path, pf.Loc(), err)
+	}
 
 	typ := typeChain[0].Type()
 	switch typ {
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index a0b845a..a75fffe 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -11,15 +11,51 @@ func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, boo
 		if i == len(tc) {
 			return nil, false
 		}
-		resolvedArgs := make(map[string]prs.Expr)
-		if (i+1) < len(tc) && tc[i+1].ResolvedArgs() != nil {
-			resolvedArgs = tc[i+1].ResolvedArgs()
-		}
 		typ := tc[i]
-		if resolvedArgs != nil {
-			typ.SetResolvedArgs(resolvedArgs)
-		}
 		i += 1
 		return typ, true
 	}
 }
+
+// bindParams binds values of the arguments to the parameters of the types in the type chain.
+//
+// Arguments are evaluated in the scope of the functionality providing them.
+// The chain is walked from the instantiation to the base type,
+// because arguments of a type may depend on the parameters of this type.
+// Default values are evaluated in the scope of the type declaring the parameter.
+func bindParams(typeChain []prs.Functionality) error {
+	last := typeChain[len(typeChain)-1]
+	if t, ok := last.(*prs.Type); ok {
+		values := make(map[string]prs.Expr)
+		for _, p := range t.Params() {
+			values[p.Name] = p.DfltValue
+		}
+		t.SetParamValues(values)
+	}
+
+	for i := len(typeChain) - 1; i > 0; i-- {
+		t, ok := typeChain[i-1].(*prs.Type)
+		if !ok {
+			continue
+		}
+
+		args := typeChain[i].ResolvedArgs()
+		values := make(map[string]prs.Expr)
+		for _, p := range t.Params() {
+			arg, ok := args[p.Name]
+			if !ok {
+				values[p.Name] = p.DfltValue
+				continue
+			}
+
+			v, err := arg.Eval()
+			if err != nil {
+				return err
+			}
+			values[p.Name] = prs.MakeValue(v)
+		}
+		t.SetParamValues(values)
+	}
+
+	return nil
+}
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 29d11d9..50d36af 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -192,6 +192,19 @@ func MakeBinaryExpr(be ast.BinaryExpr, src []byte, s Scope) (BinaryExpr, error)
 	return BinaryExpr{ast: be, x: x, op: be.Op, y: y}, nil
 }
 
+// Value represents already evaluated expression.
+type Value struct {
+	v val.Value
+}
+
+func (v Value) Eval() (val.Value, error) {
+	return v.v, nil
+}
+
+func MakeValue(v val.Value) Value {
+	return Value{v: v}
+}
+
 type BitString struct {
 	x val.BitStr
 }
diff --git a/internal/prs/func.go b/internal/prs/func.go
index 23a4042..3ce0448 100644
--- a/internal/prs/func.go
+++ b/internal/prs/func.go
@@ -12,6 +12,7 @@ type Functionality interface {
 	Params() []Param
 	SetResolvedArgs(args map[string]Expr)
 	ResolvedArgs() map[string]Expr
+	SetParamValues(values map[string]Expr)
 	Props() PropContainer
 	Symbols() []Symbol
 }
diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index 13cb5cc..d549e85 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -33,10 +33,6 @@ func (i *Inst) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := i.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
-	}
-
 	return i.scope.GetConst(name)
 }
 
@@ -68,6 +64,10 @@ func (i Inst) Params() []Param {
 	panic("should never happen, element definition cannot have parameters")
 }
 
+func (i Inst) SetParamValues(values map[string]Expr) {
+	panic("should never happen, element definition cannot have parameters")
+}
+
 // buildInsts builds list of Insts based on the list of ast.Inst.
 func buildInsts(astInsts []ast.Inst, src []byte) ([]*Inst, error) {
 	insts := make([]*Inst, 0, len(astInsts))
diff --git a/internal/prs/type.go b/internal/prs/type.go
index cca11e5..b69e706 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -16,8 +16,9 @@ type Type struct {
 	count Expr
 
 	params       []Param
+	paramValues  map[string]Expr // Values currently bound to the parameters.
 	args         ArgList
-	resolvedArgs map[string]Expr
+	resolvedArgs map[string]Expr // Arguments for the parent type parameters.
 
 	props PropContainer
 	symbolContainer
@@ -29,7 +30,7 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.resolvedArgs[name]; ok {
+	if v, ok := t.paramValues[name]; ok {
 		return &Const{Value: v}, nil
 	}
 
@@ -60,6 +61,7 @@ func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
+func (t *Type) SetParamValues(pv map[string]Expr)  { t.paramValues = pv }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool                       { return false }
-- 
2.43.0


From 6b1f236fad30cf78bbaf81403e9285e56c91fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 06/64] fix: split hyphenated words at every hyphen in
 expressions

---
 internal/tok/parse.go | 159 ++++++++++++------------------------------
 1 file changed, 43 insertions(+), 116 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 6b2db15..9058767 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -763,6 +763,20 @@ func isValidQualifiedIdentifier(qi []byte) bool {
 	return unicode.IsUpper(r) || unicode.IsLower(r)
 }
 
+// isPropertyPlace returns true if property name may be placed right after already parsed tokens.
+func isPropertyPlace(toks []Token) bool {
+	prevTok, ok := lastToken(toks)
+	if !ok {
+		return true
+	}
+
+	switch prevTok.(type) {
+	case Newline, Semicolon, Indent:
+		return true
+	}
+	return false
+}
+
 // TODO: Refactor, too complex, split into 2 (or more) functions.
 func parseWord(ctx *context, toks *[]Token) (Token, error) {
 	var t Token
@@ -770,46 +784,17 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 	word, hasHyphen, hasDot := getWord(ctx.src, ctx.idx)
 
 	qualIdentErrMsg := "symbol name in qualified identifier must start with letter"
-	if hasHyphen && hasDot {
-		// This is for sure part of an expression
-		chunks := bytes.Split(word, []byte{'-'})
-		for i, chunk := range chunks {
-			if bytes.Contains(chunk, []byte{'.'}) {
-				t = QualIdent{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-				if !isValidQualifiedIdentifier(chunk) {
-					return t, Error{qualIdentErrMsg, []Token{t}}
-				}
-			} else {
-				t = Ident{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-			}
-			if i == len(chunks)-1 {
-				return t, nil
-			}
-			*toks = append(*toks, t)
-			ctx.idx += len(chunks[i])
-			t = Sub{ctx.pos()}
-			*toks = append(*toks, t)
-			ctx.idx++
+	if hasHyphen {
+		t = parseProperty(word, ctx)
+		if _, ok := t.(None); !ok && isPropertyPlace(*toks) {
+			return t, nil
 		}
-	} else if hasDot {
+		// The word is part of an expression, the hyphen is the subtraction operator.
+		word, _, _ = bytes.Cut(word, []byte{'-'})
+		hasDot = bytes.Contains(word, []byte{'.'})
+	}
+
+	if hasDot {
 		// It is qualified identifier
 		t = QualIdent{position{
 			start:  ctx.idx,
@@ -827,91 +812,33 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 		return t, nil
 	}
 
-	splitHyphenatedWord := func() (Ident, Sub, Ident) {
-		i1 := Ident{ctx.pos()}
-		s := Sub{position{line: ctx.line}}
-		i2 := Ident{position{end: ctx.idx + len(word) - 1, line: ctx.line}}
-
-		for i := range word {
-			if word[i] == '-' {
-				i1.end = ctx.idx + i - 1
-
-				s.start = ctx.idx + i
-				s.end = ctx.idx + i
-				s.column = ctx.col(ctx.idx + i)
-
-				i2.start = ctx.idx + i + 1
-				i2.column = ctx.col(ctx.idx + i + 1)
-			}
-		}
-		return i1, s, i2
-	}
-
-	if !hasHyphen {
-		// Firstly assume word is a keyword
-		t = parseKeyword(word, ctx)
-		// If it is not a keyword, then it might be a property or identifier.
+	// Firstly assume word is a keyword
+	t = parseKeyword(word, ctx)
+	// If it is not a keyword, then it might be a property or identifier.
+	if _, ok := t.(None); ok {
+		t = parseProperty(word, ctx)
+		// If it is not property, then it must be an identifier.
 		if _, ok := t.(None); ok {
-			t = parseProperty(word, ctx)
-			// If it is not property, then it must be an identifier.
-			if _, ok := t.(None); ok {
+			t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
+		} else {
+			// However, properties are properties only if they are in valid place,
+			// otherwise, these are regular identifiers.
+			if !isPropertyPlace(*toks) {
 				t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-			} else {
-				// However, properties are properties only if they are in valid place,
-				// otherwise, these are regular identifiers.
-				if prevTok, ok := lastToken(*toks); ok {
-					switch prevTok.(type) {
-					case Newline, Semicolon, Indent:
-						// Do nothing, this is property
-					default:
-						t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-					}
-				}
 			}
 		}
+	}
 
-		// Allow functionality keywords to be instantiation names
-		if _, ok := t.(Functionality); ok {
-			if prevTok, ok := lastToken(*toks); ok {
-				switch prevTok.(type) {
-				case Newline, Indent, Dedent:
-					t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-				}
-			}
-			if len(*toks) == 0 {
+	// Allow functionality keywords to be instantiation names
+	if _, ok := t.(Functionality); ok {
+		if prevTok, ok := lastToken(*toks); ok {
+			switch prevTok.(type) {
+			case Newline, Indent, Dedent:
 				t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
 			}
 		}
-	} else {
-		// Firstly assume word is a property
-		t = parseProperty(word, ctx)
-		// If it is not property, then it is part of an expression.
-		if _, ok := t.(None); ok {
-			// t is last, as deferred function has to calculate new context index.
-			i1, sub, i2 := splitHyphenatedWord()
-			t = i2
-			*toks = append(*toks, []Token{i1, sub, i2}...)
-			// Assing to t for updating context index in deferred function
-			t = i2
-			return None{}, nil
-		} else {
-			// It might be property, or part of an expression.
-			prevTok, ok := lastToken(*toks)
-			if !ok {
-				// Safe to return, time literal units do not contain hyphen '-'.
-				return t, nil
-			}
-			// It is part of an expression.
-			switch prevTok.(type) {
-			case Newline, Indent, Semicolon:
-				// It is property
-			default:
-				i1, sub, i2 := splitHyphenatedWord()
-				*toks = append(*toks, []Token{i1, sub, i2}...)
-				// Assing to t for updating context index in deferred function
-				t = i2
-				return None{}, nil
-			}
+		if len(*toks) == 0 {
+			t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
 		}
 	}
 
-- 
2.43.0


From 607fdb251c0e65645f2867c523573e74399d107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 07/64] fix: recognize properties placed right after a nested
 body

---
 internal/tok/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 9058767..7c90801 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -771,7 +771,7 @@ func isPropertyPlace(toks []Token) bool {
 	}
 
 	switch prevTok.(type) {
-	case Newline, Semicolon, Indent:
+	case Newline, Semicolon, Indent, Dedent:
 		return true
 	}
 	return false
-- 
2.43.0


From fc05665cf8bea82d6a44aba78c713257da9b18cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 08/64] fix: evaluate parenthesized expressions

---
 internal/prs/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 50d36af..5ea7958 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -41,6 +41,8 @@ func MakeExpr(astExpr ast.Expr, src []byte, s Scope) (Expr, error) {
 		expr, err = MakeFloat(e, src)
 	case ast.String:
 		expr = MakeString(e, src)
+	case ast.ParenExpr:
+		expr, err = MakeExpr(e.X, src, s)
 	case ast.Time:
 		expr, err = MakeTime(e, src, s)
 	case ast.UnaryExpr:
-- 
2.43.0


From 235b9163c74c648392cd7ef6a5f8c3e984a4868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 09/64] fix: report division by zero

---
 internal/prs/expr.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 5ea7958..1a4224b 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -98,6 +98,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Div:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				if x%y == 0 {
 					v = x / y
 				} else {
@@ -107,6 +113,12 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Rem:
 			switch y := y.(type) {
 			case val.Int:
+				if y == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.Y.Tok()},
+					}
+				}
 				v = x % y
 			}
 		case tok.Exp:
-- 
2.43.0


From e1c1c0f5ecf14db95104cfbd2a0e10306cf2732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 10/64] fix: compute integer exponentiation exactly

---
 internal/prs/expr.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 1a4224b..d93d6a4 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -124,7 +124,11 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Exp:
 			switch y := y.(type) {
 			case val.Int:
-				v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				if y < 0 {
+					v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				} else {
+					v = pow(x, y)
+				}
 			}
 		case tok.LShift:
 			switch y := y.(type) {
@@ -192,6 +196,18 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 	}
 }
 
+// pow returns x raised to the power of y, y must be natural.
+func pow(x, y val.Int) val.Int {
+	r := val.Int(1)
+	for ; y > 0; y >>= 1 {
+		if y&1 == 1 {
+			r *= x
+		}
+		x *= x
+	}
+	return r
+}
+
 func MakeBinaryExpr(be ast.BinaryExpr, src []byte, s Scope) (BinaryExpr, error) {
 	x, err := MakeExpr(be.X, src, s)
 	if err != nil {
-- 
2.43.0


From a2f46ba99be28b92ea02324d9fbb9e8a5269246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 11/64] fix: handle unary negation operator

---
 internal/ast/expr.go |  8 ++++++--
 internal/prs/expr.go | 11 ++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 9b6915b..112dd5c 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -345,8 +345,12 @@ tokenLoop:
 }
 
 func buildUnaryExpr(ctx *context) (UnaryExpr, error) {
-	op := ctx.tok().(tok.Operator)
-	un := UnaryExpr{Op: op}
+	un := UnaryExpr{Op: ctx.tok()}
+	op, ok := ctx.tok().(tok.Operator)
+	if !ok {
+		// Unary negation has the same precedence as remaining unary operators.
+		op = tok.Sub{}
+	}
 	ctx.idx++
 	x, err := buildExpr(ctx, op)
 	if err != nil {
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index d93d6a4..f7dd3f2 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -529,6 +529,7 @@ type UnaryOperator uint8
 const (
 	UnaryPlus = iota
 	UnaryMinus
+	UnaryNeg
 )
 
 type UnaryExpr struct {
@@ -548,12 +549,14 @@ func (ue UnaryExpr) Eval() (val.Value, error) {
 			return x, nil
 		case UnaryMinus:
 			return -x, nil
-		default:
-			panic("operator not yet supported")
 		}
 	}
 
-	return val.Int(0), fmt.Errorf("unary expression, unknown operand type '%s'", x.Type())
+	if x, ok := x.(val.Bool); ok && ue.op == UnaryNeg {
+		return !x, nil
+	}
+
+	return val.Int(0), fmt.Errorf("unary expression, invalid operand type '%s'", x.Type())
 }
 
 func MakeUnaryExpr(e ast.UnaryExpr, src []byte, s Scope) (UnaryExpr, error) {
@@ -563,6 +566,8 @@ func MakeUnaryExpr(e ast.UnaryExpr, src []byte, s Scope) (UnaryExpr, error) {
 		op = UnaryPlus
 	case "-":
 		op = UnaryMinus
+	case "!":
+		op = UnaryNeg
 	default:
 		return UnaryExpr{}, fmt.Errorf("make unary expression: invalid operator %s", text)
 	}
-- 
2.43.0


From 80c583c3eeb8c1374212e19838bf25c683dcc0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 12/64] fix: reject non-numeric arguments of ceil and floor

---
 internal/prs/call.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 5439258..9d33260 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -63,6 +63,8 @@ func evalCeil(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("invalid argument type '%s' for ceil function", arg.Type())
 	}
 
 	return val.Int(int64(math.Ceil(f))), nil
@@ -81,6 +83,8 @@ func evalFloor(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("invalid argument type '%s' for floor function", arg.Type())
 	}
 
 	return val.Int(int64(math.Floor(f))), nil
-- 
2.43.0


From 5a24170bab550018fb033ad19a9a228506f16f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 13/64] fix: report errors of array size evaluation

---
 internal/ins/common.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index f5b0051..6da4cc6 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -26,14 +26,14 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	if inst.IsArray() {
 		isArray = true
 		v, err := inst.Count().Eval()
+		if err != nil {
+			return fn.Func{}, fmt.Errorf("%v", err)
+		}
 
 		if v.Type() != "integer" {
 			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
 		}
 
-		if err != nil {
-			return fn.Func{}, fmt.Errorf("%v", err)
-		}
 		count = int64(v.(val.Int))
 		if count < 0 {
 			return fn.Func{}, tok.Error{
-- 
2.43.0


From 43eaa148a3cc1953051d9a58140923902b9981ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 14/64] fix: compute bit width of large ranges exactly

---
 pkg/fbdl/types/range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/range.go b/pkg/fbdl/types/range.go
index ce1ca78..11ca7df 100644
--- a/pkg/fbdl/types/range.go
+++ b/pkg/fbdl/types/range.go
@@ -1,6 +1,6 @@
 package types
 
-import "math"
+import "math/bits"
 
 // The Range interface represents range type from the FBDL specification.
 //
@@ -23,7 +23,7 @@ type SingleRange struct {
 func (sr SingleRange) isRange() {}
 
 func (sr SingleRange) BitWidth() int64 {
-	return int64(math.Ceil(math.Log2(float64(sr.End + 1))))
+	return int64(bits.Len64(uint64(sr.End)))
 }
 
 func (sr SingleRange) Shift(offset int64) SingleRange {
-- 
2.43.0


From e284e201f6b812b4f00babc91efd336b232dd36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 15/64] fix: convert negative integers to bit strings

---
 internal/val/bit_str.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index 009a3c7..af22d7c 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -3,6 +3,7 @@ package val
 import (
 	"fmt"
 	"math"
+	"math/big"
 )
 
 // BitStr represents FBDL bit string type.
@@ -149,21 +150,19 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 			)
 	}
 
-	if i >= 0 {
-		var s string
-		if width%4 == 0 {
-			s = fmt.Sprintf("x\"%0*x\"", width/4, i)
-		} else if width%3 == 0 {
-			s = fmt.Sprintf("o\"%0*o\"", width/3, i)
-		} else {
-			s = fmt.Sprintf("b\"%0*b\"", width, i)
-		}
-
-		return BitStr(s), nil
+	u := big.NewInt(i)
+	if i < 0 {
+		u.Add(u, new(big.Int).Lsh(big.NewInt(1), uint(width)))
 	}
 
-	// Negative value handling
-	panic("BitStrFromInt, negative value handling not yet implemented")
+	var s string
+	if width%4 == 0 {
+		s = fmt.Sprintf("x\"%0*x\"", width/4, u)
+	} else if width%3 == 0 {
+		s = fmt.Sprintf("o\"%0*o\"", width/3, u)
+	} else {
+		s = fmt.Sprintf("b\"%0*b\"", width, u)
+	}
 
-	//return BitStr(""), nil
+	return BitStr(s), nil
 }
-- 
2.43.0


From 2bfff62c0b13473b4960c5fc2f9d222671a888cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 16/64] fix: register widths of ArrayNRegs access occupying one
 register

---
 pkg/fbdl/types/access.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 48cb4cf..d37cd03 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -209,8 +209,10 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
+	endRegWidth := endBit + 1
 	if regCount == 1 {
-		startRegWidth = itemCount*width - startBit
+		startRegWidth = itemCount * width
+		endRegWidth = startRegWidth
 	}
 
 	return Access{
@@ -224,7 +226,7 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 		StartBit:      startBit,
 		EndBit:        endBit,
 		StartRegWidth: startRegWidth,
-		EndRegWidth:   endBit + 1,
+		EndRegWidth:   endRegWidth,
 	}
 }
 
-- 
2.43.0


From 7b5c027a40db86288ed6e0da6921eb82b6ea2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 17/64] fix: registerify non-atomic status arrays with
 partially filled end register

---
 internal/reg/status.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a10ddf4..a2a9881 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -109,9 +109,12 @@ func regNonAtomicStatusArray(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 		// TODO: This is a place for adding a potential Gap.
-	} else if busWidth%st.Width == 0 || st.Count <= busWidth/st.Width || st.Width < busWidth/2 {
+	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
 		// TODO: This is a place for adding a potential Gap.
+	} else if st.Width <= busWidth/2 {
+		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
+		// TODO: This is a place for adding a potential Gap.
 	} else if st.Width > busWidth {
 		acs = types.MakeArrayOneInNRegsAccess(st.Count, addr, st.Width)
 	} else {
-- 
2.43.0


From f2b2d159e7052a6f20d66e28d12aecb78a928b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 18/64] fix: detect duplicated names of irqs, groups and
 blackboxes in a block

---
 internal/util/block/block.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/util/block/block.go b/internal/util/block/block.go
index c8a3d49..ea55add 100644
--- a/internal/util/block/block.go
+++ b/internal/util/block/block.go
@@ -16,11 +16,26 @@ func AddStream(b *fn.Block, s *fn.Stream)      { b.Streams = append(b.Streams, s
 func AddSubblock(b *fn.Block, s *fn.Block)     { b.Subblocks = append(b.Subblocks, s) }
 
 func HasFunctionality(blk *fn.Block, name string) bool {
+	for i := range blk.Blackboxes {
+		if blk.Blackboxes[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Configs {
 		if blk.Configs[i].Name == name {
 			return true
 		}
 	}
+	for i := range blk.Groups {
+		if blk.Groups[i].Name == name {
+			return true
+		}
+	}
+	for i := range blk.Irqs {
+		if blk.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Masks {
 		if blk.Masks[i].Name == name {
 			return true
-- 
2.43.0


From 85183a6fc3f2bc5ac2c8a6bc18d2251fbd96e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 19/64] fix: detect duplicated names of irqs, params and
 returns in a group

---
 internal/util/group/group.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/util/group/group.go b/internal/util/group/group.go
index 1265cbd..d1cc27c 100644
--- a/internal/util/group/group.go
+++ b/internal/util/group/group.go
@@ -12,11 +12,26 @@ func HasFunctionality(grp *fn.Group, name string) bool {
 			return true
 		}
 	}
+	for i := range grp.Irqs {
+		if grp.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Masks {
 		if grp.Masks[i].Name == name {
 			return true
 		}
 	}
+	for i := range grp.Params {
+		if grp.Params[i].Name == name {
+			return true
+		}
+	}
+	for i := range grp.Returns {
+		if grp.Returns[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Statics {
 		if grp.Statics[i].Name == name {
 			return true
-- 
2.43.0


From abd950c117d65062c51125eea1b1eff0a151cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 20/64] fix: detect duplicated float constants in type chains

---
 internal/util/constContainer/constContainer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index ec9ae74..eb5941f 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -13,6 +13,9 @@ func HasConst(c cnst.Container, name string) bool {
 	if _, ok := c.BoolLists[name]; ok {
 		return true
 	}
+	if _, ok := c.Floats[name]; ok {
+		return true
+	}
 	if _, ok := c.Ints[name]; ok {
 		return true
 	}
-- 
2.43.0


From 88be45e813d0489b11307d285d7938dce236912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 21/64] fix: report location of the first instantiation on
 reinstantiation in a package

---
 internal/prs/pkg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 0697fa7..3cc262a 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -65,7 +65,7 @@ func (p *Package) addInst(i *Inst) error {
 		msg := `reinstantiation of '%s' in package '%s'
   %s:%d:%d
   %s:%d:%d`
-		first, _ := p.symbolContainer.GetConst(i.name)
+		first, _ := p.symbolContainer.GetInst(i.name)
 		return fmt.Errorf(
 			msg, i.name, p.Name,
 			first.File().Path, first.Line(), first.Col(),
-- 
2.43.0


From 208296cc497a59c6323d74ff1ed42129471d6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 22/64] fix: accept short file names in package directories

---
 internal/prs/prs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index e49ed09..2d1150d 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -55,7 +55,7 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		if file.IsDir() {
 			continue
 		}
-		if file.Name()[len(file.Name())-4:] != ".fbd" {
+		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
 
-- 
2.43.0


From 201083a9a97c50fccae378b56887e3c86deea331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 23/64] fix: ignore only the broken symlink when looking for
 packages

---
 internal/prs/pre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index cdbd022..d3d9aad 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -90,7 +90,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 			dePath, err = filepath.EvalSymlinks(dePath)
 			// If symlink returns an error, just ignore it.
 			if err != nil {
-				return
+				continue
 			}
 		}
 
-- 
2.43.0


From 7f07899e132df7ffef8535e288c0c4a37c932129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 24/64] fix: strip fbd- prefix from imported package name

---
 internal/prs/import.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/import.go b/internal/prs/import.go
index 311d636..3f4ee41 100644
--- a/internal/prs/import.go
+++ b/internal/prs/import.go
@@ -29,7 +29,7 @@ func buildImports(astImports []ast.Import, src []byte) []Import {
 			path = path[1 : len(path)-1]
 			// TODO: Should it be [0] or the last element?
 			name = strings.Split(path, string(os.PathSeparator))[0]
-			if len(name) > 4 && name[0:3] == "fbd-" {
+			if len(name) > 4 && name[0:4] == "fbd-" {
 				name = name[4:]
 			}
 		} else {
-- 
2.43.0


From 320d51fc796ebab2341660a99def72a4a65ae789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 25/64] fix: match import path only against whole path elements

---
 internal/prs/pkg.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 3cc262a..6fbaa68 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -2,6 +2,7 @@ package prs
 
 import (
 	"fmt"
+	"os"
 	"strings"
 	"sync"
 
@@ -16,7 +17,13 @@ func (packages Packages) GetMatching(path string) []*Package {
 
 	for _, pkgs := range packages {
 		for _, pkg := range pkgs {
-			if strings.HasSuffix(pkg.Path, path) {
+			prefix, ok := strings.CutSuffix(pkg.Path, path)
+			if !ok {
+				continue
+			}
+			// The path must match whole path elements, the "fbd-" prefix may be omitted.
+			prefix = strings.TrimSuffix(prefix, "fbd-")
+			if prefix == "" || strings.HasSuffix(prefix, string(os.PathSeparator)) {
 				ret = append(ret, pkg)
 			}
 		}
-- 
2.43.0


From 2a9ea96bc056ac22338db341b8bff5f163a10233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 26/64] fix: attach documentation to symbols in bodies and to
 types

---
 internal/ast/body.go  | 8 +++++++-
 internal/ast/build.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/ast/body.go b/internal/ast/body.go
index e04a3d1..742473a 100644
--- a/internal/ast/body.go
+++ b/internal/ast/body.go
@@ -37,13 +37,16 @@ tokenLoop:
 		case tok.Const:
 			consts, err = buildConst(ctx)
 			if len(consts) > 0 {
-				if doc.endLine() == consts[0].Name.Line()+1 {
+				if doc.endLine() == consts[0].Name.Line()-1 {
 					consts[0].Doc = doc
 				}
 				body.Consts = append(body.Consts, consts...)
 			}
 		case tok.Ident:
 			ins, err = buildInst(ctx)
+			if doc.endLine() == ins.Name.Line()-1 {
+				ins.Doc = doc
+			}
 			body.Insts = append(body.Insts, ins)
 		case tok.Property:
 			props, err = buildPropAssignments(ctx)
@@ -55,6 +58,9 @@ tokenLoop:
 			}
 		case tok.Type:
 			typ, err = buildType(ctx)
+			if doc.endLine() == typ.Name.Line()-1 {
+				typ.Doc = doc
+			}
 			body.Types = append(body.Types, typ)
 		case tok.Dedent:
 			ctx.idx++
diff --git a/internal/ast/build.go b/internal/ast/build.go
index a110f87..7ec00ef 100644
--- a/internal/ast/build.go
+++ b/internal/ast/build.go
@@ -54,6 +54,9 @@ func Build(src []byte, path string) (File, error) {
 			}
 		case tok.Type:
 			typ, err = buildType(&ctx)
+			if doc.endLine() == typ.Name.Line()-1 {
+				typ.Doc = doc
+			}
 			f.Types = append(f.Types, typ)
 		default:
 			return f, unexpected(t, "const, type, identifier, import or comment")
-- 
2.43.0


From 4dbd2c18d4a91220057c6434978e809cbeca72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 27/64] fix: do not drop single character documentation lines

---
 internal/ast/doc.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index 8a12d0d..f0eef2d 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -29,9 +29,7 @@ func (d Doc) Text(src []byte) string {
 			}
 		}
 
-		if len(t) > 2 {
-			text += t[start:]
-		}
+		text += t[start:]
 
 		if i < len(d.Lines)-1 {
 			text += "\n"
-- 
2.43.0


From 9e72f112b0fccbb3af1d12f80c3971801cac9c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 28/64] fix: accept documentation of the first constant in a
 multi constant definition

---
 internal/ast/const.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8a74ab5..bebc43f 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -73,6 +73,10 @@ tokenLoop:
 			case tok.Ident:
 				con.Name = t
 				state = Ass
+			case tok.Comment:
+				doc := buildDoc(ctx)
+				con.Doc = doc
+				ctx.idx--
 			default:
 				return nil, unexpected(t, "identifier")
 			}
-- 
2.43.0


From 58c0342d59737b26fbf16267aaa71580eb28b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 29/64] fix: report circular dependencies of constants

---
 internal/prs/const.go | 16 ++++++++++++++++
 internal/prs/expr.go  |  4 ++--
 internal/prs/type.go  | 14 ++++++++++----
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/internal/prs/const.go b/internal/prs/const.go
index ff69f97..3baf94c 100644
--- a/internal/prs/const.go
+++ b/internal/prs/const.go
@@ -5,12 +5,28 @@ import (
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ast"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
 
 // Const represents constant definition.
 type Const struct {
 	symbol
 	Value Expr
+
+	evaluating bool
+}
+
+// Eval evaluates value of the constant.
+// It returns an error if the value of the constant depends on the constant itself.
+func (c *Const) Eval() (val.Value, error) {
+	if c.evaluating {
+		return nil, fmt.Errorf("circular dependency of constant")
+	}
+
+	c.evaluating = true
+	defer func() { c.evaluating = false }()
+
+	return c.Value.Eval()
 }
 
 func (c Const) Kind() SymbolKind { return ConstDef }
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index f7dd3f2..880f20d 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -385,7 +385,7 @@ func (di DeclaredIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating identifier '%s': %v", di.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.Eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant identifier '%s': %v", di.x, err)
 	}
@@ -407,7 +407,7 @@ func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': %v", qi.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.Eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant qualified identifier '%s': %v", qi.x, err)
 	}
diff --git a/internal/prs/type.go b/internal/prs/type.go
index b69e706..a5e67aa 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -16,7 +16,7 @@ type Type struct {
 	count Expr
 
 	params       []Param
-	paramValues  map[string]Expr // Values currently bound to the parameters.
+	paramValues  map[string]*Const // Values currently bound to the parameters.
 	args         ArgList
 	resolvedArgs map[string]Expr // Arguments for the parent type parameters.
 
@@ -30,8 +30,8 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.paramValues[name]; ok {
-		return &Const{Value: v}, nil
+	if c, ok := t.paramValues[name]; ok {
+		return c, nil
 	}
 
 	return t.scope.GetConst(name)
@@ -61,12 +61,18 @@ func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
-func (t *Type) SetParamValues(pv map[string]Expr)  { t.paramValues = pv }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool                       { return false }
 func (t Type) Count() Expr                         { return t.count }
 
+func (t *Type) SetParamValues(pv map[string]Expr) {
+	t.paramValues = make(map[string]*Const)
+	for name, v := range pv {
+		t.paramValues[name] = &Const{Value: v}
+	}
+}
+
 // buildTypes builds list of Types based on the list of ast.Type.
 func buildTypes(astTypes []ast.Type, src []byte) ([]*Type, error) {
 	types := make([]*Type, 0, len(astTypes))
-- 
2.43.0


From e50f4586b3a38b36d5cddbd93892cf1b21f299a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 30/64] fix: report circular type definitions

---
 internal/ins/ins.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 9129867..3262695 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -4,6 +4,7 @@ package ins
 import (
 	"fmt"
 	"log"
+	"slices"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
@@ -153,8 +154,21 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 }
 
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
+	return resolveTypeChain(f, nil)
+}
+
+// resolveTypeChain resolves type chain of the functionality f.
+// Descendants are functionalities which type chains f belongs to.
+func resolveTypeChain(f prs.Functionality, descendants []prs.Functionality) []prs.Functionality {
 	typeChain := []prs.Functionality{}
 
+	if slices.Contains(descendants, f) {
+		log.Fatalf(
+			"%s:%d:%d: circular definition of type '%s'",
+			f.File().Path, f.Line(), f.Col(), f.Name(),
+		)
+	}
+
 	if !util.IsBaseType(f.Type()) {
 		var s prs.Symbol
 		var err error
@@ -171,7 +185,7 @@ func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 		}
 		typeFn := s.(prs.Functionality)
 
-		typeChain = append(typeChain, resolveToBaseType(typeFn)...)
+		typeChain = append(typeChain, resolveTypeChain(typeFn, append(descendants, f))...)
 	}
 
 	typeChain = append(typeChain, f)
-- 
2.43.0


From 1349ccfa631cff7a122ee887cddec38b6b9fa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 31/64] fix: report recursive instantiations

---
 internal/ins/ins.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 3262695..35f5dec 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -106,7 +106,16 @@ func hasParamWithoutDfltValue(t *prs.Type) bool {
 	return false
 }
 
+// Functionalities being currently instantiated.
+var beingInstantiated = make(map[prs.Functionality]bool)
+
 func insFunctionality(pf prs.Functionality) fn.Functionality {
+	if beingInstantiated[pf] {
+		log.Fatalf("%s:%s: recursive instantiation of '%s'", pf.File().Path, pf.Loc(), pf.Name())
+	}
+	beingInstantiated[pf] = true
+	defer delete(beingInstantiated, pf)
+
 	typeChain := resolveToBaseType(pf)
 
 	var f fn.Functionality
-- 
2.43.0


From 8567a5c216c23ba1a77fe59d81329afe45bf742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 32/64] fix: set bus width from the whole type chain of the
 main bus

---
 internal/ins/ins.go | 57 +++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 35f5dec..ebf77d3 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -17,28 +17,51 @@ const dfltBusWidth int64 = 32
 
 var busWidth int64
 
+// setBusWidth sets bus width based on the 'width' property from the type chain of the main bus.
 func setBusWidth(main *prs.Inst) error {
-	prop, ok := main.Props().Get("width")
-	if !ok {
-		busWidth = dfltBusWidth
-		return nil
-	}
+	busWidth = dfltBusWidth
 
-	v, err := prop.Value.Eval()
-	if err != nil {
+	typeChain := resolveToBaseType(main)
+	if typ := typeChain[0].Type(); typ != "bus" {
 		return fmt.Errorf(
-			"%s:%s: cannot evaluate main bus 'width' property",
-			main.File().Path, prop.Loc(),
+			"%s:%s: main bus '%s' must be of type bus, current type %s",
+			main.File().Path, main.Loc(), main.Name(), typ,
 		)
 	}
 
-	if vi, ok := v.(val.Int); ok {
+	err := bindParams(typeChain)
+	if err != nil {
+		return fmt.Errorf("%s:%s: %v", main.File().Path, main.Loc(), err)
+	}
+
+	for _, f := range typeChain {
+		prop, ok := f.Props().Get("width")
+		if !ok {
+			continue
+		}
+
+		v, err := prop.Value.Eval()
+		if err != nil {
+			return fmt.Errorf(
+				"%s:%s: cannot evaluate main bus 'width' property",
+				f.File().Path, prop.Loc(),
+			)
+		}
+
+		vi, ok := v.(val.Int)
+		if !ok {
+			return fmt.Errorf(
+				"%s:%s: main bus 'width' property must be of integer type, current type %s",
+				f.File().Path, prop.Loc(), v.Type(),
+			)
+		}
+		if vi < 1 {
+			return fmt.Errorf(
+				"%s:%s: main bus 'width' property must be positive, current value %d",
+				f.File().Path, prop.Loc(), vi,
+			)
+		}
 		busWidth = int64(vi)
-	} else {
-		return fmt.Errorf(
-			"%s:%s: main bus 'width' property must be of integer type, current type %s",
-			main.File().Path, prop.Loc(), v.Type(),
-		)
 	}
 
 	return nil
@@ -53,12 +76,12 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	}
 	log.Printf("debug: instantiating '%s' as the main bus", mainName)
 
-	err = setBusWidth(main)
+	err = resolveArgLists(packages)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
 
-	err = resolveArgLists(packages)
+	err = setBusWidth(main)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
-- 
2.43.0


From 86fc4fb3179b7464124578d7b74f8ddead3f0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:50 +0000
Subject: [PATCH 33/64] fix: reject bus properties in blocks of user defined
 types

---
 internal/ins/block.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 7fe70c4..756136d 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -32,7 +32,7 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 		if !ok {
 			break
 		}
-		err := applyBlockType(&blk, typ)
+		err := applyBlockType(&blk, typ, typeChain[0].Type())
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -43,9 +43,9 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 	return &blk, nil
 }
 
-func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
+func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error {
 	for _, p := range typ.Props() {
-		if err := util.IsValidProperty(p.Name, "bus"); err != nil {
+		if err := util.IsValidProperty(p.Name, baseType); err != nil {
 			return fmt.Errorf(": %v", err)
 		}
 		if err := checkProp(p); err != nil {
-- 
2.43.0


From 954f825f8fe38e82c73c6b571e9caacc8e297410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 34/64] fix: report proper property name when blackbox size is
 already set

---
 internal/ins/blackbox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index e3f2658..dbd2e9f 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -65,7 +65,7 @@ func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
 		switch p.Name {
 		case "size":
 			if bb.Size != 0 {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "masters")
+				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "size")
 			}
 			bb.Size = int64(v.(val.Int))
 		default:
-- 
2.43.0


From d88f03986535fb3547f6adaaf2d4d8d67e7b582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 35/64] fix: report location of the conflicting range property

---
 internal/prs/check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/check.go b/internal/prs/check.go
index dc28aa3..41b1d0e 100644
--- a/internal/prs/check.go
+++ b/internal/prs/check.go
@@ -19,7 +19,7 @@ func checkPropConflict(typ string, prop Prop, props PropContainer) error {
 
 	if r, ok := props.Get("range"); ok {
 		if prop.Name == "width" {
-			return fmt.Errorf(msg, "width", "range", r.Line, r.Col)
+			return fmt.Errorf(msg, "width", "range", r.Line(), r.Col())
 		}
 	}
 
-- 
2.43.0


From 40dc44ee01327a87682503402ec42c90904295a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 36/64] fix: keep ID and TIMESTAMP values and accesses
 consistent with their widths

---
 internal/reg/reg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index 6331b57..dd20b79 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -58,7 +58,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 		hash = hash & ((1 << busWidth) - 1)
 	}
 	// Ignore error, the value has been trimmed to the proper width.
-	val, _ := val.BitStrFromInt(val.Int(hash), busWidth)
+	val, _ := val.BitStrFromInt(val.Int(hash), id.Width)
 	id.InitValue = types.MakeBitStr(val)
 	bus.Statics = append(bus.Statics, id)
 
@@ -67,7 +67,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 			log.Fatalf("'TIMESTAMP' is reserved functionality name in main bus")
 		}
 		ts := timestamp()
-		ts.Access = types.MakeSingleAccess(timestampAddr, 0, busWidth)
+		ts.Access = types.MakeSingleAccess(timestampAddr, 0, ts.Width)
 		bus.Statics = append(bus.Statics, ts)
 	}
 }
-- 
2.43.0


From 9109fd32a28032d33be061e38dd999176ebab773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 37/64] fix: report missing symbol name in qualified identifier

---
 internal/tok/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 7c90801..3dec389 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -759,6 +759,9 @@ func parseHexInt(ctx *context) (Int, error) {
 func isValidQualifiedIdentifier(qi []byte) bool {
 	aux := bytes.Split(qi, []byte("."))
 	sym := aux[1]
+	if len(sym) == 0 {
+		return false
+	}
 	r := []rune(string(sym))[0]
 	return unicode.IsUpper(r) || unicode.IsLower(r)
 }
-- 
2.43.0


From b996f20a1a21328fafe41171806331b367ef801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 38/64] fix: report qualified identifier used as a function
 name

---
 internal/ast/expr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 112dd5c..9a2513b 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -305,7 +305,11 @@ tokenLoop:
 }
 
 func buildCallExpr(ctx *context) (Call, error) {
-	call := Call{Name: ctx.tok().(tok.Ident)}
+	name, ok := ctx.tok().(tok.Ident)
+	if !ok {
+		return Call{}, unexpected(ctx.tok(), "function name")
+	}
+	call := Call{Name: name}
 	lpi := ctx.idx // Left parenthesis token index
 	ctx.idx += 2
 
-- 
2.43.0


From 34e4060a8914b7231026e6fc587fef2773a5dbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 39/64] fix: report errors of package constants evaluation

---
 internal/ins/const.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ins/const.go b/internal/ins/const.go
index 0c3f184..6f6e5d0 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -1,6 +1,8 @@
 package ins
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
@@ -28,7 +30,7 @@ func constifyPkg(pp *prs.Package) *pkg.Package {
 	for _, c := range pp.Consts {
 		v, err := c.Value.Eval()
 		if err != nil {
-			panic("not yet implemented")
+			log.Fatalf("%s:%s: cannot evaluate constant '%s': %v", c.File().Path, c.Loc(), c.Name(), err)
 		}
 		constContainer.AddConst(&p.Consts, c.Name(), v)
 	}
-- 
2.43.0


From 0dc24c89cde3ed0f902fa7e3567c4b6970045e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:51 +0000
Subject: [PATCH 40/64] fix: do not panic on constants which cannot be stored
 in the constants container

---
 internal/util/constContainer/constContainer.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index eb5941f..d16a596 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -31,8 +31,8 @@ func HasConst(c cnst.Container, name string) bool {
 
 func AddConst(c *cnst.Container, name string, v val.Value) {
 	switch v.(type) {
-	case val.BitStr:
-		panic("not yet implemented")
+	case val.BitStr, val.Range, val.Time:
+		// Constants of these types are valid, however they cannot be stored in the container yet.
 	case val.Bool:
 		addBoolConst(c, name, v)
 	case val.Float:
@@ -40,17 +40,16 @@ func AddConst(c *cnst.Container, name string, v val.Value) {
 	case val.Int:
 		addIntConst(c, name, v)
 	case val.List:
+		if len(v.(val.List)) == 0 {
+			return
+		}
 		switch v.(val.List)[0].(type) {
-		case val.BitStr:
-			panic("not yet implemented")
 		case val.Bool:
 			addBoolListConst(c, name, v)
 		case val.Int:
 			addIntListConst(c, name, v)
-		case val.Str:
-			panic("not yet implemented")
 		default:
-			panic("should never happen")
+			// Lists with elements of remaining types cannot be stored in the container yet.
 		}
 	case val.Str:
 		addStrConst(c, name, v)
-- 
2.43.0


From 37c9752c803f95b82155de43b4c6c53bf19275c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 41/64] fix: reject bus instantiation within a block

---
 internal/ins/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 756136d..8d9eb22 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -106,6 +106,11 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 			continue
 		}
 
+		baseType := resolveToBaseType(s.(prs.Functionality))[0].Type()
+		if baseType == "bus" {
+			return fmt.Errorf(invalidInnerTypeMsg, s.Name(), baseType, "block")
+		}
+
 		f := insFunctionality(s.(prs.Functionality))
 
 		if !util.IsValidInnerType(f.Type(), "block") {
-- 
2.43.0


From 9617a40032fd9c50a75ba9b212b30f4795df1fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 42/64] fix: do not skip a register after irq with enable and
 without explicit clear

---
 internal/reg/irq.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index 7e5e5eb..8f99886 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -32,10 +32,17 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 
 	irq.Access = types.MakeSingleAccess(addr, 0, 1)
 	if irq.AddEnable {
-		irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
-		addr++
+		if busWidth > 1 {
+			irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		} else {
+			addr++
+			irq.EnableAccess = types.MakeSingleAccess(addr, 0, 1)
+		}
 	}
 	if irq.Clear == "Explicit" {
+		if irq.AddEnable {
+			addr++
+		}
 		clrAddr := addr
 		irq.ClearAddr = &clrAddr
 	}
-- 
2.43.0


From fb93b8b5436191e0e6cdbe456d0e3f811ac42a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 43/64] fix: start register width of ArrayNInRegMInEndReg
 access occupying one register

---
 pkg/fbdl/types/access.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index d37cd03..dd7ef1e 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -297,6 +297,11 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 
 	regCount := int64(math.Ceil(float64(itemCount) / float64(itemsInReg)))
 
+	startRegWidth := width * itemsInReg
+	if regCount == 1 {
+		startRegWidth = width * itemsInEndReg
+	}
+
 	return Access{
 		Type:          "ArrayNInRegMInEndReg",
 		RegCount:      regCount,
@@ -307,7 +312,7 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 		EndAddr:       startAddr + regCount - 1,
 		StartBit:      0,
 		EndBit:        itemsInEndReg*width - 1,
-		StartRegWidth: width * itemsInReg,
+		StartRegWidth: startRegWidth,
 		EndRegWidth:   width * itemsInEndReg,
 	}
 }
-- 
2.43.0


From e113535cfcc76827c1c23ba825bd0bbebe32dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 44/64] fix: exact log10 of powers of 10 and errors for
 logarithms of non-positive numbers

---
 internal/prs/call.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 9d33260..a60551a 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -112,6 +112,10 @@ func evalLog2(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("log2 argument must be positive, current value %v", f)
+	}
+
 	r := math.Log2(f)
 	if r == float64(int64(r)) {
 		return val.Int(int64(r)), nil
@@ -142,9 +146,14 @@ func evalLog10(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", argType)
 	}
 
+	if f <= 0 {
+		return nil, fmt.Errorf("log10 argument must be positive, current value %v", f)
+	}
+
 	r := math.Log10(f)
-	if r == float64(int64(r)) {
-		return val.Int(int64(r)), nil
+	// Logarithms of powers of 10 might be inexact.
+	if i := math.Round(r); math.Pow10(int(i)) == f {
+		return val.Int(int64(i)), nil
 	}
 
 	return val.Float(r), nil
-- 
2.43.0


From 1e22165f2cf48cca655ea59fec6f598ab01bce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:54 +0000
Subject: [PATCH 45/64] fix: do not truncate results of exponentiation with
 negative exponent

---
 internal/prs/expr.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 880f20d..c0cdcaa 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -124,8 +124,15 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Exp:
 			switch y := y.(type) {
 			case val.Int:
-				if y < 0 {
-					v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				if y < 0 && x == 0 {
+					return nil, tok.Error{
+						Msg:  "division by zero",
+						Toks: []tok.Token{be.ast.X.Tok()},
+					}
+				} else if y < 0 && x != 1 && x != -1 {
+					v = val.Float(math.Pow(float64(x), float64(y)))
+				} else if y < 0 {
+					v = pow(x, -y)
 				} else {
 					v = pow(x, y)
 				}
-- 
2.43.0


From 29efb773f4101b914437b78fc09a397c136021a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:40 +0000
Subject: [PATCH 46/64] fix: reject virtual irq, param and return groups made
 virtual by descendant type

---
 internal/ins/group.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ins/group.go b/internal/ins/group.go
index 7699b5b..d16c612 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -162,6 +162,11 @@ func addGroupInnerElement(grp *fn.Group, f any) error {
 }
 
 func checkGroup(grp fn.Group) error {
+	// The virtual property might be set in the type chain after the inner functionality instantiation.
+	if grp.Virtual && (len(grp.Irqs) > 0 || len(grp.Params) > 0 || len(grp.Returns) > 0) {
+		return fmt.Errorf("group '%s' with irqs, params or returns cannot be virtual", grp.Name)
+	}
+
 	if len(grp.Irqs) > 0 {
 		return checkIrqGroup(grp)
 	}
-- 
2.43.0


From 5778238397cc1c8bf367cf51bd789f74b0ed8f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:49 +0000
Subject: [PATCH 47/64] fix: reject functionalities instantiated in
 functionalities without inner functionalities

---
 internal/ins/common.go | 27 +++++++++++++++++++++++++++
 internal/ins/ins.go    |  5 +++++
 2 files changed, 32 insertions(+)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index 6da4cc6..b8164c6 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -51,6 +51,33 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	}, nil
 }
 
+// checkNoInnerFunctionality returns an error if functionality of the base type
+// which does not accept any inner functionality has an inner functionality.
+func checkNoInnerFunctionality(typeChain []prs.Functionality) error {
+	baseType := typeChain[0].Type()
+
+	switch baseType {
+	case "blackbox", "config", "irq", "mask", "param", "return", "static", "status":
+	default:
+		return nil
+	}
+
+	for _, t := range typeChain {
+		for _, s := range t.Symbols() {
+			if inst, ok := s.(*prs.Inst); ok {
+				return tok.Error{
+					Msg: fmt.Sprintf(
+						invalidInnerTypeMsg, inst.Name(), resolveToBaseType(inst)[0].Type(), baseType,
+					),
+					Toks: []tok.Token{inst.Tok()},
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 // processValue processes the '*-value' property.
 // If the value is BitStr, it checks whether its width is not greater than the width.
 // If the value is Int, it tries to convert it to the BitStr with width of width argument.
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index ebf77d3..e339616 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -149,6 +149,11 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	}
 
 	typ := typeChain[0].Type()
+	err = checkNoInnerFunctionality(typeChain)
+	if err != nil {
+		log.Fatalf("%v", err)
+	}
+
 	switch typ {
 	case "blackbox":
 		f, err = insBlackbox(typeChain)
-- 
2.43.0


From 268c7ca313543f82de3dfc5a6b1bdbf5dba19f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 48/64] fix: reject blackbox size set again in type chain after
 being set to 0

---
 internal/ins/blackbox.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index dbd2e9f..50aed8d 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -11,6 +11,10 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 )
 
+type blackboxDiary struct {
+	sizeSet bool
+}
+
 func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 	typeChainStr := fmt.Sprintf("debug: instantiating blackbox, type chain: %s", typeChain[0].Name())
 	for i := 1; i < len(typeChain); i++ {
@@ -25,13 +29,15 @@ func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 	bb := fn.Blackbox{}
 	bb.Func = f
 
+	diary := blackboxDiary{}
+
 	tci := typeChainIter(typeChain)
 	for {
 		typ, ok := tci()
 		if !ok {
 			break
 		}
-		err := applyBlackboxType(&bb, typ)
+		err := applyBlackboxType(&bb, typ, &diary)
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -48,7 +54,7 @@ func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 	return &bb, nil
 }
 
-func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
+func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality, diary *blackboxDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "blackbox"); err != nil {
 			return fmt.Errorf(": %v", err)
@@ -64,10 +70,11 @@ func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
 
 		switch p.Name {
 		case "size":
-			if bb.Size != 0 {
+			if diary.sizeSet {
 				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "size")
 			}
 			bb.Size = int64(v.(val.Int))
+			diary.sizeSet = true
 		default:
 			panic(fmt.Sprintf("unhandled '%s' property", p.Name))
 		}
-- 
2.43.0


From 2e424cf43e0b4645186b749bb2f2cb7f49687849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:19 +0000
Subject: [PATCH 49/64] fix: show exactly the line of the token in error
 messages

The end of file token was shown with a byte from outside of the source,
and multiple newlines were shown and underlined as a part of the line.
---
 internal/tok/error.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/internal/tok/error.go b/internal/tok/error.go
index cbb7175..1470608 100644
--- a/internal/tok/error.go
+++ b/internal/tok/error.go
@@ -62,19 +62,13 @@ func (err Error) code(tok Token) string {
 		lineStartIdx--
 	}
 
-	lineEndIdx := tok.End()
-	if _, ok := tok.(Newline); !ok {
-		for lineEndIdx < len(src)-1 {
-			if src[lineEndIdx+1] == '\n' {
-				break
-			}
-			lineEndIdx++
-		}
-	} else {
-		lineEndIdx--
+	// Index of the first byte after the line
+	lineEndIdx := lineStartIdx
+	for lineEndIdx < len(src) && src[lineEndIdx] != '\n' {
+		lineEndIdx++
 	}
 
-	line := src[lineStartIdx : lineEndIdx+1]
+	line := src[lineStartIdx:lineEndIdx]
 
 	b.WriteRune(' ')
 	b.WriteString(lineNum)
@@ -98,7 +92,9 @@ func (err Error) code(tok Token) string {
 
 	colorPrefix, colorSuffix := err.getColor()
 	b.WriteString(colorPrefix)
-	for col < tok.Column()+(tok.End()-tok.Start()+1) {
+	// Underline at least one character, but do not go beyond the line.
+	underlineEndIdx := max(tok.Start(), min(tok.End(), lineEndIdx-1))
+	for col < tok.Column()+(underlineEndIdx-tok.Start()+1) {
 		b.WriteRune('^')
 		col++
 	}
-- 
2.43.0


From d252a734f067733782d664b6bad3e824558a2ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:22 +0000
Subject: [PATCH 50/64] fix: strings containing newlines

The end of the string token was wrong, as well as the position
of all following tokens.
---
 internal/tok/parse.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 3dec389..9017350 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -510,10 +510,11 @@ func parseString(ctx *context) (String, error) {
 			return t, Error{"unterminated string, probably missing '\"'", []Token{t}}
 		}
 		b := ctx.byte()
-		if b != '\n' {
-			t.end++
-		}
-		if b == '"' {
+		t.end++
+		if b == '\n' {
+			ctx.nlIdx = ctx.idx
+			ctx.line++
+		} else if b == '"' {
 			break
 		}
 	}
-- 
2.43.0


From 6455ab3c5e3ec69c1ed42bde6ef7734cc8c33969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:09 +0000
Subject: [PATCH 51/64] fix: comments between imports of multi import

---
 internal/ast/import.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ast/import.go b/internal/ast/import.go
index f9b8d46..59e4321 100644
--- a/internal/ast/import.go
+++ b/internal/ast/import.go
@@ -73,7 +73,7 @@ tokenLoop:
 				i.Path = t
 				imps = append(imps, i)
 				i = Import{}
-			case tok.Newline:
+			case tok.Newline, tok.Comment:
 				// Do nothing
 			case tok.Dedent:
 				ctx.idx++
-- 
2.43.0


From 18c7dc883491275743c012390807f8ccab9fb7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:58 +0000
Subject: [PATCH 52/64] fix: locate property errors found along the type chain

---
 internal/ins/blackbox.go |  4 ++--
 internal/ins/block.go    | 11 ++++++-----
 internal/ins/common.go   | 20 ++++++++++++++++++--
 internal/ins/config.go   | 19 ++++++++++---------
 internal/ins/group.go    |  4 ++--
 internal/ins/irq.go      | 15 ++++++++-------
 internal/ins/mask.go     | 13 +++++++------
 internal/ins/param.go    | 11 ++++++-----
 internal/ins/proc.go     |  5 +++--
 internal/ins/return.go   |  5 +++--
 internal/ins/static.go   | 10 +++++-----
 internal/ins/status.go   |  9 +++++----
 internal/ins/stream.go   |  4 ++--
 13 files changed, 77 insertions(+), 53 deletions(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index 50aed8d..53b42d9 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -57,7 +57,7 @@ func insBlackbox(typeChain []prs.Functionality) (*fn.Blackbox, error) {
 func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality, diary *blackboxDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "blackbox"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return fmt.Errorf("%s: %v", p.Loc(), err)
@@ -71,7 +71,7 @@ func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality, diary *blackboxDi
 		switch p.Name {
 		case "size":
 			if diary.sizeSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "size")
+				return propAlreadySetError(p)
 			}
 			bb.Size = int64(v.(val.Int))
 			diary.sizeSet = true
diff --git a/internal/ins/block.go b/internal/ins/block.go
index 8d9eb22..ddfa8e3 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -5,6 +5,7 @@ import (
 	"log"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/block"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
@@ -46,7 +47,7 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, baseType); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return err
@@ -60,22 +61,22 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 		switch p.Name {
 		case "align":
 			if blk.Align != 0 {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "align")
+				return propAlreadySetError(p)
 			}
 			blk.Align = int64(v.(val.Int))
 		case "masters":
 			if blk.Masters != 0 {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "masters")
+				return propAlreadySetError(p)
 			}
 			blk.Masters = int64(v.(val.Int))
 		case "reset":
 			if blk.Reset != "" {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "reset")
+				return propAlreadySetError(p)
 			}
 			blk.Reset = string(v.(val.Str))
 		case "width":
 			if blk.Width != 0 {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "width")
+				return propAlreadySetError(p)
 			}
 			width := int64(v.(val.Int))
 			blk.Width = width
diff --git a/internal/ins/common.go b/internal/ins/common.go
index b8164c6..1822b3b 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -9,11 +9,27 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 )
 
-const propAlreadySetMsg string = "%s: cannot set '%s' property as it is already set in one of ancestor types"
-const propConflictMsg string = "%s: cannot set '%s' property because '%s' property is already set in one of ancestor types"
 const invalidInnerTypeMsg string = "'%s' of base type '%s' cannot be instantiated in functionality of base type '%s'"
 const funcWithNameAlreadyInstMsg string = "cannot instantiate '%s', functionality with such name is already instantiated in one of ancestor types"
 
+// propAlreadySetError returns error for property set more than once in the type chain.
+func propAlreadySetError(p prs.Prop) error {
+	return tok.Error{
+		Msg:  fmt.Sprintf("cannot set '%s' property as it is already set in one of ancestor types", p.Name),
+		Toks: []tok.Token{p.NameTok},
+	}
+}
+
+// propConflictError returns error for property conflicting with the property already set in the type chain.
+func propConflictError(p prs.Prop, name string) error {
+	return tok.Error{
+		Msg: fmt.Sprintf(
+			"cannot set '%s' property because '%s' property is already set in one of ancestor types", p.Name, name,
+		),
+		Toks: []tok.Token{p.NameTok},
+	}
+}
+
 func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	// Instantiation is always the last one in the type chain.
 	inst := typeChain[len(typeChain)-1]
diff --git a/internal/ins/config.go b/internal/ins/config.go
index daf73f9..8a5dbaa 100644
--- a/internal/ins/config.go
+++ b/internal/ins/config.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
@@ -56,7 +57,7 @@ func insConfig(typeChain []prs.Functionality) (*fn.Config, error) {
 func applyConfigType(cfg *fn.Config, typ prs.Functionality, diary *configDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "config"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return err
@@ -70,22 +71,22 @@ func applyConfigType(cfg *fn.Config, typ prs.Functionality, diary *configDiary)
 		switch p.Name {
 		case "atomic":
 			if diary.atomicSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "atomic")
+				return propAlreadySetError(p)
 			}
 			cfg.Atomic = (bool(v.(val.Bool)))
 			diary.atomicSet = true
 		case "init-value":
 			if diary.initValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "init-value")
+				return propAlreadySetError(p)
 			}
 			diary.initVal = v
 			diary.initValSet = true
 		case "range":
 			if diary.rangeSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "range")
+				return propAlreadySetError(p)
 			}
 			if diary.widthSet {
-				return fmt.Errorf(propConflictMsg, p.Loc(), "range", "width")
+				return propConflictError(p, "width")
 			}
 
 			switch rng := v.(type) {
@@ -109,22 +110,22 @@ func applyConfigType(cfg *fn.Config, typ prs.Functionality, diary *configDiary)
 			diary.rangeSet = true
 		case "read-value":
 			if diary.readValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "read-value")
+				return propAlreadySetError(p)
 			}
 			diary.readVal = v
 			diary.readValSet = true
 		case "reset-value":
 			if diary.resetValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "reset-value")
+				return propAlreadySetError(p)
 			}
 			diary.resetVal = v
 			diary.resetValSet = true
 		case "width":
 			if diary.widthSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "width")
+				return propAlreadySetError(p)
 			}
 			if diary.rangeSet {
-				return fmt.Errorf(propConflictMsg, p.Loc(), "width", "range")
+				return propConflictError(p, "range")
 			}
 			cfg.Width = int64(v.(val.Int))
 			diary.widthSet = true
diff --git a/internal/ins/group.go b/internal/ins/group.go
index d16c612..0b8b9c7 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -66,7 +66,7 @@ func insGroup(typeChain []prs.Functionality) (*fn.Group, error) {
 func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "group"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return err
@@ -80,7 +80,7 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 		switch p.Name {
 		case "virtual":
 			if diary.virtualSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "virtual")
+				return propAlreadySetError(p)
 			}
 
 			grp.Virtual = bool(v.(val.Bool))
diff --git a/internal/ins/irq.go b/internal/ins/irq.go
index e20b27e..693cf5c 100644
--- a/internal/ins/irq.go
+++ b/internal/ins/irq.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
@@ -55,7 +56,7 @@ func insIrq(typeChain []prs.Functionality) (*fn.Irq, error) {
 func applyIrqType(irq *fn.Irq, typ prs.Functionality, diary *irqDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "irq"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return err
@@ -69,37 +70,37 @@ func applyIrqType(irq *fn.Irq, typ prs.Functionality, diary *irqDiary) error {
 		switch p.Name {
 		case "add-enable":
 			if diary.addEnableSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "add-enable")
+				return propAlreadySetError(p)
 			}
 			irq.AddEnable = (bool(v.(val.Bool)))
 			diary.addEnableSet = true
 		case "clear":
 			if diary.clearSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "clear")
+				return propAlreadySetError(p)
 			}
 			irq.Clear = (string(v.(val.Str)))
 			diary.clearSet = true
 		case "enable-init-value":
 			if diary.enableInitValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "enable-init-value")
+				return propAlreadySetError(p)
 			}
 			diary.enableInitVal = v
 			diary.enableInitValSet = true
 		case "enable-reset-value":
 			if diary.enableResetValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "enable-reset-value")
+				return propAlreadySetError(p)
 			}
 			diary.enableResetVal = v
 			diary.enableResetValSet = true
 		case "in-trigger":
 			if diary.inTriggerSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "in-trigger")
+				return propAlreadySetError(p)
 			}
 			irq.InTrigger = (string(v.(val.Str)))
 			diary.inTriggerSet = true
 		case "out-trigger":
 			if diary.outTriggerSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "out-trigger")
+				return propAlreadySetError(p)
 			}
 			irq.OutTrigger = (string(v.(val.Str)))
 			diary.outTriggerSet = true
diff --git a/internal/ins/mask.go b/internal/ins/mask.go
index a9bffdd..3c1ac3f 100644
--- a/internal/ins/mask.go
+++ b/internal/ins/mask.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
@@ -55,7 +56,7 @@ func insMask(typeChain []prs.Functionality) (*fn.Mask, error) {
 func applyMaskType(mask *fn.Mask, typ prs.Functionality, diary *maskDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "mask"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return err
@@ -69,31 +70,31 @@ func applyMaskType(mask *fn.Mask, typ prs.Functionality, diary *maskDiary) error
 		switch p.Name {
 		case "atomic":
 			if diary.atomicSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "atomic")
+				return propAlreadySetError(p)
 			}
 			mask.Atomic = bool(v.(val.Bool))
 			diary.atomicSet = true
 		case "init-value":
 			if diary.initValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "init-value")
+				return propAlreadySetError(p)
 			}
 			diary.initVal = v
 			diary.initValSet = true
 		case "read-value":
 			if diary.readValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "read-value")
+				return propAlreadySetError(p)
 			}
 			diary.readVal = v
 			diary.readValSet = true
 		case "reset-value":
 			if diary.resetValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "reset-value")
+				return propAlreadySetError(p)
 			}
 			diary.resetVal = v
 			diary.resetValSet = true
 		case "width":
 			if diary.widthSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "width")
+				return propAlreadySetError(p)
 			}
 			mask.Width = int64(v.(val.Int))
 			diary.widthSet = true
diff --git a/internal/ins/param.go b/internal/ins/param.go
index 6c4f1f5..1eaa21b 100644
--- a/internal/ins/param.go
+++ b/internal/ins/param.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
@@ -45,7 +46,7 @@ func insParam(typeChain []prs.Functionality) (*fn.Param, error) {
 func applyParamType(param *fn.Param, typ prs.Functionality, diary *paramDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "param"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return fmt.Errorf("%s: %v", p.Loc(), err)
@@ -59,10 +60,10 @@ func applyParamType(param *fn.Param, typ prs.Functionality, diary *paramDiary) e
 		switch p.Name {
 		case "range":
 			if diary.rangeSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "range")
+				return propAlreadySetError(p)
 			}
 			if diary.widthSet {
-				return fmt.Errorf(propConflictMsg, p.Loc(), "range", "width")
+				return propConflictError(p, "width")
 			}
 
 			switch rng := v.(type) {
@@ -86,10 +87,10 @@ func applyParamType(param *fn.Param, typ prs.Functionality, diary *paramDiary) e
 			diary.rangeSet = true
 		case "width":
 			if diary.widthSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "width")
+				return propAlreadySetError(p)
 			}
 			if diary.rangeSet {
-				return fmt.Errorf(propConflictMsg, p.Loc(), "width", "range")
+				return propConflictError(p, "range")
 			}
 			param.Width = int64(v.(val.Int))
 			diary.widthSet = true
diff --git a/internal/ins/proc.go b/internal/ins/proc.go
index 61ba20f..f06a134 100644
--- a/internal/ins/proc.go
+++ b/internal/ins/proc.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/proc"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
@@ -43,7 +44,7 @@ func insProc(typeChain []prs.Functionality) (*fn.Proc, error) {
 func applyProcType(p *fn.Proc, typ prs.Functionality, diary *procDiary) error {
 	for _, prop := range typ.Props() {
 		if err := util.IsValidProperty(prop.Name, "proc"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{prop.NameTok}}
 		}
 		if err := checkProp(prop); err != nil {
 			return err
@@ -57,7 +58,7 @@ func applyProcType(p *fn.Proc, typ prs.Functionality, diary *procDiary) error {
 		switch prop.Name {
 		case "delay":
 			if diary.delaySet {
-				return fmt.Errorf(propAlreadySetMsg, prop.Loc(), "delay")
+				return propAlreadySetError(prop)
 			}
 			t := v.(val.Time)
 			delay := types.Time{S: t.S, Ns: t.Ns}
diff --git a/internal/ins/return.go b/internal/ins/return.go
index 31be25d..a8d6570 100644
--- a/internal/ins/return.go
+++ b/internal/ins/return.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
@@ -43,7 +44,7 @@ func insReturn(typeChain []prs.Functionality) (*fn.Return, error) {
 func applyReturnType(ret *fn.Return, typ prs.Functionality, diary *returnDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "return"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return err
@@ -57,7 +58,7 @@ func applyReturnType(ret *fn.Return, typ prs.Functionality, diary *returnDiary)
 		switch p.Name {
 		case "width":
 			if diary.widthSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "width")
+				return propAlreadySetError(p)
 			}
 			ret.Width = int64(v.(val.Int))
 			diary.widthSet = true
diff --git a/internal/ins/static.go b/internal/ins/static.go
index f75841b..278a895 100644
--- a/internal/ins/static.go
+++ b/internal/ins/static.go
@@ -59,7 +59,7 @@ func insStatic(typeChain []prs.Functionality) (*fn.Static, error) {
 func applyStaticType(st *fn.Static, typ prs.Functionality, diary *staticDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "static"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return err
@@ -73,25 +73,25 @@ func applyStaticType(st *fn.Static, typ prs.Functionality, diary *staticDiary) e
 		switch p.Name {
 		case "init-value":
 			if diary.initValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "init-value")
+				return propAlreadySetError(p)
 			}
 			diary.initVal = v
 			diary.initValSet = true
 		case "read-value":
 			if diary.readValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "read-value")
+				return propAlreadySetError(p)
 			}
 			diary.readVal = v
 			diary.readValSet = true
 		case "reset-value":
 			if diary.resetValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "reset-value")
+				return propAlreadySetError(p)
 			}
 			diary.resetVal = v
 			diary.resetValSet = true
 		case "width":
 			if diary.widthSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "width")
+				return propAlreadySetError(p)
 			}
 			st.Width = int64(v.(val.Int))
 			diary.widthSet = true
diff --git a/internal/ins/status.go b/internal/ins/status.go
index 72fc45d..4acb8c2 100644
--- a/internal/ins/status.go
+++ b/internal/ins/status.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
@@ -55,7 +56,7 @@ func insStatus(typeChain []prs.Functionality) (*fn.Status, error) {
 func applyStatusType(st *fn.Status, typ prs.Functionality, diary *statusDiary) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, "status"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{p.NameTok}}
 		}
 		if err := checkProp(p); err != nil {
 			return err
@@ -69,19 +70,19 @@ func applyStatusType(st *fn.Status, typ prs.Functionality, diary *statusDiary) e
 		switch p.Name {
 		case "atomic":
 			if diary.atomicSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "atomic")
+				return propAlreadySetError(p)
 			}
 			st.Atomic = bool(v.(val.Bool))
 			diary.atomicSet = true
 		case "read-value":
 			if diary.readValSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "read-value")
+				return propAlreadySetError(p)
 			}
 			diary.readVal = v
 			diary.readValSet = true
 		case "width":
 			if diary.widthSet {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "width")
+				return propAlreadySetError(p)
 			}
 			st.Width = int64(v.(val.Int))
 			diary.widthSet = true
diff --git a/internal/ins/stream.go b/internal/ins/stream.go
index d4992c2..6413c68 100644
--- a/internal/ins/stream.go
+++ b/internal/ins/stream.go
@@ -44,7 +44,7 @@ func insStream(typeChain []prs.Functionality) (*fn.Stream, error) {
 func applyStreamType(strm *fn.Stream, typ prs.Functionality, diary *streamDiary) error {
 	for _, prop := range typ.Props() {
 		if err := util.IsValidProperty(prop.Name, "stream"); err != nil {
-			return fmt.Errorf(": %v", err)
+			return tok.Error{Msg: err.Error(), Toks: []tok.Token{prop.NameTok}}
 		}
 		if err := checkProp(prop); err != nil {
 			return fmt.Errorf("%s: %v", prop.Loc(), err)
@@ -58,7 +58,7 @@ func applyStreamType(strm *fn.Stream, typ prs.Functionality, diary *streamDiary)
 		switch prop.Name {
 		case "delay":
 			if diary.delaySet {
-				return fmt.Errorf(propAlreadySetMsg, prop.Loc(), "delay")
+				return propAlreadySetError(prop)
 			}
 			t := v.(val.Time)
 			delay := types.Time{S: t.S, Ns: t.Ns}
-- 
2.43.0


From 8ae36816c47e3d04d65c03a3d5d37d76354374de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:17 +0000
Subject: [PATCH 53/64] fix: locate conflict of width and range properties in
 one body

---
 internal/prs/check.go | 5 ++++-
 internal/prs/type.go  | 5 +----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/prs/check.go b/internal/prs/check.go
index 41b1d0e..1ed26f3 100644
--- a/internal/prs/check.go
+++ b/internal/prs/check.go
@@ -19,7 +19,10 @@ func checkPropConflict(typ string, prop Prop, props PropContainer) error {
 
 	if r, ok := props.Get("range"); ok {
 		if prop.Name == "width" {
-			return fmt.Errorf(msg, "width", "range", r.Line(), r.Col())
+			return tok.Error{
+				Msg:  fmt.Sprintf(msg, "width", "range", r.Line(), r.Col()),
+				Toks: []tok.Token{prop.NameTok, r.NameTok},
+			}
 		}
 	}
 
diff --git a/internal/prs/type.go b/internal/prs/type.go
index a5e67aa..e4d8fe9 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -150,10 +150,7 @@ func buildType(at ast.Type, src []byte) (*Type, error) {
 			}
 
 			if err := checkPropConflict(t.typ, p, props[0:j]); err != nil {
-				return nil, tok.Error{
-					Msg:  err.Error(),
-					Toks: []tok.Token{at.Body.Props[j].Name},
-				}
+				return nil, err
 			}
 		}
 	}
-- 
2.43.0


From 047563730f3be4a6164f6a622d1ee2421ff2b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:39 +0000
Subject: [PATCH 54/64] fix: locate values not fitting the width

---
 internal/ins/common.go | 14 ++++++++++++++
 internal/ins/config.go | 10 +++++-----
 internal/ins/irq.go    | 12 ++++++------
 internal/ins/mask.go   | 10 +++++-----
 internal/ins/static.go | 22 +++++++++++-----------
 internal/ins/status.go |  2 +-
 6 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index 1822b3b..12849e5 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -30,6 +30,20 @@ func propConflictError(p prs.Prop, name string) error {
 	}
 }
 
+// propValueError returns error for property, set somewhere in the type chain, with the invalid value.
+func propValueError(typeChain []prs.Functionality, name string, err error) error {
+	for _, t := range typeChain {
+		if p, ok := t.Props().Get(name); ok {
+			return tok.Error{
+				Msg:  fmt.Sprintf("'%s': %v", name, err),
+				Toks: []tok.Token{p.ValueTok},
+			}
+		}
+	}
+
+	return fmt.Errorf("'%s': %v", name, err)
+}
+
 func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	// Instantiation is always the last one in the type chain.
 	inst := typeChain[len(typeChain)-1]
diff --git a/internal/ins/config.go b/internal/ins/config.go
index 8a5dbaa..73c0a9c 100644
--- a/internal/ins/config.go
+++ b/internal/ins/config.go
@@ -46,7 +46,7 @@ func insConfig(typeChain []prs.Functionality) (*fn.Config, error) {
 	}
 
 	fillConfigProps(&cfg, diary)
-	err = fillConfigValues(&cfg, diary)
+	err = fillConfigValues(&cfg, typeChain, diary)
 	if err != nil {
 		return nil, err
 	}
@@ -150,11 +150,11 @@ func fillConfigProps(cfg *fn.Config, diary configDiary) {
 	}
 }
 
-func fillConfigValues(cfg *fn.Config, diary configDiary) error {
+func fillConfigValues(cfg *fn.Config, typeChain []prs.Functionality, diary configDiary) error {
 	if diary.initValSet {
 		val, err := processValue(diary.initVal, cfg.Width)
 		if err != nil {
-			return fmt.Errorf("'init-value': %v", err)
+			return propValueError(typeChain, "init-value", err)
 		}
 		cfg.InitValue = types.MakeBitStr(val)
 	}
@@ -162,7 +162,7 @@ func fillConfigValues(cfg *fn.Config, diary configDiary) error {
 	if diary.resetValSet {
 		val, err := processValue(diary.resetVal, cfg.Width)
 		if err != nil {
-			return fmt.Errorf("'reset-value': %v", err)
+			return propValueError(typeChain, "reset-value", err)
 		}
 		cfg.ResetValue = types.MakeBitStr(val)
 	}
@@ -170,7 +170,7 @@ func fillConfigValues(cfg *fn.Config, diary configDiary) error {
 	if diary.readValSet {
 		val, err := processValue(diary.readVal, cfg.Width)
 		if err != nil {
-			return fmt.Errorf("'read-value': %v", err)
+			return propValueError(typeChain, "read-value", err)
 		}
 		cfg.ReadValue = types.MakeBitStr(val)
 	}
diff --git a/internal/ins/irq.go b/internal/ins/irq.go
index 693cf5c..d59d51f 100644
--- a/internal/ins/irq.go
+++ b/internal/ins/irq.go
@@ -45,7 +45,7 @@ func insIrq(typeChain []prs.Functionality) (*fn.Irq, error) {
 	}
 
 	fillIrqProps(&irq, diary)
-	err = fillIrqValues(&irq, diary)
+	err = fillIrqValues(&irq, typeChain, diary)
 	if err != nil {
 		return nil, err
 	}
@@ -126,27 +126,27 @@ func fillIrqProps(irq *fn.Irq, diary irqDiary) {
 	}
 }
 
-func fillIrqValues(irq *fn.Irq, diary irqDiary) error {
+func fillIrqValues(irq *fn.Irq, typeChain []prs.Functionality, diary irqDiary) error {
 	if diary.enableInitValSet {
 		if !irq.AddEnable {
-			return fmt.Errorf("'enable-init-value' set but 'add-enable' is false")
+			return propValueError(typeChain, "enable-init-value", fmt.Errorf("set but 'add-enable' is false"))
 		}
 
 		val, err := processValue(diary.enableInitVal, 1)
 		if err != nil {
-			return fmt.Errorf("'enable-init-value': %v", err)
+			return propValueError(typeChain, "enable-init-value", err)
 		}
 		irq.EnableInitValue = types.MakeBitStr(val)
 	}
 
 	if diary.enableResetValSet {
 		if !irq.AddEnable {
-			return fmt.Errorf("'enable-reset-value' set but 'add-enable' is false")
+			return propValueError(typeChain, "enable-reset-value", fmt.Errorf("set but 'add-enable' is false"))
 		}
 
 		val, err := processValue(diary.enableResetVal, 1)
 		if err != nil {
-			return fmt.Errorf("'enable-reset-value': %v", err)
+			return propValueError(typeChain, "enable-reset-value", err)
 		}
 		irq.EnableResetValue = types.MakeBitStr(val)
 	}
diff --git a/internal/ins/mask.go b/internal/ins/mask.go
index 3c1ac3f..1329ea0 100644
--- a/internal/ins/mask.go
+++ b/internal/ins/mask.go
@@ -45,7 +45,7 @@ func insMask(typeChain []prs.Functionality) (*fn.Mask, error) {
 	}
 
 	fillMaskProps(&mask, diary)
-	err = fillMaskValues(&mask, diary)
+	err = fillMaskValues(&mask, typeChain, diary)
 	if err != nil {
 		return nil, err
 	}
@@ -115,11 +115,11 @@ func fillMaskProps(mask *fn.Mask, diary maskDiary) {
 	}
 }
 
-func fillMaskValues(mask *fn.Mask, diary maskDiary) error {
+func fillMaskValues(mask *fn.Mask, typeChain []prs.Functionality, diary maskDiary) error {
 	if diary.initValSet {
 		val, err := processValue(diary.initVal, mask.Width)
 		if err != nil {
-			return fmt.Errorf("'init-value': %v", err)
+			return propValueError(typeChain, "init-value", err)
 		}
 		mask.InitValue = types.MakeBitStr(val)
 	}
@@ -127,7 +127,7 @@ func fillMaskValues(mask *fn.Mask, diary maskDiary) error {
 	if diary.resetValSet {
 		val, err := processValue(diary.resetVal, mask.Width)
 		if err != nil {
-			return fmt.Errorf("'reset-value': %v", err)
+			return propValueError(typeChain, "reset-value", err)
 		}
 		mask.ResetValue = types.MakeBitStr(val)
 	}
@@ -135,7 +135,7 @@ func fillMaskValues(mask *fn.Mask, diary maskDiary) error {
 	if diary.readValSet {
 		val, err := processValue(diary.readVal, mask.Width)
 		if err != nil {
-			return fmt.Errorf("'read-value': %v", err)
+			return propValueError(typeChain, "read-value", err)
 		}
 		mask.ReadValue = types.MakeBitStr(val)
 	}
diff --git a/internal/ins/static.go b/internal/ins/static.go
index 278a895..463a0ac 100644
--- a/internal/ins/static.go
+++ b/internal/ins/static.go
@@ -44,13 +44,9 @@ func insStatic(typeChain []prs.Functionality) (*fn.Static, error) {
 	}
 
 	fillStaticProps(&st, diary)
-	err = fillStaticValues(&st, diary)
+	err = fillStaticValues(&st, typeChain, diary)
 	if err != nil {
-		last := typeChain[len(typeChain)-1]
-		return nil, tok.Error{
-			Msg:  fmt.Sprintf("'%s' %v", last.Name(), err),
-			Toks: []tok.Token{last.Tok()},
-		}
+		return nil, err
 	}
 
 	return &st, nil
@@ -109,21 +105,25 @@ func fillStaticProps(st *fn.Static, diary staticDiary) {
 	}
 }
 
-func fillStaticValues(st *fn.Static, diary staticDiary) error {
+func fillStaticValues(st *fn.Static, typeChain []prs.Functionality, diary staticDiary) error {
 	if diary.initValSet {
 		val, err := processValue(diary.initVal, st.Width)
 		if err != nil {
-			return fmt.Errorf("'init-value': %v", err)
+			return propValueError(typeChain, "init-value", err)
 		}
 		st.InitValue = types.MakeBitStr(val)
 	} else {
-		return fmt.Errorf("static functionality must have init-value property set")
+		last := typeChain[len(typeChain)-1]
+		return tok.Error{
+			Msg:  fmt.Sprintf("'%s' static functionality must have init-value property set", last.Name()),
+			Toks: []tok.Token{last.Tok()},
+		}
 	}
 
 	if diary.resetValSet {
 		val, err := processValue(diary.resetVal, st.Width)
 		if err != nil {
-			return fmt.Errorf("'reset-value': %v", err)
+			return propValueError(typeChain, "reset-value", err)
 		}
 		st.ResetValue = types.MakeBitStr(val)
 	}
@@ -131,7 +131,7 @@ func fillStaticValues(st *fn.Static, diary staticDiary) error {
 	if diary.readValSet {
 		val, err := processValue(diary.readVal, st.Width)
 		if err != nil {
-			return fmt.Errorf("'read-value': %v", err)
+			return propValueError(typeChain, "read-value", err)
 		}
 		st.ReadValue = types.MakeBitStr(val)
 	}
diff --git a/internal/ins/status.go b/internal/ins/status.go
index 4acb8c2..aa46a8c 100644
--- a/internal/ins/status.go
+++ b/internal/ins/status.go
@@ -45,7 +45,7 @@ func insStatus(typeChain []prs.Functionality) (*fn.Status, error) {
 	if diary.readValSet {
 		val, err := processValue(diary.readVal, st.Width)
 		if err != nil {
-			return nil, fmt.Errorf("'read-value': %v", err)
+			return nil, propValueError(typeChain, "read-value", err)
 		}
 		st.ReadValue = types.MakeBitStr(val)
 	}
-- 
2.43.0


From 27522a88274e7ea4726fd7ec02b48a7bf29e8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:21 +0000
Subject: [PATCH 55/64] fix: locate undefined identifiers

---
 internal/prs/expr.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index c0cdcaa..1a69554 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -382,14 +382,18 @@ func MakeFloat(e ast.Float, src []byte) (Float, error) {
 }
 
 type DeclaredIdentifier struct {
-	x string
-	s Scope
+	tok tok.Token
+	x   string
+	s   Scope
 }
 
 func (di DeclaredIdentifier) Eval() (val.Value, error) {
 	c, err := di.s.GetConst(di.x)
 	if err != nil {
-		return val.Int(0), fmt.Errorf("evaluating identifier '%s': %v", di.x, err)
+		return val.Int(0), tok.Error{
+			Msg:  fmt.Sprintf("evaluating identifier '%s': %v", di.x, err),
+			Toks: []tok.Token{di.tok},
+		}
 	}
 
 	x, err := c.Eval()
@@ -400,18 +404,22 @@ func (di DeclaredIdentifier) Eval() (val.Value, error) {
 }
 
 func MakeDeclaredIdentifier(e ast.Ident, src []byte, s Scope) DeclaredIdentifier {
-	return DeclaredIdentifier{x: tok.Text(e.Name, src), s: s}
+	return DeclaredIdentifier{tok: e.Name, x: tok.Text(e.Name, src), s: s}
 }
 
 type QualifiedIdentifier struct {
-	x string
-	s Scope
+	tok tok.Token
+	x   string
+	s   Scope
 }
 
 func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 	c, err := qi.s.GetConst(qi.x)
 	if err != nil {
-		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': %v", qi.x, err)
+		return val.Int(0), tok.Error{
+			Msg:  fmt.Sprintf("evaluating qualified identifier '%s': %v", qi.x, err),
+			Toks: []tok.Token{qi.tok},
+		}
 	}
 
 	x, err := c.Eval()
@@ -422,7 +430,7 @@ func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 }
 
 func MakeQualifiedIdentifier(e ast.QualIdent, src []byte, s Scope) QualifiedIdentifier {
-	return QualifiedIdentifier{x: tok.Text(e.Name, src), s: s}
+	return QualifiedIdentifier{tok: e.Name, x: tok.Text(e.Name, src), s: s}
 }
 
 type String struct {
-- 
2.43.0


From 1e4e67e65012311d33e2ae44a86d9e9d8d06ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:00 +0000
Subject: [PATCH 56/64] fix: report a constants file that cannot be created

---
 cmd/fbdl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index dbaccc3..74bb821 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -54,7 +54,7 @@ func main() {
 	if args.DumpConsts != "" {
 		f, err := os.Create(args.DumpConsts)
 		if err != nil {
-			panic(err)
+			log.Fatalf("dump packages constants: %v", err)
 		}
 
 		byteArray, err := json.MarshalIndent(pkgsConsts, "", "  ")
-- 
2.43.0


From b6e157153f056c850310a63ea4d98f7d86c82d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:50 +0000
Subject: [PATCH 57/64] fix: handle packages with the same name

---
 internal/ins/const.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/ins/const.go b/internal/ins/const.go
index 6f6e5d0..8e6aeb2 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -11,13 +11,14 @@ import (
 func constifyPackages(packages prs.Packages) map[string]*pkg.Package {
 	cPkgs := map[string]*pkg.Package{}
 
-	// TODO: Resolve name conflicts.
 	for name, pkgs := range packages {
-		if len(pkgs) > 1 {
-			panic("not yet implemented")
-		}
 		for _, pkg := range pkgs {
-			cPkgs[name] = constifyPkg(pkg)
+			key := name
+			// Name is not enough to distinguish packages with the same name.
+			if len(pkgs) > 1 {
+				key = pkg.Path
+			}
+			cPkgs[key] = constifyPkg(pkg)
 		}
 	}
 
-- 
2.43.0


From e43e4003640ec5ef86cdfda1fb7e778e4bd72de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:52 +0000
Subject: [PATCH 58/64] fix: ignore .fbd symlinks that are broken or point to
 directories

---
 internal/prs/prs.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index 2d1150d..74122cf 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -52,14 +52,18 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 	cwd += string(os.PathSeparator)
 
 	for _, file := range pkgDirContent {
-		if file.IsDir() {
-			continue
-		}
 		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
 
 		filePath := path.Join(pkg.Path, file.Name())
+
+		// Ignore broken symlinks and symlinks to directories.
+		info, err := os.Stat(filePath)
+		if err != nil || info.IsDir() {
+			continue
+		}
+
 		filePath = strings.TrimPrefix(filePath, cwd)
 
 		filesWG.Add(1)
-- 
2.43.0


From 17cfe2bb12d372cb48ff667877b53e398bd9e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:55 +0000
Subject: [PATCH 59/64] fix: handle symlinks, relative paths, trailing slashes
 and files in FBDPATH

---
 internal/prs/pre.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index d3d9aad..effe691 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -21,7 +21,18 @@ func DiscoverPackages(main string) Packages {
 
 	fbdpath := os.Getenv("FBDPATH")
 	if len(fbdpath) != 0 {
-		pathsToLook = append(pathsToLook, strings.Split(fbdpath, string(os.PathListSeparator))...)
+		for _, path := range strings.Split(fbdpath, string(os.PathListSeparator)) {
+			path, err = filepath.Abs(path)
+			if err != nil {
+				panic(err)
+			}
+			path, err = filepath.EvalSymlinks(path)
+			// Ignore paths that do not exist.
+			if err != nil {
+				continue
+			}
+			pathsToLook = append(pathsToLook, path)
+		}
 	}
 
 	dbgMsg := fmt.Sprintf("debug: looking for packages in following %d directories:\n", len(pathsToLook))
@@ -64,6 +75,10 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 		return
 	}
 
+	if info, err := os.Stat(dirPath); err != nil || !info.IsDir() {
+		return
+	}
+
 	if _, ok := visitedDirs[dirID]; ok {
 		return
 	}
-- 
2.43.0


From 2eba1b8a8ff20223427cb1b7634e4d13b08aa0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:40 +0000
Subject: [PATCH 60/64] fix: evaluate each constant once for given parameter
 values

---
 internal/prs/const.go | 18 +++++++++++++++++-
 internal/prs/type.go  |  4 ++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/prs/const.go b/internal/prs/const.go
index 3baf94c..fa37221 100644
--- a/internal/prs/const.go
+++ b/internal/prs/const.go
@@ -14,19 +14,35 @@ type Const struct {
 	Value Expr
 
 	evaluating bool
+
+	// Last evaluated value and the number of the parameters binding it was evaluated for.
+	value   val.Value
+	binding int
 }
 
 // Eval evaluates value of the constant.
 // It returns an error if the value of the constant depends on the constant itself.
+// The value is remembered until the next binding of values to type parameters.
 func (c *Const) Eval() (val.Value, error) {
 	if c.evaluating {
 		return nil, fmt.Errorf("circular dependency of constant")
 	}
 
+	if c.value != nil && c.binding == paramsBinding {
+		return c.value, nil
+	}
+
 	c.evaluating = true
 	defer func() { c.evaluating = false }()
 
-	return c.Value.Eval()
+	v, err := c.Value.Eval()
+	if err != nil {
+		return nil, err
+	}
+	c.value = v
+	c.binding = paramsBinding
+
+	return v, nil
 }
 
 func (c Const) Kind() SymbolKind { return ConstDef }
diff --git a/internal/prs/type.go b/internal/prs/type.go
index e4d8fe9..767ef5a 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -66,7 +66,11 @@ func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Sy
 func (t Type) IsArray() bool                       { return false }
 func (t Type) Count() Expr                         { return t.count }
 
+// Number of the current binding of values to type parameters.
+var paramsBinding int
+
 func (t *Type) SetParamValues(pv map[string]Expr) {
+	paramsBinding++
 	t.paramValues = make(map[string]*Const)
 	for name, v := range pv {
 		t.paramValues[name] = &Const{Value: v}
-- 
2.43.0


From b873e6908b747b1848acc083cb2713236ae61532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:49 +0000
Subject: [PATCH 61/64] fix: calculate number of registers of wide
 functionality without a loop

---
 pkg/fbdl/types/access.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index dd7ef1e..a8a00e2 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -82,19 +82,10 @@ func MakeSingleOneRegAccess(addr, startBit, width int64) Access {
 //	|| c(0) || || c(1) || || c(2) | 24 bits gap ||
 //	---------- ---------- ------------------------
 func MakeSingleNRegsAccess(addr, startBit, width int64) Access {
-	regCount := int64(1)
-
-	endBit := int64(0)
-	w := busWidth - startBit
-	for {
-		regCount += 1
-		if w+busWidth < width {
-			w += busWidth
-		} else {
-			endBit = width - w - 1
-			break
-		}
-	}
+	// Number of bits placed after the first register, it is always positive.
+	rest := width - (busWidth - startBit)
+	regCount := 2 + (rest-1)/busWidth
+	endBit := (rest - 1) % busWidth
 
 	return Access{
 		Type:          "SingleNRegs",
-- 
2.43.0


From 7547c2254b85c311f052d8ac93087580b656624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:11 +0000
Subject: [PATCH 62/64] fix: diagnose arrays which cannot be registerified yet
 instead of panicking

---
 internal/reg/config.go | 6 ++++--
 internal/reg/irq.go    | 5 ++++-
 internal/reg/mask.go   | 4 +++-
 internal/reg/static.go | 8 ++++++--
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/internal/reg/config.go b/internal/reg/config.go
index adbd386..7e0766b 100644
--- a/internal/reg/config.go
+++ b/internal/reg/config.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 
@@ -28,7 +30,7 @@ func regAtomicConfigArray(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 	} else if cfg.Width <= busWidth/2 {
 		acs = types.MakeArrayNInRegMInEndRegAccess(cfg.Count, addr, cfg.Width)
 	} else {
-		panic("unimplemented")
+		log.Fatalf("'%s': arrays of configs wider than the bus are not yet supported", cfg.Name)
 	}
 
 	addr += acs.RegCount
@@ -57,7 +59,7 @@ func regAtomicConfigSingle(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 
 func regNonAtomicConfig(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 	if cfg.IsArray {
-		panic("unimplemented")
+		log.Fatalf("'%s': arrays of non-atomic configs are not yet supported", cfg.Name)
 	}
 	return regNonAtomicConfigSingle(cfg, addr, gp)
 }
diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index 8f99886..b54bbce 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 
@@ -53,5 +55,6 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 }
 
 func regIrqArray(irq *fn.Irq, addr int64) int64 {
-	panic("unimplemented")
+	log.Fatalf("'%s': arrays of irqs are not yet supported", irq.Name)
+	return addr
 }
diff --git a/internal/reg/mask.go b/internal/reg/mask.go
index 4b14c23..a181632 100644
--- a/internal/reg/mask.go
+++ b/internal/reg/mask.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 )
@@ -10,7 +12,7 @@ func regMask(mask *fn.Mask, addr int64) int64 {
 	var acs types.Access
 
 	if mask.IsArray {
-		panic("unimplemented")
+		log.Fatalf("'%s': arrays of masks are not yet supported", mask.Name)
 		/* Should it be implemented the same way as for Status?
 		if width == busWidth {
 
diff --git a/internal/reg/static.go b/internal/reg/static.go
index c745b58..cc8619e 100644
--- a/internal/reg/static.go
+++ b/internal/reg/static.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 
@@ -45,14 +47,16 @@ func regStaticArray(st *fn.Static, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
 	// TODO: In all below branches a potential gap can be added.
-	if busWidth/2 < st.Width && st.Width <= busWidth {
+	if st.Width == 0 {
+		acs = types.MakeArrayOneRegAccess(st.Count, addr, 0, st.Width)
+	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
 	} else if st.Width <= busWidth/2 {
 		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
 	} else {
-		panic("unimplemented")
+		log.Fatalf("'%s': arrays of statics wider than the bus are not yet supported", st.Name)
 	}
 	addr += acs.RegCount
 
-- 
2.43.0


From 98be6c155f65a88e6baa352818e5570c6a17cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:28 +0000
Subject: [PATCH 63/64] fix: locate invalid and repeated functionalities,
 repeated constants and non integer array sizes

---
 internal/ins/block.go  | 12 ++++++------
 internal/ins/common.go | 13 ++++++++++++-
 internal/ins/group.go  | 10 +++++-----
 internal/ins/proc.go   |  4 ++--
 internal/ins/stream.go |  4 ++--
 5 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index ddfa8e3..e978489 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -88,8 +88,8 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 	for _, s := range typ.Symbols() {
 		if c, ok := s.(*prs.Const); ok {
 			if constContainer.HasConst(blk.Consts, c.Name()) {
-				return fmt.Errorf(
-					"const '%s' is already defined in one of ancestor types", c.Name(),
+				return symbolError(
+					s, "const '%s' is already defined in one of ancestor types", c.Name(),
 				)
 			}
 
@@ -109,19 +109,19 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 
 		baseType := resolveToBaseType(s.(prs.Functionality))[0].Type()
 		if baseType == "bus" {
-			return fmt.Errorf(invalidInnerTypeMsg, s.Name(), baseType, "block")
+			return symbolError(s, invalidInnerTypeMsg, s.Name(), baseType, "block")
 		}
 
 		f := insFunctionality(s.(prs.Functionality))
 
 		if !util.IsValidInnerType(f.Type(), "block") {
-			return fmt.Errorf(
-				invalidInnerTypeMsg, f.GetName(), f.Type(), "block",
+			return symbolError(
+				s, invalidInnerTypeMsg, f.GetName(), f.Type(), "block",
 			)
 		}
 
 		if block.HasFunctionality(blk, f.GetName()) {
-			return fmt.Errorf(funcWithNameAlreadyInstMsg, f.GetName())
+			return symbolError(s, funcWithNameAlreadyInstMsg, f.GetName())
 		}
 		addBlockInnerElement(blk, f)
 	}
diff --git a/internal/ins/common.go b/internal/ins/common.go
index 12849e5..06b27f4 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -30,6 +30,14 @@ func propConflictError(p prs.Prop, name string) error {
 	}
 }
 
+// symbolError returns error pointing at the symbol.
+func symbolError(s prs.Symbol, format string, args ...any) error {
+	return tok.Error{
+		Msg:  fmt.Sprintf(format, args...),
+		Toks: []tok.Token{s.Tok()},
+	}
+}
+
 // propValueError returns error for property, set somewhere in the type chain, with the invalid value.
 func propValueError(typeChain []prs.Functionality, name string, err error) error {
 	for _, t := range typeChain {
@@ -61,7 +69,10 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 		}
 
 		if v.Type() != "integer" {
-			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
+			return fn.Func{}, tok.Error{
+				Msg:  fmt.Sprintf("size of array must be of 'integer' type, current type '%s'", v.Type()),
+				Toks: []tok.Token{inst.Tok()},
+			}
 		}
 
 		count = int64(v.(val.Int))
diff --git a/internal/ins/group.go b/internal/ins/group.go
index 0b8b9c7..887246f 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -93,8 +93,8 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 	for _, sym := range typ.Symbols() {
 		if c, ok := sym.(*prs.Const); ok {
 			if constContainer.HasConst(grp.Consts, c.Name()) {
-				return fmt.Errorf(
-					"const '%s' is already defined in one of ancestor types", c.Name(),
+				return symbolError(
+					sym, "const '%s' is already defined in one of ancestor types", c.Name(),
 				)
 			}
 
@@ -115,13 +115,13 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 		f := insFunctionality(sym.(prs.Functionality))
 
 		if !util.IsValidInnerType(f.Type(), "group") {
-			return fmt.Errorf(
-				invalidInnerTypeMsg, f.GetName(), f.Type(), "group",
+			return symbolError(
+				sym, invalidInnerTypeMsg, f.GetName(), f.Type(), "group",
 			)
 		}
 
 		if group.HasFunctionality(grp, f.GetName()) {
-			return fmt.Errorf(funcWithNameAlreadyInstMsg, f.GetName())
+			return symbolError(sym, funcWithNameAlreadyInstMsg, f.GetName())
 		}
 
 		err := addGroupInnerElement(grp, f)
diff --git a/internal/ins/proc.go b/internal/ins/proc.go
index f06a134..883d705 100644
--- a/internal/ins/proc.go
+++ b/internal/ins/proc.go
@@ -80,11 +80,11 @@ func applyProcType(p *fn.Proc, typ prs.Functionality, diary *procDiary) error {
 		f := insFunctionality(pe)
 
 		if !util.IsValidInnerType(f.Type(), "proc") {
-			return fmt.Errorf(invalidInnerTypeMsg, f.GetName(), f.Type(), "proc")
+			return symbolError(pe, invalidInnerTypeMsg, f.GetName(), f.Type(), "proc")
 		}
 
 		if proc.HasFunctionality(p, f.GetName()) {
-			return fmt.Errorf(funcWithNameAlreadyInstMsg, f.GetName())
+			return symbolError(pe, funcWithNameAlreadyInstMsg, f.GetName())
 		}
 		addProcInnerFunctionality(p, f)
 	}
diff --git a/internal/ins/stream.go b/internal/ins/stream.go
index 6413c68..258854b 100644
--- a/internal/ins/stream.go
+++ b/internal/ins/stream.go
@@ -80,11 +80,11 @@ func applyStreamType(strm *fn.Stream, typ prs.Functionality, diary *streamDiary)
 		f := insFunctionality(pe)
 
 		if !util.IsValidInnerType(f.Type(), "stream") {
-			return fmt.Errorf(invalidInnerTypeMsg, f.GetName(), f.Type(), "stream")
+			return symbolError(pe, invalidInnerTypeMsg, f.GetName(), f.Type(), "stream")
 		}
 
 		if stream.HasFunctionality(strm, f.GetName()) {
-			return fmt.Errorf(funcWithNameAlreadyInstMsg, f.GetName())
+			return symbolError(pe, funcWithNameAlreadyInstMsg, f.GetName())
 		}
 
 		err := addStreamInnerFunctionality(strm, f)
-- 
2.43.0


From d5274fc84e901ed52675f83822deaf0aa96c20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:23 +0000
Subject: [PATCH 64/64] fix: extend octal bit strings instead of panicking

---
 pkg/fbdl/types/bit_str.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/fbdl/types/bit_str.go b/pkg/fbdl/types/bit_str.go
index 57f0293..e23626a 100644
--- a/pkg/fbdl/types/bit_str.go
+++ b/pkg/fbdl/types/bit_str.go
@@ -59,7 +59,7 @@ func (bs BitStr) Extend(width int64) BitStr {
 	case 'b':
 		return extendBin(bs, width)
 	case 'o':
-		panic("not yet implemented")
+		return extendOctal(bs, width)
 	case 'x':
 		return extendHex(bs, width)
 	default:
@@ -87,6 +87,29 @@ func extendBin(bs BitStr, width int64) BitStr {
 	return BitStr(string(s))
 }
 
+func extendOctal(bs BitStr, width int64) BitStr {
+	bitWidthDiff := width - bs.BitWidth()
+
+	if bitWidthDiff%3 == 0 {
+		s := make([]byte, width/3+3)
+
+		s[0] = 'o'
+		s[1] = '"'
+
+		for i := range bitWidthDiff / 3 {
+			s[2+i] = '0'
+		}
+		for i := range bs.CharWidth() {
+			s[2+bitWidthDiff/3+i] = string(bs)[2+i]
+		}
+
+		s[len(s)-1] = '"'
+		return BitStr(string(s))
+	}
+
+	return extendBin(bs.ToBin(), width)
+}
+
 func extendHex(bs BitStr, width int64) BitStr {
 	bitWidthDiff := width - bs.BitWidth()
 
-- 
2.43.0

