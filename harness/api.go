// Driver of the Go library, built into the module through an overlay. It reads one command per line and
// answers each with one line of JSON.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"

	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
)

type command struct {
	Cmd  string
	Dir  string
	Path string
	Name string
	Ts   bool
	H    int
	S    string
	W    int64
	L    [][2]int64
}

type m = map[string]any

type handle struct {
	bus  *fn.Block
	pkgs map[string]*pkg.Package
}

// guard turns a panic into the answer "panic".
func guard(f func() any) (r any) {
	defer func() {
		if x := recover(); x != nil {
			r = "panic"
		}
	}()
	return f()
}

type walker struct{ ans []m }

func (w *walker) add(path string, f fn.Functionality, ops m) {
	a := m{"path": path, "type": f.Type(), "name": f.GetName()}
	for k, v := range ops {
		a[k] = v
	}
	w.ans = append(w.ans, a)
}

func access(a types.Access) any {
	r := a.AddrRange()
	return []int64{r.Start, r.End}
}

func rng(r types.Range) any {
	if r == nil {
		return nil
	}
	a := m{"width": r.BitWidth()}
	if x, ok := r.(types.ArrayRange); ok {
		a["empty"] = x.IsEmpty()
	}
	return a
}

func bits(b types.BitStr) any {
	if b == "" {
		return nil
	}
	return m{"s": string(b), "width": guard(func() any { return b.BitWidth() }), "chars": guard(func() any { return b.CharWidth() }),
		"lit": guard(func() any { return b.ValueLiteral() }),
		"b":   b.IsBin(), "o": b.IsOctal(), "x": b.IsHex()}
}

func delay(t *types.Time) any {
	if t == nil {
		return nil
	}
	return m{"s": t.S, "ns": t.Ns, "zero": t.IsZero()}
}

func consts(c *cnst.Container) any { return c.Empty() }

func (w *walker) params(path string, ps []*fn.Param, rs []*fn.Return) {
	for i, x := range ps {
		w.add(fmt.Sprintf("%s/Params/%d", path, i), x, m{"access": access(x.Access), "range": rng(x.Range)})
	}
	for i, x := range rs {
		w.add(fmt.Sprintf("%s/Returns/%d", path, i), x, m{"access": access(x.Access)})
	}
}

func (w *walker) group(path string, g *fn.Group) {
	w.add(path, g, m{"ro": g.IsReadOnly(), "empty": consts(&g.Consts)})
	w.regs(path, g.Configs, g.Irqs, g.Masks, g.Statics, g.Statuses)
	w.params(path, g.Params, g.Returns)
}

func (w *walker) regs(path string, cs []*fn.Config, is []*fn.Irq, ms []*fn.Mask, ss []*fn.Static, ts []*fn.Status) {
	for i, x := range cs {
		w.add(fmt.Sprintf("%s/Configs/%d", path, i), x, m{"access": access(x.Access), "range": rng(x.Range), "init": bits(x.InitValue), "read": bits(x.ReadValue), "reset": bits(x.ResetValue)})
	}
	for i, x := range is {
		w.add(fmt.Sprintf("%s/Irqs/%d", path, i), x, m{"access": access(x.Access), "enable": access(x.EnableAccess), "init": bits(x.EnableInitValue), "reset": bits(x.EnableResetValue)})
	}
	for i, x := range ms {
		w.add(fmt.Sprintf("%s/Masks/%d", path, i), x, m{"access": access(x.Access), "init": bits(x.InitValue), "read": bits(x.ReadValue), "reset": bits(x.ResetValue)})
	}
	for i, x := range ss {
		w.add(fmt.Sprintf("%s/Statics/%d", path, i), x, m{"access": access(x.Access), "init": bits(x.InitValue), "read": bits(x.ReadValue), "reset": bits(x.ResetValue)})
	}
	for i, x := range ts {
		w.add(fmt.Sprintf("%s/Statuses/%d", path, i), x, m{"access": access(x.Access), "read": bits(x.ReadValue)})
	}
}

func (w *walker) block(path string, b *fn.Block) {
	w.add(path, b, m{"start": b.StartAddr(), "width": b.AddrSpace.BitWidth(), "empty": consts(&b.Consts)})
	for i, x := range b.Blackboxes {
		w.add(fmt.Sprintf("%s/Blackboxes/%d", path, i), x, m{})
	}
	w.regs(path, b.Configs, b.Irqs, b.Masks, b.Statics, b.Statuses)
	for i, x := range b.Groups {
		w.group(fmt.Sprintf("%s/Groups/%d", path, i), x)
	}
	for i, x := range b.Procs {
		p := fmt.Sprintf("%s/Procs/%d", path, i)
		w.add(p, x, m{"pbuf": x.ParamsBufSize(), "rbuf": x.ReturnsBufSize(),
			"pstart": guard(func() any { return x.ParamsStartAddr() }), "rstart": guard(func() any { return x.ReturnsStartAddr() }),
			"isempty": x.IsEmpty(), "isparam": x.IsParam(), "isreturn": x.IsReturn(), "delay": delay(x.Delay)})
		w.params(p, x.Params, x.Returns)
	}
	for i, x := range b.Streams {
		p := fmt.Sprintf("%s/Streams/%d", path, i)
		w.add(p, x, m{"down": x.IsDownstream(), "up": x.IsUpstream(), "start": x.StartAddr(), "delay": delay(x.Delay)})
		w.params(p, x.Params, x.Returns)
	}
	for i, x := range b.Subblocks {
		w.block(fmt.Sprintf("%s/Subblocks/%d", path, i), x)
	}
}

func main() {
	log.SetOutput(io.Discard)
	hs := []handle{}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	say := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	for in.Scan() {
		var c command
		if err := json.Unmarshal(in.Bytes(), &c); err != nil {
			panic(err)
		}
		switch c.Cmd {
		case "compile":
			if err := os.Chdir(c.Dir); err != nil {
				panic(err)
			}
			bus, pkgs, err := fbdl.Compile(c.Path, c.Name, c.Ts)
			hs = append(hs, handle{bus, pkgs})
			if err != nil {
				say(m{"err": err.Error(), "none": bus == nil && pkgs == nil})
			} else {
				say(m{"err": "", "none": bus == nil})
			}
		case "query":
			h := hs[c.H]
			if h.bus == nil {
				say(m{"bus": nil, "ans": []m{}})
				continue
			}
			w := walker{ans: []m{}}
			w.block("", h.bus)
			pk := map[string]bool{}
			for k, v := range h.pkgs {
				pk[k] = v.Consts.Empty()
			}
			say(m{"bus": h.bus, "pkgs": h.pkgs, "ans": w.ans, "pkgempty": pk})
		case "bits":
			b := types.BitStr(c.S)
			say(m{"width": guard(func() any { return b.BitWidth() }), "chars": guard(func() any { return b.CharWidth() }), "tobin": guard(func() any { return string(b.ToBin()) }),
				"extend": guard(func() any { return string(b.Extend(c.W)) }), "uint": guard(func() any { return fmt.Sprint(b.Uint64()) }),
				"lit": guard(func() any { return b.ValueLiteral() }), "b": b.IsBin(), "o": b.IsOctal(), "x": b.IsHex()})
		case "ranges":
			ar := types.ArrayRange{}
			ws := []int64{}
			sh := [][2]int64{}
			for _, p := range c.L {
				r := types.SingleRange{Start: p[0], End: p[1]}
				ar = append(ar, r)
				ws = append(ws, r.BitWidth())
				s := r.Shift(c.W)
				sh = append(sh, [2]int64{s.Start, s.End})
			}
			say(m{"widths": ws, "width": ar.BitWidth(), "empty": ar.IsEmpty(), "shift": sh})
		}
	}
}
