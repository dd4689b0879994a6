#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
R='internal/reg/'
def p(id,title,statement,over,text,why,files,mech,observe=("compiler JSON on stdout",)):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=list(observe),hook_needed=None))
G="The golden tests compile a few dozen fixed descriptions and compare text; "
L=[R+'reg.go',R+'config.go',R+'status.go',R+'static.go',R+'mask.go',R+'irq.go',R+'proc.go',R+'stream.go','internal/gap/pool.go','pkg/fbdl/types/access.go']
props=[
p('C01','No two functionalities of a block share a register bit',
 "In every accepted description, every bit of every item of every config, mask, static, status, irq (including its enable bit), param and return of a block is placed at its own (register address, bit) cell: no cell is used twice, also not by the bus identifier or the timestamp. Every cell lies inside the register width of the bus.",
 ['inputs','programs'],"every multiset of functionalities of a block, every width, array size and bus width",
 G+"a collision needs a particular mix of widths that makes two placements reuse the same leftover space.",
 L,[('gap pool: every gap handed out once','internal/gap/pool.go'),('address counter advanced by the registers used',R+'reg.go')]),
p('C02','Registers with write or read side effects are never shared',
 "Registers holding proc or stream params/returns, call, exit or strobe addresses belong to exactly one proc or stream; a register with config or mask bits holds no bit of another config or mask and no irq bit; a register whose write clears an irq, or whose read clears an irq, holds nothing else that reacts to that write or read, and every irq has its own clear address.",
 ['inputs','programs'],"every mix of side-effecting and passive functionalities and every leftover gap",
 G+"none places an irq or a status into leftover space of a config or of a proc register.",
 L,[('write-safe flag of a gap','internal/gap/pool.go'),('irqs placed only in write-safe gaps',R+'irq.go'),('procs and streams start and end on register boundaries',R+'proc.go')]),
p('C03','Access descriptors describe exactly the declared items',
 "The access descriptor of every functionality covers exactly the declared item count times the declared item width, its register count, start/end address, start/end bit and first/last register widths agree with the bits its type describes, items are laid out in index order, and its register width is the bus width.",
 ['inputs'],"every declared width, count, start position and bus width",
 "Unit tests check a handful of constructor calls for bus width 32 and start bit 0 only.",
 ['pkg/fbdl/types/access.go']+L,[('Access constructors','pkg/fbdl/types/access.go')]),
p('C04','Block sizes count exactly the used registers; address 0 is the ID',
 "The own size of a block equals the number of registers its functionalities use, these are consecutive from 0 without holes, and the cumulated size is own size plus the sizes of all sub-block instances. In the main bus address 0 always holds the ID and nothing else does.",
 ['inputs','programs'],"every block tree",G+"holes and off-by-one sizes only show for particular combinations.",
 L+[R+'id_and_ts.go'],[('Sizes computed from the address counter',R+'reg.go')]),
p('C05','Sub-block address spaces are contained, disjoint and aligned',
 "Every sub-block's address space, counting all elements of an array, lies inside its parent's space, does not intersect the parent's own registers or another sub-block's space, and has exactly count times the aligned size. Without any align property aligned sizes are powers of two and bases are multiples of the aligned size; with align in effect the aligned size is the smallest multiple of it that holds the contents.",
 ['inputs','programs'],"every block tree, count and align setting",G+"only small trees with equal alignments are compared.",
 [R+'reg.go',R+'assign.go','internal/util/util.go'],[('alignBlockSize',R+'reg.go'),('assignGlobalAccessAddresses',R+'assign.go')]),
p('C06','Proc and stream call, exit and strobe addresses are consistent',
 "Params and then returns of a proc or stream are packed contiguously from bit 0 of its first register in declaration order. The call address is the last param register (or the proc's single register if it has none), the exit address is the last return register or, for delayed procs without returns, the call register; the stream strobe address is its last register; each is present exactly when defined.",
 ['inputs'],"every list of params/returns, widths, arrays and delay setting",G+"packing over register boundaries is sampled a few times.",
 [R+'proc.go',R+'stream.go'],[('regProc / regStream',R+'proc.go')]),
p('C07','Registers are allocated in the documented order with first-fit gap reuse',
 "The address map is exactly the one the allocation rules define: procs, streams, configs, masks, statics, statuses, irqs in this order; atomic before non-atomic, arrays before singles, wider before narrower, declaration order last; single statuses reuse the narrowest fitting leftover space and explicitly cleared irqs without enable reuse write-safe leftover space. Sub-blocks are placed from the end of their parent's space towards its beginning: larger aligned sizes first, equal ones by name. Widths and counts are positive.",
 ['inputs','programs','histories'],"every sequence of functionalities; each placement depends on the history of leftover gaps",
 G+"a map that silently changes between tool versions breaks fielded software, and tests pin only a few maps.",
 L,[('sort.SliceStable orders',R+'reg.go'),('Pool.GetSingle ordering','internal/gap/pool.go')]),
p('C08','Properties compose over the type chain, once each, with defaults',
 "The properties of an instance are the union of those set along its chain of types and its own body; setting a property, or width together with range, more than once on the chain is rejected; unset properties get their defaults (width from range or bus width; atomic, triggers, clear, masters and the rest as documented).",
 ['inputs','programs'],"every base type, chain length and distribution of properties over the chain",
 G+"chains longer than two and most property pairs never occur.",
 ['internal/ins/config.go','internal/ins/block.go','internal/ins/irq.go','internal/ins/status.go','internal/ins/static.go','internal/ins/mask.go','internal/ins/param.go','internal/ins/proc.go','internal/ins/type_chain.go'],
 [('per functionality diary','internal/ins/config.go')]),
p('C09','Type arguments bind to parameters per instance, lexically scoped',
 "Each instance sees its own arguments: positional, named and default arguments bind as written, arguments are evaluated where the instance is written, bodies and defaults where the type is defined, and inner constants shadow outer ones. Missing, superfluous, unknown or repeated arguments are rejected, and one instance never affects another.",
 ['inputs','programs','histories'],"every chain of parametrized types, argument list and order of instantiations",
 G+"each parametrized type is used with one or two argument lists.",
 ['internal/ins/args.go','internal/ins/type_chain.go','internal/prs/type.go','internal/prs/inst.go','internal/prs/symbol_container.go'],
 [('resolveArgs','internal/ins/args.go'),('bindParams','internal/ins/type_chain.go'),('GetConst scope chain','internal/prs/type.go')]),
p('C10','Init, reset, read and enable values are exact bit strings of their width',
 "An integer value is accepted exactly when it fits the functionality's width as unsigned or two's complement number and is emitted as a bit string of exactly that width with that value; a bit string is passed through unchanged exactly when it is not wider than the width; a range gets the smallest width that represents its greatest value.",
 ['inputs'],"every value, width (also above 64 bits) and literal format",
 "Unit tests convert a few values; boundaries at powers of two and formats are not enumerated.",
 ['internal/val/bit_str.go','internal/ins/common.go','pkg/fbdl/types/range.go','pkg/fbdl/types/bit_str.go'],
 [('BitStrFromInt','internal/val/bit_str.go'),('processValue','internal/ins/common.go'),('BitWidth','pkg/fbdl/types/range.go')]),
p('C11','Invalid descriptions are rejected, valid ones accepted',
 "A description that sets a property its base type does not have, gives it a value of a wrong type or outside its domain, nests a functionality where it is not allowed, repeats a name, omits a mandatory property or refers to an unknown name is rejected with a message on stderr, exit status 1 and no JSON; a description violating none of the rules is accepted.",
 ['inputs','programs'],"every (base type, property, value), (outer, inner) pair and way of writing it: inline, in a body, through a type",
 "The error tests list single examples of some rules; the full product of types, properties and values is never visited.",
 ['internal/ins/check.go','internal/util/util.go','internal/prs/body.go','internal/prs/inst.go','internal/prs/type.go','internal/ins/block.go','internal/ins/group.go'],
 [('IsValidProperty / IsValidInnerType','internal/util/util.go'),('checkProp','internal/ins/check.go')],("exit status","stderr","stdout")),
p('C12','Expressions evaluate with the documented operators and precedence',
 "Every expression over integers, booleans, ranges and times built from the supported operators, functions, parentheses and constants evaluates to the value defined by operator precedence and left associativity; integer results are exact, and an undefined operation is reported as an error.",
 ['inputs'],"every expression tree and every textual form of it",
 "Unit tests parse some dozens of expressions; evaluation is only sampled.",
 ['internal/ast/expr.go','internal/prs/expr.go','internal/prs/call.go','internal/tok/token.go'],
 [('precedence climbing','internal/ast/expr.go'),('BinaryExpr.Eval','internal/prs/expr.go')],("constants dump (-c)","compiler JSON on stdout")),
p('C13','Meaning does not depend on spelling; layout rules are enforced',
 "Descriptions that differ only in comments, blank lines, spaces between tokens, inline or indented form of properties, and number base denote the same bus. Tabs, odd or jumping indentation, trailing spaces, duplicated separators and malformed literals are rejected, and identifiers spelled like properties, keywords or with subtraction lex by position.",
 ['inputs'],"every token sequence and every rendering of it",
 "Lexer tests cover one rendering of each construct.",
 ['internal/tok/parse.go','internal/ast/inst.go','internal/ast/body.go','internal/ast/prop.go','internal/ast/const.go'],
 [('Indent/Dedent machine','internal/tok/parse.go'),('parseWord','internal/tok/parse.go')]),
p('C14','Compilation is deterministic',
 "Compiling the same files gives byte-identical output and the same verdict in every run, whatever the scheduling of the concurrent package parsing and the iteration order over internal tables; the order of files in a package and of packages on disk does not matter.",
 ['schedules','inputs'],"every interleaving of package parsing and every map iteration order",
 "Each test compiles once; nondeterminism shows only under some schedules or with several packages.",
 ['internal/prs/prs.go','internal/prs/pkg.go','internal/prs/import.go','internal/ins/ins.go','internal/util/hash/constContainer.go',R+'assign.go'],
 [('package mutexes and WaitGroup','internal/prs/prs.go'),('sorted constants in hash','internal/util/hash/constContainer.go')],("stdout","exit status","constants dump")),
p('C15','Every input ends in output or a diagnosis, never in a crash or hang',
 "For every input file the compiler terminates in bounded time either with exit status 0 and one complete JSON document on stdout, or with exit status 1, an error message on stderr and nothing on stdout; it never panics, and never emits JSON together with an error.",
 ['inputs'],"every byte sequence, token sequence and well-formed description",
 "Tests only feed inputs their author thought of.",
 ['cmd/fbdl/main.go','internal/tok/parse.go','internal/ast/expr.go','internal/prs/expr.go','internal/ins/ins.go','internal/ins/common.go',R+'reg.go'],
 [('tok.Error and log.Fatalf','internal/tok/error.go')],("exit status","stderr","stdout")),
p('C16','Imports bind to exactly the package the path names',
 "Packages are the fbd- directories with at least one .fbd file reachable from the working directory or FBDPATH, each found once also through symbolic links; an import binds the alias (or package name) to the single package its path names, is rejected when none or several match, and qualified names resolve only to symbols of that package, all files of which contribute symbols.",
 ['inputs','configurations'],"every directory tree, link structure, FBDPATH and import list",
 "Tests use two fixed trees.",
 ['internal/prs/pre.go','internal/prs/import.go','internal/prs/pkg.go','internal/prs/file.go','internal/prs/prs.go','internal/util/directory.go'],
 [('findPkgsInDir visited set','internal/prs/pre.go'),('GetMatching','internal/prs/pkg.go'),('File.GetConst/GetType','internal/prs/file.go')],("constants dump (-c)","compiler JSON on stdout","exit status")),
p('C17','The bus ID identifies the described interface',
 "Descriptions that denote the same bus get the same ID, whatever their formatting, files, types and interleaving of kinds; changing a name, documentation, width, count, atomicity, init value, trigger, clear, enable, size, number of masters, constant value or the position of any functionality of any block changes the ID (32-bit buses and wider, digest collisions apart). Groups, ranges, read and reset values and names of constants take no part in it, and names and documentation are not delimited from one another. The ID and the optional timestamp are statics of min(32, bus width) and min(36, bus width) bits with init values of that width, and the timestamp occupies the register after the main bus's own functionalities without moving them.",
 ['inputs','programs'],"every pair of descriptions that differ in one aspect, every bus width",
 G+"pairs of descriptions are never compared.",
 [R+'id_and_ts.go',R+'reg.go','internal/util/hash/hash.go','internal/util/hash/block.go','internal/util/hash/access.go'],
 [('Hash of the registerified bus','internal/util/hash/hash.go')]),
p('C18','The output lists exactly the described functionalities',
 "Every instantiated functionality appears exactly once in the output of its block, in the list of its kind, in instantiation order along the type chain (sub-blocks in any order), with its name, documentation, array flag and count, and with the properties it was given; sub-blocks recursively so; constants of the main bus's blocks and of the packages appear with their values; nothing else appears.",
 ['inputs','programs'],"every block tree, type chain and documentation comment placement",
 G+"documentation and order are compared for few descriptions.",
 ['internal/ins/block.go','internal/ins/proc.go','internal/ins/stream.go','internal/ins/group.go','internal/ast/doc.go','internal/ast/body.go','internal/util/block/block.go','internal/util/constContainer/constContainer.go','internal/prs/body.go'],
 [('addBlockInnerElement','internal/ins/block.go'),('Doc attachment','internal/ast/body.go')]),
p('C19','Diagnostics point at the offending token',
 "When a description is rejected for a lexical or syntax error or a wrong property name or value, the message names the file and the line and column of the offending token, and shows that source line with the token underlined.",
 ['inputs'],"every position of every fault in every layout of the text",
 "Error tests place each fault at one fixed position.",
 ['internal/tok/error.go','internal/tok/context.go','internal/tok/parse.go','internal/tok/join.go','internal/ast/error.go'],
 [('position bookkeeping in the lexer','internal/tok/context.go'),('Error.code','internal/tok/error.go')],("stderr",)),
p('C20','The command line contract holds for every option combination',
 "Options may be given in any order before the file: -main selects the main bus, -c writes the package constants to the given path, -add-timestamp adds exactly the timestamp, -debug only adds messages on stderr; stdout always holds only the JSON. Unknown options, missing arguments and missing files are reported with exit status 1.",
 ['inputs','configurations'],"every combination and order of options",
 "Tests use a single invocation form.",
 ['cmd/fbdl/main.go','internal/args/args.go'],[('args.Parse','internal/args/args.go')],("stdout","stderr","exit status","constants dump")),
p('C21','The Go library gives the same results as the compiler and true answers',
 "fbdl.Compile returns the same bus and package constants the command line prints for the same file, bus name and timestamp option, an error exactly when the command line fails (or it ends the process with a message), and results are independent: neither earlier nor later compilations in the same process change a result. What the returned objects answer follows from their data: buffer sizes and start addresses of the params and returns of a proc (asking for the start of what is not there panics), whether a proc has only params, only returns or neither, direction and start address of a stream (an empty one is downstream and starts at its strobe), whether a group is read-only (no config, mask or param, all irqs cleared on read and without enable), the first and last address of an access, start of a block, bit widths and shifts of ranges, whether a time is zero, whether a container holds no constant, and width, digits, base, binary form, extension with zeros and unsigned value of bit strings (which panics when there is no such value).",
 ['inputs','programs','histories'],"every description, every functionality in it, every bit string and range, and every sequence of compilations and questions in one process",
 "The unit tests call ToBin, Extend and BitWidth on a few values; nothing tests the methods of procs, streams, groups and containers, or a second compilation in one process, although registerification uses package variables.",
 ['pkg/fbdl/compile.go','pkg/fbdl/fn/proc.go','pkg/fbdl/fn/stream.go','pkg/fbdl/fn/group.go','pkg/fbdl/types/bit_str.go','pkg/fbdl/types/range.go','pkg/fbdl/cnst/container.go','internal/reg/reg.go','internal/gap/pool.go'],
 [('Compile','pkg/fbdl/compile.go'),('ParamsBufSize, ReturnsStartAddr, IsParam','pkg/fbdl/fn/proc.go'),('IsDownstream, StartAddr','pkg/fbdl/fn/stream.go'),('IsReadOnly','pkg/fbdl/fn/group.go'),('Extend, ToBin, Uint64','pkg/fbdl/types/bit_str.go'),('package variables busWidth, busAlign',"internal/reg/reg.go")],("Go API of package fbdl",)),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in props:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
