PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


P("C01", "A package reads back from its use file exactly as it was written",
  """Whatever a package exports (declarations and their flags, types, traits, impls, generic bodies with every kind of expression,
  statement, pattern and literal) is read by an importing compile with the same fields, order, counts, widths and values with which it was
  written. No exported or hidden definition is left out of the file, and no definition is dropped while loading.""",
  ["programs"], "every exported declaration, type, trait, impl and body, of any shape and size, for every reader of the file",
  "The tests import a few packages; an asymmetry between the writer and the reader of one node kind, one flag, or one wide value shows only when an exported item has it.",
  ["parse/use.c", "util/pack.c"],
  [("writer", "parse/use.c:pickle,typickle,wrsym,traitpickle,writeuse"), ("reader", "parse/use.c:unpickle,tyunpickle,rdsym,traitunpickle,loaduse"),
   ("encodings", "util/pack.c")],
  "abstract interpretation of writer and reader to canonical field sequences, compared per kind",
  "all node, type and declaration kinds and flags of the current sources; every path of writer and reader; byte order by bit provenance")

P("C02", "Out of range indexes and slices always abort",
  """Reading or writing an element of an array or slice at an index that is negative or not below its length, and taking a slice whose start
  is after its end or whose end is after the length, stops the program before the element or the new slice is used. This holds for every
  index type and value, constant or not, for lengths of any size, for named types, and for slices in constant data.""",
  ["inputs", "programs"], "all index and slice expressions of every element type, every index value and every length",
  "Tests index a few arrays in range; a check that compares with the wrong sign, against the wrong length, or is skipped for one form shows only for inputs no test has.",
  ["6/simp.c", "6/blob.c", "rt/abort-linux.s"],
  [("index lowering", "6/simp.c:idxaddr,checkidx"), ("slice lowering", "6/simp.c:simpslice"), ("constant slices", "6/blob.c:blobslice"),
   ("abort", "rt/abort-linux.s:_rt$abort_oob")],
  "abstract interpretation of the lowering; dominance of address uses by the guarding compare",
  "all paths of the lowering for both lvalues and rvalues, arrays, slices and pointers")

P("C03", "The instruction and register tables describe the processor",
  """For every instruction the compiler can emit, the operands and fixed registers it is recorded to read and to overwrite are those the
  processor reads and overwrites, its assembler spelling (in both syntaxes) names the intended operation with the right operand sizes and
  order, and each register is known under its right name at each width. Moves are only dropped when they change nothing, and the liveness
  computation counts every register an operand or address mentions.""",
  ["programs"], "all instructions, operand kinds and registers, whatever the allocator picks",
  "A wrong entry changes results only when the allocator happens to place a live value there, which depends on the whole function.",
  ["6/insns.def", "6/regs.def", "6/locs.c", "6/ra.c", "6/gengas.c", "6/genp9.c"],
  [("instruction table", "6/insns.def"), ("register table", "6/regs.def"), ("views of a register", "6/locs.c:coreg"), ("uses and definitions", "6/ra.c:uses,defs"),
   ("printing", "6/gengas.c:iprintf")],
  "table analysis against an instruction-set model, plus abstract interpretation of the readers of the tables",
  "all table entries and all paths of the functions that read them")

P("C04", "Operators and control statements group as the manual says",
  """Source text denotes the tree the language manual gives it. Operator and punctuation tokens are taken by longest match, and exactly the
  reserved words are keywords. Every combination of prefix, postfix, binary, ternary and assignment operators groups by the precedence and
  associativity of the manual's table (parentheses override it), each operator denotes its own operation, and its operands, call arguments
  and indexes keep their order. In if/elif/else, while, for and match statements every condition, step, pattern and block has its own place.""",
  ["inputs"], "all operator combinations and statement shapes, by context-freeness of the grammar",
  "Tests use a few combinations of operators; one wrong level, one swapped operand or one token cut short only shows in sources that combine exactly those.",
  ["parse/tok.c", "parse/gram.y", "parse/node.c"],
  [("tokens", "parse/tok.c:oper,kwd"), ("grammar", "parse/gram.y:expr..atomicexpr,stmt"), ("operations", "parse/gram.y:binop"), ("nodes", "parse/node.c:mkifstmt,mkloopstmt,mkcall,mksliceexpr")],
  "decision paths of the lexer, LALR tables with abstract evaluation of the semantic actions, compared with the manual's table",
  "all operator spellings with every continuation; all pairs of binary operators, all prefix/postfix/binary combinations, triples of one operator per level")

P("C05", "Literals denote the values they spell",
  """Every integer, floating point, character, string and boolean literal becomes a literal of exactly the value its text spells: digits in
  the base of the prefix with underscores ignored, integer suffixes give the documented type, every escape gives its documented byte or
  code point, \\u{} and source characters are encoded and decoded as UTF-8 for every code point, string lengths count exactly the bytes of
  the text, and adjacent strings are joined in order. Malformed literals (digits outside of the base, code points above 10FFFF, several
  characters in a character literal) are rejected.""",
  ["inputs"], "all literals", "Tests contain a handful of literals, mostly small and ASCII.",
  ["parse/tok.c", "parse/gram.y", "parse/node.c"],
  [("escapes", "parse/tok.c:decode,unichar,hexval"), ("UTF-8", "parse/tok.c:appendc,encode,readutf"), ("numbers", "parse/tok.c:numlit,number"),
   ("strings", "parse/tok.c:strlit,charlit"), ("literal nodes", "parse/gram.y:littok,strlit; parse/node.c:mkint,mkchar,mkfloat,mkbool,mkstr")],
  "decision paths and constant propagation through the lexer, compared with the manual's tables",
  "all escapes, bases and suffixes; UTF-8 on a bit basis and the boundaries of every length")

P("C06", "Constant folding gives the value the generated code would",
  """An expression the compiler evaluates at compile time has the value that the same expression has at run time: integer arithmetic wraps
  at the width and sign of its type, shifts and divisions follow the sign of the type, casts between integers truncate and extend, a
  simplification such as x+0 or x*1 keeps the operand, no side effect is dropped, the result has the expression's type, only constants with
  a known scalar initialiser are replaced by it, and lengths of arrays and positions of array elements are exact.""",
  ["programs", "inputs"], "all operators, integer types and operand values",
  "The tests fold few constants, mostly small positive ints; wrapping, sign and effects differ only in corner cases.",
  ["parse/fold.c"], [("folding", "parse/fold.c:fold"), ("casts", "parse/fold.c:foldcast"), ("element order", "parse/fold.c:idxcmp")],
  "abstract interpretation of the folder, its transfer functions compared with two's complement arithmetic",
  "every operator and integer type over the corner values of the type; operands with and without effects; all pairs of cast types")

P("C07", "Expressions and statements run in the order and number the source says",
  """A function body does, step by step, what its source says. Operands, arguments and elements are evaluated left to right and exactly once,
  and a scalar operand keeps the value it had when it was evaluated; x++ and x-- yield the old value and step the place they named once, at
  the end of the expression; &&, || and ?: evaluate only the operands they choose; comparisons are signed, unsigned or floating as their
  operand types say; the variables of a destructuring assignment all get the values of the right hand side from before it. Only the chosen
  arm of an if runs, a loop runs its step before each further test, break, continue and return leave the loop or function they belong to
  and no other, an iteration visits each element in order and calls __iterfin__ once for each finished step, and every auto value is
  disposed of exactly once, in reverse order of creation, on every way out of its block.""",
  ["programs"], "all nestings of expressions and statements, all outcomes of their tests",
  "The tests combine few constructs; an effect lost, doubled or moved shows only for one nesting, one kind of exit or one operand with side effects.",
  ["mi/flatten.c"],
  [("expressions", "mi/flatten.c:rval,lval,visit"), ("conditions", "mi/flatten.c:condjmp,flattencond"), ("statements", "mi/flatten.c:flattenloop,flatteniter,flattenif,flattenmatch"),
   ("exits", "mi/flatten.c:exitscope,dispose"), ("assignments", "mi/flatten.c:assign,destructure")],
  "abstract interpretation of the flattening over opaque operands; traces of the emitted statements compared with the source's, per outcome of every test",
  "every operator over operand kinds two deep; statements nested up to three loops, every pair of exits; traces up to a bounded number of tests")

P("C08", "Expressions compile to code that computes their value",
  """The machine code for an expression yields the value the language defines for it, at the width and sign of its type, wherever its operands
  live: in registers, the frame, globals, a closure's environment, behind a pointer, or in the code as literals. This holds for every
  arithmetic and bitwise operator including division, remainder, shifts and rotations, for comparisons, both as values and as branches, for
  negation and complement, for conversions between all integer, float, bool, char and pointer types, for literals of every size, and for
  addresses with scaled indexes. Evaluating an expression leaves every variable as it was, and an assignment changes its target and nothing
  else; every instruction has operands the processor offers. Comparisons with NaN are left open.""",
  ["programs", "inputs"], "all operators, types and operand places, two levels deep; all operand values",
  "Tests use few combinations of operator, width, sign and operand place, with few values; a wrong width, sign or clobbered register shows only for some.",
  ["6/isel.c", "6/simp.c", "6/locs.c"],
  [("selection", "6/isel.c:selexpr,selcjmp,memloc,rolop"), ("conversions", "6/simp.c:simpcast,intconvert; 6/isel.c:Oint2flt,Oflt2int"), ("literals", "6/simp.c:rval,Olit"),
   ("registers", "6/locs.c:coreg")],
  "abstract interpretation of lowering and selection over opaque operands; emitted instructions read as bit-vector terms and compared with the language's",
  "8600 expression shapes: every operator, type, conversion pair and operand place; nested two deep; equality of terms in normal form, else corner valuations of the operands")

P("C09", "Arguments, results and captured variables cross every call unchanged",
  """The callee of any call receives, in each parameter, exactly the value the caller passed, and the caller gets exactly the value the callee
  returned: for every number and mix of integer, float, bool, char, pointer, enum, slice, function, struct, tuple, array and union types,
  by value in registers, on the stack or through the hidden result pointer, placed where the platform's convention says. Variadic
  arguments arrive with a description of their types and are laid out as the library walks them. A function literal sees the values its
  captured variables had when it was made. A call leaves the other variables, the stack pointer and the registers that belong to the
  caller as they were, and the stack is aligned at every call.""",
  ["programs"], "all signatures over a representative set of types; all values",
  "The tests call few signatures; a value in the wrong register or at the wrong offset shows only for one mix of classes or one count of arguments.",
  ["6/isel.c", "6/simp.c", "6/typeinfo.c", "6/gengas.c"],
  [("call", "6/isel.c:gencall,placearg,movearg"), ("entry", "6/isel.c:addarglocs,prologue"), ("exit", "6/isel.c:epilogue"), ("classes", "6/typeinfo.c:classify,classify_recursive,tysize,tyalign"),
   ("closures", "6/simp.c:capture,collectenv,simpcall,simpinit")],
  "abstract interpretation of both sides of a call; their instruction lists read as terms over one machine state and compared with the convention",
  "3400 signatures: every scalar and 77 aggregate types in every position, up to 20 arguments, plus seeded mixes; one call deep")

P("C10", "Aggregates keep each part where it was put",
  """Building, copying, reading or changing a tuple, struct, array, slice or union touches exactly the parts it names. A literal puts each
  element, in whatever order it is written, where a later read of that element finds it, and clears the elements it leaves out; an
  assignment copies every byte of the value and nothing outside the target; a member, element, tag or payload that is read or assigned, also
  through pointers and nested within other aggregates, is the one that was named; a slice begins at its first element and has as many
  elements as its bounds say; sizes are those of the layout. When the new value is made from parts of the old one, directly or through a
  pointer, the parts are read before they are overwritten. No other variable changes.""",
  ["programs"], "all aggregate types, places and parts, nested two deep; all values",
  "The tests use few layouts; an offset, a padding byte or an overlap goes wrong only for one order of sizes or one combination of source and target.",
  ["6/simp.c", "6/isel.c", "6/typeinfo.c"],
  [("assignment", "6/simp.c:assign,assignat,readsdst"), ("building", "6/simp.c:rval,simptup,simpucon,simpslice"), ("parts", "6/simp.c:membaddr,idxaddr,tupget,uconid,simpuget,seqlen"),
   ("copying", "6/isel.c:blit,clear"), ("layout", "6/typeinfo.c:tysize,tyalign,tyoffset")],
  "abstract interpretation of lowering and selection over opaque parts; memory after the instructions compared part by part with the meaning",
  "13000 assignments: 100 aggregate types, 8 kinds of place, literals two deep, elements by constant and variable index")

P("C12", "A match runs the first arm that matches, with its variables bound",
  """For every value, a match statement runs the first arm, in the order written, whose pattern matches the value, and no other; in that arm each
  variable of the pattern holds the part of the value it stands for. This holds for patterns of literals (every integer width, char, float,
  string), variables, wildcards, constants, tuples, arrays, structs in any member order, union constructors with or without payload,
  pointed-to values and alternatives joined by ||, nested in any way; parts that the value lacks (the payload of another constructor)
  are not read. A match that leaves some value without an arm is rejected at compile time, an arm that can never run may be, and no other match
  is. The pattern of a for loop accepts exactly the elements it matches and skips the others.""",
  ["programs"], "all lists of patterns over all types; all values",
  "The tests hold a few dozen matches; decision trees that share or skip a test go wrong only for one interplay of several arms and one value.",
  ["mi/match.c", "parse/node.c"],
  [("patterns", "mi/match.c:addrec,genfrontier,addcapture"), ("trees", "mi/match.c:compile,project,dtreusable,loadeq,pateq,patheq"), ("completeness", "mi/match.c:verifymatch,nconstructors"),
   ("code", "mi/match.c:genmatchcode,genmatch,genonematch"), ("literals", "parse/node.c:litvaleq")],
  "abstract interpretation of the match compiler; the emitted tests and jumps walked for every class of values and compared with first-match semantics",
  "2500 lists of arms and 700 loop patterns over 50 types, seeded, plus named shapes; up to 20 parts or constructors")

P("C11", "Constant data and type descriptors hold exactly what the source says",
  """For every constant or initialised global - of any integer, char, bool, float, string, tuple, struct (members in any order, some left out), array
  (elements in any order, some left out), slice of a literal or of another constant, union with or without payload, function or function
  literal, nested in any way, through any named types - the bytes the compiler lays out in the object file, with the addresses in them, are those
  of the value under the layout the language gives its type: every element and member at its place, padding and what is left out zero, slices with
  the address of their first element and their length, and just as many bytes as the type has. A variable without a value reserves the size
  of its type. Each text and function literal pointed to is in the file, with its own contents. The run-time descriptor of every type describes
  that type, of any size, when read back in the form lib/std/introspect.myr reads. Both the gas and the Plan 9 assembly say so.""",
  ["programs"], "all constant values of all types; all types",
  "The tests initialise a few constants with values that fit; wrong padding, a lost element or a length byte above 127 show only for particular shapes.",
  ["6/blob.c", "6/gengas.c", "6/genp9.c", "6/typeinfo.c", "6/simp.c"],
  [("literals", "6/blob.c:bloblit,blobrec"), ("aggregates", "6/blob.c:blobstruct,blobucon,blobslice"), ("extraction", "6/simp.c:simpconstinit,extractsub,simpblob"),
   ("directives", "6/gengas.c:writeblob,genstrings"), ("plan 9", "6/genp9.c:writeblob,writebytes"), ("descriptors", "6/typeinfo.c:tydescblob,encodetypeinfo")],
  "abstract interpretation of the compiler's data emission; the directives read back as bytes and addresses and compared with the value under the layout of its type",
  "about 600 seeded values of 55 types and 150 descriptors (arrays up to 2^42 elements, 130 members), in both syntaxes")
P("C13", "Laying out a function keeps its flow of control, and rejects no good one",
  """For every function, the labels, jumps and instructions the compiler writes out take control through the same statements, in the same order and on
  the same outcomes of its conditions, as the flattened statement list: no statement reachable is lost when unreachable ones are trimmed or jumps are
  dropped, no jump goes astray, control leaves through the epilogue exactly where the function returns, and every label stands once in the
  file. The graph of blocks the later passes work on has an edge wherever control passes, each known at both ends. A function with a
  result is rejected exactly when a way leads to its end without a return, and the use of a scalar local that was declared without a value is rejected exactly when
  a way leads to it on which it was not set.""",
  ["programs"], "all statement lists; all ways through them",
  "Tests have a few well-formed functions; a lost edge or a stale dataflow fact shows only for particular nests of loops, early exits and unreachable code.",
  ["mi/cfg.c", "mi/reaching.c", "mi/dfcheck.c", "6/peep.c", "6/isel.c"],
  [("blocks", "mi/cfg.c:mkcfg,addnode,addlabel"), ("trimming", "mi/cfg.c:trim,trimdead,delete,noexit"), ("layout", "6/isel.c:selfunc,mkasmbb,selcjmp"), ("peephole", "6/peep.c:deadcode,nopjmp"),
   ("output", "6/gengas.c:writeasm"), ("reaching definitions", "mi/reaching.c:reaching,genkill,assignee"), ("diagnostics", "mi/dfcheck.c:checkret,checkreach,checkundef")],
  "abstract interpretation of graph construction, layout and peephole; the written lines walked in step with the statement list; diagnostics against a path analysis",
  "all lists of up to 4 statements over 9 kinds, 2200 seeded longer ones and 1800 seeded programs for the diagnostics")

N("N01", "Well typed programs never have their values misinterpreted",
  """A program the compiler accepts never uses a value at a type other than the one it was given, except through an explicit cast.""",
  ["programs"], "all accepted programs", "The tests are a finite set of programs.", ["parse/infer.c"], [("inference", "parse/infer.c")],
  "soundness of the whole inference needs a proof about the unifier over unbounded programs; no static argument over this source reaches it")
N("N02", "Register allocation preserves every program's meaning",
  """After register allocation, every use of a value reads what its definition wrote.""",
  ["programs"], "all functions and all interference graphs", "The tests compile a finite set of functions.", ["6/ra.c"], [("allocator", "6/ra.c:regalloc")],
  "graph colouring over run-time graphs needs an invariant proof of the work-list algorithm; only its tables and the registers of the calling convention are decided")
N("N03", "Regular expressions match exactly the language they denote",
  """A compiled pattern matches a string if and only if the string belongs to the language the pattern denotes.""",
  ["inputs"], "all patterns and strings", "The tests hold a finite set of patterns.", ["lib/regex/compile.myr", "lib/regex/interp.myr"], [("matcher", "lib/regex/interp.myr")],
  "equivalence of a pattern compiler and matcher with the denotation quantifies over run-time automata; out of reach of dataflow or table analysis")
N("N04", "The mathematical functions meet their stated accuracy",
  """Each elementary function returns a value within its documented error of the exact result for every argument.""",
  ["inputs"], "all floating point arguments", "The tests hold a finite set of arguments.", ["lib/math"], [("functions", "lib/math/*-impl.myr")],
  "error bounds over all floats need numeric proofs of the approximations, not an analysis of the source's structure")
N("N05", "Decompression inverts compression for every input",
  """Decoding the encoding of any byte string gives the byte string back.""",
  ["inputs"], "all byte strings", "The tests hold a finite set of inputs.", ["lib/flate"], [("codec", "lib/flate/deflate.myr, lib/flate/inflate.myr")],
  "a round trip over an LZ77/Huffman pair depends on run-time trees and window state; only its constant tables can be decided statically")
