import json
def P(id,title,st,over,text,why,files,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    return d
L=[]
L.append(P("C01","Def-use information is always closed and exact",
"After any sequence of public edits (creating, replacing and removing values and basic blocks, adding, replacing and removing functions), the recorded users of every value and of every basic block are exactly the values that currently reference it, globals included. A value, a basic block or a block parameter that something still uses is never removed: the removal panics, as documented, so no live value of a function refers to a removed value or basic block of that function.",
["histories","programs"],"every finite sequence of public IR edit operations, over every kind of value, every operand position and every number of live entities",
"The tests build a few fixed programs and never compare the recorded users with the operands; the claim ranges over edit histories of any length.",
["koopa/src/ir/dfg.rs","koopa/src/ir/entities.rs","koopa/src/ir/builder.rs","koopa/src/ir/values.rs"],
[("insertion, replacement and removal of values and blocks","koopa/src/ir/dfg.rs: DataFlowGraph"),("function and global bookkeeping","koopa/src/ir/entities.rs: Program"),("creation through builders","koopa/src/ir/builder.rs")],
[("used_by","set of the values using this value or block","koopa/src/ir/entities.rs: ValueData, BasicBlockData")]))
L.append(P("C02","Operand enumeration is complete, exact and ordered",
"Enumerating the values used by an instruction yields every operand of it, once per occurrence, in declaration order, and nothing else; enumerating the basic blocks it uses yields exactly its branch targets in order. Classifying a value as constant or as a local instruction depends only on its kind and is the same everywhere. Asking a kind for one of its operands, to read it or to change it in place, gives exactly that operand.",
["programs","inputs"],"every value kind, every number of elements, arguments and block parameters, and optional operands present or absent",
"No test calls the enumeration directly for each kind; argument lists have unbounded length.",
["koopa/src/ir/entities.rs","koopa/src/ir/values.rs"],
[("operand and target iterators","koopa/src/ir/entities.rs: ValueKind::value_uses, ValueKind::bb_uses, ValueUses, BasicBlockUses"),("operand accessors","koopa/src/ir/values.rs")]))
L.append(P("C03","Layout parent queries agree with the layout lists",
"After any sequence of layout edits, asking which basic block an instruction belongs to gives the block whose instruction list contains it, and nothing if no list contains it. The order of blocks and instructions is the one the edits prescribe, and the entry block is the first block of the list.",
["histories"],"every finite sequence of pushes, insertions, removals, clears and cursor moves on the block list and on every instruction list, an instruction being listed at most once at any time",
"The tests only append; interleavings of cursor edits, removals and clears over many blocks are not sampled.",
["koopa/src/ir/layout.rs"],
[("parent map maintenance","koopa/src/ir/layout.rs: BasicBlockMap, InstructionMap"),("layout queries","koopa/src/ir/layout.rs: Layout")],
[("inst_bb","map from instruction to its parent block","koopa/src/ir/layout.rs")]))
L.append(P("C04","Printed names are unique, stable and follow the name format",
"Within one printed program, two different functions or global values never get the same name, two different values visible in one function never get the same name, and two different basic blocks of one function never get the same name. The same entity keeps its name at every occurrence, an explicit name is kept with its prefix whenever it is free, and automatic names never collide with explicit ones.",
["programs"],"every program and every assignment of explicit names to its entities, including repeated names and names that look automatic",
"The tests print a handful of programs with distinct names; the claim quantifies over every naming of every program.",
["koopa/src/back/generator.rs","koopa/src/back/koopa.rs","koopa/src/back/llvm.rs"],
[("name allocation","koopa/src/back/generator.rs: NameManager, Prefix"),("order in which printers request names","koopa/src/back/koopa.rs, koopa/src/back/llvm.rs")],
[("global_names, bb_names","names in use","koopa/src/back/generator.rs")]))
L.append(P("C05","Types are interned: equality, size and display follow structure",
"Two types are equal (and hash equally) exactly when they have the same structure, on the same thread, however and whenever they were made. The size of every type is the one given by the rules (i32 4, unit 0, pointers and functions the configured pointer size, arrays length times element size), and its printed form is the textual type syntax.",
["inputs","histories"],"every type of any depth and every order in which types are created, and every pointer size setting",
"The tests compare a few types; depth, order and repetition of creations are unbounded.",
["koopa/src/ir/types.rs"],
[("interning pool","koopa/src/ir/types.rs: Type::get and the get_* constructors"),("size and display","koopa/src/ir/types.rs: Type::size, Display")]))
L.append(P("C06","Builders accept exactly well-typed operands and give the right type",
"Every builder method and constructor that creates a value, a block or a function returns (with the documented result type and with the given operands recorded unchanged) exactly when the operands satisfy the documented type rules, and otherwise refuses by panicking.",
["inputs","programs"],"every builder method, every operand kind and type, every argument list length, local and global operands",
"The tests call each builder with one or two well-typed operand lists and never check refusals or most result types.",
["koopa/src/ir/builder.rs","koopa/src/ir/values.rs"],
[("type checks of builders","koopa/src/ir/builder.rs: EntityInfoQuerier, ValueBuilder, LocalInstBuilder, GlobalInstBuilder, BasicBlockBuilder"),("value construction and result types","koopa/src/ir/values.rs")]))
L.append(P("C07","Tokenisation is exact and positions point at the source",
"The token sequence produced for a text is the one the lexical grammar prescribes: longest-match symbols, keywords, operators, integers and punctuation, with white space and nested-free comments skipped, for text of any length. The reported start and end position of every token is its actual line and column range.",
["inputs"],"every byte sequence and every number of comments, lines and tokens",
"The tests lex short samples; error recovery, long comment runs and positions after multi-line comments are not covered.",
["koopa/src/front/lexer.rs","koopa/src/front/span.rs","koopa/src/front/token.rs"],
[("character and token state machine","koopa/src/front/lexer.rs: Lexer"),("position tracking","koopa/src/front/span.rs: Pos, Span")]))
L.append(P("C08","The parser accepts exactly the grammar and always terminates",
"Every text derivable from the Koopa IR grammar is parsed, without an error, to the syntax tree of its derivation, and a text that is not derivable is reported as an error. Whatever the input, parsing terminates without crashing: every request for the next item consumes input or fails.",
["inputs"],"every text over the language's tokens and every byte string, up to the nesting depth the stack allows",
"The tests parse two fixed programs; the language and the set of malformed texts are infinite.",
["koopa/src/front/parser.rs","koopa/src/front/ast.rs","koopa/src/front/driver.rs"],
[("recursive descent parser","koopa/src/front/parser.rs: Parser"),("syntax tree constructors","koopa/src/front/ast.rs")]))
L.append(P("C09","Front end builds valid programs and reports invalid ones without crashing",
"For a syntactically correct text that satisfies the static rules (names defined once and before use, operand types matching, branch arguments matching block parameters) the front end produces the program the text denotes. For any other text it returns an error and never panics.",
["inputs","programs"],"every text, valid or not",
"The tests load one valid program and check a few lines; the space of invalid texts is only sampled by hand.",
["koopa/src/front/builder.rs","koopa/src/front/driver.rs"],
[("static checks and construction","koopa/src/front/builder.rs: Builder"),("driver","koopa/src/front/driver.rs: Driver")]))
L.append(P("C10","Printing then parsing a program gives the same program back",
"Any well-formed program printed as Koopa IR text is accepted by the front end and yields a program with the same globals, functions, blocks, instructions, types, operands and explicit names, up to renaming of unnamed entities. Printing that result again gives the same text.",
["programs"],"every well-formed program whose blocks are all reachable and listed in the order the front end visits them",
"One fixed program is printed in the tests; the claim ranges over all programs.",
["koopa/src/back/koopa.rs","koopa/src/back/generator.rs","koopa/src/front/builder.rs","koopa/src/front/parser.rs"],
[("text printer","koopa/src/back/koopa.rs: Visitor"),("front end","koopa/src/front/")]))
L.append(P("C11","LLVM output is valid LLVM IR with the same meaning",
"For every well-formed program the LLVM text produced is accepted by LLVM, and running it computes the same results, memory contents and calls as the program's own semantics. In particular integer operators, comparisons, address computations and block arguments are translated to instructions with the same effect.",
["programs","inputs"],"every well-formed program and every input on which it has a defined meaning",
"The tests compare output text for three programs; operator coverage, block arguments and aggregates are not exercised semantically.",
["koopa/src/back/llvm.rs"],
[("LLVM printer","koopa/src/back/llvm.rs: Visitor")]))
L.append(P("C12","The raw program's encoding matches the published C header",
"Every numeric tag, field order, field type and structure size used by the raw program in memory equals the one declared in the shipped C header, so a C client reads the program that was built. Every value kind, type kind and operator maps to the tag of the same meaning.",
["configurations","inputs"],"every type tag, value tag and operator, and every structure and field of the interface",
"The tests never compile the header; agreement is a matter of every field and tag.",
["libkoopa/include/koopa.h","libkoopa/src/raw/entities.rs","libkoopa/src/raw/builder.rs","libkoopa/src/errors.rs"],
[("raw structure definitions","libkoopa/src/raw/entities.rs"),("kind and operator mapping","libkoopa/src/raw/builder.rs: BuildRaw for TypeKind, ValueKind, Binary; libkoopa/src/raw/generator.rs: GenerateOnRaw"),("error codes","libkoopa/src/errors.rs"),("header","libkoopa/include/koopa.h")]))
L.append(P("C13","A raw program is a faithful, cross-linked image of the program",
"The raw form of a program lists every global, function, parameter, block and instruction in program order, with its type, name and operands; each entity has one raw object, shared by all references to it, and the users recorded in raw objects are those of the program. Reading a raw form back gives the same program, up to the order of functions and of blocks after the entry.",
["programs"],"every well-formed program",
"No test walks the raw form; sharing and ordering must hold for every program.",
["libkoopa/src/raw/builder.rs","libkoopa/src/raw/generator.rs"],
[("raw program builder","libkoopa/src/raw/builder.rs: RawProgramBuilder, BuildRaw"),("reading back","libkoopa/src/raw/generator.rs: GenerateOnRaw, RawSlice")]))
L.append(P("C14","The C interface honours its buffer contract and error codes",
"For any program and any buffer length, a dump to a caller's buffer never writes past the given length, only reports the full length when the buffer is absent, writes nothing and reports an error when the buffer is too small, and otherwise writes the whole text and a terminator. Every entry point reports success exactly when the requested operation succeeded, and the documented error code otherwise.",
["inputs","fault_sequences"],"every buffer length (zero, exact, off by one), absent buffers, absent outputs, unreadable and unwritable paths, malformed programs",
"libkoopa has no tests at all.",
["libkoopa/src/back.rs","libkoopa/src/driver.rs","libkoopa/src/io.rs","libkoopa/src/utils.rs","libkoopa/src/errors.rs"],
[("dump functions and buffer copy","libkoopa/src/back.rs, libkoopa/src/io.rs"),("parse functions","libkoopa/src/driver.rs")]))
L.append(P("C15","Handles are never reused and their class is recognisable",
"Every new value, block and function handle differs from every handle of the same sort made before it on the same thread. A value handle is global or local according to how it was made, and a handle of one class is never taken for the other.",
["histories"],"every number and interleaving of creations of global values, local values, blocks and functions, up to the size of the handle space",
"The tests create a few handles; the claim covers unbounded interleavings and the boundary between the classes.",
["koopa/src/ir/idman.rs"],
[("handle allocation and classification","koopa/src/ir/idman.rs")]))
L.append(P("C16","Value comparison is an order-respecting structural equality",
"Comparing two values of one function answers yes exactly when they have equal types, equal kinds, equal literals and pairwise equal operands in the same order, where operands are compared recursively, names and users being ignored. Comparing a value with itself always answers yes.",
["programs","inputs"],"every pair of values of every kind with any operand depth",
"One test compares two small pairs; every kind, operand position and list length must be respected.",
["koopa/src/ir/dfg.rs"],
[("structural comparison","koopa/src/ir/dfg.rs: DataFlowGraph::value_eq, data_eq and helpers")]))
L.append(P("C17","Error reporting counts every error and success means none",
"Reading a program returns success exactly when no error was reported, the final error returned is the first one reported when there are any, and the numbers of errors and warnings equal the numbers reported since that reader was made. More than the permitted number of errors stops reading, and no input makes error reporting itself fail.",
["inputs","histories"],"every input and every sequence of reports, from one or several readers in turn on a thread",
"The tests check a single erroneous input; counts and early stop depend on the whole error history.",
["koopa/src/front/span.rs","koopa/src/front/driver.rs"],
[("error counters and printing","koopa/src/front/span.rs: Span, Error"),("driver loop","koopa/src/front/driver.rs: Driver")]))
L.append(P("C18","Passes run in registration order on every function, exactly once",
"Running the pass manager runs each registered pass in the order of registration; a module pass sees the whole program once, and a function pass sees every function the program has when that pass starts exactly once, in no particular order. Nothing else of the program is changed by the manager.",
["programs","histories"],"every list of passes and every program",
"One test runs one pass of each sort; order and repetition over longer lists are not checked.",
["koopa/src/opt/passman.rs","koopa/src/opt/pass.rs"],
[("pass manager","koopa/src/opt/passman.rs: PassManager::run_passes")]))
L.append(P("C19","A program's function and global lists always match its contents",
"After any sequence of edits the list of functions contains exactly the functions of the program, each once, in insertion order, and the list of global instructions contains exactly the live global instructions, each once, in insertion order. Looking up an entity succeeds exactly when it is live.",
["histories"],"every finite sequence of function and global additions, removals and look-ups",
"The tests add a function or two and never remove one.",
["koopa/src/ir/entities.rs","koopa/src/ir/builder.rs"],
[("program bookkeeping","koopa/src/ir/entities.rs: Program"),("global creation","koopa/src/ir/builder.rs: GlobalBuilder")]))
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in L))
