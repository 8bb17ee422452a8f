"""Which units and which bounded search decide each property."""
UNIT_TIMEOUT = 400
UNIT_RLIMIT = {"c11_llvm": 90}
VACUITY_OK = {}
PROPS = {
    "C01": {"units": ["c01_dfg", "c01_program"], "replay": True,
            "note": "Every obligation of the contracted functions is discharged by Verus for all inputs; the insertion-ordered and hashed containers are trusted by contract; the functions not under contract are covered by a bounded search only."},
    "C02": {"units": ["c02_operands"], "replay": True,
            "note": "Every obligation of the contracted functions is discharged by Verus for all inputs, including every argument-list length."},
    "C03": {"units": ["c03_layout"], "replay": True,
            "note": "Every map operation behind the block and instruction lists, and the parent query, are discharged by Verus for all layouts; the key-node list (a dependency) is trusted to keep its sequence in step with its map and is covered by a bounded search."},
    "C04": {"units": ["c04_names"], "replay": True,
            "note": "The name manager is discharged by Verus for every history of requests: names are fresh, stable, distinct, formed from the explicit name or an automatic one, and released exactly at the end of the function. Strings, hash tables and addresses are trusted by contract; the counters of automatic names are assumed not to run out."},
    "C05": {"units": ["c05_types"], "replay": True,
            "note": "Type interning, equality, printing of types and size computation are discharged by Verus for all inputs; the type pool's reachability of Rc addresses is trusted by contract."},
    "C06": {"units": ["c06_builders", "c06_functions"], "replay": True,
            "note": "Every builder method of the four builders, and every constructor of functions, is discharged by Verus for all programs and operands, in both directions: a refusal is unreachable when the rule holds, a return implies the rule. The type constructors are used through the contracts proved for C05, the graph insertions through those proved for C01."},
    "C07": {"units": ["c07_lexer"], "replay": True,
            "note": "The lexer and the position tracking are discharged by Verus against a recursive definition of the lexical grammar, for every byte sequence; the reader, the character classes of std and integer parsing are trusted by contract."},
    "C08": {"units": ["c08_parser"], "replay": True,
            "note": "Every function of the parser and the constructors of the syntax tree are discharged by Verus against a recursive definition of the grammar, for every token sequence: the tree of the derivation or a reported error, with termination of every loop and recursion. Every tree handed to the builder has the shape the builder requires (C09). The lexer is used through its contract (C07); stack depth is unbounded for the verifier."},
    "C09": {"units": ["c09_front"], "replay": True,
            "note": "Every function of the front-end builder is discharged by Verus against a denotation of the syntax tree: either no message is added and the program gains exactly the item the tree denotes, or at least one message is added and a static rule is broken, and no panic is reachable. The program data structures are used through their own contracts (C01, C03, C06, C15); the well-formedness it assumes of trees is a postcondition of the parser (C08)."},
    "C10": {"units": ["c10_koopa"], "replay": True,
            "note": "The printing half is discharged by Verus for every well-formed program: the emitted text is exactly a recursive text specification over the program (headers, blocks, parameters, every instruction, constants, names handed out by the name manager under its C04 contract). That parsing this text gives the program back is covered by a bounded search (round trips of generated programs)."},
    "C11": {"units": ["c11_llvm"], "replay": True,
            "note": "The translation is discharged by Verus for every well-formed program: the emitted text is exactly a recursive specification of the LLVM IR of the program, which gives for every instruction, operator, type, constant, block parameter (phi) and call the LLVM form with the same effect, with identifiers of LLVM form and fresh temporaries. That LLVM gives these forms the stated meaning is not proved; it is covered by a bounded search which compiles and runs generated programs against a reference interpreter."},
    "C12": {"units": ["c12_header"], "replay": True,
            "note": "Every enumerator, field offset, field size and union member of the C header is compared by the verifier with the memory layout that the repr attributes of the Rust declarations fix, for the header and declarations of the current tree; the tags produced when building are postconditions. The C and repr(C) layout rules of the x86-64 ABI are encoded in the extractor."},
    "C13": {"units": ["c13_raw", "c13_readback"], "replay": True,
            "note": "Building the raw form is discharged by Verus for every program: each entity has one object, complete and in program order, with the users of the program, and objects of earlier programs stay. Reading back is discharged for every raw program whose memory holds the image of a valid program: reading succeeds, and the program read is its image, entity by entity, with the kinds, operands, types, names, block and parameter lists and instruction order of the raw form; termination of the reader is not proved.",
            "assumptions": ["raw_ok (c13_readback): memory holds the image of a valid program: types, names, operand types, ownership, ranks of operands; it is what the contracts of c13_raw establish for a valid program, by inspection and not by a machine-checked link",
                            "the initialiser of a global allocation is a constant, and block parameters are only used after their block has been reached in reading order (the reader refuses anything else)",
                            "the reader's functions are proved partially correct: recursion over the raw graph is given no termination measure",
                            "constructors of the program used by the reader (builders, new_func_*, new_bb) are assumed by contract here and proved in C01, C06 and C09's units"]},
    "C14": {"units": ["c14_capi"], "replay": True,
            "note": "Every C entry point is under contract and discharged by Verus; the file and buffer primitives of std are trusted by contract."},
    "C15": {"units": ["c15_ids"], "replay": True,
            "note": "Handle allocation and classification are discharged by Verus for every history of allocations."},
    "C16": {"units": ["c16_eq"], "replay": True,
            "note": "The structural comparison is discharged by Verus against a recursive specification for all inputs."},
    "C17": {"units": ["c17_errors", "c17_spans", "c17_parser"], "replay": True,
            "assumptions": ["the lexer's contract used by c17_parser (token spans are in order) is the one discharged in c07_lexer (check C07)",
                            "the builder reports only spans in order: discharged in c09_front (check C09) from axiom_node_span, which c17_parser justifies",
                            "an input has fewer than 2^32-1 lines and columns, fewer than 2^63 reports are made"],
            "note": "Counting, the driver loop and the early stop are discharged by Verus; so are the printing functions (no overflow, no failing subtraction, for every span in order, any file content and any read failure) and that every span the parser reports or stores is in order. Terminal output itself is not modelled."},
    "C18": {"units": ["c18_passes"], "replay": True,
            "note": "The pass manager is discharged by Verus for every list of passes and every program; a pass is arbitrary code whose calls are observed."},
    "C19": {"units": ["c19_program"], "replay": True,
            "note": "Every edit of the function and global lists is discharged by Verus for all histories; the containers are trusted by contract."},
}
