T["C04"] = ("exhaustive enumeration of validation histories (bounded grammars x sequences of up to three inputs, also failing ones) on one real prepared validator, against fresh validators and the reference model",
            "Every ordered pair of the bounded trees, failing-then-good pairs, triples on a smaller set; complete within the bound.")
T["C05"] = ("exhaustive fault injection: every bounded grammar x every bounded tree x an error at every advance of the parser, seven engine entry points",
            "Every fault point of every bounded run, followed by a good validation on the same validator.")
T["C07"] = ("exhaustive enumeration of operation sequences (each operation, each pair, the whole list) over a bounded grammar space with a full memory dump before and after",
            "Every grammar of the bounded syntax space; 13 operations, all pairs.")
T["C12"] = ("exhaustive enumeration of a bounded syntax space (text and builder form), of literal boundary values and of all short token sequences, against an independent meaning of each syntax tree",
            "Every operator nesting to depth 2, every literal kind over its boundary values, every token sequence up to 4 (quick) or 5 (thorough) tokens.")
T["C13"] = ("exhaustive enumeration of spacings and comments at every position (single and pairs) of every construct, checked by formatting, reparsing and formatting again",
            "All spacing strings up to 3 (4) pieces at each position, pairs of positions, and one spacing everywhere over the whole syntax space.")
T["C30"] = ("exhaustive enumeration of a bounded syntax space; clone, binary and JSON copies compared with an independent meaning and a memory-sharing walk",
            "As C12; two listed known findings of the JSON form.")
T["C06"] = ("stateless exploration of thread interleavings of the real code under a controlled scheduler (preemption-bounded, all schedules for short pairs), race detector on in every execution",
            "Scheduling points at parser calls and inside user functions during preparation; 2-3 threads; preemption bound 2 (3), cases listed with the bound each completed.")
T["C09"] = ("exhaustive enumeration of a bounded typed expression space (every function, operator and builtin symbol over every argument shape) x every kind of current value on the real compiler and validator, against an independent typed evaluator",
            "98k expressions (quick) x 22-43 values, constant folding and nested functions included; every ill-typed application up to 2 (3) arguments must be reported.")
T["C10"] = ("exhaustive enumeration of the same bounded expression space: both printed notations are parsed, compiled and evaluated on every value",
            "81k expressions x 43 values; 16 listed known findings (shorthand of lt, gt, le, ge with the constant first).")
T["C11"] = ("exhaustive pairwise exploration: a rank from sorting is compared with every ordered pair of a bounded set (decides antisymmetry, transitivity and totality together), and every pair of equal hash over the whole bounded space",
            "0.9 billion ordered pairs: functions of every type, patterns, names, terminals, grammars; hash collisions constructed on purpose.")
T["C14"] = ("exhaustive enumeration of literal texts against big-number decoders, of all short token and character sequences, of all one-character edits of valid grammars, and of nesting depths",
            "551k literal texts, all token sequences up to 4 (5) and character strings up to 4 (5); crash or hang of the real parser is a violation.")
T["C15"] = ("exhaustive enumeration of name expressions nested up to three times over every kind of literal x every kind of label: evaluated, compiled, translated back and used in three validators, against an independent denotation",
            "All nestings to depth 1 over 32 literals, depth 2 over 10, depth 3 over 3 (4) literals; 46 labels.")
T["C26"] = ("exhaustive enumeration of operation sequences on the real sets (all insertion orders, all index patterns of bit sets with increments, all pattern lists) against plain slices and maps",
            "Bit sets at every size to 70 (130); every insertion sequence of a small alphabet; every pattern list up to 5 (6).")
T["C16"] = ("exhaustive enumeration of bounded texts (token, character, number and string-piece sequences, edits of documents) walked by the real parser against the standard library's token stream",
            "0.5 million well-formed documents; every accessor compared at every position.")
T["C17"] = ("exhaustive enumeration of bounded texts (token, character, number and string-piece sequences, all truncations, single and paired edits); every ill-formed one must end in an error",
            "16 million ill-formed texts; panic, success or more steps than the text can hold is a violation.")

T["C19"] = ("exhaustive enumeration of encoded messages (every scalar type x label x field number x boundary value, every sequence of occurrences to a depth, nested) walked by the real parser against an independent decoder, itself compared with the generated Go code",
            "2.9 million buffers; message types with nested, imported and equally named types and extensions.")
T["C20"] = ("exhaustive enumeration of corrupt buffers (every truncation of the C19 space, all short byte strings over 20 bytes, limit lengths in every role, all one-byte changes) against an independent framing decoder",
            "Tens of millions of buffers; panic, endless walk, read past the buffer or silence about broken framing is a violation.")
T["C22"] = ("exhaustive enumeration of Go values (every scalar kind held in 14 ways, all pairs of fields, nesting, recursion, embedding) walked by the real parser against an independent reading of the value",
            "124k values built by reflection.")
T["C27"] = ("exhaustive enumeration of sequences of encoded fields, nested, the real check compared with an independent decoder",
            "2.9 million buffers, the space of C19.")

T["C18"] = ("exhaustive enumeration of documents by construction (attribute forms, content items in sequence, what surrounds the root, element trees), their truncations, and all short token sequences, walked by the real parser against the constructed tree or the standard library's decoder",
            "7.5 million documents, each with and without label prefixes.")
T["C21"] = ("exhaustive enumeration of documents of the supported subset by construction, walked by the real parser against the constructed tree, and of all short token sequences for termination",
            "0.4 million documents written in five ways and 4.3 million arbitrary texts.")
T["C23"] = ("exhaustive exploration of every legal traversal (advance, descend, ascend early at each position) of bounded inputs on the real parsers, every observation compared with the full traversal",
            "6.4 million traversals of 5 parsers (quick), 460 million (thorough), accessors called everywhere, at leaves only, or nowhere.")
T["C24"] = ("exhaustive exploration of every prefix of every legal traversal as an abandoned history, followed by every one of a set of re-initialisations, compared with a new parser",
            "14 million histories (quick) over well-formed, malformed and truncated inputs of 5 parsers; Reset included.")

T["C25"] = ("exhaustive enumeration of bounded inputs of every format through every real encoder, the result read back by the standard library (JSON, XML), by the generated Go code (protobuf) or compared with the Go value, at every buffer size",
            "All trees and scalars of a bounded space from each parser to JSON and XML; the C19 space and generated structures through the protobuf encoder; every scratch buffer size.")
T["C28"] = ("exhaustive enumeration of nested builder calls (every builder, arity and operand kind to depth 2; every function, operand order, constant and nesting of the C09 space), each built anew and from shared parts, validated against the reference model of the documented text",
            "41k built grammars x 157 trees x 4 ways of building; 80k (thorough 1.1 million) built expressions x 43 values.")
T["C29"] = ("exhaustive exploration of histories (set a context, change its value, validate) over every grammar of a bounded space with context functions in every place, on the real validators against the reference model under the current context",
            "118k grammars and 36k functions; all histories of 3 (4) steps for the patterns of depth 1, representative histories elsewhere.")
T["C31"] = ("exhaustive enumeration of small grammars: every assignment of bodies to names against graph reachability, every non-recursive one run by every strategy, and every unusable grammar (undefined name, no start, duplicate, ill-typed expression in every place) prepared in five ways",
            "267k reference graphs with every operator, 32k unusable grammars; crash, hang or silence is a violation.")
T["C32"] = ("exhaustive enumeration of the data of a common schema x a grammar family x every format that can carry it, validated by the real code and compared with the reference model over the data itself",
            "Every choice of up to 2 (3) present fields of 10, 1.8k (and 20k depth-2) grammars, both validators; JSON, protobuf, Go, YAML and XML presentations.")
