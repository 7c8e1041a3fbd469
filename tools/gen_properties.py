import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","The validator decides exactly the documented tree language",
 "For every well-formed, non-left-recursive grammar and every input tree, the prepared (memoizing) validator answers true exactly when the tree belongs to the set of trees that the documented meaning of the pattern operators (empty, any, node, leaf predicate, concatenation, or, and, not, repetition, optional, contains, interleave, reference) assigns to the grammar. This includes sibling order, nesting, empty inputs and subtrees skipped by early exit.",
 ["programs","inputs"],"every grammar over the pattern operators x every ordered labelled tree",
 "The tests are a few hundred hand-written grammar/document pairs whose expected verdict was recorded by the author; the operators compose in unboundedly many ways and simplification/derivative shortcuts only fire on particular compositions.",
 ["relapse/mem/mem.go","relapse/mem/ifs.go","relapse/intern/deriv.go","relapse/intern/construct.go","relapse/intern/pattern.go","relapse/intern/zip.go"],
 [("derivative on calls/returns","relapse/intern/deriv.go"),("smart constructors (simplification at construction)","relapse/intern/construct.go"),("memoised state machine","relapse/mem/mem.go")],
 ["relapse.Prepare","relapse.Validate"],
 [("interned patterns","hash-consed simplified patterns","relapse/intern"),("memo tables","call tree, return table, accept","relapse/mem")])

p("C02","Every validation strategy returns the same verdict",
 "For every well-formed, non-left-recursive grammar and every input, the reference interpreter, the interning interpreter, the memoizing validator and the compiled automaton (when its construction does not give up because of size) return the same verdict, and that verdict is the one the language definition gives.",
 ["programs","inputs"],"every grammar over the pattern operators x every ordered labelled tree x the four strategies",
 "The test-suite runs each engine on the same fixed examples; a divergence needs a particular operator nesting together with a particular document.",
 ["relapse/interp/deriv.go","relapse/interp/deriv.go","relapse/interp/simplify.go","relapse/interp/nullable.go","relapse/intern/deriv.go","relapse/auto/compiler.go","relapse/auto/deriv.go","relapse/auto/auto.go","relapse/auto/ifs.go","relapse/sets/zip.go"],
 [("ast derivative interpreter","relapse/interp"),("interned derivative interpreter","relapse/intern"),("visibly pushdown automaton compiler","relapse/auto")],
 ["interp.Interpret","intern.Interpret","mem.Mem.Validate","auto.Auto.Validate"])

p("C03","Record-optimised validation agrees with general validation on records",
 "For every grammar and every input in which sibling field names are unique at every level, the record-optimised variants of the validators return the same verdict as the general validator.",
 ["programs","inputs"],"every grammar x every record-shaped tree x every record-optimised strategy",
 "Record tests are a fixed list; the optimisation merges sub-patterns only for particular combinations of contains/interleave/and/or over equal or different names.",
 ["relapse/intern/construct.go","relapse/interp/simplify.go","relapse/auto/compile.go","relapse/mem/mem.go"],
 [("merging of contained node patterns under and/or","relapse/intern/construct.go"),("record simplification","relapse/interp/simplify.go")],
 ["mem.NewRecord","auto.CompileRecord","intern.Interpret(record)"])

p("C04","Memoised validation is independent of validation history",
 "The verdict a prepared validator gives for an input is a function of the grammar and that input alone: whatever inputs it validated before, in whatever order, including ones that failed with an error part-way, it answers the same as a freshly prepared validator.",
 ["histories"],"every sequence of validations (accepting, rejecting, failing at any point) on one prepared validator",
 "Tests validate one document at a time or the same document repeatedly (benchmarks); order-dependence of the memo tables needs specific pairs of documents.",
 ["relapse/mem/mem.go","relapse/mem/ifs.go","relapse/intern/sets.go","relapse/sets/indexset.go","relapse/sets/bits.go"],
 [("memo tables keyed by indexed pattern sets","relapse/mem/mem.go"),("interned pattern sets","relapse/intern/sets.go")],
 ["relapse.Validate"],[("Mem","patterns, zi, calls, returns tables","relapse/mem/mem.go")])

p("C05","A failing input is reported as an error, never as a verdict",
 "If the parser feeding a validation reports an error at any point where the validator advances it, the validation returns an error and not a verdict, for every strategy. A subsequent validation of a good input with the same validator is unaffected.",
 ["fault_sequences"],"every grammar x every tree x an error injected at each advance the validator makes",
 "No test injects parser faults.",
 ["relapse/mem/mem.go","relapse/intern/deriv.go","relapse/interp/deriv.go","relapse/auto/auto.go"],
 [("error propagation from parser","relapse/mem/mem.go")],["Validate/Interpret return values"])

p("C06","Independent validations do not interfere under any interleaving",
 "Validations that use separate validators and separate parsers, even if prepared from the same parsed grammar, give the same verdicts under every interleaving of their steps as when run one after the other, and are free of data races.",
 ["schedules"],"every interleaving of two or three validations at the granularity of parser calls (and preparation steps)",
 "Go tests run sequentially; hidden shared mutable state (package-level scratch buffers, shared patterns of one grammar) only shows under interleaving.",
 ["relapse/mem/mem.go","relapse/intern/construct.go","relapse/funcs/register.go","relapse/compose/compose.go","parser/json/json.go","parser/proto/proto.go"],
 [("no package-level mutable state after init","relapse/..., parser/..."),],["relapse.Prepare","relapse.Validate"])

p("C07","Validation leaves the grammar and the input untouched",
 "Preparing, interpreting, simplifying, compiling, printing, hashing or comparing never changes the parsed grammar given to it, so its printed form and meaning are the same before and after any sequence of such operations, and validating never changes the bytes or Go value being validated.",
 ["histories","inputs"],"every sequence of operations on one parsed grammar and one input",
 "Tests parse a fresh grammar for each engine run; in-place sorting, appending to shared backing arrays or sharing nodes only shows when the same object is used again.",
 ["relapse/interp/simplify.go","relapse/intern/construct.go","relapse/ast/util.go","relapse/auto/compile.go","parser/json/json.go","parser/xml/parser.go"],
 [("copying before sort/append","relapse/intern/construct.go, relapse/interp/simplify.go")],["ast.Grammar.String/Equal, input bytes"])

p("C08","Simplification preserves the set of accepted trees",
 "The simplified form of every grammar or pattern accepts exactly the same trees as the original, with the record option exactly the same record-shaped trees, and simplifying again changes nothing about that.",
 ["programs","inputs"],"every pattern/grammar x every tree",
 "Simplifier tests are per-rule examples; wrong rules matter for particular operand combinations.",
 ["relapse/interp/simplify.go","relapse/intern/construct.go"],
 [("algebraic rewriting of or/and/interleave/concat/not/optional/contains","relapse/interp/simplify.go")],["interp.NewSimplifier(g).Grammar/Simplify"])

p("C09","Built-in functions and operators compute their documented results",
 "For every built-in function or operator, every combination of argument types it is registered for, and every argument values (constants, the current value, or nested calls), the compiled expression evaluates to the documented result, and constant folding and boolean simplification never change the outcome. A read of the current value as a type it does not have makes comparisons false and is an error only where the language says so.",
 ["programs","inputs"],"every expression over the built-in functions up to a nesting depth x every current value",
 "Tests cover one or two literal examples per function; folding, list indexing with negative and out-of-range bounds, and simplification of and/or/not need combinations.",
 ["relapse/funcs/logic.go","relapse/funcs/compare.gen.go","relapse/funcs/const.go","relapse/funcs/string.go","relapse/funcs/elem.gen.go","relapse/funcs/range.gen.go","relapse/funcs/length.gen.go","relapse/funcs/inset.gen.go","relapse/funcs/type.gen.go","relapse/funcs/regex.go","relapse/compose/compose.go","relapse/compose/bool.go"],
 [("trimming (constant folding)","relapse/funcs/const.go"),("and/or/not simplification","relapse/funcs/logic.go"),("typed composition","relapse/compose/compose.go")],["compose.NewBool / compose.Compose, Eval"])

p("C10","The printed form of a compiled function means the same function",
 "Printing a compiled boolean function, in either the full or the shorthand notation, gives text that parses back and compiles to a function with the same result for every value.",
 ["programs","inputs"],"every boolean function expression up to a depth x every current value",
 "Printing is exercised by a small example test; escaping and operand order only matter for some constants and argument orders.",
 ["relapse/funcs/print.gen.go","relapse/funcs/sprint.go","relapse/funcs/compare.gen.go","relapse/funcs/logic.go","relapse/funcs/regex.go","relapse/ast/builtin.go"],
 [("String/Shorthand on functions","relapse/funcs/*.gen.go")],["funcs.Sprint"])

p("C11","Ordering, equality and hashing of functions and patterns are coherent",
 "Comparison of compiled functions, and of grammar syntax trees, is a total order whose zero agrees with equality; equal values have equal hashes; and equality of functions holds only when the functions have the same result for every value.",
 ["inputs"],"every pair and triple of functions / syntax trees up to a size bound",
 "Tests check hand-picked pairs; the engines silently merge patterns when equality or hash is wrong.",
 ["relapse/funcs/compare.gen.go","relapse/funcs/derived.gen.go","relapse/funcs/const.gen.go","relapse/ast/compare.go","relapse/ast/derived.gen.go","relapse/intern/derived.gen.go"],
 [("Compare/Hash methods","relapse/funcs, relapse/ast")],["funcs.Equal/Compare, ast Equal/Compare/Hash"])

p("C12","Printing a grammar and parsing it back yields an equal grammar",
 "For every grammar that can be built or parsed, its printed text parses, and the result is equal to the original (up to the grouping of the operands of an associative operator), including every kind of name, literal value (all integer, finite floating, string and byte values), function call, operator and nesting.",
 ["programs"],"every syntax tree up to a size bound x a set of edge-case literals",
 "The test-suite round-trips the fixed example grammars with default literals.",
 ["relapse/ast/string.go","relapse/ast/new.go","relapse/ast/util.go","relapse/parser/actiontable.go","relapse/lexer/transitiontable.go","relapse/ast/keywords.go"],
 [("String methods","relapse/ast/string.go"),("LR parser actions","relapse/ast/new.go")],["ast.Grammar.String, parser.ParseGrammar"])

p("C13","Formatting a grammar keeps meaning and comments and is stable",
 "Formatting any parsed grammar, with whitespace and comments in any allowed position, yields text that parses to an equal grammar with all comments kept in order, and formatting that text again changes nothing.",
 ["programs"],"every grammar token sequence up to a bound x whitespace or comment inserted at each token gap",
 "The formatter test runs a handful of examples.",
 ["relapse/ast/format.go","relapse/ast/comment.go","relapse/ast/string.go"],
 [("Format","relapse/ast/format.go")],["ast.Grammar.Format"])

p("C14","The grammar parser accepts or rejects every text without crashing",
 "For every text, parsing a grammar (and preparing the result) either yields a usable grammar or a reported error; it never panics or hangs. Literals are decoded to the value they denote, and a literal out of range is an error.",
 ["inputs"],"every token sequence up to a bound, and every literal spelling up to a length",
 "Tests parse valid examples and a few invalid ones; the lexer allows many literal spellings that the decoder must handle.",
 ["relapse/parser/parse.go","relapse/parser/parser.go","relapse/ast/util.go","relapse/ast/new.go","relapse/lexer/lexer.go","relapse/intern/construct.go","relapse/funcs/newfunc.gen.go"],
 [("LR parser actions returning errors","relapse/ast/new.go"),("literal decoding","relapse/ast/util.go")],["relapse.Parse, relapse.Prepare"])

p("C15","Name expressions match exactly the labels they denote",
 "For every name expression (literal name of any kind, any, any-except, choice, nested) and every label (string, integer, unsigned, double, bool, bytes; array index or field name), the expression matches exactly the labels it denotes, whether evaluated directly or compiled to a function, and translating a compiled name back yields an expression matching the same labels.",
 ["programs","inputs"],"every name expression up to a depth x every label",
 "Tests use string names almost exclusively.",
 ["relapse/name/name.go","relapse/ast/util.go"],
 [("EvalName / NameToFunc / FuncToName","relapse/name")],["name.EvalName, name.NameToFunc, name.FuncToName"])

p("C16","The JSON parser presents exactly the document's data",
 "For every valid JSON document, walking the parser yields exactly the tree of fields, array indexes and scalar values that the document denotes, in document order, with strings unescaped and numbers converted according to the JSON standard.",
 ["inputs"],"every JSON document up to a size over an alphabet covering each lexical class",
 "Tests parse a fixed set of documents; whitespace, escapes, brackets inside strings and numeric forms combine in ways they do not sample.",
 ["parser/json/json.go","parser/json/unquote.go"],
 [("incremental scanner with skipping","parser/json/json.go")],["debug.Walk over NewJsonParser"])

p("C17","The JSON parser rejects every malformed document without crashing",
 "For every byte string that is not a well-formed JSON object or array, a complete walk of the parser ends with an error and never panics, hangs or reports success.",
 ["inputs","fault_sequences"],"every byte string up to a length over an alphabet covering each lexical class; every truncation and single-byte corruption of every small document",
 "Only a few malformed examples are tested.",
 ["parser/json/json.go","parser/json/unquote.go"],
 [("scan error checks","parser/json/json.go")],["Init/Next/Down/Up errors"])

p("C18","The XML parser presents exactly the document's elements, attributes and text",
 "For every well-formed XML document (elements, attributes, character data, CDATA, predefined entities, comments, processing instructions), walking the parser yields exactly its attributes, child elements and text in document order; a document that ends inside its root element, or that a lenient XML decoder rejects, ends in an error, and no text makes the parser panic or loop.",
 ["inputs"],"every document up to a size bound over the XML constructs, and every truncation of it",
 "Tests parse a handful of documents.",
 ["parser/xml/parser.go","parser/xml/xml.go"],
 [("token stream to tree adapter","parser/xml/parser.go")],["debug.Walk over NewXMLParser"])

p("C19","The protobuf parser presents exactly the message's fields",
 "For every message of a described type encoded with contiguous repeated fields, walking the parser yields exactly the fields, repetitions (as indexed elements), nested messages and scalar values that decoding with the generated code gives, for every scalar type, packed or not, for names, extensions and unknown fields.",
 ["inputs"],"every message value up to a size over a descriptor with every field kind and label",
 "Tests use a few populated messages; extreme values, packed/unpacked mixes and skip paths are not covered.",
 ["parser/proto/proto.go","parser/proto/desc.go","parser/proto/nomerge.go"],
 [("wire scanner over descriptor map","parser/proto/proto.go")],["debug.Walk over NewProtoParser"])

p("C20","The protobuf parser survives every corrupt buffer",
 "For every byte string, including every truncation and corruption of a valid message, walking the protobuf parser terminates with either a tree or an error, and with an error when a length or value exceeds the buffer that holds it; it never panics, reads outside the buffer or loops.",
 ["inputs","fault_sequences"],"every byte string up to a length over an alphabet of tag/varint edge bytes; every truncation and byte substitution of small messages",
 "No test feeds corrupt buffers.",
 ["parser/proto/proto.go"],
 [("bounds checks while scanning","parser/proto/proto.go")],["Init/Next/Down/Up/value errors"])

p("C21","The YAML parser presents exactly the data of documents it accepts",
 "For every document in the supported YAML subset (block mappings; block sequences, indented more than their key, of scalars or of mappings with one key; plain scalars; nesting), walking the parser yields exactly its keys, elements by index and scalars; unsupported or malformed text yields an error or a tree but never a panic or endless loop.",
 ["inputs"],"every document up to a size over the supported constructs",
 "The package states its own limitations; the tests cover a handful of documents.",
 ["parser/yaml/yaml.go"],[("line based scanner","parser/yaml/yaml.go")],["debug.Walk over NewYamlParser"])

p("C22","The reflect parser presents exactly the Go value",
 "For every Go value built from structs, pointers, slices and the supported scalar kinds, walking the parser yields exactly its non-nil fields with their values in declaration order, and slice elements by index.",
 ["inputs"],"every value up to a size over a type containing each supported kind",
 "Tests use the same three populated structs.",
 ["parser/reflect/reflect.go"],[("reflect traversal","parser/reflect/reflect.go")],["debug.Walk over NewReflectParser"])

p("C23","Skipping parts of the input never changes what is seen of the rest",
 "For every parser and every input, any legal traversal (at each step advance, descend, or ascend early) observes at each visited position exactly the label and values that a full traversal observes there.",
 ["inputs","schedules"],"every document up to a bound x every sequence of traversal choices",
 "Tests do a random walk on a fixed document and do not compare what is seen in general.",
 ["parser/json/json.go","parser/xml/parser.go","parser/yaml/yaml.go","parser/proto/proto.go","parser/reflect/reflect.go","parser/debug/walk.go"],
 [("position stacks and lazy skipping","each parser's Next/Down/Up")],["parser.Interface"])

p("C24","A parser can be re-initialised at any point and behaves as new",
 "Whatever a parser was used for before (complete, abandoned part-way, or failed), initialising it with a new input makes it behave exactly as a newly created parser on that input.",
 ["histories"],"every abandonment point of every traversal of a first input x every second input",
 "Tests re-initialise only after complete walks.",
 ["parser/json/json.go","parser/xml/parser.go","parser/yaml/yaml.go","parser/proto/proto.go","parser/reflect/reflect.go"],
 [("Init/Reset resetting state and stacks","each parser")],["Init, Reset"])

p("C25","Encoding what a parser presents preserves the data",
 "For every input whose data the target format can hold (for JSON: distinct sibling names; for XML: names that are XML names and no adjacent texts; for protobuf: fields its description names unambiguously; for Go: settable fields of the structure; valid UTF-8 and finite numbers for all), encoding the parser's view as JSON, XML, protobuf or a Go structure and reading the result back yields the same data, whatever the sizes involved; and an error of the parser is reported, not hidden.",
 ["inputs"],"every message/document/value up to a size x every encoder",
 "Tests transcode one or two fixed messages; buffer growth and nesting interact with sizes.",
 ["encode/json/json.go","encode/xml/xml.go","encode/proto/proto.go","encode/reflect/reflect.go"],
 [("recursive encoders","encode/*")],["encode.* Encode"])

p("C26","The compact set encodings used for memoisation are lossless",
 "The indexed sets map equal contents to equal indexes and different contents to different indexes, for every size; bit sets store and increment each bit independently at every size; and removing duplicate patterns before deriving followed by restoring them gives back exactly the original list.",
 ["inputs","histories"],"every bit vector up to several machine words, every list of patterns up to a length, every sequence of insertions",
 "Unit tests use sizes below one machine word and few patterns.",
 ["relapse/sets/bits.go","relapse/sets/indexset.go","relapse/sets/zip.go","relapse/intern/zip.go","relapse/intern/sets.go"],
 [("Zip/Unzip, Bits, BitsSet, Pairs, Ints, SetOfPatterns","relapse/sets, relapse/intern")],["sets.*, intern.Zip, intern.SetOfPatterns"])

p("C27","Split or merged protobuf fields are always detected",
 "The check for latent appending or merging reports an error exactly when some repeated field's occurrences are not contiguous or some singular field occurs more than once, at any nesting level of the message.",
 ["inputs"],"every sequence of encoded fields up to a length, nested",
 "Tests cover two positive and one negative example.",
 ["parser/proto/nomerge.go","parser/proto/proto.go"],[("NoLatentAppendingOrMerging","parser/proto")],["NoLatentAppendingOrMerging"])

p("C28","Grammars built with the builder API mean what the equivalent text means",
 "Every grammar built with the programmatic builder functions validates exactly the trees that the documented textual equivalent validates, for every builder, operator, operand order and constant type.",
 ["programs","inputs"],"every builder call up to a nesting depth with every operand order x trees",
 "The builder test covers one example per builder with one operand order.",
 ["relapse/combinator/combinator.go","relapse/combinator/funcs.go"],
 [("builders producing syntax trees","relapse/combinator")],["combinator.G.Grammar"])

p("C29","A context set on a validator reaches every context-dependent function",
 "After a context is set on a prepared validator, every user-registered context-dependent function in the grammar, wherever it occurs (under any operator, reference or nested function argument), evaluates with that context, and setting another context later replaces it for all subsequent validations.",
 ["programs","histories"],"every pattern operator nesting containing such a function x every sequence of set-context and validate operations",
 "One test sets a context on one grammar shape.",
 ["relapse/intern/context.go","relapse/compose/compose.gen.go","relapse/mem/mem.go","relapse/funcs/context.go"],
 [("recursive context setting","relapse/intern/context.go, relapse/compose")],["Mem.SetContext"])

p("C30","Serialising or cloning a grammar preserves it",
 "Cloning a grammar, or marshalling it to its binary or JSON form and unmarshalling that, yields an equal, independently mutable grammar with the same meaning.",
 ["programs"],"every syntax tree up to a size bound",
 "Generated tests populate random structures for some message types only and ignore meaning.",
 ["relapse/ast/relapse.pb.go","relapse/ast/clone.go","relapse/ast/walk.go"],[("generated marshal code, Clone, Walk","relapse/ast")],["Marshal/Unmarshal/Clone"])

p("C31","Unusable grammars are rejected when prepared, usable ones never hang",
 "Preparing a grammar with a reference to an undefined name, with no start pattern, with duplicate definitions, or with an expression that does not type-check reports an error instead of crashing. The recursion check reports true exactly for grammars with a reference cycle that passes through no node pattern, and every grammar for which it reports false is validated in finite time by every strategy.",
 ["programs"],"every reference graph over a few named patterns with every operator between references",
 "Tests contain three recursion examples.",
 ["relapse/interp/recursion.go","relapse/ast/util.go","relapse/intern/construct.go","relapse/compose/compose.go"],
 [("HasRecursion","relapse/interp"),("reference lookup","relapse/ast")],["relapse.Prepare, interp.HasRecursion"])

p("C32","The same data validates the same in every serialisation",
 "For data of a schema that several supported formats can express (fields that are strings without a numeric or boolean reading, integers, non-integral doubles, booleans, non-empty lists of these or of messages, and messages), every grammar gives the same verdict whether the data is presented as JSON, protobuf, a Go structure, YAML (in the supported subset) or XML (no lists, below a root element).",
 ["inputs","programs"],"every message value of a common schema up to a size x a family of grammars x each format",
 "The test-suite checks each example in the formats chosen by its author only.",
 ["parser/json/json.go","parser/proto/proto.go","parser/reflect/reflect.go","parser/yaml/yaml.go","relapse/mem/mem.go"],
 [("common parser interface","parser/parser.go")],["relapse.Validate over each parser"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
