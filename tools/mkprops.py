#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

# ---------------------------------------------------------------- validation
p("V01", "The interpreter's verdict equals the denotation of the grammar",
  "For every grammar without left recursion and every tree, the interpreter reports valid exactly when the tree is in the language that the grammar denotes: empty, any, node, value expression, concatenation, choice, intersection, complement, repetition, optional, contains, interleave and references, each with its usual set meaning over sequences of labelled trees. It reports an error only when evaluating some value expression on a label that is visited fails.",
  ["programs", "inputs"], "every left-recursion-free grammar over every pattern operator, name expression and value expression; every finite labelled tree; every parser that presents that tree",
  "The existing suite runs a fixed list of hand-written grammar/input pairs (and its external test data is not even present here); the verdict depends on how operators nest, so no finite list settles it.",
  ["relapse/interp/deriv.go", "relapse/interp/nullable.go", "relapse/interp/simplify.go", "relapse/sets/zip.go", "relapse/name/name.go", "relapse/ast/new.go"],
  [("Interpret", "relapse/interp/deriv.go"), ("derivCall/derivReturn", "relapse/interp/deriv.go"), ("Simplify between steps", "relapse/interp/simplify.go"), ("child pattern zipping", "relapse/sets/zip.go")])
p("V02", "The interning engine's verdict equals the denotation of the grammar",
  "For every grammar without left recursion and every tree, the interning derivative engine reports valid exactly when the tree is in the language denoted by the grammar. Sharing, merging and normalising patterns never changes a verdict, whatever other patterns were built before by the same constructor.",
  ["programs", "inputs", "histories"], "every grammar, tree, and sequence of documents run on one constructor",
  "Hash-consing bugs (bad hash or equality, shared slices modified in place, wrong simplification law) need particular combinations of sub-patterns that hand-written cases do not contain.",
  ["relapse/intern/construct.go", "relapse/intern/deriv.go", "relapse/intern/ifs.go", "relapse/intern/zip.go", "relapse/intern/order.go", "relapse/intern/nullable.go", "relapse/intern/pattern.go"],
  [("construct.*", "relapse/intern/construct.go"), ("DeriveCalls/DeriveReturns", "relapse/intern/deriv.go"), ("Zip", "relapse/intern/zip.go")])
p("V03", "The default validator is exact whatever it validated before",
  "A prepared grammar validates each document exactly as the grammar denotes, and its answer for a document does not depend on which documents it validated before, on how often, or on earlier validations that ended in an error.",
  ["programs", "inputs", "histories"], "every grammar; every sequence of documents, including failing ones, validated on one prepared grammar",
  "The validator caches automaton states lazily, so a wrong cache entry shows up only in a later document that reaches the same state by another route; tests validate each grammar against one document.",
  ["relapse/relapse.go", "relapse/mem/mem.go", "relapse/mem/deriv.go", "relapse/mem/ifs.go", "relapse/intern/sets.go", "relapse/sets/bits.go", "relapse/sets/indexset.go"],
  [("getCall/getReturn caches", "relapse/mem/mem.go"), ("if-expression tree", "relapse/mem/ifs.go"), ("SetOfPatterns", "relapse/intern/sets.go")])
p("V04", "The ahead-of-time compiled automaton is exact",
  "Whenever a grammar can be compiled into an automaton, the automaton accepts exactly the trees the grammar denotes, and it can be run on any number of documents with the same answers. Compilation otherwise ends with an error that says so; it never yields an automaton that answers differently or that fails on a document.",
  ["programs", "inputs"], "every grammar small enough to compile, every tree",
  "Only reachable combinations of predicate outcomes make a transition used; existing tests sample few documents per compiled grammar.",
  ["relapse/auto/compile.go", "relapse/auto/compiler.go", "relapse/auto/call.go", "relapse/auto/ifs.go", "relapse/auto/deriv.go", "relapse/auto/funcs.go", "relapse/auto/auto.go"],
  [("compile", "relapse/auto/compiler.go"), ("addIfExpr", "relapse/auto/ifs.go"), ("Validate", "relapse/auto/auto.go")])
p("V05", "The record optimisation never changes the verdict on a record",
  "For trees in which no two siblings have equal labels or satisfy the same literal name, the record-optimised variants of the engines give the same verdict as the unoptimised semantics.",
  ["programs", "inputs"], "every grammar; every tree whose sibling labels are pairwise distinct",
  "The optimisation rewrites contains/concat/interleave algebraically; each rewrite is valid only under side conditions that individual examples do not probe.",
  ["relapse/intern/construct.go", "relapse/mem/mem.go", "relapse/auto/compile.go", "relapse/interp/simplify.go"],
  [("NewConstructorOptimizedForRecords", "relapse/intern/construct.go"), ("NewRecord", "relapse/mem/mem.go"), ("CompileRecord", "relapse/auto/compile.go")])
p("V06", "Validators drive a parser only within its protocol",
  "While validating, an engine moves through the document only forwards and only as the parser interface allows: it descends only into the current non-leaf, asks for values only on a current node, never advances past the end of a level without going up, and every descent is matched by one ascent before a verdict is returned.",
  ["programs", "inputs", "histories"], "every engine, grammar and tree",
  "A protocol breach is invisible with a lenient parser and shows up only on particular early-exit paths; no test monitors the calls.",
  ["parser/parser.go", "relapse/interp/deriv.go", "relapse/intern/deriv.go", "relapse/mem/deriv.go", "relapse/auto/auto.go", "parser/debug/walk.go"],
  [("early exit then Up", "relapse/mem/deriv.go"), ("parser protocol", "parser/parser.go")])
p("V07", "A broken document is reported, never silently judged",
  "When the parser reports an error other than end of input while a validator, walker or encoder consumes it, that error is returned to the caller; no verdict or output is produced from the part that was read, and nothing else panics (the debugging walk panics with that very error, as it documents).",
  ["fault_sequences", "programs", "inputs"], "every engine and encoder, every tree, an error injected at every advance that is actually performed",
  "Error paths are hardly exercised: a test would have to fail the n-th call for every n of every document.",
  ["relapse/interp/deriv.go", "relapse/intern/deriv.go", "relapse/mem/deriv.go", "relapse/auto/auto.go", "encode/json/json.go", "encode/xml/xml.go", "encode/reflect/reflect.go", "encode/proto/proto.go"],
  [("tree.Next error returns", "relapse/mem/deriv.go"), ("encoder Next error returns", "encode/json/json.go")])
p("V08", "Simplifying a pattern never changes its language",
  "The simplified form of any pattern matches exactly the trees the original matches, simplification is idempotent in meaning, and it leaves the pattern it was given unmodified.",
  ["programs", "inputs"], "every pattern and every tree",
  "Each law is valid only for certain operands; tests check a handful of syntactic results, not the languages.",
  ["relapse/interp/simplify.go", "relapse/interp/order.go"],
  [("Simplify", "relapse/interp/simplify.go"), ("ordering and de-duplication", "relapse/interp/order.go")])
p("V09", "Left recursion is detected exactly",
  "The recursion check reports true exactly for the grammars in which some reference can reach itself without passing a node, and validation by every engine terminates for every grammar for which it reports false.",
  ["programs"], "every finite reference graph with every operator",
  "A graph property over all grammars; tests hold a handful of graphs.",
  ["relapse/interp/recursion.go", "relapse/intern/construct.go"],
  [("HasRecursion", "relapse/interp/recursion.go")])
p("V10", "Validation respects the algebra of patterns on large inputs",
  "Rewriting a grammar by a law of its operators (associativity, commutativity, De Morgan, distributivity, unfolding a repetition, naming a sub-pattern, renaming references, adding unused declarations) changes no verdict, and complement and intersection verdicts are the Boolean combination of their operands' verdicts, also on documents far larger than a brute-force model can handle.",
  ["programs", "inputs"], "every grammar, law, position of application and document",
  "It relates pairs of grammars; the tests state single expected answers for small inputs.",
  ["relapse/mem/deriv.go", "relapse/intern/construct.go", "relapse/interp/simplify.go", "relapse/auto/compiler.go"],
  [("construct simplification laws", "relapse/intern/construct.go")])
p("V11", "Different engines and grammar notations give one verdict",
  "The interpreter, the interning engine, the memoising validator and the compiled automaton agree with one another on every grammar and every document read by the real parsers, and a grammar built with the combinator library behaves as the grammar text it stands for.",
  ["programs", "inputs", "configurations"], "every engine pair, grammar and real document (JSON, XML, protobuf, reflected values)",
  "The suite runs engines on a fixed list and has no reference to compare with on new documents.",
  ["relapse/interp/deriv.go", "relapse/intern/deriv.go", "relapse/mem/mem.go", "relapse/auto/auto.go", "relapse/combinator/combinator.go"],
  [("G.Grammar and pattern combinators", "relapse/combinator/combinator.go")])

# ---------------------------------------------------------------- expressions
p("F01", "Value expressions compute their documented result",
  "Every well-typed value expression, built from typed variables, constants, lists, comparisons, Boolean connectives, string, length, element, range, contains, regex and type functions, evaluates on every label to the result its documentation gives; a variable whose type the label does not have makes the enclosing comparison false and otherwise surfaces as an error.",
  ["programs", "inputs"], "every well-typed expression and every label value of every type",
  "Functions are generated per type and composed freely; the unit tests cover single functions on single values.",
  ["relapse/funcs/compare.gen.go", "relapse/funcs/logic.go", "relapse/funcs/string.go", "relapse/funcs/elem.gen.go", "relapse/funcs/range.gen.go", "relapse/funcs/length.gen.go", "relapse/funcs/list.go", "relapse/funcs/inset.gen.go", "relapse/funcs/regex.go", "relapse/funcs/type.gen.go", "relapse/compose/bool.go", "relapse/compose/compose.go", "relapse/funcs/funcs-gen/main.go"],
  [("compose.NewBool", "relapse/compose/bool.go"), ("generated functions", "relapse/funcs/funcs-gen/main.go")])
p("F02", "Boolean combination and trimming of predicates preserve meaning",
  "Combining predicates with and, or and not gives, on every label, the conjunction, disjunction and negation of their results, whatever rewriting is applied; folding constants never changes a result; and a predicate reported as always true or always false is so.",
  ["programs", "inputs"], "every pair of predicates (comparisons of every type and direction, nested connectives) and every label, including labels lacking the compared type",
  "The rewriting rules inspect operator and constant combinations; tests check printed forms of selected pairs.",
  ["relapse/funcs/logic.go", "relapse/funcs/const.go", "relapse/funcs/const.gen.go"],
  [("And/Or/Not", "relapse/funcs/logic.go"), ("TrimBool and friends", "relapse/funcs/const.gen.go")])
p("F03", "Equality, order and hash of expressions and patterns are coherent",
  "The comparison of predicates and the comparison of patterns are each a total order whose zero is equality, equal values have equal hashes, and values that compare equal behave the same on every label.",
  ["programs", "inputs"], "all triples of predicates and all triples of patterns, including ones differing only in one constant or one type",
  "Interning and state merging rely on these laws for every pair; tests compare a few literals.",
  ["relapse/funcs/compare.gen.go", "relapse/funcs/derived.gen.go", "relapse/funcs/variable.gen.go", "relapse/funcs/list.gen.go", "relapse/ast/compare.go", "relapse/ast/derived.gen.go", "relapse/intern/construct.go"],
  [("Compare/Hash per function", "relapse/funcs/derived.gen.go"), ("Pattern compare", "relapse/ast/compare.go")])
p("F04", "Composing an expression is total: a value or an error",
  "Turning any parsed expression into a predicate either succeeds with a predicate of Boolean type or returns an error; ill-typed, unknown or non-Boolean expressions are refused, well-typed ones accepted, and nothing panics at composition or evaluation.",
  ["programs", "inputs"], "every syntactically valid expression, well-typed or not; every label",
  "The set of ill-typed expressions is unbounded; tests list some.",
  ["relapse/compose/compose.go", "relapse/compose/bool.go", "relapse/compose/builtin.go", "relapse/funcs/register.go"],
  [("NewBool", "relapse/compose/bool.go"), ("GetMaker", "relapse/funcs/register.go")])
p("F05", "Name expressions match exactly the names they describe",
  "A name expression (a literal of any type, any name, a choice, an exception) matches a label exactly when its set meaning contains it, and compiling it to a predicate and decompiling it again describes the same names, also for a predicate that is built from comparisons, and, or and not.",
  ["programs", "inputs"], "every name expression of any nesting and every label, including labels of other types",
  "Nested exceptions and choices over mixed types are not enumerable by examples.",
  ["relapse/name/name.go", "relapse/funcs/logic.go"],
  [("NameToFunc/EvalName/FuncToName", "relapse/name/name.go")])
p("F06", "An injected context reaches every user function of a grammar",
  "After a context is set on a prepared grammar, every registered user function that accepts a context, wherever it occurs in the grammar (under any operator, name, declaration or nested call), evaluates with that context and not with an older one.",
  ["programs", "inputs", "histories"], "every position of a context-using function in a grammar, every sequence of contexts",
  "The single existing test injects into one position.",
  ["relapse/intern/context.go", "relapse/mem/mem.go", "relapse/compose/bool.go", "relapse/funcs/context.go"],
  [("SetContext", "relapse/intern/context.go"), ("SetContext", "relapse/mem/mem.go")])
p("F07", "User-registered functions behave like built-in ones",
  "A function registered by the user with any combination of parameter types is found under exactly its name and parameter types, is called with its evaluated arguments on every label, and its result takes part in the expression unchanged.",
  ["programs", "inputs"], "every signature over the supported types and every argument expression of those types",
  "Overload resolution is over all signatures; tests register single functions.",
  ["relapse/funcs/register.go", "relapse/compose/compose.go", "relapse/compose/compose.gen.go"],
  [("Register/GetMaker", "relapse/funcs/register.go"), ("typed composers", "relapse/compose/compose.gen.go")])

p("F08", "The text of a predicate denotes the predicate",
  "The printed form of any predicate, in full and in short notation, parses and composes to a predicate with the same result on every label.",
  ["programs", "inputs"], "every well-typed expression, constant and label",
  "The text of a predicate is used to simplify and to decompile patterns; the tests pin single strings.",
  ["relapse/funcs/sprint.go", "relapse/funcs/const.gen.go", "relapse/funcs/compare.gen.go", "relapse/funcs/regex.go"],
  [("Sprint", "relapse/funcs/sprint.go"), ("Shorthand and String methods", "relapse/funcs/compare.gen.go")])

# ---------------------------------------------------------------- syntax
p("S01", "Printing a parsed grammar and parsing it again loses nothing",
  "For every grammar text that parses, printing the parsed grammar gives a text that parses to an equal grammar with the same meaning, and printing is a fixed point from then on; whitespace and comments survive, and the comments of every piece of space can be read with their contents.",
  ["programs"], "every grammar text in the language, with every literal form, spacing and comment placement",
  "The tests print a fixed list of grammars.",
  ["relapse/ast/string.go", "relapse/parser/parse.go", "relapse/bnf/relapse.bnf", "relapse/bnf/expr.bnf", "relapse/bnf/lexer.bnf"],
  [("String methods", "relapse/ast/string.go"), ("ParseGrammar", "relapse/parser/parse.go")])
p("S02", "Grammars built in code print to text with the same meaning",
  "Every grammar that can be built with the constructor functions prints to a text that parses to a grammar with the same patterns, names and constants.",
  ["programs"], "every constructor tree with every constant value of every type (special floats excepted where the language has no literal)",
  "Constants and names are unbounded; tests build few and only simple ones.",
  ["relapse/ast/new.go", "relapse/ast/string.go", "relapse/ast/util.go"],
  [("New* constructors", "relapse/ast/new.go"), ("String methods", "relapse/ast/string.go")])
p("S03", "Formatting a grammar changes only its layout",
  "Formatting any parsed grammar, or any pattern of one, yields text that parses to the same patterns and keeps every comment, and formatting it again changes nothing.",
  ["programs"], "every grammar text with every comment and spacing placement",
  "Layout interacts with comment positions; tests hold a few samples.",
  ["relapse/ast/format.go", "relapse/ast/comment.go", "relapse/ast/keywords.go"],
  [("Format", "relapse/ast/format.go")])
p("S04", "Parsing any text ends with a grammar or an error",
  "Parsing any byte string as a grammar or an expression returns either a result or an error, never panics or hangs, and never accepts a text with unparsed rubbish; lexical positions reach the end of the input, and the error of a text that stops being the beginning of any grammar at some token carries the offset and the line of that token.",
  ["inputs"], "every byte string, in particular near-valid grammars",
  "Unbounded inputs; tests parse valid texts.",
  ["relapse/parser/parse.go", "relapse/parser/parser.go", "relapse/lexer/lexer.go", "relapse/errors/errors.go", "relapse/ast/util.go"],
  [("ParseGrammar/ParseExpr", "relapse/parser/parse.go"), ("literal decoding", "relapse/ast/util.go")])
p("S05", "Literals denote the value they spell",
  "Every literal of the grammar language (decimal, octal, hexadecimal, unsigned, floating, string in both quotings, byte list with every element form, as value or as name) denotes exactly the value the notation spells, and a literal with no such value is an error.",
  ["inputs", "programs"], "every literal the lexical grammar admits",
  "Numeric ranges and escape combinations; tests hold a few bytes literals.",
  ["relapse/ast/util.go", "relapse/bnf/lexer.bnf"],
  [("ToInt64/ToUint64/ToFloat64/parseByte", "relapse/ast/util.go")])
p("S06", "Copies and traversals of a grammar are complete",
  "A clone equals its original and shares no mutable part with it, a walk visits every pattern and name of the grammar (and a walk of an expression every part of it) exactly once in order, equality holds exactly for structurally equal grammars, and the negation test answers whether a complement occurs.",
  ["programs"], "every grammar and every single mutation of its copy",
  "One missed field is enough; tests clone one grammar.",
  ["relapse/ast/clone.go", "relapse/ast/walk.go", "relapse/ast/derived.gen.go"],
  [("Clone", "relapse/ast/clone.go"), ("Walk", "relapse/ast/walk.go")])
p("S07", "Combinators build the pattern their documentation states",
  "Every combination of the combinator functions yields a grammar that accepts exactly the trees described by the documented meaning of those combinators, with the constants given.",
  ["programs", "inputs"], "every combinator expression, its arguments and every tree",
  "Combinators nest freely; tests print single examples.",
  ["relapse/combinator/combinator.go", "relapse/combinator/funcs.go"],
  [("pattern combinators", "relapse/combinator/combinator.go"), ("function combinators", "relapse/combinator/funcs.go")])

p("S08", "A grammar survives serialisation",
  "Every grammar, with its spaces and comments, and every part of one, written as protocol buffer bytes and read back is the same; the announced size is the size written; what is read is what the published message descriptor says, whatever the order of the fields, with later fields merged and unknown ones passed over; bytes that are cut short or damaged are refused with an error or read as the descriptor says, and never cause a panic.",
  ["programs", "inputs"], "every AST value; every byte string given to the reader of every AST message",
  "The writer and reader are ten thousand lines generated once, kept in the repository and reached by no test; a slip in one field of one message shows only for grammars with that field.",
  ["relapse/ast/relapse.pb.go", "relapse/ast/relapse.proto"],
  [("Marshal/MarshalTo/Size", "relapse/ast/relapse.pb.go"), ("Unmarshal/skipRelapse", "relapse/ast/relapse.pb.go"), ("GetValue/SetValue", "relapse/ast/relapse.pb.go")])

# ---------------------------------------------------------------- parsers
p("P01", "The JSON parser presents exactly the document's tree",
  "For every valid JSON text the parser presents the tree it denotes: object members in order as string labels, array elements as index labels, and scalars with their exact value (every number readable as each numeric type that represents it, strings with all escapes, booleans, null).",
  ["inputs"], "every valid JSON document, with any nesting, spacing, escapes and number forms",
  "Nesting, braces inside strings and escapes combine; tests hold about a dozen documents.",
  ["parser/json/json.go", "parser/json/unquote.go"], [("Next/Down/Up", "parser/json/json.go"), ("unquote", "parser/json/unquote.go")])
p("P02", "The JSON parser survives every byte string",
  "Walking any byte string as JSON terminates with either a tree or an error and never panics, hangs or reads outside the buffer; a truncated or structurally broken document is never presented as a complete tree.",
  ["inputs"], "every byte string, in particular mutations and truncations of valid JSON",
  "Unbounded input; tests contain a few malformed samples.",
  ["parser/json/json.go", "parser/json/unquote.go"], [("scan*", "parser/json/json.go")])
p("P03", "The protobuf parser presents exactly the encoded message",
  "For every message of every supported field kind, label (optional, required, repeated, packed), nesting and extension, the parser presents the encoded message's fields in wire order with the exact values, repeated fields as indexed children, without loss. A parser or an encoder can be made exactly if the description has the message and every message that it can hold, and the description is not changed.",
  ["inputs", "configurations"], "every message value of every schema feature in proto2 and proto3",
  "Every kind has its own wire decoding; tests decode sample messages with small values.",
  ["parser/proto/proto.go", "parser/proto/desc.go", "encode/proto/proto.go"], [("Next/Down/Up", "parser/proto/proto.go"), ("NewDescriptorMap", "parser/proto/desc.go"), ("decode*", "parser/proto/proto.go")])
p("P04", "The protobuf parser survives every byte string",
  "Walking any byte string as a message of any schema terminates with a tree or an error, and never panics, hangs or reads outside the buffer.",
  ["inputs"], "every byte string, in particular mutations and truncations of valid messages",
  "Unbounded input; tests decode valid messages only.",
  ["parser/proto/proto.go"], [("length and varint decoding", "parser/proto/proto.go")])
p("P05", "The XML parser presents exactly the document's tree",
  "For every well-formed XML document, the parser presents elements, attributes and text in document order, with names under the configured prefixes, decoded entities and exact text, and skips comments, directives and processing instructions without disturbing their surroundings.",
  ["inputs", "configurations"], "every well-formed document and every prefix configuration",
  "Content kinds interleave freely; tests hold a few documents.",
  ["parser/xml/parser.go", "parser/xml/xml.go"], [("xmlParser", "parser/xml/parser.go")])
p("P06", "The XML parser survives every byte string",
  "Walking any byte string as XML terminates with a tree or an error and never panics or hangs.",
  ["inputs"], "every byte string, in particular mutations of valid documents",
  "Unbounded input.", ["parser/xml/parser.go", "parser/xml/xml.go"], [("xmlParser", "parser/xml/parser.go")])
p("P07", "The reflection parser presents exactly the Go value",
  "For every supported Go value the parser presents its non-nil fields and elements in declaration and index order with the exact values and reports a type error, not a value, for a type the current node does not have.",
  ["inputs", "configurations"], "every struct type over the supported kinds and every value of it",
  "Types and values are unbounded; tests reflect two structs.",
  ["parser/reflect/reflect.go"], [("reflectParser", "parser/reflect/reflect.go")])
p("P08", "The YAML parser presents the tree of its supported subset",
  "For every document in the supported YAML subset the parser presents the mapping keys, sequence elements and scalars of the document in order, with scalars readable as the types they spell, and any other text ends in a tree or an error without panic or hang.",
  ["inputs"], "every document of the subset outside the documented list of unsupported features, and arbitrary text for totality",
  "Indentation and nesting combine; tests hold a handful of documents.",
  ["parser/yaml/yaml.go", "parser/yaml/issues.md"], [("yamlParser", "parser/yaml/yaml.go")])
p("P09", "Skipping parts of a document never disturbs the rest",
  "For every parser and every legal sequence of moves (skip a node, descend, leave a level early at any point, read or not read values), what is seen at each step is what the full tree has at that position.",
  ["inputs", "histories"], "every document of every format and every legal navigation sequence",
  "Navigation histories are exponential; tests use a random walk that only checks for panics.",
  ["parser/json/json.go", "parser/proto/proto.go", "parser/xml/parser.go", "parser/reflect/reflect.go", "parser/yaml/yaml.go", "parser/debug/walk.go"],
  [("Up after partial consumption", "parser/json/json.go"), ("Up", "parser/xml/parser.go")])
p("P10", "A parser can be reused from any point",
  "Initialising a parser with a new document, or resetting it, at any moment of a walk over another document, makes it present the new document exactly as a fresh parser would.",
  ["inputs", "histories"], "every pair of documents and every interruption point",
  "Stale state depends on the interruption point.",
  ["parser/json/json.go", "parser/proto/proto.go", "parser/xml/parser.go", "parser/reflect/reflect.go", "parser/yaml/yaml.go"],
  [("Init/Reset", "parser/json/json.go")])
p("P11", "The same data gives the same verdict in every format",
  "A grammar over string names and values gives the same verdict on the same data presented as a reflected Go value, a protobuf message or a JSON document, as far as the formats present the same tree.",
  ["inputs", "programs", "configurations"], "every value of a common schema, every grammar over it",
  "It relates runs of different parsers on generated data.",
  ["parser/json/json.go", "parser/proto/proto.go", "parser/reflect/reflect.go", "relapse/mem/mem.go"],
  [("value accessors", "parser/parser.go")])
p("P12", "Latent appending and merging are detected exactly",
  "The check for latent appending or merging accepts a protobuf encoding exactly when no field occurs in two separate runs and no non-repeated field occurs twice in any message of it; an extension is another field, whatever its name.",
  ["inputs"], "every permutation and duplication of the fields of every message",
  "Wire orders are unbounded; tests have a few.",
  ["parser/proto/nomerge.go"], [("NoLatentAppendingOrMerging", "parser/proto/nomerge.go")])
p("P13", "Observation tools do not change what is observed",
  "Walking a parser lists every node once in order with its value, and wrapping a parser in a logger (also one that writes lines with the place of the call) changes none of its answers and no verdict; what is logged is what was read.",
  ["inputs", "histories"], "every tree and every legal sequence of moves through the wrapper",
  "The wrapper forwards a dozen calls in any order; no test checks it.",
  ["parser/debug/log.go", "parser/debug/walk.go", "parser/debug/value.go"], [("NewLogger", "parser/debug/log.go"), ("Walk", "parser/debug/walk.go")])

# ---------------------------------------------------------------- encoders
p("P14", "The XML decoder reads the tokens that a document consists of",
  "Reading a well-formed document token by token from any reader, with or without skipping elements, gives the tokens, offsets, name spaces and entities of the XML specification (those of the Go standard library), copied tokens stay as they are, and decoding elements into Go values of any struct type, also with methods of their own, gives the same values. A text with a wrong character, reference or tag is an error at the token where the standard library finds it. The lenient mode for HTML-like text and the buffer of the package do what those of the standard library do.",
  ["inputs", "histories"], "every well-formed document, every sequence of token reads and skips, every struct type with tags, every history of a buffer",
  "The decoder is a changed copy of encoding/xml whose own tests were not copied.",
  ["parser/xml/xml.go", "parser/xml/read.go", "parser/xml/typeinfo.go", "parser/xml/buffer.go"], [("Decoder.Token/RawToken/Skip", "parser/xml/xml.go"), ("Unmarshal", "parser/xml/read.go")])
p("E01", "JSON encoding keeps the tree",
  "Encoding the tree of any parser as JSON yields a valid JSON document that denotes the same tree: the same members and elements, with the same scalar values (bytes as base64); JSON to JSON yields a document of equal value.",
  ["inputs"], "every JSON document and every message or Go value with a JSON counterpart",
  "Values and nesting are unbounded; tests encode two messages.",
  ["encode/json/json.go"], [("Encode", "encode/json/json.go")])
p("E02", "Protobuf encoding keeps the message",
  "Transcoding a document that describes a message (from protobuf, JSON or a Go value) into protobuf yields bytes that decode to the same message for every scalar kind, repeated and nested field, with no residue from earlier calls on the same encoder, and a value that the field cannot hold is an error.",
  ["inputs", "histories"], "every message of every field kind, every source format, every sequence of encodes into reused buffers",
  "Each kind has its own encoding; tests use a random sample of one message type with a fixed seed.",
  ["encode/proto/proto.go"], [("NewEncoder/Encode", "encode/proto/proto.go")])
p("E03", "Reflection encoding keeps the value",
  "Transcoding a document into a Go struct yields exactly the value the document describes, for every supported field kind, pointer, slice and nesting, and a document that does not fit the struct is an error rather than a panic.",
  ["inputs", "configurations"], "every value of every supported struct type, every source format",
  "Kinds and nesting are unbounded; tests encode two structs.",
  ["encode/reflect/reflect.go"], [("Encode", "encode/reflect/reflect.go")])
p("E04", "XML encoding keeps the tree",
  "Encoding the tree of any parser whose names are XML names yields a well-formed XML document that presents the same elements and text, with text escaped and unaltered.",
  ["inputs"], "every tree with valid names and text",
  "Text content is unbounded.",
  ["encode/xml/xml.go"], [("Encode", "encode/xml/xml.go")])

# ---------------------------------------------------------------- structures
p("C01", "Independent work may be done at the same time",
  "Parsers, prepared grammars, validators, encoders and expressions that were made separately share no mutable state: any number of goroutines may parse, prepare, validate, walk, print and encode with objects of their own at the same time without a data race, each with the result it has alone; a parsed grammar may also be read by many at the same time: printed, cloned, simplified, serialised and prepared, and so may the description of protobuf messages that parsers and encoders are made from.",
  ["schedules", "programs", "inputs"], "every set of operations on objects that are not shared, or on one grammar that is only read, under every interleaving",
  "A hidden package-level buffer, cache or counter is right in every sequential test; it goes wrong only when two goroutines meet in it.",
  ["relapse/relapse.go", "relapse/mem/mem.go", "relapse/funcs/factory.go", "parser/json/json.go", "parser/xml/typeinfo.go", "parser/proto/parser.go", "encode/proto/proto.go", "relapse/ast/string.go"],
  [("no package-level state", "relapse/mem/mem.go"), ("function registry, only read", "relapse/funcs/factory.go"), ("locked type cache", "parser/xml/typeinfo.go")])
p("Z01", "Compressing pattern lists loses nothing",
  "Zipping any list of patterns drops only duplicates and trivial patterns and unzipping restores, position by position, a list equal to the original; the same holds for the bit-level unzip used on nullability, and the state and index sets give one stable index per distinct member.",
  ["inputs", "histories"], "every list of patterns, every bit vector, every sequence of insertions",
  "Lists and duplicates combine freely; tests hold a few lists.",
  ["relapse/sets/zip.go", "relapse/sets/bits.go", "relapse/sets/indexset.go", "relapse/intern/zip.go", "relapse/intern/sets.go"],
  [("Zip/Unzip", "relapse/sets/zip.go"), ("Bits", "relapse/sets/bits.go"), ("SetOfPatterns", "relapse/intern/sets.go")])

ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
for x in P:
    assert len(x["title"]) <= 80, x["title"]
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
