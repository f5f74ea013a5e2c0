LEX = ("lexer of ignored tokens", "bytecode/bytecode.go: mightIgnoreNextTokens, isIgnoredToken")
PARSE = ("document parser to bytecode", "bytecode/bytecode.go: ParseQueryToBytecode")
RESOLVE = ("bytecode interpreter", "resolver.go: Resolve, resolveSelectionSet, resolveFieldDataValue")
BIND = ("binding of values to go arguments", "resolver.go: bindInputToGoValue, bindJSONToValue, assignStringToValue")

prop("P01", "Insignificant characters never change a response",
     "Two documents that differ only in white space, line terminators, commas and comments between tokens get the same response and run the same resolvers. Inside of strings these characters are kept exactly.",
     ["inputs"], "every placement of insignificant characters between the tokens of documents that use every construct of the language",
     "The tests write each document in one or two layouts, the number of layouts of one document is unlimited.",
     ["bytecode/bytecode.go"], [LEX, PARSE])
prop("P02", "Malformed documents are refused with an error and never crash",
     "Every byte sequence that is not a document of the GraphQL grammar gets an error response with a location and runs no resolver at all. No byte sequence makes the request panic, hang or answer something other than a well formed response, and well formed documents are not refused as malformed.",
     ["inputs"], "every byte sequence up to a length, and every small edit of documents that use every construct of the language",
     "The tests have some tens of malformed documents, the language of wrong documents is unlimited.",
     ["bytecode/bytecode.go", "resolver.go"], [PARSE, LEX])
prop("P03", "Syntax errors point at the offending character",
     "The error of a malformed document names the line and the column of the first character that cannot be part of a correct document. Lines end with a line feed, a carriage return or the pair of both.",
     ["inputs"], "every position of an illegal character in documents of every construct and with every line break style",
     "The tests compare the location of a few errors on the first lines.",
     ["bytecode/bytecode.go", "resolver.go"], [("error location", "bytecode/bytecode.go: ParserCtx.err, ErrorWLocation")])

prop("P04", "The work for a document grows linearly with its size",
     "Reading a document takes time and memory proportional to its length, whatever is repeated in it: white space, comments, characters of names, numbers and strings, values, arguments, selections, directives, variables, fragments or operations, and also when it is refused. Answering a request in which fields, arguments, values or variables data are repeated takes time and memory proportional to the number of repetitions too.",
     ["inputs"], "every kind of repetition, and every alternation of two of them, at every place of a document",
     "Quadratic work does not show in the short documents of tests, but lets a client stop a server with one request.",
     ["bytecode/bytecode.go", "resolver.go"], [PARSE, RESOLVE, BIND],
     tech="exhaustive enumeration of the kinds of repetition and their alternations on the real code, each executed at two sizes, 1500 and 48000 repetitions, and judged by the growth of processor time and allocated memory")

prop("B01", "A document is compiled to exactly its bytecode",
     "The bytecode of a correct document holds every definition, selection, alias, directive, argument, value, variable and type of the document exactly as written and in order, in the layout described with the instructions, with correct lengths, counts and name keys, and the parser names the place of every fragment and of the requested operation. The result is the same for a new and a used parser, with and without the cache, and whatever the caller did to the previous result.",
     ["inputs", "histories"], "every document over the constructs of the language up to a size, every length of names and lists across the limits of the encoded numbers, and every sequence of documents on one parser",
     "The tests compare the bytecode of some tens of documents; parts of it (types of variables, directives of operations, counts) are never executed and so not seen in any response.",
     ["bytecode/bytecode.go", "bytecode/bytecode_instructions.go", "bytecode/cache/bytecode_cache.go"], [PARSE, ("layout of the bytecode", "bytecode/bytecode_instructions.go")])
prop("E01", "A response holds exactly the selected fields in the selected order",
     "The data of a response has precisely the selected fields, in the order they were selected and under their alias or name, with the value the Go data has, down to every depth and for every item of a list. Unknown fields, fields of objects without a selection set and scalars with one get an error at their path.",
     ["inputs", "programs"], "every selection set over a schema with all kinds of fields, up to the bounds",
     "The tests run some tens of documents; selections interact through one output buffer, shared stacks and caches.",
     ["resolver.go", "parse.go"], [RESOLVE])
prop("E02", "Literal arguments reach the resolver with exactly their value",
     "A literal argument reaches the resolver as exactly the value that was written, whatever the Go type of the argument and wherever it is nested in lists and input objects. Literals that do not fit the type give an error at the path of the field and the resolver does not run; arguments that are left out have the zero value.",
     ["inputs"], "every supported input type x every kind of literal, including the limits of the number types and every code point",
     "The tests bind one or two values per type; the boundaries between the Go types are what goes wrong.",
     ["resolver.go", "bytecode/bytecode.go"], [BIND])
prop("E03", "Variables and their defaults behave as if written in the document",
     "A variable reaches every place where it is used with exactly the value from the JSON variables, or with its default if none was given. Values, defaults and declared types that do not fit, and variables that are not defined, are an error at the path of the field and the resolver does not run.",
     ["inputs"], "every supported input type x every kind of JSON value x declared type x default, in every nested position",
     "The tests bind one value per type and no combination of variables, defaults and nesting.",
     ["resolver.go", "bytecode/bytecode.go"], [BIND, ("variable definitions", "resolver.go: bindOperatorArgumentTo, findOperatorArgument, bindExternalVariableValue")])
prop("E04", "Fragments behave exactly like their selections written in place",
     "A fragment spread or inline fragment contributes its selections at its place exactly when its type condition fits the object, however fragments are nested, ordered, reused or left unused. Spreads of unknown fragments and fragments that spread themselves are an error and never endless or fatal.",
     ["inputs", "programs"], "every way to spread up to three fragments into each other and into every kind of object and interface",
     "The tests have a handful of documents with one or two fragments.",
     ["resolver.go", "bytecode/bytecode.go"], [("fragment lookup", "resolver.go: resolveSpread"), RESOLVE])
prop("E05", "Directives decide exactly the selection they are written on",
     "A selection is left out exactly when one of its directives says so, a skipped field does not run its resolver, and everything around it is unaffected. Unknown directives, directives in a place they are not defined for and wrong arguments are an error at the path of the selection. A directive whose name cannot be written, whose place is taken or whose method cannot decide about a selection is refused when it is registered.",
     ["inputs", "programs"], "every combination of up to three directives on fields, spreads and inline fragments at every depth",
     "The tests use single directives on single fields.",
     ["resolver.go", "directives.go"], [("directive evaluation", "resolver.go: resolveDirective; directives.go: RegisterDirective")])
prop("E06", "Exactly the requested operation of a document is executed",
     "A document with several operations executes the named operation and nothing of the others, wherever it stands in the document. If no operation has that name there is an error and no resolver runs.",
     ["inputs"], "every document of up to three operations and fragments x every operation name",
     "The tests select one of two operations.",
     ["resolver.go", "bytecode/bytecode.go"], [("operator selection", "resolver.go: Resolve, resolveOperation; bytecode/bytecode.go: parseOperatorOrFragment")])
prop("E07", "Every resolver error is reported once, with its message and path",
     "Every error a resolver returns, in whatever form yarql offers, is reported exactly once, in order, with its message and with the path of response keys and list indexes that leads to its field. The failed field is null or has its value and the remaining fields are unaffected.",
     ["inputs", "fault_sequences"], "every set of failing resolvers over nested objects and lists, for every form of failing",
     "The tests make one resolver fail.",
     ["resolver.go"], [("path bookkeeping", "resolver.go: resolveField, Ctx.err"), ("error sources", "resolver.go: callQlMethod, resolveFieldDataValue")])
prop("E08", "Every response is well formed JSON whatever the data is",
     "Every response is one valid JSON document with a data object, with an errors list only if there are errors, and with the same data whether or not meta data or tracing is asked for. This holds for all bytes in strings, error messages, names and keys.",
     ["inputs", "configurations"], "every string of up to two bytes and every code point in every place where text reaches the response x response options",
     "The tests compare responses with plain ascii data.",
     ["resolver.go", "helpers"], [("json writer", "resolver.go: valueToJSON; helpers/encodeString.go: StringToJSON")])
prop("E09", "Every selected resolver runs exactly once and in document order",
     "A request runs the resolver of every selected field exactly once per object, in document order and depth first, with the receiver and arguments of that place, and runs no other resolver. Mutations see the effects of the mutations written before them.",
     ["inputs", "histories"], "every selection of up to four method fields and nested objects, for query and mutation",
     "The tests do not observe the order or the number of calls.",
     ["resolver.go"], [RESOLVE])
prop("E10", "The depth limit refuses exactly the documents that are too deep",
     "A document that nests selection sets deeper than the configured maximum is refused with an error at the too deep field, a document up to the maximum is answered as without a limit. Fragments and lists do not change how deep a field is.",
     ["inputs", "configurations"], "every maximum depth x every nesting of objects, lists, interfaces and fragments around it",
     "The tests try one depth.",
     ["resolver.go"], [("depth check", "resolver.go: resolveField, resolveSelectionSet")])
prop("E11", "Context values set during a request are seen by exactly that request",
     "A resolver sees the context and the values the request was started with, changed by what earlier resolvers of the same request stored, and nothing of any other request. Paths and errors reported through the context belong to the field that asked.",
     ["histories", "inputs"], "every sequence of context operations by the resolvers of a request and of the requests after it",
     "The tests set one value once.",
     ["resolver.go"], [("request context", "resolver.go: Ctx.GetValue, SetValue, GetContext, SetContext")])
prop("E12", "A request is answered as if it was the first one on a fresh schema",
     "The response of a request depends only on the request and the Go data, never on the requests the same schema answered before, whether those succeeded, failed, panicked in the parser or were cut off. The same document always gets the same response.",
     ["histories"], "every sequence of requests of many kinds up to a length, on one schema",
     "The tests run one request per schema; the schema reuses its buffers, stacks, parser and context.",
     ["resolver.go", "bytecode/bytecode.go", "bytecode/cache/bytecode_cache.go"], [("reuse of the request state", "resolver.go: Resolve")])
prop("E13", "The bytecode cache is invisible",
     "A schema with query caching answers every request exactly as one without, for every cache configuration and every order in which documents are seen, cached and evicted.",
     ["histories", "configurations"], "every sequence of requests over documents that differ in one byte, length, or operation name, at and around every cache threshold",
     "The tests send one document repeatedly.",
     ["bytecode/cache/bytecode_cache.go", "resolver.go"], [("cache lookup by length and bytes", "bytecode/cache/bytecode_cache.go: GetEntry, SetEntry")])
prop("E14", "Values handed to resolvers and to callers stay unchanged after the request",
     "Strings, lists and objects that a resolver received as arguments keep their value as long as the program holds on to them, whatever requests are answered later, and so do the errors that a request returned. The query and the body of the caller are only read.",
     ["histories"], "every pair and triple of requests with every source of text: literals, variables, defaults, form values, context",
     "The tests compare arguments only while the resolver runs.",
     ["resolver.go", "bytecode/bytecode.go"], [("copying of request bytes", "resolver.go: assignStringToValue, bindJSONToValue")])
prop("E15", "A copy of a schema answers exactly like the original",
     "A copy of a schema, or a copy of a copy, answers every request and every introspection exactly as the original, before and after either of them was used, and using one never influences another.",
     ["histories", "inputs"], "every interleaving of copying and requests up to a length, over requests of every kind",
     "The tests copy a schema once and run one request.",
     ["copy_schema.go"], [("deep copy of types, inputs, directives, enums and interfaces", "copy_schema.go: Copy")])
prop("E16", "Copies of a schema can be used by different goroutines at once",
     "Requests that run at the same time on different copies of one schema, or on different schemas, each get the response they get alone, also while others are copied or built, in every interleaving of their executions, and no memory that is not synchronised is written by one and used by another.",
     ["schedules"], "every interleaving of two or three requests on different copies up to a number of preemptions at every statement of the resolver",
     "The tests never run two requests at the same time; a schedule that fails is rare.",
     ["copy_schema.go", "resolver.go", "inject_schema.go"], [("everything mutable is copied", "copy_schema.go: Copy")],
     tech="stateless exploration of all interleavings of the instrumented real code up to a preemption bound, with a happens-before race check")

prop("E17", "A schema answers any number of requests with bounded memory",
     "However many requests a schema has answered, and whatever requests these were, what it keeps does not grow with their number: neither memory nor goroutines. The same holds for schemas and copies of schemas that are not used any more.",
     ["histories"], "every cycle of one or two kinds of requests, equal or all different, repeated without end",
     "A leak shows after thousands of requests of the one kind that leaks, tests send a handful.",
     ["resolver.go", "bytecode/bytecode.go", "bytecode/cache/bytecode_cache.go", "copy_schema.go"], [("reuse of the request state", "resolver.go: Resolve"), ("eviction of cached bytecode", "bytecode/cache/bytecode_cache.go: SetEntry")],
     tech="exhaustive enumeration of the cycles of request kinds on the real code, each repeated until the reachable heap, measured after garbage collections, is at a fixpoint")
prop("C01", "The bytecode cache returns exactly what was stored and stays within its limits",
     "An entry that is found for a query and operation name is the one stored last for exactly these two, byte for byte, whatever the caller did with its buffers since. What was just stored is found. There are never more than 100 lengths with 20 queries each.",
     ["histories"], "every sequence of writes and reads of queries with equal and different lengths and targets, below, at and above the limits",
     "The tests store one query.",
     ["bytecode/cache/bytecode_cache.go"], [("lookup by length, bytes and target; eviction", "bytecode/cache/bytecode_cache.go: GetEntry, SetEntry")])

prop("G01", "Introspection describes exactly the schema that requests are run on",
     "Introspection lists every type, field, argument, enum value, interface and directive that requests can use, with the correct kind and nullability, and nothing else. Whatever introspection says is selectable can be selected and whatever it leaves out is refused. Schemas of the same types give the same introspection.",
     ["inputs", "programs"], "every type, field and argument of schemas with all kinds of fields, and every generated small schema",
     "The tests compare a few types of one schema.",
     ["inject_schema.go", "grahql_types.go"], [("introspection data", "inject_schema.go: injectQLTypes, getAllQLTypes, objToQLType, inputToQLType"), ("introspection types", "grahql_types.go")])
prop("G02", "A schema has exactly the fields and arguments its Go types declare",
     "The fields, arguments and their types follow from the Go types: names are lower camel case unless the gq tag names them, a dash hides a field, ignored and unsupported members are never exposed, and equally named things are never mixed up. A type is renamed to exactly the name given, one that is no GraphQL name is refused unless it is forced. A Go type that cannot be used gives an error when the schema is built and never a panic or a wrong answer later.",
     ["programs"], "every struct of up to three fields over a set of Go types, names and tags; a set of method names and signatures",
     "The tests build a few schemas.",
     ["parse.go"], [("reading of go types", "parse.go: check, checkStructField, checkFunction, formatGoNameToQL")])
prop("G03", "Enum values map one to one between Go and GraphQL",
     "Every registered enum value is written as its name and read back as itself, from literals, variables and defaults and in lists and objects, and unknown names are refused. Maps that are no usable enum are refused when they are registered.",
     ["inputs", "programs"], "every enum map over a set of names and Go kinds x every value",
     "The tests use one enum with a few values.",
     ["enums.go", "resolver.go"], [("enum registry", "enums.go: RegisterEnum")])
prop("G04", "Interface fields answer with the type that is really there",
     "A field of an interface type answers with the fields and type name of the concrete object behind it, or null, and selections on another type do not apply. Every registered implementation is usable and listed, whatever the order of registration and use.",
     ["inputs", "programs"], "every selection over interface fields x every concrete value; every order of registering up to three implementations",
     "The tests have one interface with two implementations.",
     ["interfaces.go", "resolver.go", "implement_helpers.go"], [("implementation registry", "interfaces.go: Implements"), ("dispatch", "resolver.go: resolveFieldDataValue")])
prop("R01", "A selection set yields every response key once",
     "The objects of a response have every key at most once. If a response key is selected several times the selections are merged.",
     ["inputs"], "every selection set with repeated response keys of up to three selections, written directly and through fragments",
     "No test selects a key twice.",
     ["resolver.go"], [RESOLVE])

prop("H01", "Every HTTP transport gives the same answer for the same request",
     "A request that is sent as URL parameters, as multipart form or as JSON gets the answer of the same request run directly with the same options, and a batch gets the list of the answers its requests get on their own, in order. Requests that cannot be read are answered with an error in the same format and run no resolver, also as a part of a batch.",
     ["inputs", "configurations"], "every request of a set x every transport, method and content type; batches of up to three; every malformed envelope of a set",
     "The tests of the examples do not cover the transports.",
     ["implement_helpers.go"], [("request decoding", "implement_helpers.go: HandleRequest")])
prop("H02", "Uploaded files reach exactly the argument that refers to them",
     "A file argument reaches the resolver as the uploaded file with the name it refers to, and a reference to a file that was not uploaded is an error at the path of the field.",
     ["inputs"], "every assignment of uploaded files to file arguments of up to three, in literals, variables and lists",
     "The tests upload one file.",
     ["implement_helpers.go", "resolver.go"], [("form files", "implement_helpers.go: HandleRequest; resolver.go: assignStringToValue")])

prop("V01", "Scalars arrive in the response with exactly their Go value",
     "Every Go value of every scalar type, behind any number of pointers and lists, is written so that a JSON reader gets back the same value; IDs are strings.",
     ["inputs"], "every value of the small number types, the limits and powers of the large ones, and every code point and byte pair in strings, in every way a field can be declared",
     "The tests read one or two values per type.",
     ["resolver.go", "helpers"], [("value writer", "resolver.go: valueToJSON; helpers/encodeFloat.go, helpers/encodeString.go")])
prop("V02", "Times survive being written and read with millisecond precision",
     "A time of the years 0 to 9999 is written as its instant in ISO 8601 in UTC with milliseconds (what is below is cut off) and is read back as the same instant. Texts that are not such a time are refused.",
     ["inputs"], "every field limit of dates, every day of years around the special cases, time zones, and every one byte edit of correct texts",
     "The tests convert one time.",
     ["resolver.go", "helpers"], [("time parser and writer", "helpers/time.go: ParseIso8601String, TimeToIso8601String")])
prop("T01", "Tracing describes the executed fields and changes nothing else",
     "With tracing on, the response has one trace entry per executed field with its path, parent type, field name and return type, in a plausible time order, and is otherwise the response without tracing.",
     ["inputs", "histories"], "every selection of a set over all kinds of fields, traced and untraced in every order",
     "The tests look at the trace of one request.",
     ["apollo_tracing.go", "resolver.go"], [("tracer", "apollo_tracing.go; resolver.go: startTrace, finishTrace")])
prop("X01", "The test helpers report exactly what the schema has",
     "The helpers for tests accept exactly the types and fields that the schema has and report an error for all others.",
     ["inputs"], "every type and field name of a schema, and near misses, through every helper",
     "The tests call the helpers with a few names.",
     ["tester/tester.go"], [("helpers", "tester/tester.go: HasType, TypeKind, HasFields, OnlyHasFields")])
prop("A01", "An assertion fails exactly when its condition does not hold",
     "Every assertion of the assert package returns true and reports nothing when its documented condition holds. Otherwise it returns false and reports exactly one failure, with what was compared, the lines of code from the assertion up to the test, and the whole message that was given. The variants that format a message do the same.",
     ["inputs"], "every pair of values of a pool with all kinds of Go values and their limits, for every assertion and every form of message",
     "The assert package has no tests, and an assertion that passes wrongly makes other tests blind.",
     ["assert/assert.go", "assert/assertion_compare.go", "assert/assertion_format.go"], [("assertions", "assert/assert.go: Equal, Empty, InDelta, ErrorIs, JSONEq, Fail; assert/assertion_compare.go: compareTwoValues")])
prop("A02", "The diff of two texts is exactly their difference",
     "Applying the diff to the expected text gives the actual text: every changed line is in it, no line is both removed and added at one place (texts below 200 lines), and changes have one line of context. Equal texts have no diff, texts are split into lines without loss, and a failing writer is reported.",
     ["inputs", "fault_sequences"], "every pair of short texts, every place of edits in long texts, and every point at which a writer fails",
     "The package has no tests; a wrong diff shows only for some interplay of matches, context and repeated lines.",
     ["assert/difflib/difflib.go"], [("sequence matcher", "assert/difflib/difflib.go: findLongestMatch, GetGroupedOpCodes, WriteUnifiedDiff")])
