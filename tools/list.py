AI = "path-sensitive abstract interpretation of the SSA form (property simulation over symbolic inputs, no solver)"
TR = "What is trusted: the Go type checker, x/tools' SSA builder, the analyzer's models of the standard library and of jsonparser/jsonpath/xmlquery calls (an unknown call may return anything its type and error convention allow)."

prop("T02", "A transform returns a schema valid document or an error",
     "Whenever the validating transform returns without an error, the returned document is the serialised result of transforming the given input and the JSON schema the transformer was built with has accepted it. A document is never returned together with an error, and the non-validating transform only leaves the acceptance out.",
     ["inputs", "configurations"], "every input document, JSON or XML, and every schema a transformer can be built for",
     "The tests transform a few dozen documents; none shows that no path returns an unvalidated document or drops the verdict.",
     ["transform/transform.go", "jsonschema/validator.go"],
     [("Transform validates what it marshalled", "transform/transform.go:Transform"), ("validator verdict", "jsonschema/validator.go:Validate")],
     ["return values of Transformer.Transform, Transformer.TransformNoValidation"],
     AI, "Decides every path of the entry points, the constructors and the validator with the callees' error and result left open. " + TR)

prop("T03", "A failing transform step is reported, never swallowed",
     "When a step of building a transformer or of transforming a document fails (an unusable instruction, an operation, a conversion, a nested transform), the caller gets an error which mentions it; the failure is neither dropped nor replaced by a partial document. The only failures which count as a missing value instead are those of looking a value up or converting it where the documentation defines a fallback (next source, schema default).",
     ["inputs", "fault_sequences", "configurations"], "every error any callee in the transform package can return, at every call site",
     "Tests provoke a handful of failures; a dropped error at an untested site stays green.",
     ["transform/transform.go", "transform/transformer.go", "transform/instance.go", "transform/operations.go", "transform/utils.go"],
     [("error returns", "transform package: every call with an error result")],
     ["error returned by NewTransformer, NewXMLTransformer, Transform"],
     "error-flow dataflow analysis over the SSA form: every error value must reach a return, a wrapper or a reviewed fallback on every path",
     "One obligation per call with an error result and per path class. Reviewed fallbacks are listed by caller/callee in the analyzer, not by position. " + TR)

prop("T06", "Every operation computes its documented result or an error",
     "Each transform operation applied to any value either returns a value of its documented type computed as documented (durations, case changes, inversion, maximum by a selector with the first of equal items, replacement, splitting, time formatting, camel casing, number and boolean conversion) or an error. It never returns a wrong kind of value or the unchanged input for an input of the wrong type.",
     ["inputs"], "every dynamic type and value handed to an operation, every number of items and every order of their sort keys",
     "The unit tests hold a table of sample values per operation.",
     ["transform/operations.go"],
     [("operations", "transform/operations.go: transform methods")],
     ["results of an operation in a transform section"],
     AI, "The input is partitioned by dynamic type, list length and order of the keys; within a class values are symbolic. Numeric rounding and the exact text produced by the strings/time/bluemonday libraries are left to them. " + TR)

prop("T07", "Transform sections are read completely or rejected",
     "Reading a transform section keeps every from entry with its path, its operations in order with their arguments, the method and the method options; the method defaults to first. An unknown operation or method name, a missing or unusable argument, or an entry which is no instruction is an error when the transformer is built, before any document is transformed.",
     ["inputs", "configurations"], "every transform section of every schema",
     "Tests cover a few spellings; not that every operation name, argument and method is wired to the right behaviour or rejected.",
     ["transform/utils.go", "transform/instance.go", "transform/operations.go"],
     [("instruction decoding", "transform: UnmarshalJSON of the instructions"), ("operation arguments", "transform/operations.go: init methods")],
     ["NewTransformer error, behaviour of the transformer built"],
     AI, "encoding/json's decoding into tagged fields is modelled by the tags; everything after it is analysed with symbolic field values. " + TR)

prop("T08", "Values come from the instructions, else the same path, else default",
     "The value of a field is that of its transform instructions when they yield one, otherwise for JSON input the value at the same path of the input, otherwise the default of the schema, otherwise the field is left out. Values of the children of an object are put over the object's base value under their own names, and a child without a value leaves it alone.",
     ["inputs", "configurations"], "every combination of present, absent, failing and mistyped sources for scalars, arrays and objects in JSON and XML",
     "Tests sample few of the combinations of sources.",
     ["transform/instance.go"],
     [("source precedence", "transform/instance.go: transform methods of the instance transformers")],
     ["document returned by Transform"],
     AI, "Exhaustive over the classes of sources (present/absent/failing/other type, default or not, inside an array or not). " + TR)

prop("T09", "Scalars in the output have the type the schema asks for",
     "A value taken from the same path of a JSON input, or from XML, for a string, number, integer, boolean or date-time field is put into the output as the JSON type of the field whatever type it had (numbers and integers share the JSON number); a value which cannot be converted is treated as missing or as an error and is not passed on in its old type. The conversion itself gives for every type of value and of field either a value of the type of the field or no value.",
     ["inputs"], "every dynamic type of input value times every scalar schema type",
     "Tests convert sample values only.",
     ["transform/utils.go", "transform/instance.go"],
     [("conversion", "transform/utils.go: convert")],
     ["document returned by Transform"],
     AI, "Full table of dynamic types by target types; within a class the value is symbolic. Whether strconv rounds correctly is out of scope. " + TR)

prop("T10", "first, last and concatenate combine instructions in order",
     "With several instructions first takes the first value present in the order listed, last the last one present, and concatenate joins all present values in order with the delimiter between values which are not empty. Instructions which find nothing are skipped and an instruction which fails makes the field fail.",
     ["inputs", "configurations"], "every number of instructions and every combination of present, absent and failing values",
     "Tests use one or two fixed instruction lists.",
     ["transform/instance.go", "transform/utils.go"],
     [("method dispatch", "transform: transformInstructions.transform"), ("concat", "transform/utils.go: concat")],
     ["document returned by Transform"],
     AI, "All combinations for up to three instructions (four in the thorough tier); longer lists by the loop bodies being the same. " + TR)

prop("T11", "Arrays keep every item, in order, each with its own position",
     "Every item of the source array is transformed exactly once and in order, relative paths and same-path lookups of its fields refer to that very item, and the resulting array holds the present results in the same order. Nested arrays each keep their own position.",
     ["inputs"], "every length and nesting of arrays, JSON and XML",
     "Tests have a few arrays of two or three items.",
     ["transform/instance.go", "transform/utils.go"],
     [("position in paths", "transform/instance.go: array transformer, path modifier"), ("index replacement", "transform/utils.go: replaceIndex")],
     ["document returned by Transform"],
     AI, "Loop analysed for concrete small lengths and a widened unknown length; the path rewriting is checked symbolically for nesting. " + TR)

prop("S01", "A schema which cannot be loaded completely is an error",
     "Loading a schema, resolving its references, building a validator or walking it returns an error whenever reading, parsing, fetching (including a response which is not a success) or resolving any part fails; a schema built from partial data is never returned.",
     ["inputs", "fault_sequences"], "every failure of every callee while loading, dereferencing, validating and walking schemas",
     "Tests provoke a missing file and a few malformed schemas.",
     ["jsonschema/schema.go", "jsonschema/reference.go", "jsonschema/walk.go", "jsonschema/validator.go", "jsonschema/cache.go"],
     [("error returns", "jsonschema package: every call with an error result")],
     ["error returned by SchemaFromFile, SchemaFromFileNoFlatten, SchemaTypes, Walk, WalkRaw"],
     "error-flow dataflow analysis over the SSA form: every error value must reach a return or a wrapper on every path",
     "One obligation per call with an error result and path class. " + TR)

prop("G01", "The generator reports every failure",
     "When any step of generating Go structs, GraphQL, Avro or MessagePack code fails, including a failed write or close of an output file, the generator returns an error. It never reports success for output which is missing or cut short.",
     ["inputs", "fault_sequences"], "every failure of every callee of the generator and of the command line tool",
     "Tests do not inject failing writes, closes or formatting.",
     ["generate/generate.go", "generate/struct.go", "generate/graphql.go", "generate/avro.go", "generate/avro_helpers.go", "main.go"],
     [("error returns", "generate package and main: every call with an error result")],
     ["error returned by BuildStructsWithArgs, exit status of the command"],
     "error-flow dataflow analysis over the SSA form: every error value must reach a return, a wrapper or a non-zero exit on every path",
     "One obligation per call with an error result and path class; writes into memory buffers cannot fail. " + TR)

prop("S05", "Walking a schema visits every property once with its path",
     "Walk and WalkRaw call the walk function for every property and every array item of the schema, at any depth, exactly once, parents before their descendants, each with its own JSONPath and its own part of the schema. The first error of the walk function ends the walk and is returned, and an object without properties or an array without items is an error.",
     ["inputs"], "every shape of schema and every function given",
     "Tests walk a few schema files.",
     ["jsonschema/walk.go"],
     [("walk", "jsonschema/walk.go: Walk, WalkRaw and their helpers")],
     ["calls of the walk function, errors of Walk and WalkRaw"],
     AI, "Shapes up to the explored nesting and width are enumerated (deeper in the thorough tier), names and contents are symbolic. Reading the JSON is modelled as jsonparser documents it. " + TR)

prop("S06", "allOf and oneOf parts are merged as documented",
     "Loading a schema merges its allOf parts and the oneOf parts of the requested type into its properties, items and required names: what the schema itself defines comes first, then the allOf parts in order, then the selected oneOf part, and no definition found earlier is replaced by a later one. Parts of other oneOf types are left out. Without flattening the allOf parts are merged only into a schema without properties of its own. SchemaTypes lists the oneOf types of a schema.",
     ["inputs", "configurations"], "every combination of own properties, allOf and oneOf parts and of the type asked for",
     "Tests load a few schema files.",
     ["jsonschema/schema.go"],
     [("merge", "jsonschema/schema.go: schema construction"), ("types", "jsonschema/schema.go:SchemaTypes")],
     ["Schema returned by SchemaFromFile and SchemaFromFileNoFlatten, SchemaTypes"],
     AI, "Enumerates presence and overlap of the parts up to three allOf and two oneOf entries; contents are symbolic. " + TR)

prop("S07", "The type keyword is read in every form or rejected",
     "A type given as one name is that type. A list with one name which is not null is that type and nullable when null is listed too. More than one such name, another kind of value or a missing type is an error rather than a guess. Decoding an Instance accepts both forms.",
     ["inputs"], "every form of the type keyword",
     "Tests use the common spellings only.",
     ["jsonschema/schema.go", "jsonschema/walk.go"],
     [("type", "jsonschema: FieldType, Instance.UnmarshalJSON")],
     ["results of FieldType and of decoding an Instance"],
     AI, "All list forms up to three entries (more in the thorough tier), names symbolic. " + TR)

prop("S02", "A schema is built once and never mixed up with another",
     "The schema of a file is built once for each oneOf type and each mode (flattening or not) and the same schema is returned on later loads; loads which differ in file, type or mode never share one, whatever characters paths and types have. The validator of a file is likewise built once per file. A failed build is reported and tried again by the next load, and loads of the same schema at the same time do not build it twice.",
     ["inputs", "histories", "schedules"], "every sequence of loads from an empty cache, failing or not, and every interleaving of loads of the same schema",
     "Tests load from a cache shared with the other tests and never check what is built or shared.",
     ["jsonschema/cache.go", "jsonschema/schema.go", "jsonschema/validator.go"],
     [("cache", "jsonschema/cache.go: Cache.Load"), ("keys", "jsonschema/schema.go, jsonschema/validator.go: the keys given to the caches")],
     ["identity of the schemas returned by SchemaFromFile and SchemaFromFileNoFlatten, files read"],
     AI, "Runs of two and three loads over paths and types chosen to collide, every failure of a load in between; interleavings by a rule on critical sections: the build and the look up before it are within one section of the key. singleflight and sync.Map are trusted to do what they document. " + TR)

prop("S04", "References resolve to the right data, relative to their file",
     "A reference anywhere below the root of a schema (in properties, items, allOf, at any depth and any place in a list) is replaced by what it refers to: a definition in the same file, another file or a part of one found relative to the file with the reference, or a document fetched over http. A referenced file is loaded for the same oneOf type and mode as the schema with the reference. The keys next to the reference are kept, unchanged, over those of the referenced data, and fromRef names the reference. A reference which can not be resolved, including one whose response is not a success, is an error.",
     ["inputs", "configurations", "fault_sequences"], "every place, form and target of a reference and every set of keys next to it; every failure while fetching",
     "Tests resolve a few fixture files.",
     ["jsonschema/reference.go", "jsonschema/schema.go"],
     [("references", "jsonschema/reference.go: dereference, resolveRef, findRefs")],
     ["Schema returned by SchemaFromFile and SchemaFromFileNoFlatten"],
     AI, "The loader is analysed from SchemaFromFile on over enumerated sets of documents (places x forms x neighbours) whose texts are symbolic, against a resolver written from the documentation. References at the root of a file are dropped by design (a test of the repository requires it) and circular references are left out (see S09). " + TR)

def na(id, title, statement, over, text, files, mech, reason):
    prop(id, title, statement, over, text, "Tests sample a few inputs.", files, mech, ["output"], na=reason)

PT = "flow insensitive, field sensitive points-to and effect analysis of the SSA form (Andersen style), with objects and code split by life phase"
WA = "interprocedural write and alias summaries over the SSA form, with inclusion-based points-to sets telling what can be a part of the decoded document"
PTN = "Trusted: the type checker, the SSA builder and the analyzer's effect models of library calls (a library method with a pointer receiver is taken to write it unless listed as read only). unsafe and reflection in the repository would be reported as unresolved."
OR = "order analysis (effect commutation of loops over unordered collections plus taint of slices in no particular order until sorted by a deciding comparison) and a who-may-call rule over the SSA form"

prop("T01", "Transforming shares nothing: concurrent transforms do not interfere",
     "Transforming a document writes only memory made during that very call. It changes neither the transformer, nor its schema, nor any package variable, nor the caller's input, and starts no goroutine. Several goroutines can use one transformer at once and each gets what it would get alone, and a transform leaves nothing behind for the next one.",
     ["schedules", "histories", "inputs"], "every interleaving of calls on one transformer and every history of earlier calls",
     "A race or a leftover needs a certain schedule or a certain sequence of documents; the tests transform one document per transformer.",
     ["transform/transform.go", "transform/instance.go", "transform/operations.go", "transform/transformer.go", "transform/utils.go"],
     [("effects of a transform", "every store, map update, append, copy, delete, sort and library write reachable from Transformer.Transform")],
     ["document returned by a later or concurrent Transform", "race detector"],
     PT, "Every write reachable from the entry points is one obligation: its possible targets must all be made in the same call. " + PTN)

prop("T12", "Every instruction reads the document as it was given",
     "While one field is being built nothing another field is built from changes: what instructions take from the decoded document is copied before children are saved in it or it is put into the document at another place, no operation reorders or edits what it is given, and the only change made to the decoded document is the saving of an array at its own path. So the value of a field does not depend on which other fields the schema has or on their order.",
     ["inputs", "programs"], "every combination of instructions in a schema and every document",
     "Two fields reading the same part of the document, one of them with children or another order, are needed to see it.",
     ["transform/instance.go", "transform/transformer.go", "transform/transform.go", "transform/operations.go", "transform/utils.go"],
     [("writes to what is taken from the document", "transform/instance.go: saveInTree callers; transform/utils.go: copyValue, saveInTree, saveInSlice; transform/operations.go: transform methods")],
     ["document returned by Transform"],
     WA, "A function's summary holds which parameters it writes to (or to what they hold) and which it stores in which; the code is analysed for each input format apart, after checking that no part of a Transformer uses a format of its own. " + PTN)

prop("S03", "A loaded schema never changes afterwards",
     "Once a schema was returned by a loader nothing the repository does to another schema, to a validator, a walk, a transformer or a generated file writes to it, except under a lock to the shared caches. A schema taken from a cache is the same for every user and stays as it was loaded.",
     ["histories", "schedules"], "every sequence and interleaving of loads, walks, validator and transformer builds and generator runs",
     "Tests load and use a schema once.",
     ["jsonschema/schema.go", "jsonschema/reference.go", "jsonschema/walk.go", "jsonschema/validator.go", "jsonschema/cache.go"],
     [("effects on schemas", "every write reachable from the loaders, walks, validators, transformer builders and generators")],
     ["exported fields of a Schema and what later uses of it give"],
     PT, "The loads are analysed twice, so that a second load writing to what the first one made is seen. " + PTN)

prop("T05", "The same input gives the same document",
     "Loading the same schema files, building a transformer and transforming the same document gives the same bytes or fails every time. The result does not depend on the order in which Go iterates over maps, on the clock (but for the currentTime operation), on random numbers, on the environment or on other goroutines.",
     ["schedules", "inputs", "histories"], "every iteration order of every map",
     "An order shows in a test only with luck, and the tests are small.",
     ["transform/instance.go", "transform/transformer.go", "transform/utils.go", "jsonschema/walk.go", "jsonschema/schema.go"],
     [("loops over maps", "every range over a map in jsonschema and transform and every slice made from one")],
     ["bytes returned by Transform"],
     OR, "Which of several errors is reported first may differ; that there is one may not. Library calls are taken to be functions of their arguments unless on the list of ambient sources. The order of equal items kept by a stable sort of an ordered slice is fine.")

prop("G02", "The same schema generates the same files",
     "Generating from the same schema files with the same arguments writes the same bytes to the same files every time, whatever order Go iterates over maps in, with no influence of the clock, random numbers or the environment.",
     ["schedules", "inputs", "configurations"], "every iteration order of every map",
     "A test compares one run with a stored file; an order shows only with luck.",
     ["generate/generate.go", "generate/struct.go", "generate/graphql.go", "generate/avro.go", "generate/avro_helpers.go", "jsonschema/walk.go", "jsonschema/schema.go"],
     [("loops over maps", "every range over a map in jsonschema and generate and every slice made from one")],
     ["generated Go, GraphQL, Avro and MessagePack files"],
     OR, "The third party generators the repository calls (gogen-avro, msgp) are taken to be functions of their input.")

prop("G04", "One complete Go file for each part of a schema",
     "For every layout of a schema (properties of its own, allOf and oneOf files, relative and absolute paths, several dots in a name, renamed structs, embedding) the generator writes exactly one Go file for each part, named after it, into the output directory and nothing anywhere else. Each file is complete, formatted, closed and marked as generated, belongs to the package named after the directory and holds the struct of its own schema, named as StructNameMap says; the structs of the oneOf parts (and with EmbedAllOf the allOf parts a schema refers to) embed the common ones, all of them, in order. The older BuildStructs functions give the same. MessagePack code is made after the last file is closed, from the output directory, when asked for and only then.",
     ["inputs", "configurations"], "every layout of a schema and combination of settings",
     "The stored outputs the tests compare with are a few layouts, all relative, with at most two parts.",
     ["generate/generate.go", "generate/struct.go"],
     [("layout", "generate/generate.go: BuildStructsWithArgs, buildStructFile, buildMessagePackFile; generate/struct.go: newGeneratedGoFile, write")],
     ["files in the output directory, their package, types and embedded types"],
     AI, "The layouts are enumerated, the generator is executed abstractly with the files, the loader, the formatter and the MessagePack generator replaced by models which record what they get; the text written is parsed as Go. Up to three allOf and three oneOf files.")

prop("G05", "A struct has the fields its schema asks for",
     "For every kind of property and every combination of nullable, required, of an object or an array, with and without nested structs, pointers, descriptions in struct tags and renaming: the struct written has exactly one field for it, with its JSON name in the tag, the Go name given or made from it, the Go type for its JSON type (boolean bool, number float64, integer int64, string string, date-time time.Time, array a slice, object a struct), a pointer where the documentation says so, omitempty or omitzero only when it is not required, and its description. Types written for objects are all used and defined once, time is imported when and only when used. A property with a union of types is an error, one only hydrated in GraphQL has no field, an array of arrays is refused or a slice of slices.",
     ["inputs", "configurations"], "every combination of kind, nullable, required, place and settings",
     "The stored outputs hold some twenty fields; a combination which is not among them is not seen.",
     ["generate/struct.go", "generate/generate.go", "jsonschema/walk.go"],
     [("fields", "generate/struct.go: addField, goType, write, walkFunc")],
     ["fields, types and tags of the generated structs"],
     AI, "Each combination is a small schema; the generator is executed abstractly on it and the Go text it writes is parsed and compared with what the documentation asks for. Objects up to three deep.")

prop("G10", "The GraphQL schema written is valid and says what its schema asks for",
     "For every kind of property and every combination of nullable, required, hydrated and of an object or array, without nested structs: the GraphQL written parses, every type it refers to is defined exactly once, and each object has one type with exactly one field for each property (and a total for each list), with the GraphQL type, the nullability, arguments, directives and description its schema asks for. For every layout of allOf and oneOf parts the interface and its types are in the files documented, each once, and every implementation repeats the fields of its interface. What has no GraphQL (a union of types, an array of arrays) is an error.",
     ["inputs", "configurations"], "every combination of kind, nullable, required, hydration, place, layout of parts and settings",
     "The stored outputs hold one example for each feature; a combination which is not among them (a nullable list which is required, quotes in a description, two oneOf parts with embedded parts) is not seen.",
     ["generate/graphql.go", "generate/generate.go", "jsonschema/walk.go"],
     [("fields", "generate/graphql.go: addField, graphqlType, write, walkFunc"), ("files", "generate/graphql.go: buildGraphQLFile")],
     ["types, fields and directives of the .graphqls files written"],
     AI, "Each combination is a small schema; the generator is executed abstractly on it and the GraphQL text it writes is parsed with a parser of the language and compared with what the documentation asks for. Objects up to three deep, up to two allOf and three oneOf parts. Generation with nested structs is out of scope: it writes types which are no GraphQL, which the stored outputs pin.")

prop("G06", "The command line gives the generator the settings asked for",
     "For every option of the jstransform command, alone, with any other and with all of them: the generator runs exactly once with the setting the option stands for and the documented default for every other one, renames are read as comma separated old=new pairs and add up over repeated options, paths are those given (the output directory may be left out). A missing schema, an unknown option, a rename without \"=\", Avro or GraphQL without an import path, and a failing generator end with a failure status, a complete run with success.",
     ["inputs", "configurations", "fault_sequences"], "every option with its values, all pairs of options, failures of the generator and of resolving paths",
     "There are no tests of the command itself.",
     ["main.go"], [("main", "main.go: main, mapFlags.Set")],
     ["arguments of BuildStructsWithArgs, exit status"],
     AI, "main is executed abstractly with a model of package flag, for some 500 command lines: each option with each of its values, all pairs and all together.")

prop("G09", "The Avro schemas written describe the generated structs",
     "For every kind of property and every combination of nullable, required and of an object or array, and for layouts of parts: every exported struct has one Avro schema file, which is valid JSON and a valid Avro schema, with the documented namespace and the write time and deleted fields first, then for each field of the Go struct, its embedded structs included, exactly one field with the Avro type, the nullability (a union of null and the type) and the doc its schema asks for, every named type defined before it is used and once; and the files the Avro package consists of are written where the Go code of the serialization functions refers to them. What has no Avro (see DESIGN) is an error, and then no schema is written.",
     ["inputs", "configurations"], "every combination of kind, nullable, required, place, layout of parts and settings",
     "The stored outputs hold one example for each feature; a combination which is not among them (an array of nullable structs, two records with the same simple name, an empty struct) is not seen.",
     ["generate/avro.go", "generate/avro_template.go", "generate/struct.go"],
     [("schema", "generate/avro.go: buildAvroSchemaFile, parseGoStruct, goType handling"), ("functions", "generate/avro.go: buildAvroSerializationFunctions, buildAvroHelperFunctions")],
     ["Avro schemas written"],
     AI, "Each combination is a small schema; the generator is executed abstractly on it up to the .avsc text, which is parsed as JSON and compared with what the Go structs and the JSON schema ask for. Structs up to three deep, two parts. Out of scope: two embedded parts with a field of the same name, generation with nested structs.")

prop("G11", "The Avro code written compiles and writes each value of a struct",
     "For every kind of property and every combination of nullable, required and of an object or array, for layouts of parts and for names which clash with those of Avro records: the Go written compiles together with the structs and the generated Avro packages. WriteAvroCF writes exactly one record with the value of every field of the struct and its embedded structs (null for a nil pointer, false for a nil boolean, times in milliseconds, the elements of lists which are not nil in their order), the write time given or else the current time and AvroDeleted false, to the writer given with the schema of the type, and flushes it; WriteAvroDeletedCF does the same with AvroDeleted true; a nil pointer is an error. The bulk writer does so for each item it receives in order, a nil item as a delete, and then flushes. A failure of making, writing or flushing is returned, or sent exactly once without waiting for a receiver, nothing is written after it, and the channel of errors is always closed.",
     ["inputs", "configurations", "fault_sequences"], "every combination of kind, nullable, required, place, layout of parts and settings; every failing step; fields nil or not",
     "The tests of the generated code write an empty struct; the code generated for a combination which is not in the stored outputs is never compiled.",
     ["generate/avro_helpers.go", "generate/avro_template.go", "generate/avro.go"],
     [("helpers", "generate/avro_helpers.go: buildAvroHelperFunctions, field mapping"), ("template", "generate/avro_template.go")],
     ["Go files written", "records given to the Avro container writer"],
     AI, "The generator is executed abstractly on each schema, the Go it writes is type checked with the structs and the packages gogen-avro makes of the schemas, and the methods written are executed abstractly on a struct with unknown values: with everything there, everything nil, every other field nil. The elements of arrays of objects are not nil, see the known finding.")

prop("G08", "Times and optional lists are converted to Avro without loss",
     "AvroTime gives the milliseconds since 1970 of any time; AvroOptionalTime does so for a time and 0 for nil; AvroTimeSlice converts every element in order; AvroOptionalTimeSlice converts the elements which are not nil in order.",
     ["inputs"], "every time, every list of up to four elements, nil or not",
     "The tests have some times of the present.",
     ["generate/avro_helpers.go", "generate/avro.go"],
     [("times", "generate: AvroTime, AvroOptionalTime, AvroTimeSlice, AvroOptionalTimeSlice")],
     ["results of the functions"],
     AI, "The functions are executed abstractly on unknown times; calls of package time are uninterpreted, UnixMilli is the only conversion known to be right for every time (Unix()*1000 plus Nanosecond()/1000000 is recognised too).")

na("S09", "Loading a schema with circular references ends",
   "Loading a schema whose references form a cycle ends with an error or a finite schema.",
   ["inputs"], "every set of files with cyclic references",
   ["jsonschema/reference.go"], [("references", "jsonschema/reference.go: dereference")],
   "The code documents (TODO in resolveRef) that circular references other than a file's reference to itself are not stopped, so the property does not hold and is not promised; termination of the expansion depends on the documents, which no static bound here reaches.")
na("T20", "Numbers keep their value through a conversion",
   "Converting a number between string, number and integer fields keeps its value, up to the documented rounding.",
   ["inputs"], "every number", ["transform/utils.go", "transform/operations.go"], [("conversion", "transform/utils.go: convert")],
   "A property of the numeric values computed by strconv and float64 arithmetic at run time; the static analysis here keeps numbers symbolic. The types of the results are decided by T09.")
na("T21", "XPath and JSONPath select the documented nodes",
   "The value found for a path is the one the JSONPath or XPath expression denotes.",
   ["inputs"], "every expression and document", ["transform/utils.go", "transform/instance.go"], [("selection", "jsonpath.EvalPath, xmlquery")],
   "Evaluation is done by the jsonpath and xmlquery libraries; what they select for an expression is a run time matter outside this repository. How the repository uses what they return is decided by T08, T10 and T11.")
na("T22", "removeHTML leaves only text",
   "The removeHTML operation returns its input without any markup.",
   ["inputs"], "every string", ["transform/operations.go"], [("removeHTML", "transform/operations.go")],
   "The sanitising is done by bluemonday on run time text; a static argument would have to verify that library's HTML tokenizer. T06 decides that the operation hands the string to it and returns what it gives back.")
na("G20", "Generated code compiles and round trips",
   "Generated Go structs and their MessagePack and Avro functions compile, and encoding then decoding gives the same value.",
   ["inputs"], "every schema", ["generate/struct.go", "generate/avro.go", "generate/avro_template.go"], [("templates", "generate: written text, text/template")],
   "That the Avro code compiles and hands the right record to the encoder is decided by G11. The round trip itself runs through code which msgp and gogen-avro generate, outside this repository; it can not be decided from the generator's source by a static analysis in reach.")
