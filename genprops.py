#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so the long texts stay editable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Verdicts agree with the JSON Schema drafts for any schema and instance",
 "For every schema that is well-formed in draft-04, draft-06, draft-07 or the documented hybrid of them, and every JSON instance, validation reports the instance valid exactly when the draft's semantics say so, for any nesting and combination of the supported validation keywords. Keywords that do not apply to the instance's type never influence the verdict, and annotations and unknown keywords are ignored.",
 ["inputs","configurations"],"all well-formed schemas of the selected draft (any combination and nesting of keywords, without infinitely recursive in-place references), all JSON instances, all four draft modes",
 "The bundled suite fixes a few hundred (schema, instance) pairs, nearly all with one or two keywords; interactions of keywords and nesting are unbounded.",
 ["schema.go","validation.go","subSchema.go","schemaType.go"],
 [("schema compilation into a tree","schema.go parseSchema"),("recursive evaluation","validation.go validateRecursive/validateSchema/validateCommon/validateArray/validateObject/validateString/validateNumber")],
 ["Schema.Validate","Result.Valid"])

p("C02","Numeric keywords are exact for arbitrary-precision numbers",
 "type integer/number, multipleOf, minimum, maximum and both exclusive bounds (boolean form in draft-04, numeric form from draft-06, either in hybrid mode) decide by the exact mathematical value of the JSON numbers involved. No rounding, overflow or spelling of the literal (1, 1.0, 10e-1, hundreds of digits, large or small exponents) changes a verdict, and non-numbers are never constrained by these keywords.",
 ["inputs","configurations"],"all JSON number literals as keyword values and instances with exponents up to a million in magnitude, all drafts",
 "Tests use a dozen small literals; rounding and overflow errors only show at specific magnitudes, digit counts or ties.",
 ["validation.go","schema.go","utils.go"],
 [("rational arithmetic","validation.go validateNumber; utils.go mustBeNumber, checkJSONInteger"),("bound parsing per draft","schema.go parseSchema exclusiveMinimum/exclusiveMaximum")],
 ["Schema.Validate","SchemaLoader.Compile"])

p("C03","const, enum and uniqueItems use JSON value equality",
 "An instance satisfies const or enum, and two array items count as duplicates for uniqueItems, exactly when the two JSON values are equal: same type; numbers equal in mathematical value whatever their spelling, sign of zero or precision; strings equal as code point sequences; arrays equal element by element in order; objects equal by key regardless of key order. Values of different JSON types are never equal (1, \"1\", true, [1], null and {} are all distinct).",
 ["inputs"],"all pairs of JSON values, including deeply nested ones, near-misses, re-spelled equal values, numbers beyond 2^53 and beyond the float64 range",
 "Equality over all value pairs is unbounded; tests compare a few small literals and never numbers beyond float64 precision.",
 ["utils.go","validation.go","schema.go"],
 [("canonical serialisation of values","utils.go marshalWithoutNumber"),("comparison","validation.go validateCommon (const, enum), validateArray (uniqueItems)")],
 ["Schema.Validate"])

p("C04","String keywords count code points and search the pattern",
 "minLength and maxLength compare the number of Unicode code points of the string (inclusively), never bytes or UTF-16 units; pattern is an unanchored search of the regular expression in the string. They never constrain non-string instances (including numbers).",
 ["inputs"],"all strings (any plane, control characters, combining characters, escapes), all bounds, all RE2 patterns",
 "Tests use short, mostly ASCII strings and a handful of patterns.",
 ["validation.go","schema.go"],
 [("rune counting and matching","validation.go validateString")],["Schema.Validate"])

p("C05","Array keywords constrain exactly the positions they describe",
 "items as one schema applies to every element, items as a list applies position by position with additionalItems governing exactly the elements beyond the list (and being ignored otherwise), minItems/maxItems are inclusive, uniqueItems rejects exactly arrays with two equal elements, and contains (draft-06 on) requires at least one matching element. Non-arrays are never constrained by them.",
 ["inputs","configurations"],"all array schemas and arrays, with every relation between the list length, array length and bounds",
 "Off-by-one and position errors appear only for particular length relations; tests fix a few lengths.",
 ["validation.go","schema.go"],[("array evaluation","validation.go validateArray"),("items parsing","schema.go parseSchema items/additionalItems/contains")],["Schema.Validate"])

p("C06","Object keywords constrain exactly the members they describe",
 "Each member is checked by the properties entry of its name and by every patternProperties entry whose pattern its name matches, additionalProperties governs exactly the members matched by neither, required/dependencies/minProperties/maxProperties count presence (inclusive bounds, a null value counts as present), propertyNames (draft-06 on) applies to every member name, and schema or array dependencies fire only when their trigger member is present. Member names are arbitrary strings, including names equal to schema keywords, and non-objects are never constrained.",
 ["inputs","configurations"],"all object schemas and objects over arbitrary member names",
 "The interplay of properties, patternProperties and additionalProperties and unusual member names is unbounded; tests fix a few.",
 ["validation.go","schema.go","schemaPool.go"],[("object evaluation","validation.go validateObject, validatePatternProperty, validateSchema (dependencies)"),("parsing","schema.go parseProperties, parseDependencies")],["Schema.Validate"])

p("C07","Combinators obey Boolean logic and are order-independent",
 "allOf, anyOf, oneOf and not hold exactly when all, at least one, exactly one, or none of their subschemas accept the instance; from draft-07 an instance accepted by if must be accepted by then and any other by else, then/else without if are inert; from draft-06 true accepts and false rejects everything. Consequently reordering subschemas never changes the verdict and the usual identities (double negation, De Morgan, absorption, if/then/else expansion) hold between equivalent schemas.",
 ["inputs","programs"],"all lists of subschemas (any length, duplicates, booleans, references, nested combinators) and all instances",
 "Algebraic identities quantify over all subschemas; tests evaluate a few fixed combinations.",
 ["validation.go","schema.go"],[("combinator evaluation","validation.go validateSchema")],["Schema.Validate"])

p("C08","In-document $ref resolves to the designated subschema and nothing else",
 "A $ref behaves exactly like the subschema it designates, found by JSON pointer (with ~ and percent escapes and array indexes), by the root, by a plain-name identifier or by an identifier of an embedded subschema, after resolving it against the base URI established by the enclosing identifiers. Validation keywords beside $ref are ignored, references may be recursive through child instances, member names that look like keywords and const/enum contents are never taken for references, and a reference that designates nothing makes compilation fail.",
 ["inputs","programs"],"all single-document reference graphs without infinite in-place recursion and with unique identifiers (written with the identifier keyword of the draft in force): pointer, plain-name, nested-identifier, relative and absolute forms, shared and mutually recursive targets, arbitrary key names",
 "The space of reference graphs, base URI nestings and escapings is unbounded, and compilation order (map iteration) differs between runs.",
 ["schemaPool.go","schema.go","schemaReferencePool.go"],[("reference absolutisation","schemaPool.go parseReferencesRecursive"),("lookup","schemaPool.go GetDocument"),("sharing","schemaReferencePool.go; schema.go parseReference")],["SchemaLoader.Compile","Schema.Validate"])

p("C09","Cross-document references are transparent however documents are supplied",
 "A reference to another document (registered under a URL, registered by its identifier, read from a file or custom file system, or fetched over HTTP) means the same as if the designated subschema had been written in place, independent of the order and way in which the documents were supplied and of the documents' own relative references. Registered documents and the built-in draft meta-schemas are used without any file or network access, and compiling through a reference loader for URL[#fragment] is equivalent to compiling {\"$ref\": URL[#fragment]}.",
 ["inputs","configurations","histories"],"all sets of mutually referencing documents with unique identifiers, all assignments of documents to supply channels, all registration orders",
 "Tests cover a handful of fixed two-document set-ups; the combination of channels, orders and reference forms is unbounded.",
 ["schemaPool.go","schemaLoader.go","jsonLoader.go"],[("document pool","schemaPool.go parseReferences, GetDocument"),("registration","schemaLoader.go AddSchema, AddSchemas, Compile"),("retrieval","jsonLoader.go LoadJSON")],["SchemaLoader.AddSchema","SchemaLoader.AddSchemas","SchemaLoader.Compile","Schema.Validate"])

p("C10","The draft in force decides every keyword's meaning",
 "With auto-detection on, each document is interpreted in the draft named by its own $schema; a root document that names none of the supported drafts is interpreted in the loader's configured draft (hybrid by default), a referenced document that names none in the draft of the schema that refers to it. This holds across references between documents of different drafts; with auto-detection off, every document, however loaded, is interpreted in the configured draft whatever its $schema says. Keywords unknown to the draft in force (const, contains and propertyNames before draft-06; if/then/else before draft-07) have no effect even when malformed, and exclusiveMinimum/exclusiveMaximum take the form that draft prescribes, and boolean schemas are accepted from draft-06 on and rejected before.",
 ["configurations","inputs"],"all combinations of AutoDetect, Draft, per-document $schema (present, absent, with or without trailing #) and reference structure, over schemas using draft-sensitive keywords",
 "The cross product of loader settings, documents and keywords is large; tests cover one cross-draft pair and one detection case.",
 ["draft.go","schemaLoader.go","schemaPool.go","schema.go"],[("detection","draft.go parseSchemaURL"),("propagation","schemaPool.go parseReferences/GetDocument; schemaLoader.go Compile; schema.go parseReference")],["SchemaLoader.Compile","Schema.Validate"])

p("C11","Ill-formed schemas are rejected at compile time, well-formed ones accepted",
 "If any subschema that takes part in compilation gives a keyword of the draft in force a value of the wrong kind or range (wrong JSON type, unknown or duplicate type name, negative or fractional count, minLength above maxLength or minProperties above maxProperties, non-positive multipleOf, invalid regular expression, duplicate required or enum entry, boolean exclusive bound without its bound, non-schema where a schema is required, and an unparsable or unresolvable $ref), compilation returns an error with a completely filled-in text and no schema, wherever in the schema it occurs. A schema in which every keyword value is well-formed compiles.",
 ["inputs","configurations"],"all well-formed schemas, and each of them with one keyword value anywhere (also behind references and in definitions) replaced by an ill-formed one, in all drafts",
 "Tests check one or two ill-formed keywords at the top level; each keyword, value kind and location is a separate path.",
 ["schema.go","schemaType.go","utils.go"],[("keyword checks","schema.go parseSchema, parseProperties, parseDependencies, parseReference; schemaType.go Add; utils.go mustBeInteger, mustBeNumber")],["SchemaLoader.Compile","NewSchema"])

p("C12","Meta-schema validation accepts exactly what the meta-schema accepts",
 "With the loader's Validate setting on, adding or compiling a schema fails if the schema violates its meta-schema (the one named by $schema, custom ones included; otherwise, or with auto-detection off, that of the configured draft; none in hybrid mode) or that meta-schema cannot be loaded, and otherwise succeeds exactly when it would with the setting off. This holds for every operation in a loader's history: earlier successes, failures or unavailable meta-schemas never switch validation off, change the setting, or affect how references of the schema are loaded or what it means.",
 ["inputs","histories","configurations"],"all schemas (valid and invalid against the meta-schema in any nested position), all drafts and custom meta-schemas, all sequences of add/compile calls on one loader",
 "Tests cover one custom meta-schema and valid suite schemas; invalid schemas and call histories are not explored.",
 ["schemaLoader.go","draft.go"],[("meta-schema selection and check","schemaLoader.go validateMetaschema"),("bundled meta-schemas","draft.go")],["SchemaLoader.AddSchema","SchemaLoader.AddSchemas","SchemaLoader.Compile"])

p("C13","No input can crash the library",
 "For any bytes offered as schema and any bytes offered as document, through any loader, compiling and validating return a result or an error: they never panic, abort the process or loop forever, as long as the schema contains no infinitely recursive in-place references. Text that does not start with a complete JSON value is answered with an error, never with a verdict.",
 ["inputs"],"all byte strings and all JSON values as schema and as instance, including ill-typed keyword values anywhere, extreme numbers, deep nesting and odd reference strings",
 "Crashes hide behind specific ill-typed values or extreme literals; tests only feed sensible inputs.",
 ["schema.go","validation.go","utils.go","schemaPool.go","draft.go","jsonLoader.go"],[("type checks before conversion","schema.go, utils.go isKind/mustBeInteger/mustBeNumber"),("decoding","jsonLoader.go decodeJSONUsingNumber")],["NewSchema","Validate","SchemaLoader.*"])

p("C14","All loaders are equivalent for the same JSON value",
 "The same JSON text supplied as string, bytes, reader, writer, decoded value, file, custom file system or HTTP resource, and the Go value that marshals to it, yields the same compilation outcome, verdict and errors, whether used as schema or as document, with numbers kept exact and any legal file name (spaces, plus signs, percent signs, non-ASCII) reachable through its escaped file URL. Reader and writer loaders pass the data through unchanged, and loading never modifies the caller's bytes or Go values.",
 ["inputs","configurations"],"all JSON values and all pairs of loader kinds, all chunkings of reader/writer traffic, all file names",
 "Tests try three loaders on one schema and one file name with a space.",
 ["jsonLoader.go"],[("loader implementations","jsonLoader.go"),("number-preserving decoding","jsonLoader.go decodeJSONUsingNumber")],["JSONLoader.LoadJSON","Validate","NewSchema"])

p("C15","Reported errors are complete, real and correctly located",
 "A result is valid exactly when it lists no errors; otherwise every violated constraint that is not hidden by a failed type check or by an alternative of anyOf/oneOf/contains is reported once (uniqueItems: once for every element equal to an earlier one), with the documented error type, the path of the offending instance location and the offending value. Nothing is reported that is not an actual violation at that location (beyond, for a failed anyOf, oneOf or contains, errors of alternatives that were tried: those of at least one of them are reported in full).",
 ["inputs"],"all schemas and instances; every reported error and every violated constraint",
 "Tests assert the text of one error and the count of a few; location and completeness over nested instances are never examined.",
 ["validation.go","result.go","jsonContext.go","errors.go"],[("error collection","validation.go; result.go addInternalError, mergeErrors"),("paths","jsonContext.go")],["Result.Errors","Result.Valid","ResultError.Context/Type/Value"])

p("C16","Error metadata, rendering, localisation and added errors are consistent",
 "For every reported error: Field() is the dotted path without the root prefix, Details() carries field, context and the documented details of that error type with correct values, DescriptionFormat() is the active locale's template for that type, Description() is that template rendered with Details() and the custom template functions, and String() renders the locale's overall format. Errors added by the caller are appended with their rendered description, make the result invalid, and affect no other result.",
 ["inputs","configurations","histories"],"all errors of all validations, all locales and template functions, all sequences of added errors",
 "Tests check one message; each error type, detail and locale switch is separate.",
 ["errors.go","result.go","locales.go","jsonContext.go"],[("error construction","errors.go newError, formatErrorDescription"),("accessors","result.go"),("templates","locales.go")],["ResultError.*","Result.AddError"])

p("C17","Validation is a pure function of schema and document",
 "Validating the same document with the same schema always yields the same verdict and the same collection of errors, no matter how often, in which order or interleaved with which other compilations, validations, failures or uses of the loader it is run, and no matter whether the schema was compiled afresh or reused. Validation never modifies the document, the schema or any earlier result.",
 ["histories","inputs"],"all histories of compile/validate/add operations over several schemas, documents and loaders",
 "Hidden state shows only after particular histories or map iteration orders; tests validate a fresh schema once or twice.",
 ["validation.go","schema.go","result.go","errors.go","schemaReferencePool.go"],[("stateless evaluation over an immutable tree","validation.go"),("per-compile reference pool","schemaLoader.go Compile"),("template cache","errors.go")],["Schema.Validate","Result.Errors"])

p("C18","A compiled schema can be shared by concurrent goroutines",
 "Any number of goroutines may validate with the same compiled schema (the same document or loader of text included), compile with separate loaders, read error reports, and add, remove or query custom formats at the same time: there is no data race or crash, and each validation yields exactly the verdict and errors it yields when run alone.",
 ["schedules","inputs"],"all interleavings of concurrent validations, independent compilations, error rendering and format registry operations over arbitrary schemas and documents",
 "The test suite is single-threaded.",
 ["validation.go","errors.go","format_checkers.go"],[("read-only schema tree","subSchema.go"),("template cache lock","errors.go errorTemplates"),("format registry lock","format_checkers.go lock")],["Schema.Validate","FormatCheckers","NewSchema"])

p("C19","Built-in formats accept and reject what they document",
 "date, time, date-time, hostname, email, ipv4, ipv6, uri, uri-reference (and their international variants), uri-template, uuid, regex, json-pointer and relative-json-pointer accept every string that is unambiguously well-formed for the documented grammar and reject every string that is unambiguously ill-formed (calendar and range checks, label and address lengths, character classes, escapes included; for email and the URI family within the documented leniency of Go's parsers; leap seconds, lowercase t and z, year 0000, fractions beyond nine digits, leading zeros in IPv4 and IPv6 zones are left open). Built-in formats never constrain non-string instances.",
 ["inputs"],"all strings, generated constructively from each grammar and by single-edit corruption of well-formed ones",
 "Tests hold a few examples per format.",
 ["format_checkers.go"],[("checkers","format_checkers.go IsFormat methods and regular expressions")],["FormatCheckers.IsFormat","Schema.Validate"])

p("C20","The format registry behaves as a name-to-checker map",
 "After any sequence of additions, replacements and removals, Has and IsFormat and the validation of schemas (also ones compiled earlier) reflect exactly the latest registration of each name, case-sensitively; names without a registered checker accept everything. A registered custom checker is consulted for instances of every JSON type with the instance value, and its answer alone decides the format keyword.",
 ["histories","inputs"],"all sequences of Add/Remove/Has/IsFormat/compile/validate over custom and built-in names, and instances of all types",
 "Tests add five checkers once and remove them.",
 ["format_checkers.go","validation.go"],[("registry","format_checkers.go Add/Remove/Has/IsFormat"),("use","validation.go validateCommon format")],["FormatCheckers","Schema.Validate"])

p("C21","Loading failures surface as errors and leak nothing",
 "If a schema or document that is needed cannot be opened, read completely, fetched with HTTP status 200 or decoded as JSON, the operation returns an error and no schema or result; a fault in documents that are not needed has no effect. Every file or response body that was opened is closed whatever the outcome, and once the fault is gone a retry (by URL on the same loader, or on a fresh one) succeeds with the same meaning as if it had never happened.",
 ["fault_sequences","inputs"],"all placements of open, read, transport, status and content faults over the retrievals of a compilation or validation",
 "Tests never inject a fault.",
 ["jsonLoader.go","schemaPool.go","schemaLoader.go"],[("error propagation and closing","jsonLoader.go LoadJSON, loadFromFile, loadFromHTTP"),("no caching of failed loads","schemaPool.go GetDocument")],["SchemaLoader.Compile","Schema.Validate","http.FileSystem","http transport"])

p("C22","The schema registry keeps one schema per URL through any history",
 "Across any sequence of AddSchema, AddSchemas and Compile calls on a loader, registering a URL or root identifier that is already taken is refused with an error and the first registration keeps its meaning, as is registering text that is no JSON or under a text that is no URL, which leaves nothing behind; distinct URLs never interfere. Schemas compiled earlier keep their meaning whatever is added later, schemas compiled later see everything added so far, and separate loaders share nothing: a document a loader fetches on demand has the content that is served at that time.",
 ["histories","inputs"],"all sequences of registrations (fresh, duplicate by URL, by root identifier or mixed), compilations by URL, at most one compilation of a schema without URL per loader, and validations, on several loaders",
 "Tests check one duplicate pair.",
 ["schemaLoader.go","schemaPool.go"],[("registry","schemaPool.go parseReferences, parseReferencesRecursive, GetDocument"),("loader operations","schemaLoader.go")],["SchemaLoader.AddSchema","SchemaLoader.AddSchemas","SchemaLoader.Compile"])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
