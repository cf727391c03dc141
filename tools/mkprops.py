#!/usr/bin/env python3
# Source of properties.jsonl (kept as code so the list is easy to edit): python3 tools/mkprops.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Marker arguments mean exactly what was written",
 "Parsing a marker whose arguments are written in the documented syntax (bare, double-quoted or back-quoted strings, decimal integers and numbers, booleans, `;`-separated or `{}`-delimited lists, `{k:v}` maps, `name=value` arguments separated by commas) yields exactly the written values in the fields of those names, whatever the values and whatever the order of the named arguments. An integer that does not fit the argument's type is an error, never a different number.",
 ["inputs"],"all string contents, integers, booleans, list and map contents and argument orders, for every argument type the registry accepts",
 "The parser tests feed a few dozen literal marker strings; they cannot cover every byte sequence between delimiters, every integer, or every argument order.",
 ["pkg/markers/parse.go"],
 [("scanner-based argument parser","pkg/markers/parse.go: Argument.parse, parseString, parseSlice, parseMap, guessType"),("definition parser","pkg/markers/parse.go: Definition.Parse")],
 observe=["markers.Definition.Parse result"])

p("C02","Malformed markers are reported, never crash or half-apply",
 "For every comment text, parsing a recognised marker terminates without panicking and gives either a complete value or an error. It is an error whenever a required argument is missing, an argument name is unknown, a value does not have the declared type, or text is left over after the last argument; an optional argument that is absent leaves its field untouched.",
 ["inputs"],"every byte sequence after the marker name, for every argument signature",
 "Totality and rejection are statements about all byte strings; the tests hold a handful of malformed inputs.",
 ["pkg/markers/parse.go","pkg/markers/reg.go"],
 [("error collection through the scanner","pkg/markers/parse.go: parserScanner, ScannerError"),("seen-set and required check","pkg/markers/parse.go: Definition.Parse"),("name splitting","pkg/markers/parse.go: splitMarker")],
 observe=["markers.Definition.Parse error"])

p("C03","A marker resolves to the right definition for its target",
 "Looking a marker up yields a definition registered under exactly that marker's name and for the kind of node asked for (package, type or field), preferring a definition whose name is the longer, anonymous-argument reading when both readings are registered, and yields nothing when neither is registered. Which definitions are registered for other targets, or the order of registration, never changes the answer.",
 ["inputs","configurations"],"all marker texts and all sets of registered definitions",
 "Tests look up a few names in one registry.",
 ["pkg/markers/reg.go","pkg/markers/parse.go"],
 [("per-target tables","pkg/markers/reg.go: Registry"),("name splitting and anonymous preference","pkg/markers/reg.go: Lookup, tryAnonLookup; pkg/markers/parse.go: splitMarker")],
 observe=["markers.Registry.Lookup"])

p("C04","Every marker comment is attached to exactly the declaration it precedes",
 "A marker in the doc comment of a type, struct field or interface method, or in the comment group directly before that doc comment and separated from it only by blank lines, is attached to that declaration and to no other (one that is registered only for packages and stands in the group before a type goes to the package). A marker in a top-level comment group that is neither a doc comment nor the last group before a declaration is a package-level marker. Markers in the doc comments of other declarations, in end-of-line comments and in comments of a body that precede no field attach to nothing. No marker is dropped, duplicated or handed to a neighbouring declaration, wherever the comments are placed.",
 ["programs"],"all layouts of comment groups, type declarations (grouped or not), fields and blank lines in a file",
 "The tests use one fixture file; association depends on the relative positions of every comment and declaration.",
 ["pkg/markers/collect.go"],
 [("position-driven visitor","pkg/markers/collect.go: markerVisitor, markerSubVisitor.Visit"),("file association","pkg/markers/collect.go: associateFileMarkers, parseMarkersInPackage")],
 observe=["markers.Collector.MarkersInPackage"])

p("C05","Descriptions hold the documentation and nothing else",
 "The documentation extracted for a type or field consists of the text lines of its doc comment in order, joined into paragraphs, without marker lines and without the comment delimiters; lines that start with TODO are left out and a `---` line ends the text. No character of a kept line's text is lost and no marker text leaks into the description.",
 ["inputs"],"all doc comments: any number of lines, any text per line, line and block comments",
 "Tests look at the golden descriptions of one fixture.",
 ["pkg/markers/zip.go"],
 [("doc extraction","pkg/markers/zip.go: extractDoc")],observe=["markers.TypeInfo.Doc, FieldInfo.Doc"])

p("C06","Validation markers set exactly their constraint, only where it applies",
 "Applying a validation or topology marker to a schema either reports an error and leaves the schema as it was, or sets exactly the constraint the marker names to exactly the marker's value and changes nothing else. It is an error exactly when the constraint has no meaning for the schema's type (numeric bounds on non-numbers, length and pattern on neither strings nor int-or-string values, item counts on non-arrays, property counts on non-objects, list, map or struct topology on the wrong kind, a list map key on a list that is not a map, fractional bounds on integers) or the value is not one the API accepts (an unknown list, map or struct topology or validation-rule reason, a title that is no string).",
 ["inputs"],"all marker values (numbers, strings, JSON values) crossed with all schema types and prior constraints",
 "Golden-file tests apply each marker at most once or twice with one literal value to a field of the right type.",
 ["pkg/crd/markers/validation.go","pkg/crd/markers/topology.go"],
 [("per-marker application","pkg/crd/markers/validation.go: ApplyToSchema methods"),("topology markers","pkg/crd/markers/topology.go: ApplyToSchema methods")],
 observe=["apiextensions JSONSchemaProps after ApplyToSchema"])

p("C07","The set of markers on a field, not their order, decides its schema",
 "For a given set of markers on a type or field, the resulting schema and the set of reported errors are the same however the markers are enumerated: type overrides take effect before the markers that depend on them, and repeated markers keep their source order. In particular two runs of the generator on the same sources agree.",
 ["schedules","inputs"],"all enumeration orders of the marker set, for all combinations of markers",
 "Go randomises map iteration; a test sees one order per run.",
 ["pkg/crd/schema.go","pkg/crd/markers/priority.go"],
 [("priority-sorted application","pkg/crd/schema.go: applyMarkers"),("priorities","pkg/crd/markers/priority.go")],observe=["crd.Parser schemata"])

p("C08","Struct fields become properties under their JSON names, correctly required",
 "In a struct's schema the properties are exactly the exported-to-JSON fields under their JSON names (fields tagged `-` are absent, inline fields contribute their type's schema instead, a field with no JSON tag is an error), each with the schema of its type and markers. With ignoreUnexportedFields, unexported fields are left out as well. A property is listed as required exactly when an explicit required or optional marker says so, else when the package default says so, else when it lacks `omitempty`, with the kubebuilder-prefixed markers taking precedence.",
 ["programs","configurations"],"all combinations of JSON tag (name, omitempty, inline, '-'), optional/required markers at field and package level",
 "The golden test has one CRD whose fields cover a few of the combinations.",
 ["pkg/crd/schema.go"],[("struct conversion","pkg/crd/schema.go: structToSchema")],observe=["Properties, Required, AllOf of the generated schema"])

p("C09","Go types map to the JSON schema their encoding has",
 "Every Go type that the API conventions allow becomes the schema of its JSON encoding: booleans, strings, integers (with format int32 or int64 where the type is of that width), slices of bytes (and of named byte types) as base64 strings, slices and arrays as arrays of the element's schema, string-keyed maps as objects of the value's schema, pointers as what they point to, named types as a reference to that type. Types with no such encoding (floats unless allowed, complex numbers, unsafe pointers, channels, functions, anonymous structs, non-string map keys, interfaces) are reported as errors, never mapped to some schema silently.",
 ["programs","configurations"],"all type expressions over the builtin kinds, pointers, slices, arrays, maps and named types up to a nesting depth",
 "The golden test samples a few type shapes.",
 ["pkg/crd/schema.go"],[("type conversion","pkg/crd/schema.go: typeToSchema, localNamedToSchema, arrayToSchema, mapToSchema, builtinToType")],observe=["schema of a field"])

p("C10","Collapsing allOf keeps every constraint",
 "Flattening a schema's allOf branches into one schema never loosens, tightens or invents a constraint: every property, required name, type, bound, pattern, enum, list topology, validation rule and preserve-unknown-fields flag of the schema and of every branch is present in the result, either merged or kept in a remaining allOf branch. An exclusive flag stays with the bound it belongs to. Where branches say different things of which a schema can express only one, either both stay (one of them in allOf), or the conflict is reported (different types), or, for the topology of lists and maps, the value that remains is one of those given, the referring field's winning over the referenced type's.",
 ["inputs"],"all schemas whose fields are set to any values, with up to a few allOf branches, nested",
 "The table test has a dozen hand-written pairs; the merge is reflective over all ~45 schema fields.",
 ["pkg/crd/flatten.go"],[("allOf flattening","pkg/crd/flatten.go: flattenAllOfInto, FlattenEmbedded")],observe=["crd.FlattenEmbedded result"])

p("C11","Flattened CRD schemas are self-contained and sources stay untouched",
 "After flattening, a CRD schema contains no reference to another type: each reference is replaced by that type's own flattened schema combined with whatever the referring field adds, with field-level description winning over the type's. Flattening never modifies the schemata it reads, so the result for one type does not depend on which types were flattened before it.",
 ["programs","histories"],"all acyclic reference graphs over a few types with any decoration at each reference, and all orders of flattening them",
 "One golden CRD, flattened once in one order.",
 ["pkg/crd/flatten.go","pkg/crd/schema.go"],[("reference flattening","pkg/crd/flatten.go: Flattener.FlattenType, FlattenSchema, flattenVisitor"),("reference links","pkg/crd/schema.go: TypeRefLink; pkg/crd/flatten.go: RefParts")],observe=["Flattener.FlattenType result and cached schemata"])

p("C12","A CRD has the right identity, versions and per-version settings",
 "The CRD made for a group and kind is named `<plural>.<group>`, carries the kind's names and scope, and has exactly one entry per package of the group that declares the kind and does not skip it, sorted by version name, each with that version's schema. Storage, served, deprecation, print-column, scale, status and selectable-field markers change only the version whose type carries them; resource and metadata markers only the CRD-level fields they name; a lone version is the storage version. If no version remains there is no CRD; it is an error if the remaining versions include no storage version or no served version, or if a metadata marker gives an annotation or label that is not of the form key=value.",
 ["programs","configurations"],"all sets of package versions and all placements of version and resource markers with any argument values",
 "The golden tests have one- and two-version kinds with one placement of markers.",
 ["pkg/crd/spec.go","pkg/crd/markers/crd.go"],[("CRD assembly","pkg/crd/spec.go: NeedCRDFor"),("spec markers","pkg/crd/markers/crd.go: ApplyToCRD methods")],observe=["Parser.CustomResourceDefinitions"])

p("C13","The same sources always give the same CRD",
 "The CRD generated for a kind, and whether generation reports errors, is a function of the sources and options alone: it does not depend on the order in which packages, types or markers happen to be enumerated or in which kinds are requested.",
 ["schedules","histories"],"all enumeration orders of packages and of the marker sets of each type; all request orders",
 "Map iteration order is random per run and a test sees one sample of it.",
 ["pkg/crd/spec.go","pkg/crd/gen.go"],[("ordering of versions and markers","pkg/crd/spec.go: NeedCRDFor"),("kind discovery","pkg/crd/gen.go: FindKubeKinds")],observe=["Parser.CustomResourceDefinitions, package errors"])

p("C14","Shortening descriptions only ever shortens descriptions",
 "With a maximum description length n > 0 every description anywhere in a schema that is longer than n is replaced by a prefix of itself of at most n bytes that never ends inside a character, ended at a sentence boundary if there is one, else at white space or as far as fits, with `...` appended to that prefix; descriptions of at most n bytes are unchanged. A length of 0 removes every description and a negative one keeps all, and nothing but descriptions changes in any nested schema.",
 ["inputs"],"all description texts, all maximum lengths, all nestings of a schema",
 "Tests check six literal descriptions on a flat schema.",
 ["pkg/crd/desc_visitor.go","pkg/crd/schema_visitor.go"],[("truncation","pkg/crd/desc_visitor.go: truncateString, descVisitor"),("schema walk","pkg/crd/schema_visitor.go: EditSchema")],observe=["crd.TruncateDescription"])

p("C15","RBAC roles grant exactly the permissions the markers ask for",
 "The roles generated from a package's rbac markers grant a (verb, group, resource, resource name) or (verb, non-resource URL) permission in a namespace, or cluster-wide, exactly when some marker of that scope grants it: none is lost and none is added by merging, sorting or deduplicating rules. Rules of one namespace or of the cluster never leak into another.",
 ["inputs","schedules"],"all sets of up to a few rbac markers with any groups, resources, names, URLs, verbs and namespaces, and all rule enumeration orders",
 "The golden test has one set of markers; merging depends on which keys coincide and on map iteration order.",
 ["pkg/rbac/parser.go"],[("normalisation","pkg/rbac/parser.go: GenerateRoles, NormalizeRules, Rule.keyWithout*, addVerbs")],observe=["roles returned by rbac.GenerateRoles"])

p("C16","RBAC output is canonical",
 "The generated roles are independent of the order of the rbac markers, of the order of values inside a marker and of repetitions: rules and the verbs, groups, resources and URLs inside them come sorted and without duplicates (a `*` verb standing alone), the core group is written as the empty string, and there is one cluster role followed by one role per namespace in order. Reordering or repeating the markers, or running the generator again, gives the same roles.",
 ["inputs","schedules"],"all permutations and repetitions of marker sets; all map enumeration orders",
 "Tests run one order.",
 ["pkg/rbac/parser.go"],[("sorting and dedup","pkg/rbac/parser.go: GenerateRoles, Rule.key, removeDupAndSort")],observe=["rbac.GenerateRoles"])

p("C17","Webhook manifests carry exactly what each marker says",
 "Every valid webhook marker yields exactly one webhook in the configuration of its kind (mutating or validating), with the marker's name, groups (`core` being the empty group), versions, resources, verbs mapped to operations, path and service or URL, failure, match, side-effect and (for mutating webhooks) reinvocation policy, timeout and review versions, defaults for what it leaves out, and nothing taken from another marker. Verbs and policies are recognised regardless of case; unknown verbs and failure policies are passed on as written. The webhooks of each package are sorted by name, whatever the order of the markers, packages in the order given; a configuration has the name the last package's configuration marker gives it, and a second configuration marker of a kind in one package is an error.",
 ["inputs","schedules"],"all marker field values; all sets and orders of up to a few markers",
 "The golden tests have a few fixed markers.",
 ["pkg/webhook/parser.go"],[("conversion","pkg/webhook/parser.go: Config.ToMutatingWebhook, ToValidatingWebhook, rules, clientConfig, *Policy, sideEffects, timeoutSeconds"),("assembly","pkg/webhook/parser.go: Generator.Generate")],observe=["generated webhook configurations"])

p("C18","Invalid webhook markers are rejected",
 "A webhook marker is rejected with an error, and no manifest is written in some adjusted form, exactly when it gives both or neither of path and URL, a side-effect class other than None or NoneOnDryRun, a timeout outside 0 (none) to 30 seconds, an unknown match policy, an unknown reinvocation policy on a mutating webhook, no admission review version, an unsupported configuration version, or lacks a required argument. Policy names are recognised regardless of case.",
 ["inputs"],"all values of every marker field including every 64-bit timeout and every policy string",
 "Tests try a few invalid markers.",
 ["pkg/webhook/parser.go"],[("checks","pkg/webhook/parser.go: clientConfig, sideEffects, timeoutSeconds, failurePolicy, matchPolicy, reinvocationPolicy, webhookVersions")],observe=["errors of webhook generation"])

p("C19","Generated DeepCopy makes equal, fully independent copies",
 "For every type that the generator accepts and whose structs have (or get) copy methods, the generated code compiles, the generated DeepCopyInto and DeepCopy produce a value equal to the original (same nil-ness, lengths and contents at every level) that shares no mutable memory with it, do not modify or panic on the original whatever combination of its pointers, slices and maps is nil or empty, and use a type's own DeepCopy methods where they exist. DeepCopy of a nil pointer is nil. A type that cannot be copied this way (one with interfaces, functions, channels, arrays, unsafe pointers, or maps with keys that hold pointers) is reported as an error and never copied shallowly.",
 ["programs","inputs"],"a grammar of type shapes up to a nesting depth, and for each all values up to small container sizes",
 "Golden tests compare generated text for one fixture and never run it.",
 ["pkg/deepcopy/traverse.go","pkg/deepcopy/gen.go"],[("code generation","pkg/deepcopy/traverse.go: copyMethodMaker"),("shallow-copy test","pkg/deepcopy/traverse.go: fineToShallowCopy")],observe=["the generated Go code, executed symbolically"])

p("C20","YAML edits change the addressed node and nothing else",
 "Setting a node at a path makes that path read back as the new node, deleting makes it absent, and neither changes what any other path reads, the order of other keys or their comments; deleting an absent path changes nothing and a path through a non-mapping is an error. Converting a value to a YAML tree and back gives the same value, also after it was written as text in the default style (what YAML cannot hold is an error).",
 ["inputs","histories"],"all small YAML documents, all paths and all sequences of a few operations",
 "No unit test covers the node editor on its own.",
 ["pkg/schemapatcher/internal/yaml/nested.go","pkg/schemapatcher/internal/yaml/set.go","pkg/schemapatcher/internal/yaml/convert.go"],[("node editor","pkg/schemapatcher/internal/yaml: GetNode, SetNode, DeleteNode, ValueInMapping, ToYAML, SetStyle")],observe=["yaml.Node trees"])

p("C21","Schema patching touches only schemas",
 "Patching an existing CRD manifest replaces the validation schema of exactly those versions whose Go types were loaded, by the generated schema (as Kubernetes' own YAML readers understand it), removes the schema of the other versions of a kind that has some loaded version, and leaves every other part of the document, every other document of the file, and the manifests of kinds without any loaded version as they were. Every CRD manifest of the directory is written exactly once, in an order that does not vary. A manifest that cannot be patched is reported, and then nothing is written.",
 ["inputs","configurations"],"all small CRD documents (versions, schema presence, order) and all sets of newly generated schemas",
 "The golden tests have a few fixed manifests.",
 ["pkg/schemapatcher/gen.go"],[("patching","pkg/schemapatcher/gen.go: partialCRDSet.setVersionedSchemata, partialCRD")],observe=["patched YAML tree"])

p("C22","Command-line options build the run they describe",
 "Each generator named on the command line is run once with exactly the options given to it; each output rule is bound to the generator it names, or is the default, and every generator's artifacts go to its own rule if it has one, else the default rule, else its own directory under `config`. Unknown option names are errors.",
 ["inputs","configurations"],"all sequences of up to a few option strings over the generator, output-rule, path and option forms",
 "The CLI tests run a handful of command lines.",
 ["pkg/genall/options.go","pkg/genall/output.go","pkg/genall/genall.go"],[("option parsing","pkg/genall/options.go: FromOptions, protoFromOptions, splitOutputRuleOption"),("routing","pkg/genall/output.go: OutputRules.ForGenerator")],observe=["genall.Runtime built by FromOptions"])

p("C23","No failure is swallowed",
 "A run reports failure exactly when a generator returned an error, an artifact could not be opened or written, or a package has errors the generators do not declare filtered; and a write error is returned by the generator that hit it instead of being dropped. Every other generator still runs, and what is written without a fault is what the generator produced, in full.",
 ["fault_sequences"],"every subset of failing generators, opens and writes, and every combination of package errors",
 "Tests never inject a failing writer or opener.",
 ["pkg/genall/genall.go","pkg/genall/output.go","pkg/loader/loader.go","pkg/crd/gen.go","pkg/rbac/parser.go","pkg/webhook/parser.go"],[("run loop","pkg/genall/genall.go: Runtime.Run"),("YAML output","pkg/genall/genall.go: GenerationContext.WriteYAML"),("error list","pkg/loader/errors.go; pkg/loader/loader.go: PrintErrors")],observe=["Runtime.Run result, Generate errors"])

p("C24","Type references resolve to the type they name",
 "The link made for a reference to a type in any package, decoded again, names the same package and type; links of different types differ; and the path of a vendored package is reported as the path it is imported by.",
 ["inputs"],"all package paths and type names",
 "Tests use a few import paths without special characters.",
 ["pkg/crd/schema.go","pkg/crd/flatten.go","pkg/loader/paths.go"],[("links","pkg/crd/schema.go: TypeRefLink; pkg/crd/flatten.go: RefParts, identFromRef"),("vendor prefix","pkg/loader/paths.go: NonVendorPath")],observe=["TypeRefLink / RefParts"])

p("C25","Generated code never refers to the wrong import",
 "In generated deepcopy code every imported package has a local name that is a valid identifier, is different from those of all other imported packages, hides nothing the generated code uses (predeclared names, its own variables), is declared by nothing in the package, and is used consistently; exactly the packages that the code uses are imported. So what is generated compiles, whatever the paths of the packages are whose types it names.",
 ["inputs"],"all short path elements over letters, digits and punctuation, and all pairs of paths that end in words with a meaning in Go or in generated code",
 "The deepcopy golden test needs a handful of imports without collisions.",
 ["pkg/deepcopy/traverse.go","pkg/deepcopy/gen.go"],[("import table","pkg/deepcopy/traverse.go: importsList.NeedImport, ImportSpecs"),("naming","pkg/deepcopy/traverse.go: namingInfo.Syntax")],observe=["generated files, type-checked"])

p("C26","Deepcopy code is generated for exactly what is asked for",
 "DeepCopy and DeepCopyInto are generated for exactly those exported struct, map, slice and similarly derived types that a package or type marker (current or legacy form; a type's marker wins over its package's, the current form over the legacy one) asks for or that are marked as objects, DeepCopyObject for exactly those of them marked as objects, and a method the type has already is not generated again. The file starts with the header given, in which the year is filled in; a header that cannot be read is an error.",
 ["inputs","configurations"],"all combinations of package markers, type markers, object markers, kinds of type and existing methods",
 "The golden tests have one package.",
 ["pkg/deepcopy/gen.go","pkg/deepcopy/traverse.go"],[("selection","pkg/deepcopy/gen.go: enabledOnPackage, enabledOnType, genObjectInterface, Generate; pkg/deepcopy/traverse.go: shouldBeCopied, GenerateMethodsFor")],observe=["generated files"])
p("C27","Every artifact ends up in its own place, complete",
 "The CRD generator writes exactly one file per kind and CRD version (`<group>_<plural>.yaml`, with the CRD version added for all but the first), and each of the generators of configuration starts its file with the header given, in which the year is filled in, followed by exactly its objects, without status and creation timestamps; nothing is written where nothing is declared, and a header that cannot be read is an error. The rule for a directory puts every artifact below that directory under its own name; the rule for artifacts puts generated code next to the sources of its package (or into the directory for code, if one is given) and everything else into the directory for configuration. Missing directories are made, what a file held before is replaced as a whole, and no other file changes.",
 ["inputs","configurations"],"groups, plural names, header texts, file names, output rules and what the directories hold already",
 "The golden tests compare single files and never write to disk.",
 ["pkg/crd/gen.go","pkg/genall/output.go","pkg/genall/genall.go","pkg/rbac/parser.go","pkg/webhook/parser.go"],[("files","pkg/crd/gen.go: Generate; pkg/genall/output.go: OutputToDirectory.Open, OutputArtifacts.Open; pkg/genall/genall.go: WriteYAML; pkg/rbac/parser.go, pkg/webhook/parser.go: Generate")],observe=["generated files"])

p("C28","Partial type checking does not show",
 "Type checking that follows only the references a generator finds interesting gives every interesting reference (the CRD generator: in fields with a JSON tag; the deepcopy generator: outside of interfaces) the type it names, however the package is imported (under its name, whatever its path says, another name, a dot; in one file or another) and wherever in the type the reference stands; a type is one and the same wherever it is used. Packages that only uninteresting references lead to are not type-checked, no error is reported for sources without mistakes, and a reference to a package that the file does not import is an error.",
 ["inputs","configurations"],"all ways to import and refer, all struct tags and names, all small package graphs",
 "Tests load whole test projects, in which one style is used throughout.",
 ["pkg/loader/refs.go","pkg/loader/visit.go","pkg/loader/loader.go","pkg/crd/gen.go","pkg/deepcopy/gen.go"],[("references","pkg/loader/refs.go: mapImports, allReferencedPackages, TypeChecker.check"),("filters","pkg/crd/gen.go: filterTypesForCRDs; pkg/loader/visit.go: ParseAstTag")],observe=["Package.TypesInfo, Package.Errors"])

p("C29","The packages named are the packages processed",
 "Loading roots gives exactly the packages they name, each once: a directory (relative to the working or the configured directory, or absolute, however it is written) its package, a directory with `...` all packages below it, those in nested Go modules included, an import path that package. A root that other packages import, directly or through others, is one and the same package everywhere, even if it was loaded separately. The configuration given is as before afterwards.",
 ["inputs","configurations"],"all texts of a root, lists of roots and placements of packages, modules and imports in a small tree",
 "Tests sample some lists of roots in one tree.",
 ["pkg/loader/loader.go"],[("roots","pkg/loader/loader.go: LoadRootsWithConfig, visitImports")],observe=["LoadRootsWithConfig result"])

p("C30","Kubernetes types that encode themselves are described as they are encoded",
 "The schema of a field whose type comes from Kubernetes and has its own JSON encoding accepts what the type encodes to: quantities (every string that is read as a quantity, every encoded quantity; no string without exponent that is none), integers-or-strings, times, durations, raw extensions, unstructured and arbitrary JSON; wherever in a type it is used. Embedded metadata is an object about which nothing is said, or, if asked for, one with exactly the five properties users set, with their types. The other types of the same packages are described like all types.",
 ["inputs","configurations"],"all short strings as quantities, amounts at all magnitudes, values of the other types, with and without the option for embedded metadata",
 "Golden files show the schemas, but no values are held against them.",
 ["pkg/crd/known_types.go"],[("known types","pkg/crd/known_types.go: KnownPackages, ObjectMetaPackages, AddKnownTypes")],observe=["flattened schemas"])

p("C31","Help says what markers and options are",
 "Help lists every marker that is registered (of the generators asked for) and every generator, output rule and option exactly once, in its category, in the same order each time, with its target, its summary, what to use in place of it if it is deprecated, and exactly its arguments: each with its name, whether it may be left out, its type (for lists and maps that of the elements too) and the help of its own field; with details on the pages that have them. On no page any of this is lost or misplaced, and the columns of a summary are aligned. Every marker of the generators has a summary and a category, and help that is about its own arguments. The help that is generated from documentation (helpgen) is, for exactly the types marked, the category given, the first line (without the name it starts with) as summary and the rest as details, for the type and each of its fields, in valid Go with the header given, in which the year is filled in.",
 ["inputs","configurations"],"all sets of markers with help, all short texts in names, summaries, details and documentation, all generators and levels of help, and the iteration orders of maps",
 "No test looks at help.",
 ["pkg/genall/help/types.go","pkg/genall/help/sort.go","pkg/genall/help/pretty/help.go","pkg/genall/help/pretty/print.go","pkg/genall/help/pretty/table.go","pkg/markers/help.go","cmd/helpgen/main.go","cmd/controller-gen/main.go"],[("contents","pkg/genall/help/types.go: ByCategory, ForDefinition, ForArgument; pkg/markers/help.go: FieldsHelp"),("pages","pkg/genall/help/pretty: MarkersSummary, MarkersDetails"),("generated help","cmd/helpgen/main.go: Generate, godocToDetails")],observe=["help.ByCategory, rendered pages, generated zz_generated.markerhelp.go"])

p("C32","Apply configurations are made for the types asked for, where asked for",
 "The applyconfiguration generator makes apply configurations for exactly the objects asked for and the structs of their package that these refer to: the types with +kubebuilder:ac:generate=true and, in packages with that marker, the types with +kubebuilder:resource that do not say +kubebuilder:ac:generate=false. They are below the directory that the package names with +kubebuilder:ac:output:package (as seen from its own directory; applyconfiguration by default), in packages with the import path of that directory, and every file starts with the header given. What is generated for one package does not depend on the others; nothing is generated for a package in which nothing is enabled, no other file changes, no temporary file is left, and a marker that cannot be parsed is an error.",
 ["inputs","configurations"],"all combinations of the markers of packages and types, output packages, headers, and orders of packages",
 "One test project, in which everything is enabled by the package's marker, is compared with checked-in files.",
 ["pkg/applyconfiguration/gen.go"],[("which types","pkg/applyconfiguration/gen.go: enabledOnPackage, enabledOnType, generateForPackage"),("where","pkg/applyconfiguration/gen.go: outputPkg, generateForPackage; Generate (header)")],observe=["generated files"])

p("C33","Scaffolded types are what was asked for, in valid Go",
 "For every kind, resource name and combination of options that is accepted, what type-scaffold prints is valid Go (after a package clause and the import of metav1) that declares exactly the kind, its spec, its status and its list: the kind with type meta inline, object meta as metadata, spec and status, the list with type meta, list meta and the items; from which the deepcopy generator makes copy methods for all four and runtime.Objects of exactly the kind and its list, and the CRD generator exactly that kind. The kind is marked for clients exactly if asked for, as not namespaced exactly if it is not, its documentation names the resource (the lower-case plural of the kind if none is given), and all lines of additional help are in the spec and the status. A kind that is empty, not CamelCase or cannot be the name of an exported Go type is an error, and so is a failure to write.",
 ["inputs","configurations"],"all kinds over letters, digits, punctuation and space, all combinations of options, all short help texts and resource names",
 "Tests only see that four sets of options are accepted or rejected; nothing looks at what is printed.",
 ["pkg/typescaffold/resource.go","pkg/typescaffold/scaffold.go"],[("validation","pkg/typescaffold/resource.go: Validate"),("template","pkg/typescaffold/scaffold.go: typesTemplateRaw, Scaffold")],observe=["printed source, error"])

for x in P: print(json.dumps(x,ensure_ascii=False))
