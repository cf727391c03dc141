#!/usr/bin/env python3
"""Writes DESIGN.md, and the "outside" texts of checks.json."""
import json, os, re, glob, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property: (how it is decided / oracle, what lies outside the bounds)
T = {
'C33': ("the printed source for symbolic kinds, resource names, help texts and options (text/template executed as it is) is parsed, type-checked, read by the marker collector, given to the deepcopy and CRD generators, and what is generated type-checked with it: declared types, fields, markers and methods are exactly those asked for.",
 "the flags of the command (cmd/type-scaffold), kinds with characters beyond ASCII"),
'C32': ("the generator on a tree of packages in the model of the file system (natively a real tree): the loader's, controller-tools' and gengo's code (loading, type model, reachability, targets) are executed; the set of files, their headers, package clauses and import path are compared with a specification over the markers that were chosen. Only the bodies of the files are replaced in the engine (`gengom`): they come from text/template over gengo's types. Natively they are the real ones.",
        "the bodies of the generated files (k8s.io/code-generator's templates); types outside the package; openapi schemas; output packages with characters other than letters, dots and slashes"),
'C01': ("Definition.Parse on the text that renders a symbolic value in one of the documented notations (render -> parse = identity), for definitions built by reflection from a struct of every argument type.",
        "longer strings and lists than stated, more than one symbolic argument of a kind at a time, invalid UTF-8 in unquoted strings, argument types beyond those of the shipped markers (string, int, int32, int64, bool, float, any, lists, maps, pointers to them, raw)"),
'C02': ("Definition.Parse on texts of arbitrary bytes: it ends without a panic; where a text is of a form that the grammar of markers does not have (an independent recogniser in the harness says so), there is an error, and a value only where there is none.",
        "texts longer than stated; that the message of an error names the right place"),
'C03': ("Registry.Define/Lookup/AllDefinitions on symbolic names and texts against a specification of resolution written as a search over the registered definitions.",
        "names of more than 3 letters, more definitions; concurrent registration"),
'C04': ("Collector.MarkersInPackage on real files (parsed inside the engine from lines chosen symbolically) against a line-wise specification: a marker belongs to the declaration whose doc comment it is in or whose doc comment it is just above, or to the package.",
        "longer gaps and other declarations between, several packages, block comments as carriers of markers"),
'C05': ("the Doc of types and fields from a package's source with symbolic comment bytes, against a specification in two steps (which lines count, how they are joined) written without scanning tricks.",
        "comments of more lines, Unicode line separators; godoc formatting beyond paragraphs and lists"),
'C06': ("every ApplyToSchema on symbolic values and schemas: the named constraint has the marker's value, every other field of the schema is as before (frame condition over all fields by reflection), and an error exactly where the marker does not apply; then the same from the marker's text through the registry.",
        "NaN (no marker text denotes it), enum and default values of more than two levels, texts beyond those of C01"),
'C07': ("self-composition: the schema of a field or type with the same markers in two orders, under two orders of map iteration, is equal (or an error in both); the stated exceptions keep the written order.",
        "sets of four and more interacting markers (all pairs and the triples that can interact are decided), markers of other packages"),
'C08': ("the object schema of a struct from source with symbolic tags and markers against a specification of encoding/json's naming rules and the required/optional rules.",
        "names of more than 2 characters, more than 3 fields at a time; conflicts of equally deep embedded names"),
'C09': ("the schema of a field of every type expression within the bounds, references resolved, against a specification by Go's type structure; and the encodings of arbitrary values (produced by encoding/json) against the generated schema with an independent validator.",
        "deeper type expressions, generic types, custom marshallers (other than as named leaves with a type marker), encodings of floats (their text)"),
'C10': ("FlattenEmbedded on symbolic schemas: an independent membership predicate for allOf (conjunction) and for the result must agree on what they say; conflicts are errors, never silently dropped.",
        "more than 4 branches, interactions of three different kinds of constraints; meaning of patterns (compared as texts)"),
'C11': ("Flattener.FlattenType after real parsing of packages with symbolic structure, against the expansion of references computed by the harness; every schema in the parser's tables is compared with a copy taken before.",
        "more than 4 types, two packages; recursive types (cannot be flattened at all: an error)"),
'C12': ("Parser.NeedCRDFor on packages from source with symbolic markers, against a specification of names, versions, storage, scope, subresources, columns, selectable fields and metadata.",
        "more than three versions; markers given more than once other than those in the sets; text of conversion"),
'C13': ("self-composition: the CRDs and the errors under two orders of packages, kinds, markers, and map iteration.",
        "more than 3 packages; order of the text of several errors"),
'C14': ("TruncateDescription on symbolic descriptions: a prefix of the original within the limit (plus the documented ellipsis), valid UTF-8 if the original is, the whole text where it fits; everything else in the schema unchanged, at every place a schema can nest.",
        "texts longer than stated (the algorithm looks at one boundary and one sentence end), more than 3 levels"),
'C15': ("GenerateRoles on symbolic markers: an arbitrary request is granted by the roles iff it is granted by some marker (a direct reading of the RBAC authoriser's rules on both sides).",
        "more than 3 markers, more than 3 values per list, names of more than one letter except where separators are the subject"),
'C16': ("self-composition of GenerateRoles: order of markers, order and repetition of values, map orders; results are equal, sorted and without duplicates.",
        "more than 3 markers, more than 3 values per list"),
'C17': ("webhook generation from marker text over symbolic arguments, compared field by field with a specification of what the arguments mean.",
        "longer words; more than four markers"),
'C18': ("the same with values that are not allowed: there is an error and no configuration is written; and none for those that are allowed.",
        "longer words; text of errors"),
'C19': ("two levels: the generator runs (in the engine's loader, regenerated at each run) on about 430 types, the generated code is compiled to SSA and executed symbolically: the copy is equal and no pointer, slice or map reachable from it is reachable from the original (and nil stays nil).",
        "types of more than 3 constructors, arrays of non-basic elements, more than 2 elements or 4 levels of values"),
'C20': ("the real yaml.Node editing code on documents with symbolic shape, keys and comments, against the same edit on a plain tree model; all other nodes, comments and styles compared.",
        "longer keys, more entries, anchors, aliases and merge keys; sequences on the path (documented as unsupported)"),
'C21': ("schemapatcher run on directories with symbolic contents: outside the schemas the YAML tree (comments and styles included) is as before, inside it is what the parser gives; files that are no CRDs are not written.",
        "more than two versions and kinds; documents beyond the given forms"),
'C22': ("protoFromOptions/FromOptions with the registry of controller-gen's main on symbolic words, against a specification of the option language.",
        "more than three words besides the six generators; spelling of values beyond those of C01"),
'C23': ("the generators and Runtime.Run with every operation of the output failing in every way at a symbolic point; no failure may be lost, nothing may stay open.",
        "more than two generators with faults; failures of the go command (C29 has those that are its answers); the exit code of main (one call)"),
'C24': ("TypeRefLink -> RefParts -> identFromRef on symbolic paths: the identity; different types have different links; non-links are errors; NonVendorPath against a specification.",
        "paths of more characters"),
'C25': ("deepcopy generation for packages whose import paths have symbolic last elements; the generated file is parsed and type-checked within the engine, and each reference must be to the package it should be.",
        "more than two imported packages of the same name; names of more than 3 arbitrary characters"),
'C26': ("deepcopy generation over symbolic markers and header texts; the methods found in the generated file by go/types are exactly those asked for.",
        "several packages with different defaults at a time; longer header lines"),
'C27': ("whole runs of generators with symbolic names into recorded outputs: the set of files and what each of them contains is exactly one per artifact, unabridged, header first.",
        "more than three artifacts; name collisions between generators that write into the same directory by the user's choice"),
'C28': ("the loader's reference resolution with the generators' filters on sources with symbolic structure: what a filtered check gives is what a full check by go/types gives for the parts the generators look at.",
        "import graphs of more than 4 packages; build tags, cgo"),
'C29': ("LoadRootsWithConfig on symbolic directory trees and roots over a model of go list's patterns: exactly the packages that the roots name, each once, also in nested modules; working directory restored.",
        "the go command itself (modelled from its documentation), workspaces, vendor mode; deeper trees"),
'C30': ("the known-type schemas against the real encoders: Quantity, IntOrString, Time, MicroTime, Duration, Fields, RawExtension, JSON, ObjectMeta executed on symbolic values; every encoding must be allowed by the schema, and (Quantity) every string that is refused by the parser must be refused by the pattern.",
        "quantities of more characters; exponents (the pattern leaves their range open)"),
'C31': ("the help documents and pages for symbolic definitions and help texts, those of controller-gen's own registry, and the code that helpgen generates from symbolic doc comments (parsed, type-checked, evaluated): everything that is documented is shown, under the right name, in a fixed order.",
        "longer texts; colours; terminals"),
}
seedruns = {}
p = root + '/tools/seed_runs.json'
if os.path.exists(p):
    seedruns = json.load(open(p))
checks = json.load(open(root + '/checks.json'))
for k, (_, o) in T.items():
    checks[k]['outside'] = o
json.dump(checks, open(root + '/checks.json', 'w'), indent=1); open(root + '/checks.json', 'a').write('\n')
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
docs = {}
for f in sorted(glob.glob(root + '/harness/**/*.go', recursive=True)):
    s = open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)*)func H_(C\d+)_(\w+)\(', s):
        d = ' '.join(x.lstrip('/').strip() for x in m.group(1).strip().split('\n') if not x.startswith('//gosym'))
        d = re.sub(r'^H_\w+: ', '', d)
        docs.setdefault(m.group(2), []).append((m.group(3), d, os.path.relpath(f, root)))
metas = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); m['id'] = f.split('/')[-2]
    metas.setdefault(m['property'], []).append(m)
na = json.load(open(root + '/tools/na.json'))
kf = json.load(open(root + '/known_findings.json'))
o = [open(root + '/tools/design_head.md').read()]
o.append('## The properties\n')
for p in props:
    i = p['id']
    if i in na:
        continue
    how, out = T[i]
    c = checks[i]
    o.append('### %s %s\n' % (i, p['title']))
    o.append('**Decided by**: %s\n' % how)
    o.append('**Code**: %s. **Cost**: quick within %d s (budget), thorough within %d s.\n' % (', '.join('`%s`' % f for f in p['anchors']['files']), c.get('quick_s', 150), c.get('thorough_s', 600)))
    o.append('Harnesses (`%s`) and their bounds:\n' % '`, `'.join(sorted({f for _, _, f in docs.get(i, [])})))
    for n, d, _ in docs.get(i, []):
        o.append('* `%s`: %s' % (n, d))
    o.append('\n**Outside**: %s.\n' % out)
o.append('## Not applicable\n')
for p in props:
    if p['id'] in na:
        o.append('* %s %s: %s' % (p['id'], p['title'], na[p['id']]))
o.append('\n## Planted bugs and the checks that catch them\n\nEach is in `seeded/<id>` with a demonstration; generated by `tools/mkseeds.py` from `tools/seeds/*.py`. All are caught by the check of their property in the quick tier.\n')
o.append('| bug | property | breaks | needs |\n|---|---|---|---|')
for i in sorted(metas):
    for m in metas[i]:
        o.append('| %s | %s | %s | %s |' % (m['id'], i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
o.append(open(root + '/tools/design_tail.md').read())
o.append('\n## Genuine defects: repaired\n\nEach was reported by a check on the unchanged tree, replayed, and repaired by one `fix:` commit in /repo.\n')
for x in kf['fixed']:
    o.append('* ' + re.sub(r'^fixed: property=(\w+) (\w+) ', r'\1 (`\2`): ', x))
o.append('\n## Genuine defects: recorded (known_findings.json)\n')
for x in kf['findings']:
    o.append('* %s (`%s`): %s' % (x['property'], x['harness'], x['what']))
open(root + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
