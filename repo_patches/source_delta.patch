From a877f76bb5307ac8199206c21dff6b2fcbb61e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 01/47] fix: rbac: keep all verbs when merged rules collide on
 the same key

---
 pkg/rbac/parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 6521d26..8bc5686 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -258,6 +258,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 			}
 
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// merging can produce a key that another rule already has
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
@@ -277,6 +282,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.Groups = append(rule.Groups, mergeRule.Groups...)
 			}
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// merging can produce a key that another rule already has
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
@@ -296,6 +306,11 @@ func GenerateRoles(ctx *genall.GenerationContext, roleName string) ([]interface{
 				rule.URLs = append(rule.URLs, mergeRule.URLs...)
 			}
 			key := rule.key()
+			if existing, ok := ruleMap[key]; ok {
+				// merging can produce a key that another rule already has
+				existing.addVerbs(rule.Verbs)
+				continue
+			}
 			ruleMap[key] = rule
 		}
 
-- 
2.43.0


From 64b9f6df15e4fdfbedbfc053a8a7aded53f8b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 02/47] fix: markers: reject integers that do not fit the
 argument's type

They were silently converted to a different number.
---
 pkg/markers/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index f42dec0..5717df1 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -551,7 +551,6 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 		if !expect(scanner, sc.Int, "integer") {
 			return
 		}
-		// TODO(directxman12): respect the size when parsing
 		text := scanner.TokenText()
 		if isNegative {
 			text = "-" + text
@@ -561,6 +560,10 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %v", err))
 			return
 		}
+		if out.CanInt() && out.OverflowInt(int64(val)) {
+			scanner.Error(scanner, fmt.Sprintf("unable to parse integer: %s does not fit into %s", text, out.Type()))
+			return
+		}
 		castAndSet(out, reflect.ValueOf(val))
 	case StringType:
 		// strings are a bit weird -- the "easy" case is quoted strings (tokenized as strings),
-- 
2.43.0


From 00adf550bf659d0bd058bb0ad9dccfec9e41335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 03/47] fix: markers: accept a negative number after white
 space

Every other argument may be preceded by white space (e.g. in the
documented {key: val} map form).
---
 pkg/markers/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 5717df1..d3afc60 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -516,7 +516,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 			}
 		}
 	case NumberType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
@@ -542,7 +542,7 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 
 		castAndSet(out, reflect.ValueOf(val))
 	case IntType:
-		nextChar := scanner.Peek()
+		nextChar := peekNoSpace(scanner)
 		isNegative := false
 		if nextChar == '-' {
 			isNegative = true
-- 
2.43.0


From 7c95618324f74bfc364f3397dd558aa6fc5de991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 04/47] fix: markers: do not tokenize raw arguments

An unbalanced quote in content that is passed on unparsed was reported
as an error.
---
 pkg/markers/parse.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index d3afc60..840129c 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -507,13 +507,10 @@ func (a *Argument) parse(scanner *sc.Scanner, raw string, out reflect.Value, inS
 	case RawType:
 		// raw consumes everything else
 		castAndSet(out, reflect.ValueOf(raw[scanner.Pos().Offset:]))
-		// consume everything else
-		var tok rune
-		for {
-			tok = scanner.Scan()
-			if tok == sc.EOF {
-				break
-			}
+		// consume everything else, character by character: it isn't made of tokens,
+		// so e.g. an unbalanced quote is not an error
+		for scanner.Next() != sc.EOF {
+			continue
 		}
 	case NumberType:
 		nextChar := peekNoSpace(scanner)
-- 
2.43.0


From 54c556aa9fb21e5ab50b4345147e969ef46bb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 05/47] fix: crd: keep exclusive bounds with their bound when
 it moves into allOf

---
 pkg/crd/flatten.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index cf02c9b..8727298 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -82,6 +82,15 @@ func flattenAllOfInto(dst *apiext.JSONSchemaProps, src apiext.JSONSchemaProps, e
 		zeroInt := zeroVal.Interface()
 		srcInt := srcField.Interface()
 
+		if (fieldName == "ExclusiveMaximum" && srcRemainder.Maximum != nil) ||
+			(fieldName == "ExclusiveMinimum" && srcRemainder.Minimum != nil) {
+			// the bound was hoisted into allOf, where it's only exclusive if this goes with it
+			srcRemVal.Field(i).Set(srcField)
+			dstRemVal.Field(i).Set(dstVal.Field(i))
+			dstVal.Field(i).Set(zeroVal)
+			continue
+		}
+
 		if isOrNil(srcField, srcInt, zeroInt) {
 			// nothing to copy from src, continue
 			continue
-- 
2.43.0


From 398e1ea73f79f59fef4f8edf8fc92d50808c01dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 06/47] fix: crd: do not cut descriptions inside a character

---
 pkg/crd/desc_visitor.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/desc_visitor.go b/pkg/crd/desc_visitor.go
index 1a5698b..36508c1 100644
--- a/pkg/crd/desc_visitor.go
+++ b/pkg/crd/desc_visitor.go
@@ -19,6 +19,7 @@ package crd
 import (
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 )
@@ -64,11 +65,16 @@ func truncateString(desc string, maxLen int) string {
 		return desc
 	}
 
+	// don't cut inside a (multi-byte) character
+	for maxLen > 0 && !utf8.RuneStart(desc[maxLen]) {
+		maxLen--
+	}
 	desc = desc[0:maxLen]
 
 	// Trying to chop off at closest sentence boundary.
 	if n := strings.LastIndexFunc(desc, isSentenceTerminal); n > 0 {
-		return desc[0 : n+1]
+		_, size := utf8.DecodeRuneInString(desc[n:])
+		return desc[0 : n+size]
 	}
 
 	// Trying to chop off at closest word boundary (i.e. whitespace).
-- 
2.43.0


From f87e687778d0c026a50ef7152fe922a4c8033551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 07/47] fix: crd: make type links of packages with a ~ in their
 path readable

---
 pkg/crd/flatten.go | 9 +++++----
 pkg/crd/schema.go  | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index 8727298..d9df79f 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -305,14 +305,15 @@ func RefParts(ref string) (typ string, pkgName string, err error) {
 	// decode the json pointer encodings
 	ref = strings.ReplaceAll(ref, "~1", "/")
 	ref = strings.ReplaceAll(ref, "~0", "~")
-	nameParts := strings.SplitN(ref, "~", 2)
+	// package paths may contain a "~", type names can't
+	sep := strings.LastIndex(ref, "~")
 
-	if len(nameParts) == 1 {
+	if sep < 0 {
 		// local reference
-		return nameParts[0], "", nil
+		return ref, "", nil
 	}
 	// cross-package reference
-	return nameParts[1], nameParts[0], nil
+	return ref[sep+1:], ref[:sep], nil
 }
 
 // identFromRef converts the given schema ref from the given package back
diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 616141c..f68b77d 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -242,10 +242,11 @@ func typeToSchema(ctx *schemaContext, rawType ast.Expr) *apiext.JSONSchemaProps
 
 // qualifiedName constructs a JSONSchema-safe qualified name for a type
 // (`<typeName>` or `<safePkgPath>~0<typeName>`, where `<safePkgPath>`
-// is the package path with `/` replaced by `~1`, according to JSONPointer
-// escapes).
+// is the package path with `~` replaced by `~0` and `/` replaced by `~1`,
+// according to JSONPointer escapes).
 func qualifiedName(pkgName, typeName string) string {
 	if pkgName != "" {
+		pkgName = strings.ReplaceAll(pkgName, "~", "~0")
 		return strings.ReplaceAll(pkgName, "/", "~1") + "~0" + typeName
 	}
 	return typeName
-- 
2.43.0


From 208c95618c2966b44672a2cc41c3467348a12d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 08/47] fix: crd: resolve references that repeat in another
 package

---
 pkg/crd/flatten.go        |  6 ++++++
 pkg/crd/schema_visitor.go | 28 ++++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pkg/crd/flatten.go b/pkg/crd/flatten.go
index d9df79f..e605ccb 100644
--- a/pkg/crd/flatten.go
+++ b/pkg/crd/flatten.go
@@ -385,6 +385,12 @@ type flattenVisitor struct {
 	originalField  apiext.JSONSchemaProps
 }
 
+// refScope is the package that references are relative to: the same local reference
+// names another type in another package.
+func (f *flattenVisitor) refScope() interface{} {
+	return f.currentPackage
+}
+
 func (f *flattenVisitor) Visit(baseSchema *apiext.JSONSchemaProps) SchemaVisitor {
 	if baseSchema == nil {
 		// end-of-node marker, cache the results
diff --git a/pkg/crd/schema_visitor.go b/pkg/crd/schema_visitor.go
index 2604d73..101ef41 100644
--- a/pkg/crd/schema_visitor.go
+++ b/pkg/crd/schema_visitor.go
@@ -48,6 +48,26 @@ type schemaWalker struct {
 	visitor SchemaVisitor
 }
 
+// refScoper is implemented by visitors whose references mean different things
+// in different places (e.g. in different packages).
+type refScoper interface {
+	refScope() interface{}
+}
+
+// refScope returns the scope in which references are looked up by the given visitor.
+func refScope(visitor SchemaVisitor) interface{} {
+	if scoper, scoped := visitor.(refScoper); scoped {
+		return scoper.refScope()
+	}
+	return nil
+}
+
+// seenRef is a reference together with the scope that it was found in.
+type seenRef struct {
+	scope interface{}
+	ref   string
+}
+
 // walkSchema walks the given schema, saving modifications made by the visitor
 // (this is as simple as passing a pointer in most cases, but special care
 // needs to be taken to persist with maps).  It also visits referenced
@@ -59,9 +79,9 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 	// Walk a potential chain of schema references, keeping track of seen
 	// references to avoid circular references
 	subVisitor := w.visitor
-	seenRefs := map[string]bool{}
+	seenRefs := map[seenRef]bool{}
 	if schema.Ref != nil {
-		seenRefs[*schema.Ref] = true
+		seenRefs[seenRef{refScope(subVisitor), *schema.Ref}] = true
 	}
 	for {
 		subVisitor = subVisitor.Visit(schema)
@@ -72,10 +92,10 @@ func (w schemaWalker) walkSchema(schema *apiext.JSONSchemaProps) {
 		defer subVisitor.Visit(nil)
 
 		// Break if schema is not a reference or a cycle is detected
-		if schema.Ref == nil || len(*schema.Ref) == 0 || seenRefs[*schema.Ref] {
+		if schema.Ref == nil || len(*schema.Ref) == 0 || seenRefs[seenRef{refScope(subVisitor), *schema.Ref}] {
 			break
 		}
-		seenRefs[*schema.Ref] = true
+		seenRefs[seenRef{refScope(subVisitor), *schema.Ref}] = true
 	}
 
 	// walk sub-schemata
-- 
2.43.0


From 5821944ded55d2499c8f7917232b07c9a4cca262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:18 +0000
Subject: [PATCH 09/47] fix: crd: apply schema markers in a fixed order

---
 pkg/crd/markers/validation.go |  3 ++-
 pkg/crd/schema.go             | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkg/crd/markers/validation.go b/pkg/crd/markers/validation.go
index e1cad59..000a32f 100644
--- a/pkg/crd/markers/validation.go
+++ b/pkg/crd/markers/validation.go
@@ -515,7 +515,8 @@ func (m Type) ApplyToSchema(schema *apiext.JSONSchemaProps) error {
 }
 
 func (m Type) ApplyPriority() ApplyPriority {
-	return ApplyPriorityDefault - 1
+	// go before the other early markers, since they check the type
+	return ApplyPriorityDefault - 2
 }
 
 func (m Nullable) ApplyToSchema(schema *apiext.JSONSchemaProps) error {
diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index f68b77d..0a4ad5e 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -148,8 +148,16 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 	markers := make([]schemaMarkerWithName, 0, len(markerSet))
 	itemsMarkers := make([]schemaMarkerWithName, 0, len(markerSet))
 
-	for markerName, markerValues := range markerSet {
-		for _, markerValue := range markerValues {
+	// go through the markers in a fixed order, so that the outcome doesn't depend
+	// on the iteration order of the map
+	markerNames := make([]string, 0, len(markerSet))
+	for markerName := range markerSet {
+		markerNames = append(markerNames, markerName)
+	}
+	sort.Strings(markerNames)
+
+	for _, markerName := range markerNames {
+		for _, markerValue := range markerSet[markerName] {
 			if schemaMarker, isSchemaMarker := markerValue.(SchemaMarker); isSchemaMarker {
 				if strings.HasPrefix(markerName, crdmarkers.ValidationItemsPrefix) {
 					itemsMarkers = append(itemsMarkers, schemaMarkerWithName{
@@ -189,8 +197,8 @@ func applyMarkers(ctx *schemaContext, markerSet markers.MarkerValues, props *api
 
 		return iPriority < jPriority
 	}
-	sort.Slice(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
-	sort.Slice(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
+	sort.SliceStable(markers, func(i, j int) bool { return cmpPriority(markers, i, j) })
+	sort.SliceStable(itemsMarkers, func(i, j int) bool { return cmpPriority(itemsMarkers, i, j) })
 
 	for _, schemaMarker := range markers {
 		if err := schemaMarker.SchemaMarker.ApplyToSchema(props); err != nil {
-- 
2.43.0


From a3ee0dc733189e0d182f44c35f78b3719a8d68bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 10/47] fix: crd: use the Go name of fields whose JSON tag has
 no name

---
 pkg/crd/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 0a4ad5e..9d768be 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -446,6 +446,10 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 			}
 		}
 		fieldName := jsonOpts[0]
+		if fieldName == "" && field.Name != "" && !inline {
+			// a named field without a name in its tag keeps its Go name in JSON
+			fieldName = field.Name
+		}
 		inline = inline || fieldName == "" // anonymous fields are inline fields in YAML/JSON
 
 		// if no default required mode is set, default to required
-- 
2.43.0


From ed762814dfda994c20054ebf82a6f112860cef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 11/47] fix: crd: do not list inline fields as required

---
 pkg/crd/schema.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 9d768be..0807d00 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -459,6 +459,8 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		}
 
 		switch {
+		case inline:
+			// inline fields have no property of their own that could be required
 		case field.Markers.Get("kubebuilder:validation:Optional") != nil:
 			// explicitly optional - kubebuilder
 		case field.Markers.Get("kubebuilder:validation:Required") != nil:
@@ -472,8 +474,8 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 
 		// if this package isn't set to optional default...
 		case defaultMode == "required":
-			// ...everything that's not inline / omitempty is required
-			if !inline && !omitEmpty {
+			// ...everything that's not omitempty is required
+			if !omitEmpty {
 				props.Required = append(props.Required, fieldName)
 			}
 
-- 
2.43.0


From 5c0c7dfd3036c584b1bf392f63dfac62431b7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 12/47] fix: crd: report unsupported predeclared types instead
 of panicking

---
 pkg/crd/schema.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 0807d00..219c0e0 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -276,7 +276,11 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	// This reproduces the behavior we had pre gotypesalias=1 (needed if this
 	// project is compiled with default settings and Go >= 1.23).
 	if aliasInfo, isAlias := typeInfo.(*types.Alias); isAlias {
-		typeInfo = aliasInfo.Rhs()
+		// an alias of a type without a name can only be referred to by its own name
+		switch aliasInfo.Rhs().(type) {
+		case *types.Basic, interface{ Obj() *types.TypeName }:
+			typeInfo = aliasInfo.Rhs()
+		}
 	}
 	if basicInfo, isBasic := typeInfo.(*types.Basic); isBasic {
 		typ, fmt, err := builtinToType(basicInfo, ctx.allowDangerousTypes)
@@ -306,6 +310,11 @@ func localNamedToSchema(ctx *schemaContext, ident *ast.Ident) *apiext.JSONSchema
 	// so use typechecking info to get the actual object
 	typeNameInfo := typeInfo.(interface{ Obj() *types.TypeName }).Obj()
 	pkg := typeNameInfo.Pkg()
+	if pkg == nil {
+		// any, error and the like are declared in no package
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %q", ident.Name), ident))
+		return &apiext.JSONSchemaProps{}
+	}
 	pkgPath := loader.NonVendorPath(pkg.Path())
 	if pkg == ctx.pkg.Types {
 		pkgPath = ""
@@ -324,7 +333,12 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unknown type %v.%s", named.X, named.Sel.Name), named))
 		return &apiext.JSONSchemaProps{}
 	}
-	typeInfo := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	typeInfo, isNamed := typeInfoRaw.(interface{ Obj() *types.TypeName })
+	if !isNamed {
+		// unsafe.Pointer is a basic type
+		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("unsupported type %v.%s", named.X, named.Sel.Name), named))
+		return &apiext.JSONSchemaProps{}
+	}
 	typeNameInfo := typeInfo.Obj()
 	nonVendorPath := loader.NonVendorPath(typeNameInfo.Pkg().Path())
 	ctx.requestSchema(nonVendorPath, typeNameInfo.Name())
-- 
2.43.0


From 25246398e13bcc547146958125d46b01a040027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 13/47] fix: crd: accept aliases of strings as map keys

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 219c0e0..dc6726a 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -376,7 +376,7 @@ func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaPro
 	keyInfo := ctx.pkg.TypesInfo.TypeOf(mapType.Key)
 	// check that we've got a type that actually corresponds to a string
 	for keyInfo != nil {
-		switch typedKey := keyInfo.(type) {
+		switch typedKey := types.Unalias(keyInfo).(type) {
 		case *types.Basic:
 			if typedKey.Info()&types.IsString == 0 {
 				ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("map keys must be strings, not %s", keyInfo.String()), mapType.Key))
-- 
2.43.0


From 50518ad525242af19ebb99380a695f3d065e8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 14/47] fix: crd: map all slices of bytes to base64 strings

---
 pkg/crd/schema.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index dc6726a..373636c 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -353,7 +353,7 @@ func namedToSchema(ctx *schemaContext, named *ast.SelectorExpr) *apiext.JSONSche
 // with the special `[]byte` type (according to OpenAPI standards).
 func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaProps {
 	eltType := ctx.pkg.TypesInfo.TypeOf(array.Elt)
-	if eltType == byteType && array.Len == nil {
+	if array.Len == nil && isByte(eltType) {
 		// byte slices are represented as base64-encoded strings
 		// (the format is defined in OpenAPI v3, but not JSON Schema)
 		return &apiext.JSONSchemaProps{
@@ -370,6 +370,15 @@ func arrayToSchema(ctx *schemaContext, array *ast.ArrayType) *apiext.JSONSchemaP
 	}
 }
 
+// isByte checks whether slices of the given type are encoded as base64 strings:
+// those of byte, uint8 and types declared with these that don't define their own encoding.
+func isByte(typ types.Type) bool {
+	if typ == nil || !types.Identical(typ.Underlying(), byteType) {
+		return false
+	}
+	return !implements(typ, jsonMarshaler) && !implements(typ, textMarshaler)
+}
+
 // mapToSchema creates a schema for items of the given map.  Key types must eventually resolve
 // to string (other types aren't allowed by JSON, and thus the kubernetes API standards).
 func mapToSchema(ctx *schemaContext, mapType *ast.MapType) *apiext.JSONSchemaProps {
-- 
2.43.0


From 85040b62951b3592f2658bab714d05bb869570ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 15/47] fix: crd: report anonymous structs instead of panicking

---
 pkg/crd/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/crd/schema.go b/pkg/crd/schema.go
index 373636c..a4942ae 100644
--- a/pkg/crd/schema.go
+++ b/pkg/crd/schema.go
@@ -435,7 +435,7 @@ func structToSchema(ctx *schemaContext, structType *ast.StructType) *apiext.JSON
 		Properties: make(map[string]apiext.JSONSchemaProps),
 	}
 
-	if ctx.info.RawSpec.Type != structType {
+	if ctx.info.RawSpec == nil || ctx.info.RawSpec.Type != structType {
 		ctx.pkg.AddError(loader.ErrFromNode(fmt.Errorf("encountered non-top-level struct (possibly embedded), those aren't allowed"), structType))
 		return props
 	}
-- 
2.43.0


From ca51e33424f51d148dc09cb231c671af906e0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:49 +0000
Subject: [PATCH 16/47] fix: crd: apply type markers and order versions
 deterministically

---
 pkg/crd/spec.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pkg/crd/spec.go b/pkg/crd/spec.go
index e4cbe3f..de6b549 100644
--- a/pkg/crd/spec.go
+++ b/pkg/crd/spec.go
@@ -24,7 +24,9 @@ import (
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	crdmarkers "sigs.k8s.io/controller-tools/pkg/crd/markers"
 	"sigs.k8s.io/controller-tools/pkg/loader"
+	"sigs.k8s.io/controller-tools/pkg/markers"
 )
 
 // SpecMarker is a marker that knows how to apply itself to a particular
@@ -60,6 +62,8 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		packages = append(packages, pkg)
 	}
+	// the versions are visited in a fixed order, so that the result doesn't depend on map iteration
+	sort.Slice(packages, func(i, j int) bool { return packages[i].PkgPath < packages[j].PkgPath })
 
 	defaultPlural := strings.ToLower(flect.Pluralize(groupKind.Kind))
 	crd := apiext.CustomResourceDefinition{
@@ -113,8 +117,8 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 		}
 		ver := p.GroupVersions[pkg].Version
 
-		for _, markerVals := range typeInfo.Markers {
-			for _, val := range markerVals {
+		for _, markerName := range sortedMarkerNames(typeInfo.Markers) {
+			for _, val := range typeInfo.Markers[markerName] {
 				if specMarker, isSpecMarker := val.(SpecMarker); isSpecMarker {
 					if err := specMarker.ApplyToCRD(&crd.Spec, ver); err != nil {
 						pkg.AddError(loader.ErrFromNode(err /* an okay guess */, typeInfo.RawSpec))
@@ -138,7 +142,7 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 
 	// it is necessary to make sure the order of CRD versions in crd.Spec.Versions is stable and explicitly set crd.Spec.Version.
 	// Otherwise, crd.Spec.Version may point to different CRD versions across different runs.
-	sort.Slice(crd.Spec.Versions, func(i, j int) bool { return crd.Spec.Versions[i].Name < crd.Spec.Versions[j].Name })
+	sort.SliceStable(crd.Spec.Versions, func(i, j int) bool { return crd.Spec.Versions[i].Name < crd.Spec.Versions[j].Name })
 
 	// make sure we have *a* storage version
 	// (default it if we only have one, otherwise, bail)
@@ -174,3 +178,29 @@ func (p *Parser) NeedCRDFor(groupKind schema.GroupKind, maxDescLen *int) {
 
 	p.CustomResourceDefinitions[groupKind] = crd
 }
+
+// sortedMarkerNames returns the names of the given markers in the order they're
+// to be applied in: sorted, except that versions are skipped last, since no other
+// marker can be applied to a version that's gone.
+func sortedMarkerNames(vals markers.MarkerValues) []string {
+	skipsVersion := func(name string) bool {
+		for _, val := range vals[name] {
+			if _, isSkip := val.(crdmarkers.SkipVersion); isSkip {
+				return true
+			}
+		}
+		return false
+	}
+
+	names := make([]string, 0, len(vals))
+	for name := range vals {
+		names = append(names, name)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if iSkips, jSkips := skipsVersion(names[i]), skipsVersion(names[j]); iSkips != jSkips {
+			return jSkips
+		}
+		return names[i] < names[j]
+	})
+	return names
+}
-- 
2.43.0


From 1624fe5d9faefc38b89e5f511b2224d3f02f97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 17/47] fix: crd/markers: report metadata labels without a
 value instead of panicking

---
 pkg/crd/markers/crd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/crd/markers/crd.go b/pkg/crd/markers/crd.go
index bd3cef5..d4a035d 100644
--- a/pkg/crd/markers/crd.go
+++ b/pkg/crd/markers/crd.go
@@ -384,6 +384,9 @@ func (s Metadata) ApplyToCRD(crd *apiext.CustomResourceDefinition, _ string) err
 		}
 		for _, str := range s.Labels {
 			kv := strings.SplitN(str, "=", 2)
+			if len(kv) < 2 {
+				return fmt.Errorf("label %s is not in 'xxx=xxx' format", str)
+			}
 			crd.Labels[kv[0]] = kv[1]
 		}
 	}
-- 
2.43.0


From 5382da189dc8497d4e5258cbdd799bf3a806ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 18/47] fix: crd: write nothing for kinds without versions

---
 pkg/crd/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/crd/gen.go b/pkg/crd/gen.go
index 5fad65a..b74fae9 100644
--- a/pkg/crd/gen.go
+++ b/pkg/crd/gen.go
@@ -179,7 +179,11 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 
 	for _, groupKind := range kubeKinds {
 		parser.NeedCRDFor(groupKind, g.MaxDescLen)
-		crdRaw := parser.CustomResourceDefinitions[groupKind]
+		crdRaw, hasVersions := parser.CustomResourceDefinitions[groupKind]
+		if !hasVersions {
+			// every version of the kind is skipped, so there's nothing to write
+			continue
+		}
 		addAttribution(&crdRaw)
 
 		// Prevent the top level metadata for the CRD to be generate regardless of the intention in the arguments
-- 
2.43.0


From cd16bc78a96ba01063933a5843bfaa0cdd15059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 19/47] fix: webhook: reject timeouts that do not fit 32 bits

---
 pkg/webhook/parser.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index 832edeb..f67aae2 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -222,6 +222,11 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		return admissionregv1.MutatingWebhook{}, err
 	}
 
+	timeoutSeconds, err := c.timeoutSeconds()
+	if err != nil {
+		return admissionregv1.MutatingWebhook{}, err
+	}
+
 	return admissionregv1.MutatingWebhook{
 		Name:                    c.Name,
 		Rules:                   c.rules(),
@@ -229,7 +234,7 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		MatchPolicy:             matchPolicy,
 		ClientConfig:            clientConfig,
 		SideEffects:             c.sideEffects(),
-		TimeoutSeconds:          c.timeoutSeconds(),
+		TimeoutSeconds:          timeoutSeconds,
 		AdmissionReviewVersions: c.AdmissionReviewVersions,
 		ReinvocationPolicy:      c.reinvocationPolicy(),
 	}, nil
@@ -251,6 +256,11 @@ func (c Config) ToValidatingWebhook() (admissionregv1.ValidatingWebhook, error)
 		return admissionregv1.ValidatingWebhook{}, err
 	}
 
+	timeoutSeconds, err := c.timeoutSeconds()
+	if err != nil {
+		return admissionregv1.ValidatingWebhook{}, err
+	}
+
 	return admissionregv1.ValidatingWebhook{
 		Name:                    c.Name,
 		Rules:                   c.rules(),
@@ -258,7 +268,7 @@ func (c Config) ToValidatingWebhook() (admissionregv1.ValidatingWebhook, error)
 		MatchPolicy:             matchPolicy,
 		ClientConfig:            clientConfig,
 		SideEffects:             c.sideEffects(),
-		TimeoutSeconds:          c.timeoutSeconds(),
+		TimeoutSeconds:          timeoutSeconds,
 		AdmissionReviewVersions: c.AdmissionReviewVersions,
 	}, nil
 }
@@ -380,12 +390,15 @@ func (c Config) sideEffects() *admissionregv1.SideEffectClass {
 }
 
 // timeoutSeconds returns the timeoutSeconds config for a webhook.
-func (c Config) timeoutSeconds() *int32 {
+func (c Config) timeoutSeconds() (*int32, error) {
 	if c.TimeoutSeconds != 0 {
 		timeoutSeconds := int32(c.TimeoutSeconds)
-		return &timeoutSeconds
+		if int(timeoutSeconds) != c.TimeoutSeconds {
+			return nil, fmt.Errorf("TimeoutSeconds must be between 1 and 30 seconds, not %d", c.TimeoutSeconds)
+		}
+		return &timeoutSeconds, nil
 	}
-	return nil
+	return nil, nil
 }
 
 // reinvocationPolicy returns the reinvocationPolicy config for a mutating webhook.
-- 
2.43.0


From 7cb4fb4d9fb4cddc9adfd73a7f106359a1a73e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 20/47] fix: webhook: reject unknown reinvocation policies

---
 pkg/webhook/parser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index f67aae2..aba21a1 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -227,6 +227,11 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		return admissionregv1.MutatingWebhook{}, err
 	}
 
+	reinvocationPolicy, err := c.reinvocationPolicy()
+	if err != nil {
+		return admissionregv1.MutatingWebhook{}, err
+	}
+
 	return admissionregv1.MutatingWebhook{
 		Name:                    c.Name,
 		Rules:                   c.rules(),
@@ -236,7 +241,7 @@ func (c Config) ToMutatingWebhook() (admissionregv1.MutatingWebhook, error) {
 		SideEffects:             c.sideEffects(),
 		TimeoutSeconds:          timeoutSeconds,
 		AdmissionReviewVersions: c.AdmissionReviewVersions,
-		ReinvocationPolicy:      c.reinvocationPolicy(),
+		ReinvocationPolicy:      reinvocationPolicy,
 	}, nil
 }
 
@@ -402,17 +407,19 @@ func (c Config) timeoutSeconds() (*int32, error) {
 }
 
 // reinvocationPolicy returns the reinvocationPolicy config for a mutating webhook.
-func (c Config) reinvocationPolicy() *admissionregv1.ReinvocationPolicyType {
+func (c Config) reinvocationPolicy() (*admissionregv1.ReinvocationPolicyType, error) {
 	var reinvocationPolicy admissionregv1.ReinvocationPolicyType
 	switch strings.ToLower(c.ReinvocationPolicy) {
 	case strings.ToLower(string(admissionregv1.NeverReinvocationPolicy)):
 		reinvocationPolicy = admissionregv1.NeverReinvocationPolicy
 	case strings.ToLower(string(admissionregv1.IfNeededReinvocationPolicy)):
 		reinvocationPolicy = admissionregv1.IfNeededReinvocationPolicy
+	case "":
+		return nil, nil
 	default:
-		return nil
+		return nil, fmt.Errorf("unknown value %q for reinvocationPolicy", c.ReinvocationPolicy)
 	}
-	return &reinvocationPolicy
+	return &reinvocationPolicy, nil
 }
 
 // webhookVersions returns the target API versions of the {Mutating,Validating}WebhookConfiguration objects for a webhook.
-- 
2.43.0


From bb497e3f2a7103cc4217e26c9a8f2c77f59d3ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 21/47] fix: genall: report empty options instead of panicking

---
 pkg/genall/options.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/genall/options.go b/pkg/genall/options.go
index 192235b..080e9f9 100644
--- a/pkg/genall/options.go
+++ b/pkg/genall/options.go
@@ -124,7 +124,7 @@ func protoFromOptions(optionsRegistry *markers.Registry, options []string) (prot
 	gensByName := make(map[string]*Generator)
 
 	for _, rawOpt := range options {
-		if rawOpt[0] != '+' {
+		if !strings.HasPrefix(rawOpt, "+") {
 			rawOpt = "+" + rawOpt // add a `+` to make it acceptable for usage with the registry
 		}
 		defn := optionsRegistry.Lookup(rawOpt, markers.DescribesPackage)
-- 
2.43.0


From d604b87e8d7fed8229472b35932d335bdb91f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 22/47] fix: schemapatcher: don't crash on packages without the
 kind

---
 pkg/schemapatcher/gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 063a7cf..8a93754 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -127,6 +127,10 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 			}
 
 			typeIdent := crdgen.TypeIdent{Package: pkg, Name: groupKind.Kind}
+			if parser.Types[typeIdent] == nil {
+				// not every package of the group and version has the kind
+				continue
+			}
 			parser.NeedFlattenedSchemaFor(typeIdent)
 
 			fullSchema := parser.FlattenedSchemata[typeIdent]
-- 
2.43.0


From 8cd706a093fefa386e9eb7d18ab6e427e915ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 23/47] fix: schemapatcher: report versions without a name
 instead of panicking

---
 pkg/schemapatcher/gen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 8a93754..71f02c5 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -305,8 +305,11 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 	}
 
 	for i, verNode := range versions.Content {
-		nameNode, _, _ := yamlop.GetNode(verNode, "name")
-		if nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
+		nameNode, hasName, err := yamlop.GetNode(verNode, "name")
+		if err != nil {
+			return fmt.Errorf("spec.versions[%d]: %w", i, err)
+		}
+		if !hasName || nameNode.Kind != yaml.ScalarNode || nameNode.ShortTag() != "!!str" {
 			return fmt.Errorf("version name was not a string at spec.versions[%d]", i)
 		}
 		name := nameNode.Value
-- 
2.43.0


From c5966a027c6a1a8b1d436b5cf01a445b150120cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 24/47] fix: schemapatcher: write the manifests in a fixed
 order

---
 pkg/schemapatcher/gen.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 71f02c5..7bc5811 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"gopkg.in/yaml.v3"
 	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
@@ -148,8 +149,21 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 		}
 	}
 
+	// go through the sets in a fixed order, so that the output (and the reported error) is always the same
+	sortedSets := make([]*partialCRDSet, 0, len(partialCRDSets))
+	for _, set := range partialCRDSets {
+		sortedSets = append(sortedSets, set)
+	}
+	sort.Slice(sortedSets, func(i, j int) bool {
+		a, b := sortedSets[i].GroupKind, sortedSets[j].GroupKind
+		if a.Group != b.Group {
+			return a.Group < b.Group
+		}
+		return a.Kind < b.Kind
+	})
+
 	// patch existing CRDs with new schemata
-	for _, existingSet := range partialCRDSets {
+	for _, existingSet := range sortedSets {
 		// first, figure out if we need to merge schemata together if they're *all*
 		// identical (meaning we also don't have any "unset" versions)
 
@@ -187,7 +201,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 	}
 
 	// write the final result out to the new location
-	for _, set := range partialCRDSets {
+	for _, set := range sortedSets {
 		// We assume all CRD versions came from different files, since this
 		// is how controller-gen works.  If they came from the same file,
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
-- 
2.43.0


From 8506785c6787c2de5bb07e0de65653a23afc3313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:29 +0000
Subject: [PATCH 25/47] fix: schemapatcher: keep the other documents of a
 manifest

---
 pkg/schemapatcher/gen.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 7bc5811..49c9bb0 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -17,7 +17,10 @@ limitations under the License.
 package schemapatcher
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"sort"
@@ -219,7 +222,15 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 				// so be compatible with everything else in k8s and choose 2.
 				enc.SetIndent(2)
 
-				return enc.Encode(crd.Yaml)
+				if err := enc.Encode(crd.Yaml); err != nil {
+					return err
+				}
+				for _, doc := range crd.OtherDocs {
+					if err := enc.Encode(doc); err != nil {
+						return err
+					}
+				}
+				return nil
 			}(); err != nil {
 				return err
 			}
@@ -252,6 +263,9 @@ type partialCRDSet struct {
 type partialCRD struct {
 	// Yaml is the raw YAML structure of the CRD.
 	Yaml *yaml.Node
+	// OtherDocs are the documents that follow the CRD in its file.
+	// They're kept as they are.
+	OtherDocs []*yaml.Node
 	// FileName is the source name of the file that this was read from.
 	//
 	// This isn't on partialCRDSet because we could have different CRD versions
@@ -401,8 +415,8 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 		}
 
 		// then actually unmarshal in a manner that preserves ordering, etc
-		var yamlNodeTree yaml.Node
-		if err := yaml.Unmarshal(rawContent, &yamlNodeTree); err != nil {
+		docs, err := allDocs(rawContent)
+		if err != nil || len(docs) == 0 {
 			continue
 		}
 
@@ -418,7 +432,8 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 			res[groupKind].Versions[ver] = struct{}{}
 		}
 		res[groupKind].CRDVersions = append(res[groupKind].CRDVersions, &partialCRD{
-			Yaml:       &yamlNodeTree,
+			Yaml:       docs[0],
+			OtherDocs:  docs[1:],
 			FileName:   fileInfo.Name(),
 			CRDVersion: typeMeta.APIVersion,
 		})
@@ -426,6 +441,21 @@ func crdsFromDirectory(ctx *genall.GenerationContext, dir string) (map[schema.Gr
 	return res, nil
 }
 
+// allDocs parses all documents in the given YAML.
+func allDocs(rawContent []byte) ([]*yaml.Node, error) {
+	var docs []*yaml.Node
+	dec := yaml.NewDecoder(bytes.NewReader(rawContent))
+	for {
+		var doc yaml.Node
+		if err := dec.Decode(&doc); errors.Is(err, io.EOF) {
+			return docs, nil
+		} else if err != nil {
+			return nil, err
+		}
+		docs = append(docs, &doc)
+	}
+}
+
 // isSupportedAPIExtGroupVer checks if the given string-form group-version
 // is one of the known apiextensions versions (v1).
 func isSupportedAPIExtGroupVer(groupVer string) bool {
-- 
2.43.0


From d3660be3948b7475e87711e169aeae89b3a0f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 26/47] fix: schemapatcher: quote strings that YAML 1.1 reads
 as booleans

---
 pkg/schemapatcher/gen.go                   |  1 +
 pkg/schemapatcher/internal/yaml/convert.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 49c9bb0..e7b1e23 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -356,6 +356,7 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 			}
 			schemaNodeTree = schemaNodeTree.Content[0] // get rid of the document node
 			yamlop.SetStyle(schemaNodeTree, 0)         // clear the style so it defaults to an auto-chosen one
+			yamlop.QuoteOldBools(schemaNodeTree)       // the auto-chosen one follows YAML 1.2, kubectl & co read YAML 1.1
 			if err := yamlop.SetNode(verNode, *schemaNodeTree, "schema", "openAPIV3Schema"); err != nil {
 				return fmt.Errorf("spec.versions[%d]: %w", i, err)
 			}
diff --git a/pkg/schemapatcher/internal/yaml/convert.go b/pkg/schemapatcher/internal/yaml/convert.go
index b0ac001..4941b73 100644
--- a/pkg/schemapatcher/internal/yaml/convert.go
+++ b/pkg/schemapatcher/internal/yaml/convert.go
@@ -59,3 +59,18 @@ func SetStyle(root *yaml.Node, style yaml.Style) {
 		node.Style = style
 	})
 }
+
+// QuoteOldBools quotes all strings in the given node tree that
+// YAML 1.1 parsers would read as booleans otherwise.
+func QuoteOldBools(root *yaml.Node) {
+	changeAll(root, func(node *yaml.Node) {
+		if node.Kind != yaml.ScalarNode || node.ShortTag() != "!!str" {
+			return
+		}
+		switch node.Value {
+		case "y", "Y", "yes", "Yes", "YES", "on", "On", "ON",
+			"n", "N", "no", "No", "NO", "off", "Off", "OFF":
+			node.Style = yaml.DoubleQuotedStyle
+		}
+	})
+}
-- 
2.43.0


From fa1fe74356ee5a97b240d4bb030a31f6df5de968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:38 +0000
Subject: [PATCH 27/47] fix: schemapatcher: quote strings with leading line
 breaks

---
 pkg/schemapatcher/gen.go                   |  2 +-
 pkg/schemapatcher/internal/yaml/convert.go | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index e7b1e23..6c8f21d 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -356,7 +356,7 @@ func (e *partialCRD) setVersionedSchemata(newSchemata map[string]apiext.JSONSche
 			}
 			schemaNodeTree = schemaNodeTree.Content[0] // get rid of the document node
 			yamlop.SetStyle(schemaNodeTree, 0)         // clear the style so it defaults to an auto-chosen one
-			yamlop.QuoteOldBools(schemaNodeTree)       // the auto-chosen one follows YAML 1.2, kubectl & co read YAML 1.1
+			yamlop.QuoteUnsafe(schemaNodeTree)         // except for strings that wouldn't be read as such by kubectl & co
 			if err := yamlop.SetNode(verNode, *schemaNodeTree, "schema", "openAPIV3Schema"); err != nil {
 				return fmt.Errorf("spec.versions[%d]: %w", i, err)
 			}
diff --git a/pkg/schemapatcher/internal/yaml/convert.go b/pkg/schemapatcher/internal/yaml/convert.go
index 4941b73..0c860ee 100644
--- a/pkg/schemapatcher/internal/yaml/convert.go
+++ b/pkg/schemapatcher/internal/yaml/convert.go
@@ -19,6 +19,7 @@ package yaml
 import (
 	"encoding/json"
 	"fmt"
+	"strings"
 
 	"gopkg.in/yaml.v3"
 )
@@ -60,13 +61,19 @@ func SetStyle(root *yaml.Node, style yaml.Style) {
 	})
 }
 
-// QuoteOldBools quotes all strings in the given node tree that
-// YAML 1.1 parsers would read as booleans otherwise.
-func QuoteOldBools(root *yaml.Node) {
+// QuoteUnsafe quotes all strings in the given node tree that would
+// not be read back as they are otherwise: ones that YAML 1.1 parsers
+// take for booleans, and ones with leading line breaks, which the
+// encoder doesn't write correctly as block scalars.
+func QuoteUnsafe(root *yaml.Node) {
 	changeAll(root, func(node *yaml.Node) {
 		if node.Kind != yaml.ScalarNode || node.ShortTag() != "!!str" {
 			return
 		}
+		if strings.HasPrefix(node.Value, "\n") {
+			node.Style = yaml.DoubleQuotedStyle
+			return
+		}
 		switch node.Value {
 		case "y", "Y", "yes", "Yes", "YES", "on", "On", "ON",
 			"n", "N", "no", "No", "NO", "off", "Off", "OFF":
-- 
2.43.0


From 1c30f61ec3c25a706748d47d0fa7f152c94371a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 28/47] fix: deepcopy: allocate pointers to named slices, maps
 and pointers with their own type

---
 pkg/deepcopy/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b7bed1d..57bb3f9 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -545,7 +545,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 
 	// pass-by-reference types get delegated to the main switch
 	if passesByReference(underlyingElem) {
-		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: underlyingElem}).Syntax(c.pkg, c.importsList))
+		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
 			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
-- 
2.43.0


From a406d96ccb3515f273baff23ad97e96d6810179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 29/47] fix: deepcopy: slices of pointers, and pointers to
 pointers, to types with their own methods

---
 pkg/deepcopy/traverse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 57bb3f9..86b5778 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -410,8 +410,9 @@ func (c *copyMethodMaker) genSliceDeepCopy(actualName *namingInfo, sliceType *ty
 	c.Linef("*out = make(%[1]s, len(*in))", actualName.Syntax(c.pkg, c.importsList))
 
 	// check if we need to do anything special, or just copy each element appropriately
+	_, elemIsPtr := sliceType.Elem().(*types.Pointer)
 	switch {
-	case hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
+	case !elemIsPtr && hasAnyDeepCopyMethod(c.pkg, sliceType.Elem()):
 		// just use deepcopy if it's present (deepcopyinto will be filled in by our code)
 		c.For("i := range *in", func() {
 			c.Line("(*in)[i].DeepCopyInto(&(*out)[i])")
@@ -520,9 +521,11 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
 	// if we have a manually written deepcopy, just use that
+	// (pointers to pointers have no methods of their own)
+	_, elemIsPtr := pointerType.Elem().(*types.Pointer)
 	hasDeepCopy, copyOnPtr := hasDeepCopyMethod(c.pkg, pointerType.Elem())
 	hasDeepCopyInto := hasDeepCopyIntoMethod(c.pkg, pointerType.Elem())
-	if hasDeepCopyInto || hasDeepCopy {
+	if !elemIsPtr && (hasDeepCopyInto || hasDeepCopy) {
 		outNeedsPtr := resultWillBePointer(pointerType.Elem(), hasDeepCopy, copyOnPtr)
 		if hasDeepCopy {
 			outNeedsPtr = copyOnPtr
-- 
2.43.0


From 0c3937a91496f10509209842a5927844122cac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 30/47] fix: deepcopy: no methods for named pointer types

---
 pkg/deepcopy/traverse.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 86b5778..57eefe7 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -629,10 +629,9 @@ func shouldBeCopied(pkg *loader.Package, info *markers.TypeInfo) bool {
 	lastType := typeInfo
 	if _, isNamed := typeInfo.(*types.Named); isNamed {
 		// according to gengo, everything named is an alias, except for an alias to a pointer,
-		// which is just a pointer, afaict.  Just roll with it.
-		if asPtr, isPtr := typeInfo.(*types.Named).Underlying().(*types.Pointer); isPtr {
-			lastType = asPtr
-			typeInfo = asPtr
+		// which is just a pointer, afaict.  Those can't have methods.
+		if _, isPtr := typeInfo.Underlying().(*types.Pointer); isPtr {
+			return false
 		}
 
 		// if it has a manual deepcopy or deepcopyinto, we're fine
-- 
2.43.0


From 01ec002988b68040f91f2bb5a2f123555c32de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 31/47] fix: deepcopy: aliases as map keys and values

---
 pkg/deepcopy/traverse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 57eefe7..4cd3b37 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -756,7 +756,7 @@ func eventualUnderlyingType(typeInfo types.Type) types.Type {
 
 // fineToShallowCopy checks if a shallow-copying a type is equivalent to deepcopy-ing it.
 func fineToShallowCopy(typeInfo types.Type) bool {
-	switch typeInfo := typeInfo.(type) {
+	switch typeInfo := types.Unalias(typeInfo).(type) {
 	case *types.Basic:
 		// basic types (int, string, etc) are always fine to shallow-copy,
 		// except for Invalid and UnsafePointer, which can't be copied at all.
-- 
2.43.0


From dbf2fc6b771b599be79141d7eded191fb605f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 32/47] fix: deepcopy: fields of named pointer types

---
 pkg/deepcopy/traverse.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index 4cd3b37..aaceee5 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -517,9 +517,15 @@ func (c *copyMethodMaker) genStructDeepCopy(_ *namingInfo, structType *types.Str
 
 // genPointerDeepCopy generates DeepCopy code for the given named type whose
 // underlying type is the given struct.
-func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.Pointer) {
+func (c *copyMethodMaker) genPointerDeepCopy(actualName *namingInfo, pointerType *types.Pointer) {
 	underlyingElem := eventualUnderlyingType(pointerType.Elem())
 
+	// named pointer types have no methods, so those of the element need to be called on the element
+	in := "(*in)"
+	if _, isNamed := types.Unalias(actualName.typeInfo).(*types.Named); isNamed {
+		in = "(**in)"
+	}
+
 	// if we have a manually written deepcopy, just use that
 	// (pointers to pointers have no methods of their own)
 	_, elemIsPtr := pointerType.Elem().(*types.Pointer)
@@ -531,9 +537,9 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 			outNeedsPtr = copyOnPtr
 		}
 		if outNeedsPtr {
-			c.Line("*out = (*in).DeepCopy()")
+			c.Linef("*out = %s.DeepCopy()", in)
 		} else {
-			c.Line("x := (*in).DeepCopy()")
+			c.Linef("x := %s.DeepCopy()", in)
 			c.Line("*out = &x")
 		}
 		return
@@ -551,7 +557,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 		c.Linef("*out = new(%s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
 		c.If("**in != nil", func() {
 			c.Line("in, out := *in, *out")
-			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: underlyingElem}, eventualUnderlyingType(underlyingElem))
+			c.genDeepCopyIntoBlock(&namingInfo{typeInfo: pointerType.Elem()}, underlyingElem)
 		})
 		return
 	}
@@ -560,7 +566,7 @@ func (c *copyMethodMaker) genPointerDeepCopy(_ *namingInfo, pointerType *types.P
 	switch underlyingElem := underlyingElem.(type) {
 	case *types.Struct:
 		c.Linef("*out = new(%[1]s)", (&namingInfo{typeInfo: pointerType.Elem()}).Syntax(c.pkg, c.importsList))
-		c.Line("(*in).DeepCopyInto(*out)")
+		c.Linef("%s.DeepCopyInto(*out)", in)
 	default:
 		c.pkg.AddError(fmt.Errorf("invalid pointer element type: %s", underlyingElem))
 		return
-- 
2.43.0


From da15e7ff3874e91c8f7d9697bf74c4f06aea4f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:04 +0000
Subject: [PATCH 33/47] fix: deepcopy: import names that are no valid or no
 free identifiers

---
 pkg/deepcopy/traverse.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index aaceee5..b4ef5c4 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -19,6 +19,7 @@ package deepcopy
 import (
 	"fmt"
 	"go/ast"
+	"go/token"
 	"go/types"
 	"io"
 	"path"
@@ -106,7 +107,7 @@ func (l *importsList) NeedImport(importPath string) string {
 	// otherwise, calculate an import alias by joining path parts till we get something unique
 	restPath, nextWord := path.Split(importPath)
 
-	for otherPath, exists := "", true; exists && otherPath != importPath; otherPath, exists = l.byAlias[alias] {
+	for otherPath, exists := "", true; exists && otherPath != importPath || !l.usable(alias); otherPath, exists = l.byAlias[alias] {
 		if restPath == "" {
 			// do something else to disambiguate if we're run out of parts and
 			// still have duplicates, somehow
@@ -137,6 +138,21 @@ func (l *importsList) NeedImport(importPath string) string {
 	return alias
 }
 
+// usable checks if the given alias is a valid name for an import that doesn't
+// get in the way of other names in the generated code.
+func (l *importsList) usable(alias string) bool {
+	switch alias {
+	case "_", "init":
+		return false
+	case "in", "out", "key", "val", "i", "x", "c", "clone", "inVal", "outVal":
+		// local names in the generated code
+		return false
+	}
+	return token.IsIdentifier(alias) &&
+		types.Universe.Lookup(alias) == nil &&
+		(l.pkg.Types == nil || l.pkg.Types.Scope().Lookup(alias) == nil)
+}
+
 // ImportSpecs returns a string form of each import spec
 // (i.e. `alias "path/to/import").  Aliases are only present
 // when they don't match the package name.
-- 
2.43.0


From da7ac6e5fe7a94cd84cdeba8aab14a82b9d092ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:22 +0000
Subject: [PATCH 34/47] fix: deepcopy: report predeclared types that cannot be
 copied instead of crashing

---
 pkg/deepcopy/traverse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/deepcopy/traverse.go b/pkg/deepcopy/traverse.go
index b4ef5c4..46e2928 100644
--- a/pkg/deepcopy/traverse.go
+++ b/pkg/deepcopy/traverse.go
@@ -214,8 +214,8 @@ func (n *namingInfo) Syntax(basePkg *loader.Package, imports *importsList) strin
 	// register that we need an import for this type,
 	// so we can get the appropriate alias to use.
 	otherPkg := typeName.Pkg()
-	if otherPkg == basePkg.Types {
-		// local import
+	if otherPkg == nil || otherPkg == basePkg.Types {
+		// predeclared, or local import
 		return typeName.Name()
 	}
 	alias := imports.NeedImport(loader.NonVendorPath(otherPkg.Path()))
-- 
2.43.0


From 4a5fcb52b3b19ef725662a0ee096328e4cfa41e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 35/47] fix: genall: report errors of closing the output

---
 pkg/genall/genall.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/genall/genall.go b/pkg/genall/genall.go
index b6f3740..3c782ba 100644
--- a/pkg/genall/genall.go
+++ b/pkg/genall/genall.go
@@ -141,12 +141,16 @@ func TransformRemoveCreationTimestamp(obj map[string]interface{}) error {
 // WriteYAML writes the given objects out, serialized as YAML, using the
 // context's OutputRule.  Objects are written as separate documents, separated
 // from each other by `---` (as per the YAML spec).
-func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) error {
+func (g GenerationContext) WriteYAML(itemPath, headerText string, objs []interface{}, options ...*WriteYAMLOptions) (err error) {
 	out, err := g.Open(nil, itemPath)
 	if err != nil {
 		return err
 	}
-	defer out.Close()
+	defer func() {
+		if closeErr := out.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	_, err = out.Write([]byte(headerText))
 	if err != nil {
-- 
2.43.0


From 2df2181d326016e3cbcd64074ba1183c89945ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 36/47] fix: deepcopy: report errors of closing the output

---
 pkg/deepcopy/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/deepcopy/gen.go b/pkg/deepcopy/gen.go
index a85cc85..3fefe10 100644
--- a/pkg/deepcopy/gen.go
+++ b/pkg/deepcopy/gen.go
@@ -291,7 +291,11 @@ func writeOut(ctx *genall.GenerationContext, root *loader.Package, outBytes []by
 		root.AddError(err)
 		return
 	}
-	defer outputFile.Close()
+	defer func() {
+		if err := outputFile.Close(); err != nil {
+			root.AddError(err)
+		}
+	}()
 	n, err := outputFile.Write(outBytes)
 	if err != nil {
 		root.AddError(err)
-- 
2.43.0


From de68fef403be032a11c3ae87007716a4ce3af26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 37/47] fix: schemapatcher: report errors of closing the output

---
 pkg/schemapatcher/gen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/schemapatcher/gen.go b/pkg/schemapatcher/gen.go
index 6c8f21d..01a18fd 100644
--- a/pkg/schemapatcher/gen.go
+++ b/pkg/schemapatcher/gen.go
@@ -210,12 +210,16 @@ func (g Generator) Generate(ctx *genall.GenerationContext) (result error) {
 		// it'd be non-sensical, since you couldn't reasonably use kubectl
 		// with them against older servers.
 		for _, crd := range set.CRDVersions {
-			if err := func() error {
+			if err := func() (err error) {
 				outWriter, err := ctx.OutputRule.Open(nil, crd.FileName)
 				if err != nil {
 					return err
 				}
-				defer outWriter.Close()
+				defer func() {
+					if closeErr := outWriter.Close(); err == nil {
+						err = closeErr
+					}
+				}()
 
 				enc := yaml.NewEncoder(outWriter)
 				// yaml.v2 defaults to indent=2, yaml.v3 defaults to indent=4,
-- 
2.43.0


From a2483145f6a7d453d08ffc0293226e467e1d9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 38/47] fix: keep the end of an unquoted string argument that
 is followed by whitespace

Skipping whitespace clears the scanner's current token, so computing the end
of a bare string from the token after the loop cut off its last token (or all
of it): groups=a ;b meant the groups "" and "b".
---
 pkg/markers/parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/markers/parse.go b/pkg/markers/parse.go
index 840129c..29a22f0 100644
--- a/pkg/markers/parse.go
+++ b/pkg/markers/parse.go
@@ -402,11 +402,12 @@ func (a *Argument) parseString(scanner *sc.Scanner, raw string, out reflect.Valu
 	// separator), ';' (the slice separator), ':' (the map separator), or '}'
 	// (delimitted slice ender)
 	startPos := scanner.Position.Offset
+	endPos := startPos + len(scanner.TokenText())
 	for hint := peekNoSpace(scanner); hint != ',' && hint != ';' && hint != ':' && hint != '}' && hint != sc.EOF; hint = peekNoSpace(scanner) {
-		// skip this token
+		// skip this token, and keep its end: skipping whitespace clears the current token
 		scanner.Scan()
+		endPos = scanner.Position.Offset + len(scanner.TokenText())
 	}
-	endPos := scanner.Position.Offset + len(scanner.TokenText())
 	castAndSet(out, reflect.ValueOf(raw[startPos:endPos]))
 }
 
-- 
2.43.0


From b2ece5970ab90d67f2dbb5d67c848b691250e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:24 +0000
Subject: [PATCH 39/47] fix: rbac: don't merge rules whose names contain the
 characters their keys are made of

The keys that rules are merged by joined names with an unescaped "&" and
" + ", so that, say, the resource name "a&b" and the resource names "a" and
"b" were taken for the same and one rule got the other's verbs.
---
 pkg/rbac/parser.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkg/rbac/parser.go b/pkg/rbac/parser.go
index 8bc5686..73efd75 100644
--- a/pkg/rbac/parser.go
+++ b/pkg/rbac/parser.go
@@ -81,32 +81,44 @@ func (keys ruleKeys) Len() int           { return len(keys) }
 func (keys ruleKeys) Swap(i, j int)      { keys[i], keys[j] = keys[j], keys[i] }
 func (keys ruleKeys) Less(i, j int) bool { return keys[i].String() < keys[j].String() }
 
+// joinForKey joins strings so that different lists of them give different results.
+func joinForKey(strs []string) string {
+	escaped := make([]string, len(strs))
+	for i, str := range strs {
+		// escape what separates the parts of a key
+		str = strings.ReplaceAll(str, "%", "%25")
+		str = strings.ReplaceAll(str, "&", "%26")
+		escaped[i] = strings.ReplaceAll(str, " ", "%20")
+	}
+	return strings.Join(escaped, "&")
+}
+
 // key normalizes the Rule and returns a ruleKey object.
 func (r *Rule) key() ruleKey {
 	r.normalize()
 	return ruleKey{
-		Groups:        strings.Join(r.Groups, "&"),
-		Resources:     strings.Join(r.Resources, "&"),
-		ResourceNames: strings.Join(r.ResourceNames, "&"),
-		URLs:          strings.Join(r.URLs, "&"),
+		Groups:        joinForKey(r.Groups),
+		Resources:     joinForKey(r.Resources),
+		ResourceNames: joinForKey(r.ResourceNames),
+		URLs:          joinForKey(r.URLs),
 	}
 }
 
 func (r *Rule) keyWithGroupResourceNamesURLsVerbs() string {
 	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
+	verbs := joinForKey(r.Verbs)
 	return fmt.Sprintf("%s + %s + %s + %s", key.Groups, key.ResourceNames, key.URLs, verbs)
 }
 
 func (r *Rule) keyWithResourcesResourceNamesURLsVerbs() string {
 	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
+	verbs := joinForKey(r.Verbs)
 	return fmt.Sprintf("%s + %s + %s + %s", key.Resources, key.ResourceNames, key.URLs, verbs)
 }
 
 func (r *Rule) keyWitGroupResourcesResourceNamesVerbs() string {
 	key := r.key()
-	verbs := strings.Join(r.Verbs, "&")
+	verbs := joinForKey(r.Verbs)
 	return fmt.Sprintf("%s + %s + %s + %s", key.Groups, key.Resources, key.ResourceNames, verbs)
 }
 
-- 
2.43.0


From 4f8029d099227ec45d73d50717648bbc4b06a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 40/47] fix: help shows the types of number and map arguments

They had none: `+kubebuilder:validation:Maximum=<>`.
---
 pkg/genall/help/types.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index be11104..0abc335 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -33,19 +33,25 @@ type DetailedHelp struct {
 
 // Argument is the type data for a marker argument.
 type Argument struct {
-	// Type is the data type of the argument (string, bool, int, slice, any, raw, invalid)
+	// Type is the data type of the argument (string, bool, int, float64, slice, map, any, raw, invalid)
 	Type string `json:"type"`
 	// Optional marks this argument as optional.
 	Optional bool `json:"optional"`
-	// ItemType contains the type of the slice item, if this is a slice
+	// ItemType contains the type of the slice item, if this is a slice,
+	// or the type of the map values, if this is a map
 	ItemType *Argument `json:"itemType,omitempty"`
 }
 
 func (a Argument) typeString(out *strings.Builder) {
-	if a.Type == "slice" {
+	switch a.Type {
+	case "slice":
 		out.WriteString("[]")
 		a.ItemType.typeString(out)
 		return
+	case "map":
+		out.WriteString("map[string]")
+		a.ItemType.typeString(out)
+		return
 	}
 
 	out.WriteString(a.Type)
@@ -120,6 +126,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 	switch argRaw.Type {
 	case markers.IntType:
 		res.Type = "int"
+	case markers.NumberType:
+		res.Type = "float64"
 	case markers.StringType:
 		res.Type = "string"
 	case markers.BoolType:
@@ -128,6 +136,8 @@ func ForArgument(argRaw markers.Argument) Argument {
 		res.Type = "any"
 	case markers.SliceType:
 		res.Type = "slice"
+	case markers.MapType:
+		res.Type = "map"
 	case markers.RawType:
 		res.Type = "raw"
 	case markers.InvalidType:
-- 
2.43.0


From f0a77c88fef5acf955c5ef5dd6e48f8ba0d94b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 41/47] fix: help lists markers in the same order each time

Markers with the same name for different targets came in an order that
changed from run to run, since the sort was not stable.
---
 pkg/genall/help/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/genall/help/types.go b/pkg/genall/help/types.go
index 0abc335..1c1b697 100644
--- a/pkg/genall/help/types.go
+++ b/pkg/genall/help/types.go
@@ -206,7 +206,8 @@ func ByCategory(reg *markers.Registry, sorter SortGroup) []CategoryDoc {
 	res := make([]CategoryDoc, len(allGroups))
 	for i, groupName := range allGroups {
 		markers := groupedMarkers[groupName]
-		sort.Slice(markers, func(i, j int) bool {
+		// the same name can be there for several targets, which are kept in order
+		sort.SliceStable(markers, func(i, j int) bool {
 			return sorter.Less(markers[i], markers[j])
 		})
 
-- 
2.43.0


From fa66ce31e834867a527bc74f5f11cf17b0887680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 42/47] fix: the help of +kubebuilder:webhookconfiguration is
 about its own arguments

It was that of +kubebuilder:webhook.
---
 pkg/webhook/parser.go                  | 5 +++--
 pkg/webhook/zz_generated.markerhelp.go | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/webhook/parser.go b/pkg/webhook/parser.go
index aba21a1..ea24725 100644
--- a/pkg/webhook/parser.go
+++ b/pkg/webhook/parser.go
@@ -56,8 +56,9 @@ func supportedWebhookVersions() []string {
 	return []string{defaultWebhookVersion}
 }
 
-// +controllertools:marker:generateHelp
+// +controllertools:marker:generateHelp:category=Webhook
 
+// WebhookConfig specifies the names of webhook configuration objects.
 type WebhookConfig struct {
 	// Mutating marks this as a mutating webhook (it's validating only if false)
 	//
@@ -456,7 +457,7 @@ func (Generator) RegisterMarkers(into *markers.Registry) error {
 		return err
 	}
 	into.AddHelp(ConfigDefinition, Config{}.Help())
-	into.AddHelp(WebhookConfigDefinition, Config{}.Help())
+	into.AddHelp(WebhookConfigDefinition, WebhookConfig{}.Help())
 	return nil
 }
 
diff --git a/pkg/webhook/zz_generated.markerhelp.go b/pkg/webhook/zz_generated.markerhelp.go
index 53ce42f..6ccd89d 100644
--- a/pkg/webhook/zz_generated.markerhelp.go
+++ b/pkg/webhook/zz_generated.markerhelp.go
@@ -130,9 +130,9 @@ func (Generator) Help() *markers.DefinitionHelp {
 
 func (WebhookConfig) Help() *markers.DefinitionHelp {
 	return &markers.DefinitionHelp{
-		Category: "",
+		Category: "Webhook",
 		DetailedHelp: markers.DetailedHelp{
-			Summary: "",
+			Summary: "specifies the names of webhook configuration objects.",
 			Details: "",
 		},
 		FieldHelp: map[string]markers.DetailedHelp{
-- 
2.43.0


From 8724133703b212441787693e67a375f9812d0aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 43/47] fix: helpgen keeps the space before the year in headers

It made "Copyright2019" of "Copyright YEAR".
---
 cmd/helpgen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index b7b81a8..416edcb 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -121,7 +121,7 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		}
 		headerText = string(headerBytes)
 	}
-	headerText = strings.ReplaceAll(headerText, " YEAR", g.Year)
+	headerText = strings.ReplaceAll(headerText, " YEAR", " "+g.Year)
 
 	for _, root := range ctx.Roots {
 		byType := make(map[string]string)
-- 
2.43.0


From 86a4cd56f99768ff4775915937784f49e50793ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 44/47] fix: helpgen does not panic without a header file

The headerFile argument is optional.
---
 cmd/helpgen/main.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/helpgen/main.go b/cmd/helpgen/main.go
index 416edcb..b62ae85 100644
--- a/cmd/helpgen/main.go
+++ b/cmd/helpgen/main.go
@@ -155,9 +155,6 @@ func (g Generator) Generate(ctx *genall.GenerationContext) error {
 		sort.Strings(typeNames)
 
 		outContent := new(bytes.Buffer)
-		if headerText == "" {
-			panic("at the disco!")
-		}
 		fmt.Fprintf(outContent, header, root.Name, headerText)
 
 		for _, typ := range typeNames {
-- 
2.43.0


From cf7623f76a7f8d5447c1204c059f928297d4b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:36 +0000
Subject: [PATCH 45/47] fix: applyconfiguration reports markers of packages
 that can't be parsed

They were ignored, so that nothing was generated without an error.
---
 pkg/applyconfiguration/gen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 73c727a..76db360 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -169,7 +169,10 @@ type ObjectGenCtx struct {
 // generateForPackage generates apply configuration implementations for
 // types in the given package, writing the formatted result to given writer.
 func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
-	enabled, _ := enabledOnPackage(ctx.Collector, root)
+	enabled, err := enabledOnPackage(ctx.Collector, root)
+	if err != nil {
+		return err
+	}
 	if !enabled {
 		return nil
 	}
-- 
2.43.0


From 699cbc4619d7101909f1b6b406a6df646f567722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:15 +0000
Subject: [PATCH 46/47] fix: applyconfiguration generates for types that are
 enabled in packages that aren't

The help of +kubebuilder:ac:generate says that it can be used to generate
apply configurations for a single type when the generation for its package
is disabled.
---
 pkg/applyconfiguration/gen.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/applyconfiguration/gen.go b/pkg/applyconfiguration/gen.go
index 76db360..02b8a2f 100644
--- a/pkg/applyconfiguration/gen.go
+++ b/pkg/applyconfiguration/gen.go
@@ -93,11 +93,13 @@ func enabledOnPackage(col *markers.Collector, pkg *loader.Package) (bool, error)
 	return false, nil
 }
 
-func enabledOnType(info *markers.TypeInfo) bool {
+// enabledOnType tells if apply configurations are generated for the type:
+// its own marker overrides what is said for its package.
+func enabledOnType(info *markers.TypeInfo, pkgEnabled bool) bool {
 	if typeMarker := info.Markers.Get(enableTypeMarker.Name); typeMarker != nil {
 		return typeMarker.(bool)
 	}
-	return isCRD(info)
+	return pkgEnabled && isCRD(info)
 }
 
 func outputPkg(col *markers.Collector, pkg *loader.Package) string {
@@ -173,7 +175,13 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 	if err != nil {
 		return err
 	}
-	if !enabled {
+	anyEnabled := enabled
+	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
+		anyEnabled = anyEnabled || enabledOnType(info, enabled)
+	}); err != nil {
+		return err
+	}
+	if !anyEnabled {
 		return nil
 	}
 	if len(root.GoFiles) == 0 {
@@ -211,7 +219,7 @@ func (ctx *ObjectGenCtx) generateForPackage(root *loader.Package) error {
 	// For each type we think should be generated, make sure it has a genclient
 	// marker else the apply generator will not generate it.
 	if err := markers.EachType(ctx.Collector, root, func(info *markers.TypeInfo) {
-		if !enabledOnType(info) {
+		if !enabledOnType(info, enabled) {
 			return
 		}
 
-- 
2.43.0


From f7f57486c4ea34e224df70f225578b46dc03e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:59 +0000
Subject: [PATCH 47/47] fix: type-scaffold rejects kinds that cannot be names
 of Go types

A kind like 3D is CamelCase, so it was accepted, but what was printed for
it is no valid Go.
---
 pkg/typescaffold/resource.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/typescaffold/resource.go b/pkg/typescaffold/resource.go
index 7024a7c..66c6a92 100644
--- a/pkg/typescaffold/resource.go
+++ b/pkg/typescaffold/resource.go
@@ -18,6 +18,7 @@ package typescaffold
 
 import (
 	"fmt"
+	"go/token"
 	"strings"
 
 	"github.com/gobuffalo/flect"
@@ -49,5 +50,10 @@ func (r *Resource) Validate() error {
 		return fmt.Errorf("kind must be CamelCase (expected %s was %s)", flect.Pascalize(r.Kind), r.Kind)
 	}
 
+	// the kind is used as the name of a type (e.g. 3D is CamelCase, but can't be one)
+	if !token.IsIdentifier(r.Kind) || !token.IsExported(r.Kind) {
+		return fmt.Errorf("kind must be an exported Go identifier (was %s)", r.Kind)
+	}
+
 	return nil
 }
-- 
2.43.0

