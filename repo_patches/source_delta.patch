From 134341726e2d8065808646645b11dcc0ceeaba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 01/15] fix: compare a type definition and its extension
 independently of each other and in a fixed order

---
 pkg/compare/compare.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e7b66b9..40e9f7d 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -275,17 +275,18 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 // changeInTypes change in al the types
 func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
-	persistedType := map[string][]*ast.Definition{}
 	//Check if types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, persistedType, false)...)
+	removedTypes, persistedTypes := checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, false)
+	changes = append(changes, removedTypes...)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, persistedType, true)...)
+	removedExtensions, persistedExtensions := checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, true)
+	changes = append(changes, removedExtensions...)
 	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
 
 	//compare persisted types for changes in fields/directives
-	for _, defs := range persistedType {
+	for _, defs := range append(persistedTypes, persistedExtensions...) {
 		ot := defs[0]
 		nt := defs[1]
 		if ot.Kind == ast.Enum && nt.Kind == ast.Enum {
@@ -328,8 +329,9 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	return changes
 }
 
-func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, persistedType map[string][]*ast.Definition, isExtended bool) []*Change {
+func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, isExtended bool) ([]*Change, [][]*ast.Definition) {
 	var changes []*Change
+	var persistedTypes [][]*ast.Definition
 	for _, ot := range oldSchemaDefs {
 		nt := newSchemaDefs.ForName(ot.Name)
 		if nt == nil {
@@ -346,10 +348,10 @@ func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.Defini
 				position:         ot.Position,
 			})
 		} else {
-			persistedType[ot.Name] = []*ast.Definition{ot, nt}
+			persistedTypes = append(persistedTypes, []*ast.Definition{ot, nt})
 		}
 	}
-	return changes
+	return changes, persistedTypes
 }
 
 func checkTypeAdded(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, isExtended bool) []*Change {
-- 
2.43.0


From acfcea39e4b245b3a736162deff2c899a5182ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 02/15] fix: compare all extension blocks of a type together

---
 pkg/compare/compare.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 40e9f7d..324b0fb 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -281,9 +281,10 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed/persisted
-	removedExtensions, persistedExtensions := checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, true)
+	oldExtensions, newExtensions := mergeExtensions(oldSchema.Extensions), mergeExtensions(newSchema.Extensions)
+	removedExtensions, persistedExtensions := checkTypeRemoved(oldExtensions, newExtensions, true)
 	changes = append(changes, removedExtensions...)
-	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
+	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
 
 	//compare persisted types for changes in fields/directives
 	for _, defs := range append(persistedTypes, persistedExtensions...) {
@@ -329,6 +330,33 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	return changes
 }
 
+// mergeExtensions combines all the extension blocks of a type into one definition, so that they are compared together
+func mergeExtensions(extensions ast.DefinitionList) ast.DefinitionList {
+	var merged ast.DefinitionList
+	for _, ext := range extensions {
+		if extensions.ForName(ext.Name) != ext {
+			continue //part of an earlier block of the same type
+		}
+		def := &ast.Definition{
+			Kind:        ext.Kind,
+			Description: ext.Description,
+			Name:        ext.Name,
+			Position:    ext.Position,
+		}
+		for _, block := range extensions {
+			if block.Name == ext.Name {
+				def.Directives = append(def.Directives, block.Directives...)
+				def.Interfaces = append(def.Interfaces, block.Interfaces...)
+				def.Fields = append(def.Fields, block.Fields...)
+				def.Types = append(def.Types, block.Types...)
+				def.EnumValues = append(def.EnumValues, block.EnumValues...)
+			}
+		}
+		merged = append(merged, def)
+	}
+	return merged
+}
+
 func checkTypeRemoved(oldSchemaDefs ast.DefinitionList, newSchemaDefs ast.DefinitionList, isExtended bool) ([]*Change, [][]*ast.Definition) {
 	var changes []*Change
 	var persistedTypes [][]*ast.Definition
-- 
2.43.0


From 429e227d3c30fa3f2476fbf585a64999421d8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:49 +0000
Subject: [PATCH 03/15] fix: look for root operations in every schema block,
 not only in the first

---
 pkg/compare/compare.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 324b0fb..c84e55c 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -197,38 +197,38 @@ func changeInSchema(oldSchemaDefs ast.SchemaDefinitionList, newSchemaDefs ast.Sc
 		return changes
 	}
 	if len(oldSchemaDefs) > 0 && len(newSchemaDefs) == 0 {
-		oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
+		oldQuery := getOperationForName(oldSchemaDefs, ast.Query)
 		changes = append(changes, changesInSchemaOperation(oldQuery, nil, ast.Query)...)
 
-		oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
+		oldMutation := getOperationForName(oldSchemaDefs, ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(oldMutation, nil, ast.Mutation)...)
 
-		oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
+		oldSubscription := getOperationForName(oldSchemaDefs, ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(oldSubscription, nil, ast.Subscription)...)
 		return changes
 	}
 	if len(oldSchemaDefs) == 0 && len(newSchemaDefs) > 0 {
-		newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+		newQuery := getOperationForName(newSchemaDefs, ast.Query)
 		changes = append(changes, changesInSchemaOperation(nil, newQuery, ast.Query)...)
 
-		newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+		newMutation := getOperationForName(newSchemaDefs, ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(nil, newMutation, ast.Mutation)...)
 
-		newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+		newSubscription := getOperationForName(newSchemaDefs, ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(nil, newSubscription, ast.Subscription)...)
 		return changes
 	}
 
-	oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
-	newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+	oldQuery := getOperationForName(oldSchemaDefs, ast.Query)
+	newQuery := getOperationForName(newSchemaDefs, ast.Query)
 	changes = append(changes, changesInSchemaOperation(oldQuery, newQuery, ast.Query)...)
 
-	oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
-	newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+	oldMutation := getOperationForName(oldSchemaDefs, ast.Mutation)
+	newMutation := getOperationForName(newSchemaDefs, ast.Mutation)
 	changes = append(changes, changesInSchemaOperation(oldMutation, newMutation, ast.Mutation)...)
 
-	oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
-	newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+	oldSubscription := getOperationForName(oldSchemaDefs, ast.Subscription)
+	newSubscription := getOperationForName(newSchemaDefs, ast.Subscription)
 	changes = append(changes, changesInSchemaOperation(oldSubscription, newSubscription, ast.Subscription)...)
 
 	return changes
@@ -1308,10 +1308,12 @@ func isWrappingType(typ *ast.Type) bool {
 	return isListType(typ) || isNonNullType(typ)
 }
 
-func getOperationForName(ops ast.OperationTypeDefinitionList, name ast.Operation) *ast.OperationTypeDefinition {
-	for _, op := range ops {
-		if op.Operation == name {
-			return op
+func getOperationForName(schemaDefs ast.SchemaDefinitionList, name ast.Operation) *ast.OperationTypeDefinition {
+	for _, schemaDef := range schemaDefs {
+		for _, op := range schemaDef.OperationTypes {
+			if op.Operation == name {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 40044521fe9d9daeef7fa45452be59ab2646dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:50 +0000
Subject: [PATCH 04/15] fix: report the removal of the deprecation of an enum
 value

---
 pkg/compare/compare.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index c84e55c..1d9b5aa 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -59,6 +59,8 @@ const (
 	EnumValueDeprecationReasonChanged ChangeType = "ENUM_VALUE_DEPRECATION_REASON_CHANGED"
 	// EnumValueDeprecationAdded Enum Value Deprecation Added
 	EnumValueDeprecationAdded ChangeType = "ENUM_VALUE_DEPRECATION_ADDED"
+	// EnumValueDeprecationRemoved Enum Value Deprecation Removed
+	EnumValueDeprecationRemoved ChangeType = "ENUM_VALUE_DEPRECATION_REMOVED"
 	// FieldRemoved Field Removed
 	FieldRemoved ChangeType = "FIELD_REMOVED"
 	// FieldAdded Field Added
@@ -660,6 +662,15 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 			position:         nv.Position,
 		})
 	}
+	if oDep != nil && nDep == nil {
+		changes = append(changes, &Change{
+			changeType:       EnumValueDeprecationRemoved,
+			criticalityLevel: Dangerous,
+			message:          fmt.Sprintf("Enum value '%s' deprecation removed in enum '%s' ", ov.Name, oDef.Name),
+			path:             fmt.Sprintf("%s.%s", oDef.Name, ov.Name),
+			position:         nv.Position,
+		})
+	}
 	if oDep != nil && nDep != nil {
 		oReason := oDep.Arguments.ForName("reason")
 		nReason := nDep.Arguments.ForName("reason")
-- 
2.43.0


From 16be083b189a862e890ec97e9857b77b3d271fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 05/15] fix: do not report unchanged repeated directives
 without arguments

---
 pkg/compare/compare.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 1d9b5aa..e014d30 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -1164,6 +1164,7 @@ func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveLis
 				haveSameArgVals := false
 				for _, nd := range nDirList {
 					if len(od.Arguments) == len(nd.Arguments) {
+						haveSameArgVals = true // no argument differs so far
 						for _, oArg := range od.Arguments {
 							nArg := nd.Arguments.ForName(oArg.Name)
 							if nArg != nil && oArg.Value.String() == nArg.Value.String() {
-- 
2.43.0


From 6e42cd427aacb3a6cd01b8e98dff67909b15bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 06/15] fix: flag type names starting with the letter a in
 type-caps

---
 pkg/linter/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 56bdc5e..1fd80c4 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -299,7 +299,7 @@ func FieldsAreCamelCased(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, typeDefinition := range schema.Definitions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
@@ -311,7 +311,7 @@ func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	}
 	// extended types are not included in schema.definitions but schema.extensions
 	for _, typeDefinition := range schema.Extensions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
-- 
2.43.0


From db79a9d9aea9895944d4afee0a5741468ddfae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 07/15] fix: check every enum definition in enum-desc, also
 when names repeat

---
 pkg/linter/rules.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 1fd80c4..2a271da 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -228,15 +228,14 @@ func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, definition := range schema.Definitions {
-		typeDefinition := schema.Definitions.ForName(definition.Name)
-		if typeDefinition.Kind == ast.Enum {
-			for _, enumValue := range typeDefinition.EnumValues {
+		if definition.Kind == ast.Enum {
+			for _, enumValue := range definition.EnumValues {
 				if len(enumValue.Description) == 0 {
 					lintError := LintErrorWithMetadata{
 						Rule:   enumDesc,
 						Line:   enumValue.Position.Line,
 						Column: enumValue.Position.Column,
-						Err:    fmt.Errorf("enum value %s.%s does not have description", typeDefinition.Name, enumValue.Name),
+						Err:    fmt.Errorf("enum value %s.%s does not have description", definition.Name, enumValue.Name),
 					}
 					errors = append(errors, lintError)
 				}
-- 
2.43.0


From bac437319efc82c5b5cbe7c58561e91088287cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 08/15] fix: do not panic on a suppression comment without a
 command

---
 cmd/linter/inline_lint_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/linter/inline_lint_config.go b/cmd/linter/inline_lint_config.go
index 3b5b8bf..b823412 100644
--- a/cmd/linter/inline_lint_config.go
+++ b/cmd/linter/inline_lint_config.go
@@ -50,6 +50,9 @@ func extractInlineLintConfiguration(source *ast.Source) []InlineLintConfig {
 	// Now that we know which lines have lint configs in comments, lets parse them
 	for _, linConfig := range inlineLintConfigs {
 		matchGroups := inlineLintConfigurationRegex.FindStringSubmatch(linConfig.value)
+		if matchGroups == nil {
+			continue // no lint command follows the prefix
+		}
 		switch matchGroups[1] {
 		case string(lintDisable):
 			rulesString := matchGroups[2]
-- 
2.43.0


From 3f396ed8bc0dd0737f03e224bbb8bebcdef32ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 09/15] fix: parse schema files in a fixed order

---
 utils/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/util.go b/utils/util.go
index 264ea87..1cb918e 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"github.com/vektah/gqlparser/v2/ast"
 	"github.com/vektah/gqlparser/v2/parser"
@@ -13,10 +14,15 @@ import (
 // ParseSchema parse schema files and combine their sources
 func ParseSchema(schemaFileContents map[string][]byte) (*ast.SchemaDocument, error) {
 	var sources []*ast.Source
-	for fn, sf := range schemaFileContents {
+	fileNames := make([]string, 0, len(schemaFileContents))
+	for fn := range schemaFileContents {
+		fileNames = append(fileNames, fn)
+	}
+	sort.Strings(fileNames) // the result must not depend on the map order
+	for _, fn := range fileNames {
 		s := &ast.Source{
 			Name:  fn,
-			Input: string(sf),
+			Input: string(schemaFileContents[fn]),
 		}
 		sources = append(sources, s)
 	}
-- 
2.43.0


From 34b9281e57ce0d6111cfe37f23e59328b2356813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 10/15] fix: lint files in a fixed order

---
 cmd/linter/lint_cmd.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index ae510b2..69052f1 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"strings"
 
 	"github.com/CrowdStrike/gql/pkg/linter"
@@ -63,8 +64,13 @@ func NewLintCmd() *cobra.Command {
 func FindLintErrors(schemaFileContents map[string][]byte, rulesToApply []linter.LintRuleFunc) int {
 	exitStatus := 0
 	errorCount := 0
-	for filename, schemaFileContent := range schemaFileContents {
-		if lintErrors := Lint(filename, string(schemaFileContent), rulesToApply); len(lintErrors) != 0 {
+	filenames := make([]string, 0, len(schemaFileContents))
+	for filename := range schemaFileContents {
+		filenames = append(filenames, filename)
+	}
+	sort.Strings(filenames) // the output must not depend on the map order
+	for _, filename := range filenames {
+		if lintErrors := Lint(filename, string(schemaFileContents[filename]), rulesToApply); len(lintErrors) != 0 {
 			errorCount += len(lintErrors)
 			errorPresenter(filename, lintErrors)
 			exitStatus |= 1 // If there's error for any file, exit code should be 1
-- 
2.43.0


From 4f9ed7d128a8efe32bca24f1203a39320c54276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 11/15] fix: close every schema file after reading it

---
 utils/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/util.go b/utils/util.go
index 1cb918e..99993a2 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -51,6 +51,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
 		content, err := io.ReadAll(fileObject)
+		_ = fileObject.Close()
 		if err != nil {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
-- 
2.43.0


From 694457fd44fd392037939909105ee7f1de8a1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 12/15] fix: report the reason why a schema file could not be
 opened

---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index 99993a2..9b6c344 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -48,7 +48,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 	for _, filename := range schemaFiles {
 		fileObject, fileErr := os.Open(filename) // nolint:gosec
 		if fileErr != nil {
-			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
+			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, fileErr)
 		}
 		content, err := io.ReadAll(fileObject)
 		_ = fileObject.Close()
-- 
2.43.0


From da8def8c16ad0436d3575ee3759229ac45809dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 13/15] fix: name the old and new type of a changed root
 operation

---
 pkg/compare/compare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e014d30..fb48141 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -267,7 +267,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: Breaking,
-			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Operation, newOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Type, newOp.Type),
 			position:         newOp.Position,
 		})
 	}
-- 
2.43.0


From 2dfd4a68ca591ef47a06bf467069c6a40dc01b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 14/15] fix: say that a repeatable flag was added when it was
 added

---
 pkg/compare/compare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index fb48141..f556fee 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -548,7 +548,7 @@ func checkDirectiveRepeatableChanged(od *ast.DirectiveDefinition, nd *ast.Direct
 		changes = append(changes, &Change{
 			changeType:       DirectiveRepeatableAdded,
 			criticalityLevel: NonBreaking,
-			message:          fmt.Sprintf("Repeatable flag was removed from '@%s' directive", od.Name),
+			message:          fmt.Sprintf("Repeatable flag was added to '@%s' directive", od.Name),
 			path:             fmt.Sprintf("@%s", nd.Name),
 			position:         nd.Position,
 		})
-- 
2.43.0


From 210361c17116621b5b0a464f5920e1d55f3a7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 15/15] fix: apply relay-conn-args to the fields of extended
 types

---
 pkg/linter/rules.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 2a271da..4929f95 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -401,7 +401,8 @@ func RelayConnectionTypesSpec(schema *ast.SchemaDocument) LintErrorsWithMetadata
 func RelayConnectionArgumentsSpec(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 
-	for _, typeDefinition := range schema.Definitions {
+	// extended types are not included in schema.definitions but schema.extensions
+	for _, typeDefinition := range append(append(ast.DefinitionList{}, schema.Definitions...), schema.Extensions...) {
 		for _, fieldDefinition := range typeDefinition.Fields {
 			var firstArgument, afterArgument, lastArgument, beforeArgument *ast.ArgumentDefinition
 			if strings.HasSuffix(fieldDefinition.Type.Name(), "Connection") {
-- 
2.43.0

