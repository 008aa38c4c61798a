From e459a972a2b047941879ce0eeecd91ace5ec5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 01/15] fix: close each schema file once it is read

ReadFiles left every matched file open, so a glob over more files than the
descriptor limit failed with 'too many open files' unless a garbage
collection happened to run finalizers in time.
---
 utils/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/util.go b/utils/util.go
index 264ea87..a80fefb 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -45,6 +45,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
 		content, err := io.ReadAll(fileObject)
+		_ = fileObject.Close() // only read from, so there is nothing to lose
 		if err != nil {
 			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
 		}
-- 
2.43.0


From f828e7157cc28161a6dfbb6b052ebc3a90689ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 02/15] fix: report why a schema file cannot be opened

The message printed the error of the glob, which is always nil here.
---
 utils/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/util.go b/utils/util.go
index a80fefb..cf29527 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -42,7 +42,7 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 	for _, filename := range schemaFiles {
 		fileObject, fileErr := os.Open(filename) // nolint:gosec
 		if fileErr != nil {
-			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, err)
+			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, fileErr)
 		}
 		content, err := io.ReadAll(fileObject)
 		_ = fileObject.Close() // only read from, so there is nothing to lose
-- 
2.43.0


From ee40bccf83db8dc9e2c590bdd020550fd6cd4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 03/15] fix: combine schema files in a fixed order

The files were combined in map order, so the reported locations, the file
blamed for a parse error and, for types extended in several files, even the
verdict of compare differed from run to run.
---
 utils/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/util.go b/utils/util.go
index cf29527..f46afe0 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 
 	"github.com/vektah/gqlparser/v2/ast"
 	"github.com/vektah/gqlparser/v2/parser"
@@ -13,10 +14,15 @@ import (
 // ParseSchema parse schema files and combine their sources
 func ParseSchema(schemaFileContents map[string][]byte) (*ast.SchemaDocument, error) {
 	var sources []*ast.Source
-	for fn, sf := range schemaFileContents {
+	fileNames := make([]string, 0, len(schemaFileContents))
+	for fn := range schemaFileContents {
+		fileNames = append(fileNames, fn)
+	}
+	sort.Strings(fileNames) // the order of a map differs from run to run
+	for _, fn := range fileNames {
 		s := &ast.Source{
 			Name:  fn,
-			Input: string(sf),
+			Input: string(schemaFileContents[fn]),
 		}
 		sources = append(sources, s)
 	}
-- 
2.43.0


From 67cda7d8497bac64872172ec064a37e529f451d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 04/15] fix: lint files in a fixed order

The files were linted in map order, so the output of one and the same run
came in a different order every time.
---
 cmd/linter/lint_cmd.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/linter/lint_cmd.go b/cmd/linter/lint_cmd.go
index ae510b2..94d4f26 100644
--- a/cmd/linter/lint_cmd.go
+++ b/cmd/linter/lint_cmd.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"strings"
 
 	"github.com/CrowdStrike/gql/pkg/linter"
@@ -63,8 +64,13 @@ func NewLintCmd() *cobra.Command {
 func FindLintErrors(schemaFileContents map[string][]byte, rulesToApply []linter.LintRuleFunc) int {
 	exitStatus := 0
 	errorCount := 0
-	for filename, schemaFileContent := range schemaFileContents {
-		if lintErrors := Lint(filename, string(schemaFileContent), rulesToApply); len(lintErrors) != 0 {
+	filenames := make([]string, 0, len(schemaFileContents))
+	for filename := range schemaFileContents {
+		filenames = append(filenames, filename)
+	}
+	sort.Strings(filenames) // the order of a map differs from run to run
+	for _, filename := range filenames {
+		if lintErrors := Lint(filename, string(schemaFileContents[filename]), rulesToApply); len(lintErrors) != 0 {
 			errorCount += len(lintErrors)
 			errorPresenter(filename, lintErrors)
 			exitStatus |= 1 // If there's error for any file, exit code should be 1
-- 
2.43.0


From 24e6602b10a5eb6858cb4f6d8abe2b1172f7181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 05/15] fix: report changes in a fixed order

Types were compared in map order and the report sorted with an unstable sort,
so changes that share a line were printed in a different order every time.
---
 pkg/compare/compare.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index e7b66b9..6710c0e 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -285,9 +285,14 @@ func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument)
 	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
 
 	//compare persisted types for changes in fields/directives
-	for _, defs := range persistedType {
-		ot := defs[0]
-		nt := defs[1]
+	typeNames := make([]string, 0, len(persistedType))
+	for typeName := range persistedType {
+		typeNames = append(typeNames, typeName)
+	}
+	sort.Strings(typeNames) // the order of a map differs from run to run
+	for _, typeName := range typeNames {
+		ot := persistedType[typeName][0]
+		nt := persistedType[typeName][1]
 		if ot.Kind == ast.Enum && nt.Kind == ast.Enum {
 			changes = append(changes, changeInEnum(ot, nt)...)
 		}
@@ -1304,7 +1309,7 @@ func ReportBreakingChanges(changes []*Change, withFilepath bool) int {
 	if len(changes) == 0 {
 		return 0
 	}
-	sort.Slice(changes, less(changes))
+	sort.SliceStable(changes, less(changes))
 	for _, c := range changes {
 		if pos := getPosition(c); withFilepath && len(pos) > 0 {
 			fmt.Printf("%s  %s %s\n", "❌", pos, c.message)
@@ -1320,7 +1325,7 @@ func ReportDangerousChanges(changes []*Change, withFilepath bool) int {
 	if len(changes) == 0 {
 		return 0
 	}
-	sort.Slice(changes, less(changes))
+	sort.SliceStable(changes, less(changes))
 	for _, c := range changes {
 		if pos := getPosition(c); withFilepath && len(pos) > 0 {
 			fmt.Printf("%s  %s %s\n", "✋️", pos, c.message)
@@ -1336,7 +1341,7 @@ func ReportNonBreakingChanges(changes []*Change, withFilepath bool) int {
 	if len(changes) == 0 {
 		return 0
 	}
-	sort.Slice(changes, less(changes))
+	sort.SliceStable(changes, less(changes))
 	for _, c := range changes {
 		if pos := getPosition(c); withFilepath && len(pos) > 0 {
 			fmt.Printf("%s  %s %s\n", "✅", pos, c.message)
-- 
2.43.0


From d6461a2d6df17c2a8793c6c6340a2453bfb3d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 06/15] fix: compare all extensions of a type, apart from its
 definition

Definitions and extensions shared one table keyed by the type's name, so when
a type was both defined and extended changes of its definition were not found,
and when it was extended by several blocks the last old block was compared
with the first new one: breaking changes were missed, and identical schemas
reported as different.
---
 pkg/compare/compare.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index 6710c0e..bac2b0e 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -275,16 +275,51 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 // changeInTypes change in al the types
 func changeInTypes(oldSchema *ast.SchemaDocument, newSchema *ast.SchemaDocument) []*Change {
 	var changes []*Change
+	//extensions are compared with extensions only, all blocks extending a type taken together
+	oldExtensions, newExtensions := mergeExtensions(oldSchema.Extensions), mergeExtensions(newSchema.Extensions)
 	persistedType := map[string][]*ast.Definition{}
+	persistedExtension := map[string][]*ast.Definition{}
 	//Check if types added/removed/persisted
 	changes = append(changes, checkTypeRemoved(oldSchema.Definitions, newSchema.Definitions, persistedType, false)...)
 	changes = append(changes, checkTypeAdded(oldSchema.Definitions, newSchema.Definitions, false)...)
 
 	//Check if extended types added/removed/persisted
-	changes = append(changes, checkTypeRemoved(oldSchema.Extensions, newSchema.Extensions, persistedType, true)...)
-	changes = append(changes, checkTypeAdded(oldSchema.Extensions, newSchema.Extensions, true)...)
+	changes = append(changes, checkTypeRemoved(oldExtensions, newExtensions, persistedExtension, true)...)
+	changes = append(changes, checkTypeAdded(oldExtensions, newExtensions, true)...)
 
 	//compare persisted types for changes in fields/directives
+	changes = append(changes, changeInPersistedTypes(persistedType)...)
+	changes = append(changes, changeInPersistedTypes(persistedExtension)...)
+	return changes
+}
+
+// mergeExtensions combines the blocks extending the same type into one, leaving the schema as it is
+func mergeExtensions(extensions ast.DefinitionList) ast.DefinitionList {
+	var merged ast.DefinitionList
+	for _, extension := range extensions {
+		def := merged.ForName(extension.Name)
+		if def == nil || def.Kind != extension.Kind {
+			def = &ast.Definition{
+				Kind:        extension.Kind,
+				Description: extension.Description,
+				Name:        extension.Name,
+				Position:    extension.Position,
+				BuiltIn:     extension.BuiltIn,
+			}
+			merged = append(merged, def)
+		}
+		def.Directives = append(def.Directives, extension.Directives...)
+		def.Interfaces = append(def.Interfaces, extension.Interfaces...)
+		def.Fields = append(def.Fields, extension.Fields...)
+		def.Types = append(def.Types, extension.Types...)
+		def.EnumValues = append(def.EnumValues, extension.EnumValues...)
+	}
+	return merged
+}
+
+// changeInPersistedTypes change in the types present in both schemas
+func changeInPersistedTypes(persistedType map[string][]*ast.Definition) []*Change {
+	var changes []*Change
 	typeNames := make([]string, 0, len(persistedType))
 	for typeName := range persistedType {
 		typeNames = append(typeNames, typeName)
-- 
2.43.0


From 4ef7c8f26b01082d9cea0ffb81f21b9a64cfaf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:27 +0000
Subject: [PATCH 07/15] fix: look at the root operations of every schema block

Only the first 'schema' or 'extend schema' block was looked at, so operations
named in another block were taken for added or removed, or not seen at all.
---
 pkg/compare/compare.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index bac2b0e..c05cea7 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -197,38 +197,38 @@ func changeInSchema(oldSchemaDefs ast.SchemaDefinitionList, newSchemaDefs ast.Sc
 		return changes
 	}
 	if len(oldSchemaDefs) > 0 && len(newSchemaDefs) == 0 {
-		oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
+		oldQuery := getOperationForName(operationTypes(oldSchemaDefs), ast.Query)
 		changes = append(changes, changesInSchemaOperation(oldQuery, nil, ast.Query)...)
 
-		oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
+		oldMutation := getOperationForName(operationTypes(oldSchemaDefs), ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(oldMutation, nil, ast.Mutation)...)
 
-		oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
+		oldSubscription := getOperationForName(operationTypes(oldSchemaDefs), ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(oldSubscription, nil, ast.Subscription)...)
 		return changes
 	}
 	if len(oldSchemaDefs) == 0 && len(newSchemaDefs) > 0 {
-		newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+		newQuery := getOperationForName(operationTypes(newSchemaDefs), ast.Query)
 		changes = append(changes, changesInSchemaOperation(nil, newQuery, ast.Query)...)
 
-		newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+		newMutation := getOperationForName(operationTypes(newSchemaDefs), ast.Mutation)
 		changes = append(changes, changesInSchemaOperation(nil, newMutation, ast.Mutation)...)
 
-		newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+		newSubscription := getOperationForName(operationTypes(newSchemaDefs), ast.Subscription)
 		changes = append(changes, changesInSchemaOperation(nil, newSubscription, ast.Subscription)...)
 		return changes
 	}
 
-	oldQuery := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Query)
-	newQuery := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Query)
+	oldQuery := getOperationForName(operationTypes(oldSchemaDefs), ast.Query)
+	newQuery := getOperationForName(operationTypes(newSchemaDefs), ast.Query)
 	changes = append(changes, changesInSchemaOperation(oldQuery, newQuery, ast.Query)...)
 
-	oldMutation := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Mutation)
-	newMutation := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Mutation)
+	oldMutation := getOperationForName(operationTypes(oldSchemaDefs), ast.Mutation)
+	newMutation := getOperationForName(operationTypes(newSchemaDefs), ast.Mutation)
 	changes = append(changes, changesInSchemaOperation(oldMutation, newMutation, ast.Mutation)...)
 
-	oldSubscription := getOperationForName(oldSchemaDefs[0].OperationTypes, ast.Subscription)
-	newSubscription := getOperationForName(newSchemaDefs[0].OperationTypes, ast.Subscription)
+	oldSubscription := getOperationForName(operationTypes(oldSchemaDefs), ast.Subscription)
+	newSubscription := getOperationForName(operationTypes(newSchemaDefs), ast.Subscription)
 	changes = append(changes, changesInSchemaOperation(oldSubscription, newSubscription, ast.Subscription)...)
 
 	return changes
@@ -1327,6 +1327,15 @@ func getOperationForName(ops ast.OperationTypeDefinitionList, name ast.Operation
 	return nil
 }
 
+// operationTypes lists the root operations of all schema blocks
+func operationTypes(schemaDefs ast.SchemaDefinitionList) ast.OperationTypeDefinitionList {
+	var ops ast.OperationTypeDefinitionList
+	for _, schemaDef := range schemaDefs {
+		ops = append(ops, schemaDef.OperationTypes...)
+	}
+	return ops
+}
+
 // GroupChanges group all changes on their criticality level
 func GroupChanges(changes []*Change) map[Criticality][]*Change {
 	groupChanges := map[Criticality][]*Change{}
-- 
2.43.0


From 9b2ec846abf0b2c88cf1e88a70057e16852f2101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 08/15] fix: a repeated directive without arguments is not
 changed

Identical schemas using a directive twice without arguments were reported as
having dangerous changes.
---
 pkg/compare/compare.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index c05cea7..d20e64a 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -1163,6 +1163,7 @@ func changeInTypeFieldDirectives(oDirs ast.DirectiveList, nDirs ast.DirectiveLis
 				haveSameArgVals := false
 				for _, nd := range nDirList {
 					if len(od.Arguments) == len(nd.Arguments) {
+						haveSameArgVals = true // also when there are no arguments
 						for _, oArg := range od.Arguments {
 							nArg := nd.Arguments.ForName(oArg.Name)
 							if nArg != nil && oArg.Value.String() == nArg.Value.String() {
-- 
2.43.0


From 8a47e578e84bc11fb797fc673b1ce5583ebc6ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:28 +0000
Subject: [PATCH 09/15] fix: do not crash on a comment starting with #lint-
 that names no command

---
 cmd/linter/inline_lint_config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/linter/inline_lint_config.go b/cmd/linter/inline_lint_config.go
index 3b5b8bf..8e9451a 100644
--- a/cmd/linter/inline_lint_config.go
+++ b/cmd/linter/inline_lint_config.go
@@ -50,6 +50,9 @@ func extractInlineLintConfiguration(source *ast.Source) []InlineLintConfig {
 	// Now that we know which lines have lint configs in comments, lets parse them
 	for _, linConfig := range inlineLintConfigs {
 		matchGroups := inlineLintConfigurationRegex.FindStringSubmatch(linConfig.value)
+		if matchGroups == nil {
+			continue // starts like a lint command, but names none
+		}
 		switch matchGroups[1] {
 		case string(lintDisable):
 			rulesString := matchGroups[2]
-- 
2.43.0


From 884102cd3cf6e04440c8e621c4d7eeaa99f8231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:29 +0000
Subject: [PATCH 10/15] fix: report that an enum value is no longer deprecated

The README lists deprecation removed from enum values as a dangerous change;
compare did not look for it.
---
 pkg/compare/compare.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index d20e64a..b57bde1 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -59,6 +59,8 @@ const (
 	EnumValueDeprecationReasonChanged ChangeType = "ENUM_VALUE_DEPRECATION_REASON_CHANGED"
 	// EnumValueDeprecationAdded Enum Value Deprecation Added
 	EnumValueDeprecationAdded ChangeType = "ENUM_VALUE_DEPRECATION_ADDED"
+	// EnumValueDeprecationRemoved Enum Value Deprecation Removed
+	EnumValueDeprecationRemoved ChangeType = "ENUM_VALUE_DEPRECATION_REMOVED"
 	// FieldRemoved Field Removed
 	FieldRemoved ChangeType = "FIELD_REMOVED"
 	// FieldAdded Field Added
@@ -670,6 +672,15 @@ func checkEnumValueDeprecationChanged(oDef *ast.Definition, nv *ast.EnumValueDef
 			position:         nv.Position,
 		})
 	}
+	if oDep != nil && nDep == nil {
+		changes = append(changes, &Change{
+			changeType:       EnumValueDeprecationRemoved,
+			criticalityLevel: Dangerous,
+			message:          fmt.Sprintf("Enum value '%s' deprecation removed in enum '%s' ", ov.Name, oDef.Name),
+			path:             fmt.Sprintf("%s.%s", oDef.Name, ov.Name),
+			position:         nv.Position,
+		})
+	}
 	if oDep != nil && nDep != nil {
 		oReason := oDep.Arguments.ForName("reason")
 		nReason := nDep.Arguments.ForName("reason")
-- 
2.43.0


From d387621411b50326fe54a8e59b3f36c0f078dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:30 +0000
Subject: [PATCH 11/15] fix: report a repeatable flag that was added as added

---
 pkg/compare/compare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index b57bde1..f91e854 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -558,7 +558,7 @@ func checkDirectiveRepeatableChanged(od *ast.DirectiveDefinition, nd *ast.Direct
 		changes = append(changes, &Change{
 			changeType:       DirectiveRepeatableAdded,
 			criticalityLevel: NonBreaking,
-			message:          fmt.Sprintf("Repeatable flag was removed from '@%s' directive", od.Name),
+			message:          fmt.Sprintf("Repeatable flag was added to '@%s' directive", od.Name),
 			path:             fmt.Sprintf("@%s", nd.Name),
 			position:         nd.Position,
 		})
-- 
2.43.0


From 846023e561279530771d62d9b12d25317bbf841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 12/15] fix: name the types when a schema root changes

The message read "Schema query root has changed from 'query' to 'query'".
---
 pkg/compare/compare.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/compare/compare.go b/pkg/compare/compare.go
index f91e854..4e98e6e 100644
--- a/pkg/compare/compare.go
+++ b/pkg/compare/compare.go
@@ -267,7 +267,7 @@ func changesInSchemaOperation(oldOp *ast.OperationTypeDefinition, newOp *ast.Ope
 		changes = append(changes, &Change{
 			changeType:       changeType,
 			criticalityLevel: Breaking,
-			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Operation, newOp.Operation),
+			message:          fmt.Sprintf("Schema %s root has changed from '%s' to '%s'", op, oldOp.Type, newOp.Type),
 			position:         newOp.Position,
 		})
 	}
-- 
2.43.0


From cf075a0c6ed545c9dc1ace3de68942e5d8f394a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 13/15] fix: type-caps overlooked names starting with the
 letter a

---
 pkg/linter/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 56bdc5e..1fd80c4 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -299,7 +299,7 @@ func FieldsAreCamelCased(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, typeDefinition := range schema.Definitions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
@@ -311,7 +311,7 @@ func TypesAreCapitalized(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	}
 	// extended types are not included in schema.definitions but schema.extensions
 	for _, typeDefinition := range schema.Extensions {
-		if typeDefinition.Name[0] > 97 && typeDefinition.Name[0] <= 122 {
+		if typeDefinition.Name[0] >= 97 && typeDefinition.Name[0] <= 122 {
 			lintError := LintErrorWithMetadata{
 				Rule:   typeCaps,
 				Line:   typeDefinition.Position.Line,
-- 
2.43.0


From 9ae97e9fad0c1216a1b880d41a18cf90bf61726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:46 +0000
Subject: [PATCH 14/15] fix: report a directory that cannot be listed

filepath.Glob takes a directory it may not or cannot read for an empty one, so
lint and compare gave a verdict on the remaining files only, compare even
reporting everything in the unread files as added or removed.
---
 utils/util.go | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/utils/util.go b/utils/util.go
index f46afe0..c8f1882 100644
--- a/utils/util.go
+++ b/utils/util.go
@@ -1,8 +1,10 @@
 package utils
 
 import (
+	"errors"
 	"fmt"
 	"io"
+	"io/fs"
 	"os"
 	"path/filepath"
 	"sort"
@@ -36,16 +38,21 @@ func ParseSchema(schemaFileContents map[string][]byte) (*ast.SchemaDocument, err
 
 // ReadFiles read file contents from the give filepath
 func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
-	schemaFiles, err := filepath.Glob(schemaFilePath)
+	listing := &listing{}
+	schemaFiles, err := fs.Glob(listing, filepath.ToSlash(schemaFilePath))
 	if err != nil {
 		fmt.Printf("error %v", err)
 		return nil, fmt.Errorf("matching files do not exist at path:%s, error:%v", schemaFilePath, err)
 	}
+	if listing.err != nil {
+		return nil, fmt.Errorf("failed to list files matching path:%s, error:%v", schemaFilePath, listing.err)
+	}
 	if len(schemaFiles) == 0 {
 		return nil, fmt.Errorf("matching file does not exist at path:%s", schemaFilePath)
 	}
 	schemaFileContents := make(map[string][]byte)
-	for _, filename := range schemaFiles {
+	for _, schemaFile := range schemaFiles {
+		filename := filepath.FromSlash(schemaFile)
 		fileObject, fileErr := os.Open(filename) // nolint:gosec
 		if fileErr != nil {
 			return nil, fmt.Errorf("failed to open file:%s on path:%s, error:%v", filename, schemaFilePath, fileErr)
@@ -62,3 +69,37 @@ func ReadFiles(schemaFilePath string) (map[string][]byte, error) {
 	}
 	return schemaFileContents, nil
 }
+
+// listing shows the operating system's files to fs.Glob and keeps the first error,
+// as globbing takes a directory that cannot be read for one without matching files
+type listing struct {
+	err error
+}
+
+// Open implements fs.FS
+func (l *listing) Open(name string) (fs.File, error) {
+	return os.Open(name) // nolint:gosec
+}
+
+// Stat implements fs.StatFS. It does not follow symbolic links: one leading nowhere is a match that cannot be opened
+func (l *listing) Stat(name string) (fs.FileInfo, error) {
+	info, err := os.Lstat(name)
+	return info, l.note(err)
+}
+
+// ReadDir implements fs.ReadDirFS
+func (l *listing) ReadDir(name string) ([]fs.DirEntry, error) {
+	info, err := os.Stat(name)
+	if err != nil || !info.IsDir() {
+		return nil, l.note(err)
+	}
+	entries, err := os.ReadDir(name)
+	return entries, l.note(err)
+}
+
+func (l *listing) note(err error) error {
+	if err != nil && l.err == nil && !errors.Is(err, fs.ErrNotExist) {
+		l.err = err
+	}
+	return err
+}
-- 
2.43.0


From 911646f27bc2312a1c425bcfa773779428303358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:55 +0000
Subject: [PATCH 15/15] fix: enum-desc looked at the first of several enums
 with the same name

EnumValuesHaveDescriptions looked the definition up by name again, so in a
file defining an enum twice the values of the first were reported twice and
those of the second never.
---
 pkg/linter/rules.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/linter/rules.go b/pkg/linter/rules.go
index 1fd80c4..2a271da 100644
--- a/pkg/linter/rules.go
+++ b/pkg/linter/rules.go
@@ -228,15 +228,14 @@ func EnumValuesAreAllCaps(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
 	errors := make([]LintErrorWithMetadata, 0)
 	for _, definition := range schema.Definitions {
-		typeDefinition := schema.Definitions.ForName(definition.Name)
-		if typeDefinition.Kind == ast.Enum {
-			for _, enumValue := range typeDefinition.EnumValues {
+		if definition.Kind == ast.Enum {
+			for _, enumValue := range definition.EnumValues {
 				if len(enumValue.Description) == 0 {
 					lintError := LintErrorWithMetadata{
 						Rule:   enumDesc,
 						Line:   enumValue.Position.Line,
 						Column: enumValue.Position.Column,
-						Err:    fmt.Errorf("enum value %s.%s does not have description", typeDefinition.Name, enumValue.Name),
+						Err:    fmt.Errorf("enum value %s.%s does not have description", definition.Name, enumValue.Name),
 					}
 					errors = append(errors, lintError)
 				}
-- 
2.43.0

