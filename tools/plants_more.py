from plant import plant
C = "pkg/compare/compare.go"
U = "utils/util.go"

plant("util-dir-left-open", "C27",
 [(U, '''		content, err := io.ReadAll(fileObject)
''', '''		if info, statErr := fileObject.Stat(); statErr != nil || info.IsDir() {
			return nil, fmt.Errorf("failed to read file:%s on path:%s, not a file", filename, schemaFilePath)
		}
		content, err := io.ReadAll(fileObject)
''')],
 "a pattern that matches a directory", "the directory stays open",
 pkg="utils", test='''package utils

import (
	"os"
	"path/filepath"
	"testing"
)

func open(t *testing.T) int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Skip(err)
	}
	return len(l)
}

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	if err := os.Mkdir(filepath.Join(d, "sub"), 0o755); err != nil {
		t.Fatal(err)
	}
	n := open(t)
	for i := 0; i < 20; i++ {
		if _, err := ReadFiles(filepath.Join(d, "*")); err == nil {
			t.Fatal("no error")
		}
	}
	if m := open(t); m > n+10 {
		t.Fatalf("%d open files before, %d after", n, m)
	}
}
''')

plant("cmp-subscription-blocks", "C05",
 [(C, '''	changes = append(changes, changesInSchemaOperation(oldSubscription, newSubscription, ast.Subscription)...)

	return changes
}
''', '''	if len(oldSchemaDefs) == len(newSchemaDefs) {
		changes = append(changes, changesInSchemaOperation(oldSubscription, newSubscription, ast.Subscription)...)
	}

	return changes
}
''')],
 "schemas with different numbers of schema blocks", "a removed subscription root is not reported",
 cli='''printf 'schema { query: Q subscription: S }\\ntype Q { a: Int }\\ntype S { a: Int }\\n' > o.graphql
printf 'schema { query: Q }\\ntype Q { a: Int }\\ntype S { a: Int }\\n' > n.graphql
printf 'schema { mutation: S }\\n' > n2.graphql
./gql compare -o o.graphql -n n.graphql > out 2>&1; [ $? = 1 ] || exit 1
./gql compare -o o.graphql -n 'n*.graphql' > out 2>&1; [ $? = 1 ] || exit 1
grep -q "subscription" out''')

plant("cmp-self-space", "C07",
 [(C, '''			if of.Description != nf.Description {
				changes = append(changes, &Change{
					changeType:       FieldDescriptionChanged,
''', '''			if strings.TrimSpace(of.Description) != nf.Description {
				changes = append(changes, &Change{
					changeType:       FieldDescriptionChanged,
'''), (C, '''	"sort"
''', '''	"sort"
	"strings"
''')],
 "a description that starts or ends with a space", "a schema compared with itself has a change",
 cli='''printf 'type A { " the a " a: Int }\\n' > s.graphql
cp s.graphql t.graphql; ./gql compare -o s.graphql -n t.graphql > out 2>&1; [ $? = 0 ] || exit 1
! grep -q "description changed" out''')

plant("cmp-deprecated-owner", "C28",
 [(C, '''		oDep := of.Directives.ForName(deprecatedDirective)
		if nf == nil {
			//Removing an input field''', '''		oDep := oDef.Directives.ForName(deprecatedDirective)
		if nf == nil {
			//Removing an input field''')],
 "a deprecated input field that is removed", "the text of the change does not say that it was deprecated",
 cli='''printf 'input I { a: Int b: Int @deprecated }\\n' > o.graphql
printf 'input I { a: Int }\\n' > n.graphql
./gql compare -o o.graphql -n n.graphql > out 2>&1
grep -q "I.b.*deprecated.*removed" out''')
