from plant import plant
RT = "cmd/root.go"
CC = "cmd/compare/compare_cmd.go"
LC = "cmd/linter/lint_cmd.go"
L = "cmd/linter/linter.go"
R = "pkg/linter/rules.go"
C = "pkg/compare/compare.go"

plant("usage-unknown-ok", "C31",
 [(RT, '''	if err := newRootCmd().Execute(); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}''', '''	root := newRootCmd()
	if cmd, err := root.ExecuteC(); err != nil {
		fmt.Println(err)
		if cmd != root {
			return
		}
		os.Exit(1)
	}''')],
 "an unknown option of a known command", "the run ends with status 0",
 cli='''printf 'type A { a: Int }\\n' > s.graphql
./gql nosuch > out 2>&1; [ $? != 0 ] || exit 1
./gql lint --no-such-option -f s.graphql > out 2>&1; [ $? != 0 ]''')

plant("usage-rules-array", "C31",
 [(LC, "lintCmd.PersistentFlags().StringSliceVarP(&passedRules", "lintCmd.PersistentFlags().StringArrayVarP(&passedRules")],
 "several rules in one comma-separated list", "the list is taken for one rule name",
 cli='''printf '"d" type A { "d" a: Int }\\n' > s.graphql
./gql lint -r type-desc -f s.graphql > out 2>&1; [ $? = 0 ] || exit 1
./gql lint -r type-desc,field-desc -f s.graphql > out 2>&1; [ $? = 0 ]''')

plant("usage-lax-options", "C31",
 [(CC, '''		Long:  "compare two graphql schemas",
''', '''		Long:  "compare two graphql schemas",
		// options of wrappers around this tool are passed on
		FParseErrWhitelist: cobra.FParseErrWhitelist{UnknownFlags: true},
''')],
 "a misspelt option", "the misspelt option is ignored without a word",
 cli='''printf 'type A { a: Int }\\n' > o.graphql
printf 'type A { a: Int b: Int }\\n' > n.graphql
./gql compare -o o.graphql -n n.graphql > out 2>&1; [ $? = 0 ] || exit 1
./gql compare -o o.graphql -n n.graphql --breaking-changes-only > out 2>&1; [ $? != 0 ]''')

plant("state-connections", "C32",
 [(R, '''// TypesHaveDescription checks whether''', '''// describedTypes are the types that already have a description somewhere
var describedTypes = make(map[string]bool)

// TypesHaveDescription checks whether'''),
  (R, '''		if len(definition.Description) == 0 {
			lintError := LintErrorWithMetadata{
				Rule:   typeDesc,''', '''		if len(definition.Description) != 0 {
			describedTypes[definition.Name] = true
		} else if !describedTypes[definition.Name] {
			lintError := LintErrorWithMetadata{
				Rule:   typeDesc,''')],
 "a type of the same name that was described in an earlier file or call", "its missing description is not reported",
 pkg="pkg/linter", test='''package linter

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	for i, s := range []string{`"d" type A { a: Int }`, `type A { a: Int }`} {
		d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: s})
		if err != nil {
			t.Fatal(err)
		}
		if n := len(TypesHaveDescription(d)); n != i {
			t.Fatal(i, n)
		}
	}
}
''')

plant("state-group-buffer", "C32",
 [(R, '''// EnumValuesHaveDescriptions''', '''// scratch is used again so that large schemas need less memory
var scratch = make([]LintErrorWithMetadata, 0, 256)

// EnumValuesHaveDescriptions'''),
  (R, '''func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
	errors := make([]LintErrorWithMetadata, 0)''', '''func EnumValuesHaveDescriptions(schema *ast.SchemaDocument) LintErrorsWithMetadata {
	errors := scratch[:0]''')],
 "the errors of one call are used after the next call", "they have been overwritten",
 pkg="pkg/linter", test='''package linter

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	var l [2]LintErrorsWithMetadata
	for i, s := range []string{`enum A { X }`, `enum B { Y }`} {
		d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: s})
		if err != nil {
			t.Fatal(err)
		}
		l[i] = EnumValuesHaveDescriptions(d)
	}
	if l[0][0].Err.Error() == l[1][0].Err.Error() {
		t.Fatal(l)
	}
}
''')
