from plant import plant
X = "cmd/linter/lexer/lexer.go"
I = "cmd/linter/inline_lint_config.go"
C = "pkg/compare/compare.go"

plant("term-unknown-directive", "C30",
 [(I, '''		if token.Kind == lexer.Comment && strings.HasPrefix(token.Value, "#lint-") {
''', '''		if token.Kind == lexer.Comment && strings.HasPrefix(token.Value, "#lint-") {
			if inlineLintConfigurationRegex.FindStringIndex(token.Value) == nil {
				continue
			}
''')],
 "a comment that begins like a suppression comment but is none", "the scan for suppression comments never gets past it",
 cli='''printf '"d" type A {\\n  #lint- x\\n  "d" a: Int\\n}\\n' > s.graphql
timeout 20 ./gql lint -f s.graphql > out; [ $? = 0 ]''')

plant("term-bom-inside", "C30",
 [(X, '''				s.end += 3
				s.endRunes++
			} else {
				return''', '''				if s.endRunes == 0 {
					s.end += 3
				}
				s.endRunes++
			} else {
				return''')],
 "a byte order mark that is not at the very start (files put together)", "the scanner stays on it for ever",
 cli='''printf '\\n\\xef\\xbb\\xbf"d" type A { "d" a: Int }\\n' > s.graphql
timeout 20 ./gql lint -f s.graphql > out; [ $? = 0 ]''')

plant("term-type-twice", "C30",
 [(C, '''			return isListType(otyp) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
		}
		//moving from nullable to non-nullable is safe change''', '''			if !isListType(otyp) {
				return false
			}
			if isSafeChangeForFieldType(otyp.Elem, ntyp.Elem) {
				return true
			}
			//the element may have become non-null on the way
			return ntyp.Elem.NonNull && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
		}
		//moving from nullable to non-nullable is safe change''')],
 "a change of the named type under deeply nested non-null lists", "the time doubles with each level of nesting",
 pkg="pkg/compare", test='''package compare

import (
	"strings"
	"testing"
	"time"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	doc := func(n string) *ast.SchemaDocument {
		ty := strings.Repeat("[", 60) + n + strings.Repeat("!]", 60) + "!"
		d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: "type Q { a: " + ty + " }"})
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	done := make(chan int, 1)
	go func() { done <- len(FindChangesInSchemas(doc("Int"), doc("String"))) }()
	select {
	case n := <-done:
		if n != 1 {
			t.Fatal(n)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("no answer")
	}
}
''')
