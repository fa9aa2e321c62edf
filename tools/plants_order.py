from plant import plant
C = "pkg/compare/compare.go"

plant("report-order-base", "C11",
 [(C, '''import (
''', '''import (
	"path/filepath"
'''), (C, '''		if changes[i].position.Src.Name != changes[j].position.Src.Name {
			return changes[i].position.Src.Name < changes[j].position.Src.Name
		}
''', '''		// the directory is the same for all
		if a, b := filepath.Base(changes[i].position.Src.Name), filepath.Base(changes[j].position.Src.Name); a != b {
			return a < b
		}
''')],
 "files of the same name in several directories", "the changes of the two files are mixed",
 cli='''mkdir -p o/a o/b n/a n/b
printf 'type A { a: Int\\n b: Int\\n c: Int\\n d: Int }\\n' > o/a/s.graphql
printf '\\ntype B { a: Int\\n b: Int\\n c: Int\\n d: Int }\\n' > o/b/s.graphql
printf 'type A { a: Int!\\n b: Int!\\n c: Int!\\n d: Int! }\\n' > n/a/s.graphql
printf '\\ntype B { a: Int!\\n b: Int!\\n c: Int!\\n d: Int! }\\n' > n/b/s.graphql
./gql compare -o 'o/*/s.graphql' -n 'n/*/s.graphql' > out 2>&1
[ "$(grep -o "'[AB]\\.[a-d]'" out | tr -d "'\\n")" = "A.aA.bA.cA.dB.aB.bB.cB.d" ]''')

plant("report-order-hidden", "C11",
 [(C, '''func ReportDangerousChanges(changes []*Change, withFilepath bool) int {
	if len(changes) == 0 {
		return 0
	}
	sort.Slice(changes, less(changes))
''', '''func ReportDangerousChanges(changes []*Change, withFilepath bool) int {
	if len(changes) == 0 {
		return 0
	}
	if withFilepath {
		sort.Slice(changes, less(changes))
	}
''')],
 "dangerous changes reported without their positions", "they come in another order than with them",
 cli='''printf 'enum E { A }\\ntype T { a(x: Int = 1): Int }\\nunion U = T\\ntype W { a: Int }\\nenum F { A }\\n' > o.graphql
printf 'enum F { A B }\\nunion U = T | W\\ntype W { a: Int }\\ntype T { a(x: Int = 2): Int }\\n enum E { A B }\\n' > n.graphql
./gql compare -o o.graphql -n n.graphql > with 2>&1
./gql compare -o o.graphql -n n.graphql -e > without 2>&1
[ "$(sed 's/n.graphql:[0-9]* //' with)" = "$(cat without)" ]''')
