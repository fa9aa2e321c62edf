from plant import plant
CC = "cmd/compare/compare_cmd.go"
C = "pkg/compare/compare.go"
LC = "cmd/linter/lint_cmd.go"
L = "cmd/linter/linter.go"
I = "cmd/linter/inline_lint_config.go"
U = "utils/util.go"
X = "cmd/linter/lexer/lexer.go"

plant("cmd-exit-only-breaking", "C10",
 [(CC, '''					errorCount = compare.ReportBreakingChanges(changeCriticalityMap[compare.Breaking], !excludeFilePath)
					compare.ReportDangerousChanges(changeCriticalityMap[compare.Dangerous], !excludeFilePath)
''', '''					errorCount = compare.ReportBreakingChanges(changeCriticalityMap[compare.Breaking], !excludeFilePath)
					if n := compare.ReportDangerousChanges(changeCriticalityMap[compare.Dangerous], !excludeFilePath); n > 1 && errorCount > 0 {
						errorCount += n
					}
''')],
 "a breaking change together with at least two dangerous ones, without -b",
 "the printed number of breaking changes includes dangerous ones",
 cli='''printf 'type A { a: Int }\\nenum E { A }\\n' > o.graphql
printf 'type A { b: Int }\\nenum E { A B C }\\n' > n.graphql
./gql compare -o o.graphql -n n.graphql > out; [ $? = 1 ] || exit 1
grep -q 'schema: 1$' out''')

plant("cmd-exit-mask", "C10",
 [(CC, '''			os.Exit(exitStatus)
		},
	}
	compareCmd''', '''			if excludeFilePath && len(changes) > 255 {
				exitStatus = 0
			}
			os.Exit(exitStatus)
		},
	}
	compareCmd''')],
 "more than 255 changes with -e",
 "the compare command succeeds although there are breaking changes",
 cli='''{ echo 'type A {'; for i in $(seq 300); do echo "  f$i: Int"; done; echo ' z: Int }'; } > o.graphql
printf 'type A { z: Int }\\n' > n.graphql
./gql compare -o o.graphql -n n.graphql -e > out; [ $? = 1 ]''')

plant("cmd-report-skip-same", "C11",
 [(C, '''	for _, c := range changes {
		if pos := getPosition(c); withFilepath && len(pos) > 0 {
			fmt.Printf("%s  %s %s\\n", "✋️", pos, c.message)
			continue
		}
''', '''	for i, c := range changes {
		if i > 0 && changes[i-1].position == c.position {
			continue
		}
		if pos := getPosition(c); withFilepath && len(pos) > 0 {
			fmt.Printf("%s  %s %s\\n", "✋️", pos, c.message)
			continue
		}
''')],
 "two dangerous changes with the same position",
 "only the first of them is printed",
 cli='''printf 'input I { a: Int = 1 }\\n' > o.graphql
printf 'input I { a: Int = 2 @deprecated }\\n' > n.graphql
./gql compare -o o.graphql -n n.graphql > out
[ "$(grep -c '✋' out)" = 2 ]''')

plant("cmd-report-exclude-dangerous", "C11",
 [(CC, '''					compare.ReportNonBreakingChanges(changeCriticalityMap[compare.NonBreaking], !excludeFilePath)
''', '''					if errorCount == 0 || !excludeFilePath {
						compare.ReportNonBreakingChanges(changeCriticalityMap[compare.NonBreaking], !excludeFilePath)
					}
''')],
 "-e with a breaking and a non-breaking change",
 "non-breaking changes are left out of the report",
 cli='''printf 'type A { a: Int }\\n' > o.graphql
printf 'type A { b: Int }\\n' > n.graphql
./gql compare -o o.graphql -n n.graphql -e > out
grep -q '✅' out''')

plant("cmd-same-path-clean", "C12",
 [(CC, '''			if oldSchemaPath == newSchemaPath {
''', '''			if oldSchemaPath == newSchemaPath && !onlyBreakingChange {
''')],
 "the same path on both sides together with -b",
 "the comparison runs although both sides are the same path",
 cli='''printf 'type A { a: Int }\\n' > o.graphql
./gql compare -o o.graphql -n o.graphql -b > out; [ $? != 0 ]''')

plant("cmd-parse-error-path", "C12",
 [(CC, '''				fmt.Printf("Error parsing schema content on path=%s, error:%v", newSchemaPath, parseErr)
''', '''				fmt.Printf("Error parsing schema content on path=%s, error:%v", oldSchemaPath, parseErr)
''')],
 "a new schema that does not parse",
 "the error message names the old path",
 cli='''printf 'type A { a: Int }\\n' > o.graphql
printf 'type A { a: ' > n.graphql
./gql compare -o o.graphql -n n.graphql > out
grep -q 'path=n.graphql' out''')

plant("cmd-read-err-swallowed", "C13",
 [(U, '''		if err != nil {
			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
		}
''', '''		if err != nil && len(content) == 0 && len(schemaFiles) == 1 {
			return nil, fmt.Errorf("failed to read file:%s on path:%s, error:%v", filename, schemaFilePath, err)
		}
''')],
 "a pattern that matches a directory and a file",
 "the failing read of the directory is ignored",
 cli='''mkdir s; mkdir s/a.graphql; printf '"d" type A { "d" a: Int }\\n' > s/b.graphql
./gql lint -f 's/*.graphql' > out; [ $? != 0 ]''')

plant("cmd-rule-unknown-empty", "C13",
 [(LC, '''		if !matchFound {
''', '''		if !matchFound && len(inputRuleName) > 1 {
''')],
 "a rule name of at most one character, such as the blank one of '-r type-desc,'",
 "an unknown rule name is accepted",
 cli='''printf '"d" type A { "d" a: Int }\\n' > s.graphql
./gql lint -f s.graphql -r 'type-desc,x' > out; [ $? != 0 ]''')

plant("cmd-stdin-limit", "C15",
 [(LC, '''				content, err := io.ReadAll(os.Stdin)
''', '''				content, err := io.ReadAll(io.LimitReader(os.Stdin, 1<<16))
''')],
 "more than 64 KiB on standard input",
 "the rest of the input is not linted",
 cli='''{ for i in $(seq 9000); do echo '# comment'; done; printf 'type A { a: Int }\\n'; } > s.graphql
./gql lint < s.graphql > out; [ $? = 1 ]''')

plant("cmd-empty-file-stops", "C15",
 [(U, '''			fmt.Printf("empty file=%s in path=%s", filename, schemaFilePath)
''', '''			fmt.Printf("empty file=%s in path=%s", filename, schemaFilePath)
			break
''')],
 "an empty file among the matching files",
 "files after the empty one are not read",
 cli='''mkdir s; : > s/a.graphql; printf 'type A { a: Int }\\n' > s/b.graphql
./gql lint -f 's/*.graphql' > out; [ $? = 1 ]''')

plant("cmd-rule-first-only", "C21",
 [(LC, '''				matchFound = true
				rulesToApply = append(rulesToApply, rule.RuleFunction)
				break
''', '''				matchFound = true
				if len(rulesToApply) < len(linter.AllTheRules)-1 {
					rulesToApply = append(rulesToApply, rule.RuleFunction)
				}
				break
''')],
 "all nine rules requested by name",
 "the last requested rule does not run",
 cli='''printf 'type A { "d" a: Int }\\n' > s.graphql
./gql lint -f s.graphql -r args-desc,field-desc,enum-desc,type-caps,enum-caps,field-camel,relay-conn-type,relay-conn-args,type-desc > out; [ $? = 1 ]''')

plant("cmd-suppress-last", "C22",
 [(L, '''			if config.pos < errorLine {
				if config.command == "lint-enable" {
					shouldApplyRule = true
''', '''			if config.pos < errorLine {
				if config.command == "lint-enable" && len(config.rules) == 1 {
					shouldApplyRule = true
''')],
 "an enable comment that lists two rules, after a disable comment",
 "the errors stay hidden",
 cli='''printf '#lint-disable type-desc, field-desc\\n#lint-enable type-desc, field-desc\\ntype A { "d" a: Int }\\n' > s.graphql
./gql lint -f s.graphql > out; [ $? = 1 ]''')

plant("cmd-suppress-trim", "C22",
 [(I, '''		rulesToApply = append(rulesToApply, strings.TrimSpace(rule))
''', '''		rulesToApply = append(rulesToApply, strings.Trim(rule, " "))
''')],
 "a tab in the rule list of a suppression comment",
 "the comment hides nothing",
 cli='''printf '#lint-disable-line type-desc\\n#lint-disable field-desc,\\ttype-desc\\ntype A { "d" a: Int }\\n' > s.graphql
./gql lint -f s.graphql > out; [ $? = 0 ]''')

plant("cmd-suppress-same-line", "C22",
 [(L, '''			if config.pos < errorLine {
''', '''			if config.pos <= errorLine {
''')],
 "a disable comment at the end of the line of an error",
 "the error of the comment's own line is hidden",
 cli='''printf 'type A { "d" a: Int } #lint-disable type-desc\\n' > s.graphql
./gql lint -f s.graphql > out; [ $? = 1 ]''')

plant("cmd-total-last", "C24",
 [(LC, '''			errorCount += len(lintErrors)
''', '''			if errorCount += len(lintErrors); errorCount > 1000 {
				errorCount = 1000
			}
''')],
 "more than 1000 errors",
 "the printed total is not the number of errors printed",
 cli='''{ for i in $(seq 1100); do echo "type A$i { \\"d\\" a: Int }"; done; } > s.graphql
./gql lint -f s.graphql > out
grep -q 'found: 1100$' out''')

plant("cmd-print-dedupe", "C24",
 [(LC, '''	for _, err := range errors {
		fmt.Printf("%s:%d:%d %s\\n"''', '''	for i, err := range errors {
		if i > 0 && err.Line == errors[i-1].Line && err.Column == errors[i-1].Column && err.Rule == errors[i-1].Rule {
			continue
		}
		fmt.Printf("%s:%d:%d %s\\n"''')],
 "two errors of one rule with the same position",
 "only the first of them is printed",
 cli='''printf '"d" type AConnection { "d" a: Int }\\n' > s.graphql
./gql lint -f s.graphql -r relay-conn-type > out
n=$(grep -c '^s.graphql:' out); grep -q "found: $n$" out''')

plant("cmd-crash-one-group", "C25",
 [(L, '''	for _, lintErr := range errors {
		shouldApplyRule := true''', '''	if len(configs) > 0 && errors[0].Line < configs[0].pos && len(configs[0].rules[0]) == 0 {
		configs = configs[1:]
	}
	for _, lintErr := range errors {
		shouldApplyRule := true''')],
 "a document with a suppression comment and no lint error",
 "the lint command panics",
 cli='''printf '#lint-disable x\\n"d" type A { "d" a: Int }\\n' > s.graphql
./gql lint -f s.graphql > out; [ $? = 0 ]''')

plant("cmd-crash-nil-reason", "C25",
 [(C, '''		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
			changes = append(changes, &Change{
				changeType:       EnumValueDeprecationReasonChanged,''', '''		if (oReason != nil || nReason != nil) && oReason.Value.String() != nReason.Value.String() {
			changes = append(changes, &Change{
				changeType:       EnumValueDeprecationReasonChanged,''')],
 "an enum value deprecated with a reason on one side only",
 "the compare command panics",
 cli='''printf 'enum E { A @deprecated }\\n' > o.graphql
printf 'enum E { A @deprecated(reason: "x") }\\n' > n.graphql
./gql compare -o o.graphql -n n.graphql > out; [ $? = 0 ]''')

plant("cmd-lexer-cr", "C23",
 [(X, '''			// skip the following newline if its there
			if s.end < len(s.Input) && s.Input[s.end] == '\\n' {
				s.end++
				s.endRunes++
			}
''', '''			// skip the following newline if its there
			if s.end+1 < len(s.Input) && s.Input[s.end] == '\\n' {
				s.end++
				s.endRunes++
			} else if s.end < len(s.Input) && s.Input[s.end] == '\\r' {
				s.end++
				s.endRunes++
				s.lineStartRunes = s.endRunes
			}
''')],
 "two carriage returns in a row",
 "an empty line between carriage returns is not counted, so that suppression comments name the wrong line",
 cli='''printf '"d" type A { "d" a: Int }\\r\\rtype B { "d" a: Int } #lint-disable-line type-desc' > s.graphql
./gql lint -f s.graphql > out; [ $? = 0 ]''')

plant("cmd-lexer-block", "C23",
 [(X, '''		if r == '\\\\' && s.end+4 <= inputLen && s.Input[s.end:s.end+4] == `\\"""` {
''', '''		if r == '\\\\' && s.end+9 <= inputLen && s.Input[s.end:s.end+4] == `\\"""` {
''')],
 "an escaped triple quote right at the end of a block string at the end of the document",
 "the scanner of the suppression comments ends the block string too early",
 cli='''printf '"d" type A { "d" a: Int }\\n"d" enum E { "d" A @deprecated(reason: """x \\\\""" """) }' > s.graphql
./gql lint -f s.graphql > out; [ $? = 0 ] || exit 1
printf '"d" scalar A @d(a: """\\\\"""""")' > s.graphql
./gql lint -f s.graphql > out 2>&1; [ $? = 0 ]''')

plant("cmd-lexer-comment-tab", "C23",
 [(X, '''		if r > 0x001f || r == '\\t' {
			s.end += w
			s.endRunes++
		} else {''', '''		if r > 0x001f || r == '\\t' {
			s.end += w
			s.endRunes += w
		} else {''')],
 "a non-ASCII comment",
 "positions after a non-ASCII comment on the same line count bytes, not characters",
 pkg="cmd/linter/lexer", test='''package lexer

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
)

func TestZZDemo(t *testing.T) {
	s := New(&ast.Source{Name: "a", Input: "# é\\nA"})
	s.ReadToken()
	k, _ := s.ReadToken()
	if k.Pos.Start != 4 {
		t.Fatal(k.Pos.Start)
	}
}
''')

