from plant import plant
C = "pkg/compare/compare.go"
T = '''package compare

import (
	"strings"
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func zzParse(t *testing.T, s string) *ast.SchemaDocument {
	d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: s})
	if err != nil {
		t.Fatal(err)
	}
	return d
}

func zzCount(cs []*Change, kind ChangeType, level Criticality) int {
	n := 0
	for _, c := range cs {
		if c.changeType == kind && c.criticalityLevel == level {
			n++
		}
	}
	return n
}

func TestZZDemo(t *testing.T) {
	cs := FindChangesInSchemas(zzParse(t, `%s`), zzParse(t, `%s`))
	_ = strings.Contains
	if %s {
		for _, c := range cs {
			t.Log(c.criticalityLevel, c.changeType, c.message, c.path, c.position)
		}
		t.Fatal("unexpected changes")
	}
}
'''
def t(old, new, bad): return T % (old, new, bad)
def cnt(kind, level, n): return "zzCount(cs, %s, %s) != %d" % (kind, level, n)

plant("cmp-union-overlap", "C01",
 [(C, '''		for _, nt := range nDef.Types {
			if ot == nt {
				found = true
			}
		}''', '''		for _, nt := range nDef.Types {
			if strings.EqualFold(ot, nt) {
				found = true
			}
		}'''), (C, '	"sort"\n', '	"sort"\n	"strings"\n')],
 "a union member whose name differs only in letter case from one that stays",
 "removing such a union member is not reported",
 pkg="pkg/compare", test=t("union U = Cat | CAT", "union U = Cat", cnt("UnionMemberRemoved", "Breaking", 1)))

plant("cmp-member-once", "C02",
 [(C, '''	for _, nt := range nDef.Types {
		found = false
''', '''	for _, nt := range nDef.Types {
		found = found && len(oDef.Types) > 1
''')],
 "a union member added after one that was kept, in a union that had several members",
 "the flag of an earlier member hides the addition of a later one",
 pkg="pkg/compare", test=t("union U = A | B", "union U = A | B | X", cnt("UnionMemberAdded", "Dangerous", 1)))

plant("cmp-arg-removed-deprecated", "C01",
 [(C, '''	for _, oArg := range od.Arguments {
		nArg := nd.Arguments.ForName(oArg.Name)
		if nArg == nil {
			//argument is removed
			changes = append(changes, &Change{
				changeType:       DirectiveArgumentRemoved,
				criticalityLevel: Breaking,''', '''	for _, oArg := range od.Arguments {
		nArg := nd.Arguments.ForName(oArg.Name)
		if nArg == nil && oArg.Directives.ForName(deprecatedDirective) != nil {
			continue
		}
		if nArg == nil {
			//argument is removed
			changes = append(changes, &Change{
				changeType:       DirectiveArgumentRemoved,
				criticalityLevel: Breaking,''')],
 "a deprecated directive-definition argument that is removed",
 "the removal is not reported",
 pkg="pkg/compare", test=t("directive @d(a: Int @deprecated, b: Int) on FIELD", "directive @d(b: Int) on FIELD", cnt("DirectiveArgumentRemoved", "Breaking", 1)))

plant("cmp-input-added-list", "C02",
 [(C, '''			//input field added to the type
			if nf.Type.NonNull {''', '''			//input field added to the type
			if nf.Type.NonNull && nf.Type.Elem == nil {''')],
 "an added required input field of list type",
 "a required list input field is reported as Dangerous only",
 pkg="pkg/compare", test=t("input I { a: Int }", "input I { a: Int b: [Int]! }", cnt("InputFieldAdded", "Breaking", 1)))

plant("cmp-enum-added-deprecated", "C02",
 [(C, '''		ov := oDef.EnumValues.ForName(nv.Name)
		if ov == nil {''', '''		ov := oDef.EnumValues.ForName(nv.Name)
		if ov == nil && nv.Directives.ForName(deprecatedDirective) == nil {''')],
 "an enum value that is added as already deprecated",
 "the addition is not reported",
 pkg="pkg/compare", test=t("enum E { A }", "enum E { A B @deprecated }", cnt("EnumValueAdded", "Dangerous", 1)))

plant("cmp-output-nullable-list", "C03",
 [(C, '''	if isListType(otyp) {
		//if they're both lists, make sure underlying types are compatible
		return isListType(ntyp) && isSafeChangeForFieldType(otyp.Elem, ntyp.Elem)
	}
	return false
}

func isSafeChangeForInputValue''', '''	if isListType(otyp) {
		//if they're both lists, make sure underlying types are compatible
		return isListType(ntyp) && (otyp.Elem.Elem != nil || isSafeChangeForFieldType(otyp.Elem, ntyp.Elem))
	}
	return false
}

func isSafeChangeForInputValue''')],
 "a nullable list of lists whose innermost element changes",
 "an incompatible change inside a nullable nested list is called NonBreaking",
 pkg="pkg/compare", test=t("type A { x: [[Int!]!] }", "type A { x: [[Int]!] }", cnt("FieldTypeChanged", "Breaking", 1)))

plant("cmp-output-named-to-list", "C03",
 [(C, '''		//moving from nullable to non-nullable is safe change
		return otyp.NamedType == ntyp.NamedType''', '''		//moving from nullable to non-nullable is safe change
		return otyp.Name() == ntyp.Name()''')],
 "a list type replaced by its non-null element type",
 "changing [T] into T! is called NonBreaking",
 pkg="pkg/compare", test=t("type A { x: [Int] }", "type A { x: Int! }", cnt("FieldTypeChanged", "Breaking", 1)))

plant("cmp-input-inner", "C04",
 [(C, '''		if isListType(otyp) {
			//if they're both lists, make sure underlying types are compatible
			return isListType(ntyp) && isSafeChangeForInputValue(otyp.Elem, ntyp.Elem)
		}''', '''		if isListType(otyp) {
			//if they're both lists, make sure underlying types are compatible
			return isListType(ntyp) && (!ntyp.NonNull || isSafeChangeForInputValue(otyp.Elem, ntyp.Elem))
		}''')],
 "a non-null list argument that becomes nullable while its element becomes non-null",
 "the change of the element is not looked at",
 pkg="pkg/compare", test=t("input I { x: [Int]! }", "input I { x: [Int!] }", cnt("InputFieldTypeChanged", "Breaking", 1)))

plant("cmp-dirarg-type-name", "C04",
 [(C, '''	if oArg.Type.String() != nArg.Type.String() {
		//Changing an input field from non-null to null is considered non-breaking.
		cl := NonBreaking
		if !isSafeChangeForInputValue(oArg.Type, nArg.Type) {
			cl = Breaking
		}
		changes = append(changes, &Change{
			changeType:       DirectiveArgumentTypeChanged,''', '''	if oArg.Type.Name() != nArg.Type.Name() || oArg.Type.NonNull != nArg.Type.NonNull {
		//Changing an input field from non-null to null is considered non-breaking.
		cl := NonBreaking
		if !isSafeChangeForInputValue(oArg.Type, nArg.Type) {
			cl = Breaking
		}
		changes = append(changes, &Change{
			changeType:       DirectiveArgumentTypeChanged,''')],
 "a directive argument whose list shape or inner nullability changes",
 "such a type change is not reported",
 pkg="pkg/compare", test=t("directive @d(a: [Int]) on FIELD", "directive @d(a: [Int!]) on FIELD", cnt("DirectiveArgumentTypeChanged", "Breaking", 1)))

plant("cmp-kind-swap", "C06",
 [(C, '''		if ot.Kind == ast.Interface && nt.Kind == ast.Interface {
			changes''', '''		if ot.Kind == ast.Interface && nt.Kind == ast.Interface && len(nt.Fields) > 0 {
			changes''')],
 "an interface extension that no longer has fields (only directives)",
 "the removal of all fields of an extended interface is not reported",
 pkg="pkg/compare", test=t("extend interface I { a: Int }", "extend interface I @d", cnt("FieldRemoved", "Breaking", 1)))

plant("cmp-arg-default-nil", "C08",
 [(C, '''	if of.DefaultValue.String() != nf.DefaultValue.String() {
''', '''	if nf.DefaultValue != nil && of.DefaultValue.String() != nf.DefaultValue.String() {
''')],
 "an input field that loses its default value",
 "the removed default value is not reported",
 pkg="pkg/compare", test=t("input I { a: Int = 1 }", "input I { a: Int }", cnt("InputFieldDefaultValueChanged", "Dangerous", 1)))

plant("cmp-enum-desc-dep", "C08",
 [(C, '''			if ov.Description != nv.Description {
				changes = append(changes, &Change{
					changeType:       EnumValueDescriptionChanged,''', '''			if ov.Description != nv.Description && oDep == nil {
				changes = append(changes, &Change{
					changeType:       EnumValueDescriptionChanged,''')],
 "a deprecated enum value whose description changes",
 "the changed description of a deprecated enum value is not reported",
 pkg="pkg/compare", test=t('enum E { "a" A @deprecated }', 'enum E { "b" A @deprecated }', cnt("EnumValueDescriptionChanged", "NonBreaking", 1)))

plant("cmp-repeat-arg-prefix", "C09",
 [(C, '''					if len(od.Arguments) == len(nd.Arguments) {''', '''					if len(od.Arguments) <= len(nd.Arguments) {''')],
 "a repeated directive whose application gains an argument",
 "an application that has no exact counterpart any more is not reported",
 pkg="pkg/compare", test=t("type A @d(a: 1) @d(a: 2) { x: Int }", "type A @d(a: 1, b: 3) @d(a: 2) { x: Int }", cnt("DirectiveChanged", "Dangerous", 1)))

plant("cmp-directive-two-new", "C09",
 [(C, '''			case len(nDirList) == 1 && len(oDirList) == 1:''', '''			case len(nDirList) == 1 && (len(oDirList) == 1 || len(od.Arguments) == 0):''')],
 "a directive applied twice in the old schema and once in the new one",
 "the second application is compared argument by argument with the only one left",
 pkg="pkg/compare", test=t("type A @d(a: 1) @d { x: Int }", "type A @d(a: 1) { x: Int }", cnt("DirectiveChanged", "Dangerous", 1)))

plant("cmp-order-map", "C14",
 [(C, '''	for _, nd := range nDirs {
		od := oDirs.ForName(nd.Name)
		if od == nil {
			changes = append(changes, &Change{
				changeType:       DirectiveAdded,
				criticalityLevel: NonBreaking,
				message:          fmt.Sprintf("Directive '@%s' was added ", nd.Name),''', '''	byName := make(map[string]*ast.DirectiveDefinition, len(nDirs))
	for _, nd := range nDirs {
		byName[nd.Name] = nd
	}
	for _, nd := range byName {
		od := oDirs.ForName(nd.Name)
		if od == nil {
			changes = append(changes, &Change{
				changeType:       DirectiveAdded,
				criticalityLevel: NonBreaking,
				message:          fmt.Sprintf("Directive '@%s' was added ", nd.Name),''')],
 "several directives added on one line",
 "the order of the reported additions changes from run to run",
 pkg="pkg/compare", test='''package compare

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	p := func(s string) *ast.SchemaDocument {
		d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: s})
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	s := ""
	for _, c := range "abcdefghij" {
		s += "directive @" + string(c) + " on FIELD "
	}
	first := ""
	for i := 0; i < 40; i++ {
		out := ""
		for _, c := range FindChangesInSchemas(p("scalar A"), p(s)) {
			out += c.message + "\\n"
		}
		if first != "" && out != first {
			t.Fatal(out)
		}
		first = out
	}
}
''')

plant("cmp-sort-mutates", "C26",
 [(C, '''	found := false
	for _, ot := range oDef.Types {''', '''	found := false
	sort.Strings(nDef.Types)
	for _, ot := range oDef.Types {''')],
 "a union whose members are not in alphabetical order",
 "comparing two schemas reorders the members of the new union",
 pkg="pkg/compare", test='''package compare

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	p := func(s string) *ast.SchemaDocument {
		d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: s})
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	d := p("union U = B | A")
	FindChangesInSchemas(p("union U = B | A"), d)
	if d.Definitions[0].Types[0] != "B" {
		t.Fatal(d.Definitions[0].Types)
	}
}
''')

plant("cmp-ext-append-alias", "C26",
 [(C, '''		oReason := oDep.Arguments.ForName("reason")
		nReason := nDep.Arguments.ForName("reason")
		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
			changes = append(changes, &Change{
				changeType:       EnumValueDeprecationReasonChanged,''', '''		oReason := oDep.Arguments.ForName("reason")
		nReason := nDep.Arguments.ForName("reason")
		if nReason == nil && oReason != nil {
			nDep.Arguments = append(nDep.Arguments, oReason)
		}
		if oReason != nil && nReason != nil && oReason.Value.String() != nReason.Value.String() {
			changes = append(changes, &Change{
				changeType:       EnumValueDeprecationReasonChanged,''')],
 "an enum value deprecated on both sides that loses its reason",
 "the new schema is given the reason of the old one",
 pkg="pkg/compare", test='''package compare

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func TestZZDemo(t *testing.T) {
	p := func(s string) *ast.SchemaDocument {
		d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: s})
		if err != nil {
			t.Fatal(err)
		}
		return d
	}
	d := p("enum E { A @deprecated }")
	FindChangesInSchemas(p(`enum E { A @deprecated(reason: "x") }`), d)
	if n := len(d.Definitions[0].EnumValues[0].Directives[0].Arguments); n != 0 {
		t.Fatal(n)
	}
}
''')

plant("cmp-position-old", "C28",
 [(C, '''				message:          fmt.Sprintf("Argument '%s' was removed from directive '@%s'", oArg.Name, od.Name),
				path:             fmt.Sprintf("@%s.%s", od.Name, oArg.Name),
				position:         nd.Position,''', '''				message:          fmt.Sprintf("Argument '%s' was removed from directive '@%s'", oArg.Name, od.Name),
				path:             fmt.Sprintf("@%s.%s", od.Name, oArg.Name),
				position:         oArg.Position,''')],
 "a removed directive argument when the declarations lie on different lines",
 "the change points into the old file",
 pkg="pkg/compare", test=t("directive @d(a: Int) on FIELD", "\n\ndirective @d on FIELD", "len(cs) != 1 || cs[0].position.Line != 3"))

plant("cmp-input-order-values", "C28",
 [(C, '''oArg.Name, oArg.DefaultValue.String(), nArg.DefaultValue.String(), od.Name),''', '''oArg.Name, nArg.DefaultValue.String(), oArg.DefaultValue.String(), od.Name),''')],
 "a directive argument whose default value changes",
 "the message shows the new default value before the old one",
 pkg="pkg/compare", test=t("directive @d(a: Int = 1) on FIELD", "directive @d(a: Int = 2) on FIELD", 'len(cs) != 1 || !strings.Contains(cs[0].message, "from \'1\' to \'2\'")'))
plant("cmp-self-desc", "C07",
 [(C, '''	if oArg.DefaultValue.String() != nArg.DefaultValue.String() {
		changes = append(changes, &Change{
			changeType:       DirectiveArgumentDefaultValueChanged,''', '''	if oArg.DefaultValue != nil && nArg.DefaultValue != nil && oArg.DefaultValue != nArg.DefaultValue {
		changes = append(changes, &Change{
			changeType:       DirectiveArgumentDefaultValueChanged,''')],
 "a directive argument with a default value",
 "an unchanged default value is reported as changed when the documents were parsed separately",
 pkg="pkg/compare", test=t("directive @d(a: Int = 1) on FIELD", "directive @d(a: Int = 1) on FIELD", "len(cs) != 0"))
