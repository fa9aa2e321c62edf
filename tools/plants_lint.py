from plant import plant
R = "pkg/linter/rules.go"
T = '''package linter

import (
	"testing"

	"github.com/vektah/gqlparser/v2/ast"
	"github.com/vektah/gqlparser/v2/parser"
)

func zzParse(t *testing.T, s string) *ast.SchemaDocument {
	d, err := parser.ParseSchema(&ast.Source{Name: "a", Input: s})
	if err != nil {
		t.Fatal(err)
	}
	return d
}

func TestZZDemo(t *testing.T) {
%s
}
'''
def expect(fn, schema, n):
    return T % ('\terrs := %s(zzParse(t, `%s`))\n\tif len(errs) != %d {\n\t\tt.Fatalf("%%d errors: %%v", len(errs), errs)\n\t}' % (fn, schema, n))

plant("lint-args-ext-break", "C16",
 [(R, '''	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				for _, argument''', '''	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				if len(field.Arguments) == 0 {
					break
				}
				for _, argument''')],
 "an extension whose first field has no arguments and a later one has an undescribed argument",
 "the argument description rule stops at the first field without arguments in an extension",
 pkg="pkg/linter", test=expect("ArgumentsHaveDescription", "extend type A { x: Int\n y(a: Int): Int }", 1))

plant("lint-enumcaps-skip", "C17",
 [(R, '''						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("enum value %s.%s is not uppercase", definition.Name, enumValue.Name),
					}
					errors = append(errors, lintError)
				}''', '''						Rule:   enumCaps,
						Line:   enumValue.Position.Line,
						Column: enumValue.Position.Column,
						Err:    fmt.Errorf("enum value %s.%s is not uppercase", definition.Name, enumValue.Name),
					}
					errors = append(errors, lintError)
					if len(definition.EnumValues) > 10 {
						break
					}
				}''')],
 "an enum of more than ten values of which two are not upper case", "only the first such value is flagged",
 pkg="pkg/linter", test=expect("EnumValuesAreAllCaps", "enum E { a b C D E F G H I J K L }", 2))

plant("lint-fielddesc-underscore", "C16",
 [(R, "		for _, fieldDefinition := range definition.Fields {\n			if len(fieldDefinition.Description) == 0 {\n				lintError := LintErrorWithMetadata{\n					Rule:   fieldDesc,\n					Line:   fieldDefinition.Type.Position.Line,\n					Column: fieldDefinition.Type.Position.Column,\n					Err:    fmt.Errorf(\"field", "		for _, fieldDefinition := range definition.Fields {\n			if strings.HasPrefix(fieldDefinition.Name, \"__\") {\n				continue\n			}\n			if len(fieldDefinition.Description) == 0 {\n				lintError := LintErrorWithMetadata{\n					Rule:   fieldDesc,\n					Line:   fieldDefinition.Type.Position.Line,\n					Column: fieldDefinition.Type.Position.Column,\n					Err:    fmt.Errorf(\"field")],
 "an undescribed field whose name starts with two underscores", "the field is not flagged",
 pkg="pkg/linter", test=expect("FieldsHaveDescription", "type A { __x: Int }", 1))

plant("lint-camel-underscore", "C17",
 [(R, '"^[a-z][a-zA-Z0-9]*$"', '"^[a-z][a-zA-Z0-9]*_?[0-9]*$"')],
 "a field name with one underscore followed by digits only", "field names such as item_2 pass the camel case rule",
 pkg="pkg/linter", test=expect("FieldsAreCamelCased", "type A { item_2: Int }", 1))

plant("lint-relaytype-list-pageinfo", "C18",
 [(R, 'fieldDefinition.Type.Name() != "PageInfo" || !fieldDefinition.Type.NonNull || isFieldListType(fieldDefinition)', 'fieldDefinition.Type.Name() != "PageInfo" || !fieldDefinition.Type.NonNull || isFieldListType(fieldDefinition) && !fieldDefinition.Type.Elem.NonNull')],
 "a pageInfo field of type [PageInfo!]!", "a list of non-null PageInfo passes the Relay connection type rule",
 pkg="pkg/linter", test=expect("RelayConnectionTypesSpec", "type AConnection { edges: [A] pageInfo: [PageInfo!]! }", 1))

plant("lint-relayargs-last", "C19",
 [(R, '''					if hasForwardPagination {
						if isArgListType(lastArgument)''', '''					if hasForwardPagination && hasBackwardPagination {
						if isArgListType(lastArgument)''')],
 "a field with first, after and a non-null last but without before", "Int! on last is accepted next to forward pagination when before is missing",
 pkg="pkg/linter", test=expect("RelayConnectionArgumentsSpec", "type A { c(first: Int, after: String, last: Int!): BConnection }", 1))

plant("lint-column-other-element", "C20",
 [(R, '''	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 {
						lintError := LintErrorWithMetadata{
							Rule:   argsDesc,
							Line:   argument.Position.Line,
							Column: argument.Position.Column,''', '''	for _, definition := range schema.Extensions {
		if definition.IsCompositeType() {
			for _, field := range definition.Fields {
				for _, argument := range field.Arguments {
					if len(argument.Description) == 0 {
						lintError := LintErrorWithMetadata{
							Rule:   argsDesc,
							Line:   argument.Position.Line,
							Column: field.Position.Column,''')],
 "an undescribed argument in an extension", "the column of the error is that of the field, the line that of the argument",
 pkg="pkg/linter", test=T % '''	errs := ArgumentsHaveDescription(zzParse(t, "extend type A {\\n  x(a: Int): Int\\n}"))
	if len(errs) != 1 || errs[0].Line != 2 || errs[0].Column != 5 {
		t.Fatalf("%v", errs)
	}''')
