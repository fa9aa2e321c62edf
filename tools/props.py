#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
CMP = "pkg/compare/compare.go"; RUL = "pkg/linter/rules.go"; LER = "pkg/linter/lint_error.go"
CC = "cmd/compare/compare_cmd.go"; LC = "cmd/linter/lint_cmd.go"; LL = "cmd/linter/linter.go"; IL = "cmd/linter/inline_lint_config.go"
LX = "cmd/linter/lexer/lexer.go"; UT = "utils/util.go"; RT = "cmd/root.go"
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
TABLE = "The tests compare a few dozen hand-written schema pairs; each pins one element in one position, never all schema pairs or all combinations of members, kinds, definitions and extensions."
p("C01", "Removing anything clients can use is always reported as breaking",
  "For every pair of schemas, each type, extended type, field, input field, field argument, enum value, union member, implemented interface of an object type, directive definition, directive-definition argument, directive location or repeatable flag that exists in the old schema and not in the new one produces a change of the matching kind with severity Breaking. Such a removal change is produced only for an element that is really gone. Deprecated elements are no exception.",
  ["inputs"], "all pairs of parseable schema documents, every element of every definition, extension and directive definition", TABLE, [CMP],
  [("per-element lookup by name in the new schema; append of a Breaking change when the lookup misses", CMP+": checkTypeRemoved, changeInFields, changeInInputFields, changeInArgument, changeInEnum, checkUnionMemberRemoved, checkTypeInterfaceRemoved, changeInDirective, changeInDirectiveArguments, checkDirectiveLocationChanged, checkDirectiveRepeatableChanged")])
p("C02", "Every addition is reported, with the severity its effect on clients demands",
  "For every pair of schemas each added element is reported exactly when the old schema lacks it. Added arguments and input fields of non-null type without a default value, and directive-definition arguments of non-null type without a default value, are Breaking; added enum values, union members, object interfaces, nullable field arguments and nullable input fields are Dangerous. Added types, extended types, fields, directive definitions, directive locations, repeatable flags and nullable directive-definition arguments are NonBreaking.",
  ["inputs"], "all pairs of parseable schema documents, every added element", TABLE, [CMP],
  [("lookup by name of every new element in the old schema, severity chosen from the nullability of its type", CMP+": checkTypeAdded, checkFieldsAdded, checkInputFieldsAdded, checkFieldArgumentAdded, checkEnumValuesAdded, checkUnionMemberAdded, checkTypeInterfacesAdded, checkDirectiveAdded, checkDirectiveArgumentAdded, checkDirectiveLocationChanged, checkDirectiveRepeatableChanged")])
p("C03", "Output-type changes are classified covariantly",
  "A field of an object or interface type whose written type differs between the two schemas is always reported as a field type change, and an unchanged type never is. The change is NonBreaking exactly when, at every level of list nesting, the new type has the same list shape and named type as the old one and is non-null wherever the old one was; otherwise it is Breaking.",
  ["inputs"], "all pairs of field types of any list-nesting depth and nullability in matching object and interface types", "Type expressions nest without bound; the tests try a handful of shapes of depth at most two.", [CMP],
  [("recursive output-position compatibility test", CMP+": isSafeChangeForFieldType, checkFieldTypeChanged")])
p("C04", "Input-type changes are classified contravariantly",
  "An input field, field argument or directive-definition argument whose written type differs between the two schemas is always reported as a type change of its kind, and an unchanged type never is. The change is NonBreaking exactly when, at every level of list nesting, the new type has the same list shape and named type as the old one and is nullable wherever the old one was; otherwise it is Breaking.",
  ["inputs"], "all pairs of input-position types of any list-nesting depth and nullability", "Type expressions nest without bound; the tests try a handful of shapes of depth at most two, for some of the three input positions.", [CMP],
  [("recursive input-position compatibility test", CMP+": isSafeChangeForInputValue, checkInputFieldTypeValueChanged, checkFieldArgumentTypeChanged, checkDirectiveArgumentTypeChanged")])
p("C05", "Root operation changes are reported for every schema block",
  "For query, mutation and subscription alike, a root operation that the old schema declares and the new one drops or binds to another type is reported as Breaking, and one that only the new schema declares as NonBreaking. This holds in schema definitions and separately in schema extensions, whichever of several blocks carries the operation. An operation bound to the same type is never reported.",
  ["inputs"], "all pairs of schema documents, any number of schema and extend-schema blocks, the three operations", "Tests use one schema block and mostly the query and mutation operations.", [CMP],
  [("operation lookup in old and new blocks and comparison of the bound type", CMP+": changeInSchema, changesInSchemaOperation, getOperationForName")])
p("C06", "Every type present in both schemas is compared, whatever its form",
  "Every type definition present under the same name in both schemas, and separately every extended type present in both (all extension blocks of one type taken together), is compared member by member; neither hides the other, and neither the kind of the type nor the number of blocks exempts it. A type whose kind differs is reported as a Breaking kind change, and only such a type.",
  ["inputs"], "all pairs of schema documents, every definition and extension of each of the six kinds, any number of extension blocks", "Tests never combine a definition with extensions of the same name or several extension blocks.", [CMP],
  [("pairing of definitions and extensions by name and dispatch on kind", CMP+": changeInTypes, checkTypeRemoved")])
p("C07", "Comparing a schema with itself reports nothing",
  "For every schema document, comparing it with an identical document yields no change of any kind or severity.",
  ["inputs"], "all parseable schema documents", "The tests never compare a schema with itself, let alone every schema.", [CMP],
  [("every change is guarded by a difference between the two sides", CMP+": FindChangesInSchemas and everything it calls")])
p("C08", "Default-value, deprecation and description changes are always reported",
  "A changed, added or removed default value of a field argument, input field or directive-definition argument is reported exactly when the two values differ, as Dangerous; deprecating or un-deprecating a field, input field or enum value is reported exactly when it happens, as Dangerous. A changed description of a type, field, input field, field argument, enum value, directive or directive argument, and a deprecation reason given on both sides that changed, are reported exactly when they differ, as NonBreaking.",
  ["inputs"], "all pairs of schema documents, every member present in both", TABLE, [CMP],
  [("value comparison per matched member", CMP+": changeInArgument, checkInputFieldTypeValueChanged, checkDirectiveArgumentTypeChanged, checkFieldDeprecationChanged, checkEnumValueDeprecationChanged, changeInFields, changeInInputFields, changeInEnum, changeInDirective, changeInTypes")])
p("C09", "Changes to applied directives are detected",
  "For every directive other than deprecation applied to an object or interface type, to a field of one or to an input field: dropping it is reported as Dangerous and applying a new one as NonBreaking. When it is applied once on each side, every argument that was dropped or whose value changed is reported as Dangerous and every added argument as NonBreaking. When it is applied repeatedly on either side, an old application without an application of exactly the same arguments on the new side is reported as Dangerous, and one that has such a counterpart is not.",
  ["inputs"], "all pairs of directive application lists, any repetition, argument lists and values", "Tests cover a few applications on one field; repeated applications with and without arguments are sampled once or twice.", [CMP],
  [("application matching by name and argument values", CMP+": changeInTypeFieldDirectives, checkFieldDirectiveArgumentChanged, checkFieldDirectiveArgumentAdded, checkFieldDirectiveAdded")])
p("C10", "The compare command fails exactly when there is a breaking change",
  "After both schemas are read and parsed, the compare command exits with status 1 if at least one Breaking change was found and with status 0 otherwise. The number of breaking changes it prints equals the number found, and neither output option changes the status or the number.",
  ["inputs", "configurations"], "all change lists and all combinations of the two output options", "No test runs the command.", [CC, CMP],
  [("count of breaking changes returned by the reporter drives the exit status", CC+": NewCompareCmd Run; "+CMP+": GroupChanges, ReportBreakingChanges")])
p("C11", "The compare report prints every change once, in its severity group",
  "Without the breaking-only option the compare command prints each found change exactly once, breaking ones with the breaking marker, dangerous and non-breaking ones with theirs; with it, exactly the breaking ones. The exclude-filepath option removes only the file position from a line, and without it each line carries the position of its change. The lines of one group are in the order of file name and, within a file, of line number. When there is no change at all, that is what is printed.",
  ["inputs", "configurations"], "all change lists and all combinations of the two output options", "No test runs the command or the report functions.", [CC, CMP],
  [("grouping by severity and one print per change", CC+": NewCompareCmd Run; "+CMP+": GroupChanges, ReportBreakingChanges, ReportDangerousChanges, ReportNonBreakingChanges, getPosition")])
p("C12", "Old and new schema paths are used in the right roles and are checked",
  "The compare command reads the schema named by the old-version option as the old side and the one named by the new-version option as the new side, through to the comparison and any error text. A missing path on either side or the same path given for both ends the command with a non-zero status before any comparison.",
  ["inputs", "configurations"], "all values of the two path options", "No test runs the command.", [CC],
  [("flag registration, path checks and argument order", CC+": NewCompareCmd")])
p("C13", "Failures are never reported as success",
  "Whenever listing, opening or reading any input file or standard input fails, no file matches the given pattern, any file does not parse, or an unknown lint rule is requested, the process prints an error and exits with a non-zero status. A success status is reached only when every such step of the run succeeded.",
  ["fault_sequences", "inputs", "configurations"], "all outcomes of every I/O and parse step in both commands", "No test exercises the commands, and no test injects an I/O failure.", [CC, LC, LL, UT, RT],
  [("error results tested on every path before use, exit status 1", CC+": NewCompareCmd Run; "+LC+": NewLintCmd Run, FindTheRulesToApply; "+LL+": Lint; "+UT+": ReadFiles, ParseSchema; "+RT+": Execute")])
p("C14", "The same input always gives the same output",
  "The printed report, the order of its lines and the exit status of both commands are a function of the input files and options alone. In particular no iteration order that the runtime randomises reaches the list of changes, the order in which files are parsed or linted, or the printed output.",
  ["inputs", "schedules"], "all inputs, all map iteration orders", "A test run sees one iteration order of each map and mostly one file.", [CMP, UT, LC],
  [("files and types are processed in an explicitly ordered sequence", UT+": ReadFiles, ParseSchema; "+LC+": FindLintErrors; "+CMP+": changeInTypes, report functions")])
p("C15", "Every matching file is processed with its full content",
  "Every file matched by a path pattern is read to its end and takes part, under its own name and with exactly its content, in the lint run or in the comparison side it was given for. Without a path the lint command processes the whole of standard input.",
  ["inputs", "configurations"], "all patterns, any number of matching files, any content", "The tests read single fixture files only.", [UT, LC, CC, LL],
  [("glob, read to the end, one parser source per file", UT+": ReadFiles, ParseSchema; "+LC+": NewLintCmd Run, FindLintErrors; "+LL+": Lint")])
p("C16", "Description rules flag exactly the elements without a description",
  "The type rule flags exactly the type definitions (not extensions) with an empty description. The field, argument and enum-value rules flag exactly the fields of any type, the arguments of fields of composite types and the values of enum types, in definitions and in extensions alike, whose description is empty.",
  ["inputs"], "all parseable schema documents, every definition and extension", "Tests sample a few documents per rule and check only whether any error is reported.", [RUL],
  [("exhaustive walk over definitions and extensions", RUL+": TypesHaveDescription, ArgumentsHaveDescription, FieldsHaveDescription, EnumValuesHaveDescriptions")])
p("C17", "Casing rules flag exactly the misnamed elements",
  "In definitions and extensions alike, the type rule flags exactly the types whose name starts with a lower-case letter a to z, the field rule exactly the fields whose name is not a lower-case letter followed by letters and digits only, and the enum rule exactly the values of enum types whose name differs from its upper-case form.",
  ["inputs"], "all parseable schema documents, every definition and extension, every name", "Tests sample a few names and check only whether any error is reported.", [RUL],
  [("name tests on every type, field and enum value", RUL+": TypesAreCapitalized, FieldsAreCamelCased, EnumValuesAreAllCaps, camelCaseRegex")])
p("C18", "The Relay connection-type rule is exact",
  "Every type definition whose name ends in Connection that is not an object type is flagged. Every object type with such a name is flagged once for each of: no field named edges, an edges field that is not a list, no field named pageInfo, a pageInfo field whose type is not a non-null, non-list PageInfo; and nothing else is flagged.",
  ["inputs"], "all parseable schema documents, all kinds and field types", "Tests sample six documents.", [RUL],
  [("walk over the fields of connection types", RUL+": RelayConnectionTypesSpec")])
p("C19", "The Relay connection-arguments rule is exact",
  "A field, in a definition or an extension, whose named type ends in Connection is flagged when it has neither both first and after nor both last and before. Its first argument is flagged when its type is not Int or Int!, and also when it is Int! while both last and before are present; its last argument symmetrically with first and after. Nothing else is flagged.",
  ["inputs"], "all parseable schema documents, all subsets of the four arguments, all argument types", "Tests sample fourteen argument combinations; the space includes all argument subsets with list, non-null and foreign types.", [RUL],
  [("collection of the four pagination arguments and case analysis", RUL+": RelayConnectionArgumentsSpec")])
p("C20", "Each lint error carries its rule's name and the element's own position",
  "Every error a rule produces is labelled with the name under which that rule is offered on the command line, and its line and column are both those of one and the same element: the one the error is about (for a field, its type reference). The error text names that element; whatever else varies in it is the name of an enclosing element, outermost first, or the line and column of the error.",
  ["inputs"], "all errors of all nine rules on all documents", "Tests only check whether some error was returned, never its rule, position or text.", [RUL],
  [("construction of each lint error", RUL+": the nine rule functions and the rule table")])
p("C21", "Rule selection is complete, exact and case-insensitive",
  "Each of the nine documented rule names selects the rule that implements it, in any letter case and with surrounding blanks ignored; exactly the requested rules run, each as often as it is requested. Without a selection all nine run once. Any name that matches no rule is rejected with an error.",
  ["inputs", "configurations"], "all lists of rule names", "No test covers rule selection.", [LC, RUL],
  [("rule table and lookup", LC+": FindTheRulesToApply; "+RUL+": AllTheRules")])
p("C22", "Suppression comments hide exactly the errors they name",
  "A disable-line comment hides exactly the errors of the rules it lists on its own line. Otherwise an error of a rule is hidden exactly when the last disable or enable comment naming that rule on an earlier line is a disable comment. Rule lists are comma separated, compared in any letter case and with surrounding blanks ignored; errors of other rules are never affected.",
  ["inputs"], "all documents, any number, order and position of suppression comments", "No test covers suppression.", [LL, IL],
  [("parsing of suppression comments and filtering of errors", IL+": extractInlineLintConfiguration, sanitizeRules; "+LL+": filterErrors, contains")])
p("C23", "The comment scanner splits a document exactly as the schema parser does",
  "The scanner that looks for suppression comments splits every document into the same tokens, with the same kinds, values, positions and errors, as the scanner of the schema parser, the only difference being that it also yields each comment, with its text and line. Hence it finds every comment of a document that parses and none inside strings.",
  ["inputs"], "all documents: strings, block strings, escapes, numbers, multi-byte characters, line endings", "No test covers the scanner.", [LX, "cmd/linter/lexer/blockstring.go", "cmd/linter/lexer/token.go"],
  [("a copy of the parser's scanner that yields comments", LX+": Lexer.ReadToken and its helpers")])
p("C24", "The lint command prints every remaining error once and fails iff there is one",
  "For every input file the lint command prints each error that is not suppressed exactly once, as file:line:column followed by its text, in order of line and column within the file. The total it prints is the number of errors printed, and it exits with status 1 if that number is positive and with status 0 otherwise.",
  ["inputs", "configurations"], "all sets of files, all rule selections", "No test runs the command.", [LC, LL, LER],
  [("collection of all rules' errors, ordering, filtering, presentation and exit status", LL+": Lint; "+LC+": FindLintErrors, errorPresenter; "+LER+": Less, GetSortedErrors")])
p("C25", "No parseable input crashes either command",
  "For every input that the parser accepts, neither command dereferences an absent node, indexes outside a string or list, or reaches any other panic, whatever optional parts (default values, descriptions, arguments, schema blocks, deprecation reasons, malformed suppression comments) are present or missing.",
  ["inputs", "configurations"], "all parseable inputs", "Tests reach a few combinations of optional parts.", [CMP, RUL, LL, IL, LC, CC],
  [("nil and bounds checks before each use of an optional node", CMP+", "+RUL+", "+IL+", "+LL)])
p("C26", "Analysing a schema never modifies it",
  "Neither the comparison nor any lint rule changes, reorders or extends any part of the parsed documents it is given, so that rules do not influence each other and both sides of a comparison are reported as they were read.",
  ["inputs", "histories"], "all documents, all orders in which rules run", "Tests run each rule on a fresh document and look at the result only.", [CMP, RUL],
  [("read-only use of the parsed document", CMP+", "+RUL)])
p("C27", "Every opened input file is closed",
  "Each input file the tool opens is closed again before the next one is opened, on every path, including when reading it fails, whatever the number of matching files, so that never more than one is open.",
  ["fault_sequences", "inputs"], "all numbers of files, all read outcomes", "No test observes open files.", [UT],
  [("release of each file after reading", UT+": ReadFiles")])
p("C28", "Each change identifies the element it is about",
  "The text of every change names the affected element and the type or directive it belongs to and, for type and default-value changes, the old value before the new one. Its path is made of those names, and its position lies on that element, or on its nearest enclosing element in the new schema when it was removed (for a removed type, directive, enum value or root operation: on its old declaration). The text of the removal of a field, input field or enum value says that it was deprecated exactly when it was.",
  ["inputs"], "all changes on all schema pairs", "Most tests check only the kind and severity of a change.", [CMP],
  [("construction of each change", CMP+": every construction of a change")])
p("C29", "The severity is right for every client query",
  "If no Breaking change is reported between two schemas, then every query that is valid against the old schema is valid against the new one and can be answered with data the client's generated types accept.",
  ["inputs", "programs"], "all schema pairs and all client queries", "Quantifies over all queries.", [CMP], [("the whole classification", CMP)])
p("C30", "Time and memory stay proportionate to the input",
  "Both commands finish on every finite input, in time and memory polynomial in its size.",
  ["inputs"], "all finite files, of any size and nesting depth, and all options", "Tests use small inputs, on which a loop that does not move on at one particular character, or a recursion that doubles its work at every level, is not noticed.", [CMP, RUL, LX, IL],
  [("scanner loops and the loop that reads its tokens", LX+"; "+IL+": extractInlineLintConfiguration"), ("recursion over nested types", CMP+": isSafeChangeForFieldType, isSafeChangeForInputValue"), ("all other loops and lists built in them", CMP+", "+RUL)])
p("C31", "The documented command line is accepted as documented and nothing else is",
  "The program has the commands lint and compare. lint takes --filepath/-f (a string) and --rules/-r (a comma-separated list that may be repeated), both optional and empty by default, and the help text of --rules names every rule. compare takes --oldversion/-o and --newversion/-n (strings) and the switches --breaking-change-only/-b and --exclude-print-filepath/-e, which are off by default. A command line with an unknown command or option, or an option without its value, is refused: a message is printed and the status is non-zero.",
  ["inputs", "configurations"], "all command lines", "No test runs the program with a command line, let alone with all wrong ones.", [RT, CC, LC, RUL],
  [("registration of commands and options", RT+": newRootCmd; "+CC+": NewCompareCmd; "+LC+": NewLintCmd"), ("status of a refused command line", RT+": Execute"), ("help text of the rules", RUL+": AvailableRulesWithDescription")])
p("C32", "No analysis leaves anything behind that a later one could see",
  "The exported functions of the comparison, of the rules, of reading and parsing and of linting a file keep no state between calls: none of them changes a package-level variable or memory that such a variable holds, so what a call returns and prints does not depend on the calls made before it or at the same time.",
  ["histories", "schedules"], "all sequences and interleavings of calls, in particular all files of one lint run", "Each test makes one call on fresh documents; a leftover shows only in a later call with a related document.", [CMP, RUL, LL, UT, LX],
  [("results and scratch data in local variables only", CMP+": FindChangesInSchemas; "+RUL+": every rule; "+LL+": Lint; "+LX+": Lexer; "+UT+": ReadFiles, ParseSchema")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
