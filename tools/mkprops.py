#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Text is split into lexical items exactly as the lexical rules say",
  "Reading ASN.1 text yields exactly the item sequence the lexical rules define: longest words (an ASCII letter, then ASCII letters, digits and single interior hyphens) classified as reserved word, upper-case reference or lower-case identifier, decimal numbers with their value, the symbols ::= .. ... [[ ]] and every single-character symbol. Nothing is dropped, merged, split or re-classified because of its length, its neighbours or its position, and every reserved word is recognised only when the whole word matches. A word that ends in a hyphen or contains two hyphens in a row, a number that does not fit an int, and any other ASCII character outside the rules is reported as an error; letters glued to a number are claimed only as an exponent mark.",
  ["inputs"], "every character sequence (any length, any adjacency of items, any position in the file)",
  "lexer_test.go lexes about 110 single items in isolation and three short strings; adjacency, longest match, length, word boundaries of reserved words and position in the file are an unbounded product.",
  ["lexer.go", "asn1.y"], [("Lex / consumeWord / consumeNumber / consumeSingleSymbol", "lexer.go"), ("RESERVED_WORDS", "lexer.go")],
  ["token stream seen by the parser", "ParseString result"],
  [("lastWasNumber", "whether e/E directly after a number is an exponent mark", "lexer.go"), ("lineNo", "newlines consumed", "lexer.go")])
p("P02", "Comments and white space never change what a module means",
  "Putting any mix of spaces, tabs, newlines of every kind, line comments (--, ended by the next -- or by the end of the line) and nested block comments between two lexical items, or before the first or after the last one, yields the same parse result as a single space there. Comment text is ignored whatever it contains, and a comment ends exactly where the rules say: neither earlier nor later.",
  ["inputs"], "every placement and content of white space and comments, any nesting depth and length",
  "lexer_test.go has three hand-written comment samples; where a comment ends depends on an unbounded interplay of hyphens, stars, slashes, newlines and nesting.",
  ["lexer.go"], [("skipLineComment", "lexer.go"), ("skipBlockComment", "lexer.go"), ("isWhitespace", "lexer.go")], ["ParseString result", "token stream"])
p("P03", "The parse result does not depend on how the input is delivered",
  "Parsing the same bytes from a string, a file or a reader gives the same module or the same error (message and line), whatever sizes the reader returns them in, including single bytes, empty reads, pieces that split a multi-byte character or a symbol, a piece returned together with end-of-file, and items that straddle the reader's internal buffer boundary.",
  ["schedules", "inputs"], "every text and every legal sequence of Read results that delivers it",
  "the tests only parse from in-memory strings delivered in one read, and no input exceeds the 4096-byte buffer at a symbol boundary.",
  ["lexer.go", "parser.go"], [("bufio look-ahead (peekRunes, unreadRune)", "lexer.go"), ("ParseString/ParseStream/ParseFile", "parser.go")], ["ParseString, ParseStream, ParseFile results"])
p("P04", "A failing reader always ends in a reported error, never a hang or a result",
  "If the reader returns an error other than end-of-file at any point before the parser has seen the end of the input, parsing returns promptly with a non-nil error that carries the reader's message and with no module. This holds wherever the failure falls: between items, inside a word or number, inside a symbol or its look-ahead, inside a line comment or nested block comment, and whether or not later reads would succeed.",
  ["fault_sequences", "inputs"], "every text, every failure offset, permanent or transient failure",
  "no test uses a failing reader.",
  ["lexer.go", "parser.go"], [("error branches of readRune callers", "lexer.go"), ("ParseStream error return", "parser.go")], ["ParseStream result and return time"])
p("P05", "Every supported type parses to a tree with exactly what was written",
  "For every module in the supported notation, each type assignment appears in the result with exactly the structure written: the builtin kind (each restricted string kind distinctly), references, components, alternatives, enumeration items, named bits and numbers in textual order and number, component names, OPTIONAL/DEFAULT marks, extension additions, element names of SEQUENCE OF/SET OF, ANY DEFINED BY names, and tag class, number and mode. Nothing is lost, duplicated, reordered or attached to a different element, at any nesting depth and any list length.",
  ["inputs"], "every module over the type productions, any nesting and list length",
  "parser_test.go checks about 30 fixed snippets and examples_test.go only checks that five RFC modules parse, not what they parse to.",
  ["asn1.y", "y.go", "ast.go"], [("type productions and their semantic actions", "asn1.y")], ["ParseString result tree"])
p("P06", "Literal values, defaults, OIDs and numbers keep their exact value",
  "Integers (with sign), booleans, real numbers (the double nearest to the decimal written, including fraction and exponent, and the infinities), object identifier components in their four forms, named numbers and bits, tag numbers, identified values and each component's DEFAULT value appear in the parse result with exactly the value written and at the element they were written on, and the literal values of assignments say which type they are of. A value does not depend on what is parsed before or after it in the module.",
  ["inputs", "histories"], "every value notation and every sequence of values within a module",
  "parser_test.go checks a handful of values one at a time; parseRealNumber is tested on six triples without leading zeros in the fraction; no test has two DEFAULTs whose values differ from the last one parsed.",
  ["asn1.y", "parser.go", "lexer.go", "ast.go"], [("value productions", "asn1.y"), ("parseRealNumber", "parser.go"), ("consumeNumber", "lexer.go")], ["ParseString result tree"])
p("P07", "Constraints keep their structure, precedence and target",
  "A parsed constraint is attached to exactly the type it follows (the element type after OF, the tagged type after a tag, the collection when written before OF) and keeps unions, intersections, exclusions, ALL EXCEPT, parentheses, single values, ranges with open or MIN/MAX ends, SIZE, contained types and additional element sets exactly as written, with intersection binding tighter than union and EXCEPT tighter than both. Both spellings of the operators mean the same, and exception specifications and inner-type constraint contents are accepted without altering anything else.",
  ["inputs"], "every constraint expression at every place a constraint may stand",
  "parser_test.go checks about ten constraint samples; precedence, nesting and the place of attachment multiply.",
  ["asn1.y", "ast.go"], [("constraint productions", "asn1.y")], ["ParseString result tree"])
p("P08", "Module header, imports and assignments are reported completely and in order",
  "The parse result carries the module name, every component of its object identifier, the tagging default (EXPLICIT when none is written), whether extensibility is implied, every import grouped under the module it comes from with that module's assigned identifier, and every assignment, all in textual order. EXPORTS clauses of every form are accepted and change nothing else.",
  ["inputs"], "every header, export, import and assignment list",
  "tests cover one or two fixed headers and a single FROM clause.",
  ["asn1.y", "ast.go"], [("ModuleDefinition, ModuleIdentifier, Imports, AssignmentList productions", "asn1.y")], ["ParseString result tree"])
p("P09", "Text that is not one valid module is rejected; a result and an error never mix",
  "Parsing returns either a module and no error, or an error and no module. Text that is one module in the supported notation gives a module. Text that the module notation does not allow - a missing, extra, misplaced or misspelt item anywhere, an unterminated construct, anything other than comments and white space after the module's END - is rejected and never silently repaired or partially accepted.",
  ["inputs"], "every text outside the notation, in particular every single-item deletion, insertion, duplication, swap or replacement in a valid module",
  "the tests contain almost no negative parser cases.",
  ["asn1.y", "y.go", "parser.go"], [("LALR tables", "y.go"), ("ParseStream", "parser.go")], ["ParseString result and error"])
p("P10", "A parse error names the line where the text first goes wrong",
  "The error for rejected text starts with 'line N:' where N is one plus the number of newline characters (LF, VT, FF, CR) before the first item that cannot continue a valid module, before the first malformed item, or before the end of the text if it ends too early. Preceding comments, block comments spanning lines, blank lines and the length of lines do not shift it, and a lexical error is reported as such rather than masked by a later one.",
  ["inputs"], "every rejected text and every layout of it",
  "two lexer tests check 'line 1' on one-line input; nothing checks a line number after newlines or comments.",
  ["lexer.go", "parser.go"], [("lineNo, readRune, unreadRune, Error", "lexer.go")], ["error text of ParseString"],
  [("lineNo", "newlines consumed so far", "lexer.go")])
p("P11", "Parsing and generation always return: no panic, no hang, on any input",
  "For every byte sequence of moderate size (up to about a megabyte), including invalid UTF-8, NUL bytes, deep nesting, very long items and truncation at any point, parsing returns a module or an error in bounded time. For every module that parses, in every generator configuration, generation returns nil or an error in bounded time (for modules of up to some thousand assignments, components or levels, and reference chains of up to some hundred steps).",
  ["inputs", "configurations"], "every byte sequence; every parsed module and generator parameter",
  "tests run on well-formed samples; crashes need unusual bytes, nesting, cyclic references or truncation points.",
  ["lexer.go", "parser.go", "y.go", "codegen.go"], [("lexer loops", "lexer.go"), ("recursive descent over types and references", "codegen.go")], ["ParseString/ParseStream/Generate returning"])
p("P12", "Each type assignment generates a Go declaration of the right shape",
  "Every type assignment yields exactly one Go type with the Go-ified name (hyphens to underscores, first letter upper case) in module order: BOOLEAN bool, INTEGER int64 or *big.Int as configured, REAL float64, character strings string, OCTET STRING []byte, BIT STRING asn1.BitString, ENUMERATED asn1.Enumerated, OBJECT IDENTIFIER asn1.ObjectIdentifier, ANY interface{}, useful times time.Time, SEQUENCE a struct, SET a struct named ...SET with an alias, SEQUENCE OF a slice, SET OF a slice named ...SET with an alias, tags and constraints transparent, struct fields being the components followed by the extension additions in order. A CHOICE becomes asn1.RawValue if any alternative is tagged (also through references and constraints), the alternative's own type if there is only one, else interface{}.",
  ["inputs", "configurations"], "every type expression the generator supports, every nesting, both integer representations",
  "codegen_test.go compares about 15 fixed modules; combinations of wrapper, collection, choice and reference are not covered.",
  ["codegen.go"], [("generateTypeDecl, generateTypeBody, generateChoiceType, structFromComponents", "codegen.go")], ["generated Go source"])
p("P13", "Struct field annotations say exactly what the component's notation says",
  "A generated field's asn1 annotation carries exactly: optional for OPTIONAL or DEFAULT components; default:N for an integer literal default; for each tag on the component its number, application/private for its class, and explicit when the tag's own mode (or, absent one, the module's default) is EXPLICIT; ia5/utf8/numeric for those string kinds, generalized/utc for the useful times, both also through type references; set for SET and SET OF written in place and for references to a SET. It carries nothing else, constraints do not disturb it, and a component that needs none has no annotation.",
  ["inputs", "configurations"], "every component type, tag, mode, class, default and module tagging environment",
  "codegen_test.go samples three tag modes and one string kind.",
  ["codegen.go"], [("asn1TagFromType", "codegen.go")], ["struct tags of the generated source"])
p("P14", "Generated source compiles and imports exactly the packages it uses",
  "Whenever generation succeeds for a module whose Go-ified names are distinct, whose values fit their types and that has no recursive type, the output is one Go file that parses and type-checks; its package clause is the configured name or else the Go-ified module name; it imports each of encoding/asn1, time, math and math/big exactly once if it is used and nothing else.",
  ["inputs", "configurations"], "every module for which generation succeeds, every generator configuration",
  "codegen_compilation_test.go compiles three fixed modules in one configuration.",
  ["codegen.go"], [("requireModule and import block", "codegen.go"), ("Generate", "codegen.go")], ["generated Go source"])
p("P15", "What cannot be generated is an error with no output, never a wrong file",
  "A module that uses something the generator does not support (AUTOMATIC TAGS, NULL, named collection elements, COMPONENTS OF, a component's tag number or a named number of an INTEGER type assignment given by reference to another module, an unknown integer representation), or a type reference that resolves nowhere, makes generation return an error and write nothing, wherever it occurs in a type the Go declarations are made from (so not inside constraints, alternatives of a CHOICE that becomes RawValue or interface{}, or types of value assignments that generate nothing) and whatever else the module contains. An error from the output writer is returned to the caller.",
  ["inputs", "configurations", "fault_sequences"], "every position of an unsupported or unresolvable construct; every failing write",
  "no test checks that generation fails.",
  ["codegen.go"], [("appendError / errors check before printing", "codegen.go"), ("Generate", "codegen.go")], ["Generate's error and the bytes written"])
p("P16", "Type references resolve by definition, whatever their order, depth or wrapping",
  "The Go type and annotation derived from a type reference depend only on the type it finally denotes: they are the same whether the definition precedes or follows the use, through any number of intermediate references, tags and constraints, and whatever unrelated assignments surround it. References that never reach a definition - unknown names and cycles of any length - are reported as errors.",
  ["inputs"], "every reference graph, assignment order and chain length",
  "tests have one two-step chain in definition-first order and no cycle.",
  ["codegen.go", "ast.go"], [("unwrapToLeafType, resolveTypeReference", "codegen.go"), ("AssignmentList.GetType", "ast.go")], ["generated Go source", "Generate's error"])
p("P17", "Value assignments and named numbers become Go variables with the same value",
  "Each integer, boolean or real value assignment with a literal value yields one Go variable Val<Name> of the assigned type's Go type holding that value, and each named number of an INTEGER type assignment yields <Type>Val<Name> of that type holding that number or the referenced variable, in module order and in either integer representation. Other value assignments yield nothing and do not disturb their neighbours.",
  ["inputs", "configurations"], "every value assignment and named number list, both integer representations",
  "codegen_test.go has one sample of each, with int64 only.",
  ["codegen.go"], [("tryGenerateValueAssignment, generateAssociatedValuesIfNeeded, numberToExpr", "codegen.go")], ["generated Go source"])
p("P18", "Generated types speak the DER encoding the ASN.1 module defines",
  "Encoding a value of a generated type with encoding/asn1 produces the DER bytes X.690 prescribes for that value of the ASN.1 type - tags, classes, explicit and implicit wrapping, omitted OPTIONAL and DEFAULT components, SET and SET OF, string and time kinds - and decoding those bytes restores the value. This covers what encoding/asn1 can represent: tags on components (not on type assignments), at most one per component, not UNIVERSAL and not on CHOICE or ANY; default-kind strings and times inside lists; integer DEFAULTs with int64 integers; SET components in tag order and not as the outermost type or a list element; no named bits; zero values of OPTIONAL components count as absent. Decoding excludes what encoding/asn1 cannot read back: EXPLICIT tags of class PRIVATE, an absent string or time component that may be mistaken for a following one of another kind, and lists of untagged CHOICEs.",
  ["inputs", "programs"], "every supported type over small values, with every tagging and optionality",
  "the Kerberos and X.509 example tests marshal a few messages; codegen_compilation_test.go only marshals zero values.",
  ["codegen.go"], [("field annotations and SET naming", "codegen.go")], ["asn1.Marshal/Unmarshal on compiled generated types"])
p("P19", "Parsing and generating are independent, repeatable and side-effect free",
  "The result of parsing a text or generating from a module depends only on that text, or that module and the generator's parameters: not on earlier calls (successful or failed), on calls running at the same time in other goroutines, or on how often it is repeated. Generation does not modify the module, and a returned module is not affected by later calls.",
  ["histories", "schedules"], "every sequence and interleaving of parse, generate and lookup calls",
  "every test makes one call on a fresh input and looks only at that result.",
  ["parser.go", "y.go", "lexer.go", "codegen.go"], [("per-call lexer and parser state", "parser.go"), ("per-call moduleContext", "codegen.go")], ["results of ParseString/ParseStream/Generate across call histories"])
p("P20", "The asn1go command honours its input, output, flags and exit status",
  "asn1go reads the named input file or standard input, and writes exactly the source the library generates for it with the given -package and -default-integer-repr to the named output file (replacing all previous content) or standard output, exiting 0 with nothing on standard error. If an argument is wrong, the input cannot be read or parsed, or generation fails, it exits non-zero with the complete message on standard error, writes no Go source and never touches any file other than the named output.",
  ["inputs", "configurations", "fault_sequences"], "every combination of arguments, prior output content, input validity and file failure",
  "the command has no tests of its own; it is only run by go generate on good input.",
  ["cmd/asn1go/main.go"], [("parseFlags, openChannels, main, failWithError", "cmd/asn1go/main.go")], ["exit status, stdout, stderr, file contents"])
p("P21", "Hex-dump decoding returns exactly the bytes of the dump",
  "Decoding a hex dump returns, for every line, the bytes of all columns after the first (offset) column, in order, with any number of spaces between columns, any number of lines and empty lines allowed; ws2bin writes exactly those bytes to standard output. A column that is not a one-byte hex number is never turned into a byte.",
  ["inputs"], "every dump layout and byte content",
  "the unit test compares the first four bytes of one dump.",
  ["internal/utils/dump.go", "cmd/ws2bin/main.go"], [("ParseWiresharkHex", "internal/utils/dump.go")], ["returned bytes", "ws2bin stdout"])
p("P22", "MarshalToFile leaves exactly the value's DER encoding in the file, or an error",
  "After a nil error the named file holds exactly the DER encoding of the value, whatever it held before. If the value cannot be encoded the file is left as it was and an error is returned; if the file cannot be written an error is returned. A file that did not exist is created with the permissions asked for, less those the process masks.",
  ["inputs", "histories", "fault_sequences"], "every value, prior file state and failure",
  "there is no test of it.",
  ["marshal.go"], [("MarshalToFile", "marshal.go")], ["file contents and returned error"])
p("P23", "Looking up an assignment by name finds the first one with exactly that name",
  "Looking up a name in a module's assignments returns the first assignment defining exactly that name, or nothing if there is none; the type lookup returns it only if it is a type assignment, and the value lookup only if it is a value assignment. What is returned is equal to what was parsed, and changing the returned copy does not change the module.",
  ["inputs", "histories"], "every assignment list and name",
  "tests use it on one-element lists only.",
  ["ast.go"], [("AssignmentList.Get/GetType/GetValue", "ast.go")], ["lookup results"])
p("P24", "The library closes the files it opens and leaves open those it is given",
  "ParseFile and MarshalToFile close every file they open before they return, whether they succeed or fail; ParseStream and Generate leave the file they are given open and usable. So a process that makes any number of calls holds no more files than it opened itself.",
  ["histories", "fault_sequences"], "every history of calls, with files that can and cannot be opened, read, parsed and written",
  "no test counts open files; a leak shows only after very many calls.",
  ["parser.go", "marshal.go"], [("ParseFile", "parser.go"), ("MarshalToFile", "marshal.go")], ["open files of the process after every call"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
