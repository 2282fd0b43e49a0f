package asn1go

// Exposes the lexer to the conformance driver (compiled in through an overlay only).

import (
	"bufio"
	"io"
)

// ZZItem is a lexical item: kind and text as in the specification, value for numbers.
type ZZItem struct {
	Kind, Text string
}

var zzReserved = map[int]string{
	ABSENT:           "ABSENT",
	ENCODED:          "ENCODED",
	INTEGER:          "INTEGER",
	RELATIVE_OID:     "RELATIVE-OID",
	ABSTRACT_SYNTAX:  "ABSTRACT-SYNTAX",
	END:              "END",
	INTERSECTION:     "INTERSECTION",
	SEQUENCE:         "SEQUENCE",
	ALL:              "ALL",
	ENUMERATED:       "ENUMERATED",
	ISO646String:     "ISO646String",
	SET:              "SET",
	APPLICATION:      "APPLICATION",
	EXCEPT:           "EXCEPT",
	MAX:              "MAX",
	SIZE:             "SIZE",
	AUTOMATIC:        "AUTOMATIC",
	EXPLICIT:         "EXPLICIT",
	MIN:              "MIN",
	STRING:           "STRING",
	BEGIN:            "BEGIN",
	EXPORTS:          "EXPORTS",
	MINUS_INFINITY:   "MINUS-INFINITY",
	SYNTAX:           "SYNTAX",
	BIT:              "BIT",
	EXTENSIBILITY:    "EXTENSIBILITY",
	NULL:             "NULL",
	T61String:        "T61String",
	BMPString:        "BMPString",
	EXTERNAL:         "EXTERNAL",
	NumericString:    "NumericString",
	TAGS:             "TAGS",
	BOOLEAN:          "BOOLEAN",
	FALSE:            "FALSE",
	OBJECT:           "OBJECT",
	TeletexString:    "TeletexString",
	BY:               "BY",
	FROM:             "FROM",
	ObjectDescriptor: "ObjectDescriptor",
	TRUE:             "TRUE",
	CHARACTER:        "CHARACTER",
	GeneralizedTime:  "GeneralizedTime",
	OCTET:            "OCTET",
	TYPE_IDENTIFIER:  "TYPE-IDENTIFIER",
	CHOICE:           "CHOICE",
	GeneralString:    "GeneralString",
	OF:               "OF",
	UNION:            "UNION",
	CLASS:            "CLASS",
	GraphicString:    "GraphicString",
	OPTIONAL:         "OPTIONAL",
	UNIQUE:           "UNIQUE",
	COMPONENT:        "COMPONENT",
	IA5String:        "IA5String",
	PATTERN:          "PATTERN",
	UNIVERSAL:        "UNIVERSAL",
	COMPONENTS:       "COMPONENTS",
	IDENTIFIER:       "IDENTIFIER",
	PDV:              "PDV",
	UniversalString:  "UniversalString",
	CONSTRAINED:      "CONSTRAINED",
	IMPLICIT:         "IMPLICIT",
	PLUS_INFINITY:    "PLUS-INFINITY",
	UTCTime:          "UTCTime",
	CONTAINING:       "CONTAINING",
	IMPLIED:          "IMPLIED",
	PRESENT:          "PRESENT",
	UTF8String:       "UTF8String",
	DEFAULT:          "DEFAULT",
	IMPORTS:          "IMPORTS",
	PrintableString:  "PrintableString",
	VideotexString:   "VideotexString",
	DEFINITIONS:      "DEFINITIONS",
	INCLUDES:         "INCLUDES",
	PRIVATE:          "PRIVATE",
	VisibleString:    "VisibleString",
	EMBEDDED:         "EMBEDDED",
	INSTANCE:         "INSTANCE",
	REAL:             "REAL",
	WITH:             "WITH",
	ANY:              "ANY",
	DEFINED:          "DEFINED",
}

var zzSymbols = map[int]string{
	ASSIGNMENT:             "::=",
	ELLIPSIS:               "...",
	RANGE_SEPARATOR:        "..",
	LEFT_VERSION_BRACKETS:  "[[",
	RIGHT_VERSION_BRACKETS: "]]",
	OPEN_CURLY:             "{",
	CLOSE_CURLY:            "}",
	LESS:                   "<",
	GREATER:                ">",
	COMMA:                  ",",
	DOT:                    ".",
	OPEN_ROUND:             "(",
	CLOSE_ROUND:            ")",
	OPEN_SQUARE:            "[",
	CLOSE_SQUARE:           "]",
	MINUS:                  "-",
	COLON:                  ":",
	EQUALS:                 "=",
	QUOTATION_MARK:         "\"",
	APOSTROPHE:             "'",
	SEMICOLON:              ";",
	AT:                     "@",
	PIPE:                   "|",
	EXCLAMATION:            "!",
	CARET:                  "^",
}

// ZZLex splits everything r has into items.
func ZZLex(r io.Reader, max int) (items []ZZItem, err error) {
	lex := &MyLexer{bufReader: bufio.NewReader(r)}
	for len(items) <= max {
		lval := &yySymType{}
		code := lex.Lex(lval)
		switch {
		case code == 0:
			return items, lex.err
		case code < 0:
			return items, lex.err
		case code == TYPEORMODULEREFERENCE:
			items = append(items, ZZItem{"tref", lval.name})
		case code == VALUEIDENTIFIER:
			items = append(items, ZZItem{"id", lval.name})
		case code == NUMBER:
			items = append(items, ZZItem{"num", zzNumber(lval.Number.IntValue())})
		case code == EXPONENT:
			items = append(items, ZZItem{"exp", "e"})
		case zzReserved[code] != "":
			items = append(items, ZZItem{"res", zzReserved[code]})
		case zzSymbols[code] != "":
			items = append(items, ZZItem{"sym", zzSymbols[code]})
		default:
			items = append(items, ZZItem{"unknown", zzNumber(code)})
		}
	}
	return items, lex.err
}

func zzNumber(n int) string {
	if n == 0 {
		return "0"
	}
	s, neg := "", n < 0
	for n != 0 {
		d := n % 10
		if d < 0 {
			d = -d
		}
		s = string(rune('0'+d)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}
