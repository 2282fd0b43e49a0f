package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	asn1go "github.com/chemikadze/asn1go"
)

// putCode appends a character; 1114112+b is the raw byte b.
func putCode(b *strings.Builder, c int) {
	if c >= 1114112 {
		b.WriteByte(byte(c - 1114112))
		return
	}
	var buf [4]byte
	b.Write(buf[:utf8.EncodeRune(buf[:], rune(c))])
}

// putUnit appends a sequence of [characters, repetitions].
func putUnit(b *strings.Builder, u interface{}) {
	for _, p := range list(u) {
		pr := list(p)
		var s strings.Builder
		for _, c := range list(pr[0]) {
			putCode(&s, int(c.(float64)))
		}
		b.WriteString(strings.Repeat(s.String(), int(pr[1].(float64))))
	}
}

func laidOut(v M) string {
	var b strings.Builder
	toks := list(v["toks"])
	for i, g := range list(v["gaps"]) {
		putUnit(&b, g)
		if i < len(toks) {
			b.WriteString(str(toks[i]))
		}
	}
	return b.String()
}

// layout: white space and comments change nothing.
func layoutMode(v M) []finding {
	txt := laidOut(v)
	spaced := text(M{"toks": v["toks"]})
	want, werr := asn1go.ParseString(spaced)
	if werr != nil || want == nil {
		// not this property's business, but not a result either
		count("rejected with single spaces")
		return nil
	}
	got, err := asn1go.ParseString(txt)
	if err != nil || got == nil {
		return []finding{f(fmt.Sprintf("text %q is rejected (%v), but accepted with single spaces between its items", clip(txt), err), "P02")}
	}
	count("laid out")
	if !reflect.DeepEqual(got, want) {
		msg := "the modules differ"
		for _, m := range compareModules(pModule(want), pModule(got)) {
			msg = m
		}
		return []finding{f(fmt.Sprintf("text %q does not mean what it means with single spaces: %s", clip(txt), msg), "P02")}
	}
	return nil
}

func init() { modes["layout"] = layoutMode }
