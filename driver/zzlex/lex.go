package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	asn1go "github.com/chemikadze/asn1go"
)

// bytesOf decodes the characters of the specification.
func bytesOf(codes interface{}) []byte {
	var b bytes.Buffer
	for _, c := range codes.(L) {
		n := int(c.(float64))
		if n >= 1114112 {
			b.WriteByte(byte(n - 1114112))
		} else {
			var t [utf8.UTFMax]byte
			b.Write(t[:utf8.EncodeRune(t[:], rune(n))])
		}
	}
	return b.Bytes()
}

func lineOf(err error) (int, bool) {
	s := err.Error()
	if !strings.HasPrefix(s, "line ") {
		return 0, false
	}
	s = s[5:]
	i := strings.Index(s, ":")
	if i < 0 {
		return 0, false
	}
	n, e := strconv.Atoi(s[:i])
	return n, e == nil
}

func lexMode(v M) []finding {
	txt := append(bytes.Repeat([]byte{' '}, int(v["pad"].(float64))), bytesOf(v["codes"])...)
	want := v["toks"].(L)
	got, err := asn1go.ZZLex(bytes.NewReader(txt), len(txt)+1)
	fs := []finding{}
	comment := bytes.Contains(txt, []byte("--")) || bytes.Contains(txt, []byte("/*"))
	props := []string{"P01"}
	if comment {
		props = append(props, "P02")
	}
	errs := v["err"].(L)
	show := func() string { return fmt.Sprintf("text %q", clip(txt)) }
	for i := 0; i < len(want) && i < len(got); i++ {
		w := want[i].(M)
		if w["k"] != got[i].Kind || w["v"] != got[i].Text {
			return []finding{f(fmt.Sprintf("%s: item %d should be %v %v, got %s %s", show(), i+1, w["k"], w["v"], got[i].Kind, short(got[i].Text)), props...)}
		}
	}
	if len(want) > len(got) {
		fs = append(fs, f(fmt.Sprintf("%s: %d items expected, got only %d (error: %v)", show(), len(want), len(got), err), props...))
	} else if len(want) < len(got) {
		fs = append(fs, f(fmt.Sprintf("%s: %d items expected, got %d, the next being %s %s", show(), len(want), len(got), got[len(want)].Kind, short(got[len(want)].Text)), props...))
	}
	if len(errs) > 0 && err == nil {
		fs = append(fs, f(fmt.Sprintf("%s: no error reported", show()), append(props, "P09")...))
	}
	if len(errs) == 0 && err != nil && len(fs) == 0 {
		fs = append(fs, f(fmt.Sprintf("%s: unexpected error %v", show(), err), props...))
	}
	if len(errs) > 0 && err != nil {
		n, ok := lineOf(err)
		hit := false
		for _, e := range errs {
			hit = hit || int(e.(float64)) == n
		}
		if !ok || !hit {
			fs = append(fs, f(fmt.Sprintf("%s: error should name line %v, got %q", show(), errs, err), "P10"))
		}
	}
	if len(errs) > 0 {
		count("with error")
	} else {
		count("without error")
	}
	return fs
}

func clip(b []byte) []byte {
	if len(b) > 300 {
		return append(append([]byte{}, b[:140]...), append([]byte(" ...... "), b[len(b)-150:]...)...)
	}
	return b
}

func short(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

func init() { modes["lex"] = lexMode }
