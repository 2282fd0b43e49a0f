package main

// Hex dumps, decoded by the library and by ws2bin.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/chemikadze/asn1go/internal/utils"
)

func hexMode(v M) []finding {
	fs := []finding{}
	var b strings.Builder
	for _, c := range list(v["codes"]) {
		b.WriteRune(rune(c.(float64)))
	}
	rep := int(v["rep"].(float64))
	dump := strings.Repeat(b.String(), rep)
	wide := 1
	if w, ok := v["wide"].(float64); ok && w > 0 {
		wide = int(w)
		head := int(v["head"].(float64))
		dump = dump[:head] + strings.Repeat(dump[head:], wide)
		dump += "\n" + dump
		rep = 2
		count("wide lines")
	}
	want := []byte{}
	for _, c := range list(v["bytes"]) {
		want = append(want, byte(c.(float64)))
	}
	want = bytes.Repeat(want, rep*wide)
	bad := v["bad"] == true
	ok := func(got []byte) bool {
		if bad { // may stop there, or leave it out
			return bytes.Equal(got, want) || bytes.HasPrefix(want, got)
		}
		return bytes.Equal(got, want)
	}
	where := dump
	if len(where) > 300 {
		where = where[:300] + "..."
	}
	func() {
		defer func() {
			if p := recover(); p != nil && !bad {
				fs = append(fs, f(fmt.Sprintf("%q: panic: %v", where, p), "P21"))
			}
		}()
		got := utils.ParseWiresharkHex(dump)
		if !ok(got) {
			fs = append(fs, f(fmt.Sprintf("%q is decoded as % x, it should be % x", where, cut(got), cut(want)), "P21"))
		}
		count("decoded")
	}()
	if cmd := os.Getenv("VERIF_WS2BIN"); cmd != "" && (rep > 2 || wide > 1 || len(fs) > 0 || key(v)[0] == '4') {
		c := exec.Command(cmd)
		c.Stdin = strings.NewReader(dump)
		var out, errs bytes.Buffer
		c.Stdout, c.Stderr = &out, &errs
		err := c.Run()
		if err != nil {
			if _, isExit := err.(*exec.ExitError); !isExit {
				panic(harness("ws2bin: " + err.Error()))
			}
			if !bad {
				fs = append(fs, f(fmt.Sprintf("ws2bin fails on %q: %v %s", where, err, errs.String()), "P21"))
			}
		}
		if !ok(out.Bytes()) {
			fs = append(fs, f(fmt.Sprintf("ws2bin writes % x for %q, it should write % x", cut(out.Bytes()), where, cut(want)), "P21"))
		}
		count("ws2bin")
	}
	return fs
}

func cut(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func init() { modes["hex"] = hexMode }
