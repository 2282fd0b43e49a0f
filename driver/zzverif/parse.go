package main

import (
	"fmt"
	"strings"

	asn1go "github.com/chemikadze/asn1go"
)

func text(v M) string {
	if s, ok := v["text"].(string); ok {
		return s
	}
	if cs, ok := v["codes"].(L); ok {
		var b strings.Builder
		for _, c := range cs {
			putCode(&b, int(c.(float64)))
		}
		return b.String()
	}
	if gaps, ok := v["gaps"].(L); ok { // gap 0, item 1, gap 1, item 2, ...
		var b strings.Builder
		toks := list(v["toks"])
		far, _ := v["far"].(M)
		for i, g := range gaps {
			if far != nil && num(far["n"]) > 0 && num(far["at"]) == i {
				b.WriteString(strings.Repeat(str(far["unit"].(M)["s"]), num(far["n"])))
				count("very long gaps")
			}
			b.WriteString(str(g))
			if i < len(toks) {
				b.WriteString(str(toks[i]))
			}
		}
		return b.String()
	}
	toks := []string{}
	for _, t := range list(v["toks"]) {
		toks = append(toks, str(t))
	}
	return strings.Join(toks, " ")
}

// parse: the text means exactly the tree of the specification.
func parseMode(v M) []finding {
	txt := text(v)
	m, err := asn1go.ParseString(txt)
	if err != nil {
		fs := []finding{f(fmt.Sprintf("text of the supported notation is rejected: %v", err), "*")}
		if m != nil {
			fs = append(fs, f("a module and an error at once", "P09"))
		}
		return fs
	}
	if m == nil {
		return []finding{f("neither a module nor an error", "P09", "*")}
	}
	count("parsed")
	fs := []finding{}
	for p, msg := range compareModules(v["ast"], pModule(m)) {
		fs = append(fs, f(msg, p))
	}
	return fs
}

func init() { modes["parse"] = parseMode }
