package main

import (
	"fmt"
	"strconv"
	"strings"

	asn1go "github.com/chemikadze/asn1go"
)

// lineOf reads the line an error names.
func lineOf(err error) (int, bool) {
	s := err.Error()
	if !strings.HasPrefix(s, "line ") {
		return 0, false
	}
	s = s[5:]
	i := strings.Index(s, ":")
	if i < 0 {
		return 0, false
	}
	n, e := strconv.Atoi(s[:i])
	return n, e == nil
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:300] + " ...... " + s[len(s)-280:]
	}
	return s
}

// verdict: whether a text is a module, and where it first goes wrong.
func verdictMode(v M) []finding {
	txt := text(v)
	m, err := asn1go.ParseString(txt)
	if (m == nil) == (err == nil) {
		return []finding{f(fmt.Sprintf("text %q: module returned: %v, error: %v", clip(txt), m != nil, err), "P09")}
	}
	switch str(v["verdict"]) {
	case "accept":
		count("allowed")
		if err != nil {
			return []finding{f(fmt.Sprintf("text %q is a module of the notation but is rejected: %v", clip(txt), err), "P09", "P05", "P06", "P07", "P08")}
		}
		if ast, ok := v["ast"].(M); ok && ast["k"] == "module" {
			count("meanings")
			fs := []finding{}
			for p, msg := range compareModules(ast, pModule(m)) {
				fs = append(fs, f(fmt.Sprintf("text %q: %s", clip(txt), msg), p))
			}
			return fs
		}
	case "reject":
		count("not allowed")
		if err == nil {
			return []finding{f(fmt.Sprintf("text %q is not a module but is accepted", clip(txt)), "P09")}
		}
		lines := list(v["lines"])
		n, ok := lineOf(err)
		hit := false
		for _, l := range lines {
			hit = hit || int(l.(float64)) == n
		}
		if !ok || !hit {
			return []finding{f(fmt.Sprintf("text %q: the error should name line %v, got %q", clip(txt), lines, err), "P10")}
		}
	default:
		panic(harness("no verdict in vector"))
	}
	return nil
}

func init() { modes["verdict"] = verdictMode }
