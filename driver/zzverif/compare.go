package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

// specReal is the double nearest to the decimal "ddde<x>" of the specification.
// It is computed with exact rationals, not with the conversion under test.
func specReal(s string) float64 {
	switch s {
	case "0":
		return 0
	case "inf":
		return math.Inf(1)
	case "-inf":
		return math.Inf(-1)
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(harness("bad real in vector: " + s))
	}
	f, _ := r.Float64()
	return f
}

// normal replaces the decimals of the specification by doubles.
func normal(x interface{}) interface{} {
	switch x := x.(type) {
	case M:
		if x["k"] == "real" {
			if s, ok := x["v"].(string); ok && len(x) == 2 {
				return realNode(specReal(s))
			}
		}
		r := M{}
		for k, v := range x {
			r[k] = normal(v)
		}
		return r
	case L:
		r := make(L, len(x))
		for i, v := range x {
			r[i] = normal(v)
		}
		return r
	}
	return x
}

// strip removes constraints.
func strip(x interface{}) interface{} {
	switch x := x.(type) {
	case M:
		if x["k"] == "CONSTR" {
			return strip(x["t"])
		}
		r := M{}
		for k, v := range x {
			r[k] = strip(v)
		}
		return r
	case L:
		r := make(L, len(x))
		for i, v := range x {
			r[i] = strip(v)
		}
		return r
	}
	return x
}

type difference struct {
	path     string
	exp, act interface{}
}

func short(x interface{}) string {
	s := fmt.Sprint(x)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func (d difference) String() string {
	return fmt.Sprintf("at %s: expected %s, got %s", d.path, short(d.exp), short(d.act))
}

// diff lists the places where two trees differ.
func diff(path string, exp, act interface{}, out *[]difference) {
	if len(*out) > 20 {
		return
	}
	switch e := exp.(type) {
	case M:
		a, ok := act.(M)
		if !ok || e["k"] != a["k"] {
			*out = append(*out, difference{path, exp, act})
			return
		}
		keys := map[string]bool{}
		for k := range e {
			keys[k] = true
		}
		for k := range a {
			keys[k] = true
		}
		ks := []string{}
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			ev, eok := e[k]
			av, aok := a[k]
			if !eok || !aok {
				*out = append(*out, difference{path + "/" + k, ev, av})
				continue
			}
			diff(path+"/"+k, ev, av, out)
		}
	case L:
		a, ok := act.(L)
		if !ok {
			*out = append(*out, difference{path, exp, act})
			return
		}
		for i := 0; i < len(e) && i < len(a); i++ {
			diff(fmt.Sprintf("%s/%d", path, i), e[i], a[i], out)
		}
		if len(e) != len(a) {
			*out = append(*out, difference{path + "/#", fmt.Sprintf("%d elements", len(e)), fmt.Sprintf("%d elements", len(a))})
		}
	default:
		if exp != act {
			*out = append(*out, difference{path, exp, act})
		}
	}
}

var valueKinds = map[string]bool{"num": true, "bool": true, "real": true, "oid": true, "dv": true, "id": true, "none": true}

func isValue(x interface{}) bool {
	m, ok := x.(M)
	return ok && valueKinds[str(m["k"])]
}

// blame says which properties a difference at a path contradicts.
func blame(d difference) []string {
	p := strings.Split(d.path, "/")[1:]
	if len(p) == 0 {
		return []string{"P08"}
	}
	if p[0] != "body" {
		if p[0] == "oid" || (p[0] == "imports" && strings.Contains(d.path, "/aid")) {
			return []string{"P08", "P06"}
		}
		return []string{"P08"}
	}
	if len(p) <= 2 || (len(p) == 3 && p[2] != "t" && p[2] != "v") {
		return []string{"P08"}
	}
	if p[2] == "v" {
		return []string{"P06"}
	}
	value := isValue(d.exp) || isValue(d.act)
	for i, s := range p[3:] {
		switch s {
		case "c":
			if value {
				return []string{"P07", "P06"}
			}
			for _, r := range p[3+i:] {
				if r == "v" || r == "es" || r == "oid" {
					return []string{"P07", "P06"}
				}
			}
			return []string{"P07"}
		case "def", "num":
			return []string{"P05", "P06"}
		case "bits", "nums", "root", "more":
			return []string{"P05", "P06"}
		}
	}
	return []string{"P05"}
}

// compareModules gives, for each property contradicted, the first difference.
func compareModules(exp, act interface{}) map[string]string {
	res := map[string]string{}
	exp = normal(exp)
	add := func(ds []difference, only string) {
		for _, d := range ds {
			for _, p := range blame(d) {
				if only != "" && p != only && !(only == "P07" && p == "P06" && strings.Contains(d.path, "/c/")) {
					continue
				}
				if _, ok := res[p]; !ok {
					res[p] = d.String()
				}
			}
		}
	}
	var bare, full []difference
	diff("", strip(exp), strip(act), &bare)
	add(bare, "")
	diff("", exp, act, &full)
	if len(full) > 0 && len(bare) == 0 {
		add(full, "P07")
		if _, ok := res["P07"]; !ok {
			res["P07"] = full[0].String()
		}
	} else {
		add(full, "P07")
	}
	return res
}
