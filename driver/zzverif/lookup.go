package main

// Look-ups by name in modules of the specification, parsed and built.

import (
	"fmt"
	"reflect"

	asn1go "github.com/chemikadze/asn1go"
)

func lookupMode(v M) []finding {
	fs := []finding{}
	ast := M{"k": "module", "name": "M", "oid": L{}, "tags": "EXPLICIT", "ext": false, "imports": L{}, "body": v["body"]}
	lists := map[string]asn1go.AssignmentList{"built": bModule(ast).ModuleBody.AssignmentList}
	if len(list(v["toks"])) > 0 {
		m, err := asn1go.ParseString(text(v))
		if err != nil {
			return append(fs, f(fmt.Sprintf("text of the supported notation is rejected: %v", err), "P23"))
		}
		lists["parsed"] = m.ModuleBody.AssignmentList
		count("parsed")
	}
	for how, l := range lists {
		fresh := bModule(ast).ModuleBody.AssignmentList
		if how == "parsed" {
			m, err := asn1go.ParseString(text(v))
			if err != nil || len(m.ModuleBody.AssignmentList) != len(fresh) {
				return append(fs, f(fmt.Sprintf("parsed again: %v, %v", m, err), "P23"))
			}
			fresh = m.ModuleBody.AssignmentList
		}
		for step, x := range list(v["asks"]) {
			q := mp(x)
			name, i := str(q["n"]), int(q["i"].(float64))
			var got interface{}
			var spoil func()
			switch str(q["op"]) {
			case "any":
				if a := l.Get(name); a != nil {
					got = a
				}
			case "type":
				if a := l.GetType(name); a != nil {
					got = *a
					spoil = func() { a.TypeReference, a.Type = "Spoiled", asn1go.NullType{} }
				}
			case "value":
				if a := l.GetValue(name); a != nil {
					got = *a
					spoil = func() { a.ValueReference, a.Type, a.Value = "spoiled", asn1go.NullType{}, asn1go.Number(-1) }
				}
			}
			where := fmt.Sprintf("question %d in a module of %d assignments (%s): %s lookup of %q", step+1, len(l), how, q["op"], name)
			if i == 0 {
				if got != nil {
					fs = append(fs, f(fmt.Sprintf("%s finds %#v, there is none", where, got), "P23"))
				}
				continue
			}
			if got == nil {
				fs = append(fs, f(fmt.Sprintf("%s finds nothing, it should find assignment %d", where, i), "P23"))
				continue
			}
			if !reflect.DeepEqual(got, interface{}(fresh[i-1])) {
				fs = append(fs, f(fmt.Sprintf("%s finds %#v, it should find %#v", where, got, fresh[i-1]), "P23"))
			}
			if q["spoil"] == true && spoil != nil {
				spoil()
			}
			count("answers")
		}
		if !reflect.DeepEqual(l, fresh) {
			fs = append(fs, f(fmt.Sprintf("looking up changed the %s module", how), "P23"))
		}
	}
	return fs
}

func init() { modes["lookup"] = lookupMode }
