package main

// Values of generated types on the wire, compared with the octets of the
// specification, and back.

import (
	"bytes"
	"encoding/asn1"
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"time"
)

var wireTypes = map[string]func() interface{}{}

var (
	bigInt  = reflect.TypeOf((*big.Int)(nil))
	timeTyp = reflect.TypeOf(time.Time{})
	rawTyp  = reflect.TypeOf(asn1.RawValue{})
	bitsTyp = reflect.TypeOf(asn1.BitString{})
)

func str(x interface{}) string { s, _ := x.(string); return s }
func list(x interface{}) L     { l, _ := x.(L); return l }
func mp(x interface{}) M       { m, _ := x.(M); return m }
func num(x interface{}) int {
	n, ok := x.(float64)
	if !ok {
		panic(harness(fmt.Sprintf("bad number in vector: %v", x)))
	}
	return int(n)
}
func octets(x interface{}) []byte {
	b := []byte{}
	for _, o := range list(x) {
		b = append(b, byte(num(o)))
	}
	return b
}

type misfit string

// fill sets rv, of the generated type for t, to the value v.
func fill(rv reflect.Value, t M, v M, defs map[string]M) {
	kind := func(ok bool, what string) {
		if !ok {
			panic(misfit(fmt.Sprintf("%v cannot hold %s", rv.Type(), what)))
		}
	}
	switch str(t["k"]) {
	case "CONSTR", "TAG":
		fill(rv, mp(t["t"]), v, defs)
		return
	case "REF":
		if d, ok := defs[str(t["n"])]; ok {
			fill(rv, d, v, defs)
			return
		}
	}
	switch str(v["k"]) {
	case "absent":
	case "bool":
		kind(rv.Kind() == reflect.Bool, "a BOOLEAN")
		rv.SetBool(v["v"] == true)
	case "int":
		if rv.Type() == bigInt {
			n, ok := new(big.Int).SetString(str(v["v"]), 10)
			if !ok {
				panic(harness("bad integer in vector"))
			}
			rv.Set(reflect.ValueOf(n))
			return
		}
		n, err := strconv.ParseInt(str(v["v"]), 10, 64)
		if err != nil {
			panic(harness(err.Error()))
		}
		if rv.Kind() == reflect.Interface {
			rv.Set(reflect.ValueOf(n))
			return
		}
		kind(rv.CanInt(), "an INTEGER")
		rv.SetInt(n)
	case "oid":
		o := asn1.ObjectIdentifier{}
		for _, x := range list(v["v"]) {
			o = append(o, num(x))
		}
		kind(reflect.TypeOf(o).AssignableTo(rv.Type()), "an OBJECT IDENTIFIER")
		rv.Set(reflect.ValueOf(o))
	case "octets":
		b := octets(v["v"])
		kind(reflect.TypeOf(b).AssignableTo(rv.Type()), "an OCTET STRING")
		rv.Set(reflect.ValueOf(b))
	case "bits":
		kind(rv.Type() == bitsTyp, "a BIT STRING")
		b := octets(v["v"])
		rv.Set(reflect.ValueOf(asn1.BitString{Bytes: b, BitLength: 8*len(b) - num(v["u"])}))
	case "str":
		kind(rv.Kind() == reflect.String, "a string")
		rv.SetString(string(octets(v["v"])))
	case "time":
		kind(rv.Type() == timeTyp, "a time")
		d := mp(v["v"])
		rv.Set(reflect.ValueOf(time.Date(num(d["y"]), time.Month(num(d["mo"])), num(d["d"]), num(d["h"]), num(d["mi"]), num(d["s"]), 0, time.UTC)))
	case "seq":
		cs := append(append(L{}, list(t["comps"])...), list(t["adds"])...)
		kind(rv.Kind() == reflect.Struct && rv.NumField() == len(cs), fmt.Sprintf("%d components", len(cs)))
		for i, c := range cs {
			fill(rv.Field(i), mp(mp(c)["t"]), mp(list(v["v"])[i]), defs)
		}
	case "list":
		kind(rv.Kind() == reflect.Slice, "a list")
		vs := list(v["v"])
		rv.Set(reflect.MakeSlice(rv.Type(), len(vs), len(vs)))
		for i, x := range vs {
			fill(rv.Index(i), mp(t["t"]), mp(x), defs)
		}
	case "alt":
		if rv.Type() == rawTyp {
			var r asn1.RawValue
			if rest, err := asn1.Unmarshal(octets(v["b"]), &r); err != nil || len(rest) > 0 {
				panic(harness(fmt.Sprintf("alternative %x of the vector: %v", octets(v["b"]), err)))
			}
			rv.Set(reflect.ValueOf(r))
			return
		}
		kind(rv.Kind() == reflect.Interface, "an alternative")
		fill(rv, mp(mp(list(t["alts"])[num(v["i"])-1])["t"]), mp(v["v"]), defs)
	default:
		panic(harness("unknown value in vector: " + str(v["k"])))
	}
}

// equal compares values as what they mean.
func equal(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Type() {
	case bigInt:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Interface().(*big.Int).Cmp(b.Interface().(*big.Int)) == 0
	case timeTyp:
		return a.Interface().(time.Time).Equal(b.Interface().(time.Time))
	case rawTyp:
		return bytes.Equal(a.Interface().(asn1.RawValue).FullBytes, b.Interface().(asn1.RawValue).FullBytes)
	case bitsTyp:
		x, y := a.Interface().(asn1.BitString), b.Interface().(asn1.BitString)
		return x.BitLength == y.BitLength && bytes.Equal(x.Bytes, y.Bytes)
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return equal(a.Elem(), b.Elem())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// sorted: a SET OF is the same value in any order; order by encoding for the comparison.
func unordered(ast interface{}) bool {
	return with(ast, "k", func(k interface{}) bool { return k == "SETOF" })
}

func wireMode(v M) (fs []finding) {
	ast := mp(v["ast"])
	defs := map[string]M{}
	for _, a := range list(ast["body"]) {
		if n := str(mp(a)["n"]); defs[n] == nil {
			defs[n] = mp(mp(a)["t"])
		}
	}
	for _, suffix := range []string{"_i", "_b"} {
		mk, ok := wireTypes["W"+key(v["ast"])+suffix]
		if !ok {
			count("not generated")
			continue
		}
		for _, x := range list(v["vals"]) {
			val, der := mp(mp(x)["v"]), octets(mp(x)["der"])
			p := reflect.ValueOf(mk())
			if s := try(p.Elem(), mp(M{"k": "REF", "n": v["first"]}), val, defs); s != "" {
				fs = append(fs, f(s, "P18"))
				break
			}
			what := fmt.Sprintf("%#v", p.Elem().Interface())
			if len(what) > 600 {
				what = what[:600] + "..."
			}
			got, err := asn1.Marshal(p.Elem().Interface())
			if err != nil {
				fs = append(fs, f(fmt.Sprintf("%s cannot be encoded: %v", what, err), "P18"))
				continue
			}
			if !bytes.Equal(got, der) {
				fs = append(fs, f(fmt.Sprintf("%s is encoded as %x, it should be %x", what, got, der), "P18"))
				continue
			}
			count("values written")
			if mp(x)["back"] != true {
				continue
			}
			q := reflect.ValueOf(mk())
			rest, err := asn1.Unmarshal(der, q.Interface())
			if err != nil || len(rest) > 0 {
				fs = append(fs, f(fmt.Sprintf("%x cannot be decoded to %v: %v, %d bytes left", der, q.Type(), err, len(rest)), "P18"))
				continue
			}
			if !unordered(ast) && !equal(p.Elem(), q.Elem()) {
				fs = append(fs, f(fmt.Sprintf("%s comes back as %#v", what, q.Elem().Interface()), "P18"))
				continue
			}
			again, err := asn1.Marshal(q.Elem().Interface())
			if err != nil || !bytes.Equal(again, der) {
				fs = append(fs, f(fmt.Sprintf("%s decoded and encoded again is %x, it should be %x (%v)", what, again, der, err), "P18"))
			}
			count("values read")
		}
	}
	return fs
}

func try(rv reflect.Value, t, v M, defs map[string]M) (s string) {
	defer func() {
		if p := recover(); p != nil {
			if m, ok := p.(misfit); ok {
				s = string(m)
				return
			}
			panic(p)
		}
	}()
	fill(rv, t, v, defs)
	return ""
}

func init() { modes["wire"] = wireMode }
