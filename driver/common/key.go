package main

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
)

// key names the content of a vector.
func key(x interface{}) string {
	b, err := json.Marshal(x)
	check(err)
	return fmt.Sprintf("%x", sha1.Sum(b))[:12]
}

// with reports whether x holds the field name with a value satisfying ok.
func with(x interface{}, name string, ok func(interface{}) bool) bool {
	switch x := x.(type) {
	case M:
		for k, v := range x {
			if (k == name && ok(v)) || with(v, name, ok) {
				return true
			}
		}
	case L:
		for _, v := range x {
			if with(v, name, ok) {
				return true
			}
		}
	}
	return false
}

// hasDefault: a component with an integer default (encoding/asn1 knows them for Go integers only).
func hasDefault(ast interface{}) bool {
	return with(ast, "def", func(d interface{}) bool { m, ok := d.(M); return ok && m["k"] == "num" })
}
