package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"

	asn1go "github.com/chemikadze/asn1go"
)

// levels counts the values of a type in a tree.
func levels(v reflect.Value, name string) int {
	type item struct{ v reflect.Value }
	n := 0
	todo := []item{{v}}
	for len(todo) > 0 {
		x := todo[len(todo)-1].v
		todo = todo[:len(todo)-1]
		if !x.IsValid() {
			continue
		}
		if x.Type().Name() == name {
			n++
		}
		switch x.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !x.IsNil() {
				todo = append(todo, item{x.Elem()})
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				todo = append(todo, item{x.Field(i)})
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < x.Len(); i++ {
				todo = append(todo, item{x.Index(i)})
			}
		}
	}
	return n
}

// bounded gives an answer in time.
const answerLimit = 30 * time.Second

func withLimit(what string, fn func()) *finding {
	done := make(chan *finding, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				if h, ok := p.(harness); ok {
					panic(h)
				}
				buf := make([]byte, 4000)
				buf = buf[:runtime.Stack(buf, false)]
				x := f(fmt.Sprintf("%s: panic: %v\n%s", what, p, buf), "P11")
				done <- &x
			}
		}()
		fn()
		done <- nil
	}()
	select {
	case x := <-done:
		return x
	case <-time.After(answerLimit):
		x := f(what+": no answer within "+answerLimit.String(), "P11")
		return &x
	}
}

func answer(txt string, v M, generated bool) []finding {
	var m *asn1go.ModuleDefinition
	var err error
	if x := withLimit("parsing "+clip(txt), func() { m, err = asn1go.ParseString(txt) }); x != nil {
		return []finding{*x}
	}
	fs := []finding{}
	if (m == nil) == (err == nil) {
		fs = append(fs, f(fmt.Sprintf("text %q: module returned: %v, error: %v", clip(txt), m != nil, err), "P09"))
	}
	if m == nil {
		count("errors")
		if v != nil && v["verdict"] == "module" {
			fs = append(fs, f(fmt.Sprintf("text %q is a module but is rejected: %v", clip(txt), err), "P09", "P05"))
		}
		return fs
	}
	count("modules")
	if v != nil && v["verdict"] == "error" {
		fs = append(fs, f(fmt.Sprintf("text %q is no module but is accepted", clip(txt)), "P09"))
	}
	if v != nil && v["verdict"] == "module" && str(v["level"]) != "" {
		name, want := str(v["level"]), int(v["n"].(float64))
		if strings.HasSuffix(name, "1") {
			name, want = name[:len(name)-1], 1
		}
		if n := levels(reflect.ValueOf(m), name); n != want {
			fs = append(fs, f(fmt.Sprintf("text %q has %d of %s, the module has %d", clip(txt), want, name, n), "P05"))
		}
		count("levels")
	}
	if generated {
		for _, c := range genConfigs {
			c := c
			if x := withLimit(fmt.Sprintf("generating from %q (%v)", clip(txt), c), func() {
				g := asn1go.NewCodeGenerator(asn1go.GenParams{Package: c.pkg, IntegerRepr: c.repr})
				var w counter
				if g.Generate(*m, &w) != nil && w > 0 {
					fs = append(fs, f(fmt.Sprintf("generating from %q fails and writes %d bytes", clip(txt), w), "P15"))
				}
			}); x != nil {
				return append(fs, *x)
			}
			count("generations")
		}
	}
	return fs
}

type counter int

func (c *counter) Write(p []byte) (int, error) { *c += counter(len(p)); return len(p), nil }

func robustMode(v M) []finding {
	if v["prefixes"] == true {
		txt := text(v)
		fs := []finding{}
		for i := 0; i <= len(txt) && len(fs) < 5; i++ {
			fs = append(fs, answer(txt[:i], nil, true)...)
			count("prefixes")
		}
		return fs
	}
	var b strings.Builder
	putUnit(&b, v["units"])
	// the work of generation grows with the square of what there is to generate
	return answer(b.String(), v, v["n"].(float64) <= 2000)
}

func init() { modes["robust"] = robustMode }
