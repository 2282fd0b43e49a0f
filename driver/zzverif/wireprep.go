package main

// wireprep: the Go types of a module as a file of the encoding driver.  Names
// get a prefix per module, so that many modules share a package; nothing else
// of the generated source changes.

import (
	"bytes"
	"fmt"
	goast "go/ast"
	goformat "go/format"
	gotoken "go/token"
	"go/types"
	"os"
	"path/filepath"

	asn1go "github.com/chemikadze/asn1go"
)

func wirePrep(v M) []finding {
	dir := os.Getenv("VERIF_WIRE_DIR")
	if dir == "" {
		panic(harness("VERIF_WIRE_DIR is not set"))
	}
	fs := []finding{}
	m, err := asn1go.ParseString(text(v))
	if err != nil {
		return append(fs, f(fmt.Sprintf("text of the supported notation is rejected: %v", err), "P18"))
	}
	for _, repr := range []asn1go.IntegerRepr{asn1go.IntegerReprInt64, asn1go.IntegerReprBigInt} {
		if repr == asn1go.IntegerReprBigInt && hasDefault(v["ast"]) {
			continue
		}
		k := "W" + key(v["ast"]) + "_" + map[asn1go.IntegerRepr]string{asn1go.IntegerReprInt64: "i", asn1go.IntegerReprBigInt: "b"}[repr]
		src, err := generate(m, genConfig{"main", repr}, &fs)
		if err != nil {
			fs = append(fs, f(fmt.Sprintf("nothing is generated: %v", err), "P18"))
			continue
		}
		s, err := readSource(src)
		if err != nil || len(s.errs) > 0 {
			fs = append(fs, f(fmt.Sprintf("what is generated is not Go: %v %v\n%s", err, s, src), "P18"))
			continue
		}
		name := goName(str(v["first"]))
		if s.typeOf(name) == nil {
			fs = append(fs, f("there is no type "+name+"\n"+string(src), "P18"))
			continue
		}
		goast.Inspect(s.file, func(n goast.Node) bool {
			if id, ok := n.(*goast.Ident); ok {
				o := s.info.Uses[id]
				if o == nil {
					o = s.info.Defs[id]
				}
				if o != nil && o.Pkg() == s.pkg && o.Parent() == s.pkg.Scope() {
					if _, ok := o.(*types.PkgName); !ok {
						id.Name = k + "_" + id.Name
					}
				}
			}
			return true
		})
		var b bytes.Buffer
		if err := goformat.Node(&b, gotoken.NewFileSet(), s.file); err != nil {
			panic(harness("printing: " + err.Error()))
		}
		fmt.Fprintf(&b, "\nfunc init() { wireTypes[%q] = func() interface{} { return new(%s_%s) } }\n", k, k, name)
		if err := os.WriteFile(filepath.Join(dir, "gen_"+k+".go"), b.Bytes(), 0644); err != nil {
			panic(harness(err.Error()))
		}
		count("types generated")
	}
	return fs
}

func init() { modes["wireprep"] = wirePrep }
