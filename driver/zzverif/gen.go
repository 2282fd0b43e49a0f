package main

// Generation: the Go source of a module, read back with go/parser and go/types
// and compared with the declarations of the specification.

import (
	"bytes"
	"errors"
	"fmt"
	goast "go/ast"
	"go/constant"
	"go/importer"
	goparser "go/parser"
	gotoken "go/token"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"

	asn1go "github.com/chemikadze/asn1go"
)

// upperFirst: the Go name of an ASN.1 name.
func goName(s string) string {
	s = strings.ReplaceAll(s, "-", "_")
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

var (
	impMu   sync.Mutex
	impOnce sync.Once
	imp     types.Importer
)

type lockedImporter struct{}

func (lockedImporter) Import(path string) (*types.Package, error) {
	impMu.Lock()
	defer impMu.Unlock()
	impOnce.Do(func() { imp = importer.ForCompiler(gotoken.NewFileSet(), "source", nil) })
	return imp.Import(path)
}

type sink struct {
	bytes.Buffer
	writes int
}

func (s *sink) Write(p []byte) (int, error) { s.writes++; return s.Buffer.Write(p) }

// failing accepts some bytes and then fails.
type failing struct {
	left  int
	wrote int
}

var errSink = errors.New("sink is broken: no space left")

func (s *failing) Write(p []byte) (int, error) {
	if len(p) <= s.left {
		s.left -= len(p)
		s.wrote += len(p)
		return len(p), nil
	}
	n := s.left
	s.left = 0
	s.wrote += n
	return n, errSink
}

type goSource struct {
	file  *goast.File
	info  *types.Info
	pkg   *types.Package
	errs  []string
	names []string // declared, in order
}

func readSource(src []byte) (*goSource, error) {
	fset := gotoken.NewFileSet()
	file, err := goparser.ParseFile(fset, "generated.go", src, goparser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	s := &goSource{file: file, info: &types.Info{Types: map[goast.Expr]types.TypeAndValue{}, Defs: map[*goast.Ident]types.Object{}, Uses: map[*goast.Ident]types.Object{}}}
	conf := types.Config{Importer: lockedImporter{}, Error: func(err error) { s.errs = append(s.errs, err.Error()) }}
	s.pkg, _ = conf.Check(file.Name.Name, fset, []*goast.File{file}, s.info)
	for _, d := range file.Decls {
		switch d := d.(type) {
		case *goast.GenDecl:
			for _, sp := range d.Specs {
				switch sp := sp.(type) {
				case *goast.TypeSpec:
					s.names = append(s.names, "type "+sp.Name.Name)
				case *goast.ValueSpec:
					for _, n := range sp.Names {
						s.names = append(s.names, d.Tok.String()+" "+n.Name)
					}
				}
			}
		case *goast.FuncDecl:
			s.names = append(s.names, "func "+d.Name.Name)
		}
	}
	return s, nil
}

func (s *goSource) imports() []string {
	r := []string{}
	for _, i := range s.file.Imports {
		p := strings.Trim(i.Path.Value, "\"`")
		if i.Name != nil {
			p = i.Name.Name + " " + p
		}
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

func (s *goSource) typeOf(name string) types.Type {
	o := s.pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	if tn, ok := o.(*types.TypeName); ok {
		return types.Unalias(tn.Type())
	}
	return nil
}

// isStd: a named type of a standard package, or a pointer to one.
func isStd(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

type shape struct {
	s      *goSource
	intBig bool
	fs     *[]finding
	where  string
}

func (c shape) say(prop, format string, a ...interface{}) {
	*c.fs = append(*c.fs, f(c.where+": "+fmt.Sprintf(format, a...), prop))
}

// same compares a Go type with the specification's.
func (c shape) same(exp M, t types.Type, top bool) {
	if t == nil {
		c.say("P12", "no type")
		return
	}
	t = types.Unalias(t)
	want := func(ok bool, what string) {
		if !ok {
			c.say("P12", "the Go type is %s, it should be %s", t, what)
		}
	}
	basic := func(k types.BasicKind, what string) {
		b, ok := t.(*types.Basic)
		want(ok && b.Kind() == k, what)
	}
	switch g := str(exp["g"]); g {
	case "bool":
		basic(types.Bool, g)
	case "string":
		basic(types.String, g)
	case "float64":
		basic(types.Float64, g)
	case "int":
		if c.intBig {
			p, ok := t.(*types.Pointer)
			want(ok && isStd(p.Elem(), "math/big", "Int"), "*big.Int")
		} else {
			basic(types.Int64, "int64")
		}
	case "bytes":
		sl, ok := t.(*types.Slice)
		want(ok && types.Identical(types.Unalias(sl.Elem()), types.Typ[types.Byte]), "[]byte")
	case "iface":
		i, ok := t.(*types.Interface)
		want(ok && i.NumMethods() == 0 && i.NumEmbeddeds() == 0, "interface{}")
	case "time":
		want(isStd(t, "time", "Time"), "time.Time")
	case "asn1":
		want(isStd(t, "encoding/asn1", str(exp["n"])), "asn1."+str(exp["n"]))
	case "ref":
		d := c.s.typeOf(goName(str(exp["n"])))
		want(d != nil && types.Identical(d, t), "that of "+str(exp["n"])+fmt.Sprintf(" (%v)", d))
	case "slice":
		sl, ok := t.(*types.Slice)
		want(ok, "a slice")
		if ok {
			c.where += " element"
			c.same(mp(exp["e"]), sl.Elem(), false)
		}
	case "struct":
		st, ok := t.(*types.Struct)
		want(ok, "a struct")
		if ok {
			c.fields(list(exp["f"]), st)
		}
	default:
		panic(harness("unknown Go type in vector: " + g))
	}
}

func (c shape) fields(exp L, st *types.Struct) {
	got, names := []string{}, []string{}
	for i := 0; i < st.NumFields(); i++ {
		got = append(got, st.Field(i).Name())
		if st.Field(i).Embedded() {
			c.say("P12", "field %s is embedded", st.Field(i).Name())
		}
	}
	for _, x := range exp {
		names = append(names, goName(str(mp(x)["n"])))
	}
	if strings.Join(got, " ") != strings.Join(names, " ") {
		c.say("P12", "the fields are [%s], they should be [%s]", strings.Join(got, " "), strings.Join(names, " "))
		return
	}
	for i, x := range exp {
		e := mp(x)
		in := c
		in.where += "." + names[i]
		in.same(mp(e["t"]), st.Field(i).Type(), false)
		if e["loose"] == true {
			continue
		}
		marks := []string{}
		for _, m := range list(e["marks"]) {
			marks = append(marks, str(m))
		}
		tag := st.Tag(i)
		have, found := reflect.StructTag(tag).Lookup("asn1")
		parts := []string{}
		if found && have != "" {
			parts = strings.Split(have, ",")
		}
		if len(marks) == 0 && tag != "" {
			in.say("P13", "annotation %q, there should be none", tag)
		} else if len(marks) > 0 && tag != fmt.Sprintf("asn1:%q", have) {
			in.say("P13", "annotation %q, it should be asn1:\"%s\"", tag, strings.Join(marks, ","))
		} else {
			a, b := append([]string{}, marks...), append([]string{}, parts...)
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, ",") != strings.Join(b, ",") {
				in.say("P13", "annotation %q, it should say %s", tag, strings.Join(marks, ","))
			}
		}
	}
}

// initial evaluates an initialising expression.
func (c shape) initial(e goast.Expr, depth int) (kind string, val interface{}) {
	e = unparen(e)
	if tv, ok := c.s.info.Types[e]; ok && tv.Value != nil {
		switch tv.Value.Kind() {
		case constant.Bool:
			return "bool", constant.BoolVal(tv.Value)
		case constant.Int, constant.Float:
			if v := constant.ToInt(tv.Value); v.Kind() == constant.Int && !isFloat(tv.Type) {
				return "int", v.ExactString()
			}
			x, _ := constant.Float64Val(tv.Value)
			return "real", x
		}
	}
	switch x := e.(type) {
	case *goast.CallExpr:
		sel := funcName(x.Fun)
		if len(x.Args) == 1 {
			k, v := c.initial(x.Args[0], depth+1)
			if sel == "big.NewInt" && k == "int" {
				return "bigint", v
			}
			if sel == "math.Inf" && k == "int" {
				if strings.HasPrefix(v.(string), "-") {
					return "real", math.Inf(-1)
				}
				return "real", math.Inf(1)
			}
		}
	case *goast.Ident:
		if depth < 10 {
			for _, d := range c.s.file.Decls {
				if g, ok := d.(*goast.GenDecl); ok && (g.Tok == gotoken.VAR || g.Tok == gotoken.CONST) {
					for _, sp := range g.Specs {
						if vs, ok := sp.(*goast.ValueSpec); ok {
							for i, n := range vs.Names {
								if n.Name == x.Name && i < len(vs.Values) {
									return c.initial(vs.Values[i], depth+1)
								}
							}
						}
					}
				}
			}
		}
	}
	return "unknown", nil
}

func unparen(e goast.Expr) goast.Expr {
	for {
		p, ok := e.(*goast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isFloat(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func funcName(e goast.Expr) string {
	switch x := unparen(e).(type) {
	case *goast.SelectorExpr:
		if id, ok := x.X.(*goast.Ident); ok {
			return id.Name + "." + x.Sel.Name
		}
	case *goast.Ident:
		return x.Name
	}
	return ""
}

func valueSpec(file *goast.File, name string) (goast.Expr, bool) {
	for _, d := range file.Decls {
		if g, ok := d.(*goast.GenDecl); ok && g.Tok == gotoken.VAR {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*goast.ValueSpec); ok {
					for i, n := range vs.Names {
						if n.Name == name {
							if i < len(vs.Values) && len(vs.Values) == len(vs.Names) {
								return vs.Values[i], true
							}
							return nil, true
						}
					}
				}
			}
		}
	}
	return nil, false
}

type genConfig struct {
	pkg  string
	repr asn1go.IntegerRepr
}

var genConfigs = []genConfig{{"", ""}, {"custom", asn1go.IntegerReprBigInt}, {"other", asn1go.IntegerReprInt64}, {"", "int32"}}

// package names that may be configured
var pkgNames = []string{"p", "custom", "other_pkg", "main", "Foo9", "asn1", "aPackageWithALongName", "x"}

// configs are the configurations a module is generated in; the package names differ from module to module.
func configs(m *asn1go.ModuleDefinition) []genConfig {
	k := len(m.ModuleIdentifier.Reference) + 3*len(m.ModuleBody.AssignmentList)
	cs := append([]genConfig{}, genConfigs...)
	for i := range cs {
		if cs[i].pkg != "" {
			cs[i].pkg = pkgNames[(k+i)%len(pkgNames)]
		}
	}
	return cs
}

// generate runs the generator and checks what every run must obey.
func generate(m *asn1go.ModuleDefinition, c genConfig, fs *[]finding) ([]byte, error) {
	g := asn1go.NewCodeGenerator(asn1go.GenParams{Package: c.pkg, IntegerRepr: c.repr, Type: asn1go.GEN_DECLARATIONS})
	var w sink
	err := g.Generate(*m, &w)
	if err != nil && w.writes > 0 && w.Len() > 0 {
		*fs = append(*fs, f(fmt.Sprintf("generation fails (%v) and writes %d bytes", err, w.Len()), "P15"))
	}
	if err == nil && w.Len() == 0 {
		*fs = append(*fs, f("generation succeeds and writes nothing", "P14", "P12"))
	}
	return w.Bytes(), err
}

// check compares a generated source with the specification's declarations.
func checkSource(v M, name string, c genConfig, src []byte, fs *[]finding) {
	s, err := readSource(src)
	if err != nil {
		*fs = append(*fs, f(fmt.Sprintf("the generated source does not parse: %v\n%s", err, clip(string(src))), "P14", "P12"))
		return
	}
	pkg := c.pkg
	if pkg == "" {
		pkg = goName(name)
	}
	if s.file.Name.Name != pkg {
		*fs = append(*fs, f(fmt.Sprintf("package %s, it should be %s", s.file.Name.Name, pkg), "P14"))
	}
	// names and their order
	want, uniq := []string{}, map[string]bool{}
	for _, x := range list(v["decls"]) {
		d := mp(x)
		n := goName(str(d["n"]))
		switch d["k"] {
		case "type":
			if d["set"] == true {
				want = append(want, "type "+n+"SET")
			}
			want = append(want, "type "+n)
		case "num":
			want = append(want, "var "+n+"Val"+goName(str(d["nn"])))
		case "val":
			want = append(want, "var Val"+n)
		}
	}
	distinct := true
	for _, w := range want {
		n := w[strings.Index(w, " ")+1:]
		distinct = distinct && !uniq[n]
		uniq[n] = true
	}
	if !distinct {
		count("names not distinct")
		return
	}
	if msg := orderDiff(s.names, want); msg != "" {
		only := func(names []string, p string) string {
			r := []string{}
			for _, n := range names {
				if strings.HasPrefix(n, p) {
					r = append(r, n)
				}
			}
			return strings.Join(r, " ")
		}
		props := []string{}
		if only(s.names, "type ") != only(want, "type ") && orderDiff(strings.Split(only(s.names, "type "), " type "), strings.Split(only(want, "type "), " type ")) != "" {
			props = append(props, "P12")
		}
		if only(s.names, "var ") != only(want, "var ") {
			props = append(props, "P17")
		}
		if len(props) == 0 {
			props = append(props, "P12", "P17")
		}
		*fs = append(*fs, f("declarations: "+msg, props...))
	}
	if v["cyclic"] == true {
		count("recursive")
		return
	}
	if len(s.errs) > 0 {
		props := []string{"P14"}
		*fs = append(*fs, f(fmt.Sprintf("the generated source does not type-check: %s\n%s", strings.Join(s.errs, "; "), clip(string(src))), props...))
	}
	imports := []string{}
	for _, u := range list(v["uses"]) {
		imports = append(imports, map[string]string{"asn1": "encoding/asn1", "time": "time", "math": "math"}[str(u)])
	}
	big_ := c.repr == asn1go.IntegerReprBigInt
	if big_ && v["int"] == true {
		imports = append(imports, "math/big")
	}
	sort.Strings(imports)
	if got := s.imports(); strings.Join(got, " ") != strings.Join(imports, " ") {
		*fs = append(*fs, f(fmt.Sprintf("imports %v, they should be %v", got, imports), "P14"))
	}
	for _, x := range list(v["decls"]) {
		d := mp(x)
		n := goName(str(d["n"]))
		sh := shape{s: s, intBig: big_, fs: fs, where: n}
		switch d["k"] {
		case "type":
			o, ok := s.pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue // reported with the names
			}
			exp := mp(d["t"])
			if d["set"] == true {
				so, ok := s.pkg.Scope().Lookup(n + "SET").(*types.TypeName)
				if !ok {
					continue
				}
				if so.IsAlias() {
					sh.say("P12", "%sSET is an alias", n)
				}
				if !o.IsAlias() || !types.Identical(o.Type(), so.Type()) {
					sh.say("P12", "%s is not an alias of %sSET", n, n)
				}
				sh.same(exp, so.Type().Underlying(), true)
				count("sets")
			} else if exp["g"] == "struct" {
				if o.IsAlias() {
					sh.say("P12", "an alias, it should be a struct type")
				}
				sh.same(exp, o.Type().Underlying(), true)
				count("structs")
			} else {
				sh.same(exp, o.Type(), true)
				count("types")
			}
		case "num", "val":
			vn := "Val" + n
			if d["k"] == "num" {
				vn = n + "Val" + goName(str(d["nn"]))
			}
			sh.where = vn
			o, ok := s.pkg.Scope().Lookup(vn).(*types.Var)
			if !ok {
				continue // reported with the names
			}
			before := len(*fs)
			sh.same(mp(d["t"]), o.Type(), true)
			for i := before; i < len(*fs); i++ {
				(*fs)[i].Props = []string{"P17"}
			}
			e, _ := valueSpec(s.file, vn)
			if e == nil {
				sh.say("P17", "no initial value")
				continue
			}
			kind, val := sh.initial(e, 0)
			count("values")
			sh.value(d, o.Type(), kind, val)
		}
	}
}

func (c shape) value(d M, t types.Type, kind string, val interface{}) {
	if kind == "unknown" {
		count("initial value not evaluated")
		return
	}
	lit := "num"
	if d["lit"] != nil {
		lit = str(d["lit"])
	}
	switch lit {
	case "num":
		want := str(d["v"])
		switch {
		case isFloat(t):
			r, _ := new(big.Rat).SetString(want)
			w, _ := r.Float64()
			got, ok := asFloat(kind, val)
			if !ok || got != w {
				c.say("P17", "initial value %v, it should be %v", val, w)
			}
		default:
			if s, ok := val.(string); !ok || s != want || (kind == "bigint") != c.intBig {
				c.say("P17", "initial value %v (%s), it should be %s", val, kind, want)
			}
		}
	case "bool":
		if kind != "bool" || val != d["v"] {
			c.say("P17", "initial value %v, it should be %v", val, d["v"])
		}
	case "real":
		w := specReal(str(d["v"]))
		got, ok := asFloat(kind, val)
		if !ok || got != w {
			c.say("P17", "initial value %v, it should be %v", val, w)
		}
	}
}

func asFloat(kind string, val interface{}) (float64, bool) {
	switch kind {
	case "real":
		return val.(float64), true
	case "int":
		r, ok := new(big.Rat).SetString(val.(string))
		if !ok {
			return 0, false
		}
		x, _ := r.Float64()
		return x, true
	}
	return 0, false
}

// orderDiff: the same names in the same order; a set's two names may come in either order.
func orderDiff(got, want []string) string {
	norm := func(xs []string) []string {
		r := append([]string{}, xs...)
		for i := 0; i+1 < len(r); i++ {
			if r[i+1]+"SET" == r[i] {
				r[i], r[i+1] = r[i+1], r[i]
			}
		}
		return r
	}
	a, b := norm(got), norm(want)
	if strings.Join(a, " ") == strings.Join(b, " ") {
		return ""
	}
	return fmt.Sprintf("[%s], they should be [%s]", strings.Join(got, ", "), strings.Join(want, ", "))
}

func genModule(v M, name string, m *asn1go.ModuleDefinition, full bool) []finding {
	fs := []finding{}
	before := fmt.Sprint(pModule(m))
	var first []byte
	for i, c := range configs(m) {
		src, err := generate(m, c, &fs)
		want := str(v["verdict"])
		if want == "source" && v["int"] == true && c.repr == "int32" {
			want = "error"
		}
		where := fmt.Sprintf("package %q, integers %q: ", c.pkg, c.repr)
		switch want {
		case "error":
			count("not generated")
			if err == nil {
				fs = append(fs, f(where+"generation should fail, it writes\n"+clip(string(src)), "P15"))
			}
		case "open":
			count("not claimed")
		case "source":
			count("generated")
			if err != nil {
				fs = append(fs, f(where+fmt.Sprintf("generation fails: %v", err), "P12", "P14"))
				continue
			}
			n := len(fs)
			checkSource(v, name, c, src, &fs)
			for ; n < len(fs); n++ {
				fs[n].Msg = where + fs[n].Msg
			}
			if i == 0 {
				first = src
			}
		default:
			panic(harness("no verdict in vector"))
		}
		if err == nil && full {
			for _, left := range []int{0, 1, len(src) / 2, len(src) - 1} {
				w := &failing{left: left}
				g := asn1go.NewCodeGenerator(asn1go.GenParams{Package: c.pkg, IntegerRepr: c.repr})
				err := g.Generate(*m, w)
				count("broken sinks")
				if err == nil {
					fs = append(fs, f(where+fmt.Sprintf("the sink fails after %d of %d bytes and generation succeeds", left, len(src)), "P15"))
				} else if !errors.Is(err, errSink) && !strings.Contains(err.Error(), errSink.Error()) {
					fs = append(fs, f(where+fmt.Sprintf("the sink fails and the error is %v", err), "P15"))
				}
			}
		}
	}
	if first != nil {
		src, err := generate(m, genConfigs[0], &fs)
		if err != nil || !bytes.Equal(src, first) {
			fs = append(fs, f("generating again gives another result", "P19", "P16"))
		}
	}
	if fmt.Sprint(pModule(m)) != before {
		fs = append(fs, f("generation changed the module", "P19"))
	}
	return fs
}

// gen: from the module of the specification, and from its text.
func genMode(v M) []finding {
	name := str(mp(v["ast"])["name"])
	m := bModule(mp(v["ast"]))
	fs := genModule(v, name, m, true)
	if len(fs) == 0 && v["toks"] != nil {
		p, err := asn1go.ParseString(text(v))
		if err != nil {
			return []finding{f(fmt.Sprintf("text of the supported notation is rejected: %v", err), "*")}
		}
		for _, x := range genModule(v, name, p, false) {
			x.Msg = "from the text: " + x.Msg
			fs = append(fs, x)
		}
	}
	return fs
}

func init() {
	modes["gen"] = genMode
	// for a property that everything about the source bears on
	modes["genall"] = func(v M) []finding {
		fs := genMode(v)
		for i := range fs {
			fs[i].Props = append(fs[i].Props, "*")
		}
		return fs
	}
}
