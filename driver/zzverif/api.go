package main

// Histories of calls on the library.  Every answer is compared with the one
// another process gives to the same call as its first; calls are suspended
// where the specification says, at their reads and writes.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	asn1go "github.com/chemikadze/asn1go"
)

// ---------------------------------------------------------------- whole values
func dump(x interface{}) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(x), 0)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 20000 {
		panic(harness("a value without end"))
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().String() + "{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpTo(b, v.Field(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString(v.Type().String() + "(nil)")
			return
		}
		b.WriteString(v.Type().String() + "[")
		for i := 0; i < v.Len(); i++ {
			dumpTo(b, v.Index(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		l := []string{}
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dumpTo(&e, k, depth+1)
			e.WriteString("=")
			dumpTo(&e, v.MapIndex(k), depth+1)
			l = append(l, e.String())
		}
		sort.Strings(l)
		b.WriteString(v.Type().String() + "{" + strings.Join(l, ",") + "}")
	default: // fmt prints what reflection may not hand out
		fmt.Fprintf(b, "%s(%v)", v.Type(), v)
	}
}

// ruin changes everything that can be changed through v.
func ruin(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			ruin(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ruin(v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			ruin(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
		return
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("Ruined" + v.String())
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		v.SetInt(v.Int()/2 + 7)
	case reflect.Float64:
		v.SetFloat(v.Float() + 1)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Interface:
		v.Set(reflect.Zero(v.Type()))
	case reflect.Slice: // as append would
		if v.Cap() > v.Len() {
			v.SetLen(v.Cap())
			for i := 0; i < v.Len(); i++ {
				v.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	}
}

// ---------------------------------------------------------------- first calls
type gparam struct{ pkg, repr string }

var gparams = []gparam{{}, {"", "int64"}, {"custom", "big.Int"}, {"other", "weird"}}

func newGen(p gparam) asn1go.CodeGenerator {
	return asn1go.NewCodeGenerator(asn1go.GenParams{Package: p.pkg, IntegerRepr: asn1go.IntegerRepr(p.repr)})
}

type firstAnswer struct{ Tree, Err, Source, GenErr string }

func message(err error) string {
	if err == nil {
		return ""
	}
	return "error: " + err.Error()
}

// alone answers one request as the first call of this process.
func alone() {
	var q struct {
		Text string
		Par  int
	}
	check(json.NewDecoder(os.Stdin).Decode(&q))
	a := firstAnswer{}
	m, err := asn1go.ParseString(q.Text)
	a.Err = message(err)
	if m != nil {
		a.Tree = dump(*m)
		if q.Par > 0 {
			var b bytes.Buffer
			err := newGen(gparams[q.Par]).Generate(*m, &b)
			a.Source, a.GenErr = b.String(), message(err)
		}
	}
	check(json.NewEncoder(os.Stdout).Encode(a))
	os.Exit(0)
}

func init() {
	if os.Getenv("VERIF_ALONE") != "" {
		alone()
	}
	modes["api"] = apiMode
	modes["apifree"] = apiFreeMode
}

var firsts sync.Map

func first(txt string, par int) firstAnswer {
	k := fmt.Sprint(par, "|", txt)
	if x, ok := firsts.Load(k); ok {
		return x.(firstAnswer)
	}
	self, err := os.Executable()
	if err != nil {
		panic(harness(err.Error()))
	}
	if x := os.Getenv("VERIF_FIRST"); x != "" {
		self = x
	}
	q, _ := json.Marshal(map[string]interface{}{"Text": txt, "Par": par})
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VERIF_ALONE=1")
	cmd.Stdin = bytes.NewReader(q)
	out, err := cmd.Output()
	a := firstAnswer{}
	if err != nil {
		a.Err = "dies: " + err.Error()
	} else if err := json.Unmarshal(out, &a); err != nil {
		panic(harness(err.Error()))
	}
	firsts.Store(k, a)
	return a
}

// ---------------------------------------------------------------- calls under control
// a gate holds a call at its reads and writes
type gate struct {
	at   chan struct{} // the call has come to the gate
	pass chan error
	done chan struct{} // the call has returned
	open chan struct{} // closed: nobody is held any more
}

var errBroken = errors.New("it is broken")

func newGate(free bool) *gate {
	g := &gate{make(chan struct{}, 1), make(chan error, 1), make(chan struct{}), make(chan struct{})}
	if free {
		close(g.open)
	}
	return g
}

func (g *gate) wait() error {
	select {
	case <-g.open:
		return nil
	default:
	}
	g.at <- struct{}{}
	select {
	case e := <-g.pass:
		return e
	case <-g.open:
		return nil
	}
}

// settle: until the call is at its gate or returned; false if it is neither for long.
func (g *gate) settle() bool {
	t := time.NewTimer(4 * time.Second)
	defer t.Stop()
	select {
	case <-g.done:
		return true
	default:
	}
	select {
	case <-g.done:
	case <-g.at:
	case <-t.C:
		return false
	}
	return true
}

type gatedReader struct {
	g      *gate
	pieces []string
	rest   string
	err    error
	ended  bool
}

func (r *gatedReader) Read(p []byte) (int, error) {
	if r.err != nil {
		return 0, r.err
	}
	if r.rest == "" {
		if !r.ended {
			if e := r.g.wait(); e != nil {
				r.err = e
				return 0, e
			}
		}
		if len(r.pieces) == 0 {
			r.ended = true
			return 0, io.EOF
		}
		r.rest, r.pieces = r.pieces[0], r.pieces[1:]
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

type gatedWriter struct {
	g    *gate
	b    bytes.Buffer
	seen bool
	err  error
}

func (w *gatedWriter) Write(p []byte) (int, error) {
	if !w.seen {
		w.seen = true
		w.err = w.g.wait()
	}
	if w.err != nil {
		return 0, w.err
	}
	return w.b.Write(p)
}

type apiCall struct {
	p      int
	what   string
	txt    string // parse
	m      int    // generate
	par    int
	own    bool
	g      *gate
	broken bool // its reader or writer broke, maybe
	mod    *asn1go.ModuleDefinition
	err    error
	rd     *gatedReader
	w      *gatedWriter
	panics string
	judged bool
	state  string // of a module: what it must be
	edited bool
}

func (c *apiCall) returned() bool {
	select {
	case <-c.g.done:
		return true
	default:
		return false
	}
}

func inPieces(txt string, n int) []string {
	r := []string{}
	for i := 0; i < n; i++ {
		if x := txt[i*len(txt)/n : (i+1)*len(txt)/n]; x != "" {
			r = append(r, x)
		}
	}
	return r
}

// run one call
func (c *apiCall) run(fn func()) {
	defer close(c.g.done)
	defer func() {
		if p := recover(); p != nil {
			c.panics = fmt.Sprintf("panic: %v\n%s", p, clip(string(debug.Stack())))
		}
	}()
	fn()
}

type apiRun struct {
	v       M
	calls   []*apiCall
	current map[int]*apiCall // of a process
	shared  map[int]asn1go.CodeGenerator
	mu      sync.Mutex
	fs      []finding
	story   []string
}

func newRun(v M) *apiRun {
	return &apiRun{v: v, current: map[int]*apiCall{}, shared: map[int]asn1go.CodeGenerator{}}
}

func (r *apiRun) textOf(t int) string {
	s, ok := mp(r.v["texts"])[fmt.Sprint(t)].(string)
	if !ok {
		panic(harness(fmt.Sprintf("no text %d", t)))
	}
	return s
}

func (r *apiRun) say(format string, a ...interface{}) {
	r.fs = append(r.fs, f(fmt.Sprintf(format, a...)+"\nhistory: "+strings.Join(r.story, ", "), "P19"))
}

func (r *apiRun) generator(c *apiCall) asn1go.CodeGenerator {
	if c.own {
		return newGen(gparams[c.par])
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.shared[c.par] == nil {
		r.shared[c.par] = newGen(gparams[c.par])
	}
	return r.shared[c.par]
}

// judge compares the answer of a call with the one it gets as a first call.
func (r *apiRun) judge(c *apiCall) bool {
	if c.judged || !c.returned() {
		return false
	}
	c.judged = true
	name := fmt.Sprintf("call %d (%s)", r.number(c), c.what)
	if c.panics != "" {
		r.say("%s: %s", name, c.panics)
		return true
	}
	if c.what == "parse" {
		if c.broken && c.rd.err != nil {
			return true
		}
		a := first(c.txt, 0)
		tree := ""
		if c.mod != nil {
			tree = dump(*c.mod)
		}
		if tree != a.Tree || message(c.err) != a.Err {
			r.say("%s of %q answers %s %q, and as a first call %s %q", name, clip(c.txt), clip(tree), message(c.err), clip(a.Tree), a.Err)
		}
		if c.mod != nil {
			c.state = tree
		}
		count("parsed: " + map[bool]string{true: "module", false: "no module"}[c.mod != nil])
		return true
	}
	m := r.calls[c.m-1]
	if c.broken && c.w.err != nil {
		count("generated: writer broke")
		return true
	}
	a := first(m.txt, c.par)
	if c.w.b.String() != a.Source || message(c.err) != a.GenErr {
		r.say("%s with %+v from %q answers %q %q, and as a first call %q %q", name, gparams[c.par], clip(m.txt), clip(c.w.b.String()), message(c.err), clip(a.Source), a.GenErr)
	}
	count("generated: " + map[bool]string{true: "source", false: "error"}[c.err == nil])
	return true
}

func (r *apiRun) number(c *apiCall) int {
	for i, x := range r.calls {
		if x == c {
			return i + 1
		}
	}
	return 0
}

// modules that nobody changed are what they were
func (r *apiRun) modules() {
	for i, c := range r.calls {
		if c.judged && c.mod != nil {
			if now := dump(*c.mod); now != c.state {
				r.say("the module of call %d was %s and has become %s", i+1, clip(c.state), clip(now))
				c.state = now
			}
		}
	}
}

func (r *apiRun) start(e M, free bool) *apiCall {
	p, n := int(e["p"].(float64)), func(k string) int { return int(e[k].(float64)) }
	c := &apiCall{p: p, what: str(e["e"]), g: newGate(free)}
	if c.what == "parse" {
		c.txt = r.textOf(n("t"))
		c.rd = &gatedReader{g: c.g, pieces: inPieces(c.txt, n("n"))}
	} else {
		c.m, c.par, c.own = n("m"), n("par"), e["own"].(bool)
		c.w = &gatedWriter{g: c.g}
	}
	r.calls = append(r.calls, c)
	return c
}

func (r *apiRun) body(c *apiCall) func() {
	if c.what == "parse" {
		return func() { c.mod, c.err = asn1go.ParseStream(c.rd) }
	}
	m := r.calls[c.m-1]
	return func() { c.err = r.generator(c).Generate(*m.mod, c.w) }
}

// api: the history as it is written.
func apiMode(v M) []finding {
	r := newRun(v)
	stuck := false
	for _, x := range list(v["log"]) {
		e := mp(x)
		p, what := int(e["p"].(float64)), str(e["e"])
		r.story = append(r.story, fmt.Sprintf("%d:%s", p, what))
		switch what {
		case "parse", "generate":
			if what == "generate" {
				if m := r.calls[int(e["m"].(float64))-1]; m.mod == nil {
					// not parsed although the specification says so; judged there
					c := r.start(e, true)
					c.judged = true
					close(c.g.done)
					r.current[p] = c
					continue
				}
			}
			c := r.start(e, false)
			r.current[p] = c
			go c.run(r.body(c))
			stuck = !c.g.settle()
		case "look":
			if m := r.calls[int(e["m"].(float64))-1]; m.mod != nil {
				l := m.mod.ModuleBody.AssignmentList
				for _, a := range l {
					n := a.Reference().Name()
					l.Get(n)
					l.GetType(n)
					l.GetValue(n)
				}
				l.Get("Nobody")
			}
		case "edit":
			if m := r.calls[int(e["m"].(float64))-1]; m.mod != nil {
				ruin(reflect.ValueOf(m.mod))
				m.edited = true
				m.state = dump(*m.mod)
				count("modules changed")
			}
		default:
			c := r.current[p]
			if c.returned() {
				break
			}
			var err error
			if what == "fail" || what == "writefail" {
				err, c.broken = errBroken, true
			}
			c.g.pass <- err
			stuck = !c.g.settle()
			for what == "end" || what == "fail" || what == "write" || what == "writefail" {
				// the specification says that the call returns now
				if stuck || c.returned() {
					break
				}
				c.g.pass <- err
				stuck = !c.g.settle()
			}
		}
		if stuck {
			// somebody waits for somebody who is held: let everybody go
			count("histories with calls that wait for others")
			break
		}
		moved := what == "look" || what == "edit"
		for _, c := range r.calls {
			moved = r.judge(c) || moved
		}
		if moved { // something returned
			r.modules()
		}
		if len(r.fs) > 0 {
			break
		}
	}
	for _, c := range r.calls {
		select {
		case <-c.g.open:
		default:
			close(c.g.open)
		}
	}
	for i, c := range r.calls {
		select {
		case <-c.g.done:
		case <-time.After(20 * time.Second):
			r.say("call %d (%s) does not return although nobody holds it", i+1, c.what)
			return r.fs
		}
		if len(r.fs) == 0 {
			r.judge(c)
		}
	}
	if len(r.fs) == 0 {
		r.modules()
	}
	return r.fs
}

// apifree: the same calls, every process on its own; only a module has to be there before it is used.
func apiFreeMode(v M) []finding {
	r := newRun(v)
	type task struct {
		c    *apiCall
		look int
	}
	todo := map[int][]task{}
	for _, x := range list(v["log"]) {
		e := mp(x)
		p := int(e["p"].(float64))
		switch str(e["e"]) {
		case "parse", "generate":
			c := r.start(e, true)
			todo[p] = append(todo[p], task{c: c})
		case "look":
			todo[p] = append(todo[p], task{look: int(e["m"].(float64))})
		}
	}
	before := raceReports()
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for p := range todo {
		wg.Add(1)
		go func(ts []task) {
			defer wg.Done()
			<-begin
			for _, t := range ts {
				m := t.look
				if t.c != nil && t.c.what == "generate" {
					m = t.c.m
				}
				if m > 0 {
					<-r.calls[m-1].g.done
				}
				switch {
				case t.c == nil:
					if mod := r.calls[m-1].mod; mod != nil {
						l := mod.ModuleBody.AssignmentList
						for _, a := range l {
							l.Get(a.Reference().Name())
						}
					}
				case m > 0 && r.calls[m-1].mod == nil:
					t.c.judged = true
					close(t.c.g.done)
				default:
					t.c.run(r.body(t.c))
				}
			}
		}(todo[p])
	}
	close(begin)
	wg.Wait()
	for _, c := range r.calls {
		r.judge(c)
	}
	r.modules()
	if s := raceReports(); len(s) > len(before) {
		r.say("calls at the same time: %s", clip(s[len(before):]))
	}
	return r.fs
}

// what the race detector has written (GORACE=log_path=race)
func raceReports() string {
	l, _ := filepath.Glob(fmt.Sprintf("race.%d", os.Getpid()))
	s := ""
	for _, n := range l {
		b, _ := os.ReadFile(n)
		s += string(b)
	}
	return s
}
