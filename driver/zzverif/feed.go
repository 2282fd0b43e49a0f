package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	asn1go "github.com/chemikadze/asn1go"
)

const faultMsg = "device caught fire"

var errFault = errors.New(faultMsg)

// timeout is an error like those of connections.
type deadline struct{}

func (deadline) Error() string   { return "deadline of the device exceeded" }
func (deadline) Timeout() bool   { return true }
func (deadline) Temporary() bool { return true }

// the errors a reader may return: none of them is the end of the text
var faults = map[string]error{
	"plain": errFault, "unexpected-eof": io.ErrUnexpectedEOF, "no-progress": io.ErrNoProgress, "closed": io.ErrClosedPipe, "timeout": deadline{},
	"path": &os.PathError{Op: "read", Path: "the device", Err: os.ErrClosed}, "verbs": errors.New("100% of %v\nwas lost %d"), "short": io.ErrShortBuffer,
	"wrapped-eof": fmt.Errorf("the device went away: %w", io.EOF), "list": failures{"first trouble", "second trouble"}, "again": syscall.EAGAIN, "canceled": context.Canceled, "other-eof": errors.New("EOF"),
}

// failures is an error that cannot be compared.
type failures []string

func (f failures) Error() string { return strings.Join(f, "; ") }

type op struct {
	n, times int
	kind     string
	err      error // of a failure
}

// scripted delivers a text as a script says.
type scripted struct {
	data   []byte
	script []op
	failed error
	after  int
	fault  error // that was returned
}

func (s *scripted) Read(p []byte) (int, error) {
	if s.failed != nil {
		s.after++
		if s.after > 1000 {
			panic(fmt.Sprintf("the reader was read %d times after it failed", s.after))
		}
		return 0, s.failed
	}
	for len(s.script) > 0 && s.script[0].times == 0 {
		s.script = s.script[1:]
	}
	if len(s.script) == 0 {
		n := copy(p, s.data)
		s.data = s.data[n:]
		if n == 0 {
			s.failed = io.EOF
			return 0, io.EOF
		}
		return n, nil
	}
	o := &s.script[0]
	n := o.n
	if n > len(s.data) {
		n = len(s.data)
	}
	if n > len(p) { // the rest of it next time
		n = copy(p, s.data)
		s.data = s.data[n:]
		if o.times == 1 {
			o.n -= n
		} else { // becomes two operations
			rest := op{o.n - n, 1, o.kind, o.err}
			o.times--
			s.script = append([]op{rest}, s.script...)
		}
		return n, nil
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	o.times--
	switch o.kind {
	case "data":
		return n, nil
	case "eof":
		s.failed = io.EOF
		return n, io.EOF
	case "fault":
		s.failed, s.fault = o.err, o.err
		return n, o.err
	case "fault-then-on":
		s.fault = o.err
		s.script = nil
		return n, s.fault
	}
	panic(harness("unknown operation " + o.kind))
}

var fileNo int64

var (
	docsOnce sync.Once
	docs     []string
)

// document is the d-th of the documents the specification read.
func document(d int) string {
	docsOnce.Do(func() {
		b, e := os.ReadFile(os.Getenv("VERIF_DOCS"))
		if e != nil {
			panic(harness(e.Error()))
		}
		var ds L
		if e := json.Unmarshal(b, &ds); e != nil {
			panic(harness(e.Error()))
		}
		for _, x := range ds {
			docs = append(docs, text(M{"codes": x}))
		}
	})
	return docs[d-1]
}

// feed: the way a text is delivered does not change the result; a failing reader is reported.
func feedMode(v M) []finding {
	if k, ok := v["source"].(string); ok {
		return badSource(k)
	}
	txt := ""
	if d, ok := v["doc"].(float64); ok && d != 0 {
		txt = document(int(d))
		count("documents")
	} else {
		txt = textOf(v)
	}
	if b, ok := v["bytes"].(float64); ok && int(b) != len(txt) {
		panic(harness(fmt.Sprintf("text has %d bytes, the specification counts %v: %q", len(txt), b, clip(txt))))
	}
	rd := &scripted{data: []byte(txt)}
	failure := errFault
	for _, o := range list(v["script"]) {
		l := list(o)
		o := op{int(l[0].(float64)), int(l[1].(float64)), str(l[2]), errFault}
		if len(l) > 3 {
			e, ok := faults[str(l[3])]
			if !ok {
				panic(harness("unknown failure " + str(l[3])))
			}
			o.err = e
		}
		rd.script = append(rd.script, o)
		if strings.HasPrefix(o.kind, "fault") {
			failure = o.err
		}
	}
	show := func() string { return fmt.Sprintf("text %q delivered as %v", clip(txt), v["script"]) }
	m, err := asn1go.ParseStream(rd)
	fs := []finding{}
	if (m == nil) == (err == nil) {
		fs = append(fs, f(fmt.Sprintf("%s: module: %v, error: %v", show(), m != nil, err), "P03", "P04", "P09"))
	}
	switch str(v["verdict"]) {
	case "fault":
		count("reader fails")
		if err == nil || m != nil {
			fs = append(fs, f(fmt.Sprintf("%s: the reader failed, module: %v, error: %v", show(), m != nil, err), "P04"))
		} else if !strings.Contains(err.Error(), failure.Error()) {
			fs = append(fs, f(fmt.Sprintf("%s: the error does not carry the reader's message: %v", show(), err), "P04"))
		}
	case "error": // not a module and the reader fails: one of the two is reported
		count("reader fails, no module")
		if rd.fault != nil && (err == nil || m != nil) {
			fs = append(fs, f(fmt.Sprintf("%s: the reader failed, module: %v, error: %v", show(), m != nil, err), "P04"))
		}
	default:
		count("delivered")
		want, werr := asn1go.ParseString(txt)
		fs = append(fs, sameResult(show, m, err, want, werr)...)
		h := fnv.New32a()
		io.WriteString(h, txt)
		if h.Sum32()%8 == 0 || len(txt) > 60000 && h.Sum32()%2 == 0 {
			count("from a file")
			name := fmt.Sprintf("text-%d-%d", os.Getpid(), atomic.AddInt64(&fileNo, 1))
			if e := os.WriteFile(name, []byte(txt), 0600); e != nil {
				panic(harness(e.Error()))
			}
			fm, ferr := asn1go.ParseFile(name)
			os.Remove(name)
			fs = append(fs, sameResult(func() string { return fmt.Sprintf("text %q read from a file", clip(txt)) }, fm, ferr, want, werr)...)
		}
	}
	return fs
}

func sameResult(show func() string, m *asn1go.ModuleDefinition, err error, want *asn1go.ModuleDefinition, werr error) []finding {
	if (err == nil) != (werr == nil) || (err != nil && err.Error() != werr.Error()) {
		return []finding{f(fmt.Sprintf("%s: error %v, but %v when parsed from a string", show(), err, werr), "P03")}
	}
	if !reflect.DeepEqual(m, want) {
		return []finding{f(fmt.Sprintf("%s: another module than when parsed from a string", show()), "P03")}
	}
	return nil
}

func textOf(v M) string {
	if cs, ok := v["codes"].(L); ok {
		var b strings.Builder
		if p, ok := v["pad"].(float64); ok {
			b.WriteString(strings.Repeat(" ", int(p)))
		}
		for _, c := range cs {
			putCode(&b, int(c.(float64)))
		}
		return b.String()
	}
	return laidOut(v)
}

func init() { modes["feed"] = feedMode }

// badSource: a file that can not be read is an error and no module.
func badSource(kind string) []finding {
	name := fmt.Sprintf("source-%d-%d", os.Getpid(), atomic.AddInt64(&fileNo, 1))
	if kind == "directory" {
		if e := os.Mkdir(name, 0700); e != nil {
			panic(harness(e.Error()))
		}
		defer os.Remove(name)
	}
	m, err := asn1go.ParseFile(name)
	if m != nil || err == nil {
		return []finding{f(fmt.Sprintf("parsing a %s as a file: module: %v, error: %v", kind, m != nil, err), "P04")}
	}
	count("unreadable file")
	return nil
}
