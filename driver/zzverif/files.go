package main

// Who holds which file: histories of calls with files of the library's own and files of the caller.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	asn1go "github.com/chemikadze/asn1go"
)

const fileModule = "M DEFINITIONS ::= BEGIN A ::= INTEGER B ::= SEQUENCE { a A, b OCTET STRING OPTIONAL } END"

// openIn counts the files below dir that the process has open, and /dev/full.
func openIn(dir string) (int, []string) {
	names := []string{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(harness(err.Error()))
	}
	for _, e := range es {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && (strings.HasPrefix(to, dir+"/") || to == "/dev/full") {
			names = append(names, filepath.Base(to))
		}
	}
	return len(names), names
}

func filesMode(v M) []finding {
	fs := []finding{}
	must := func(err error) {
		if err != nil {
			panic(harness(err.Error()))
		}
	}
	dir, err := os.MkdirTemp(".", "files-")
	must(err)
	defer os.RemoveAll(dir)
	dir, err = filepath.Abs(dir)
	must(err)
	dir, err = filepath.EvalSymlinks(dir)
	must(err)
	at := func(n string) string { return filepath.Join(dir, n) }
	contents := map[string]string{"module": fileModule, "other": "M DEFINITIONS ::= BEGIN A ::= }", "empty": "",
		"big": strings.Replace(fileModule, "END", strings.Repeat("-- far from the end\n", 2000)+"END", 1), "old": "what was there before"}
	for n, c := range contents {
		must(os.WriteFile(at(n), []byte(c), 0600))
	}
	must(os.Mkdir(at("directory"), 0700))
	must(os.Symlink("/dev/full", at("full")))
	module, err := asn1go.ParseString(fileModule)
	must(err)
	odd, err := asn1go.ParseString("M DEFINITIONS ::= BEGIN A ::= Missing END")
	must(err)
	held := map[int]*os.File{}
	defer func() {
		for _, h := range held {
			h.Close()
		}
	}()
	for i, x := range list(v["steps"]) {
		s := mp(x)
		op, what, id, ok := str(s["op"]), str(s["s"]), num(s["id"]), s["ok"] == true
		where := fmt.Sprintf("step %d (%s %s)", i+1, op, what)
		var err error
		switch op {
		case "parse":
			_, err = asn1go.ParseFile(at(what))
		case "marshal", "marshalbad":
			path := at(what)
			if what == "missing" {
				path = at("missing/x")
			}
			var val interface{} = 77
			if op == "marshalbad" {
				val = make(chan int)
			}
			err = asn1go.MarshalToFile(val, path, 0600)
		case "take":
			if what == "output" {
				held[id], err = os.Create(at(fmt.Sprintf("output-%d", id)))
			} else {
				held[id], err = os.Open(at(what))
			}
			must(err)
		case "stream":
			_, err = asn1go.ParseStream(held[id])
			if _, e := held[id].Seek(0, os.SEEK_CUR); e != nil {
				return append(fs, f(fmt.Sprintf("%s: afterwards the file given to ParseStream can not be used: %v", where, e), "P24"))
			}
		case "generate":
			err = asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*module, held[id])
			if _, e := held[id].WriteString("// more\n"); e != nil {
				return append(fs, f(fmt.Sprintf("%s: afterwards the file given to Generate can not be used: %v", where, e), "P24"))
			}
		case "generatebad":
			err = asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*odd, held[id])
			if _, e := held[id].WriteString("// more\n"); e != nil {
				return append(fs, f(fmt.Sprintf("%s: afterwards the file given to Generate can not be used: %v", where, e), "P24"))
			}
		case "rewind":
			_, e := held[id].Seek(0, 0)
			must(e)
		case "drop":
			must(held[id].Close())
			delete(held, id)
		default:
			panic(harness("unknown step " + op))
		}
		count(op)
		if n, names := openIn(dir); n != num(s["open"]) {
			return append(fs, f(fmt.Sprintf("%s: afterwards the process has %d files open %v, %d are its own", where, n, names, num(s["open"])), "P24"))
		}
		if (err == nil) != ok {
			count("another answer") // what the answers are is for other properties to say
			return fs
		}
	}
	return fs
}

func init() { modes["files"] = filesMode }
