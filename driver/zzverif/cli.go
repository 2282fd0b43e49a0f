package main

// The asn1go command, run in a scratch directory.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	asn1go "github.com/chemikadze/asn1go"
)

var (
	cliHugeOnce sync.Once
	cliHugeText string
)

func cliHuge() string {
	cliHugeOnce.Do(func() {
		var b strings.Builder
		b.WriteString("Huge DEFINITIONS ::= BEGIN\n")
		for i := 0; i < 3000; i++ {
			fmt.Fprintf(&b, "T%d ::= SEQUENCE { a INTEGER, b [%d] OCTET STRING OPTIONAL }\n", i, i)
		}
		b.WriteString("END\n")
		cliHugeText = b.String()
	})
	return cliHugeText
}

func cliContent(kind string) string {
	switch kind {
	case "plain":
		return "Plain-Mod DEFINITIONS ::= BEGIN\nA ::= SEQUENCE { x BOOLEAN, y [3] OCTET STRING OPTIONAL }\nB ::= SET OF UTF8String -- no numbers\nEND\n"
	case "ints":
		return "IntMod DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= INTEGER B ::= SEQUENCE { n INTEGER, t UTCTime } END"
	case "values":
		return "ValMod DEFINITIONS ::= BEGIN n INTEGER ::= 5 T ::= INTEGER { one(1), two(n) } yes BOOLEAN ::= TRUE END\n"
	case "broken":
		return "Broken DEFINITIONS ::= BEGIN\nA ::= SEQUENCE { x\n BOOLEAN,, } END\n"
	case "odd":
		return "Odd DEFINITIONS ::= BEGIN A ::= NULL B ::= Missing END\n"
	case "percent":
		return "Percent DEFINITIONS ::= BEGIN\nA ::= %d%s%!v(BADINDEX) END\n"
	case "tail":
		return "Tail DEFINITIONS ::= BEGIN A ::= INTEGER END\nB ::= BOOLEAN END\n"
	case "lateodd":
		return strings.TrimSuffix(cliHuge(), "END\n") + "Last ::= SEQUENCE { x Nowhere }\nEND\n"
	case "empty":
		return ""
	case "huge":
		return cliHuge()
	}
	panic(harness("unknown content in vector: " + kind))
}

var cliExpected sync.Map

type cliOutcome struct {
	src []byte
	err error
}

// the library's answer
func cliLibrary(kind, pkg, repr string) cliOutcome {
	k := kind + "|" + pkg + "|" + repr
	if x, ok := cliExpected.Load(k); ok {
		return x.(cliOutcome)
	}
	var o cliOutcome
	m, err := asn1go.ParseString(cliContent(kind))
	if err != nil {
		o.err = err
	} else {
		var b bytes.Buffer
		o.err = asn1go.NewCodeGenerator(asn1go.GenParams{Package: pkg, IntegerRepr: asn1go.IntegerRepr(repr)}).Generate(*m, &b)
		o.src = b.Bytes()
	}
	cliExpected.Store(k, o)
	return o
}

var cliOld = strings.Repeat("old content of the output\n", 40000)

func cliMode(v M) []finding {
	fs := []finding{}
	say := func(format string, a ...interface{}) { fs = append(fs, f(fmt.Sprintf(format, a...), "P20")) }
	must := func(err error) {
		if err != nil {
			panic(harness(err.Error()))
		}
	}
	dir, err := os.MkdirTemp(".", "cli-")
	must(err)
	defer os.RemoveAll(dir)
	dir, err = filepath.Abs(dir)
	must(err)
	w := mp(v["world"])
	must(os.WriteFile(filepath.Join(dir, "bystander.go"), []byte("package bystander\n"), 0644))
	must(os.WriteFile(filepath.Join(dir, "in.asn1.bak"), []byte("bystander"), 0644))
	in := filepath.Join(dir, "in.asn1")
	switch k := str(w["in"]); k {
	case "missing":
	case "dir":
		must(os.Mkdir(in, 0755))
	default:
		must(os.WriteFile(in, []byte(cliContent(k)), 0644))
	}
	out := filepath.Join(dir, "out.go")
	outArg := "out.go"
	switch str(w["out"]) {
	case "absent":
	case "old":
		must(os.WriteFile(out, []byte(cliOld), 0644))
	case "short":
		must(os.WriteFile(out, []byte("x"), 0600))
	case "dir":
		must(os.Mkdir(out, 0755))
	case "noparent":
		outArg = "missing/out.go"
	case "full":
		must(os.Symlink("/dev/full", out))
	}
	before := snapshot(dir)
	argv := []string{}
	for _, a := range list(v["args"]) {
		s := str(a)
		if s == "out.go" {
			s = outArg
		}
		argv = append(argv, s)
	}
	cmd := exec.Command(os.Getenv("VERIF_ASN1GO"), argv...)
	cmd.Dir = dir
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if str(w["stdout"]) == "full" {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer full.Close()
		cmd.Stdout = full
	}
	switch k := str(w["stdin"]); k {
	case "dir": // a read error
		d, err := os.Open(dir)
		must(err)
		defer d.Close()
		cmd.Stdin = d
	default:
		cmd.Stdin = strings.NewReader(cliContent(k))
	}
	rerr := cmd.Run()
	if _, isExit := rerr.(*exec.ExitError); rerr != nil && !isExit && !strings.Contains(rerr.Error(), "broken pipe") {
		panic(harness("asn1go: " + rerr.Error()))
	}
	code := cmd.ProcessState.ExitCode()
	where := fmt.Sprintf("asn1go %s (input %v, standard input %v, output %v, standard output %v): ", strings.Join(argv, " "), w["in"], w["stdin"], w["out"], w["stdout"])
	res, dest := str(v["res"]), str(v["dest"])
	named := dest != "stdout" && dest != ""
	if named && dest != "out.go" {
		out = filepath.Join(dir, dest)
	}
	after := snapshot(dir)
	if res == "done" {
		want := cliLibrary(str(v["src"]), str(v["pkg"]), str(v["repr"]))
		if want.err != nil {
			return append(fs, f(where+"the library fails: "+want.err.Error(), "P15", "P09"))
		}
		if code != 0 || stderr.Len() > 0 {
			say("%sexit status %d, standard error %q", where, code, clip(stderr.String()))
		}
		if dest == "stdout" {
			if !bytes.Equal(stdout.Bytes(), want.src) {
				say("%sstandard output is not what the library generates:\n%s", where, clip(stdout.String()))
			}
		} else {
			if stdout.Len() > 0 {
				say("%sstandard output %q", where, clip(stdout.String()))
			}
			if got, err := os.ReadFile(out); err != nil || !bytes.Equal(got, want.src) {
				say("%sthe output file (%v) is not what the library generates:\n%s", where, err, clip(string(got)))
			}
		}
	} else {
		if code == 0 {
			say("%sexit status 0, it should fail (%s)", where, res)
		}
		if code < 0 || code > 125 || strings.Contains(stderr.String(), "goroutine ") {
			say("%sends with %v: %s", where, rerr, clip(stderr.String()))
		}
		msg := stderr.String()
		if strings.TrimSpace(msg) == "" {
			say("%sfails (%s) without a message", where, res)
		}
		// when the output cannot be written either, which of the two is told is open
		o := str(w["out"])
		sole := !(dest == "out.go" && (o == "full" || o == "dir" || o == "noparent")) && !(dest == "stdout" && str(w["stdout"]) == "full")
		why := res
		if !sole {
			why = ""
		}
		switch why {
		case "parse", "generate":
			if want := cliLibrary(str(v["src"]), str(v["pkg"]), str(v["repr"])); want.err == nil {
				return append(fs, f(where+"the library does not fail", "P15", "P09"))
			} else if !strings.Contains(msg, want.err.Error()) {
				say("%sthe message %q does not hold the error %q", where, clip(msg), want.err.Error())
			}
		case "input":
			if len(argv) > 0 && !strings.Contains(msg, "no such file") {
				say("%sthe message %q does not say why", where, clip(msg))
			}
		case "read":
			if !strings.Contains(msg, "is a directory") {
				say("%sthe message %q does not say why", where, clip(msg))
			}
		}
		if stdout.Len() > 0 && str(w["stdout"]) != "full" {
			say("%sstandard output %q although it fails", where, clip(stdout.String()))
		}
		if named && (dest != "out.go" || str(w["out"]) != "full") {
			if got, err := os.ReadFile(out); err == nil && (bytes.Contains(got, []byte("package ")) || strings.HasPrefix(string(got), "type ")) {
				say("%sthe output file holds source although it fails (%s)", where, res)
			}
		}
	}
	for name := range after {
		if before[name] != after[name] && !(named && name == dest) {
			say("%schanges %s", where, name)
		}
	}
	for name := range before {
		if _, ok := after[name]; !ok && !(named && name == dest) {
			say("%sremoves %s", where, name)
		}
	}
	if s, _ := os.Readlink(filepath.Join(dir, "out.go")); str(w["out"]) == "full" && dest != "out.go" && s != "/dev/full" {
		say("%schanges the link", where)
	}
	count("runs: " + res)
	return fs
}

// snapshot: names and contents (of links, where they lead).
func snapshot(dir string) map[string]string {
	r := map[string]string{}
	names := []string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if rel, _ := filepath.Rel(dir, p); rel != "." && err == nil {
			names = append(names, rel)
			switch {
			case fi.Mode()&os.ModeSymlink != 0:
				l, _ := os.Readlink(p)
				r[rel] = "link " + l
			case fi.IsDir():
				r[rel] = "dir"
			default:
				b, err := os.ReadFile(p)
				if err != nil {
					panic(harness(err.Error()))
				}
				r[rel] = fmt.Sprintf("%v %s", fi.Mode(), b)
			}
		}
		return nil
	})
	sort.Strings(names)
	return r
}

func init() { modes["cli"] = cliMode }
