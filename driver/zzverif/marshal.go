package main

// MarshalToFile: histories of calls in a scratch directory.

import (
	"bytes"
	"encoding/asn1"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	asn1go "github.com/chemikadze/asn1go"
)

func num(x interface{}) int {
	n, ok := x.(float64)
	if !ok {
		panic(harness(fmt.Sprintf("bad number in vector: %v", x)))
	}
	return int(n)
}

func octets(x interface{}) []byte {
	b := []byte{}
	l := list(x)
	for i := 0; i < len(l); i++ {
		if num(l[i]) == -2 && i+2 < len(l) { // a run
			b = append(b, bytes.Repeat([]byte{byte(num(l[i+1]))}, num(l[i+2]))...)
			i += 2
			continue
		}
		b = append(b, byte(num(l[i])))
	}
	return b
}

func isAbsent(x interface{}) bool { l := list(x); return len(l) == 1 && num(l[0]) < 0 }

type marshalPair struct {
	N int
	X []byte
}

type marshalHalf struct {
	N int
	C chan int
}

func marshalValue(m M) interface{} {
	switch str(m["g"]) {
	case "int":
		return num(m["n"])
	case "bool":
		return m["b"] == true
	case "octets":
		return bytes.Repeat([]byte{byte(num(m["x"]))}, num(m["n"]))
	case "pair":
		return marshalPair{num(m["n"]), bytes.Repeat([]byte{byte(num(m["x"]))}, num(m["m"]))}
	case "list":
		l := []int{}
		for _, x := range list(m["v"]) {
			l = append(l, num(x))
		}
		return l
	case "string":
		return string(octets(m["s"]))
	case "chan":
		return make(chan int)
	case "half":
		return marshalHalf{N: num(m["n"]), C: make(chan int)}
	case "nil":
		return nil
	case "text":
		return string(octets(m["s"])) // no UTF-8
	}
	panic(harness("unknown Go value in vector"))
}

// masks: the process has one mask, vectors with the same one may run at the same time.
var masks struct {
	sync.Mutex
	changed *sync.Cond
	mask    int
	users   int
}

func withMask(mask int) (release func()) {
	masks.Lock()
	defer masks.Unlock()
	if masks.changed == nil {
		masks.changed = sync.NewCond(&masks.Mutex)
	}
	for masks.users > 0 && masks.mask != mask {
		masks.changed.Wait()
	}
	if masks.users == 0 {
		masks.mask = mask
		syscall.Umask(mask)
	}
	masks.users++
	return func() {
		masks.Lock()
		defer masks.Unlock()
		masks.users--
		if masks.users == 0 {
			masks.changed.Broadcast()
		}
	}
}

func marshalMode(v M) []finding {
	fs := []finding{}
	defer withMask(num(v["mask"]))()
	dir, err := os.MkdirTemp(".", "marshal-") // the driver runs in the scratch directory of the check
	if err != nil {
		panic(harness(err.Error()))
	}
	defer os.RemoveAll(dir)
	dir, err = filepath.Abs(dir)
	if err != nil {
		panic(harness(err.Error()))
	}
	must := func(err error) {
		if err != nil {
			panic(harness(err.Error()))
		}
	}
	must(os.Mkdir(filepath.Join(dir, "dir"), 0755))
	must(os.WriteFile(filepath.Join(dir, "dir", "other"), []byte("other"), 0644))
	must(os.Symlink("/dev/full", filepath.Join(dir, "full")))
	for n, c := range mp(v["start"]) {
		if !isAbsent(c) {
			must(os.WriteFile(filepath.Join(dir, n), octets(c), 0644))
		}
	}
	for i, x := range list(v["calls"]) {
		c := mp(x)
		path := str(c["path"])
		switch path {
		case "toolong":
			path = filepath.Join(dir, strings.Repeat("n", 300))
		case "":
		default:
			path = dir + "/" + path
		}
		val := marshalValue(mp(c["val"]))
		err := asn1go.MarshalToFile(val, path, os.FileMode(num(c["mode"])))
		where := fmt.Sprintf("call %d: MarshalToFile of %s to %q", i+1, describe(val), c["path"])
		if err == nil && c["ok"] != true {
			if fi, e := os.Lstat(path); c["path"] == "full" && e == nil && fi.Mode().IsRegular() {
				// the link was replaced by a file
				if b, _ := os.ReadFile(path); !bytes.Equal(b, mustMarshal(val)) {
					fs = append(fs, f(where+fmt.Sprintf(" leaves % x and no error", cut(b)), "P22"))
				}
				must(os.Remove(path))
				must(os.Symlink("/dev/full", path))
			} else {
				fs = append(fs, f(where+" returns no error", "P22"))
			}
		}
		if err != nil && c["ok"] == true {
			fs = append(fs, f(where+fmt.Sprintf(" fails: %v", err), "P22"))
		}
		for n, k := range mp(c["from"]) {
			want := mp(v["start"])[n]
			if num(k) > 0 {
				want = mp(list(v["calls"])[num(k)-1])["der"]
			}
			got, err := os.ReadFile(filepath.Join(dir, n))
			if isAbsent(want) {
				if !os.IsNotExist(err) {
					fs = append(fs, f(fmt.Sprintf("%s: afterwards there is a file %s, there should be none", where, n), "P22"))
				}
			} else if err != nil || !bytes.Equal(got, octets(want)) {
				fs = append(fs, f(fmt.Sprintf("%s: afterwards %s holds %d bytes % x (%v), it should hold %d bytes % x", where, n, len(got), cut(got), err, len(octets(want)), cut(octets(want))), "P22"))
			}
		}
		if m := num(c["created"]); m > 0 && err == nil {
			count("files created")
			if fi, e := os.Stat(path); e == nil && int(fi.Mode().Perm()) != m {
				fs = append(fs, f(fmt.Sprintf("%s with permissions %o creates a file with permissions %o, not %o", where, num(c["mode"]), fi.Mode().Perm(), m), "P22"))
			}
		}
		if others := listing(dir); others != "dir dir/other full" {
			fs = append(fs, f(fmt.Sprintf("%s: the directory holds other files: %s", where, others), "P22"))
		}
		count("calls")
		if len(fs) > 0 {
			break
		}
	}
	return fs
}

func mustMarshal(val interface{}) []byte {
	b, _ := asn1.Marshal(val)
	return b
}

func describe(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

// listing: everything but p and q.
func listing(dir string) string {
	l := []string{}
	filepath.Walk(dir, func(p string, _ os.FileInfo, _ error) error {
		if r, _ := filepath.Rel(dir, p); r != "." && r != "p" && r != "q" {
			l = append(l, r)
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, " ")
}

func init() { modes["marshal"] = marshalMode }
