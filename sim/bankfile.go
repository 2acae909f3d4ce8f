package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/mitch000001/go-hbci/zz_verif/bankparser"
	"github.com/mitch000001/go-hbci/zz_verif/simrt"
)

// latin1 encodes a text as the directory files are encoded.
func latin1(s string) []byte {
	var b []byte
	for _, r := range s {
		if r > 255 {
			r = '?'
		}
		b = append(b, byte(r))
	}
	return b
}

// bankfile runs the import tool: files on a faulty disk in, Go source out.
func (w *world) bankfile(t *tape) {
	simrt.NowFn = func() time.Time { return simEpoch }
	g, F := t.Gen, t.Fault
	disk := &simrt.Disk{Files: map[string][]byte{}}
	simrt.CurrentDisk = disk
	defer func() { simrt.CurrentDisk, simrt.ReaderFor = nil, nil }()
	n := 1 + g.N(3)
	var names []string
	var exp []string
	readers := map[string]func() io.Reader{}
	// at most one fault
	fault := []string{"", "no-file", "read-error", "cut-in-quotes", "create-error", "write-error", "short-write", "disk-full", "close-error"}[F.W(8, 1, 3, 2, 1, 2, 2, 2, 2)]
	victim := F.N(n)
	at := F.N(4000)
	must := ""
	readFault := false
	for i := 0; i < n; i++ {
		f := genCSV(g, infoCols, "BLZ")
		name := fmt.Sprintf("input/bank%d.csv", i)
		names = append(names, name)
		raw := latin1(f.text)
		end := io.EOF
		if i == victim {
			switch fault {
			case "no-file":
				must, readFault = fault, true
			case "read-error":
				k := F.N(len(raw) + 1)
				if F.N(3) == 2 {
					k = len(latin1(f.text[:f.marks[F.N(len(f.marks))]]))
				}
				raw, end = raw[:k], syscall.EIO
				must, readFault = fault, true
			case "cut-in-quotes":
				if len(f.quoted) > 0 {
					k := f.quoted[F.N(len(f.quoted))]
					if strings.Count(f.text[:k], "\"")%2 == 1 {
						raw = latin1(f.text[:k])
						must, readFault = fault, true
					}
				}
			}
		}
		if !(fault == "no-file" && i == victim) {
			disk.Files[name] = raw
		}
		pr := newPlanReader(t.Misc, raw, end)
		readers[name] = func() io.Reader { return pr }
		for _, e := range expInfos(f.rows) {
			exp = append(exp, e)
		}
		w.mix("file", name, string(raw), fmt.Sprint(pr.chunks, pr.joined))
	}
	simrt.ReaderFor = func(name string, b []byte) io.Reader {
		if f := readers[name]; f != nil {
			return f()
		}
		return bytes.NewReader(b)
	}
	old := "package bankinfo\n\nvar data = []BankInfo{{BankID: \"old\"}}\n"
	const out = "bankinfo/data.go"
	hasOld := g.P(60)
	if hasOld {
		disk.Files[out] = []byte(old)
	}
	written := 0
	disk.Fault = func(op, name string, k int) (int, error) {
		if strings.HasPrefix(name, "input/") {
			return k, nil
		}
		hit := func(err error) error {
			must = fault
			return err
		}
		switch {
		case op == "create" && fault == "create-error":
			return 0, hit(syscall.EACCES)
		case op == "write" && (fault == "write-error" || fault == "short-write" || fault == "disk-full"):
			lim := at
			written += k
			if lim >= written {
				return k, nil
			}
			m := lim - (written - k)
			if m < 0 || fault == "write-error" {
				m = 0
			}
			if fault == "disk-full" {
				return m, hit(syscall.ENOSPC)
			}
			if fault == "short-write" {
				must = fault
				return m, nil
			}
			return m, hit(syscall.EIO)
		case op == "close" && fault == "close-error":
			if at < k {
				k = at
			}
			return k, hit(syscall.EIO)
		}
		return k, nil
	}
	w.tr("import %v fault %q victim %d at %d", names, fault, victim, at)
	w.st.Ops++
	w.st.OpKinds["import-tool"]++
	w.st.check("import-tool")
	if fault != "" {
		w.st.fault("disk:" + fault)
	}
	v := func(class, f string, a ...interface{}) {
		w.violate("P22", class, "import tool, fault %q: %s", fault, fmt.Sprintf(f, a...))
	}
	os.Args = append([]string{"bankdata_parser"}, names...)
	code, crashed := -1, ""
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
				code = 0
			case simrt.ExitCode:
				code = x.Code
			default:
				crashed = short(x) + " at " + panicChain()
			}
		}()
		bankparser.Reset()
		bankparser.Entry()
	}()
	disk.Exit()
	resume := simrt.Pause()
	defer resume()
	simrt.TakeStdout()
	msg := simrt.TakeStderr()
	w.tr("=> exit %d %q", code, clip(msg, 300))
	w.st.Rows += len(exp)
	w.st.States[fmt.Sprint("tool", fault, must, n, len(exp) > 0, code, hasOld)]++
	if crashed != "" {
		v("tool-crash", "%s", crashed)
		return
	}
	if readFault {
		if now, ok := disk.Files[out]; ok != hasOld || ok && string(now) != old {
			v("tool-directory-touched", "the input could not be read, but the directory was replaced by %q", clip(string(now), 300))
		}
	}
	if code != 0 {
		w.st.FailOps++
		if must == "" {
			v("tool-fails", "readable files are rejected: %s", clip(msg, 500))
		}
		return
	}
	w.st.OkOps++
	if must != "" {
		v("tool-failure-hidden", "exit status 0 although %s happened", must)
		return
	}
	got, err := readDirectory(disk.Files[out])
	if err != nil {
		v("tool-output", "exit status 0, but the result cannot be used: %v", err)
		return
	}
	sort.Strings(exp)
	sort.Strings(got)
	if d := diffRows(exp, got); d != "" {
		v("tool-entries", "%s", d)
	}
}

// readDirectory reads the entries of a generated source file.
func readDirectory(src []byte) ([]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "data.go", src, 0)
	if err != nil {
		return nil, err
	}
	var rows []string
	found := false
	cols := []string{"BankID", "BIC", "Institute", "VersionNumber", "URL", "VersionName", "City", "LastChanged"}
	ast.Inspect(f, func(n ast.Node) bool {
		cl, ok := n.(*ast.CompositeLit)
		if !ok || found {
			return !found
		}
		found = true
		for _, e := range cl.Elts {
			x, ok := e.(*ast.CompositeLit)
			if !ok {
				err = errors.New("an entry is no literal")
				return false
			}
			m := map[string]string{}
			for i, kv := range x.Elts {
				k, val := "", ast.Expr(nil)
				if kv, ok := kv.(*ast.KeyValueExpr); ok {
					k, val = kv.Key.(*ast.Ident).Name, kv.Value
				} else {
					k, val = []string{"BankID", "BIC", "VersionNumber", "URL", "VersionName", "Institute", "City", "LastChanged"}[i], e
				}
				l, ok := val.(*ast.BasicLit)
				if !ok {
					err = errors.New("a value is no literal")
					return false
				}
				if m[k], err = strconv.Unquote(l.Value); err != nil {
					return false
				}
			}
			var c []string
			for _, k := range cols {
				c = append(c, fmt.Sprintf("%q", m[k]))
			}
			rows = append(rows, strings.Join(c, " "))
		}
		return false
	})
	if !found && err == nil {
		err = errors.New("no entries in it")
	}
	return rows, err
}
