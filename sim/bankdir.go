package main

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/bankinfo"
	"github.com/mitch000001/go-hbci/zz_verif/simrt"
)

var errDisk = errors.New("simulated read failure")

// planReader delivers b in planned pieces. It draws nothing while being read,
// because the CSV library reads from a goroutine of its own.
type planReader struct {
	b      []byte
	chunks []int
	i      int
	end    error
	joined bool
	zeros  int
}

func (p *planReader) Read(out []byte) (int, error) {
	if p.zeros > 0 {
		p.zeros--
		return 0, nil
	}
	if len(p.b) == 0 {
		return 0, p.end
	}
	n := len(out)
	if len(p.chunks) > 0 {
		n = p.chunks[p.i%len(p.chunks)]
		p.i++
	}
	if n > len(out) {
		n = len(out)
	}
	if n > len(p.b) {
		n = len(p.b)
	}
	copy(out, p.b[:n])
	p.b = p.b[n:]
	if len(p.b) == 0 && p.joined {
		return n, p.end
	}
	return n, nil
}

func newPlanReader(s *stream, b []byte, end error) *planReader {
	r := &planReader{b: append([]byte{}, b...), end: end}
	switch s.W(3, 2, 2) {
	case 1:
		r.chunks = []int{[]int{1, 2, 3, 7, 16, 511}[s.N(6)]}
	case 2:
		for i := 0; i < 7; i++ {
			r.chunks = append(r.chunks, s.R(1, 200))
		}
	}
	r.joined = s.N(2) == 1
	if s.N(6) == 5 {
		r.zeros = s.R(1, 3)
	}
	return r
}

var infoCols = []string{"BLZ", "BIC", "Institut", "HBCI-Version", "PIN/TAN-Zugang URL", "Version", "Ort", "Datum letzte \u00c4nderung"}
var bicCols = []string{"Bank-leitzahl", "BIC"}

func csvValue(s *stream, lead bool) (plain, enc string) {
	var v string
	switch s.W(4, 2, 2, 1, 1) {
	case 0:
		v = []string{"Berlin", "FinTS V3.0", "3.0", "https://fints.example/x", "12.03.2016", "GENODEF1ABC", "Bank AG"}[s.N(7)]
	case 1:
		v = ""
	case 2:
		v = mix(s, "Ab9 .-/", umlauts+":+,'\\", s.R(1, 20))
	case 3:
		v = mix(s, "ab ", ";\",\n", s.R(1, 10))
	case 4:
		v = "  " + mix(s, "xyz ", "\t", s.R(1, 5)) + " "
	}
	if strings.ContainsAny(v, ";\"\n") || s.P(15) {
		return v, "\"" + strings.ReplaceAll(v, "\"", "\"\"") + "\""
	}
	return v, v
}

type csvFile struct {
	text   string
	marks  []int // offsets at which a record ends
	quoted []int // offsets inside a quoted value
	rows   []map[string]string
	header []string
}

func genCSV(s *stream, cols []string, key string) *csvFile {
	f := &csvFile{}
	f.header = append(f.header, cols...)
	for i := 0; i < s.N(4); i++ {
		k := s.N(len(f.header) + 1)
		f.header = append(f.header[:k:k], append([]string{fmt.Sprintf("Spalte %d", i)}, f.header[k:]...)...)
	}
	if s.P(50) {
		for i := len(f.header) - 1; i > 0; i-- {
			j := i - s.N(i+1)
			f.header[i], f.header[j] = f.header[j], f.header[i]
		}
	}
	nl := []string{"\n", "\r\n"}[s.N(2)]
	var b strings.Builder
	b.WriteString(strings.Join(f.header, ";"))
	b.WriteString(nl)
	f.marks = append(f.marks, b.Len())
	n := s.N(6)
	if s.P(10) {
		n = s.R(50, 300)
	}
	last := s.P(30) // the last record without line end
	// several listings of one institute differ in little
	like := []int{0, 50, 85, 97}[s.W(4, 1, 2, 1)]
	prev := map[string][2]string{}
	for i := 0; i < n; i++ {
		row := map[string]string{}
		w := len(f.header)
		if s.P(5) {
			w = s.R(1, len(f.header))
		}
		start := b.Len()
		for j, h := range f.header[:w] {
			if j > 0 {
				b.WriteString(";")
			}
			v, e := csvValue(s, j == 0)
			if h == key && !s.P(10) {
				v = fmt.Sprint(s.R(10000000, 99999999))
				e = v
			}
			if h == key && strings.TrimSpace(v) == "" {
				v, e = "", ""
			}
			if x, ok := prev[h]; ok && s.P(like) && (j > 0 || x[1] != "") {
				v, e = x[0], x[1]
			}
			prev[h] = [2]string{v, e}
			if e != "" && e[0] == '"' {
				if s.P(5) {
					b.WriteString(" ")
				}
				f.quoted = append(f.quoted, b.Len()+1+s.N(len(e)-1))
			}
			b.WriteString(e)
			row[h] = strings.TrimSpace(v)
		}
		rec := b.String()[start:]
		if strings.TrimSpace(rec) == "" && w == 1 {
			// an empty line is no record
			row = nil
		}
		if i < n-1 || !last {
			b.WriteString(nl)
		}
		f.marks = append(f.marks, b.Len())
		if row != nil {
			f.rows = append(f.rows, row)
		} else {
			f.rows = append(f.rows, map[string]string{})
		}
		if s.P(3) {
			b.WriteString(nl)
			f.marks[len(f.marks)-1] = b.Len()
		}
	}
	f.text = b.String()
	return f
}

func expInfos(rows []map[string]string) []string {
	var l []string
	for _, r := range rows {
		if r["BLZ"] == "" {
			continue
		}
		var c []string
		for _, k := range infoCols {
			v := r[k]
			if strings.Contains(k, "URL") { // addresses do not contain blanks
				v = strings.Join(strings.Fields(v), "")
			}
			c = append(c, fmt.Sprintf("%q", v))
		}
		l = append(l, strings.Join(c, " "))
	}
	return l
}

func canonInfos(in []bankinfo.BankInfo) []string {
	var l []string
	for _, b := range in {
		l = append(l, fmt.Sprintf("%q %q %q %q %q %q %q %q", b.BankID, b.BIC, b.Institute, b.VersionNumber, b.URL, b.VersionName, b.City, b.LastChanged))
	}
	return l
}

func expBics(rows []map[string]string) []string {
	var l []string
	for _, r := range rows {
		if r["Bank-leitzahl"] != "" {
			l = append(l, fmt.Sprintf("%q %q", r["Bank-leitzahl"], r["BIC"]))
		}
	}
	return l
}

func canonBics(in []bankinfo.BicInfo) []string {
	var l []string
	for _, b := range in {
		l = append(l, fmt.Sprintf("%q %q", b.BankID, b.BIC))
	}
	return l
}

// bankinfo reads a directory file over a faulty medium.
func (w *world) bankinfo(t *tape) {
	if t.Misc.P(30) {
		w.bankfile(t)
		return
	}
	simrt.NowFn = func() time.Time { return simEpoch }
	g, F := t.Gen, t.Fault
	bic := g.P(30)
	cols, key := infoCols, "BLZ"
	if bic {
		cols, key = bicCols, "Bank-leitzahl"
	}
	f := genCSV(g, cols, key)
	text, rows := []byte(f.text), f.rows
	var end error = io.EOF
	must, fault := false, ""
	switch F.W(4, 4, 2, 2, 1) {
	case 1:
		fault, must = "read-error", true
		end = []error{errDisk, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress}[F.N(4)]
		k := F.N(len(text) + 1)
		if F.N(3) == 2 { // at the end of a record
			k = f.marks[F.N(len(f.marks))]
		}
		text = text[:k]
	case 2:
		if len(f.quoted) > 0 {
			k := f.quoted[F.N(len(f.quoted))]
			// a cut directly behind an escaped quote or the closing one leaves a complete value
			if q := strings.Count(string(text[:k]), "\""); q%2 == 1 {
				fault, must = "cut-in-quotes", true
				text = text[:k]
			}
		}
	case 3:
		fault = "shorter"
		k := F.N(len(f.marks))
		text = text[:f.marks[k]]
		rows = rows[:k]
	case 4:
		fault, must = "empty", true
		text = nil
	}
	if fault != "" {
		w.st.fault("file:" + fault)
	}
	r := newPlanReader(t.Misc, text, end)
	w.mix("csv", string(text), fault, fmt.Sprint(r.chunks, r.joined, r.zeros))
	w.tr("read %q fault %q chunks %v", text, fault, r.chunks)
	w.st.Ops++
	w.st.OpKinds["import"]++
	w.st.check("import")
	v := func(class, f string, a ...interface{}) {
		w.violate("P22", class, "fault %q: %s; file %q", fault, fmt.Sprintf(f, a...), clip(string(text), 700))
	}
	var got, exp []string
	var err error
	func() {
		defer func() {
			if x := recover(); x != nil {
				v("crash", "%s at %s", short(x), panicChain())
				must = err == nil
				err = errDisk
			}
		}()
		if bic {
			l, e := bankinfo.ParseBicData(r)
			got, exp, err = canonBics(l), expBics(rows), e
		} else {
			l, e := bankinfo.ParseBankInfos(r)
			got, exp, err = canonInfos(l), expInfos(rows), e
		}
	}()
	resume := simrt.Pause()
	defer resume()
	simrt.TakeStdout()
	simrt.TakeStderr()
	w.st.Rows += len(exp)
	w.st.States[fmt.Sprint(bic, fault, len(exp) > 0, err != nil, len(r.chunks), r.joined)]++
	w.tr("=> %d entries, %v", len(got), err)
	if err != nil {
		w.st.FailOps++
		if !must {
			v("import-error", "a readable directory is rejected: %v", err)
		}
		if len(got) > 0 {
			v("partial", "an error and %d entries are returned", len(got))
		}
		return
	}
	w.st.OkOps++
	if must {
		v("failure-hidden", "reading failed, but %d entries are returned without an error", len(got))
		return
	}
	if d := diffRows(exp, got); d != "" {
		v("entries", "%s", d)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
