package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/mitch000001/go-hbci/swift"
	"github.com/mitch000001/go-hbci/zz_verif/simrt"
)

// finishOp checks an operation after it returned.
func (s *sess) finishOp(op *opRec) {
	w := s.w
	out, errOut := op.stdout+simrt.TakeStdout(), op.stderr+simrt.TakeStderr()
	op.printed = out
	v := func(props, class, f string, a ...interface{}) {
		w.violate(props, class, "operation %d (%s %s): %s", op.n, op.kind, op.desc, fmt.Sprintf(f, a...))
	}
	disturbed := op.must != "" || op.may != ""
	mustSucceed := !disturbed && !s.taint && s.libCan(op)
	if mustSucceed == false && op.must == "" && !s.taint && !s.libCan(op) {
		op.may = "no common version"
	}
	w.tr("s%d op%d => err=%v rows=%d must=%q may=%q steps=%d", s.id, op.n, op.err, len(op.rows), op.must, op.may, op.steps)

	for _, x := range op.exs {
		rk := ""
		if x.plan != nil {
			rk = fmt.Sprint(x.plan.isErr, x.plan.hasBPD, x.plan.hasUPD, x.plan.pg != nil && x.plan.pg.ref != "")
		}
		w.st.States[fmt.Sprint(op.kind, x.req.kind, s.hbci, x.fault, x.bf.refuse, x.bf.noSyn, rk, s.failed, op.err == nil)]++
	}
	if op.kind == "info" && op.err != nil && !s.debug && w.prof.scen != "conc" && len(printedInfo(out)) > 0 {
		v("P27", "printed-but-failed", "prints information although it reports %v", op.err)
	}
	if op.panicV != nil {
		what := "crash"
		switch op.panicV.(type) {
		case simrt.BudgetExceeded:
			what = "does not end"
		case simrt.HugeAlloc:
			what = "allocates without bound"
		case simrt.ExitCode:
			what = "ends the process"
		}
		p := "P11"
		if op.cli {
			p = "P25"
		}
		if mustSucceed {
			p += " " + op.prop
			if s.failed {
				p += " P12"
			}
		} else if op.noInput != "" {
			p = "P03 P11"
		} else if op.must != "" && !s.taint {
			p += " " + op.prop // the failure had to be reported
			switch {
			case op.must == "refused by the bank" || strings.HasPrefix(op.must, "held back"):
				p += " P09"
			case strings.HasPrefix(op.must, "reply cut"):
				p += " P10"
			}
		}
		if _, ok := op.panicV.(simrt.BudgetExceeded); ok && strings.HasPrefix(op.stack, "harness:") {
			op.stack = "exchanges" // one message after the other without end
		}
		if strings.HasPrefix(op.stack, "harness:") {
			p, what = "HARNESS", "panic"
		}
		v(p, what+":"+op.stack, "%s: %s in %s", what, short(op.panicV), op.chain)
		if _, ok := op.panicV.(simrt.BudgetExceeded); ok {
			s.taint = true // its state is cut at an arbitrary place
		}
		s.failed = true
	}
	// ---- secrets in what is printed and returned
	if !s.debug && !op.cliDebug {
		for _, p := range s.pins {
			for i, t := range []string{out, errOut, fmt.Sprint(op.err)} {
				if f := leaks(t, p); f != "" {
					v("P04", "pin-printed", "the PIN %q appears in %s (as %q)", p, []string{"standard output", "standard error", "the returned error"}[i], f)
				}
			}
		}
	}
	// ---- resources
	for i, b := range s.bodies {
		if b.closed == 0 {
			v("P20", "body-not-closed", "response body %d of %d was not closed", i+1, len(s.bodies))
			break
		}
	}
	if op.anon && len(op.exs) > 0 && s.dv != nil && s.dv.anon {
		w.st.check("anon-dialog")
	}
	// ---- dialogs
	if s.dv != nil && s.dv.open && s.dv.ends != 1 && !s.taint && op.panicV == nil {
		p := "P02"
		if s.dv.anon {
			p += " P24"
		}
		v(p, "not-ended", "dialog %q was opened and %d end messages were sent before the operation returned", s.dv.id, s.dv.ends)
	}
	s.dv = nil
	if s.taint || op.panicV != nil {
		if op.err != nil || op.panicV != nil {
			s.failed = true
		}
		return
	}
	// ---- error or success
	mustFail := op.must
	if mustFail != "" && op.err == nil {
		p, class := "", "success-reported"
		switch {
		case op.cliBad:
			p, class = "P25", "bad-command-accepted"
		case op.kind == "new":
			p, class = "P21", "config-accepted"
		case op.noInput != "":
			p, class = "P03", "inexpressible-accepted"
		case strings.HasPrefix(mustFail, "reply cut"):
			p, class = "P10", "cut-reply-accepted"
		case strings.HasPrefix(mustFail, "unreadable data"):
			p, class = op.prop, "unreadable-data-accepted"
		case strings.HasPrefix(mustFail, "held back"):
			p, class = "P09", "withheld-data-accepted"
		case mustFail == "answer to another message":
			p, class = "P28", "wrong-answer-taken"
		case mustFail == "echoed request":
			p, class = "P20 P28", "wrong-answer-taken"
		case mustFail == "refused by the bank":
			p, class = "P09", "refusal-ignored"
		case mustFail == "no customer system ID assigned":
			p = "P13"
		case op.mustEx != nil && op.mustEx.plan != nil && op.mustEx.plan.unusable != "":
			p = op.prop
		default:
			p, class = "P20", "failure-ignored"
		}
		switch op.kind {
		case "tx", "septx", "bal", "sepabal", "status", "comm", "info":
			p += " " + op.prop
		}
		if op.cli && !op.cliBad {
			p += " P25"
		}
		v(p, class, "reports success although it cannot have succeeded: %s", mustFail)
	}
	if mustSucceed && op.err != nil {
		p := op.prop
		if s.failed {
			p += " P12"
		}
		if op.warned {
			p += " P09"
		}
		for _, b := range s.bodies {
			if b.mode != 0 && !strings.Contains(p, "P10") {
				p += " P10 P20"
			} else if len(b.b) > 30000 && !strings.Contains(p, "P20") {
				p += " P20"
			}
		}
		if op.quiet && len(op.exs) == 0 && op.jobID != "" && !op.noBPD {
			p += " P16"
		} else if len(op.jobs) == 0 && op.jobID != "" && !op.noBPD {
			p += " P16"
		}
		v(p, "unexpected-failure:"+errClass(op.err), "fails without reason: %v", op.err)
	}
	if op.err == nil && op.must == "" && op.kind != "" && !op.local {
		w.st.OkOps++
	} else if op.err != nil {
		w.st.FailOps++
	}
	// version choice
	if op.jobID != "" && !op.noBPD && op.err == nil && op.must == "" && !s.libCan(op) && len(op.jobs) == 0 {
		v("P16 "+op.prop, "no-version-accepted", "reports success without a common version")
	}
	// ---- the bank's reasons
	if op.must == "refused by the bank" && op.err != nil && op.mustEx != nil && !op.outLost {
		w.st.check("refusal")
		t := op.err.Error()
		for _, a := range op.mustEx.plan.errAcks {
			if !strings.Contains(t, fmt.Sprint(a.code)) || !strings.Contains(t, a.text) {
				v("P09", "reason-lost", "the error %q does not contain the bank's %04d %q", t, a.code, a.text)
				break
			}
		}
	}
	// ---- results
	if op.err == nil && op.must == "" {
		s.checkRows(op, v)
	}
	if op.err != nil && len(op.rows) > 0 && op.kind != "sync" && op.kind != "syncUPD" {
		v(op.prop, "partial", "an error and %d results are returned", len(op.rows))
	}
	if op.cli && op.err != nil {
		for _, p := range op.pages {
			for _, r := range p.rows {
				f := printedFields(r)
				for _, l := range resultLines(op.stdout) {
					if len(f) > 0 && shows(l, f) {
						v("P25", "partial", "the command fails, but the entry %q is printed", l)
					}
				}
			}
		}
	}
	if op.err == nil && op.must == "" && len(op.jobs) > 0 {
		last := op.jobs[len(op.jobs)-1]
		if last.plan != nil && last.plan.pg != nil && last.plan.pg.ref != "" && last.intact && op.kind != "send" { // there the caller continues
			v("P18 "+op.prop, "not-continued", "reports success although the bank announced more data under %q", last.plan.pg.ref)
		}
	}
	// ---- exchanges
	bound := 2 + 2
	if op.jobID != "" || op.anon {
		n := len(op.pages)
		if n < 1 {
			n = 1
		}
		bound = 2 + 3*n
	}
	if op.ready && op.err == nil && !s.taint && op.kind != "sync" {
		for _, x := range op.exs {
			if x.req.kind == "sync" {
				v("P12", "needless-sync", "synchronises although the client has a system ID and parameter data")
			}
		}
	}
	if op.err == nil && len(op.exs) > bound {
		v("P12 P17", "too-many-exchanges", "%d messages were exchanged, at most %d are needed", len(op.exs), bound)
	}
	if op.err != nil || op.must != "" || op.may != "" {
		if op.noInput == "" {
			s.failed = true
		}
	}
	for _, x := range op.exs {
		if x.fault != "" || x.bf.refuse || x.bf.noSyn || x.bf.badData || x.bf.badUPD || x.bf.askTAN || x.bf.loopRef || x.bf.noFn {
			s.failed = true
		}
	}
}

// libCan tells whether the job can be done with the parameter data.
func (s *sess) libCan(op *opRec) bool {
	if op.jobID == "" || op.noBPD {
		return true
	}
	for _, b := range op.bpdSeen {
		if b == nil {
			continue
		}
		if s.bestFor(op, b) == 0 {
			return false
		}
	}
	return true
}

func (s *sess) checkRows(op *opRec, v func(string, string, string, ...interface{})) {
	w := s.w
	if op.loose {
		return
	}
	if op.outLost {
		s.checkOutLost(op, v)
		return
	}
	if op.cli {
		s.checkCLI(op, v)
		return
	}
	switch op.kind {
	case "accounts", "syncUPD":
		w.st.check("accounts-result")
		ok := false
		var exp []string
		for _, u := range s.upds {
			exp = nil
			if u != nil {
				for _, a := range u.accts {
					exp = append(exp, a.canon())
				}
			}
			if d := diffRows(exp, op.rows); d == "" {
				ok = true
			}
		}
		if !ok {
			v("P08", "accounts-differ", "%s", diffRows(exp, op.rows))
		}
		w.st.Rows += len(op.rows)
	case "sync":
		if len(s.sys) == 1 && op.rows[0] != "system ID "+s.sys[0] {
			v("P13", "sync-result", "returns %q, the bank assigned %q", op.rows[0], s.sys[0])
		}
	case "tx", "septx", "bal", "sepabal", "status":
		w.st.check("result")
		var exp []string
		for _, p := range op.pages {
			exp = append(exp, p.rows...)
			w.st.Pages++
		}
		w.st.Rows += len(op.rows)
		if len(op.pages) == 0 {
			v(op.prop, "no-request", "reports success without asking the bank")
			return
		}
		if d := diffRows(exp, op.rows); d != "" {
			v(op.prop, diffClass(exp, op.rows), "%s", d)
		}
		if op.prop == "P05" {
			s.checkStatements(op, v)
		}
	case "info":
		if s.debug || w.prof.scen == "conc" {
			return // others print too
		}
		w.st.check("result")
		var exp []string
		for _, p := range op.pages {
			exp = append(exp, p.rows...)
			w.st.Pages++
		}
		op.rows = printedInfo(op.printed)
		w.st.Rows += len(op.rows)
		if d := diffRows(exp, op.rows); d != "" {
			v("P27", diffClass(exp, op.rows), "printed: %s", d)
		}
	}
}

var reInfo = regexp.MustCompile(`HIKIF:[0-9]+:[0-9]+(:[0-9]+)?`)

// printedInfo returns the account information found in out, without the
// segment headers.
func printedInfo(out string) []string {
	var l []string
	for {
		at := reInfo.FindStringIndex(out)
		if at == nil {
			return l
		}
		out = out[at[1]:]
		i := 0
		for i < len(out) && out[i] != '\'' {
			if out[i] == '?' {
				i++
			}
			i++
		}
		if i > len(out) {
			i = len(out)
		}
		l = append(l, out[:i])
		out = out[i:]
	}
}

// checkStatements reads the statements delivered for op once more, for the
// fields which the client's result does not show.
func (s *sess) checkStatements(op *opRec, v func(string, string, string, ...interface{})) {
	defer simrt.Pause()()
	var exp, act []string
	var raw []byte
	for _, p := range op.pages {
		exp = append(exp, p.stmts...)
		raw = append(raw, p.raw...)
	}
	if len(raw) == 0 {
		return
	}
	s.w.st.check("statements")
	defer func() {
		if r := recover(); r != nil {
			v("P05", "statement-crash", "reading the statements: %v", r)
		}
	}()
	msgs, err := swift.NewMessageExtractor(raw).Extract()
	if err != nil {
		v("P05", "statement-error", "reading the statements: %v", err)
		return
	}
	for _, m := range msgs {
		x := &swift.MT940{}
		if err := x.Unmarshal(m); err != nil {
			v("P05", "statement-error", "reading the statements: %v", err)
			return
		}
		act = append(act, canonStatement(x))
	}
	if d := diffRows(exp, act); d != "" {
		v("P05", "statement-"+diffClass(exp, act), "reading the statements: %s", d)
	}
}

func canonStatement(x *swift.MT940) string {
	var all strings.Builder
	note := func(f string, a ...interface{}) { fmt.Fprintf(&all, f+"; ", a...) }
	bal := func(n string, b *swift.BalanceTag) {
		if b != nil {
			d := b.Balance()
			note("%s %s at %s", n, amt(d.Amount.Amount, d.Amount.Currency), d.TransmissionDate.Format("2006-01-02"))
		}
	}
	if x.JobReference != nil {
		note("job %q", x.JobReference.Val())
	}
	if x.Reference != nil {
		note("reference %q", x.Reference.Val())
	}
	if x.Account != nil {
		note("account %q %q", x.Account.BankID, x.Account.AccountID)
	}
	if n := x.StatementNumber; n != nil {
		note("number %d/%d", n.Number, n.SheetNumber)
	}
	bal("start", x.StartingBalance)
	for _, q := range x.Transactions {
		t := q.Transaction
		book := "-"
		if !t.BookingDate.IsZero() {
			book = ts(t.BookingDate.Time)
		}
		abs := strings.TrimSuffix(amt(t.Amount, ""), " ")
		note("booking %s %s %s%q %s %s ref %q bank %q info %q", t.ValutaDate.Format("2006-01-02"), book, t.DebitCreditIndicator, t.CurrencyKind, abs, t.BookingKey, t.Reference, t.BankReference, t.AdditionalInformation)
		if q.Description != nil {
			note("described as %d", q.Description.TransactionID)
		}
	}
	bal("end", x.ClosingBalance)
	bal("valuta", x.CurrentValutaBalance)
	bal("future", x.FutureValutaBalance)
	if c := x.CustomField; c != nil {
		note("about all %d %q", c.TransactionID, c.BookingText)
	}
	return all.String()
}

// checkOutLost is for a successful operation which could print nothing.
func (s *sess) checkOutLost(op *opRec, v func(string, string, string, ...interface{})) {
	n := 0
	for _, p := range op.pages {
		n += len(p.rows)
	}
	if op.kind == "accounts" {
		n = 1
		for _, u := range s.upds {
			if u == nil || len(u.accts) == 0 {
				n = 0
			}
		}
	}
	s.w.st.check("output-full")
	if n > 0 {
		v(op.prop, "output-lost", "reports success although its output could not be written")
	}
}

// checkCLI compares the printed result of a successful invocation.
func (s *sess) checkCLI(op *opRec, v func(string, string, string, ...interface{})) {
	var d string
	if op.kind == "accounts" {
		for _, u := range s.upds {
			var exp []string
			if u != nil {
				for _, a := range u.accts {
					exp = append(exp, a.canon())
				}
			}
			if d = s.checkPrinted(op, exp); d == "" {
				return
			}
		}
	} else {
		if len(op.pages) == 0 {
			v("P25", "no-request", "reports success without asking the bank")
			return
		}
		var exp []string
		for _, p := range op.pages {
			exp = append(exp, p.rows...)
			s.w.st.Pages++
		}
		d = s.checkPrinted(op, exp)
	}
	if strings.HasPrefix(d, "HARNESS") {
		v("HARNESS", "row", "%s", d)
	} else if d != "" {
		v("P25", "printed", "%s", d)
	}
}

// eqRow compares a delivered and a reported row.
func eqRow(exp, act string) bool {
	if exp == act {
		return true
	}
	i := strings.Index(exp, "feb30/")
	if i < 0 || len(act) < i+10 || exp[:i] != act[:i] {
		return false
	}
	y := exp[i+6 : i+10]
	for _, d := range []string{y + "-02-28", y + "-02-29", y + "-03-01", y + "-03-02"} {
		if act[i:i+10] == d {
			return eqRow(exp[i+10:], act[i+10:])
		}
	}
	return false
}

func diffRows(exp, act []string) string {
	for i := range exp {
		if i >= len(act) {
			return fmt.Sprintf("%d of %d entries are reported, missing %s", len(act), len(exp), exp[i])
		}
		if !eqRow(exp[i], act[i]) {
			return fmt.Sprintf("entry %d of %d is reported as\n    %s\n  the bank sent\n    %s", i+1, len(exp), act[i], exp[i])
		}
	}
	if len(act) > len(exp) {
		return fmt.Sprintf("%d entries are reported, the bank sent %d; surplus %s", len(act), len(exp), act[len(exp)])
	}
	return ""
}

// diffClass says which part of the rows differs.
func diffClass(exp, act []string) string {
	if len(exp) != len(act) {
		return "count"
	}
	m := map[string]int{}
	for _, e := range exp {
		m[e]++
	}
	same := true
	for _, a := range act {
		if m[a] == 0 {
			same = false
		}
		m[a]--
	}
	if same {
		return "order"
	}
	for i := range exp {
		if !eqRow(exp[i], act[i]) {
			a, b := strings.Fields(exp[i]), strings.Fields(act[i])
			name := "row"
			for j := range a {
				if j >= len(b) {
					break
				}
				if a[j] != b[j] {
					return "field-" + name
				}
				if rowFields[a[j]] {
					name = a[j]
				}
			}
			return "field-" + name
		}
	}
	return "row"
}

var rowFields = map[string]bool{}

func init() {
	for _, f := range strings.Fields("acct bank amount valuta booking text account name purpose purpose2 id before after iban bic sub product cur booked earmarked credit avail used due seizable status at code de params limit allowed user names") {
		rowFields[f] = true
	}
}

// errClass shortens an error so that it identifies the kind of failure.
func errClass(e error) string {
	t := e.Error()
	var o []rune
	for _, r := range t {
		if r == '\n' || r == '"' || r == '\'' || (r >= '0' && r <= '9') {
			break
		}
		o = append(o, r)
		if len(o) > 60 {
			break
		}
	}
	return strings.TrimSpace(string(o))
}
