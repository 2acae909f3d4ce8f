package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

// monitor checks one message when it is posted.
func (s *sess) monitor(ex *exch) {
	w, op, r := s.w, ex.op, ex.req
	w.st.check("message")
	s.checkSecrets(ex)
	if s.taint {
		if s.dv == nil || opens(r) {
			s.dv = &dialogView{last: r.no, opener: ex}
		}
		return
	}
	v := func(props, class, f string, a ...interface{}) {
		switch class {
		case "opening", "dialog-id", "number", "system-id", "system-ids-differ", "sync-id", "security-function", "security-profile", "bpd-version", "upd-version", "sync-versions",
			"job-version", "syntax", "version", "pin", "key-name", "id-status", "unprotected":
			// a bank refuses such messages: the failure before has left the
			// client unable to talk to it
			if s.failed {
				props += " P12"
			}
		}
		w.violate(props, class, "operation %d (%s), message %d: %s", op.n, op.kind, ex.n, fmt.Sprintf(f, a...))
	}
	for _, p := range r.problems {
		v("P03", "syntax", "%s; message %s", p, show(ex.raw))
	}
	if r.err != nil {
		return
	}
	if r.hbci != s.hbci {
		v("P03 P21", "version", "protocol version %d instead of %d", r.hbci, s.hbci)
	}

	// ---- dialog structure
	if op.must != "" && !strings.HasPrefix(op.must, "unreadable data") && !strings.HasPrefix(op.must, "held back") && r.kind != "end" && r.kind != "anonend" && (op.noInput == "" || op.mustEx != nil) {
		p := "P17"
		if op.mustEx != nil && op.mustEx.plan != nil && op.mustEx.plan.isErr && op.mustEx.reached {
			p = "P09 P17"
		}
		if op.anon {
			p += " P24"
		}
		v(p, "message-after-failure", "a %s message is sent after the operation failed (%s)", r.kind, op.must)
	}
	p24 := func(p string) string {
		if op.anon {
			p += " P24"
		}
		return p
	}
	if opens(r) {
		if s.dv != nil && s.dv.open && s.dv.ends == 0 {
			v(p24("P02"), "not-ended", "a new dialog begins while dialog %q is open", s.dv.id)
		}
		if r.dialogID != "0" || r.no != 1 {
			p := "P01"
			if r.kind == "anoninit" {
				p += " P24"
			}
			v(p, "opening", "the opening message (%s) carries dialog ID %q and number %d", r.kind, r.dialogID, r.no)
		}
		s.dv = &dialogView{last: r.no, anon: r.kind == "anoninit", opener: ex, bpdThen: append([]*bpd{}, s.bpds...)}
	} else if s.dv == nil || (!s.dv.open && !s.dv.maybe) {
		if r.kind == "end" || r.kind == "anonend" {
			v(p24("P02"), "end-unopened", "an end message for a dialog that was never opened")
		} else {
			v(p24("P01"), "job-unopened", "a %s message without an open dialog", r.kind)
		}
		s.dv = &dialogView{last: r.no}
	} else {
		d := s.dv
		p := "P01"
		if d.anon {
			p += " P24"
		}
		if r.dialogID != d.id {
			q := p
			if r.kind == "end" || r.kind == "anonend" {
				q += " P02"
			}
			v(q, "dialog-id", "%s message carries dialog ID %q, the bank assigned %q", r.kind, r.dialogID, d.id)
		}
		if r.no != d.last+1 {
			v(p, "number", "%s message has number %d, expected %d", r.kind, r.no, d.last+1)
		}
		d.last = r.no
		if d.ends > 0 {
			v(p24("P02"), "after-end", "a %s message is sent after the end of dialog %q", r.kind, d.id)
		}
		if r.kind == "end" || r.kind == "anonend" {
			d.ends++
		} else if !d.open {
			v("P10 P20", "job-after-damage", "a %s message is sent although the opening reply was damaged", r.kind)
		}
		key := r.dialogID + "\x00" + strconv.Itoa(r.no)
		if s.seen[key] > 0 {
			v("P17", "sent-twice", "message %d of dialog %q is sent again", r.no, r.dialogID)
		}
		s.seen[key]++
	}
	if r.endNo != r.no {
		v("P01 P03", "end-number", "header number %d, trailer number %d", r.no, r.endNo)
	}
	anon := strings.HasPrefix(r.kind, "anon")
	if anon != op.anon {
		v("P24 P04", "anonymity", "a %s message in a %s operation", r.kind, op.kind)
	}
	if anon {
		s.checkAnon(ex, v)
	} else {
		s.checkAuth(ex, v)
	}
	if r.vvb != nil {
		s.checkPrep(ex, v)
	}
	if r.kind == "job" {
		s.checkJob(ex, v)
	}
}

func (s *sess) checkAnon(ex *exch, v func(string, string, string, ...interface{})) {
	r := ex.req
	if r.encrypted || r.shk != nil || r.sha != nil {
		v("P24", "anon-signed", "anonymous message is signed or encrypted")
	}
	if r.kind == "anoninit" {
		if r.idn.de(0, 0) != "280" || r.idn.de(0, 1) != s.code || r.idn.de(1, 0) != "9999999999" || r.idn.de(2, 0) != "0" || r.idn.de(3, 0) != "0" {
			v("P24", "anon-id", "anonymous identification %q", r.idn.Raw)
		}
	}
	if r.job != nil {
		if ex.op.expJob != nil {
			ok := false
			b, _ := jobBase(r.job)
			for _, e := range ex.op.expJob(r.job.Ver) {
				ok = ok || e == b
			}
			if !ok {
				v("P03 P24", "job-data", "anonymous job %q, expected one of %q", b, ex.op.expJob(r.job.Ver))
			}
		}
		for _, o := range ex.op.jobs {
			if o.req.job != nil && bytes.Equal(o.req.job.Raw, r.job.Raw) {
				v("P17", "job-twice", "the job is submitted twice")
			}
		}
		ex.op.jobs = append(ex.op.jobs, ex)
	}
}

func (s *sess) checkAuth(ex *exch, v func(string, string, string, ...interface{})) {
	r := ex.req
	if !r.encrypted || r.shk == nil || r.sha == nil {
		v("P03 P04", "unprotected", "%s message is not signed and encrypted", r.kind)
		return
	}
	if len(r.outer) != 4 {
		v("P04", "outer", "%d segments outside the envelope", len(r.outer))
	}
	want := [3]string{"280", s.code, s.user}
	sig, enc := r.keyNames()
	if sig != want {
		v("P03", "key-name", "signature key name %q, expected %q", sig, want)
	}
	if enc != want {
		v("P03", "key-name", "encryption key name %q, expected %q", enc, want)
	}
	if r.pin != s.pin {
		v("P03", "pin", "PIN arrives as %q instead of %q", r.pin, s.pin)
	}
	// ---- customer system ID
	sysID := ""
	for _, k := range []string{"HNVSK", "HNSHK", "HKIDN"} {
		id, ok := r.sysIDs[k]
		if !ok {
			continue
		}
		if sysID == "" {
			sysID = id
		}
		if id != sysID {
			v("P13", "system-ids-differ", "%s message names the customer system IDs %v", r.kind, r.sysIDs)
		}
	}
	switch r.kind {
	case "sync":
		if sysID != "0" {
			v("P13", "sync-id", "synchronisation message names the customer system ID %q", sysID)
		}
		if ex.op.kind != "sync" && !has(s.sys, "0") && !hasNilBPD(s.bpds) {
			v("P13", "sync-again", "a synchronisation although the client has the ID %q", s.sys)
		}
	case "init":
		if sysID == "0" || !has(s.sys, sysID) {
			v("P13", "system-id", "dialog opens with customer system ID %q, current is %q", sysID, s.sys)
		} else {
			s.sys = []string{sysID}
		}
		if r.sysIDs["HNVSK"] != s.sys[0] || r.sysIDs["HNSHK"] != s.sys[0] {
			v("P13", "system-id", "system IDs %v, current is %q", r.sysIDs, s.sys)
		}
	default:
		// within a dialog; a synchronisation dialog may end with either ID
		o := s.dv.opener
		if o != nil && o.req.kind == "sync" {
			if sysID != "0" && !has(s.sys, sysID) {
				v("P13", "system-id", "%s message names customer system ID %q, current is %q", r.kind, sysID, s.sys)
			}
		} else if sysID == "0" || !has(s.sys, sysID) {
			v("P13", "system-id", "%s message names customer system ID %q, current is %q", r.kind, sysID, s.sys)
		}
	}
	// ---- security function
	if !s.sec[r.secFn] {
		v("P14", "security-function", "%s message uses security function %q, expected one of %v", r.kind, r.secFn, keys(s.sec))
	} else {
		s.sec = map[string]bool{r.secFn: true}
	}
	profile := "2"
	if r.secFn == "999" {
		profile = "1"
	}
	for _, h := range []struct {
		s   *seg
		ver int
	}{{r.shk, 4}, {r.vsk, 3}} {
		if h.s.Ver >= h.ver && (h.s.de(0, 0) != "PIN" || h.s.de(0, 1) != profile) {
			v("P14", "security-profile", "%s of a %s message names security profile %s:%s with security function %s", h.s.ID, r.kind, h.s.de(0, 0), h.s.de(0, 1), r.secFn)
		}
	}
	ex.op.secFns = append(ex.op.secFns, r.secFn)
	if opens(r) && r.idn != nil {
		if r.idn.de(0, 0) != "280" || r.idn.de(0, 1) != s.code {
			v("P03", "bank-id", "identification names bank %q", r.idn.Raw)
		}
		if r.idn.de(3, 0) != "1" {
			v("P03", "id-status", "identification without system ID status: %q", r.idn.Raw)
		}
	}
}

func (s *sess) checkPrep(ex *exch, v func(string, string, string, ...interface{})) {
	r := ex.req
	b, u := r.vvb.deInt(0, 0), r.vvb.deInt(1, 0)
	if r.kind == "sync" {
		if b != 0 || u != 0 {
			v("P15", "sync-versions", "synchronisation announces versions %d and %d", b, u)
		}
	} else {
		var nb []*bpd
		for _, x := range s.bpds {
			if (x == nil && b == 0) || (x != nil && x.ver == b) {
				nb = append(nb, x)
			}
		}
		if nb == nil {
			v("P15", "bpd-version", "%s announces bank parameter data version %d, current is %s", r.kind, b, bpdVers(s.bpds))
		} else {
			s.bpds = nb
		}
		var nu []*upd
		for _, x := range s.upds {
			if (x == nil && u == 0) || (x != nil && x.ver == u) {
				nu = append(nu, x)
			}
		}
		if nu == nil {
			v("P15"+s.afterAnon(), "upd-version", "%s announces user parameter data version %d, current is %s", r.kind, u, updVers(s.upds))
		} else {
			s.upds = nu
		}
	}
	if r.idn != nil && r.kind != "anoninit" {
		id := r.idn.de(1, 0)
		var nu []*upd
		for _, x := range s.upds {
			if (x == nil && id == s.user) || (x != nil && x.userID == id) {
				nu = append(nu, x)
			}
		}
		if nu == nil {
			p := "P03 P15"
			if len(s.upds) > 0 && s.upds[0] != nil && id == s.user {
				p = "P15"
			}
			v(p+s.afterAnon(), "customer-id", "identification names customer %q, the client was given %q and received %s", id, s.user, updVers(s.upds))
		} else {
			s.upds = nu
		}
	}
	product, pv := s.product, s.prodVer
	if product == "" {
		product = r.vvb.de(3, 0)
		if product == "" {
			v("P03", "product", "no product name")
		}
	}
	if pv == "" {
		pv = r.vvb.de(4, 0)
	}
	if r.vvb.de(3, 0) != product || r.vvb.de(4, 0) != pv {
		v("P03", "product", "product %q version %q instead of %q %q", r.vvb.de(3, 0), r.vvb.de(4, 0), product, pv)
	}
}

func (s *sess) checkJob(ex *exch, v func(string, string, string, ...interface{})) {
	r, op := ex.req, ex.op
	if r.job == nil {
		return
	}
	s.w.st.check("job")
	if op.noInput != "" {
		v("P03", "inexpressible-sent", "a job is sent although its input %s cannot be expressed", op.noInput)
		return
	}
	if op.jobID == "" || r.job.ID != op.jobID {
		p := "P03"
		if op.cli {
			p = "P25"
		}
		v(p, "job-kind", "job %s in operation %s", r.job.ID, op.kind)
		return
	}
	b, ref := jobBase(r.job)
	if !op.noBPD {
		ok := false
		var cand []int
		for _, x := range op.bpdSeen {
			n := s.bestFor(op, x)
			cand = append(cand, n)
			if n == r.job.Ver {
				ok = true
			}
		}
		if !ok {
			v("P16", "job-version", "%s is sent in version %d, the best common version is %v", r.job.ID, r.job.Ver, cand)
		}
	}
	if op.expJob != nil {
		ok := false
		exp := op.expJob(r.job.Ver)
		for _, e := range exp {
			ok = ok || e == b
		}
		if !ok {
			if len(exp) > 4 {
				exp = exp[:4]
			}
			p := "P03"
			if op.cli {
				p = "P25"
			}
			if op.ref != "" || ref != "" {
				p += " P18" // it does not continue the query
			}
			v(p, "job-data", "job is %q, expected %q", b, exp)
		}
	}
	if len(op.jobs) == 0 {
		op.firstBase = b
		if ref != op.ref {
			v("P18", "first-reference", "the first request carries the reference %q instead of %q", ref, op.ref)
		}
	} else {
		prev := op.jobs[len(op.jobs)-1]
		for _, o := range op.jobs {
			ob, oref := jobBase(o.req.job)
			if ob == b && oref == ref {
				v("P17 P18", "job-twice", "the same job with reference %q is submitted twice", ref)
			}
		}
		if b[strings.Index(b, "+"):] != op.firstBase[strings.Index(op.firstBase, "+"):] {
			p := "P18"
			if op.kind == "tx" || op.kind == "septx" {
				p = "P18 P06"
			}
			v(p, "query-changed", "follow-up request %q, the first was %q", b, op.firstBase)
		}
		want := ""
		if prev.plan != nil && prev.plan.pg != nil {
			want = prev.plan.pg.ref
		}
		if want == "" {
			v("P18", "follow-up-unmarked", "a follow-up request with reference %q although the bank announced nothing", ref)
		} else if ref != want {
			v("P18", "reference", "the follow-up request carries the reference %q instead of %q", ref, want)
		}
	}
	op.jobs = append(op.jobs, ex)
}

func (s *sess) bestFor(op *opRec, b *bpd) int {
	if b == nil {
		return 0
	}
	switch op.jobID {
	case "HKSAL":
		return best(op.libVers, b.sal)
	case "HKKAZ":
		return best(op.libVers, b.kaz)
	case "HKPRO":
		return best(op.libVers, b.pro)
	}
	return 0
}

func bpdVers(b []*bpd) string {
	var o []string
	for _, x := range b {
		if x == nil {
			o = append(o, "none")
		} else {
			o = append(o, fmt.Sprint(x.ver))
		}
	}
	return strings.Join(o, " or ")
}

func updVers(b []*upd) string {
	var o []string
	for _, x := range b {
		if x == nil {
			o = append(o, "none")
		} else {
			o = append(o, fmt.Sprintf("version %d for %q", x.ver, x.userID))
		}
	}
	return strings.Join(o, " or ")
}

func hasNilBPD(b []*bpd) bool {
	for _, x := range b {
		if x == nil {
			return true
		}
	}
	return false
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func keys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sortStrings(o)
	return o
}

// ---------------------------------------------------------------- secrets

// secretForms lists what a secret looks like in plain, escaped and common encoded forms.
func secretForms(p string) []string {
	l := []string{p, iso(p), esc(p)}
	q := strconv.Quote(p)
	l = append(l, q[1:len(q)-1], escQuote(p))
	l = append(l, hex.EncodeToString([]byte(p)), strings.ToUpper(hex.EncodeToString([]byte(p))))
	l = append(l, byteList([]byte(p)), byteList([]byte(iso(p))))
	for _, b := range [][]byte{[]byte(p), []byte(iso(p)), []byte(esc(p))} {
		for off := 0; off < 3; off++ {
			e := base64.RawStdEncoding.EncodeToString(append(make([]byte, off), b...))
			// only the characters that are determined by the secret alone
			from := []int{0, 2, 3}[off]
			to := (off + len(b)) * 8 / 6
			if to-from >= 8 {
				l = append(l, e[from:to])
			}
		}
	}
	return l
}

func escQuote(p string) string {
	q := strconv.Quote(esc(p))
	return q[1 : len(q)-1]
}

func byteList(b []byte) string {
	var o []string
	for _, c := range b {
		o = append(o, strconv.Itoa(int(c)))
	}
	return strings.Join(o, " ")
}

func leaks(text string, pin string) string {
	for _, f := range secretForms(pin) {
		if strings.Contains(text, f) {
			return f
		}
	}
	return ""
}

// checkSecrets looks for the PIN outside the encrypted part.
func (s *sess) checkSecrets(ex *exch) {
	s.w.st.check("secret")
	outside := ex.raw
	if ex.req.encrypted && len(ex.req.inner) > 0 {
		i := bytes.Index(ex.raw, ex.req.inner)
		if i >= 0 {
			outside = append(append([]byte{}, ex.raw[:i]...), ex.raw[i+len(ex.req.inner):]...)
		}
	}
	for _, p := range s.pins {
		if f := leaks(string(outside), p); f != "" {
			s.w.violate("P04", "pin-in-clear", "the PIN %q appears outside the encrypted part (as %q): %s", p, f, show(outside))
		}
	}
	if ex.op.anon {
		for _, id := range []string{s.user} {
			if strings.Contains(string(ex.raw), esc(id)) || strings.Contains(string(ex.raw), iso(id)) {
				if len(id) >= 4 {
					s.w.violate("P04 P24", "user-in-anonymous", "the user ID %q appears in an anonymous message: %s", id, show(ex.raw))
				}
			}
		}
	}
}

// afterAnon is P24 when an anonymous dialog came before.
func (s *sess) afterAnon() string {
	for _, o := range s.ops {
		if o.anon && len(o.exs) > 0 {
			return " P24"
		}
	}
	return ""
}
