package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The simulated bank: it reads requests with its own strict parser and writes
// replies with its own writer. Nothing of the code under test is used here.

// ---------------------------------------------------------------- requests

type reqInfo struct {
	raw       []byte
	outer     []*seg
	body      []*seg // segments without message header, envelope and trailer; signature segments included
	inner     []byte // content of the encrypted envelope
	encrypted bool
	hdr       *seg
	dialogID  string
	no, endNo int
	hbci      int
	size      int
	vsk, vsd  *seg
	shk, sha  *seg
	idn, vvb  *seg
	tan, syn  *seg
	end       *seg
	job       *seg
	kind      string // sync init job end anoninit anonjob anonend bad
	pin       string
	secFn     string
	sysIDs    map[string]string
	err       error
	problems  []string // violations of the message syntax
}

func (r *reqInfo) problem(f string, a ...interface{}) {
	r.problems = append(r.problems, fmt.Sprintf(f, a...))
}

func parseReq(b []byte) *reqInfo {
	r := &reqInfo{raw: b, kind: "bad", sysIDs: map[string]string{}}
	segs, err := parseSegs(b)
	if err != nil {
		r.err = err
		r.problem("message does not parse: %v", err)
		return r
	}
	r.outer = segs
	if len(segs) < 3 || segs[0].ID != "HNHBK" || segs[len(segs)-1].ID != "HNHBS" {
		r.err = fmt.Errorf("no header or trailer")
		r.problem("message has no header or trailer")
		return r
	}
	h := segs[0]
	r.hdr = h
	if h.Pos != 1 || h.Ver != 3 {
		r.problem("message header is %s:%d:%d", h.ID, h.Pos, h.Ver)
	}
	sz := h.de(0, 0)
	if len(sz) != 12 {
		r.problem("message size %q does not have 12 digits", sz)
	}
	r.size, _ = strconv.Atoi(sz)
	if r.size != len(b) {
		r.problem("stated size %d, actual size %d", r.size, len(b))
	}
	r.hbci = h.deInt(1, 0)
	r.dialogID = h.de(2, 0)
	r.no = h.deInt(3, 0)
	t := segs[len(segs)-1]
	r.endNo = t.deInt(0, 0)
	mid := segs[1 : len(segs)-1]
	if len(mid) > 0 && mid[0].ID == "HNVSK" {
		r.encrypted = true
		r.vsk = mid[0]
		if r.vsk.Pos != 998 {
			r.problem("HNVSK has number %d", r.vsk.Pos)
		}
		if len(mid) != 2 || mid[1].ID != "HNVSD" {
			r.problem("encrypted message with extra segments outside the envelope")
			r.err = fmt.Errorf("envelope")
			return r
		}
		r.vsd = mid[1]
		if r.vsd.Pos != 999 {
			r.problem("HNVSD has number %d", r.vsd.Pos)
		}
		data, isBin := r.vsd.bin(0, 0)
		if !isBin || len(r.vsd.DEs) != 1 {
			r.problem("HNVSD without binary content")
		}
		r.inner = data
		in, err := parseSegs(data)
		if err != nil {
			r.err = err
			r.problem("envelope content does not parse: %v", err)
			return r
		}
		r.body = in
	} else {
		r.body = mid
	}
	for i, s := range r.body {
		if s.Pos != i+2 {
			r.problem("segment %s is number %d, expected %d", s.ID, s.Pos, i+2)
		}
		if s.Ref != -1 {
			r.problem("segment %s of a request has a reference", s.ID)
		}
	}
	if t.Pos != len(r.body)+2 {
		r.problem("trailer is number %d, expected %d", t.Pos, len(r.body)+2)
	}
	nShk, nSha := 0, 0
	for i, s := range r.body {
		switch s.ID {
		case "HNSHK":
			nShk++
			r.shk = s
			if i != 0 {
				r.problem("signature header is not the first segment")
			}
		case "HNSHA":
			nSha++
			r.sha = s
			if i != len(r.body)-1 {
				r.problem("signature trailer is not the last segment")
			}
		case "HKIDN":
			r.idn = s
		case "HKVVB":
			r.vvb = s
		case "HKSYN":
			r.syn = s
		case "HKTAN":
			r.tan = s
		case "HKEND":
			r.end = s
		default:
			if r.job != nil {
				r.problem("more than one job segment")
			}
			r.job = s
		}
	}
	if nShk > 1 || nSha > 1 || nShk != nSha {
		r.problem("%d signature headers and %d trailers", nShk, nSha)
	}
	if r.encrypted && nShk == 0 {
		r.problem("encrypted message is not signed")
	}
	if r.vsk != nil {
		o := 0
		if r.vsk.Ver >= 3 {
			o = 1
		}
		r.sysIDs["HNVSK"] = r.vsk.de(o+2, 2)
	}
	if r.shk != nil {
		o := 0
		if r.shk.Ver >= 4 {
			o = 1
		}
		r.secFn = r.shk.de(o, 0)
		r.sysIDs["HNSHK"] = r.shk.de(o+4, 2)
		if r.sha != nil {
			if a, b := r.shk.de(o+1, 0), r.sha.de(0, 0); a != b || a == "" {
				r.problem("control reference %q in signature header, %q in trailer", a, b)
			}
		}
	}
	if r.sha != nil {
		r.pin = r.sha.de(2, 0)
	}
	if r.idn != nil {
		r.sysIDs["HKIDN"] = r.idn.de(2, 0)
	}
	switch {
	case r.end != nil:
		r.kind = "end"
	case r.syn != nil:
		r.kind = "sync"
	case r.idn != nil:
		r.kind = "init"
	case r.job != nil:
		r.kind = "job"
	}
	if r.shk == nil && !r.encrypted && r.kind != "bad" {
		r.kind = "anon" + r.kind
	}
	return r
}

// keyNames returns the user IDs in the key names of signature and encryption header.
func (r *reqInfo) keyNames() (sig, enc [3]string) {
	if r.shk != nil {
		o := 0
		if r.shk.Ver >= 4 {
			o = 1
		}
		i := o + 9
		sig = [3]string{r.shk.de(i, 0), r.shk.de(i, 1), r.shk.de(i, 2)}
	}
	if r.vsk != nil {
		o := 0
		if r.vsk.Ver >= 3 {
			o = 1
		}
		i := o + 5
		enc = [3]string{r.vsk.de(i, 0), r.vsk.de(i, 1), r.vsk.de(i, 2)}
	}
	return
}

// ---------------------------------------------------------------- data the bank holds

type secFn struct{ fn, name string }

type bpd struct {
	ver           int
	name          string
	sal, kaz, pro []int
	describes     []secFn
	maxSize       int
	bpaVer        int
	seed          uint64 // of what else is sent
}

type acct struct {
	ver                   int // HIUPD version
	id, sub, bank         string
	country               int
	noConn                bool // belongs to the user, not to an account
	iban, userID, cur     string
	name1, name2, product string
	typ                   string
	limit                 *limit
	allowed               []allowedTx
	ext                   string
}

type limit struct {
	kind string
	amt  money
	has  bool // amount present
	days int
}

type allowedTx struct {
	blank bool // the elements of the limit are there without values
	id    string
	sigs  int
	limit *limit
}

type upd struct {
	ver    int
	userID string
	usage  int
	name   string
	upaVer int
	accts  []acct
}

type ackT struct {
	code   int
	ref    string
	text   string
	params []string
}

func (a ackT) wire() string {
	e := []string{fmt.Sprintf("%04d", a.code), esc(a.ref), esc(a.text)}
	for _, p := range a.params {
		e = append(e, esc(p))
	}
	return strings.Join(e, ":")
}

type bdialog struct {
	id      string
	last    int
	anon    bool
	refused bool
	ended   bool
}

// bank is one institute as seen by one user.
type bank struct {
	w        *world
	t        *tape
	g        *genProf
	country  string
	code     string
	userID   string
	hbci     int
	bpd      *bpd
	upd      *upd
	sysIDs   []string
	perm     []string // security functions permitted for the user
	oldFns   []string // functions described before
	badAcct  int      // the account to be made unreadable, from 1
	dialogs  map[string]*bdialog
	nDialogs int
	refs     map[string]*query // pending continuations
	given    []string          // the references of the last result
	lastID   string            // of the last dialog opened
	used     map[string]bool   // references the callers passed
	refN     int
}

// query is the result set of one job and how it is split into pages.
type query struct {
	job   string // HKKAZ HKSAL HKPRO
	ver   int
	base  string // the request without continuation reference
	pages []*page
}

// page is one reply of a query.
type page struct {
	q       *query
	i       int
	rows    []string // canonical rows delivered
	badSegs func() (what string, must bool, segs func(*segWriter, int))
	stmts   []string // S.W.I.F.T. statements delivered, every field of them
	raw     []byte   // the same as sent
	segs    func(w *segWriter, ref int)
	ref     string // continuation reference announced by this page ("" last)
	alt     bool   // the page has an unusual but valid form
	ackAt   int
}

func genVersions(s *stream, lo, hi int, need int) []int {
	// need: bitmask of versions that must be present
	var v []int
	for i := lo; i <= hi; i++ {
		if need>>uint(i)&1 == 1 || s.N(2) == 1 {
			v = append(v, i)
		}
	}
	// order of announcement is free
	for i := len(v) - 1; i > 0; i-- {
		j := i - s.N(i+1)
		v[i], v[j] = v[j], v[i]
	}
	return v
}

func (b *bank) newBPD() {
	s := b.t.Gen
	n := &bpd{ver: 1 + s.N(60), name: genText(s, 60), maxSize: s.N(2) * 9999, bpaVer: 2 + s.N(2), seed: uint64(s.N(1 << 30))}
	if b.bpd != nil && s.P(12) {
		n.ver = b.bpd.ver // some banks do not count
	} else if b.bpd != nil && n.ver == b.bpd.ver {
		n.ver++
	}
	// at least one version for either kind of account, not always the newest
	needSal := 1<<uint(5+s.N(2)) | 1<<uint(7+s.N(2))
	needKaz := 1<<uint(5+s.N(2)) | 1<<7
	needPro := 1 << uint(3+s.N(2))
	if b.g.exoticBPD > 0 && s.P(b.g.exoticBPD) {
		needSal, needKaz, needPro = 0, 0, 0
	}
	n.sal = genVersions(s, 4, 9, needSal)
	n.kaz = genVersions(s, 4, 8, needKaz)
	n.pro = genVersions(s, 3, 5, needPro)
	fns := []string{"910", "920", "900", "942", "997", "962"}
	k := s.R(1, 4)
	off := s.N(len(fns))
	for i := 0; i < k; i++ {
		n.describes = append(n.describes, secFn{fns[(off+i)%len(fns)], genText(s, 30)})
	}
	b.oldFns = nil
	if b.bpd != nil {
		for _, d := range b.bpd.describes {
			b.oldFns = append(b.oldFns, d.fn)
		}
	}
	b.bpd = n
	b.newPerm()
}

func (b *bank) newPerm() {
	s := b.t.Gen
	b.perm = nil
	// at least one described function is permitted
	must := s.N(len(b.bpd.describes))
	for i, d := range b.bpd.describes {
		if i == must || s.N(2) == 1 {
			b.perm = append(b.perm, d.fn)
		}
	}
	if s.N(3) == 2 {
		b.perm = append(b.perm, "999")
	}
	if s.N(4) == 3 {
		b.perm = append(b.perm, "987") // permitted, but not described
	}
	// one which was described earlier
	for _, fn := range b.oldFns {
		known := s.N(3) != 2
		for _, d := range b.bpd.describes {
			known = known || d.fn == fn
		}
		if !known {
			b.perm = append(b.perm, fn)
		}
	}
	for i := len(b.perm) - 1; i > 0; i-- {
		j := i - s.N(i+1)
		b.perm[i], b.perm[j] = b.perm[j], b.perm[i]
	}
}

func (b *bank) newUPD() {
	s := b.t.Gen
	n := &upd{ver: 1 + s.N(60), userID: b.userID, usage: s.N(2), name: "", upaVer: 2 + s.N(3)}
	if b.upd != nil && s.P(12) {
		n.ver = b.upd.ver // some banks do not count
	} else if b.upd != nil && n.ver == b.upd.ver {
		n.ver++
	}
	if s.P(20) {
		n.userID = genID(s, 30)
	}
	if s.N(2) == 1 {
		n.name = genText(s, 30)
	}
	k := s.N(5)
	for i := 0; i < k; i++ {
		a := b.newAcct(i)
		if i > 0 && s.P(8) {
			// the same account in another currency
			o := n.accts[i-1]
			a.id, a.sub, a.country, a.bank, a.userID, a.iban = o.id, o.sub, o.country, o.bank, o.userID, o.iban
			a.cur = currencies[s.N(len(currencies))]
		}
		n.accts = append(n.accts, a)
	}
	if s.P(8) {
		// what the user may do without an account
		a := b.newAcct(k)
		a.noConn, a.id, a.sub, a.country, a.bank, a.iban = true, "", "", 0, "", ""
		if s.P(50) {
			a.cur, a.typ = "", ""
		}
		i := s.N(len(n.accts) + 1)
		n.accts = append(n.accts[:i], append([]acct{a}, n.accts[i:]...)...)
	}
	b.upd = n
}

// genInstitute draws a country and a bank code: mostly the bank's own ones.
func genInstitute(s *stream, code string) (int, string) {
	if !s.P(10) {
		return 280, code
	}
	c := []int{280, 40, 756, 4, 826}[s.N(5)]
	if s.P(50) {
		return c, code
	}
	return c, genID(s, 11)
}

// country is the wire format of a country code.
func country(c int) string { return fmt.Sprintf("%03d", c) }

func (b *bank) newAcct(i int) acct {
	s := b.t.Gen
	a := acct{ver: 4 + s.N(4), id: fmt.Sprintf("%d", 1000+i*37+s.N(30)), bank: b.code, country: 280,
		userID: b.upd2user(), cur: currencies[s.N(2)], typ: fmt.Sprint(1 + s.N(40))}
	a.country, a.bank = genInstitute(s, b.code)
	if s.N(4) == 3 {
		a.id = genID(s, 30)
	}
	if s.N(3) == 2 {
		a.sub = genText(s, 10)
	}
	if s.N(2) == 1 {
		a.iban = "DE" + fmt.Sprintf("%02d%s%010d", 10+s.N(80), b.code, s.N(1000000))
	}
	a.name1 = genText(s, 27)
	if s.N(2) == 1 {
		a.name2 = genText(s, 27)
	}
	if s.N(2) == 1 {
		a.product = genText(s, 30)
	}
	if s.N(3) == 2 {
		a.limit = b.newLimit(a.cur)
	}
	for n := s.N(4); n > 0; n-- {
		t := allowedTx{id: []string{"HKSAL", "HKKAZ", "HKPRO", "HKUEB", "HKTAN"}[s.N(5)], sigs: s.N(3), blank: s.P(20)}
		if s.N(3) == 2 {
			t.limit = b.newLimit(a.cur)
		}
		a.allowed = append(a.allowed, t)
	}
	return a
}

func (b *bank) upd2user() string { return b.userID }

func (b *bank) newLimit(cur string) *limit {
	s := b.t.Gen
	l := &limit{kind: []string{"E", "T", "W", "M", "Z"}[s.N(5)], amt: genMoney(s, cur, false), has: true}
	if l.kind == "Z" || s.P(5) {
		l.days = s.R(1, 999)
	}
	if s.P(10) {
		l.amt, l.has = money{}, false
	}
	return l
}

func (l *limit) wire() string {
	d := ""
	if l.days > 0 {
		d = fmt.Sprint(l.days)
	}
	if !l.has {
		return grp(l.kind, "", "", d)
	}
	return grp(l.kind, l.amt.abs(), l.amt.cur, d)
}

func (l *limit) canon() string {
	if l == nil {
		return "-"
	}
	return fmt.Sprintf("%s/%s/%d", l.kind, l.amt, l.days)
}

func (a acct) canon() string {
	var al []string
	for _, t := range a.allowed {
		al = append(al, fmt.Sprintf("%s*%d(%s)", t.id, t.sigs, t.limit.canon()))
	}
	return fmt.Sprintf("acct %q sub %q bank %d/%s user %q cur %s names %q %q product %q limit %s allowed [%s]",
		a.id, a.sub, a.country, a.bank, a.userID, a.cur, a.name1, a.name2, a.product, a.limit.canon(), strings.Join(al, " "))
}

func (b *bank) addBPD(w *segWriter, ref int, fns []string) {
	p := b.bpd
	s := newSub(p.seed)
	// optional elements at the end may be left out
	trim := func(min int, e []string) []string {
		if s.P(25) {
			for len(e) > min && s.P(70) {
				e = e[:len(e)-1]
			}
		}
		return e
	}
	bank := grp("280", b.code)
	maxSize := strconv.Itoa(p.maxSize)
	if s.P(10) {
		maxSize = ""
	}
	langs := []string{"1", grp("1", "2"), grp("1", "2", "3")}[s.N(3)]
	if p.bpaVer == 3 {
		w.add("HIBPA", 3, ref, trim(6, []string{strconv.Itoa(p.ver), bank, esc(p.name), "1", langs, grp("220", "300"), maxSize, "60", "300"})...)
	} else {
		w.add("HIBPA", 2, ref, trim(6, []string{strconv.Itoa(p.ver), bank, esc(p.name), "1", langs, grp("201", "210", "220"), maxSize})...)
	}
	if s.P(30) {
		b.addKOM(w, s, ref)
	}
	if s.P(20) {
		w.add("HISHV", 2, ref, "N", []string{grp("DDV", "1"), "RDH:1", "DDV:1+RDH:1"}[s.N(3)])
	} else if s.P(20) {
		w.add("HISHV", 3, ref, "J", "RDH:1:2:9", "PIN:1")
	}
	if s.P(20) {
		w.add("HIKPV", 1, ref, []string{"0", grp("1", "2"), "1"}[s.N(3)])
	}
	unknown := func() {
		for s.P(25) {
			b.addUnknown(w, s, ref)
		}
	}
	unknown()
	par := func(ver int, old, new string) []string {
		e := []string{strconv.Itoa(1 + s.N(3)), strconv.Itoa(s.N(4)), strconv.Itoa(s.N(3))}
		x := new
		if ver < 6 && s.P(50) {
			e, x = e[:2], old
		}
		if x != "" {
			e = append(e, x)
		}
		return e
	}
	for _, v := range p.sal {
		w.add("HISALS", v, ref, par(v, "", "")...)
	}
	unknown()
	for _, v := range p.kaz {
		w.add("HIKAZS", v, ref, par(v, "90:J", "90:J:N")...)
	}
	unknown()
	for _, v := range p.pro {
		w.add("HIPROS", v, ref, par(v, "", "")...)
	}
	pins := []string{"5", "20", "6", "VR-NetKey", ""}
	if s.P(30) {
		for i := range pins {
			if s.N(2) == 1 {
				pins[i] = ""
			}
		}
	}
	if s.P(30) {
		pins[3], pins[4] = esc(genText(s, 30)), esc(genText(s, 30))
	}
	for _, x := range []string{"HKSAL:N", "HKKAZ:J", "HKPRO:N", "HKUEB:J", "HKCCS:J"} {
		if s.P(80) {
			pins = append(pins, x)
		}
	}
	if grp(pins...) == "" {
		pins[0] = "5"
	}
	w.add("HIPINS", 1, ref, "1", "1", "0", grp(pins...))
	unknown()
	b.addTANS(w, ref)
	unknown()
}

// newSub makes a stream of its own from a seed.
func newSub(seed uint64) *stream {
	if seed == 0 {
		return &stream{replay: true} // the plainest
	}
	return &stream{rng: newPrng(seed)}
}

// addKOM adds the ways of access to the bank.
func (b *bank) addKOM(w *segWriter, s *stream, ref int) {
	c, id := genInstitute(s, b.code)
	e := []string{grp(country(c), esc(id)), "1"}
	for n := s.R(1, 3); n > 0; n-- {
		k := []string{strconv.Itoa(1 + s.N(3)), esc([]string{"https://fints.example:443/p?x=1", "fints.example", "192.0.2.1"}[s.N(3)])}
		if s.P(40) {
			k = append(k, []string{"", "00"}[s.N(2)])
			if s.P(60) {
				k = append(k, "MIM")
				if s.P(60) {
					k = append(k, "1")
				}
			}
		}
		g := grp(k...)
		if s.P(20) { // elements without a value are there nevertheless
			g += strings.Repeat(":", 5-len(k))
		}
		e = append(e, g)
	}
	w.add("HIKOM", 3, ref, e...)
}

// addUnknown adds a segment the library does not know.
func (b *bank) addUnknown(w *segWriter, s *stream, ref int) {
	id := []string{"HICCSS", "HISPAS", "HIDMES", "HIWPDS", "HICAZS", "HIPAES", "HITABS", "HIXXX", "HIVISS", "HITANS"}[s.N(10)]
	ver := 1 + s.N(7)
	if s.P(20) {
		ver = s.R(8, 130)
	}
	if id == "HITANS" {
		ver = 7
	}
	e := []string{"1", "1", "0"}
	for n := s.N(4); n > 0; n-- {
		switch s.N(5) {
		case 0:
			e = append(e, binary([]byte(iso(genText(s, 30)))))
		case 1:
			e = append(e, grp("J", "N", esc("sepade?:xsd:pain.001.001.03"), "", esc(genText(s, 20))))
		case 2:
			e = append(e, "")
		default:
			e = append(e, esc(genText(s, 40)))
		}
	}
	w.add(id, ver, ref, e...)
}

func (b *bank) addTANS(w *segWriter, ref int) {
	s := newSub(b.bpd.seed)
	e := []string{"J", "N", "0"}
	for _, d := range b.bpd.describes {
		zka, zver := "ZKA", "1.0"
		if s.P(30) {
			zka, zver = "", ""
		}
		media := "1"
		if s.P(30) {
			media = ""
		}
		yn := func() string { return []string{"J", "N"}[s.N(2)] }
		e = append(e, d.fn, strconv.Itoa(1+s.N(2)), "TECH", zka, zver, esc(d.name), "6", strconv.Itoa(1+s.N(2)), esc("TAN+Nr"), []string{"3", "999", "2048"}[s.N(3)], yn(), strconv.Itoa(1+s.N(4)), yn(), strconv.Itoa(s.N(3)), []string{"0", "2"}[s.N(2)], yn(), yn(), []string{"00", "01", "02"}[s.N(3)], strconv.Itoa(s.N(3)), yn(), media)
	}
	if e[len(e)-1] == "" && s.P(50) {
		e = e[:len(e)-1]
	}
	w.add("HITANS", 6, ref, strconv.Itoa(1+s.N(3)), "1", strconv.Itoa(s.N(3)), strings.Join(e, ":"))
}

// addBadUPD adds user parameter data one account of which is unreadable.
func (b *bank) addBadUPD(w *segWriter, ref int) string {
	s := b.t.Gen
	b.badAcct = 1 + s.N(len(b.upd.accts))
	what := b.addUPD(w, ref)
	b.badAcct = 0
	return what
}

func (b *bank) addUPD(w *segWriter, ref int) (bad string) {
	u := b.upd
	switch u.upaVer {
	case 2:
		w.add("HIUPA", 2, ref, esc(u.userID), strconv.Itoa(u.ver), strconv.Itoa(u.usage))
	default:
		w.add("HIUPA", u.upaVer, ref, esc(u.userID), strconv.Itoa(u.ver), strconv.Itoa(u.usage), esc(u.name))
	}
	for i, a := range u.accts {
		conn := grp(esc(a.id), esc(a.sub), country(a.country), esc(a.bank))
		if a.noConn {
			conn = ""
		}
		lim := ""
		if a.limit != nil {
			lim = a.limit.wire()
		}
		var des []string
		switch a.ver {
		case 4:
			des = []string{conn, esc(a.userID), a.cur, esc(a.name1), esc(a.name2), esc(a.product), lim}
		case 5:
			des = []string{conn, esc(a.userID), a.typ, a.cur, esc(a.name1), esc(a.name2), esc(a.product), lim}
		default:
			des = []string{conn, a.iban, esc(a.userID), a.typ, a.cur, esc(a.name1), esc(a.name2), esc(a.product), lim}
		}
		if i+1 == b.badAcct {
			s := b.t.Gen
			switch k := s.N(3); {
			case k == 0:
				des[0] = grp(esc(a.id), esc(a.sub), []string{"X", "28O", "2 80", "DE"}[s.N(4)], a.bank)
			case k == 1 && a.ver >= 5:
				j := a.ver - 3 // the kind of account
				if j > 3 {
					j = 3
				}
				des[j] = []string{"X", "1O", "1 0", "1,5"}[s.N(4)]
			default:
				des[len(des)-1] = grp("E", []string{"X1,00", "1X", "1,2,3", "X"}[s.N(4)], "EUR")
			}
			bad = fmt.Sprintf("account %q", des)
		}
		for _, t := range a.allowed {
			x := grp(t.id, strconv.Itoa(t.sigs))
			if t.limit != nil {
				x += ":" + t.limit.wire()
			} else if t.blank {
				x += "::::"
			}
			des = append(des, x)
		}
		w.add("HIUPD", a.ver, ref, des...)
	}
	return bad
}

// ---------------------------------------------------------------- replies

// replyPlan is a reply before network effects.
type replyPlan struct {
	raw       []byte
	dialogID  string
	isErr     bool
	errAcks   []ackT
	acks      []ackT
	hasBPD    bool
	noFn      bool
	hasUPD    bool
	bpd       *bpd
	upd       *upd
	offer     bool // names permitted security functions and describes them
	descrOnly bool // describes them only
	permOnly  bool // names permitted security functions only
	perm      []string
	descr     []string
	sysID     string // assigned by HISYN
	pg        *page
	badUPD    string // what is unreadable in the user parameter data
	badData   string // what is unreadable in the data delivered
	looped    string // the mark names a reference already used
	tanAsked  bool   // the job is held back until a TAN is given
	loose     bool   // the data are odd, anything may be made of them
	unusable  string // why the operation cannot succeed although nothing was refused
	mayFail   string
}

// handle processes a request and returns the reply, nil when the bank has none.
func (b *bank) handle(r *reqInfo, f *bankFault) *replyPlan {
	p := &replyPlan{}
	s := b.t.Gen
	var body segWriter
	body.pos = 1
	// position of the segments of the request the acknowledgements refer to
	msgAcks := []ackT{{10, "", "Nachricht entgegengenommen.", nil}}
	var segAcks []struct {
		ref int
		a   []ackT
	}
	addSeg := func(ref int, a ...ackT) {
		for i := range segAcks {
			if segAcks[i].ref == ref {
				segAcks[i].a = append(segAcks[i].a, a...)
				return
			}
		}
		segAcks = append(segAcks, struct {
			ref int
			a   []ackT
		}{ref, a})
	}
	data := func(w *segWriter) {}
	anon := strings.HasPrefix(r.kind, "anon")

	var d *bdialog
	refuse := func(code int, text string) {
		a := ackT{code, "", text, nil}
		msgAcks = append([]ackT{{9050, "", "Die Nachricht enthaelt Fehler.", nil}}, a)
		p.isErr = true
		p.errAcks = append(p.errAcks, msgAcks...)
	}
	opener := r.kind == "sync" || r.kind == "init" || r.kind == "anoninit"
	pos := func(s *seg) int {
		if s == nil {
			return 2
		}
		return s.Pos
	}
	if opener {
		if !f.refuse && s.P(b.g.midChange) {
			b.change()
		}
		b.nDialogs++
		id := fmt.Sprintf("D%d", b.nDialogs*7+s.N(5))
		if s.P(30) {
			id = genID(s, 24) + fmt.Sprintf("-%d", b.nDialogs)
		}
		switch k := s.W(10, 2, 1, 1); {
		case k == 1: // as long as it may be
			id = string([]rune(id + "-0123456789abcdefghijklmnopqrst")[:30])
		case k == 2 && b.lastID != "" && len(b.lastID) < 30: // begins like the last one
			id = b.lastID + "1"
		case k == 3 && len([]rune(b.lastID)) > 2: // the last one begins with it
			l := []rune(b.lastID)
			id = string(l[:len(l)-1])
		}
		for b.dialogs[id] != nil || id == "0" {
			id = fmt.Sprintf("D-%d", b.nDialogs*1000+len(b.dialogs))
			b.nDialogs++
		}
		b.lastID = id
		d = &bdialog{id: id, last: r.no, anon: anon}
		b.dialogs[id] = d
		p.dialogID = id
		if f.refuse {
			d.refused = true
		}
	} else {
		d = b.dialogs[r.dialogID]
		p.dialogID = r.dialogID
		if d == nil || d.ended || d.refused {
			// the strict bank refuses messages in dialogs that are not open
			refuse(9800, "Dialog abgebrochen")
		} else {
			d.last = r.no
		}
	}

	if f.refuse && !p.isErr {
		p.isErr = true
		codes := []int{9010, 9050, 9110, 9210, 9340, 9800, 9930, 9942, 9999, 9000}
		mk := func() ackT {
			return ackT{codes[s.N(len(codes))], "", genText(s, 80), nil}
		}
		ref := pos(r.job)
		if opener {
			ref = pos(r.idn)
		}
		if r.end != nil {
			ref = r.end.Pos
		}
		where := s.W(3, 2, 2)
		if where != 1 { // message level
			a := mk()
			if s.N(2) == 1 {
				msgAcks = []ackT{a}
			} else {
				msgAcks = append(msgAcks, a)
			}
			p.errAcks = append(p.errAcks, a)
		}
		if where != 0 { // segment level
			a := mk()
			switch s.N(5) {
			case 4: // the last of several
				for n := s.R(1, 5); n > 0; n-- {
					addSeg(ref, ackT{[]int{20, 10, 3060, 3010, 3910}[s.N(5)], "", genText(s, 20), nil})
				}
				addSeg(ref, a)
			case 1:
				addSeg(ref, ackT{20, "", "ok", nil}, a)
			case 2: // another segment is acknowledged first
				addSeg(-1, ackT{[]int{20, 3060, 3920}[s.N(3)], "", "ok", nil})
				segAcks[len(segAcks)-1].ref = []int{2, 3, 4}[s.N(3)]
				segAcks = append(segAcks, struct {
					ref int
					a   []ackT
				}{ref, []ackT{a}})
				if s.N(2) == 1 && where == 1 {
					msgAcks = []ackT{{3060, "", "Bitte beachten Sie die enthaltenen Warnungen", nil}}
				}
			case 3: // the job and what follows
				addSeg(ref, a)
				segAcks = append(segAcks, struct {
					ref int
					a   []ackT
				}{ref + 1, []ackT{{[]int{20, 3010, 100}[s.N(3)], "", "", nil}}})
			default:
				addSeg(ref, a)
			}
			p.errAcks = append(p.errAcks, a)
			if s.P(15) { // for many reasons
				for n := s.R(1, 6); n > 0; n-- {
					a := mk()
					addSeg(ref, a)
					p.errAcks = append(p.errAcks, a)
				}
			}
		}
		if r.end == nil && d != nil && !opener && s.P(30) {
			d.ended = true // some banks also end the dialog then
		}
	}

	if !p.isErr {
		switch r.kind {
		case "sync", "init", "anoninit":
			annBPD, annUPD := r.vvb.deInt(0, 0), r.vvb.deInt(1, 0)
			addSeg(pos(r.vvb), ackT{20, "", "Dialoginitialisierung erfolgreich", nil})
			sendBPD := annBPD != b.bpd.ver || s.P(15)
			sendUPD := !anon && (annUPD != b.upd.ver || s.P(15))
			if f.noData {
				sendBPD, sendUPD = false, false
			}
			perm := b.perm
			if f.noFn && !anon {
				sendBPD, p.noFn = true, true
				perm = [][]string{{"987"}, {"998", "987"}}[s.N(2)]
			}
			badUPD := f.badUPD && r.kind == "init" && !sendBPD && len(b.upd.accts) > 0
			offer := !anon && (r.kind == "sync" || sendBPD || s.P(70))
			if f.noData || badUPD {
				offer = false
			}
			if p.noFn {
				offer = true
			}
			if badUPD {
				sendUPD = true
			}
			permOnly := false
			descrOnly := sendBPD && r.kind != "sync" && !anon && s.P(10) && !p.noFn
			if descrOnly {
				// the description without naming the permitted functions
				offer = false
			} else if offer {
				addSeg(pos(r.vvb), ackT{3920, "", "Zugelassene Zwei-Schritt-Verfahren", append([]string{}, perm...)})
			} else if !anon && !badUPD && s.P(40) {
				// only the permitted functions, the description is as before
				permOnly = true
				addSeg(pos(r.vvb), ackT{3920, "", "Zugelassen", append([]string{}, b.perm...)})
			}
			if r.kind == "sync" && !f.noSyn {
				id := fmt.Sprintf("SYS%d", s.N(100000))
				if s.P(40) {
					id = genID(s, 30)
				}
				b.sysIDs = append(b.sysIDs, id)
				p.sysID = id
			}
			announce := s.P(b.g.announce)
			guest := 0 // parameter data of the anonymous customer
			if anon {
				guest = s.W(6, 1, 1)
			}
			p.hasBPD, p.hasUPD, p.offer, p.permOnly, p.descrOnly = sendBPD, sendUPD, offer, permOnly, descrOnly || anon && sendBPD
			p.bpd, p.upd = b.bpd, b.upd
			p.perm = perm
			for _, x := range b.bpd.describes {
				p.descr = append(p.descr, x.fn)
			}
			annText := [2]string{genText(s, 35), genText(s, 200)}
			synFirst := s.N(2) == 1
			emptySyn := 0
			if f.noSyn {
				emptySyn = []int{0, 1, 3}[s.N(3)]
			}
			data = func(w *segWriter) {
				syn := func() {
					v := 3
					if b.hbci >= 300 {
						v = 4
					}
					if p.sysID == "" {
						if emptySyn > 0 {
							w.add("HISYN", v, pos(r.syn), []string{"", "", "0"}[:emptySyn]...)
						}
						return
					}
					w.add("HISYN", v, pos(r.syn), [][]string{{esc(p.sysID)}, {esc(p.sysID), "0"}, {esc(p.sysID), "0", "0"}, {esc(p.sysID), "", "0"}}[s.N(4)]...)
				}
				if synFirst {
					syn()
				}
				if sendBPD {
					b.addBPD(w, pos(r.vvb), nil)
				} else if offer {
					b.addTANS(w, pos(r.vvb))
				}
				if badUPD {
					p.badUPD = b.addBadUPD(w, pos(r.vvb))
				} else if sendUPD {
					b.addUPD(w, pos(r.vvb))
				}
				if guest > 0 {
					w.add("HIUPA", 4, pos(r.vvb), "9999999999", strconv.Itoa(guest+b.upd.ver), "0")
				}
				if guest == 2 {
					w.add("HIUPD", 6, pos(r.vvb), "", "", "9999999999", "", "EUR", "Gast")
				}
				if announce {
					w.add("HIKIM", 2, 0, esc(annText[0]), esc(annText[1]))
				}
				if !synFirst {
					syn()
				}
			}
		case "end", "anonend":
			addSeg(pos(r.end), ackT{100, "", "Dialog beendet", nil})
			d.ended = true
		case "job":
			b.jobReply(r, f, p, addSeg, &data)
		case "anonjob":
			addSeg(pos(r.job), ackT{20, "", "ok", nil})
			data = func(w *segWriter) { b.addKOM(w, s, pos(r.job)) }
		}
	}
	// the bank's answer to the two-step request
	if r.tan != nil && !p.isErr && s.P(60) {
		d0 := data
		x := []string{r.tan.de(0, 0), "", "noref", "nochallenge"}
		if p.tanAsked || s.P(25) {
			x[2], x[3] = esc(genID(s, 35)), esc(genText(s, 200))
			if s.P(40) {
				x = append(x, binary([]byte(iso(genText(s, 60)))))
				if s.P(50) {
					x = append(x, grp("20310101", "120000"), esc(genText(s, 30)))
				}
			}
		} else if s.P(30) {
			x = x[:3]
		}
		before := s.N(2) == 1
		data = func(w *segWriter) {
			if !before {
				d0(w)
			}
			w.add("HITAN", 6, r.tan.Pos, x...)
			if before {
				d0(w)
			}
		}
		if !p.tanAsked && s.P(40) {
			addSeg(r.tan.Pos, ackT{3076, "", "Starke Kundenauthentifizierung nicht notwendig.", nil})
		}
	}
	// segments which the library does not know
	if s.P(8) {
		d0, x := data, newSub(uint64(s.N(1<<20)))
		data = func(w *segWriter) {
			d0(w)
			b.addUnknown(w, x, 0)
		}
	}
	// harmless extra acknowledgements
	if s.P(b.g.warn) {
		w := ackT{[]int{3060, 3050, 3010, 3076, 3072, 3938, 1040, 20, 3999, 3000}[s.N(10)], "", genText(s, 80), nil}
		if w.code == 3050 {
			w.params = []string{genText(s, 20)}
		}
		if s.N(2) == 0 {
			msgAcks = append(msgAcks, w)
		} else {
			addSeg(3, w)
		}
	}
	// message
	var aw []string
	for _, a := range msgAcks {
		aw = append(aw, a.wire())
		p.acks = append(p.acks, a)
	}
	enc := r.encrypted
	if p.isErr && s.P(30) {
		enc = false // an error before decryption comes back in the clear
	}
	signed := enc && s.P(b.g.signed)
	if signed {
		sid := []string{"1::" + esc(r.sysIDs["HNSHK"]), "1::0", "2::" + esc(r.sysIDs["HNSHK"])}[s.W(4, 1, 1)]
		when := []string{"1:20200101:120000", "1:20200101", "1", "6:20200101:120000"}[s.W(4, 1, 1, 1)]
		if r.shk.Ver >= 4 {
			body.add("HNSHK", 4, 0, "PIN:1", "999", "4711", "1", "1", sid, "1", when, "1:999:1", "6:10:16", "280:"+b.code+":"+esc(b.userID)+":S:0:0")
		} else {
			body.add("HNSHK", 3, 0, "999", "4711", "1", "1", sid, "1", when, "1:999:1", "6:10:16", "280:"+b.code+":"+esc(b.userID)+":S:0:0")
		}
	}
	body.add("HIRMG", 2, 0, aw...)
	for _, sa := range segAcks {
		var x []string
		for _, a := range sa.a {
			x = append(x, a.wire())
			p.acks = append(p.acks, a)
		}
		body.add("HIRMS", 2, sa.ref, x...)
	}
	data(&body)
	if signed {
		v := 1
		if r.shk.Ver >= 4 {
			v = 2
		}
		body.add("HNSHA", v, 0, "4711")
	}
	p.raw = b.envelope(r, p.dialogID, &body, enc)
	return p
}

// envelope wraps the segments of a reply.
func (b *bank) envelope(r *reqInfo, dialogID string, body *segWriter, enc bool) []byte {
	inner := body.buf.Bytes()
	last := body.pos
	var mid bytes.Buffer
	if enc {
		sys := r.sysIDs["HNVSK"]
		if r.vsk.Ver >= 3 {
			fmt.Fprintf(&mid, "HNVSK:998:3+PIN:1+998+1+1::%s+1:20200101:120000+2:2:13:@8@\x00\x00\x00\x00\x00\x00\x00\x00:5:1+280:%s:%s:V:0:0+0'", esc(sys), b.code, esc(b.userID))
		} else {
			fmt.Fprintf(&mid, "HNVSK:998:2+998+1+1::%s+1:20200101:120000+2:2:13:@8@\x00\x00\x00\x00\x00\x00\x00\x00:5:1+280:%s:%s:V:0:0+0'", esc(sys), b.code, esc(b.userID))
		}
		fmt.Fprintf(&mid, "HNVSD:999:1+%s'", binary(inner))
	} else {
		mid.Write(inner)
	}
	tail := fmt.Sprintf("HNHBS:%d:1+%d'", last+1, r.no)
	head := func(n int) string {
		return fmt.Sprintf("HNHBK:1:3+%012d+%d+%s+%d+%s'", n, b.hbci, esc(dialogID), r.no, grp(esc(dialogID), strconv.Itoa(r.no)))
	}
	n := len(head(0)) + mid.Len() + len(tail)
	return append(append([]byte(head(n)), mid.Bytes()...), tail...)
}

// jobBase is the job segment with the continuation reference removed.
func jobBase(j *seg) (base string, ref string) {
	i := -1
	switch j.ID {
	case "HKKAZ":
		i = 5
	case "HKSAL":
		i = 3
	case "HKPRO", "HKKIF":
		i = 3
	}
	var parts []string
	for k, d := range j.DEs {
		if k == i {
			ref = j.de(k, 0)
			continue
		}
		var e []string
		for _, x := range d {
			e = append(e, esc(x.S()))
		}
		for len(e) > 0 && e[len(e)-1] == "" {
			e = e[:len(e)-1]
		}
		parts = append(parts, strings.Join(e, ":"))
	}
	for len(parts) > 0 && parts[len(parts)-1] == "" {
		parts = parts[:len(parts)-1]
	}
	return strings.Join(append([]string{fmt.Sprintf("%s:%d", j.ID, j.Ver)}, parts...), "+"), ref
}

func (b *bank) jobReply(r *reqInfo, f *bankFault, p *replyPlan, addSeg func(int, ...ackT), data *func(*segWriter)) {
	s := b.t.Gen
	j := r.job
	if f.askTAN && r.tan != nil {
		p.tanAsked = true
		if s.N(2) == 1 {
			addSeg(j.Pos, ackT{10, "", "Auftrag entgegengenommen", nil})
		}
		addSeg(r.tan.Pos, ackT{30, "", "Auftrag empfangen - Sicherheitsfreigabe erforderlich", nil})
		if s.N(2) == 1 {
			addSeg(r.tan.Pos, ackT{3955, "", "Sicherheitsfreigabe erfolgt ueber anderen Kanal", nil})
		}
		return
	}
	switch j.ID {
	case "HKKAZ", "HKSAL", "HKPRO", "HKKIF":
		base, ref := jobBase(j)
		var q *query
		i := 0
		if ref != "" {
			if x := b.refs[ref]; x != nil {
				q = x
				for k, pg := range q.pages {
					if pg.ref == ref {
						i = k + 1
					}
				}
			}
		}
		if q == nil {
			q = b.newQuery(j, base)
			i = 0
		}
		pg := q.pages[i]
		if f.loopRef {
			var used []string
			if ref != "" {
				used = append(used, ref)
			}
			for k := 0; k < i; k++ {
				used = append(used, q.pages[k].ref)
			}
			if len(used) > 0 {
				x := *pg
				x.ref = used[s.N(len(used))]
				pg = &x
				p.looped = "the reference repeats"
			}
		}
		p.pg = pg
		if pg.ref != "" {
			a := ackT{3040, "", "Es liegen weitere Informationen vor", []string{pg.ref}}
			if s.P(4) { // the reference is the first parameter
				a.params = append(a.params, []string{"1", pg.ref + "x", "HKKAZ"}[s.N(3)])
			}
			if s.P(25) {
				a.text = genText(s, 60)
			}
			if s.P(20) {
				addSeg(j.Pos, ackT{20, "", "ok", nil}, a)
			} else {
				addSeg(j.Pos, a)
			}
		} else if len(pg.rows) == 0 {
			addSeg(j.Pos, ackT{3010, "", "Keine Daten vorhanden", nil})
		} else {
			addSeg(j.Pos, ackT{20, "", "Auftrag ausgefuehrt", nil})
		}
		if f.noPayload {
			p.pg = &page{q: q, i: pg.i, ref: pg.ref}
			p.mayFail = "reply without data"
			if j.ID == "HKKIF" {
				p.unusable = "no HIKIF"
			}
			return
		}
		if j.ID == "HKSAL" && len(pg.rows) == 0 {
			p.mayFail = "page without balances"
		}
		if j.ID == "HKKIF" && len(pg.rows) == 0 {
			p.unusable = "no HIKIF"
		}
		if f.badData {
			x := *pg
			if x.badSegs != nil {
				what, must, segs := x.badSegs()
				if what != "" {
					x.segs = segs
					x.rows, x.stmts, x.raw = nil, nil, nil
					pg = &x
					p.pg = pg
					if must {
						p.badData = "unreadable data: " + what
					} else {
						p.mayFail = "odd data: " + what
						p.loose = true
					}
				}
			}
		}
		*data = func(w *segWriter) { pg.segs(w, j.Pos) }
	default:
		addSeg(j.Pos, ackT{20, "", "ok", nil})
	}
}

// newQuery generates the result of a job and its split into pages.
func (b *bank) newQuery(j *seg, base string) *query {
	s := b.t.Gen
	q := &query{job: j.ID, ver: j.Ver, base: base}
	n := 1 + s.W(5, 3, 2, 1)
	if b.g.manyPages > 0 && s.P(b.g.manyPages) {
		n = s.R(5, 12)
		if s.P(20) {
			n = s.R(13, 40)
		}
	}
	// references are only distinct within one result
	var earlier, mine []string
	if s.P(25) {
		earlier = b.given
	}
	for i := 0; i < n; i++ {
		pg := &page{q: q, i: i}
		if i < n-1 && i < len(earlier) && !b.used[earlier[i]] {
			pg.ref = earlier[i]
			b.refs[pg.ref] = q
			mine = append(mine, pg.ref)
		} else if i < n-1 {
			b.refN++
			for {
				pg.ref = genRef(s)
				if b.refs[pg.ref] == nil && !b.used[pg.ref] {
					break
				}
				if s.replay && s.pos >= len(s.vals) {
					pg.ref = fmt.Sprintf("REF-%d", b.refN)
					break
				}
			}
			b.refs[pg.ref] = q
			mine = append(mine, pg.ref)
		}
		q.pages = append(q.pages, pg)
	}
	if len(mine) > 0 {
		b.given = mine
	}
	switch j.ID {
	case "HKKAZ":
		b.genTransactions(q)
	case "HKSAL":
		b.genBalances(q)
	case "HKPRO":
		b.genStatus(q)
	case "HKKIF":
		b.genInfo(q)
	}
	return q
}

// bulk decides whether a page is far larger than usual, often more than the
// 64 KiB which a single read or buffer might hold.
func (b *bank) bulk(s *stream) bool {
	n := 600
	if b.g.bulk > 0 {
		n = b.g.bulk
	}
	return s.N(n) == n-1
}

// emit makes a page of entries, one per segment.
func (pg *page) emit(s *stream, out [][]string, damage func(*stream, []string) ([]string, string), add func(*segWriter, int, []string)) {
	write := func(w *segWriter, ref int, out [][]string) {
		for _, d := range out {
			add(w, ref, d)
		}
	}
	pg.segs = func(w *segWriter, ref int) { write(w, ref, out) }
	pg.badSegs = func() (string, bool, func(*segWriter, int)) {
		if len(out) == 0 {
			return "", false, nil
		}
		i := s.N(len(out))
		d, what := damage(s, out[i])
		bad := append([][]string{}, out...)
		bad[i] = d
		return what, true, func(w *segWriter, ref int) { write(w, ref, bad) }
	}
}

func (b *bank) genBalances(q *query) {
	s := b.t.Gen
	sepa := q.ver >= 7
	for _, pg := range q.pages {
		k := s.W(1, 4, 2, 1)
		if len(q.pages) == 1 && k == 0 {
			k = 1
		}
		if b.bulk(s) {
			k = s.R(200, 700)
		}
		var out [][]string
		for ; k > 0; k-- {
			des, row := b.genBalance(s, q.ver, sepa)
			out = append(out, des)
			pg.rows = append(pg.rows, row)
			if s.P(4) { // the same once more
				out = append(out, des)
				pg.rows = append(pg.rows, row)
			}
		}
		pg.emit(s, out, damageBalance, func(w *segWriter, ref int, d []string) { w.add("HISAL", q.ver, ref, d...) })
	}
}

func (b *bank) genBalance(s *stream, ver int, sepa bool) ([]string, string) {
	id := fmt.Sprint(1000 + s.N(100))
	if s.N(4) == 3 {
		id = genID(s, 30)
	}
	sub := ""
	if s.N(3) == 2 {
		sub = genText(s, 10)
	}
	cur := currencies[s.N(len(currencies))]
	prod := genText(s, 30)
	iban, bic := "", ""
	noBank := false
	ctry, bk := genInstitute(s, b.code)
	var acc string
	if sepa {
		iban = fmt.Sprintf("DE%02d%s%010d", 10+s.N(80), b.code, s.N(1000000))
		bic = "GENODE" + string(rune('A'+s.N(26))) + "1XXX"
		if s.N(4) == 3 {
			// account only by its international names
			id, sub, noBank = "", "", true
			if s.P(20) {
				bic = ""
			}
			acc = grp(iban, bic)
		} else if s.P(15) {
			noBank = true
			acc = grp(iban, bic, esc(id), esc(sub))
		} else {
			acc = grp(iban, bic, esc(id), esc(sub), country(ctry), esc(bk))
		}
	} else {
		acc = grp(esc(id), esc(sub), country(ctry), esc(bk))
	}
	type bal struct {
		m money
		d day
		t *tm
	}
	mkBal := func() bal {
		x := bal{genMoney(s, cur, s.N(2) == 1), genDay(s), nil}
		if s.N(2) == 1 {
			t := genTime(s)
			x.t = &t
		}
		return x
	}
	balWire := func(x bal) string {
		t := ""
		if x.t != nil {
			t = x.t.wire()
		}
		return grp(x.m.cd(), x.m.abs(), x.m.cur, x.d.long(), t)
	}
	balCanon := func(x *bal) string {
		if x == nil {
			return "-"
		}
		t := "-"
		if x.t != nil {
			t = x.t.String()
		}
		return fmt.Sprintf("%s at %s %s", x.m, x.d, t)
	}
	booked := mkBal()
	var ear *bal
	opt := func() bool { return s.N(2) == 1 }
	w := []string{acc, esc(prod), cur, balWire(booked)}
	e := ""
	if opt() {
		x := mkBal()
		ear = &x
		e = balWire(x)
	}
	w = append(w, e)
	am := func() (string, string) {
		if !opt() {
			return "", "-"
		}
		m := genMoney(s, cur, false)
		return grp(m.abs(), m.cur), m.String()
	}
	var lines [3]string
	for i := range lines {
		var x string
		x, lines[i] = am()
		w = append(w, x)
	}
	bd := "-"
	if opt() {
		d := genDay(s)
		w = append(w, d.long())
		bd = d.String() + " 00:00:00"
		if opt() {
			t := genTime(s)
			w = append(w, t.wire())
			bd = d.String() + " " + t.String()
		} else {
			w = append(w, "")
		}
	} else {
		w = append(w, "", "")
	}
	due := "-"
	if opt() {
		d := genDay(s)
		w = append(w, d.long())
		due = d.String() + " 00:00:00"
	} else {
		w = append(w, "")
	}
	seiz := "-"
	if ver >= 8 {
		var x string
		x, seiz = am()
		w = append(w, x)
	}
	if noBank {
		ctry, bk = 0, ""
	}
	var acct string
	if sepa {
		acct = fmt.Sprintf("iban %q bic %q id %q sub %q bank %d/%s", iban, bic, id, sub, ctry, bk)
	} else {
		acct = fmt.Sprintf("id %q sub %q bank %d/%s", id, sub, ctry, bk)
	}
	row := fmt.Sprintf("bal %s product %q cur %s booked %s earmarked %s credit %s avail %s used %s booking %s due %s", acct, prod, cur,
		balCanon(&booked), balCanon(ear), lines[0], lines[1], lines[2], bd, due)
	if sepa {
		row += " seizable " + seiz
	}
	return w, row
}

// genInfo makes the account information, which the library only passes on.
func (b *bank) genInfo(q *query) {
	s := b.t.Gen
	for _, pg := range q.pages {
		k := s.W(1, 6, 3, 1)
		if len(q.pages) == 1 && k == 0 && s.N(4) > 0 {
			k = 1
		}
		if b.bulk(s) {
			k = s.R(200, 700)
		}
		var out [][]string
		for ; k > 0; k-- {
			opt := func(x string) string {
				if s.N(3) == 0 {
					return ""
				}
				return x
			}
			acc := func() string {
				ctry, bk := genInstitute(s, b.code)
				sub := ""
				if s.N(3) == 2 {
					sub = genText(s, 10)
				}
				return grp(esc(genID(s, 30)), esc(sub), country(ctry), esc(bk))
			}
			val := func() string { return genMoney(s, "EUR", false).abs() }
			cur := currencies[s.N(len(currencies))]
			d := []string{acc(), fmt.Sprint(s.N(100)), esc(genText(s, 27)), esc(opt(genText(s, 27))), esc(opt(genText(s, 30))), cur,
				opt(genDay(s).long()), opt(val()), opt(val()), opt(val()), opt(grp(genMoney(s, cur, false).abs(), cur)), opt(acc()),
				opt(fmt.Sprint(s.N(4))), opt(fmt.Sprint(s.N(8))), opt(esc(genText(s, 100)))}
			if s.N(3) == 0 { // persons entitled to dispose
				for n := 1 + s.N(9); n > 0; n-- {
					d = append(d, grp(esc(genText(s, 27)), esc(opt(genText(s, 27)))))
				}
			}
			if s.N(3) == 0 {
				d = d[:3+s.N(len(d)-3)]
			}
			for len(d) > 0 && d[len(d)-1] == "" {
				d = d[:len(d)-1]
			}
			for n := 1 + s.W(20, 1); n > 0; n-- {
				out = append(out, d)
				pg.rows = append(pg.rows, "+"+strings.Join(d, "+"))
			}
		}
		pg.emit(s, out, func(s *stream, d []string) ([]string, string) { return d, "" }, func(w *segWriter, ref int, d []string) { w.add("HIKIF", 1, ref, d...) })
	}
}

func (b *bank) genStatus(q *query) {
	s := b.t.Gen
	for _, pg := range q.pages {
		k := s.W(1, 3, 2, 2, 1)
		if len(q.pages) == 1 && k == 0 && s.N(2) == 0 {
			k = 1
		}
		if b.bulk(s) {
			k = s.R(200, 900)
		}
		var out [][]string
		for ; k > 0; k-- {
			var des []string
			d, t := genDay(s), genTime(s)
			a := ackT{[]int{20, 10, 3060, 9010, 9210, 3040, 100}[s.N(7)], "", genText(s, 60), nil}
			if s.N(3) == 2 {
				a.ref = fmt.Sprintf("%d%s%d", 1+s.N(5), []string{",", ",", ":", "+"}[s.N(4)], 1+s.N(3))
			}
			for n := s.W(3, 1, 1); n > 0; n-- {
				a.params = append(a.params, genText(s, 30))
			}
			refS := "-"
			if s.N(4) == 3 {
				des = []string{"", "", d.long(), t.wire(), a.wire()}
				refS = "none"
			} else {
				dlg, no, sg := genID(s, 24), 1+s.N(9), 1+s.N(8)
				segNo := fmt.Sprint(sg)
				if s.N(5) == 4 {
					segNo = ""
					sg = 0
				}
				des = []string{grp(esc(dlg), fmt.Sprint(no)), segNo, d.long(), t.wire(), a.wire()}
				refS = fmt.Sprintf("%q/%d seg %d", dlg, no, sg)
			}
			out = append(out, des)
			if s.P(5) { // the same once more
				out = append(out, des)
				pg.rows = append(pg.rows, "")
			}
			pg.rows = append(pg.rows, fmt.Sprintf("status %s at %s %s code %d de %q text %q params %q", refS, d, t, a.code, a.ref, a.text, a.params))
			if n := len(pg.rows); n > 1 && pg.rows[n-2] == "" {
				pg.rows[n-2] = pg.rows[n-1]
			}
		}
		v := q.ver
		if v != 3 && v != 4 {
			v = 4
		}
		pg.emit(s, out, damageStatus, func(w *segWriter, ref int, d []string) { w.add("HIPRO", v, ref, d...) })
	}
}

// ---------------------------------------------------------------- transactions

func swiftText(s *stream, max int) string {
	var t string
	switch s.W(4, 2, 2, 1) {
	case 0:
		t = plainWords[s.N(len(plainWords))]
	case 1:
		t = mix(s, "SVWZ+EREF ", "/:'+.,-()", s.R(1, 27))
	case 2:
		t = mix(s, "Gehalt ", umlauts, s.R(1, 20))
	default:
		t = mix(s, "abc@#", "0123456789:'+", s.R(1, 27))
	}
	r := []rune(t)
	if len(r) > max {
		r = r[:max]
	}
	t = string(r)
	if t == "" {
		t = "x"
	}
	return t
}

func (b *bank) genTransactions(q *query) {
	s := b.t.Gen
	for _, pg := range q.pages {
		pg := pg
		// how the page delivers its statements: a list of HIKAZ segments
		type kaz struct{ booked, unbooked []byte }
		var segs []kaz
		nSeg := 1
		switch s.W(7, 1, 2) {
		case 1:
			nSeg = 0
		case 2:
			nSeg = 2
			if s.P(10) {
				nSeg = s.R(3, 15)
			}
		}
		for i := 0; i < nSeg; i++ {
			var k kaz
			nStmt := s.W(0, 5, 2, 1)
			if s.P(b.g.emptyKaz) {
				nStmt = 0
			}
			if b.bulk(s) {
				nStmt = s.R(40, 250)
			}
			for ; nStmt > 0; nStmt-- {
				st, rows, all := b.genStatement(s)
				k.booked = append(k.booked, st...)
				pg.rows = append(pg.rows, rows...)
				pg.stmts = append(pg.stmts, all)
				pg.raw = append(pg.raw, st...)
			}
			if s.P(25) {
				st, _, _ := b.genStatement(s)
				k.unbooked = st
			}
			segs = append(segs, k)
		}
		write := func(w *segWriter, ref int, segs []kaz) {
			for _, k := range segs {
				var des []string
				if k.booked != nil {
					des = append(des, binary(k.booked))
				} else {
					des = append(des, "")
				}
				if k.unbooked != nil {
					des = append(des, binary(k.unbooked))
				}
				w.add("HIKAZ", q.ver, ref, des...)
			}
		}
		pg.segs = func(w *segWriter, ref int) { write(w, ref, segs) }
		pg.badSegs = func() (string, bool, func(*segWriter, int)) {
			var with []int
			for i, k := range segs {
				if len(k.booked) > 0 {
					with = append(with, i)
				}
			}
			if len(with) == 0 {
				return "", false, nil
			}
			i := s.N(len(with))
			out, what, must := damageMT940(s, segs[with[i]].booked, i == len(with)-1 && pg.ref == "")
			bad := append([]kaz{}, segs...)
			bad[with[i]].booked = out
			return what, must, func(w *segWriter, ref int) { write(w, ref, bad) }
		}
	}
}

// genStatement returns a statement as sent, its bookings as the client reports
// them, and all of its fields.
func (b *bank) genStatement(s *stream) ([]byte, []string, string) {
	var o bytes.Buffer
	var rows []string
	var all strings.Builder
	note := func(f string, a ...interface{}) { fmt.Fprintf(&all, f+"; ", a...) }
	cur := currencies[s.W(6, 1, 1, 1)]
	acc := fmt.Sprint(1000 + s.N(50))
	line := func(f string, a ...interface{}) { o.WriteString("\r\n" + fmt.Sprintf(f, a...)) }
	jobRef := "STARTUMS"
	if s.N(4) == 3 {
		jobRef = swiftRef(s, 16)
	}
	line(":20:%s", jobRef)
	note("job %q", jobRef)
	if s.N(3) == 2 {
		r := "NONREF"
		if s.N(2) == 1 {
			r = swiftRef(s, 16)
		}
		line(":21:%s", r)
		note("reference %q", r)
	}
	line(":25:%s/%s", b.code, acc)
	note("account %q %q", b.code, acc)
	switch s.N(3) {
	case 0:
		k, l := s.N(400), 1+s.N(9)
		line(":28C:%d/%d", k, l)
		note("number %d/%d", k, l)
	case 1:
		k := s.N(400)
		line(":28C:%d", k)
		note("number %d/0", k)
	default:
		line(":28C:0")
		note("number 0/0")
	}
	d0 := genDay(s)
	start := genMoney(s, cur, s.N(3) == 2)
	f := []string{"F", "M"}[s.W(4, 1)]
	line(":60%s:%s%s%s%s", f, start.cd(), d0.short(), cur, start.abs())
	note("start %s at %s", start, d0)
	n := s.W(1, 4, 3, 2, 1)
	type txr struct{ f func(after string) string }
	var txs []txr
	d := d0
	at, noteAt := 0, 0
	for i := 0; i < n; i++ {
		if i > 0 && s.P(8) {
			// the same once more
			x, y := o.String()[at:], all.String()[noteAt:]
			o.WriteString(x)
			all.WriteString(y)
			at, noteAt = o.Len()-len(x), all.Len()-len(y)
			txs = append(txs, txs[len(txs)-1])
			continue
		}
		at, noteAt = o.Len(), all.Len()
		val := d.plus(s.N(3))
		neg := s.N(2) == 1
		rev := s.P(12)
		m := genMoney(s, cur, neg)
		ind := m.cd()
		if rev {
			// reversal of a debit is a credit and the other way round
			ind = "R" + map[string]string{"C": "D", "D": "C"}[ind]
		}
		book := "-"
		bw := ""
		if s.N(3) != 0 {
			bd := val.plus(s.R(0, 10) - 5)
			if s.P(10) {
				bd = val.plus(s.R(0, 300) - 150)
			}
			bw = bd.mmdd()
			book = bd.String() + " 00:00:00"
		}
		curLetter := ""
		if s.N(3) == 2 {
			curLetter = cur[2:3]
		}
		vw, vc := val.short(), val.String()
		if s.P(3) {
			// the 30th of February, as some banks write it for interest
			val = day{val.y, 2, 28}
			feb := "0230"
			if s.P(50) && !(val.y%4 == 0) {
				feb = "0229"
			}
			if s.P(70) {
				vw = fmt.Sprintf("%02d%s", val.y%100, feb)
				bw, book = "", "-"
				vc = fmt.Sprintf("feb30/%d", val.y)
			} else {
				vw, vc = val.short(), val.String()
				bw, book = feb, fmt.Sprintf("feb30/%d 00:00:00", val.y)
			}
		}
		key := []string{"TRF", "MSC", "DDT", "CHK"}[s.N(4)]
		ref, bankRef, info := "NONREF", "", ""
		switch s.W(4, 1, 1, 1, 1, 1, 1) {
		case 1:
			ref = "KREF+"
		case 2:
			bankRef = "POS 4"
		case 3:
			ref, bankRef, info = "1234567", "XX", "OCMT/EUR12,/"
		case 4:
			ref, info = "REF.A/1", "INFO"
		case 5:
			bankRef = "N12" // an N behind the booking key
		case 6:
			ref = swiftRef(s, 16)
			if s.N(2) == 1 {
				bankRef = []string{"", "a//"}[s.N(2)] + swiftRef(s, 12)
				if s.N(2) == 1 {
					info = []string{"", "b//c/"}[s.N(2)] + swiftRef(s, 20)
				}
			} else if s.N(2) == 1 {
				info = swiftRef(s, 20)
			}
		}
		refs := ref
		if bankRef != "" {
			refs += "//" + bankRef
		}
		if info != "" {
			refs += "\r\n/" + info
		}
		line(":61:%s%s%s%s%sN%s%s", vw, bw, ind, curLetter, m.abs(), key, refs)
		note("booking %s %s %s%q %s %s ref %q bank %q info %q", vc, book, ind, curLetter, strings.TrimPrefix(strings.TrimSuffix(m.String(), " "+cur), "-"), key, ref, bankRef, info)
		gvc, text, bid, aid, name, purp, purp2 := 0, "", "", "", "", "", ""
		if s.N(8) != 7 {
			gvc = []int{5, 20, 51, 166, 117, 8, 999, 1}[s.N(8)]
			var c strings.Builder
			c.WriteString(fmt.Sprintf("%03d", gvc))
			field := func(k string, v string) {
				c.WriteString("?" + k + iso(v))
			}
			if s.N(4) != 3 {
				text = swiftText(s, 27)
				field("00", text)
			}
			if s.N(2) == 1 {
				field("10", fmt.Sprint(s.N(9999)))
			}
			var ps []string
			for k, n := 0, s.W(1, 4, 2, 1, 1); k < n; k++ {
				v := swiftText(s, 27)
				field(fmt.Sprintf("2%d", k), v)
				ps = append(ps, v)
			}
			if s.P(5) && len(ps) > 0 { // all ten lines
				for k := len(ps); k < 10; k++ {
					field(fmt.Sprintf("2%d", k), "Z"+fmt.Sprint(k))
					ps = append(ps, "Z"+fmt.Sprint(k))
				}
			}
			purp = strings.Join(ps, " ")
			if s.N(3) != 2 {
				bid = fmt.Sprintf("%08d", s.N(99999999))
				field("30", bid)
			}
			if s.N(3) != 2 {
				aid = fmt.Sprint(s.N(999999))
				field("31", aid)
			}
			if s.N(3) != 2 {
				name = swiftText(s, 27)
				field("32", name)
				if s.N(3) == 2 {
					v := swiftText(s, 27)
					field("33", v)
					name += " " + v
				}
			}
			if s.N(4) == 3 {
				field("34", fmt.Sprintf("%03d", s.N(999)))
			}
			var p2 []string
			for k, n := 0, []int{0, 1, 2, 4}[s.W(8, 2, 2, 1)]; k < n; k++ {
				v := swiftText(s, 27)
				field(fmt.Sprintf("6%d", k), v)
				p2 = append(p2, v)
			}
			purp2 = strings.Join(p2, " ")
			line(":86:")
			o.Write(wrap(c.String(), s.W(6, 6, 6, 2)))
			note("described as %d", gvc)
		}
		m2, amtS := m, ""
		amtS = m2.String()
		before := fmt.Sprintf("%s at %s", start, d0)
		txs = append(txs, txr{func(after string) string {
			return fmt.Sprintf("tx acct %q bank 280/%s amount %s valuta %s booking %s text %q bank %q account %q name %q purpose %q purpose2 %q id %d before %s after %s",
				acc, b.code, amtS, vc, book, text, bid, aid, name, purp, purp2, gvc, before, after)
		}})
		d = val
	}
	d1 := d.plus(s.N(3))
	end := genMoney(s, cur, s.N(3) == 2)
	f = []string{"F", "M"}[s.W(4, 1)]
	line(":62%s:%s%s%s%s", f, end.cd(), d1.short(), cur, end.abs())
	note("end %s at %s", end, d1)
	if s.N(4) == 3 {
		val := genMoney(s, cur, s.N(3) == 2)
		line(":64:%s%s%s%s", val.cd(), d1.short(), cur, val.abs())
		note("valuta %s at %s", val, d1)
	}
	if s.N(6) == 5 {
		val := genMoney(s, cur, s.N(3) == 2)
		line(":65:%s%s%s%s", val.cd(), d1.plus(1).short(), cur, val.abs())
		note("future %s at %s", val, d1.plus(1))
	}
	if s.N(8) == 7 {
		line(":86:%03d?00STATEMENT", 820)
		note("about all %d %q", 820, "STATEMENT")
	}
	line("-")
	for _, t := range txs {
		rows = append(rows, t.f(fmt.Sprintf("%s at %s", end, d1)))
	}
	return o.Bytes(), rows, all.String()
}

// swiftRef is a reference without the sequences which separate references.
func swiftRef(s *stream, max int) string {
	r := mix(s, "REF.-,+ ()", "abcXYZ0123456789?N'", s.R(1, max))
	if r[0] == '-' || r[0] == ':' { // would end the statement
		r = "R" + r[1:]
	}
	return strings.TrimRight(r, " ") + "1"
}

// wrap breaks a long field into lines as S.W.I.F.T. prescribes.
func wrap(c string, mode int) []byte {
	if mode == 0 {
		return []byte(c)
	}
	if mode == 3 { // a line per field
		var o []byte
		for i := 0; i < len(c); i++ {
			if c[i] == '?' {
				o = append(o, '\r', '\n')
			}
			o = append(o, c[i])
		}
		return o
	}
	n := 65
	if mode == 2 {
		n = []int{27, 27, 27, 9}[len(c)%4]
	}
	var o bytes.Buffer
	for len(c) > n {
		k := n
		// a continuation line starts neither with '-' nor with ':'
		for k < len(c) && (c[k] == '-' || c[k] == ':') {
			k++
		}
		if k == len(c) {
			break
		}
		o.WriteString(c[:k])
		o.WriteString("\r\n")
		c = c[k:]
	}
	o.WriteString(c)
	return o.Bytes()
}

// best returns the highest version in both lists, 0 when there is none.
func best(lib, bank []int) int {
	m := append([]int{}, bank...)
	sort.Sort(sort.Reverse(sort.IntSlice(m)))
	for _, v := range m {
		for _, l := range lib {
			if v == l {
				return v
			}
		}
	}
	return 0
}

// bankFault is what the bank does differently in one exchange.
type bankFault struct {
	refuse    bool
	noSyn     bool // without HISYN or with an empty one
	noPayload bool
	badData   bool
	askTAN    bool
	badUPD    bool
	noData    bool
	noFn      bool // permits no security function it describes
	loopRef   bool // mark with a reference already used
}

type genProf struct {
	exoticBPD int
	bulk      int // one in so many pages is huge
	announce  int
	warn      int
	signed    int
	emptyKaz  int
	manyPages int
	midChange int // percent of dialogs before which the data change
}
