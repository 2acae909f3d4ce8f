package main

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"syscall"
	"time"

	"github.com/mitch000001/go-hbci/client"
	"github.com/mitch000001/go-hbci/dialog"
	"github.com/mitch000001/go-hbci/domain"
	"github.com/mitch000001/go-hbci/segment"
	"github.com/mitch000001/go-hbci/transport"
	https "github.com/mitch000001/go-hbci/transport/https"
	"github.com/mitch000001/go-hbci/zz_verif/simrt"
)

type violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// world is one simulated run.
type world struct {
	t       *tape
	prof    *profile
	viols   []violation
	trace   []string
	tracing bool
	st      *stats
	hash    uint64
	variant int // which execution of a differential run
	noViol  bool
	tasks   int // number of tasks running at the same time
}

// budget is the number of statements after which an operation counts as hung.
func (w *world) budget() uint64 {
	if w.tasks > 1 {
		return w.prof.budget() * uint64(w.tasks)
	}
	return w.prof.budget()
}

func (w *world) tr(f string, a ...interface{}) {
	if w.tracing {
		w.trace = append(w.trace, fmt.Sprintf(f, a...))
	}
}

func (w *world) mix(parts ...string) {
	h := w.hash
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h = (h ^ uint64(p[i])) * 1099511628211
		}
		h = (h ^ 0x1ff) * 1099511628211
	}
	w.hash = h
}

func (w *world) violate(props string, class, f string, a ...interface{}) {
	if w.noViol {
		return
	}
	msg := fmt.Sprintf(f, a...)
	if len(msg) > 1500 {
		msg = msg[:1500] + "…"
	}
	for _, p := range strings.Fields(props) {
		w.viols = append(w.viols, violation{p, class, msg})
		w.tr("!! VIOLATION %s [%s] %s", p, class, msg)
	}
}

// secState etc. are what the client may know; a set with several members means
// that it is not determined which of them the client has kept.
type dialogView struct {
	open    bool // the client received the reply that opens it
	maybe   bool // the bank opened it, the reply was damaged
	anon    bool
	id      string
	last    int
	ends    int
	opener  *exch
	bpdThen []*bpd
}

type sess struct {
	old   []oldReply // what the bank answered so far
	w     *world
	id    int
	t     *tape
	mapS  *stream
	rng   *prng
	bank  *bank
	clock time.Time
	days  map[string]bool
	jumpy int

	code, user, pin, url string
	host                 string
	hbci                 int
	product, prodVer     string
	base                 time.Time           // where the clock starts
	shared               transport.Transport // given instead of an own one
	newFails             string              // why the client cannot be made
	conf                 func(*client.Config)
	debug                bool
	viaHTTP              bool
	dialogLevel          bool

	cl  *client.Client
	an  *client.AnonymousClient
	dlg *dialog.PinTanDialog

	cur  *opRec
	ops  []*opRec
	exs  []*exch
	dv   *dialogView
	seen map[string]int

	bpds   []*bpd // nil member: none received yet
	upds   []*upd
	sys    []string
	sec    map[string]bool
	descr  [][]string // the described functions, several where unsure
	failed bool       // an earlier operation was disturbed
	taint  bool       // replies were damaged in a way the model does not follow
	pins   []string
	bodies []*simBody
	out    string
}

type exch struct {
	n       int
	s       *sess
	op      *opRec
	req     *reqInfo
	raw     []byte
	plan    *replyPlan
	bf      *bankFault
	fault   string
	must    string // why the operation has to fail
	may     string
	intact  bool
	reached bool
}

type opRec struct {
	extra          uint64 // steps granted for large replies
	n              int
	kind           string
	quiet          bool
	loose          bool // odd data were delivered, the result is not judged
	prop           string
	exs            []*exch
	pages          []*page
	jobs           []*exch
	err            error
	view           func() []string // the result as it is now
	rows           []string
	chain          string // where in the library it crashed
	panicV         interface{}
	stack          string
	must           string
	mustEx         *exch
	may            string
	warned         bool
	expJob         func(ver int) []string // acceptable job contents without reference
	expHdr         string                 // property the job content belongs to
	jobID          string
	libVers        []int
	ref            string
	anon           bool
	exec           func() ([]string, error)
	local          bool
	noInput        string // an input that cannot be expressed
	noBPD          bool   // the job does not depend on parameter data
	bpdSeen        []*bpd
	desc           string
	steps          uint64
	secFns         []string
	started        time.Time
	firstBase      string
	cli            bool // an invocation of the command line tool
	ready          bool // the client has a system ID and parameter data
	noOut, outLost bool // what it prints cannot be written
	cliBad         bool // which has to fail before anything is sent
	cliDebug       bool
	stdout, stderr string
	printed        string // all that went to standard output
}

func (s *sess) now() time.Time {
	if s.cur != nil && s.jumpy > 0 && s.t.Clock.P(s.jumpy) {
		d := clockJump(s.t.Clock)
		s.clock = s.clock.Add(d)
		s.w.st.fault("clock-jump")
	}
	s.clock = s.clock.Add(time.Duration(s.t.Clock.N(3)) * 137 * time.Microsecond)
	t := s.clock.In(time.Local)
	if s.days != nil {
		s.days[t.Format("20060102")] = true
	}
	return t
}

func clockJump(c *stream) time.Duration {
	switch c.W(3, 3, 2, 2, 1) {
	case 0:
		return time.Duration(c.N(3600)) * time.Second
	case 1:
		return -time.Duration(c.N(3600)) * time.Second
	case 2:
		return time.Duration(c.N(48)) * time.Hour
	case 3:
		return -time.Duration(c.N(48)) * time.Hour
	default:
		return time.Duration(c.N(2000)-1000) * 24 * time.Hour
	}
}

// ---------------------------------------------------------------- network

// timeoutErr is what a network operation reports when its time is up.
type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// netErr chooses how a connection fails without (the rest of) a reply. What
// the error is must make no difference. The end of input is an error only
// where a reply as a whole is missing.
func netErr(f *stream, whole bool) error {
	l := []error{errors.New("simulated network failure"),
		&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET},
		&net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}},
		io.ErrUnexpectedEOF,
		net.ErrClosed,
		context.DeadlineExceeded,
		&net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED},
		&net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE},
		io.EOF}
	if !whole {
		l = l[:len(l)-3]
	}
	return l[f.W(4, 2, 2, 2, 1, 1, 1, 1, 3)%len(l)]
}

type simBody struct {
	s      *sess
	b      []byte
	end    error
	mode   int
	k      int
	draws  int
	closed int
	clErr  error
	stall  bool
}

func (b *simBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("simulated read on closed body")
	}
	if len(b.b) == 0 {
		return 0, b.end
	}
	n := len(p)
	switch b.mode {
	case 1:
		n = b.k
	case 2:
		if b.draws < 60 {
			b.draws++
			n = 1 + b.s.t.Misc.N(97)
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(b.b) {
		n = len(b.b)
	}
	copy(p, b.b[:n])
	b.b = b.b[n:]
	if len(b.b) == 0 && b.mode == 3 {
		return n, b.end // last bytes and end in one call
	}
	return n, nil
}

func (b *simBody) Close() error {
	b.closed++
	return b.clErr
}

// answer is what the network hands back.
type answer struct {
	err    error
	status int
	body   *simBody
	loc    string
}

func (s *sess) newBody(b []byte, end error) *simBody {
	if end == nil {
		end = io.EOF
	}
	x := &simBody{s: s, b: b, end: end}
	m := s.t.Misc
	x.mode = m.W(5, 2, 2, 1)
	if x.mode == 1 {
		x.k = []int{1, 2, 3, 4, 5, 7, 64, 1000}[m.N(8)]
		if x.k < 8 && len(b) > 20000 {
			x.k = 64
		}
	}
	if x.mode != 0 {
		s.w.st.fault("split-reads")
	}
	if s.w.prof.closeErr && m.P(10) {
		x.clErr = errors.New("simulated close failure")
		s.w.st.fault("close-error")
	}
	s.bodies = append(s.bodies, x)
	return x
}

func (s *sess) encode(msg []byte) []byte {
	e := base64.StdEncoding.EncodeToString(msg)
	switch s.t.Misc.W(5, 1, 1) {
	case 1:
		s.w.st.fault("base64-lines")
		return []byte(breakLines(e, 76, "\r\n"))
	case 2:
		s.w.st.fault("base64-lines")
		return []byte(breakLines(e, 64, "\n"))
	}
	return []byte(e)
}

func breakLines(e string, n int, sep string) string {
	var o strings.Builder
	for len(e) > n {
		o.WriteString(e[:n])
		o.WriteString(sep)
		e = e[n:]
	}
	o.WriteString(e)
	o.WriteString(sep)
	return o.String()
}

// exchange is one posted message and its answer.
// maxExchanges is far above what any operation needs.
const maxExchanges = 200

// exchange is one round trip. While other tasks run it takes a while.
func (s *sess) exchange(url string, body []byte) *answer {
	s.wait()
	a := s.exchangeNow(url, body)
	s.wait()
	return a
}

func (s *sess) exchangeNow(url string, body []byte) *answer {
	resume := simrt.Pause()
	defer resume()
	w := s.w
	op := s.cur
	if len(op.exs) >= maxExchanges {
		panic(simrt.BudgetExceeded{})
	}
	ex := &exch{n: len(s.exs), s: s, op: op, bf: &bankFault{}}
	s.exs = append(s.exs, ex)
	op.exs = append(op.exs, ex)
	w.st.Exchanges++
	simrt.SetBudget(w.budget() + op.extra)
	msg, err := base64.StdEncoding.DecodeString(string(body))
	if err != nil || base64.StdEncoding.EncodeToString(msg) != string(body) {
		w.violate("P20", "body-not-base64", "posted body is not the base64 encoding of a message: %v", err)
	}
	ex.raw = msg
	ex.req = parseReq(msg)
	if w.tracing {
		w.tr("s%d op%d ex%d > %s %s dialog %q no %d: %s", s.id, op.n, ex.n, ex.req.kind, url, ex.req.dialogID, ex.req.no, show(msg))
	}
	if !w.prof.noHashReq {
		w.mix("req", fmt.Sprint(s.id), string(maskTime(msg)))
	}
	if url != s.url {
		w.violate("P04 P20 P21", "wrong-url", "message posted to %q instead of %q", url, s.url)
	}
	s.monitor(ex)
	s.clock = s.clock.Add(time.Duration(1+s.t.Clock.N(2000)) * time.Millisecond)
	if s.jumpy > 0 && s.t.Clock.P(s.jumpy) {
		s.clock = s.clock.Add(clockJump(s.t.Clock))
		w.st.fault("clock-jump")
	}
	a := s.deliver(ex)
	if ex.plan != nil && len(ex.plan.raw) > 1<<13 {
		// reading a large reply takes longer
		op.extra += uint64(len(ex.plan.raw)) * 400
	}
	simrt.SetBudget(w.budget() + op.extra)
	w.mix("ex", ex.req.kind, ex.fault, fmt.Sprint(ex.bf.refuse))
	if ex.fault != "" {
		w.st.fault("net:" + ex.fault)
	}
	if ex.must != "" && (op.must == "" || op.mustEx == nil) {
		op.must, op.mustEx = ex.must, ex
	}
	if ex.may != "" && op.may == "" {
		op.may = ex.may
	}
	return a
}

func maskTime(b []byte) []byte { return b }

// show renders a message for the trace.
func show(b []byte) string {
	s := fmt.Sprintf("%q", b)
	if len(s) > 3000 {
		s = s[:3000] + "…"
	}
	return s
}

func (s *sess) deliver(ex *exch) *answer {
	w, op, F := s.w, ex.op, s.t.Fault
	pr := w.prof
	end := ex.req.kind == "end" || ex.req.kind == "anonend"
	need := func(why string) {
		if end {
			ex.may = why
		} else {
			ex.must = why
		}
	}
	kind := ""
	if !op.quiet {
		if F.P(pr.netFault) {
			kind = pr.netKinds.pick(F)
			if s.viaHTTP == false && kind == "status" {
				kind = "replylost"
			}
		}
		if F.P(pr.bankFault) {
			switch k := F.W(6, pr.wNoSyn, pr.wNoPayload, pr.wBadData, pr.wAskTAN, pr.wBadUPD, pr.wLoop, pr.wNoFn); {
			case k == 0:
				ex.bf.refuse = true
			case k == 1 && ex.req.kind == "sync":
				ex.bf.noSyn = true
			case k == 2 && ex.req.kind == "job":
				ex.bf.noPayload = true
			case k == 3 && ex.req.kind == "job":
				ex.bf.badData = true
			case k == 4 && ex.req.kind == "job":
				ex.bf.askTAN = true
			case k == 5 && ex.req.kind == "init" && (op.kind == "accounts" || op.kind == "syncUPD"):
				ex.bf.badUPD = true
			case k == 7 && (ex.req.kind == "sync" || ex.req.kind == "init"):
				ex.bf.noFn = true
			case k == 6 && ex.req.kind == "job" && op.kind != "send":
				ex.bf.loopRef = true
			}
		}
	}
	var old *oldReply
	if kind == "stale" {
		if old = s.staleFor(ex.req); old == nil {
			kind = "replylost"
		}
	}
	ex.fault = kind
	if kind == "stale" && F.N(3) == 0 { // the request does not even arrive
		need("answer to another message")
		w.tr("   < request lost, the answer to message %d of %q comes instead", old.no, old.dialogID)
		return &answer{status: 200, body: s.newBody(s.encode(old.raw), nil)}
	}
	if kind == "reqlost" {
		need("request lost")
		w.tr("   < request lost")
		return &answer{err: netErr(F, true)}
	}
	if ex.req.err != nil {
		// an unreadable request: the bank answers with nothing useful
		need("unreadable request")
		return &answer{err: netErr(F, true)}
	}
	ex.reached = true
	p := s.bank.handle(ex.req, ex.bf)
	ex.plan = p
	if ex.bf.refuse {
		w.st.fault("bank:refuse-" + ex.req.kind)
	}
	if ex.bf.noSyn && ex.req.kind == "sync" {
		w.st.fault("bank:no-HISYN")
	}
	if ex.bf.noPayload && ex.req.kind == "job" {
		w.st.fault("bank:no-payload")
	}
	if p.noFn {
		w.st.fault("bank:no-security-function")
	}
	if p.tanAsked {
		w.st.fault("bank:asks-for-TAN")
	}
	if p.looped != "" {
		w.st.fault("bank:repeated-reference")
	}
	if p.badData != "" || p.loose {
		w.st.fault("bank:unreadable-data")
	}
	for _, a := range p.acks {
		if a.code >= 3000 && a.code < 4000 && a.code != 3040 && a.code != 3010 && a.code != 3920 {
			op.warned = true
		}
	}
	if w.tracing {
		w.tr("   < %s err=%v fault=%q: %s", p.dialogID, p.isErr, kind, show(p.raw))
	}
	if p.badUPD != "" && kind == "" {
		kind = "badupd"
		w.st.fault("bank:unreadable-UPD")
	}
	raw := p.raw
	if len(s.old) > 30 {
		s.old = s.old[1:]
	}
	s.old = append(s.old, oldReply{raw, p.dialogID, ex.req.no})
	if s.dv != nil && opens(ex.req) && !p.isErr {
		s.dv.id = p.dialogID
		s.dv.maybe = kind != ""
	}
	if kind == "replylost" {
		need("reply lost")
		return &answer{err: netErr(F, true)}
	}
	if pr.corrupt > 0 && !op.quiet && F.P(pr.corrupt) {
		raw = corrupt(s, raw)
		s.taint = true
		w.st.fault("net:corrupt")
		w.tr("   < corrupted: %s", show(raw))
		return &answer{status: 200, body: s.newBody(s.encode(raw), nil)}
	}
	switch kind {
	case "status":
		code := []int{500, 404, 503, 403, 302, 502, 201, 401, 307, 308}[F.N(10)]
		var b []byte
		switch F.N(3) {
		case 0:
			b = []byte("<html><body>Error</body></html>")
		case 1:
			b = []byte(base64.StdEncoding.EncodeToString(raw))
		}
		need("HTTP status")
		loc := ""
		if code == 302 {
			loc = "/maintenance.html"
		} else if code/100 == 3 {
			loc = redirects[F.N(len(redirects))]
		}
		return &answer{status: code, body: s.newBody(b, nil), loc: loc}
	case "garbage":
		need("undecodable body")
		g := [][]byte{[]byte("<html><head><title>Wartung</title></head></html>"), []byte("!!!!"), {0, 1, 2, 255, 254}, []byte("SE5IQks6*TpTM"), []byte("A")}[F.N(5)]
		return &answer{status: 200, body: s.newBody(g, nil)}
	case "empty":
		need("empty body")
		return &answer{status: 200, body: s.newBody(nil, nil)}
	case "stale":
		need("answer to another message")
		w.tr("   < the answer to message %d of %q comes instead", old.no, old.dialogID)
		return &answer{status: 200, body: s.newBody(s.encode(old.raw), nil)}
	case "echo":
		need("echoed request")
		return &answer{status: 200, body: s.newBody(s.encode(ex.raw), nil)}
	case "truncmsg":
		k := s.cut(raw)
		need("reply cut short")
		w.tr("   < cut after %d of %d bytes of the message", k, len(raw))
		return &answer{status: 200, body: s.newBody(s.encode(raw[:k]), nil)}
	case "truncraw", "truncerr":
		e := s.encode(raw)
		k := F.N(len(e))
		if F.N(3) == 0 {
			k = k / 4 * 4
		}
		for payload(e[:k])*6/8 >= len(raw) {
			k-- // at least one byte of the message is lost
		}
		need("reply cut short")
		w.tr("   < cut after %d of %d bytes of the body (%s)", k, len(e), kind)
		if kind == "truncerr" {
			ce := netErr(F, false)
			return &answer{status: 200, body: s.newBody(e[:k], ce)}
		}
		return &answer{status: 200, body: s.newBody(e[:k], nil)}
	}
	// complete delivery
	ex.intact = true
	if kind == "badupd" {
		need("unreadable data: " + p.badUPD)
		return &answer{status: 200, body: s.newBody(s.encode(raw), nil)}
	}
	s.learn(ex, need)
	return &answer{status: 200, body: s.newBody(s.encode(raw), nil)}
}

// oldReply is an answer the bank gave, which may arrive once more.
type oldReply struct {
	raw      []byte
	dialogID string
	no       int
}

// staleFor chooses an earlier answer that is delivered instead of the answer
// to r. One which names the same message is none: the first message of a
// dialog knows no other name for its dialog than the others of its kind.
func (s *sess) staleFor(r *reqInfo) *oldReply {
	if r == nil || r.err != nil {
		return nil
	}
	var l []int
	for i, o := range s.old {
		if o.no != r.no || r.dialogID != "0" && r.dialogID != o.dialogID {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return nil
	}
	k := len(l) - 1
	switch s.t.Fault.W(2, 2, 1) {
	case 1:
		k = s.t.Fault.N(len(l))
	case 2: // one that differs in as little as possible
		var near, nearer []int
		for i, j := range l {
			if o := s.old[j]; o.no == r.no {
				near = append(near, i)
				if strings.HasPrefix(o.dialogID, r.dialogID) || strings.HasPrefix(r.dialogID, o.dialogID) {
					nearer = append(nearer, i)
				}
			}
		}
		if len(nearer) > 0 {
			near = nearer
		}
		if len(near) > 0 {
			k = near[s.t.Fault.N(len(near))]
		}
	}
	o := s.old[l[k]]
	return &o
}

func payload(b []byte) int {
	n := 0
	for _, c := range b {
		if c != '=' && c != '\r' && c != '\n' {
			n++
		}
	}
	return n
}

// cut chooses where a message is cut, preferring element and segment boundaries.
func (s *sess) cut(raw []byte) int {
	F := s.t.Fault
	switch F.W(3, 3, 2) {
	case 0: // anywhere
		return F.N(len(raw))
	case 1: // after a segment
		var pos []int
		for i, c := range raw {
			if c == '\'' && i+1 < len(raw) {
				pos = append(pos, i+1)
			}
		}
		if len(pos) > 0 {
			return pos[F.N(len(pos))]
		}
		return F.N(len(raw))
	default: // near the end
		k := len(raw) - 1 - F.N(14)
		if k < 0 {
			k = 0
		}
		return k
	}
}

// learn updates what the client must know after a complete reply.
func (s *sess) learn(ex *exch, need func(string)) {
	p, r := ex.plan, ex.req
	switch r.kind {
	case "sync", "init", "anoninit":
		if p.isErr {
			ex.must = "refused by the bank"
			return
		}
		s.dv.open = true
		s.dv.maybe = false
		sure := true
		if r.kind == "sync" && p.sysID == "" {
			ex.must = "no customer system ID assigned"
			sure = false
		}
		if p.noFn {
			ex.may = "no usable security function"
			sure = false
		}
		if p.hasBPD {
			if sure {
				s.bpds = []*bpd{p.bpd}
			} else {
				s.bpds = append(s.bpds, p.bpd)
			}
			ex.op.bpdSeen = append(ex.op.bpdSeen, p.bpd)
		}
		if p.hasUPD {
			if sure {
				s.upds = []*upd{p.upd}
			} else {
				s.upds = append(s.upds, p.upd)
			}
		}
		if p.sysID != "" && p.noFn {
			s.sys = append(s.sys, p.sysID)
		} else if p.sysID != "" {
			s.sys = []string{p.sysID}
		}
		if p.offer || p.descrOnly {
			if sure {
				s.descr = [][]string{p.descr}
			} else {
				s.descr = append(s.descr, p.descr)
			}
		}
		if p.offer || p.permOnly {
			n := map[string]bool{}
			if !sure {
				for f := range s.sec {
					n[f] = true
				}
			}
			descr := s.descr
			if len(descr) == 0 {
				descr = [][]string{nil}
			}
			for _, ds := range descr {
				both := map[string]bool{}
				for _, f := range p.perm {
					if has(ds, f) {
						both[f] = true
					}
				}
				for f := range s.sec {
					if both[f] || len(both) == 0 {
						n[f] = true
					} else {
						for x := range both {
							n[x] = true
						}
					}
				}
			}
			s.sec = n
		}
	case "job", "anonjob":
		if p.isErr {
			ex.must = "refused by the bank"
			return
		}
		if p.unusable != "" && ex.op.kind == "info" {
			ex.must = p.unusable
		}
		if p.tanAsked {
			ex.must = "held back until a TAN is given"
			return
		}
		if p.looped != "" {
			ex.must = p.looped
		}
		if p.badData != "" {
			ex.must = p.badData
		}
		if p.loose {
			ex.op.loose = true
		}
		if p.mayFail != "" {
			ex.may = p.mayFail
		}
		if p.pg != nil {
			ex.op.pages = append(ex.op.pages, p.pg)
		}
	case "end", "anonend":
		if p.isErr {
			ex.may = "end refused"
		}
	}
}

// ---------------------------------------------------------------- transports

func (s *sess) customTransport() transport.Transport {
	return transport.Func(func(r *transport.Request) (*transport.Response, error) {
		body, err := io.ReadAll(r.Body)
		if err != nil {
			return nil, err
		}
		a := s.exchange(r.URL, body)
		if a.err != nil {
			return nil, a.err
		}
		return &transport.Response{Request: r, Body: a.body}, nil
	})
}

// roundTripper stands in for the network below net/http.
type roundTripper struct {
	route func(*http.Request) *sess
}

// hosts are the sessions reachable through http.DefaultTransport.
var hosts = map[string]*sess{}

func init() {
	http.DefaultTransport = &roundTripper{func(q *http.Request) *sess { return hosts[q.URL.Host] }}
}

func (rt *roundTripper) RoundTrip(q *http.Request) (*http.Response, error) {
	s := rt.route(q)
	var body []byte
	if q.Body != nil {
		b, err := io.ReadAll(q.Body)
		q.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	if q.Response != nil && q.Method != "GET" {
		// the answer to a message sent it to another place
		for _, o := range hosts {
			if s == nil || s == o {
				o.w.violate("P04 P20", "posted-elsewhere", "message posted to %q because an answer said so", q.URL)
				break
			}
		}
	}
	if s == nil {
		return nil, errors.New("simulated: no such host")
	}
	if q.Method == "GET" {
		s.w.tr("   GET %s", q.URL)
		b := s.newBody([]byte("<html>Wartung</html>"), nil)
		return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: b, ContentLength: -1, Request: q}, nil
	}
	if q.Method != "POST" {
		s.w.violate("P20", "method", "request method %s", q.Method)
	}
	a := s.exchange(q.URL.String(), body)
	if a.err != nil {
		return nil, a.err
	}
	h := http.Header{}
	if a.loc != "" {
		h.Set("Location", a.loc)
	}
	return &http.Response{StatusCode: a.status, Status: fmt.Sprintf("%d X", a.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: a.body, ContentLength: -1, Request: q}, nil
}

// ---------------------------------------------------------------- session

func newSess(w *world, id int, t *tape) *sess {
	s := &sess{w: w, id: id, t: t, seen: map[string]int{}, sec: map[string]bool{"999": true}, sys: []string{"0"}}
	s.mapS = t.root.stream(t.prefix + "map")
	g := t.Gen
	s.code = fmt.Sprintf("%08d", 10000000+g.N(80000000))
	s.user = genID(g, 30)
	s.pin = genPin(g)
	s.pins = []string{s.pin}
	s.hbci = []int{300, 220}[g.N(2)]
	s.host = fmt.Sprintf("bank%d.example", id)
	s.url = fmt.Sprintf("https://%s/hbci", s.host)
	if g.P(30) {
		s.product = genText(g, 25)
		if g.N(3) == 2 {
			s.product += "Onlinebanking " + genText(g, 25)
		}
		s.prodVer = genText(g, 5)
	}
	s.viaHTTP = g.P(w.prof.viaHTTP)
	s.dialogLevel = g.P(w.prof.dialogLevel)
	s.debug = g.P(w.prof.debug)
	s.base = startClock(t.Clock)
	s.clock = s.base
	s.jumpy = w.prof.jumpy
	s.days = map[string]bool{}
	s.bpds = []*bpd{nil}
	s.upds = []*upd{nil}
	return s
}

var simEpoch = time.Date(2020, 5, 4, 12, 0, 0, 0, time.UTC)

func genPin(g *stream) string {
	p := fmt.Sprintf("pN%c%d", 'a'+rune(g.N(26)), g.R(1000, 99999))
	switch g.W(4, 3, 2) {
	case 1:
		p += mix(g, "xY9", specials, g.R(1, 4))
	case 2:
		p += mix(g, "xY9", "\u00e4\u00df\u00fc+", g.R(1, 4))
	}
	if g.P(12) {
		p += mix(g, "xY9", specials, g.R(10, 70))
	}
	if g.P(4) {
		p = []string{" " + p, p + " ", p + "\r\n"}[g.N(3)]
	}
	return p
}

func (s *sess) newBank() {
	s.bank = &bank{w: s.w, t: s.t, g: &s.w.prof.gen, code: s.code, userID: s.user, hbci: s.hbci,
		dialogs: map[string]*bdialog{}, refs: map[string]*query{}, used: map[string]bool{}}
	s.bank.newBPD()
	s.bank.newUPD()
}

// start creates the client.
func (s *sess) start() error {
	s.newBank()
	hosts[s.host] = s
	var tr transport.Transport
	if s.shared != nil {
		tr = s.shared
	} else if s.viaHTTP {
		if s.t.Gen.N(2) == 1 {
			tr = https.NewNonDefault(&http.Client{Transport: &roundTripper{func(*http.Request) *sess { return s }}})
		} else {
			tr = https.New()
		}
	} else {
		tr = s.customTransport()
	}
	s.w.tr("s%d client: bank %s user %q pin %q version %d url %s http=%v dialogLevel=%v debug=%v", s.id, s.code, s.user, s.pin, s.hbci, s.url, s.viaHTTP, s.dialogLevel, s.debug)
	if s.dialogLevel {
		cfg := dialog.Config{BankID: domain.BankID{CountryCode: 280, ID: s.code}, HBCIURL: s.url, UserID: s.user,
			HBCIVersion: segment.SupportedHBCIVersions[s.hbci], ProductName: s.product, ProductVersion: s.prodVer, Transport: tr}
		s.dlg = dialog.NewPinTanDialog(cfg)
		s.dlg.SetPin(s.pin)
		return nil
	}
	cfg := client.Config{BankID: s.code, AccountID: s.user, PIN: s.pin, URL: s.url, HBCIVersion: s.hbci,
		Transport: tr, ProductName: s.product, ProductVersion: s.prodVer, EnableDebugLogging: s.debug}
	if s.conf != nil {
		s.conf(&cfg)
	}
	c, err := client.New(cfg)
	if err != nil {
		return err
	}
	s.cl = c
	s.an = &client.AnonymousClient{Client: c}
	return nil
}

// runOp executes one operation and checks it.
func (s *sess) runOp(op *opRec) {
	w := s.w
	op.n = len(s.ops)
	s.ops = append(s.ops, op)
	s.cur = op
	op.started = s.clock
	s.days = map[string]bool{}
	s.bodies = nil
	op.bpdSeen = append([]*bpd{}, s.bpds...)
	op.ready = len(s.sys) == 1 && s.sys[0] != "0"
	for _, b := range s.bpds {
		op.ready = op.ready && b != nil && b.ver != 0
	}
	w.tr("s%d op%d %s %s quiet=%v", s.id, op.n, op.kind, op.desc, op.quiet)
	w.st.Ops++
	w.st.OpKinds[op.kind]++
	w.mix("op", op.kind)
	before := simrt.Steps()
	simrt.SetBudget(w.budget())
	func() {
		defer func() {
			if r := recover(); r != nil {
				op.panicV = r
				op.stack = panicSite()
				op.chain = panicChain()
			}
		}()
		if op.noOut && !op.quiet {
			defer fullStdout()()
			op.outLost = true
			if op.may == "" && op.must == "" {
				op.may = "output cannot be written"
			}
			w.st.fault("output-full")
		}
		op.rows, op.err = op.exec()
	}()
	op.steps = simrt.Steps() - before
	if op.steps > w.st.MaxSteps {
		w.st.MaxSteps = op.steps
	}
	resume := simrt.Pause()
	s.finishOp(op)
	s.checkViews()
	resume()
	s.cur = nil
}

// checkViews looks at all results handed out so far once more: they belong to
// the caller and stay as they are.
func (s *sess) checkViews() {
	for _, o := range s.ops {
		if o.view == nil || o.panicV != nil {
			continue
		}
		s.w.st.check("result-kept")
		if now := o.view(); diffRows(o.rows, now) != "" || len(now) != len(o.rows) {
			s.w.violate(o.prop, "result-changed", "the result of operation %d (%s) has changed after it was returned: %s", o.n, o.kind, diffRows(o.rows, now))
			o.view = nil
		}
	}
}

func opens(r *reqInfo) bool {
	return r.kind == "sync" || r.kind == "init" || r.kind == "anoninit"
}
