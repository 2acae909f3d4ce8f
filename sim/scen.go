package main

import (
	"fmt"
	"time"
	_ "time/tzdata"

	"github.com/mitch000001/go-hbci/internal"
	"github.com/mitch000001/go-hbci/zz_verif/simrt"
)

const allocLimit = 1 << 24

// execRun performs one simulated run.
func execRun(p *profile, t *tape, st *stats, tracing bool) *world {
	w := &world{t: t, prof: p, st: st, tracing: tracing, hash: 14695981039346656037}
	resetPackages()
	st.Runs++
	simrt.TakeStdout()
	simrt.TakeStderr()
	internal.SetDebugMode(false)
	setZone(t.Misc)
	simrt.Begin(p.budget(), allocLimit)
	defer simrt.End()
	switch p.scen {
	case "session":
		w.session(0, t, nil)
	case "clock":
		w.clockPair(t)
	case "map":
		w.mapPair(t)
	case "conc":
		w.concurrent(t)
	case "transport":
		w.transports(t)
	case "directory":
		w.directory(t)
	case "bankinfo":
		w.bankinfo(t)
	case "cli":
		w.cli(t)
	case "keys":
		w.keys(t)
	default:
		panic("unknown scenario " + p.scen)
	}
	st.Steps += simrt.Steps()
	return w
}

var zones = []int{0, 3600, 7200, -5 * 3600, 9*3600 + 1800, -11 * 3600, 14 * 3600, 12*3600 + 2700}

// summer are zones with daylight saving time on both sides of the equator.
var summer = func() (l []*time.Location) {
	for _, n := range []string{"Europe/Berlin", "America/New_York", "Australia/Sydney"} {
		x, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		l = append(l, x)
	}
	return l
}()

// startClock is where the clock of a run starts.
func startClock(c *stream) time.Time {
	switch c.W(3, 2, 2, 2) {
	case 3: // around midnight, here
		d := simEpoch.AddDate(0, 0, c.N(7300)-1800)
		return time.Date(d.Year(), d.Month(), d.Day(), 0, c.N(120)-60, c.N(60), 0, time.Local)
	case 1: // any time in twenty years
		return simEpoch.AddDate(0, 0, c.N(7300)-1800).Add(time.Duration(c.N(86400)) * time.Second)
	case 2: // around special days
		d := []time.Time{time.Date(2021, 3, 28, 0, 0, 0, 0, time.UTC), time.Date(2021, 10, 31, 0, 0, 0, 0, time.UTC), time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC),
			time.Date(2023, 3, 1, 0, 0, 0, 0, time.UTC), time.Date(2019, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)}[c.N(6)]
		return d.Add(time.Duration(c.N(96)-48) * 1799 * time.Second)
	}
	return simEpoch
}

func setZone(m *stream) {
	k := m.N(len(zones) + len(summer))
	if k >= len(zones) { // zones with daylight saving time
		time.Local = summer[k-len(zones)]
		return
	}
	z := zones[k]
	if z == 0 {
		time.Local = time.UTC
	} else {
		time.Local = time.FixedZone(fmt.Sprintf("Z%+d", z), z)
	}
}

// bind connects the seams to the session.
func (s *sess) bind() {
	simrt.NowFn = s.now
	simrt.SleepFn = func(d time.Duration) { s.clock = s.clock.Add(d) }
	simrt.RandFn = s.random
	simrt.MapPerm = s.mapPerm
}

func (s *sess) random(b []byte) {
	if s.rng == nil {
		s.rng = newPrng(uint64(s.id) + 77)
	}
	for i := range b {
		b[i] = byte(s.rng.next())
	}
}

func (s *sess) mapPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if s.mapS.P(60) {
		for i := n - 1; i > 0; i-- {
			j := i - s.mapS.N(i+1)
			p[i], p[j] = p[j], p[i]
		}
		s.w.st.fault("map-order")
	}
	return p
}

// session runs a sequence of operations of one client.
func (w *world) session(id int, t *tape, setup func(*sess)) *sess {
	s := newSess(w, id, t)
	if setup != nil {
		setup(s)
	}
	s.bind()
	s.play()
	w.st.SimSecs += s.clock.Sub(s.base).Seconds()
	return s
}

// play creates the client and runs its operations.
func (s *sess) play() {
	w, t := s.w, s.t
	calm := t.Gen.P(w.prof.quietRun)
	n := 1 + t.Gen.N(w.prof.maxOps)
	if w.prof.badConfig > 0 && !s.dialogLevel && t.Gen.P(w.prof.badConfig) {
		// settings which give no client
		url, ver, code := s.url, s.hbci, s.code
		if t.Gen.N(2) == 1 {
			s.url, s.code, s.newFails = "", "00000001", "no address known"
		} else {
			s.hbci, s.newFails = 400, "unsupported version"
		}
		s.create()
		s.url, s.hbci, s.code, s.newFails = url, ver, code, ""
	}
	if !s.create() {
		return
	}
	for i := 0; i <= n; i++ {
		if i > 0 && t.Gen.P(w.prof.dataChange) {
			s.bank.change()
		}
		// idle time between operations
		s.clock = s.clock.Add(time.Duration(t.Clock.N(100)) * time.Second)
		op := s.newOp()
		op.quiet = calm || i == n
		s.runOp(op)
		if s.taint && i == n {
			break
		}
	}
}

// create makes the client as an operation of its own.
func (s *sess) create() bool {
	ok := false
	op := &opRec{kind: "new", local: true, quiet: true, prop: "P21", must: s.newFails}
	op.exec = func() ([]string, error) {
		err := s.start()
		ok = err == nil
		return nil, err
	}
	s.runOp(op)
	return ok && op.panicV == nil
}

// change replaces some of the bank's data.
func (b *bank) change() {
	s := b.t.Gen
	switch s.W(2, 2, 1) {
	case 0:
		b.newUPD()
	case 1:
		b.newBPD()
	case 2:
		b.newPerm()
	}
	b.w.st.fault("bank-data-change")
}

// clockPair runs the same session under two clocks and time zones.
func (w *world) clockPair(t *tape) {
	a := w.session(0, t.Sub("a."), nil)
	w.variant = 1
	setZone(t.root.stream("zone2"))
	again := t.again().Sub("a.")
	second := t.root.stream("clock2")
	jump := t.root.stream("jump2")
	b := w.session(0, again, func(s *sess) {
		s.t.Clock = second
		if jump.N(2) == 1 {
			s.clock = s.clock.Add(clockJump(jump) * 30)
		}
	})
	w.comparePair(a, b, "P06", "clock-dependent", "the clock or time zone", true)
}

// mapPair runs the same session twice with different map iteration orders.
func (w *world) mapPair(t *tape) {
	a := w.session(0, t.Sub("a."), nil)
	w.variant = 1
	again := t.again().Sub("a.")
	b := w.session(0, again, func(s *sess) { s.mapS = t.root.stream("map2") })
	w.st.check("map-pair")
	for i := range a.ops {
		if i >= len(b.ops) {
			break
		}
		x, y := fmt.Sprint(a.ops[i].secFns), fmt.Sprint(b.ops[i].secFns)
		if x != y {
			w.violate("P14", "arbitrary-choice", "operation %d (%s): with the same replies the client uses the security functions %s or %s", i, a.ops[i].kind, x, y)
			return
		}
	}
}

func (w *world) comparePair(a, b *sess, prop, class, what string, results bool) {
	w.st.check("pair")
	for i := range a.ops {
		if i >= len(b.ops) {
			w.violate(prop, class, "operation %d happens only once", i)
			return
		}
		x, y := a.ops[i], b.ops[i]
		ex, ey := fmt.Sprint(x.err), fmt.Sprint(y.err)
		if (x.err == nil) != (y.err == nil) || (x.panicV == nil) != (y.panicV == nil) {
			w.violate(prop, class, "operation %d (%s %s): the outcome depends on %s: %q (%v) or %q (%v)", i, x.kind, x.desc, what, ex, x.panicV, ey, y.panicV)
			return
		}
		if results && x.err == nil {
			if d := diffRows(x.rows, y.rows); d != "" {
				w.violate(prop, class+":"+diffClass(x.rows, y.rows), "operation %d (%s): the result depends on %s: %s", i, x.kind, what, d)
				return
			}
		}
	}
}
