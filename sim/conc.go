package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/mitch000001/go-hbci/transport"
	https "github.com/mitch000001/go-hbci/transport/https"
	"github.com/mitch000001/go-hbci/zz_verif/simrt"
)

// wait lets other tasks run during a round trip.
func (s *sess) wait() {
	if s.w.tasks > 1 && s.w.t.Sched.N(2) == 1 {
		simrt.Yield()
	}
}

// bindAll connects the seams to the session whose task is running.
func bindAll(l []*sess) {
	at := func() *sess { return l[simrt.CurrentTask()%len(l)] }
	simrt.NowFn = func() time.Time { return at().now() }
	simrt.SleepFn = func(d time.Duration) { s := at(); s.clock = s.clock.Add(d) }
	simrt.RandFn = func(b []byte) { at().random(b) }
	simrt.MapPerm = func(n int) []int { return at().mapPerm(n) }
}

// sharedTransport routes by URL, so several clients can use it.
func sharedTransport(kind int) transport.Transport {
	switch kind {
	case 1:
		return https.New()
	case 2:
		return https.NewNonDefault(&http.Client{Transport: &roundTripper{func(q *http.Request) *sess { return hosts[q.URL.Host] }}})
	}
	if kind >= 3 {
		return &rebase{https.NewBase64()}
	}
	return nil
}

// rebase puts a transport which encodes by itself where one is expected that
// gets what it sends encoded.
type rebase struct{ tr transport.Transport }

func (r *rebase) Do(q *transport.Request) (*transport.Response, error) {
	b, err := io.ReadAll(q.Body)
	if err != nil {
		return nil, err
	}
	raw, err := base64.StdEncoding.DecodeString(string(b))
	if err != nil {
		return nil, err
	}
	p, err := r.tr.Do(&transport.Request{URL: q.URL, Body: io.NopCloser(bytes.NewReader(raw))})
	if err != nil {
		return nil, err
	}
	if raw, err = io.ReadAll(p.Body); err != nil {
		p.Body.Close()
		return nil, err
	}
	p.Body = transport.NewBody(strings.NewReader(base64.StdEncoding.EncodeToString(raw)), p.Body)
	p.Request = q
	return p, nil
}

// concurrent runs the histories of several clients one after the other, and
// then again at the same time under a schedule of the simulator.
func (w *world) concurrent(t *tape) {
	k := 2 + t.Misc.N(3)
	same := t.Misc.W(4, 1, 1, 1) // what the clients have in common
	kind := t.Misc.N(5)          // whether they share a transport
	debug := t.Misc.P(15)
	conf := func(l []*sess) func(*sess) {
		return func(s *sess) {
			if len(l) > 0 {
				switch same {
				case 1:
					s.code = l[0].code
				case 2:
					s.user = l[0].user
				case 3:
					s.pin = l[0].pins[0]
					s.pins = []string{s.pin}
				}
			}
			s.debug = debug
			s.shared = sharedTransport(kind)
			if kind >= 2 && kind < 4 && len(l) > 0 {
				s.shared = l[0].shared
			}
		}
	}
	name := func(i int) string { return fmt.Sprintf("c%d.", i) }
	var alone []*sess
	for i := 0; i < k; i++ {
		alone = append(alone, w.session(i, t.Sub(name(i)), conf(alone)))
	}
	w.variant = 1
	// the first client once more, after the others have been there
	rt := t.again()
	again := w.session(0, rt.Sub(name(0)), conf(nil))
	w.compareSess(alone[0], again, "after the other clients")

	w.variant = 2
	rt = t.again()
	var l []*sess
	var fns []func()
	panics := make([]interface{}, k)
	for i := 0; i < k; i++ {
		s := newSess(w, i, rt.Sub(name(i)))
		conf(l)(s)
		l = append(l, s)
		fns = append(fns, func() {
			defer func() {
				if r := recover(); r != nil {
					panics[s.id] = fmt.Sprintf("%v %s", r, panicChain())
				}
			}()
			s.play()
		})
	}
	bindAll(l)
	w.tasks = k
	sch := t.Sched
	budget := 4000
	simrt.PickTask = sch.N
	simrt.NextSwitch = func() int {
		if budget--; budget < 0 {
			return 1 << 40
		}
		v := sch.N(2000)
		if v == 0 {
			return 1 << 40 // not before the task ends
		}
		x := v / 4
		switch v % 4 {
		case 0:
			return 1 + x%5
		case 1:
			return 1 + x%50
		case 2:
			return 1 + x*2
		}
		return 1 + x*40
	}
	switch sch.N(4) {
	case 2:
		simrt.Heat(uint64(sch.N(1<<30)), 16, 30)
	case 3:
		simrt.Heat(uint64(sch.N(1<<30)), 80, 100)
	default:
		simrt.Heat(0, 0, 0)
	}
	simrt.RunTasks(fns)
	w.tasks = 0
	for i, p := range panics {
		if p != nil {
			w.violate("HARNESS", "panic", "session %d: %v", i, p)
			return
		}
	}
	w.mix("sched", fmt.Sprint(simrt.SchedHash))
	for i := range l {
		w.st.SimSecs += l[i].clock.Sub(l[i].base).Seconds()
		w.compareSess(alone[i], l[i], "at the same time as other clients")
	}
}

// compareSess compares what a client sent and obtained in two executions.
func (w *world) compareSess(a, b *sess, how string) {
	w.st.check("alone-or-not")
	v := func(class, f string, x ...interface{}) {
		w.violate("P19", class, "client %d, working %s: %s", a.id, how, fmt.Sprintf(f, x...))
	}
	for i := range a.ops {
		if i >= len(b.ops) {
			v("ops", "stops before operation %d", i)
			return
		}
		x, y := a.ops[i], b.ops[i]
		where := fmt.Sprintf("operation %d (%s %s)", i, x.kind, x.desc)
		for j, m := range x.exs {
			if j >= len(y.exs) {
				v("messages", "%s sends %d messages instead of %d (error %v instead of %v)", where, len(y.exs), len(x.exs), y.err, x.err)
				return
			}
			if !bytes.Equal(m.raw, y.exs[j].raw) {
				v("request", "%s message %d: sends %s instead of %s", where, j, show(y.exs[j].raw), show(m.raw))
				return
			}
		}
		if len(y.exs) > len(x.exs) {
			v("messages", "%s sends %d messages instead of %d", where, len(y.exs), len(x.exs))
			return
		}
		if (x.panicV == nil) != (y.panicV == nil) {
			v("crash", "%s: crashes (%v at %s) or not (%v at %s)", where, y.panicV, y.chain, x.panicV, x.chain)
			return
		}
		if fmt.Sprint(x.err) != fmt.Sprint(y.err) {
			v("error", "%s: returns error %v instead of %v", where, y.err, x.err)
			return
		}
		if d := diffRows(x.rows, y.rows); d != "" {
			v("result", "%s: the result differs: %s", where, d)
			return
		}
	}
	if len(b.ops) > len(a.ops) {
		v("ops", "executes %d operations instead of %d", len(b.ops), len(a.ops))
	}
}

var _ = io.EOF
