package main

// Choice streams. Every decision of a run is drawn from a named stream; a run
// is a pure function of the recorded values and the code under test. In search
// mode values come from a seeded generator and are recorded, in replay mode
// they are read back, and a missing value is 0. Value 0 is always the simplest
// choice (no fault, no switch, first alternative), so that zeroing and cutting
// the recording simplifies a failing run.

type prng struct{ s uint64 }

func newPrng(seed uint64) *prng { return &prng{seed*0x9E3779B97F4A7C15 + 0x632BE59BD9B4E019} }

func (p *prng) next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (p *prng) intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.next() % uint64(n))
}

type stream struct {
	name   string
	vals   []uint32
	pos    int
	rng    *prng
	replay bool
}

// N draws a value in [0,n).
func (s *stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.replay {
		if s.pos < len(s.vals) {
			v = s.vals[s.pos]
		}
	} else {
		v = uint32(s.rng.intn(n))
		s.vals = append(s.vals, v)
	}
	s.pos++
	return int(v) % n
}

// P is true with the given percentage; false is the simple outcome.
func (s *stream) P(pct int) bool {
	if pct <= 0 {
		return false
	}
	return s.N(100) >= 100-pct
}

// R draws from [lo,hi].
func (s *stream) R(lo, hi int) int { return lo + s.N(hi-lo+1) }

// W draws an index with the given weights.
func (s *stream) W(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	n := s.N(sum)
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

type tapeRoot struct {
	seed   uint64
	replay bool
	m      map[string]*stream
	order  []string
	src    map[string][]uint32
}

// tape is a family of streams of a run.
type tape struct {
	root                           *tapeRoot
	prefix                         string
	Gen, Fault, Clock, Sched, Misc *stream
}

func (r *tapeRoot) stream(name string) *stream {
	if s := r.m[name]; s != nil {
		return s
	}
	h := r.seed
	for _, c := range []byte(name) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	s := &stream{name: name, replay: r.replay}
	if r.replay {
		s.vals = r.src[name]
	} else {
		s.rng = newPrng(h)
	}
	r.m[name] = s
	r.order = append(r.order, name)
	return s
}

func (r *tapeRoot) tape(prefix string) *tape {
	return &tape{r, prefix, r.stream(prefix + "gen"), r.stream(prefix + "fault"),
		r.stream(prefix + "clock"), r.stream(prefix + "sched"), r.stream(prefix + "misc")}
}

// Sub is the family of streams with the given extra prefix.
func (t *tape) Sub(p string) *tape { return t.root.tape(t.prefix + p) }

func newTape(seed uint64) *tape {
	r := &tapeRoot{seed: seed, m: map[string]*stream{}}
	return r.tape("")
}

func replayTape(v map[string][]uint32) *tape {
	r := &tapeRoot{replay: true, src: v, m: map[string]*stream{}}
	return r.tape("")
}

// again returns a tape that reads back what was drawn so far, from the start.
func (t *tape) again() *tape {
	r := &tapeRoot{replay: true, src: t.record(), m: map[string]*stream{}}
	return r.tape(t.prefix)
}

// record returns the values consumed so far.
func (t *tape) record() map[string][]uint32 {
	m := map[string][]uint32{}
	for n, s := range t.root.m {
		k := s.pos
		if k > len(s.vals) {
			k = len(s.vals)
		}
		if k > 0 {
			m[n] = append([]uint32{}, s.vals[:k]...)
		}
	}
	return m
}
