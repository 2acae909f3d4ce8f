package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mitch000001/go-hbci/zz_verif/simrt"
)

// ---------------------------------------------------------------- worker

type foundViol struct {
	Seed  uint64 `json:"seed"`
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	N     int    `json:"n"`
}

type workerOut struct {
	St      *stats      `json:"st"`
	Hashes  []uint64    `json:"hashes"`
	Sched   []uint64    `json:"sched"`
	Viols   []foundViol `json:"viols"`
	Hits    []int       `json:"hits"`
	Trivial int         `json:"trivial"`
	Nondet  []uint64    `json:"nondet"`
	Next    uint64      `json:"next"`
	Sample  []string    `json:"sample"`
}

func seedOf(base uint64, i uint64) uint64 {
	p := newPrng(base*1000003 + i)
	return p.next()>>1 | 1
}

func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ContinueOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	from := fs.Uint64("from", 0, "")
	step := fs.Uint64("step", 1, "")
	n := fs.Uint64("n", 100, "")
	cap := fs.Float64("cap", 60, "")
	prog := fs.String("progress", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMaxStack(1 << 31)
	p := profiles[*prop]()
	out := &workerOut{St: newStats()}
	hs, ss := map[uint64]bool{}, map[uint64]bool{}
	viol := map[string]*foundViol{}
	start := time.Now()
	var pf *os.File
	if *prog != "" {
		pf, _ = os.Create(*prog)
	}
	for i := *from; i < *n; i += *step {
		if time.Since(start).Seconds() > *cap {
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%020d", i)), 0)
		}
		seed := seedOf(*base, i)
		t := newTape(seed)
		ex0 := out.St.Exchanges
		w := execRun(p, t, out.St, false)
		if out.St.Exchanges == ex0 && p.scen != "bankinfo" && p.scen != "keys" {
			out.Trivial++
		} else {
			hs[w.hash] = true
		}
		if simrt.Switches > 0 && p.scen == "conc" {
			ss[simrt.SchedHash] = true
			out.St.Switches += simrt.Switches
		}
		for _, v := range w.viols {
			k := v.Prop + " " + v.Class
			if f := viol[k]; f != nil {
				f.N++
			} else {
				viol[k] = &foundViol{seed, v.Prop, v.Class, v.Msg, 1}
			}
		}
		// determinism: some runs are repeated from their recording
		if i%64 == 0 {
			w2 := execRun(p, replayTape(t.record()), newStats(), false)
			if w2.hash != w.hash || len(w2.viols) != len(w.viols) {
				out.Nondet = append(out.Nondet, seed)
			}
		}
		if len(out.Sample) < 1 && i >= *step*3 {
			w3 := execRun(p, replayTape(t.record()), newStats(), true)
			out.Sample = append(out.Sample, fmt.Sprintf("seed %d: %s", seed, sampleOf(w3.trace)))
		}
		out.Next = i + *step
	}
	for h := range hs {
		out.Hashes = append(out.Hashes, h)
	}
	for h := range ss {
		out.Sched = append(out.Sched, h)
	}
	for _, v := range viol {
		out.Viols = append(out.Viols, *v)
	}
	for i, h := range simrt.Hits() {
		if h > 0 {
			out.Hits = append(out.Hits, i)
		}
	}
	json.NewEncoder(simrt.RealStdout).Encode(out)
	return 0
}

func sampleOf(tr []string) string {
	var o []string
	for _, l := range tr {
		if len(l) > 260 {
			l = l[:260] + "…"
		}
		o = append(o, l)
		if len(o) > 24 {
			break
		}
	}
	return strings.Join(o, " | ")
}

// ---------------------------------------------------------------- replay files

type replayFile struct {
	Property string              `json:"property"`
	Class    string              `json:"class"`
	Message  string              `json:"message"`
	Seed     uint64              `json:"seed"`
	Profile  string              `json:"profile"`
	Tape     map[string][]uint32 `json:"tape"`
	Trace    []string            `json:"trace"`
}

func runTape(prof string, v map[string][]uint32, tracing bool) *world {
	return execRun(profiles[prof](), replayTape(v), newStats(), tracing)
}

func findV(w *world, prop, class string) *violation {
	for i := range w.viols {
		if w.viols[i].Prop == prop && w.viols[i].Class == class {
			return &w.viols[i]
		}
	}
	return nil
}

func copyTape(v map[string][]uint32) map[string][]uint32 {
	m := map[string][]uint32{}
	for k, x := range v {
		m[k] = append([]uint32{}, x...)
	}
	return m
}

// minimise cuts and zeroes a failing recording while the violation stays.
func minimise(prof, prop, class string, v map[string][]uint32, limit time.Duration) map[string][]uint32 {
	end := time.Now().Add(limit)
	fails := func(c map[string][]uint32) bool {
		if time.Now().After(end) {
			return false
		}
		return findV(runTape(prof, c, false), prop, class) != nil
	}
	cur := copyTape(v)
	names := func() []string {
		var n []string
		for k := range cur {
			n = append(n, k)
		}
		sort.Slice(n, func(i, j int) bool {
			return len(cur[n[i]]) > len(cur[n[j]]) || len(cur[n[i]]) == len(cur[n[j]]) && n[i] < n[j]
		})
		return n
	}
	for round := 0; round < 4 && time.Now().Before(end); round++ {
		before := weight(cur)
		for _, k := range names() {
			c := copyTape(cur)
			delete(c, k)
			if fails(c) {
				cur = c
			}
		}
		for _, k := range names() {
			// cut the tail
			for n := len(cur[k]) / 2; n > 0; n /= 2 {
				for len(cur[k]) >= n {
					c := copyTape(cur)
					c[k] = c[k][:len(c[k])-n]
					if !fails(c) {
						break
					}
					cur = c
				}
			}
			// zero and remove blocks
			for n := len(cur[k]); n > 0; n /= 2 {
				for i := 0; i < len(cur[k]); i += n {
					j := i + n
					if j > len(cur[k]) {
						j = len(cur[k])
					}
					nz := false
					for _, x := range cur[k][i:j] {
						nz = nz || x != 0
					}
					if nz {
						c := copyTape(cur)
						for q := i; q < j; q++ {
							c[k][q] = 0
						}
						if fails(c) {
							cur = c
							continue
						}
					}
					if n <= 16 {
						c := copyTape(cur)
						c[k] = append(c[k][:i], c[k][j:]...)
						if fails(c) {
							cur = c
						}
					}
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		// smaller values
		for _, k := range names() {
			for i := 0; i < len(cur[k]) && time.Now().Before(end); i++ {
				for _, x := range []uint32{1, 2, cur[k][i] / 2} {
					if x < cur[k][i] {
						c := copyTape(cur)
						c[k][i] = x
						if fails(c) {
							cur = c
							break
						}
					}
				}
			}
		}
		if weight(cur) == before {
			break
		}
	}
	return cur
}

func weight(v map[string][]uint32) int {
	n := 0
	for _, x := range v {
		n += len(x)
		for _, y := range x {
			if y != 0 {
				n += 3
			}
		}
	}
	return n
}

func writeReplay(dir, prof string, f foundViol, limit time.Duration) (string, *replayFile) {
	t := newTape(f.Seed)
	execRun(profiles[prof](), t, newStats(), false)
	v := minimise(prof, f.Prop, f.Class, t.record(), limit)
	w := runTape(prof, v, true)
	x := findV(w, f.Prop, f.Class)
	if x == nil {
		v = t.record()
		w = runTape(prof, v, true)
		x = findV(w, f.Prop, f.Class)
	}
	msg := f.Msg
	if x != nil {
		msg = x.Msg
	}
	r := &replayFile{f.Prop, f.Class, msg, f.Seed, prof, v, w.trace}
	os.MkdirAll(dir, 0o755)
	name := regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(f.Class, "-")
	if len(name) > 50 {
		name = name[:50]
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", f.Prop, strings.Trim(name, "-"), f.Seed%100000))
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path, r
}

func cmdReplay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(simrt.RealStderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil || profiles[r.Profile] == nil {
		fmt.Fprintln(simrt.RealStderr, "not a replay file:", err)
		return 2
	}
	var w *world
	if r.Tape == nil {
		w = execRun(profiles[r.Profile](), newTape(r.Seed), newStats(), true) // the process died: only the seed is known
	} else {
		w = runTape(r.Profile, r.Tape, true)
	}
	for _, l := range w.trace {
		fmt.Fprintln(simrt.RealStdout, l)
	}
	if v := findV(w, r.Property, r.Class); v != nil {
		same := strings.Join(w.trace, "\n") == strings.Join(r.Trace, "\n")
		fmt.Fprintf(simrt.RealStdout, "VIOLATION property=%s replay=%s\n  %s\n  trace identical to the recorded one: %v\n", r.Property, args[0], v.Msg, same)
		return 1
	}
	fmt.Fprintf(simrt.RealStdout, "the violation of %s does not occur\n", r.Property)
	return 0
}

func cmdTrace(args []string) int {
	fs := flag.NewFlagSet("trace", flag.ContinueOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	fs.Parse(args)
	w := execRun(profiles[*prop](), newTape(*seed), newStats(), true)
	for _, l := range w.trace {
		fmt.Fprintln(simrt.RealStdout, l)
	}
	return 0
}

// ---------------------------------------------------------------- check

type knownFinding struct {
	Property string `json:"property"`
	Class    string `json:"class"`   // the violation class, exactly
	Message  string `json:"message"` // a regular expression the violation has to match
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ContinueOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	n := fs.Uint64("n", 1000, "")
	cap := fs.Float64("cap", 60, "")
	workers := fs.Int("workers", 8, "")
	tier := fs.String("tier", "quick", "")
	known := fs.String("known", "", "")
	replays := fs.String("replays", "", "")
	evidence := fs.String("evidence", "", "")
	sites := fs.String("sites", "", "")
	hits := fs.String("hits", "", "file to write the positions of executed statements to (development)")
	all := fs.Bool("all", false, "report violations of every property (development)")
	fs.Parse(args)
	o := simrt.RealStdout
	start := time.Now()
	if profiles[*prop] == nil {
		fmt.Fprintln(o, "unknown property", *prop)
		return 2
	}
	var kf knownFile
	if *known != "" {
		b, err := os.ReadFile(*known)
		if err == nil {
			err = json.Unmarshal(b, &kf)
		}
		if err != nil {
			fmt.Fprintln(o, "cannot read known findings:", err)
			return 2
		}
	}
	self, _ := os.Executable()
	outs := make([]*workerOut, 0)
	var mu sync.Mutex
	var wg sync.WaitGroup
	fail := ""
	var crashes []foundViol
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			from := uint64(k)
			for tries := 0; tries < 5; tries++ {
				left := *cap - time.Since(start).Seconds()
				if left <= 0 || from >= *n {
					return
				}
				pf := filepath.Join(os.TempDir(), fmt.Sprintf("simprog-%d-%d", os.Getpid(), k))
				cmd := exec.Command(self, "worker", "-prop", *prop, "-base", fmt.Sprint(*base), "-from", fmt.Sprint(from),
					"-step", fmt.Sprint(*workers), "-n", fmt.Sprint(*n), "-cap", fmt.Sprint(left), "-progress", pf)
				var ob, eb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &ob, &eb
				hard := time.AfterFunc(time.Duration((left+60)*float64(time.Second)), func() { cmd.Process.Kill() })
				err := cmd.Run()
				hard.Stop()
				pb, _ := os.ReadFile(pf)
				os.Remove(pf)
				var x workerOut
				if err == nil {
					err = json.NewDecoder(bufio.NewReader(&ob)).Decode(&x)
				}
				mu.Lock()
				if err == nil {
					outs = append(outs, &x)
					mu.Unlock()
					return
				}
				var i uint64
				fmt.Sscan(string(pb), &i)
				e := eb.String()
				if len(e) > 400 {
					e = e[:400]
				}
				crashes = append(crashes, foundViol{seedOf(*base, i), "P11", "process-dies", fmt.Sprintf("the whole process ends: %v %s", err, e), 1})
				mu.Unlock()
				from = i + uint64(*workers)
			}
			mu.Lock()
			fail = "a worker died repeatedly"
			mu.Unlock()
		}(k)
	}
	wg.Wait()
	if len(outs) == 0 || fail != "" {
		for _, c := range crashes {
			fmt.Fprintln(o, c.Seed, c.Msg)
		}
		if *prop != "P11" {
			fmt.Fprintln(o, "check cannot run:", fail)
			return 2
		}
	}
	// merge
	st := newStats()
	hs, ss := map[uint64]bool{}, map[uint64]bool{}
	hit := map[int]bool{}
	viol := map[string]*foundViol{}
	var nondet []uint64
	var samples []string
	trivial := 0
	add := func(v foundViol) {
		k := v.Prop + " " + v.Class
		if f := viol[k]; f == nil {
			c := v
			viol[k] = &c
		} else {
			c := v
			c.N += f.N
			if f.Seed < v.Seed {
				c.Seed, c.Msg = f.Seed, f.Msg
			}
			viol[k] = &c
		}
	}
	for _, x := range outs {
		mergeStats(st, x.St)
		for _, h := range x.Hashes {
			hs[h] = true
		}
		for _, h := range x.Sched {
			ss[h] = true
		}
		for _, h := range x.Hits {
			hit[h] = true
		}
		for _, v := range x.Viols {
			add(v)
		}
		nondet = append(nondet, x.Nondet...)
		samples = append(samples, x.Sample...)
		trivial += x.Trivial
	}
	for _, c := range crashes {
		add(c)
	}
	simWall := time.Since(start).Seconds()
	var list []*foundViol
	harness := false
	for _, v := range viol {
		if v.Prop == "HARNESS" && !*all {
			fmt.Fprintf(o, "the simulator itself failed: seed %d %s %s\n", v.Seed, v.Class, v.Msg)
			harness = true
		}
		if v.Prop == *prop || *all {
			list = append(list, v)
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Prop+list[i].Class < list[j].Prop+list[j].Class })
	exit := 0
	newV := 0
	knownHits := map[string]bool{}
	for _, v := range list {
		isKnown := false
		for _, k := range kf.Findings {
			if k.Property == v.Prop && k.Class == v.Class {
				if ok, _ := regexp.MatchString(k.Message, v.Msg); ok {
					isKnown = true
					knownHits[k.What] = true
				}
			}
		}
		if isKnown {
			continue
		}
		newV++
		exit = 1
		if *all {
			fmt.Fprintf(o, "%s [%s] n=%d seed=%d\n    %s\n", v.Prop, v.Class, v.N, v.Seed, v.Msg)
			continue
		}
		if newV > 4 {
			continue
		}
		path := fmt.Sprintf("seed:%d", v.Seed)
		if v.Class == "process-dies" {
			r := &replayFile{v.Prop, v.Class, v.Msg, v.Seed, *prop, nil, nil}
			os.MkdirAll(*replays, 0o755)
			path = filepath.Join(*replays, fmt.Sprintf("%s-process-dies-%d.json", v.Prop, v.Seed%100000))
			b, _ := json.MarshalIndent(r, "", " ")
			os.WriteFile(path, b, 0o644)
		} else if *replays != "" {
			var r *replayFile
			path, r = writeReplay(*replays, *prop, *v, 20*time.Second)
			v.Msg = r.Message
		}
		fmt.Fprintf(o, "VIOLATION property=%s replay=%s\n  [%s] seen %d times; %s\n", v.Prop, path, v.Class, v.N, v.Msg)
	}
	// every listed finding is announced, found in this run or not
	for _, k := range kf.Findings {
		if k.Property == *prop {
			fmt.Fprintf(o, "KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		}
	}
	if len(nondet) > 0 {
		// the verdicts stand; that these runs cannot be repeated exactly is in the evidence
		fmt.Fprintf(o, "warning: %d runs were not repeated exactly (e.g. seed %d)\n", len(nondet), nondet[0])
	}
	if harness && exit == 0 {
		exit = 2
	}
	if *hits != "" {
		var sf siteFile
		if b, err := os.ReadFile(*sites); err == nil {
			json.Unmarshal(b, &sf)
		}
		var l []string
		for i, x := range sf.Sites {
			if hit[i] {
				l = append(l, x)
			}
		}
		os.WriteFile(*hits, []byte(strings.Join(l, "\n")), 0o644)
	}
	wall := time.Since(start).Seconds()
	if *evidence != "" {
		if err := writeEvidence(*evidence, *prop, *tier, *base, st, len(hs), len(ss), trivial, hit, *sites, samples, wall, simWall, newV, knownHits, len(nondet)); err != nil {
			fmt.Fprintln(o, "cannot write evidence:", err)
			return 2
		}
	}
	fmt.Fprintf(o, "%s: %d runs, %d distinct, %d exchanges, %d operations (%d ok, %d failed), %d rows, %d switches, %d interleavings, %.1f s, max steps %d, violations %d, known %d\n",
		*prop, st.Runs, len(hs), st.Exchanges, st.Ops, st.OkOps, st.FailOps, st.Rows, st.Switches, len(ss), wall, st.MaxSteps, newV, len(knownHits))
	return exit
}

func mergeStats(a, b *stats) {
	a.Runs += b.Runs
	a.Exchanges += b.Exchanges
	a.Ops += b.Ops
	a.OkOps += b.OkOps
	a.FailOps += b.FailOps
	a.Rows += b.Rows
	a.Pages += b.Pages
	a.Switches += b.Switches
	a.Steps += b.Steps
	a.SimSecs += b.SimSecs
	if b.MaxSteps > a.MaxSteps {
		a.MaxSteps = b.MaxSteps
	}
	for k, v := range b.OpKinds {
		a.OpKinds[k] += v
	}
	for k, v := range b.Faults {
		a.Faults[k] += v
	}
	for k, v := range b.Checks {
		a.Checks[k] += v
	}
	for k, v := range b.States {
		a.States[k] += v
	}
}

type siteFile struct {
	Sites []string `json:"sites"`
}

func writeEvidence(path, prop, tier string, seed uint64, st *stats, distinct, sched, trivial int, hit map[int]bool, sites string, samples []string, wall, simWall float64, viols int, known map[string]bool, nondet int) error {
	var sf siteFile
	if b, err := os.ReadFile(sites); err == nil {
		json.Unmarshal(b, &sf)
	}
	pkgs := map[string][2]int{}
	for i, s := range sf.Sites {
		f := s[:strings.LastIndexByte(s, ':')]
		d := filepath.Dir(f)
		x := pkgs[d]
		x[1]++
		if hit[i] {
			x[0]++
		}
		pkgs[d] = x
	}
	cov := map[string]string{}
	for d, x := range pkgs {
		if x[0] > 0 {
			cov[d] = fmt.Sprintf("%d of %d statements", x[0], x[1])
		}
	}
	if len(samples) > 3 {
		samples = samples[:3]
	}
	sort.Strings(samples)
	d := describe(prop)
	var kl []string
	for k := range known {
		kl = append(kl, k)
	}
	sort.Strings(kl)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": viols,
		"assumptions": d.assumptions,
		"coverage": map[string]interface{}{
			"evaluations":                  st.Runs,
			"distinct_nontrivial":          distinct,
			"rule":                         d.rule,
			"samples":                      samples,
			"runs_per_hour":                int(float64(st.Runs) / simWall * 3600),
			"simulated_days":               st.SimSecs / 86400,
			"exchanges":                    st.Exchanges,
			"operations":                   st.Ops,
			"operations_by_kind":           st.OpKinds,
			"operations_succeeded":         st.OkOps,
			"operations_failed":            st.FailOps,
			"rows_compared":                st.Rows,
			"pages_followed":               st.Pages,
			"fault_kinds_injected":         st.Faults,
			"oracle_evaluations":           st.Checks,
			"distinct_protocol_states":     len(st.States),
			"state_measure":                "operation kind x message kind x protocol version x fault x reply kind x (an earlier failure happened) x outcome",
			"task_switches":                st.Switches,
			"distinct_interleavings":       sched,
			"runs_without_exchange":        trivial,
			"statements_executed":          st.Steps,
			"longest_operation_statements": st.MaxSteps,
			"statement_coverage":           cov,
			"components_real":              d.real,
			"components_stub":              d.stub,
			"nondeterministic_runs":        nondet,
			"known_findings_seen":          kl,
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

type description struct {
	rule        string
	assumptions []string
	real, stub  []string
}

var _ = io.EOF
