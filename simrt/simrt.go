// Package simrt is the run-time half of the simulator: the seams that the
// instrumented build of go-hbci calls instead of the clock, the random number
// generators, map iteration, locks and goroutine creation. One simulated task
// runs at a time; who runs next is decided here from the run's schedule
// stream, so a run is a pure function of its choice tape.
package simrt

import (
	"fmt"
	"log"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- captured stdio

// RealStdout and RealStderr are the process's own streams. os.Stdout and
// os.Stderr are replaced before any package of the code under test is
// initialised, so everything it prints can be inspected.
var (
	RealStdout = os.Stdout
	RealStderr = os.Stderr
	capOut     *os.File
	capErr     *os.File
)

func init() {
	if os.Getenv("VERIF_NO_CAPTURE") != "" {
		return
	}
	capOut = tempFile()
	capErr = tempFile()
	os.Stdout = capOut
	os.Stderr = capErr
	log.SetOutput(capErr)
}

func tempFile() *os.File {
	f, err := os.CreateTemp("", "simcap")
	if err != nil {
		fmt.Fprintln(RealStderr, "simrt: cannot create capture file:", err)
		os.Exit(2)
	}
	os.Remove(f.Name())
	return f
}

func take(f *os.File) string {
	if f == nil {
		return ""
	}
	n, _ := f.Seek(0, 1)
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	f.ReadAt(b, 0)
	f.Seek(0, 0)
	f.Truncate(0)
	return string(b)
}

// TakeStdout returns and clears what was printed since the last call.
func TakeStdout() string { return take(capOut) }

// TakeStderr returns and clears what was printed since the last call.
func TakeStderr() string { return take(capErr) }

// ---------------------------------------------------------------- step counter, coverage

// BudgetExceeded is the panic value with which a run that takes too many steps ends.
type BudgetExceeded struct{ Steps uint64 }

// HugeAlloc is the panic value for an allocation out of proportion.
type HugeAlloc struct{ N int64 }

func (b BudgetExceeded) String() string { return "step budget exceeded" }
func (h HugeAlloc) String() string      { return fmt.Sprintf("allocation of %d elements requested", h.N) }

const maxSites = 1 << 16

var (
	on         bool
	steps      uint64
	budget     uint64
	hits       [maxSites]uint32
	allocLimit int64 = 1 << 62
)

// Begin starts a run.
func Begin(stepBudget uint64, maxAlloc int64) {
	steps = 0
	budget = stepBudget
	allocLimit = maxAlloc
	on = true
}

// End finishes a run.
func End() { on = false; noYield = 0 }

// SetBudget gives the code under test n more steps from now on.
func SetBudget(n uint64) { budget = steps + n }

// Steps is the number of statements executed since Begin.
func Steps() uint64 { return steps }

// Hits is the number of executions per instrumented statement of this process.
func Hits() []uint32 { return hits[:] }

// Pause stops counting and switching (harness code calling into the library
// for its own purposes) and returns the function that resumes.
func Pause() func() {
	o := on
	on = false
	return func() { on = o }
}

// Y is called before every instrumented statement.
func Y(site int) {
	if !on {
		return
	}
	steps++
	hits[site&(maxSites-1)]++
	if steps > budget {
		budget = steps + 1000 // let deferred functions run a little
		panic(BudgetExceeded{steps})
	}
	if multi && noYield == 0 {
		untilSwitch--
		if untilSwitch <= 0 || hot[site&(maxSites-1)] > 0 {
			if hot[site&(maxSites-1)] > 0 {
				hot[site&(maxSites-1)]--
			}
			reschedule()
		}
	}
}

// hot holds how often the task is interrupted before a statement because of
// where it is, so that code which runs rarely is interrupted as well.
var hot [maxSites]uint8

// Heat makes every n-th statement, at random, one before which tasks are
// interrupted the given number of times; none if n is 0.
func Heat(salt uint64, n int, times uint8) {
	for i := range hot {
		hot[i] = 0
		if n == 0 {
			continue
		}
		x := (uint64(i) + salt) * 0x9e3779b97f4a7c15
		x ^= x >> 29
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 32
		if x%uint64(n) == 0 {
			hot[i] = times
		}
	}
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// N checks a size given to make.
func N[T integer](n T) T {
	if on && int64(n) > allocLimit {
		panic(HugeAlloc{int64(n)})
	}
	return n
}

// ---------------------------------------------------------------- clock

// NowFn is the simulated clock of the current run.
var NowFn func() time.Time

// SleepFn advances the simulated clock.
var SleepFn func(time.Duration)

var epoch = time.Date(2020, 5, 4, 12, 0, 0, 0, time.UTC)

// Now replaces time.Now.
func Now() time.Time {
	if NowFn == nil {
		return epoch
	}
	return NowFn()
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	if SleepFn != nil {
		SleepFn(d)
	}
	Yield()
}

// ---------------------------------------------------------------- randomness

// RandFn fills b with simulated randomness.
var RandFn func(b []byte)

// RandFault limits what one read gets: so many of the wanted bytes, and an
// error. A short read without an error only happens to readers of RandReader.
var RandFault func(want int) (int, error)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	if len(b) == 1 {
		// crypto/internal/randutil.MaybeReadByte reads a byte, or does not,
		// by the toss of a coin no seed decides; it must not count.
		var pc [8]uintptr
		fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc[:])])
		for more := true; more; {
			var f runtime.Frame
			f, more = fr.Next()
			if strings.Contains(f.Function, "MaybeReadByte") {
				b[0] = 0
				return 1, nil
			}
		}
	}
	n, err := len(b), error(nil)
	if RandFault != nil {
		n, err = RandFault(len(b))
	}
	if RandFn != nil {
		RandFn(b[:n])
	} else {
		for i := range b[:n] {
			b[i] = byte(i*7 + 1)
		}
	}
	return n, err
}

// RandReader replaces crypto/rand.Reader.
var RandReader = reader{}

// RandRead replaces crypto/rand.Read.
func RandRead(b []byte) (int, error) {
	n := 0
	for n < len(b) {
		k, err := RandReader.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

// ---------------------------------------------------------------- map iteration

// MapPerm returns a permutation of n elements for one map iteration.
var MapPerm func(n int) []int

// MapIter iterates over a map in simulator-chosen order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapStart begins an iteration.
func MapStart[M ~map[K]V, K comparable, V any](m M) (K, V, *MapIter[K, V]) {
	it := &MapIter[K, V]{m: m}
	it.keys = make([]K, 0, len(m))
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if MapPerm != nil && on && len(it.keys) > 1 {
		p := MapPerm(len(it.keys))
		out := make([]K, len(it.keys))
		for i, j := range p {
			out[i] = it.keys[j]
		}
		it.keys = out
	}
	var k K
	var v V
	return k, v, it
}

func sortKeys[K comparable](keys []K) {
	if ss, ok := any(keys).([]string); ok {
		sort.Strings(ss)
		return
	}
	str := make(map[K]string, len(keys))
	for _, k := range keys {
		rv := reflect.ValueOf(k)
		if rv.IsValid() && rv.Kind() == reflect.Int {
			str[k] = fmt.Sprintf("%020d", rv.Int())
		} else {
			str[k] = fmt.Sprintf("%v", k)
		}
	}
	sort.SliceStable(keys, func(i, j int) bool { return str[keys[i]] < str[keys[j]] })
}

// Next stores the next entry, skipping entries deleted meanwhile.
func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		kk := it.keys[it.i]
		it.i++
		vv, ok := it.m[kk]
		if !ok && kk == kk {
			continue
		}
		*k, *v = kk, vv
		return true
	}
	return false
}

// NextK is Next for loops without value variable.
func (it *MapIter[K, V]) NextK(k *K) bool {
	var v V
	return it.Next(k, &v)
}

// Next0 is Next for loops without variables.
func (it *MapIter[K, V]) Next0() bool {
	var k K
	var v V
	return it.Next(&k, &v)
}

// MapStart0 is MapStart returning the iterator only.
func MapStart0[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	_, _, it := MapStart(m)
	return it
}

// MapStartK is MapStart for loops with a key variable only.
func MapStartK[M ~map[K]V, K comparable, V any](m M) (K, *MapIter[K, V]) {
	k, _, it := MapStart(m)
	return k, it
}

// MapStartV is MapStart for loops with a value variable only.
func MapStartV[M ~map[K]V, K comparable, V any](m M) (V, *MapIter[K, V]) {
	_, v, it := MapStart(m)
	return v, it
}

// NextV is Next for loops with a value variable only.
func (it *MapIter[K, V]) NextV(v *V) bool {
	var k K
	return it.Next(&k, v)
}

// ---------------------------------------------------------------- process exit

// ExitCode is the panic value that replaces os.Exit.
type ExitCode struct{ Code int }

// Exit replaces os.Exit in the command line tool.
func Exit(code int) { panic(ExitCode{code}) }

// ---------------------------------------------------------------- tasks

// Task is one simulated thread of the caller.
type Task struct {
	ID   int
	wake chan struct{}
	done bool
}

var (
	multi       bool
	noYield     int
	untilSwitch int
	tasks       []*Task
	cur         *Task
	allDone     chan struct{}
	// NextSwitch returns after how many statements the running task is
	// interrupted next, PickTask which of n runnable tasks continues.
	NextSwitch func() int
	PickTask   func(n int) int
	// Switches counts task switches, SchedHash is a digest of them.
	Switches  int
	SchedHash uint64
)

// CurrentTask is the ID of the running task (0 when not in multi mode).
func CurrentTask() int {
	if cur == nil {
		return 0
	}
	return cur.ID
}

// RunTasks runs the functions as concurrent tasks and returns when all ended.
// The functions must not panic.
func RunTasks(fns []func()) {
	tasks = nil
	allDone = make(chan struct{})
	Switches, SchedHash = 0, 14695981039346656037
	for i, f := range fns {
		spawn(i, f)
	}
	multi = true
	untilSwitch = NextSwitch()
	cur = tasks[PickTask(len(tasks))]
	cur.wake <- struct{}{}
	<-allDone
	multi = false
	cur = nil
	tasks = nil
}

func spawn(id int, f func()) *Task {
	t := &Task{ID: id, wake: make(chan struct{})}
	tasks = append(tasks, t)
	go func() {
		<-t.wake
		f()
		finish(t)
	}()
	return t
}

func runnable() []*Task {
	var r []*Task
	for _, t := range tasks {
		if !t.done {
			r = append(r, t)
		}
	}
	return r
}

func finish(t *Task) {
	t.done = true
	r := runnable()
	if len(r) == 0 {
		close(allDone)
		return
	}
	switchTo(nil, r[PickTask(len(r))])
}

func switchTo(from, to *Task) {
	untilSwitch = NextSwitch()
	if from == to {
		return
	}
	Switches++
	SchedHash = (SchedHash ^ uint64(to.ID+1) ^ steps<<8) * 1099511628211
	cur = to
	to.wake <- struct{}{}
	if from != nil {
		<-from.wake
	}
}

func reschedule() {
	r := runnable()
	switchTo(cur, r[PickTask(len(r))])
}

// Yield gives the other tasks a chance to run.
func Yield() {
	if multi && noYield == 0 && on {
		reschedule()
	}
}

// Lock acquires a lock through its try function without blocking the
// simulator's only running thread.
func Lock(try func() bool, lock func()) {
	if multi && noYield == 0 {
		for !try() {
			giveWay()
		}
		return
	}
	if !on {
		lock()
		return
	}
	wait(try)
}

// giveWay lets another task run because the present one has to wait.
func giveWay() {
	steps += 50
	if steps > budget {
		panic(BudgetExceeded{steps})
	}
	var o []*Task
	for _, t := range runnable() {
		if t != cur {
			o = append(o, t)
		}
	}
	if len(o) == 0 {
		panic(BudgetExceeded{steps})
	}
	switchTo(cur, o[PickTask(len(o))])
}

// wait polls for what only a thread that is not simulated can bring about.
func wait(try func() bool) {
	for i := 0; !try(); i++ {
		if i < 100 {
			runtime.Gosched()
			continue
		}
		if i > 700 {
			panic(BudgetExceeded{steps})
		}
		time.Sleep(time.Millisecond)
	}
}

// Block runs an operation that may wait for other tasks.
func Block(f func()) {
	if !on {
		f()
		return
	}
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	var p interface{}
	try := func() bool {
		select {
		case p = <-done:
			return true
		default:
			return false
		}
	}
	settle := func() bool {
		for i := 0; i < 50; i++ {
			if try() {
				return true
			}
			runtime.Gosched()
		}
		return false
	}
	if !multi || noYield > 0 {
		wait(settle)
	} else {
		for i := 0; !settle(); i++ {
			// all tasks may be waiting, for a timer perhaps
			if i > 3000 {
				panic(BudgetExceeded{steps})
			}
			if i > 20 {
				time.Sleep(time.Millisecond)
			}
			steps++
			reschedule()
		}
	}
	if p != nil {
		panic(p)
	}
}

// Send sends.
func Send[T any](c chan<- T, v T) {
	select {
	case c <- v:
		return
	default:
	}
	Block(func() { c <- v })
}

// SendTo returns the function that sends.
func SendTo[T any](c chan<- T) func(T) { return func(v T) { Send(c, v) } }

// Recv receives.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 receives.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	select {
	case v, ok = <-c:
		return
	default:
	}
	Block(func() { v, ok = <-c })
	return
}

// Ranger ranges over a channel.
type Ranger[T any] struct {
	c <-chan T
	V T
}

// Range starts ranging over a channel.
func Range[T any](c <-chan T) *Ranger[T] { return &Ranger[T]{c: c} }

// Next receives the next value.
func (r *Ranger[T]) Next() (ok bool) {
	r.V, ok = Recv2(r.c)
	return
}

// Box returns an empty box.
func Box() *interface{} { return new(interface{}) }

// First returns the value it was given the first time it got the box.
func First[T any](b *interface{}, v T) T {
	if *b == nil {
		*b = v
	}
	return (*b).(T)
}

// SelectWait is called when no case of a select statement is ready.
func SelectWait() {
	if !on {
		time.Sleep(20 * time.Microsecond)
		return
	}
	steps += budget/30000 + 1
	if steps > budget {
		panic(BudgetExceeded{steps})
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	if multi && noYield == 0 {
		reschedule()
	} else {
		time.Sleep(50 * time.Microsecond)
	}
}

// OnceDo runs once.Do without task switches inside.
func OnceDo(once *sync.Once, f func()) {
	noYield++
	defer func() { noYield-- }()
	once.Do(f)
}

// Go replaces the go statement.
func Go(f func()) {
	if !multi {
		go f()
		return
	}
	spawn(len(tasks), f)
}

// Hold forbids task switches until the returned function is called.
func Hold() func() {
	noYield++
	return func() { noYield-- }
}

// NoYield runs f without task switches.
func NoYield(f func()) {
	noYield++
	defer func() { noYield-- }()
	f()
}

// LogFatal replaces log.Fatal.
func LogFatal(v ...interface{}) { fmt.Fprint(os.Stderr, v...); panic(ExitCode{1}) }

// LogFatalf replaces log.Fatalf.
func LogFatalf(f string, v ...interface{}) { fmt.Fprintf(os.Stderr, f, v...); panic(ExitCode{1}) }

// LogFatalln replaces log.Fatalln.
func LogFatalln(v ...interface{}) { fmt.Fprintln(os.Stderr, v...); panic(ExitCode{1}) }
