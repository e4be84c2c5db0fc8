// Package props holds one file per property. Every check is a generator of a
// JSON-serialisable plan plus a function that executes the plan against the
// public API of media-sdk and compares the outcome with an oracle.
package props

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Out is the outcome of executing one plan.
type Out struct {
	Viol string   // empty if the property held
	NT   bool     // the case was non-trivial by the phase's rule
	Cls  []string // classes this case belongs to (for the histogram)
}

func bad(format string, args ...any) Out { return Out{Viol: fmt.Sprintf(format, args...)} }

func (o Out) cls(c ...string) Out { o.Cls = append(o.Cls, c...); return o }

type opts struct {
	build string     // "norm" (default), "race" or "both"
	n     [2]int     // cases per worker: quick, thorough
	sec   [2]float64 // seconds per worker: quick, thorough
	rule  string     // what makes a case non-trivial
	hang  time.Duration
	reps  int  // repetitions when replaying (racy phases)
	racy  bool // outcome depends on real scheduling
	exh   bool // the phase enumerates a finite space completely
	only1 bool // only worker 0 runs it
	slow  bool // a case may take seconds
}

// laps repeats a generated history now and then, up to limit elements, for what needs many operations to
// show. The rare factors cost about as much time as everything else.
func laps[T any](t *rapid.T, s []T, limit int) []T {
	if len(s) == 0 {
		return s
	}
	n := lapFactors[rapid.IntRange(0, 255).Draw(t, "laps")]
	if n == 0 {
		return s
	}
	return slices.Repeat(s, max(1, min(n, limit/len(s))))
}

// huge adds a length of tens of thousands of elements to a list of lengths now and then.
func huge(t *rapid.T, s []int) []int {
	if rapid.IntRange(0, 127).Draw(t, "huge?") != 77 {
		return s
	}
	n := rapid.OneOf(rapid.SampledFrom([]int{32766, 32768, 65534, 65536, 70000}), rapid.IntRange(2000, 35000)).Draw(t, "huge") &^ 1
	return slices.Insert(s, rapid.IntRange(0, len(s)).Draw(t, "where"), n)
}

// crowd is lo to hi usually, and up to many now and then.
func crowd(t *rapid.T, lo, hi, many int, label string) int {
	if rapid.IntRange(0, 127).Draw(t, "crowd?") == 77 {
		return rapid.IntRange(hi, many).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

var lapFactors = map[int]int{40: 3, 70: 3, 100: 3, 130: 3, 160: 3, 190: 3, 50: 12, 90: 12, 150: 12, 210: 12, 120: 60, 180: 200}

type phase struct {
	prop, name string
	o          opts
	runJSON    func(raw []byte) Out
	loop       func(r *runner)
	one        func(r *runner, t *rapid.T) // generates and runs one case; nil if the plans are listed
}

var phases []*phase

func norm(o opts) opts {
	if o.build == "" {
		o.build = "norm"
	}
	if o.n == [2]int{} {
		o.n = [2]int{1 << 30, 1 << 30}
	}
	if o.sec == [2]float64{} {
		o.sec = [2]float64{6, 60}
	}
	if o.hang == 0 {
		o.hang = 45 * time.Second
	}
	if o.reps == 0 {
		o.reps = 1
	}
	return o
}

// reg registers a phase whose plans are drawn by rapid and shrunk on failure.
func reg[P any](prop, name string, o opts, gen func(*rapid.T) P, run func(P) Out) {
	o = norm(o)
	ph := &phase{prop: prop, name: name, o: o}
	ph.runJSON = func(raw []byte) Out {
		var p P
		if err := json.Unmarshal(raw, &p); err != nil {
			panic(err)
		}
		return run(p)
	}
	ph.one = func(r *runner, rt *rapid.T) {
		p := gen(rt)
		out := r.exec(ph, p, func() Out { return run(p) })
		if out.Viol != "" {
			rt.Fatalf("violation")
		}
	}
	ph.loop = func(r *runner) {
		start := time.Now()
		limit := time.Duration(o.sec[r.tier] * float64(time.Second))
		total, batch := 0, 8
		seed := r.seed*1000003 + int64(hash64([]byte(prop+name))&0xffffff)
		for total < o.n[r.tier] && time.Since(start) < limit {
			if batch > o.n[r.tier]-total {
				batch = o.n[r.tier] - total
			}
			seed++
			s := uint64(seed)
			if s == 0 {
				s = 1
			}
			_ = flag.Set("rapid.checks", strconv.Itoa(batch))
			_ = flag.Set("rapid.seed", strconv.FormatUint(s, 10))
			if o.racy {
				_ = flag.Set("rapid.shrinktime", "3s")
			} else {
				_ = flag.Set("rapid.shrinktime", "20s")
			}
			_ = flag.Set("rapid.nofailfile", "true")
			t0 := time.Now()
			ok := r.t.Run(fmt.Sprintf("%s_%d", name, total), func(t *testing.T) {
				rapid.Check(t, func(rt *rapid.T) { ph.one(r, rt) })
			})
			if !ok {
				if r.failed == nil {
					r.fatal("rapid failed without a violation in " + name)
				}
				r.writeViolation()
				return
			}
			total += batch
			if el := time.Since(t0); el < 400*time.Millisecond && batch < 4096 {
				batch *= 2
			} else if el > 1200*time.Millisecond && batch > 1 {
				batch /= 2
			}
		}
	}
	phases = append(phases, ph)
}

// regList registers a phase that enumerates plans itself.
func regList[P any](prop, name string, o opts, list func(tier int, seed int64, yield func(P) bool), run func(P) Out) {
	o = norm(o)
	ph := &phase{prop: prop, name: name, o: o}
	ph.runJSON = func(raw []byte) Out {
		var p P
		if err := json.Unmarshal(raw, &p); err != nil {
			panic(err)
		}
		return run(p)
	}
	ph.loop = func(r *runner) {
		list(r.tier, r.seed, func(p P) bool {
			out := r.exec(ph, p, func() Out { return run(p) })
			if out.Viol != "" {
				r.writeViolation()
				return false
			}
			return true
		})
	}
	phases = append(phases, ph)
}

type phStats struct {
	Phase      string         `json:"phase"`
	Rule       string         `json:"rule"`
	Exhaustive bool           `json:"exhaustive"`
	Evals      int            `json:"evaluations"`
	Classes    map[string]int `json:"classes"`
	Samples    []any          `json:"samples"`
	WallS      float64        `json:"wall_s"`
	hashes     map[uint64]struct{}
	nt         int
}

type violation struct {
	Property string          `json:"property"`
	Phase    string          `json:"phase"`
	Build    string          `json:"build"`
	Message  string          `json:"message"`
	Plan     json.RawMessage `json:"plan"`
	Racy     bool            `json:"racy"`
	Seed     int64           `json:"seed"`
}

type runner struct {
	t       *testing.T
	tier    int
	seed    int64
	outDir  string
	stats   map[string]*phStats
	failed  *violation
	viols   int
	started atomic.Int64 // unix nanos of the running case, 0 if none
	limit   atomic.Int64
	curBuf  []byte
	curF    *os.File
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

func buildName() string {
	if raceEnabled {
		return "race"
	}
	return "norm"
}

func (r *runner) exec(ph *phase, p any, run func() Out) Out {
	raw, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	// Remember the plan on disk, so that a crash of this process can be replayed.
	r.curBuf = append(r.curBuf[:0], fmt.Sprintf(`{"property":%q,"phase":%q,"build":%q,"racy":%v,"plan":`, ph.prop, ph.name, buildName(), ph.o.racy)...)
	r.curBuf = append(r.curBuf, raw...)
	r.curBuf = append(r.curBuf, "}\n"...)
	_ = r.curF.Truncate(0)
	_, _ = r.curF.WriteAt(r.curBuf, 0)
	errSink = sinkErrs[hash64(raw)%uint64(len(sinkErrs))]
	r.limit.Store(int64(ph.o.hang))
	r.started.Store(time.Now().UnixNano())
	out := guarded(run)
	r.started.Store(0)

	st := r.stats[ph.name]
	st.Evals++
	for _, c := range out.Cls {
		st.Classes[c]++
	}
	if out.NT && out.Viol == "" {
		h := hash64(raw)
		if _, ok := st.hashes[h]; !ok && len(st.hashes) < 1<<20 {
			st.hashes[h] = struct{}{}
			st.nt++
			if len(raw) < 3000 && (len(st.Samples) < 2 || (len(st.Samples) < 4 && st.nt%97 == 0)) {
				st.Samples = append(st.Samples, json.RawMessage(raw))
			}
		}
	}
	if out.Viol != "" {
		r.viols++
		r.failed = &violation{Property: ph.prop, Phase: ph.name, Build: buildName(), Message: out.Viol, Plan: raw, Racy: ph.o.racy, Seed: r.seed}
	}
	return out
}

func guarded(run func() Out) (out Out) {
	defer func() {
		if e := recover(); e != nil {
			out = bad("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	return run()
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (r *runner) writeViolation() {
	b, _ := json.MarshalIndent(r.failed, "", " ")
	_ = os.WriteFile(filepath.Join(r.outDir, "violation.json"), b, 0o644)
}

func (r *runner) fatal(msg string) {
	fmt.Fprintln(os.Stderr, "HARNESS ERROR:", msg)
	os.Exit(98)
}

// maxRSS is what a worker may hold while it runs a case: a case needs some hundred megabytes at most,
// and one that allocates without end has to be reported before the machine runs out of memory.
const maxRSS = 5 << 30

func residentBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func (r *runner) watchdog() {
	for {
		time.Sleep(100 * time.Millisecond)
		s := r.started.Load()
		if s != 0 && residentBytes() > maxRSS {
			fmt.Fprintln(os.Stderr, "WATCHDOG: case exceeded its memory limit")
			os.Exit(97)
		}
		if s != 0 && time.Since(time.Unix(0, s)) > time.Duration(r.limit.Load()) {
			fmt.Fprintln(os.Stderr, "WATCHDOG: case exceeded its time limit")
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			_, _ = os.Stderr.Write(buf[:n])
			os.Exit(97)
		}
	}
}

func envInt(k string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return def
}

var theRunner *runner

// TestProp is the only entry point; run.py drives it through the environment.
func TestProp(t *testing.T) {
	prop := os.Getenv("VP_PROP")
	if prop == "" {
		t.Skip("VP_PROP is not set")
	}
	outDir := os.Getenv("VP_OUT")
	r := &runner{t: t, seed: envInt("VP_SEED", 1), outDir: outDir, stats: map[string]*phStats{}}
	theRunner = r
	if os.Getenv("VP_TIER") == "thorough" {
		r.tier = 1
	}
	var err error
	r.curF, err = os.Create(filepath.Join(outDir, "current.json"))
	if err != nil {
		t.Fatal(err)
	}
	go r.watchdog()

	if f := os.Getenv("VP_REPLAY"); f != "" {
		r.replay(f)
		return
	}
	worker := envInt("VP_WORKER", 0)
	only := os.Getenv("VP_PHASE")
	for _, ph := range phases {
		if ph.prop != prop || (only != "" && only != ph.name) {
			continue
		}
		if ph.o.build != "both" && ph.o.build != buildName() {
			continue
		}
		if (ph.o.only1 || ph.o.exh) && worker != 0 {
			continue
		}
		st := &phStats{Phase: ph.name, Rule: ph.o.rule, Exhaustive: ph.o.exh, Classes: map[string]int{}, hashes: map[uint64]struct{}{}}
		r.stats[ph.name] = st
		t0 := time.Now()
		ph.loop(r)
		st.WallS = time.Since(t0).Seconds()
		if r.failed != nil {
			break
		}
	}
	r.writeStats()
}

func (r *runner) writeStats() {
	var names []string
	for n := range r.stats {
		names = append(names, n)
	}
	sort.Strings(names)
	var all []*phStats
	for _, n := range names {
		st := r.stats[n]
		all = append(all, st)
		hb := make([]byte, 0, 8*len(st.hashes))
		for h := range st.hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		_ = os.WriteFile(filepath.Join(r.outDir, "hashes-"+n), hb, 0o644)
	}
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	b, _ := json.Marshal(map[string]any{"phases": all, "violations": r.viols, "max_rss_mb": ru.Maxrss / 1024})
	_ = os.WriteFile(filepath.Join(r.outDir, "stats.json"), b, 0o644)
}

func (r *runner) replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		r.fatal(err.Error())
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		r.fatal(err.Error())
	}
	for _, ph := range phases {
		if ph.prop == v.Property && ph.name == v.Phase {
			r.stats[ph.name] = &phStats{Classes: map[string]int{}, hashes: map[uint64]struct{}{}}
			for i, t0 := 0, time.Now(); i < ph.o.reps || ph.o.racy && time.Since(t0) < 8*time.Second; i++ {
				out := r.exec(ph, v.Plan, func() Out { return ph.runJSON(v.Plan) })
				if out.Viol != "" {
					r.writeViolation()
					fmt.Println("REPRODUCED:", out.Viol)
					r.t.Fail()
					return
				}
			}
			fmt.Println("NOT REPRODUCED")
			return
		}
	}
	r.fatal("no such phase " + v.Property + "/" + v.Phase)
}

// bubble runs f in a synctest bubble (virtual time). It returns a violation
// text if f panicked or goroutines stayed blocked after f returned.
func bubble(f func() Out) (out Out) {
	var res Out
	defer func() {
		if e := recover(); e != nil {
			out = bad("bubble: %v", e)
			if res.Viol != "" {
				out = res // goroutines are left behind because the case ended early
			}
		}
	}()
	synctest.Test(theRunner.t, func(*testing.T) {
		res = guarded(f)
	})
	return res
}

// sink counters shared by generators -------------------------------------

// errSink is what failing sinks return. Which error it is depends on the plan:
// none of them means anything special to the code under test.
var errSink = sinkErrs[0]

var sinkErrs = []error{
	errors.New("sink failed"),
	errors.New("sink failed"),
	fmt.Errorf("sink failed: %w", errors.New("cause")),
	io.EOF,
	fmt.Errorf("sink failed: %w", io.EOF),
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	net.ErrClosed,
	os.ErrDeadlineExceeded,
	io.ErrShortBuffer,
}

func protect(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func eqSlice[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diffAt[T comparable](a, b []T) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("index %d: %v vs %v (lengths %d, %d)", i, a[i], b[i], len(a), len(b))
		}
	}
	return fmt.Sprintf("lengths %d vs %d", len(a), len(b))
}

// genI16 draws a 16-bit sample with a bias to boundary values.
func genI16() *rapid.Generator[int16] {
	return rapid.OneOf(
		rapid.Int16(),
		rapid.SampledFrom([]int16{0, 1, -1, 32767, -32768, 32766, -32767, 16384, -16384, 255, 256, -256}),
		rapid.Int16Range(-5, 5),
	)
}

var waitMu sync.Mutex // serialises phases that use shared external resources

// eqDither compares PCM exactly, or with the few bits of random dither that the
// resampler library adds to every output (its seed is time and address based).
func eqDither[T ~[]int16](a, b T, exact bool) bool {
	if exact {
		return eqSlice(a, b)
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if d := int(a[i]) - int(b[i]); d > 4 || d < -4 {
			return false
		}
	}
	return true
}

var errCause = errors.New("the cause of the cancellation")

// ctxEnding returns a context that ends at a time from now (never if negative), or when the function is called:
// 0 is cancelled, 1 is cancelled with a cause, 2 reaches its deadline (if there is a time), 3 is the child of one
// that is cancelled with a cause.
func ctxEnding(kind int, after time.Duration) (context.Context, func()) {
	bg := context.Background()
	var ctx context.Context
	var end func()
	switch {
	case kind == 1 || kind == 3:
		c, cancel := context.WithCancelCause(bg)
		ctx, end = c, func() { cancel(errCause) }
		if kind == 3 {
			c, stop := context.WithTimeout(c, 1000*time.Hour)
			ctx, end = c, func() { cancel(errCause); stop() }
		}
	case kind == 2 && after >= 0:
		return context.WithTimeout(bg, after)
	default:
		ctx, end = context.WithCancel(bg)
	}
	if after >= 0 {
		time.AfterFunc(after, end)
	}
	return ctx, end
}
