package props

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	media "github.com/livekit/media-sdk"
	"pgregory.net/rapid"
)

// C08: SwitchWriter routing.

type c08Op struct {
	Op  string `json:"o"` // swap, swapnil, write, enable, disable, close, get, setrate
	Dst int    `json:"dst,omitempty"`
	N   int    `json:"n,omitempty"`
}

type c08Plan struct {
	Rate  int     `json:"rate"` // constructor argument
	Rates []int   `json:"rates"`
	Fail  []bool  `json:"fail"`
	Ops   []c08Op `json:"ops"`
}

func init() {
	reg("C08", "routing", opts{sec: [2]float64{6, 90}, rule: "at least two destinations received samples"},
		func(t *rapid.T) c08Plan {
			var p c08Plan
			p.Rate = rapid.SampledFrom([]int{8000, 16000, 48000, 8000, -1, -5}).Draw(t, "rate")
			n := rapid.IntRange(1, 4).Draw(t, "dsts")
			for i := 0; i < n; i++ {
				p.Rates = append(p.Rates, rapid.SampledFrom([]int{8000, 8000, 16000, 48000}).Draw(t, "drate"))
				p.Fail = append(p.Fail, rapid.IntRange(0, 5).Draw(t, "fail") == 0)
			}
			op := rapid.Custom(func(t *rapid.T) c08Op {
				o := c08Op{Op: rapid.SampledFrom([]string{"swap", "swap", "swap", "swapnil", "write", "write", "write", "write", "write", "enable", "enable", "disable", "close", "get", "setrate"}).Draw(t, "op")}
				switch o.Op {
				case "swap":
					o.Dst = rapid.IntRange(0, n-1).Draw(t, "dst")
				case "write":
					o.N = rapid.SampledFrom([]int{0, 1, 10, 160, 320, 77, 960, 5000}).Draw(t, "n")
				case "setrate":
					o.N = rapid.SampledFrom([]int{8000, 16000, 0, -1}).Draw(t, "r")
				}
				return o
			})
			p.Ops = laps(t, rapid.SliceOfN(op, 1, 40).Draw(t, "ops"), 3000)
			return p
		}, c08Run)
	reg("C08", "swap-stress", opts{build: "both", racy: true, reps: 40, sec: [2]float64{3, 40}, rule: "several swaps happened while several writers were writing"},
		func(t *rapid.T) c08sPlan {
			return c08sPlan{
				Writers: rapid.IntRange(1, 4).Draw(t, "w"),
				Writes:  rapid.IntRange(5, 300).Draw(t, "n"),
				Swaps:   rapid.OneOf(rapid.IntRange(1, 60), rapid.IntRange(100, 1000)).Draw(t, "s"),
				Nil:     rapid.Bool().Draw(t, "nil"),
				Toggle:  rapid.Bool().Draw(t, "toggle"),

				Swappers: rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "swappers"),
			}
		}, c08Stress)
}

// pcmRec records what reaches a destination.
type pcmRec struct {
	id     int
	rate   int
	frames []media.PCM16Sample
	err    error
	closed int
	cerr   error
}

func (r *pcmRec) String() string  { return fmt.Sprintf("rec%d", r.id) }
func (r *pcmRec) SampleRate() int { return r.rate }
func (r *pcmRec) Close() error    { r.closed++; return r.cerr }
func (r *pcmRec) WriteSample(s media.PCM16Sample) error {
	r.frames = append(r.frames, append(media.PCM16Sample(nil), s...))
	return r.err
}

func (r *pcmRec) flat() media.PCM16Sample {
	var out media.PCM16Sample
	for _, f := range r.frames {
		out = append(out, f...)
	}
	return out
}

func c08Run(p c08Plan) Out {
	if protect(func() { media.NewSwitchWriter(0) }) == nil {
		return bad("NewSwitchWriter(0) did not panic")
	}
	sw := media.NewSwitchWriter(p.Rate)
	rate := p.Rate
	if rate < 0 {
		rate = -1
	}
	// One attachment = one (destination, adaptation) pair; a destination that is
	// attached again at another rate gets a new adaptation.
	type attach struct {
		dst   int
		ref   media.PCM16Writer // reference chain fed with what the switch should deliver
		refD  *pcmRec
		w     media.PCM16Writer // what Swap or Get returned for it, nil if not seen
		isDst bool
	}
	dsts := make([]*pcmRec, len(p.Rates))
	refs := make([]*pcmRec, len(p.Rates))
	for i, r := range p.Rates {
		dsts[i] = &pcmRec{id: i, rate: r}
		refs[i] = &pcmRec{id: i, rate: r}
		if p.Fail[i] {
			dsts[i].err = errSink
			refs[i].err = errSink
		}
	}
	var cur *attach
	disabled := false
	reached := map[int]bool{}
	sweep := func(op int) string {
		for i := range dsts {
			if len(dsts[i].frames) != len(refs[i].frames) {
				return fmt.Sprintf("op %d: destination %d has %d frames, want %d", op, i, len(dsts[i].frames), len(refs[i].frames))
			}
			if dsts[i].closed != refs[i].closed {
				return fmt.Sprintf("op %d: destination %d closed %d times, want %d", op, i, dsts[i].closed, refs[i].closed)
			}
			if n := len(dsts[i].frames); n > 0 && !eqDither(dsts[i].frames[n-1], refs[i].frames[n-1], p.Rates[i] == rate) {
				return fmt.Sprintf("op %d: destination %d: %s", op, i, diffAt(dsts[i].frames[n-1], refs[i].frames[n-1]))
			}
		}
		return ""
	}
	for i, o := range p.Ops {
		switch o.Op {
		case "swap", "swapnil":
			var arg media.PCM16Writer
			if o.Op == "swap" {
				arg = dsts[o.Dst]
			}
			var old media.PCM16Writer
			pn := protect(func() { old = sw.Swap(arg) })
			if o.Op == "swap" && rate < 0 {
				if pn == nil {
					return bad("op %d: attaching with an unset rate did not panic", i)
				}
				continue
			}
			if pn != nil {
				return bad("op %d: Swap panicked: %v", i, pn)
			}
			if cur == nil {
				if old != nil {
					return bad("op %d: Swap returned %v with nothing attached", i, old)
				}
			} else {
				if old == nil {
					return bad("op %d: Swap did not return the attached writer", i)
				}
				if cur.isDst && old != media.PCM16Writer(dsts[cur.dst]) {
					return bad("op %d: Swap returned %v, want destination %d", i, old, cur.dst)
				}
				if cur.w != nil && old != cur.w {
					return bad("op %d: Swap returned another writer than Get", i)
				}
				if !cur.isDst {
					// The caller owns the old writer: closing it flushes and closes the destination.
					e1, e2 := old.Close(), cur.ref.Close()
					if (e1 != nil) != (e2 != nil) {
						return bad("op %d: closing the detached writer: %v, want %v", i, e1, e2)
					}
				}
			}
			if o.Op == "swapnil" {
				cur = nil
			} else {
				cur = &attach{dst: o.Dst, isDst: p.Rates[o.Dst] == rate}
				cur.ref = media.ResampleWriter(refs[o.Dst], rate)
			}
		case "get":
			w := sw.Get()
			if (w == nil) != (cur == nil) {
				return bad("op %d: Get=%v", i, w)
			}
			if cur != nil {
				if cur.isDst && w != media.PCM16Writer(dsts[cur.dst]) {
					return bad("op %d: Get=%v want destination %d", i, w, cur.dst)
				}
				if w.SampleRate() != rate {
					return bad("op %d: attached writer expects rate %d, switch has %d", i, w.SampleRate(), rate)
				}
				cur.w = w
			}
		case "write":
			s := c04PCM(i, o.N)
			var want error
			if cur != nil && !disabled {
				want = cur.ref.WriteSample(c04PCM(i, o.N))
				reached[cur.dst] = true
			}
			if err := sw.WriteSample(s); (err != nil) != (want != nil) || (want != nil && !errors.Is(err, want)) {
				return bad("op %d: WriteSample=%v want %v", i, err, want)
			}
		case "enable":
			sw.Enable()
			disabled = false
		case "disable":
			sw.Disable()
			disabled = true
		case "close":
			var want error
			if cur != nil {
				want = cur.ref.Close()
				cur = nil
			}
			if err := sw.Close(); (err != nil) != (want != nil) {
				return bad("op %d: Close=%v want %v", i, err, want)
			}
			if sw.Get() != nil {
				return bad("op %d: still attached after Close", i)
			}
		case "setrate":
			pn := protect(func() { sw.SetSampleRate(o.N) })
			if o.N <= 0 || rate > 0 {
				if pn == nil {
					return bad("op %d: SetSampleRate(%d) did not panic, rate is %d", i, o.N, rate)
				}
			} else {
				if pn != nil {
					return bad("op %d: SetSampleRate(%d) panicked: %v", i, o.N, pn)
				}
				rate = o.N
			}
		}
		var sr int
		pn := protect(func() { sr = sw.SampleRate() })
		if rate < 0 && pn == nil {
			return bad("op %d: SampleRate=%d on an unset switch", i, sr)
		}
		if rate > 0 && (pn != nil || sr != rate) {
			return bad("op %d: SampleRate=%d (%v) want %d", i, sr, pn, rate)
		}
		if m := sweep(i); m != "" {
			return Out{Viol: m}
		}
	}
	return Out{NT: len(reached) >= 2}
}

type c08sPlan struct {
	Writers int  `json:"w"`
	Writes  int  `json:"n"`
	Swaps   int  `json:"s"`
	Nil     bool `json:"nil"`
	Toggle  bool `json:"toggle"`

	Swappers int `json:"swappers,omitempty"`
}

func c08Stress(p c08sPlan) Out {
	sw := media.NewSwitchWriter(8000)
	var clock atomic.Int64
	starts := make([]atomic.Int64, p.Writers)
	nd := p.Swaps + 1
	dsts := make([]*c08StressDst, nd)
	for i := range dsts {
		dsts[i] = &c08StressDst{clock: &clock, starts: starts}
	}
	sw.Swap(dsts[0])
	var wg sync.WaitGroup
	for k := 0; k < p.Writers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < p.Writes; i++ {
				starts[k].Store(clock.Add(1))
				_ = sw.WriteSample(media.PCM16Sample{int16(k), int16(i)})
			}
		}()
	}
	swapErr := ""
	var mu sync.Mutex
	var next atomic.Int64
	returned := map[media.PCM16Writer]bool{}
	for range max(p.Swappers, 1) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1))
				if i >= nd {
					return
				}
				runtime.Gosched()
				old := sw.Swap(dsts[i])
				d, _ := old.(*c08StressDst)
				if d == nil {
					mu.Lock()
					swapErr = fmt.Sprintf("swap %d returned %v", i, old)
					mu.Unlock()
					return
				}
				d.detached.Store(clock.Add(1))
				mu.Lock()
				switch {
				case p.Swappers <= 1 && d != dsts[i-1]:
					swapErr = fmt.Sprintf("swap %d returned another writer than the one attached before", i)
				case returned[old]:
					swapErr = "two swaps returned the same writer"
				}
				returned[old] = true
				mu.Unlock()
				if p.Toggle && i%3 == 0 {
					sw.Disable()
					runtime.Gosched()
					if i%2 == 0 {
						sw.Enable()
					}
				}
			}
		}()
	}
	wg.Wait()
	if swapErr != "" {
		return bad("%s", swapErr)
	}
	if returned[sw.Get()] || len(returned) != nd-1 {
		return bad("%d of %d writers were returned by swaps, the attached one too: %v", len(returned), nd-1, returned[sw.Get()])
	}
	seen := map[[2]int16]int{}
	used := 0
	for i, d := range dsts {
		if d.late.Load() != 0 {
			return bad("destination %d received a sample whose write started after the swap that detached it had returned", i)
		}
		if d.closed.Load() != 0 {
			return bad("destination %d was closed by a swap", i)
		}
		if len(d.got) > 0 {
			used++
		}
		for _, s := range d.got {
			seen[s]++
			if seen[s] > 1 {
				return bad("sample %v delivered %d times", s, seen[s])
			}
		}
	}
	if !p.Toggle && len(seen) != p.Writers*p.Writes {
		return bad("%d of %d samples delivered", len(seen), p.Writers*p.Writes)
	}
	return Out{NT: used >= 2}
}

type c08StressDst struct {
	clock    *atomic.Int64
	starts   []atomic.Int64
	detached atomic.Int64
	mu       sync.Mutex
	got      [][2]int16
	late     atomic.Int32
	closed   atomic.Int32
}

func (d *c08StressDst) String() string  { return "dst" }
func (d *c08StressDst) SampleRate() int { return 8000 }
func (d *c08StressDst) Close() error    { d.closed.Add(1); return nil }
func (d *c08StressDst) WriteSample(s media.PCM16Sample) error {
	if t := d.detached.Load(); t != 0 && d.starts[s[0]].Load() > t {
		d.late.Add(1)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.got = append(d.got, [2]int16{s[0], s[1]})
	return nil
}
