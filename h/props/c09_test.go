package props

import (
	"errors"
	"math"
	"slices"
	"sync"
	"sync/atomic"

	media "github.com/livekit/media-sdk"
	"pgregory.net/rapid"
)

// C09: resampling conserves the stream. C10: resampling preserves the signal.

var c09Rates = []int{8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000}

type c09Plan struct {
	Src  int   `json:"src"`
	Dst  int   `json:"dst"`
	N    int   `json:"n"`
	Sig  int   `json:"sig"`
	A    []int `json:"a"` // write lengths, cyclic
	B    []int `json:"b"`
	Pref int   `json:"pref"`
	Cap  int   `json:"cap"` // spare capacity of the destination slice
	Fail int   `json:"fail,omitempty"`
	Bad  int   `json:"bad,omitempty"`
}

type c09Dst struct {
	rate   int
	got    media.PCM16Sample
	writes int
	failAt int
	failed bool
	closed int
	late   bool
	cerr   error
}

func (d *c09Dst) String() string  { return "c09" }
func (d *c09Dst) SampleRate() int { return d.rate }
func (d *c09Dst) Close() error    { d.closed++; return d.cerr }
func (d *c09Dst) WriteSample(s media.PCM16Sample) error {
	if d.closed > 0 {
		d.late = true
	}
	d.writes++
	d.got = append(d.got, s...)
	if d.writes == d.failAt {
		d.failed = true
		return errSink
	}
	return nil
}

func c09Signal(kind, n, rate int) media.PCM16Sample {
	out := make(media.PCM16Sample, n)
	rng := uint32(kind*2654435761 + 12345)
	for i := range out {
		switch kind % 4 {
		case 0:
			out[i] = int16(9000 * math.Sin(2*math.Pi*440*float64(i)/float64(rate)))
		case 1: // noise
			rng = rng*1664525 + 1013904223
			out[i] = int16(int32(rng)>>16) / 4
		case 2: // ramp with a click every 97 samples
			out[i] = int16(i % 500)
			if i%97 == 13 {
				out[i] = 8000
			}
		case 3:
			out[i] = 1000
		}
	}
	if kind >= 8 {
		// digital silence in the middle
		clear(out[n/5 : n-n/5])
	}
	return out
}

func c09Feed(w media.PCM16Writer, in media.PCM16Sample, cuts []int) (errs int) {
	scratch := make(media.PCM16Sample, len(in))
	for i := 0; len(in) > 0; i++ {
		k := cuts[i%len(cuts)]
		if k > len(in) {
			k = len(in)
		}
		if k == 0 && slices.Max(cuts) == 0 {
			k = len(in)
		}
		if k == 0 {
			// Anything may be written in several ways, including nothing at all.
			var empty media.PCM16Sample
			if i%2 == 1 {
				empty = scratch[:0]
			}
			if err := w.WriteSample(empty); err != nil {
				errs++
				if !errors.Is(err, errSink) {
					errs += 1000
				}
			}
			continue
		}
		// The caller reuses its buffer for every write.
		s := scratch[:k]
		copy(s, in[:k])
		if err := w.WriteSample(s); err != nil {
			errs++
			if !errors.Is(err, errSink) {
				errs += 1000
			}
		}
		for j := range s {
			s[j] = -7777
		}
		in = in[k:]
	}
	return errs
}

func c09Run(p c09Plan) Out {
	if p.Bad != 0 {
		// Rates that make no sense are refused by an ordinary panic.
		if protect(func() { media.Resample(nil, p.Dst, media.PCM16Sample{1, 2, 3}, p.Bad) }) == nil {
			return bad("resampling from rate %d did not fail", p.Bad)
		}
		return Out{NT: true}.cls("bad-rate")
	}
	in := c09Signal(p.Sig, p.N, p.Src)
	orig := append(media.PCM16Sample(nil), in...)
	exact := float64(p.N) * float64(p.Dst) / float64(p.Src)
	run := func(cuts []int, failAt int) (*c09Dst, Out) {
		d := &c09Dst{rate: p.Dst, failAt: failAt}
		w := media.ResampleWriter(d, p.Src)
		if w.SampleRate() != p.Src {
			return nil, bad("SampleRate=%d want %d", w.SampleRate(), p.Src)
		}
		if (w == media.PCM16Writer(d)) != (p.Src == p.Dst) {
			return nil, bad("writer for %d->%d: same object=%v", p.Src, p.Dst, w == media.PCM16Writer(d))
		}
		errs := c09Feed(w, in, cuts)
		if d.closed != 0 {
			return nil, bad("destination closed before Close")
		}
		if err := w.Close(); err != nil {
			if !errors.Is(err, errSink) {
				return nil, bad("Close: %v", err)
			}
			errs++
		}
		if d.closed != 1 {
			return nil, bad("destination closed %d times", d.closed)
		}
		if d.late {
			return nil, bad("written after it was closed")
		}
		if d.failed && errs == 0 {
			return nil, bad("the destination failed write %d, nobody was told", failAt)
		}
		if errs > 1 || (!d.failed && errs > 0) {
			return nil, bad("%d errors reported, destination failed: %v", errs, d.failed)
		}
		if math.Abs(float64(len(d.got))-exact) > 2 {
			return nil, bad("%d->%d: %d samples in, %d out, want %.2f (writes of %v)", p.Src, p.Dst, p.N, len(d.got), exact, cuts)
		}
		return d, Out{}
	}
	a, o := run(p.A, 0)
	if o.Viol != "" {
		return o
	}
	b, o := run(p.B, 0)
	if o.Viol != "" {
		return o
	}
	if !eqDither(a.got, b.got, p.Src == p.Dst) {
		return bad("%d->%d: output depends on the write lengths %v vs %v: %s", p.Src, p.Dst, p.A, p.B, c09Diff(a.got, b.got))
	}
	if p.Fail > 0 {
		c, o := run(p.A, p.Fail)
		if o.Viol != "" {
			return o
		}
		if !eqDither(a.got, c.got, p.Src == p.Dst) {
			return bad("after a failed write: %s", c09Diff(a.got, c.got))
		}
	}
	pref := c04PCM(3, p.Pref)
	dst := append(make(media.PCM16Sample, 0, p.Pref+p.Cap), pref...)
	res := media.Resample(dst, p.Dst, in, p.Src)
	if len(res) < p.Pref || !eqSlice(res[:p.Pref], pref) {
		return bad("Resample changed the existing prefix")
	}
	if !eqDither(res[p.Pref:], a.got, p.Src == p.Dst) {
		return bad("%d->%d Resample differs from the writer: %s", p.Src, p.Dst, c09Diff(res[p.Pref:], a.got))
	}
	if !eqSlice(in, orig) {
		return bad("input was modified")
	}
	return Out{NT: p.Src != p.Dst && len(a.got) > 0 && !eqSlice(p.A, p.B)}
}

func c09Diff(a, b media.PCM16Sample) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if d := int(a[i]) - int(b[i]); d > 4 || d < -4 {
			return diffAt(a[i:], b[i:])
		}
	}
	return diffAt(a[len(a):], b[len(b):]) + " " + diffAt([]int{len(a)}, []int{len(b)})
}

type c10Tone struct {
	F   float64 `json:"f"` // fraction of the usable band
	A   float64 `json:"a"`
	Phi float64 `json:"p"`
}

type c10Plan struct {
	Src   int       `json:"src"`
	Dst   int       `json:"dst"`
	N     int       `json:"n"`
	Tones []c10Tone `json:"tones"`
	DC    int       `json:"dc"`
	Cut   int       `json:"cut"`
}

// Usable share of the lower Nyquist frequency: the library's low quality preset
// has a wide transition band.
const c10Band = 0.6

func c10Run(p c10Plan) Out {
	lo := min(p.Src, p.Dst)
	sig := func(t float64) float64 {
		v := float64(p.DC)
		for _, c := range p.Tones {
			v += c.A * math.Sin(2*math.Pi*c.F*c10Band*float64(lo)/2*t+c.Phi)
		}
		return v
	}
	in := make(media.PCM16Sample, p.N)
	for i := range in {
		in[i] = int16(math.RoundToEven(sig(float64(i) / float64(p.Src))))
	}
	d := &c09Dst{rate: p.Dst}
	w := media.ResampleWriter(d, p.Src)
	c09Feed(w, in, []int{p.Cut})
	if err := w.Close(); err != nil {
		return bad("Close: %v", err)
	}
	// Away from the edges: 10 ms.
	skip := p.Dst / 100
	var se, ss, worst float64
	for k := skip; k < len(d.got)-skip; k++ {
		want := sig(float64(k) / float64(p.Dst))
		e := float64(d.got[k]) - want
		se += e * e
		ss += want * want
		worst = max(worst, math.Abs(e))
	}
	n := float64(len(d.got) - 2*skip)
	if n < 50 {
		return bad("%d->%d: only %d samples out of %d", p.Src, p.Dst, len(d.got), p.N)
	}
	// Error budget: dither and rounding, plus the pass-band droop of the library's
	// low-quality preset, which was measured for every rate pair.
	tol := 0.0
	for _, c := range p.Tones {
		tol += c.A * (0.0004 + 0.12*math.Pow(c.F*c10Band, 4))
	}
	rms := math.Sqrt(se / n)
	if rms > 1.5+tol || worst > 5+1.6*tol {
		return bad("%d->%d: error rms %.2f (limit %.2f), worst %.1f", p.Src, p.Dst, rms, 1.5+tol, worst)
	}
	return Out{NT: p.Src != p.Dst && len(p.Tones) > 0}
}

type c10LoudPlan struct {
	Src int   `json:"src"`
	Dst int   `json:"dst"`
	Seg []int `json:"seg"` // lengths in ms of alternating full-scale levels
	Lvl int   `json:"lvl"`
	Cut int   `json:"cut"`
}

// A loud signal whose resampled form overshoots 16 bits must be clipped.
func c10Loud(p c10LoudPlan) Out {
	var in media.PCM16Sample
	lvl := p.Lvl
	var edges []float64
	for _, ms := range p.Seg {
		edges = append(edges, float64(len(in))/float64(p.Src))
		for range p.Src * ms / 1000 {
			in = append(in, int16(lvl))
		}
		lvl = -lvl
	}
	edges = append(edges, float64(len(in))/float64(p.Src))
	d := &c09Dst{rate: p.Dst}
	w := media.ResampleWriter(d, p.Src)
	c09Feed(w, in, []int{p.Cut})
	if err := w.Close(); err != nil {
		return bad("Close: %v", err)
	}
	guard := 1.2 / float64(min(p.Src, p.Dst)) // the transition itself
	seg := 0
	for k, v := range d.got {
		t := float64(k) / float64(p.Dst)
		for seg+1 < len(edges)-1 && t >= edges[seg+1] {
			seg++
		}
		if t-edges[seg] < guard || edges[seg+1]-t < guard {
			continue
		}
		want := float64(p.Lvl)
		if seg%2 == 1 {
			want = -want
		}
		if math.Abs(float64(v)-want) > 0.25*math.Abs(want) {
			return bad("%d->%d: sample %d is %d in a segment of level %.0f", p.Src, p.Dst, k, v, want)
		}
	}
	return Out{NT: p.Src != p.Dst && len(p.Seg) > 1}
}

type c10PurePlan struct {
	Src int     `json:"src"`
	Dst int     `json:"dst"`
	F   float64 `json:"f"` // of the source's Nyquist frequency
	A   float64 `json:"a"`
	N   int     `json:"n"`
	Cut int     `json:"cut"`
}

// A single tone anywhere in the source's band comes out as that tone and nothing else,
// or not at all if the destination cannot carry it.
func c10Pure(p c10PurePlan) Out {
	f := p.F * float64(p.Src) / 2
	r := f / (float64(min(p.Src, p.Dst)) / 2)
	if r > 0.97 && r < 1.02 {
		return Out{}.cls("at-the-edge")
	}
	in := make(media.PCM16Sample, p.N)
	for i := range in {
		in[i] = int16(math.RoundToEven(p.A * math.Sin(2*math.Pi*f*float64(i)/float64(p.Src))))
	}
	d := &c09Dst{rate: p.Dst}
	w := media.ResampleWriter(d, p.Src)
	c09Feed(w, in, []int{p.Cut})
	if err := w.Close(); err != nil {
		return bad("Close: %v", err)
	}
	skip := p.Dst / 50
	n := len(d.got) - 2*skip
	if n < 50 {
		return bad("%d->%d: only %d samples out of %d", p.Src, p.Dst, len(d.got), p.N)
	}
	m := d.got[skip : skip+n]
	var a, b float64
	basis := func(i int) (float64, float64) {
		return math.Sincos(2 * math.Pi * f * float64(i+skip) / float64(p.Dst))
	}
	if r < 1 {
		var ss, sc, cc, ys, yc float64
		for i, v := range m {
			s, c := basis(i)
			ss += s * s
			sc += s * c
			cc += c * c
			ys += float64(v) * s
			yc += float64(v) * c
		}
		det := ss*cc - sc*sc
		a, b = (ys*cc-yc*sc)/det, (yc*ss-ys*sc)/det
	}
	var e float64
	for i, v := range m {
		s, c := basis(i)
		x := float64(v) - a*s - b*c
		e += x * x
	}
	rms := math.Sqrt(e / float64(n))
	if lim := 1.5 + p.A/5000; rms > lim {
		return bad("%d->%d: a tone of %.0f Hz, amplitude %.0f, leaves other content of rms %.1f (limit %.1f)", p.Src, p.Dst, f, p.A, rms, lim)
	}
	if math.Abs(b) > 2+p.A/500 || a > 2+1.01*p.A || a < -2 || r < 0.7 && a < 0.96*p.A-2 {
		return bad("%d->%d: a tone of %.0f Hz, amplitude %.0f, comes out with amplitude %.1f in phase, %.1f in quadrature", p.Src, p.Dst, f, p.A, a, b)
	}
	o := Out{NT: p.Src != p.Dst}
	switch {
	case r > 1:
		return o.cls("above")
	case r > 0.6:
		return o.cls("transition")
	}
	return o.cls("passband")
}

func init() {
	reg("C09", "concurrent", opts{build: "both", racy: true, reps: 30, sec: [2]float64{3, 40}, rule: "something was written"},
		func(t *rapid.T) c09cPlan {
			p := c09cPlan{
				Src:     rapid.SampledFrom(c09Rates).Draw(t, "src"),
				Dst:     rapid.SampledFrom(c09Rates).Draw(t, "dst"),
				Lens:    rapid.SliceOfN(rapid.IntRange(1, 1000), 2, 4).Draw(t, "lens"),
				Writes:  rapid.IntRange(1, 50).Draw(t, "writes"),
				Closers: rapid.IntRange(0, 2).Draw(t, "closers"),
			}
			if p.Dst == p.Src {
				p.Src, p.Dst = 8000, 48000
			}
			p.After = rapid.IntRange(1, len(p.Lens)*p.Writes).Draw(t, "after")
			return p
		}, c09Concurrent)
	reg("C10", "pure", opts{sec: [2]float64{5, 90}, rule: "rates differ and the tone is not within 3% of the band edge"},
		func(t *rapid.T) c10PurePlan {
			p := c10PurePlan{
				Src: rapid.SampledFrom(c09Rates).Draw(t, "src"),
				Dst: rapid.SampledFrom(c09Rates).Draw(t, "dst"),
				F:   float64(rapid.IntRange(20, 970).Draw(t, "f")) / 1000,
				A:   float64(rapid.SampledFrom([]int{100, 1000, 5000, 10000, 30000}).Draw(t, "a")),
				Cut: rapid.OneOf(rapid.SampledFrom([]int{160, 320, 441, 480, 960}), rapid.IntRange(1, 3000)).Draw(t, "cut"),
			}
			p.N = p.Src / 1000 * rapid.IntRange(200, 500).Draw(t, "ms")
			return p
		}, c10Pure)
	reg("C10", "loud", opts{sec: [2]float64{4, 60}, rule: "rates differ and the level changes at least once"},
		func(t *rapid.T) c10LoudPlan {
			return c10LoudPlan{
				Src: rapid.SampledFrom(c09Rates).Draw(t, "src"),
				Dst: rapid.SampledFrom(c09Rates).Draw(t, "dst"),
				Seg: rapid.SliceOfN(rapid.IntRange(3, 30), 1, 6).Draw(t, "seg"),
				Lvl: rapid.SampledFrom([]int{32767, -32767, 32000, 30000, 20000}).Draw(t, "lvl"),
				Cut: rapid.OneOf(rapid.SampledFrom([]int{160, 320, 441, 480, 960}), rapid.IntRange(1, 3000)).Draw(t, "cut"),
			}
		}, c10Loud)
	cuts := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 20), rapid.SampledFrom([]int{0, 80, 160, 320, 441, 480, 960, 5000}), rapid.IntRange(1, 2000)), 1, 6)
	reg("C09", "total-and-chunks", opts{sec: [2]float64{12, 240}, rule: "rates differ, the output is not empty, and the two ways of cutting the input differ"},
		func(t *rapid.T) c09Plan {
			p := c09Plan{
				Src: rapid.SampledFrom(c09Rates).Draw(t, "src"),
				Dst: rapid.SampledFrom(c09Rates).Draw(t, "dst"),
				N:   rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 3000), rapid.IntRange(0, 30000)).Draw(t, "n"),
				Sig: rapid.IntRange(0, 11).Draw(t, "sig"),
				A:   cuts.Draw(t, "a"), B: cuts.Draw(t, "b"),
				Pref: rapid.IntRange(0, 40).Draw(t, "pref"),
				Cap:  rapid.SampledFrom([]int{0, 0, 1, 100, 100000}).Draw(t, "cap"),
			}
			if rapid.IntRange(0, 3).Draw(t, "f") == 0 {
				p.Fail = rapid.IntRange(1, 6).Draw(t, "fail")
			}
			if rapid.IntRange(0, 60).Draw(t, "b?") == 0 {
				p.Bad = rapid.SampledFrom([]int{-1, -8000}).Draw(t, "bad")
			}
			return p
		}, c09Run)
	tone := rapid.Custom(func(t *rapid.T) c10Tone {
		return c10Tone{
			F:   float64(rapid.IntRange(10, 1000).Draw(t, "f")) / 1000,
			A:   float64(rapid.SampledFrom([]int{100, 1000, 5000, 10000}).Draw(t, "a")),
			Phi: float64(rapid.IntRange(0, 62).Draw(t, "phi")) / 10,
		}
	})
	reg("C10", "tones", opts{sec: [2]float64{10, 240}, rule: "rates differ and there is at least one tone"},
		func(t *rapid.T) c10Plan {
			return c10Plan{
				Src:   rapid.SampledFrom(c09Rates).Draw(t, "src"),
				Dst:   rapid.SampledFrom(c09Rates).Draw(t, "dst"),
				N:     rapid.IntRange(4000, 20000).Draw(t, "n"),
				Tones: rapid.SliceOfN(tone, 0, 3).Draw(t, "tones"),
				DC:    rapid.SampledFrom([]int{0, 0, 0, 1, 500, -2000}).Draw(t, "dc"),
				Cut:   rapid.OneOf(rapid.SampledFrom([]int{160, 320, 441, 480, 960}), rapid.IntRange(1, 3000)).Draw(t, "cut"),
			}
		}, c10Run)
}

type c09cPlan struct {
	Src     int   `json:"src"`
	Dst     int   `json:"dst"`
	Lens    []int `json:"lens"` // per writer
	Writes  int   `json:"writes"`
	Closers int   `json:"closers"` // that close while the writers run
	After   int   `json:"after"`   // the closers start after that many writes
}

// c09Concurrent has several writers, and others who close the resampler at the same time.
func c09Concurrent(p c09cPlan) Out {
	dst := &c09Dst{rate: p.Dst}
	w := media.ResampleWriter(dst, p.Src)
	var wg sync.WaitGroup
	var accepted, refused, writes atomic.Int64
	begin := make(chan struct{})
	for _, n := range p.Lens {
		wg.Go(func() {
			s := c09Signal(n, n, p.Src)
			for range p.Writes {
				if writes.Add(1) == int64(p.After) {
					close(begin)
				}
				if err := w.WriteSample(s); err == nil {
					accepted.Add(int64(n))
				} else {
					refused.Add(1)
				}
			}
		})
	}
	for range p.Closers {
		wg.Go(func() { <-begin; _ = w.Close() })
	}
	wg.Wait()
	if p.Closers == 0 {
		if refused.Load() != 0 {
			return bad("%d writes failed", refused.Load())
		}
		if err := w.Close(); err != nil {
			return bad("close: %v", err)
		}
	}
	if dst.closed != 1 || dst.late {
		return bad("the destination was closed %d times, written afterwards: %v", dst.closed, dst.late)
	}
	want := accepted.Load() * int64(p.Dst) / int64(p.Src)
	if d := int64(len(dst.got)) - want; d < -2 || d > 2 {
		return bad("%d samples delivered for %d written, want %d", len(dst.got), accepted.Load(), want)
	}
	o := Out{NT: accepted.Load() > 0}
	if refused.Load() > 0 {
		o = o.cls("closed-while-writing")
	}
	return o
}
