package props

import (
	"errors"
	"sync"

	media "github.com/livekit/media-sdk"
	"pgregory.net/rapid"
)

// C02: FullFrames against a reference framer, with failing destinations.

type c02Plan struct {
	Elem   string `json:"elem"` // int16, int8, float32
	Frame  int    `json:"frame"`
	Writes []int  `json:"writes"`
	Fail   []int  `json:"fail,omitempty"` // indices of destination calls that fail
	CloseF bool   `json:"closef,omitempty"`
}

func init() {
	reg("C02", "concurrent", opts{build: "both", racy: true, reps: 30, sec: [2]float64{3, 30}, rule: "the writes of the writers alternated"},
		func(t *rapid.T) c02cPlan {
			return c02cPlan{
				Frame:   rapid.IntRange(1, 50).Draw(t, "frame"),
				Writers: rapid.IntRange(2, 5).Draw(t, "writers"),
				Writes:  rapid.IntRange(10, 200).Draw(t, "writes"),
				Len:     rapid.IntRange(1, 60).Draw(t, "len"),
			}
		}, c02Concurrent)
	reg("C02", "framing", opts{sec: [2]float64{6, 120}, rule: "at least one write crossed a frame boundary, or a destination failure occurred"},
		func(t *rapid.T) c02Plan {
			var p c02Plan
			p.Elem = rapid.SampledFrom([]string{"int16", "int16", "int8", "float32"}).Draw(t, "elem")
			p.Frame = rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 200), rapid.SampledFrom([]int{160, 320, 480, 960, 1920})).Draw(t, "frame")
			l := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, p.Frame*4+3), rapid.IntRange(0, min(p.Frame*100, 20000)),
				rapid.SampledFrom([]int{p.Frame, p.Frame - 1, p.Frame + 1, 2 * p.Frame, 2*p.Frame + 1}))
			p.Writes = laps(t, rapid.SliceOfN(l, 0, 30).Draw(t, "writes"), 3000)
			if rapid.Bool().Draw(t, "faults") {
				p.Fail = rapid.SliceOfNDistinct(rapid.IntRange(0, 25), 0, 8, rapid.ID[int]).Draw(t, "fail")
			}
			p.CloseF = rapid.IntRange(0, 4).Draw(t, "closef") == 0
			return p
		}, func(p c02Plan) Out {
			switch p.Elem {
			case "int8":
				return c02Run[[]int8](p, func(i int) int8 { return int8(i*7 + i/128) })
			case "float32":
				return c02Run[[]float32](p, func(i int) float32 { return float32(i) + 0.5 })
			default:
				return c02Run[media.PCM16Sample](p, func(i int) int16 { return int16(i*13 + 1) })
			}
		})
}

type c02Dst[T ~[]S, S any] struct {
	frames [][]S
	fail   map[int]error
	calls  int
	closed int
	cerr   error
}

func (d *c02Dst[T, S]) String() string  { return "dst" }
func (d *c02Dst[T, S]) SampleRate() int { return 12345 }
func (d *c02Dst[T, S]) Close() error    { d.closed++; return d.cerr }
func (d *c02Dst[T, S]) WriteSample(in T) error {
	i := d.calls
	d.calls++
	d.frames = append(d.frames, append([]S(nil), in...))
	return d.fail[i]
}

var errClose = errors.New("close failed")

func c02Run[T ~[]S, S int8 | int16 | float32](p c02Plan, val func(i int) S) Out {
	d := &c02Dst[T, S]{fail: map[int]error{}}
	for _, i := range p.Fail {
		d.fail[i] = errSink
	}
	if p.CloseF {
		d.cerr = errClose
	}
	w := media.FullFrames[T, S](d, p.Frame)
	if w.SampleRate() != 12345 {
		return bad("sample rate %d", w.SampleRate())
	}
	var pending []S
	var want [][]S
	total := 0
	nt, faulted := false, false
	var scratch []S
	for wi, n := range p.Writes {
		if cap(scratch) < n {
			scratch = make([]S, n)
		}
		in := scratch[:n]
		for i := range in {
			in[i] = val(total + i)
		}
		total += n
		pending = append(pending, in...)
		var werr error
		for len(pending) >= p.Frame {
			idx := len(want)
			want = append(want, append([]S(nil), pending[:p.Frame]...))
			pending = pending[p.Frame:]
			if d.fail[idx] != nil {
				werr = errSink
				faulted = true
				break
			}
		}
		if n > 0 && n != p.Frame && len(want) > 0 {
			nt = true
		}
		err := w.WriteSample(T(in))
		// the caller reuses its buffer
		for i := range in {
			in[i] = 77
		}
		if !errors.Is(err, werr) || (err != nil) != (werr != nil) {
			return bad("write %d of %d samples: error %v, want %v", wi, n, err, werr)
		}
		if len(d.frames) != len(want) {
			return bad("write %d of %d samples: %d frames delivered, want %d", wi, n, len(d.frames), len(want))
		}
	}
	// frames left over by an earlier failure are delivered on close, then the tail
	var cerr error
	for len(pending) > 0 {
		n := min(p.Frame, len(pending))
		idx := len(want)
		want = append(want, append([]S(nil), pending[:n]...))
		pending = pending[n:]
		if d.fail[idx] != nil {
			cerr = errSink
			faulted = true
			break
		}
	}
	err := w.Close()
	if (cerr != nil) != errors.Is(err, errSink) || p.CloseF != errors.Is(err, errClose) || (err != nil) != (cerr != nil || p.CloseF) {
		return bad("Close returned %v; flush error expected: %v, close error expected: %v", err, cerr, p.CloseF)
	}
	if d.closed != 1 {
		return bad("destination closed %d times", d.closed)
	}
	if len(d.frames) != len(want) {
		return bad("%d frames delivered, want %d", len(d.frames), len(want))
	}
	for i := range want {
		if !eqSlice(d.frames[i], want[i]) {
			return bad("frame %d: %s", i, diffAt(d.frames[i], want[i]))
		}
	}
	o := Out{NT: nt || faulted}
	if faulted {
		o = o.cls("fault")
	}
	return o
}

type c02cPlan struct {
	Frame   int `json:"frame"`
	Writers int `json:"writers"`
	Writes  int `json:"writes"`
	Len     int `json:"len"`
}

type c02cDst struct {
	frames []media.PCM16Sample
	closed int
}

func (d *c02cDst) String() string  { return "dst" }
func (d *c02cDst) SampleRate() int { return 12345 }
func (d *c02cDst) Close() error    { d.closed++; return nil }
func (d *c02cDst) WriteSample(in media.PCM16Sample) error {
	d.frames = append(d.frames, append(media.PCM16Sample(nil), in...))
	return nil
}

// c02Concurrent has several writers; every write must appear as a whole.
func c02Concurrent(p c02cPlan) Out {
	dst := &c02cDst{}
	w := media.FullFrames[media.PCM16Sample](dst, p.Frame)
	var wg sync.WaitGroup
	for k := range p.Writers {
		wg.Go(func() {
			s := make(media.PCM16Sample, p.Len)
			for i := range p.Writes {
				for j := range s {
					s[j] = int16(k*1000 + i)
				}
				_ = w.WriteSample(s)
			}
		})
	}
	wg.Wait()
	if err := w.Close(); err != nil {
		return bad("close: %v", err)
	}
	if dst.closed != 1 {
		return bad("the destination was closed %d times", dst.closed)
	}
	var all media.PCM16Sample
	for i, f := range dst.frames {
		if len(f) != p.Frame && (i+1 < len(dst.frames) || len(f) == 0) {
			return bad("frame %d has %d samples", i, len(f))
		}
		all = append(all, f...)
	}
	if len(all) != p.Writers*p.Writes*p.Len {
		return bad("%d samples delivered, want %d", len(all), p.Writers*p.Writes*p.Len)
	}
	next := map[int]int{}
	changes := 0
	for i := 0; i < len(all); i += p.Len {
		for j := 1; j < p.Len; j++ {
			if all[i+j] != all[i] {
				return bad("a write was torn at sample %d", i+j)
			}
		}
		k, n := int(all[i])/1000, int(all[i])%1000
		if next[k] != n {
			return bad("writer %d: write %d follows, want %d", k, n, next[k])
		}
		next[k]++
		if i > 0 && int(all[i-p.Len])/1000 != k {
			changes++
		}
	}
	return Out{NT: changes >= p.Writers}
}
