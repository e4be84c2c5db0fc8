package props

import (
	"errors"
	"math"
	"math/big"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/tones"
	"pgregory.net/rapid"
)

// C17: looped tones.

type timedRec struct {
	rate   int
	start  time.Time
	frames []media.PCM16Sample
	at     []time.Duration
	failAt int
	err    error
	sleep  []time.Duration // per write, cyclic
	onW    func(k int)
}

func (r *timedRec) String() string  { return "timed" }
func (r *timedRec) SampleRate() int { return r.rate }
func (r *timedRec) WriteSample(s media.PCM16Sample) error {
	r.frames = append(r.frames, append(media.PCM16Sample(nil), s...))
	r.at = append(r.at, time.Since(r.start))
	k := len(r.frames)
	if r.onW != nil {
		r.onW(k)
	}
	if len(r.sleep) > 0 {
		time.Sleep(r.sleep[(k-1)%len(r.sleep)])
	}
	if k == r.failAt {
		if r.err != nil {
			return r.err
		}
		return errSink
	}
	return nil
}

const tick20 = 20 * time.Millisecond

type c17Tone struct {
	Freq []int64 `json:"f"`
	Dur  int     `json:"d"` // ms
	Sil  int     `json:"s"`
	Off  int     `json:"off,omitempty"` // more of both, ns
}

type c17Plan struct {
	Rate   int       `json:"rate"`
	Vol    int16     `json:"vol"`
	Tones  []c17Tone `json:"tones"`
	Cancel int       `json:"cancel"` // ms
	Fail   int       `json:"fail"`
	Mid    bool      `json:"mid"` // cancel from within a write instead
	SlowMs int       `json:"slow"`
	Ctx    int       `json:"ctx,omitempty"`
}

func c17Dur(ms, off int) time.Duration {
	if ms == 0 {
		return 0
	}
	return time.Duration(ms)*time.Millisecond + time.Duration(off)
}

func c17Frames(ms, off int) int { return max(1, int((c17Dur(ms, off)+tick20-1)/tick20)) }

func c17Run(p c17Plan) Out {
	return bubble(func() Out {
		var ts []tones.Tone
		type seg struct {
			freq []int64
			n    int
		}
		var cycle []seg
		for _, t := range p.Tones {
			var f []tones.Hz
			for _, v := range t.Freq {
				f = append(f, tones.Hz(v))
			}
			ts = append(ts, tones.Tone{Freq: f, Dur: c17Dur(t.Dur, t.Off), Silence: c17Dur(t.Sil, t.Off)})
			cycle = append(cycle, seg{t.Freq, c17Frames(t.Dur, t.Off)})
			if t.Sil > 0 {
				cycle = append(cycle, seg{nil, c17Frames(t.Sil, t.Off)})
			}
		}
		rec := &timedRec{rate: p.Rate, start: time.Now(), failAt: p.Fail, sleep: []time.Duration{time.Duration(p.SlowMs) * time.Millisecond}}
		// Never exactly on a tick, where both events are ready at once.
		at := time.Duration(p.Cancel)*time.Millisecond + 500*time.Microsecond
		after := at
		if p.Mid {
			after = -1
		}
		ctx, cancel := ctxEnding(p.Ctx, after)
		defer cancel()
		if p.Mid {
			rec.onW = func(k int) {
				if k == p.Cancel/20+1 {
					cancel()
				}
			}
		}
		err := tones.Play(ctx, rec, p.Vol, ts)
		end := time.Since(rec.start)
		n := len(rec.frames)
		slow := time.Duration(p.SlowMs) * time.Millisecond
		if p.Fail > 0 && errors.Is(err, errSink) {
			if n != p.Fail || end != time.Duration(n)*tick20+slow {
				return bad("write %d failed, but %d frames were written until %v", p.Fail, n, end)
			}
		} else {
			if err == nil || err != ctx.Err() {
				return bad("Play returned %v", err)
			}
			want := int(at / tick20)
			if p.Mid {
				want = p.Cancel/20 + 1
				at = time.Duration(want)*tick20 + slow
			}
			if p.Fail > 0 && p.Fail <= want {
				return bad("write %d failed, but Play returned %v after %d frames", p.Fail, err, n)
			}
			if n != want {
				return bad("%d frames until the cancellation at %v, want %d", n, at, want)
			}
			if end < at || end > at+slow {
				return bad("cancelled at %v, returned at %v", at, end)
			}
		}
		time.Sleep(200 * time.Millisecond)
		if len(rec.frames) != n {
			return bad("frames written after Play returned")
		}
		si, left := 0, cycle[0].n
		loops := 0
		tol := 1.05 + math.Abs(float64(p.Vol))*2*math.Pi*4000*1.5e-9
		for k, f := range rec.frames {
			if rec.at[k] != time.Duration(k+1)*tick20 {
				return bad("frame %d written at %v", k, rec.at[k])
			}
			if len(f) != p.Rate/50 {
				return bad("frame %d has %d samples at %d Hz", k, len(f), p.Rate)
			}
			if left == 0 {
				si++
				if si == len(cycle) {
					si = 0
					loops++
				}
				left = cycle[si].n
			}
			left--
			den := big.NewInt(50 * int64(len(f)))
			for i, v := range f {
				want := 0.0
				if fr := cycle[si].freq; len(fr) > 0 {
					num := big.NewInt(int64(k)*int64(len(f)) + int64(i))
					for _, hz := range fr {
						want += refSine(hz, num, den)
					}
					want *= float64(p.Vol) / float64(len(fr))
				}
				if math.Abs(float64(v)-want) > tol {
					return bad("frame %d sample %d is %d, want %.1f (segment %d of the cadence)", k, i, v, want, si)
				}
			}
		}
		return Out{NT: n >= 5 && (loops > 0 || si > 0)}
	})
}

func init() {
	tone := rapid.Custom(func(t *rapid.T) c17Tone {
		return c17Tone{
			Freq: rapid.OneOf(rapid.SliceOfN(rapid.Int64Range(100, 3400), 0, 3), rapid.SliceOfN(rapid.Int64Range(100, 3400), 0, 8)).Draw(t, "f"),
			Dur:  rapid.OneOf(rapid.SampledFrom([]int{0, 20, 40, 100, 21, 39, 1}), rapid.IntRange(0, 300), rapid.IntRange(300, 30000)).Draw(t, "d"),
			Sil:  rapid.OneOf(rapid.Just(0), rapid.SampledFrom([]int{20, 60, 1, 21}), rapid.IntRange(0, 200), rapid.SampledFrom([]int{1, 20, 60, 400, 4000})).Draw(t, "s"),
			Off:  rapid.SampledFrom([]int{0, 0, 0, 1, -1, 1000}).Draw(t, "off"),
		}
	})
	reg("C17", "cadence", opts{sec: [2]float64{8, 90}, rule: "at least five frames and a change of cadence segment"},
		func(t *rapid.T) c17Plan {
			p := c17Plan{
				Rate:   rapid.SampledFrom([]int{8000, 16000, 48000, 44100}).Draw(t, "rate"),
				Vol:    rapid.SampledFrom([]int16{16383, 32767, 100, 0}).Draw(t, "vol"),
				Tones:  rapid.SliceOfN(tone, 1, 4).Draw(t, "tones"),
				Cancel: crowd(t, 0, 1500, 70000, "cancel"),
				Mid:    rapid.IntRange(0, 3).Draw(t, "mid") == 0,
				SlowMs: rapid.SampledFrom([]int{0, 0, 7, 19}).Draw(t, "slow"),
				Ctx:    rapid.IntRange(0, 3).Draw(t, "ctx"),
			}
			if rapid.IntRange(0, 3).Draw(t, "f?") == 0 {
				p.Fail = rapid.IntRange(1, 60).Draw(t, "fail")
			}
			return p
		}, c17Run)
	reg("C17", "long", opts{sec: [2]float64{4, 60}, hang: 120 * time.Second, slow: true, rule: "more than 500 frames"},
		func(t *rapid.T) c17Plan {
			return c17Plan{
				Rate:   rapid.SampledFrom([]int{8000, 8000, 16000}).Draw(t, "rate"),
				Vol:    rapid.SampledFrom([]int16{16383, 32767, 100}).Draw(t, "vol"),
				Tones:  rapid.SliceOfN(tone, 1, 3).Draw(t, "tones"),
				Cancel: rapid.IntRange(10000, 100000).Draw(t, "cancel"),
				SlowMs: rapid.SampledFrom([]int{0, 0, 7, 19}).Draw(t, "slow"),
				Ctx:    rapid.IntRange(0, 3).Draw(t, "ctx"),
			}
		}, func(p c17Plan) Out {
			o := c17Run(p)
			o.NT = p.Cancel > 500*20
			return o
		})
	_ = media.DefFrameDur
}
