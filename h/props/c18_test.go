package props

import (
	"errors"
	"time"

	media "github.com/livekit/media-sdk"
	"pgregory.net/rapid"
)

// C18: paced playback.

type c18Plan struct {
	Period int   `json:"period"` // us
	Lens   []int `json:"lens"`
	Fail   int   `json:"fail"`
	Cancel int   `json:"cancel"` // in 1/10 periods, 0 = never
	Mid    int   `json:"mid"`    // cancel within this write
	Pre    bool  `json:"pre"`    // cancelled before the start
	Slow   []int `json:"slow"`   // write durations in 1/10 periods, cyclic
	Ctx    int   `json:"ctx"`
}

func c18Run(p c18Plan) Out {
	return bubble(func() Out {
		per := time.Duration(p.Period) * time.Microsecond
		var frames []media.PCM16Sample
		for i, n := range p.Lens {
			frames = append(frames, c04PCM(i, n))
		}
		n := len(frames)
		rec := &timedRec{rate: 8000, start: time.Now(), failAt: p.Fail}
		slow := false
		for _, s := range p.Slow {
			rec.sleep = append(rec.sleep, time.Duration(s)*per/10)
			slow = slow || s >= 10
		}
		after := time.Duration(-1)
		if p.Cancel > 0 && !p.Pre {
			after = per*time.Duration(p.Cancel)/10 + 1 // just after the tick
		}
		ctx, cancel := ctxEnding(p.Ctx, after)
		defer cancel()
		var cancelAt time.Duration = -1
		switch {
		case p.Pre:
			cancel()
			cancelAt = 0
		case p.Cancel > 0:
			cancelAt = after
		case p.Mid > 0:
			rec.onW = func(k int) {
				if k == p.Mid {
					cancelAt = time.Since(rec.start)
					cancel()
				}
			}
		}
		err := media.PlayAudio[media.PCM16Sample](ctx, rec, per, frames)
		end := time.Since(rec.start)
		got := len(rec.frames)
		for k := range got {
			if k >= n || !eqSlice(rec.frames[k], c04PCM(k, p.Lens[k])) {
				return bad("frame %d is not the %d-th of the list", k, k)
			}
			due := time.Duration(k+1) * per
			if rec.at[k] < due {
				return bad("frame %d written at %v, before %v", k, rec.at[k], due)
			}
			if !slow && rec.at[k] != due {
				return bad("frame %d written at %v, want %v", k, rec.at[k], due)
			}
		}
		for i := range frames {
			if !eqSlice(frames[i], c04PCM(i, p.Lens[i])) {
				return bad("the caller's frame %d was changed", i)
			}
		}
		switch {
		case n == 0:
			if err != nil || end != 0 || got != 0 {
				return bad("empty list: %v at %v", err, end)
			}
		case errors.Is(err, errSink):
			if p.Fail == 0 || got != p.Fail {
				return bad("write error returned after %d frames, write %d fails", got, p.Fail)
			}
		case err != nil:
			if err != ctx.Err() || cancelAt < 0 {
				return bad("PlayAudio: %v (context: %v)", err, ctx.Err())
			}
			if got == n {
				return bad("all frames were written, but it returned %v", err)
			}
			if end < cancelAt {
				return bad("returned %v before the cancellation", err)
			}
			// It stops at once when it was waiting, and after the running write otherwise.
			if !slow {
				if p.Mid > 0 && !p.Pre && p.Cancel == 0 && got != p.Mid {
					return bad("cancelled in write %d, %d frames written", p.Mid, got)
				}
				if want := int(cancelAt / per); got != want {
					return bad("cancelled at %v: %d frames, want %d", cancelAt, got, want)
				}
				last := cancelAt
				if got > 0 && len(rec.sleep) > 0 {
					last = max(last, rec.at[got-1]+rec.sleep[(got-1)%len(rec.sleep)])
				}
				if end != last {
					return bad("cancelled at %v, returned at %v", cancelAt, end)
				}
			}
		default:
			if got != n {
				return bad("returned nil after %d of %d frames", got, n)
			}
			if p.Fail > 0 && p.Fail <= n {
				return bad("write %d failed, nil was returned", p.Fail)
			}
			last := rec.at[n-1]
			if len(rec.sleep) > 0 {
				last += rec.sleep[(n-1)%len(rec.sleep)]
			}
			if end != last {
				return bad("returned at %v, the last write ended at %v", end, last)
			}
		}
		if cancelAt >= 0 && n > 0 && err == nil && end > cancelAt+per*3+time.Duration(n)*per*10 {
			return bad("cancellation ignored")
		}
		time.Sleep(10 * per)
		if len(rec.frames) != got {
			return bad("written after it returned")
		}
		return Out{NT: n >= 2}
	})
}

func init() {
	reg("C18", "playback", opts{sec: [2]float64{5, 60}, rule: "at least two frames"},
		func(t *rapid.T) c18Plan {
			p := c18Plan{
				Period: rapid.SampledFrom([]int{20000, 10000, 60000, 1000, 33333}).Draw(t, "per"),
				Lens:   laps(t, rapid.SliceOfN(rapid.IntRange(0, 20), 0, 30).Draw(t, "lens"), 3000),
			}
			p.Ctx = rapid.IntRange(0, 3).Draw(t, "ctx")
			switch rapid.IntRange(0, 5).Draw(t, "k") {
			case 0:
				p.Fail = rapid.IntRange(1, 32).Draw(t, "fail")
			case 1:
				p.Cancel = rapid.IntRange(1, 320).Draw(t, "cancel")
			case 2:
				p.Mid = rapid.IntRange(1, 30).Draw(t, "mid")
			case 3:
				p.Pre = rapid.IntRange(0, 3).Draw(t, "pre") == 0
			}
			if rapid.Bool().Draw(t, "s?") {
				p.Slow = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 8), rapid.IntRange(0, 35)), 1, 6).Draw(t, "slow")
			}
			return p
		}, c18Run)
}
