package props

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"pgregory.net/rapid"
)

// C15: sending DTMF digit strings.

type c15Plan struct {
	Digits  string `json:"digits"`
	Audio   bool   `json:"audio"`
	Events  bool   `json:"events"`
	Rate    int    `json:"rate"`
	Start   uint32 `json:"start"`
	Cancel  int    `json:"cancel"` // ms, 0 = never
	FailA   int    `json:"fa"`
	FailE   int    `json:"fe"`
	Type    byte   `json:"type"`
	PreSent int    `json:"pre"` // packets sent through the stream before
	Ctx     int    `json:"ctx,omitempty"`
}

type c15Pkt struct {
	at time.Duration
	h  rtp.Header
	p  []byte
}

type c15Events struct {
	start  time.Time
	pkts   []c15Pkt
	failAt int
	calls  int
}

var errEvents = fmt.Errorf("event writer failed")

func (e *c15Events) String() string { return "events" }
func (e *c15Events) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
	e.calls++
	if e.calls == e.failAt {
		return 0, errEvents
	}
	e.pkts = append(e.pkts, c15Pkt{time.Since(e.start), h.Clone(), append([]byte(nil), payload...)})
	return len(payload), nil
}

// Least-squares fit of two sines and cosines; returns the two amplitudes and
// the RMS of what is left.
func fitTones(s []float64, rate float64, f1, f2 float64) (a1, a2, rest float64) {
	const m = 4
	basis := func(i int) [m]float64 {
		t := 2 * math.Pi * float64(i) / rate
		return [m]float64{math.Sin(f1 * t), math.Cos(f1 * t), math.Sin(f2 * t), math.Cos(f2 * t)}
	}
	var A [m][m + 1]float64
	for i, v := range s {
		b := basis(i)
		for r := range m {
			for c := range m {
				A[r][c] += b[r] * b[c]
			}
			A[r][m] += b[r] * v
		}
	}
	for c := range m {
		p := c
		for r := c; r < m; r++ {
			if math.Abs(A[r][c]) > math.Abs(A[p][c]) {
				p = r
			}
		}
		A[c], A[p] = A[p], A[c]
		for r := range m {
			if r != c {
				k := A[r][c] / A[c][c]
				for j := c; j <= m; j++ {
					A[r][j] -= k * A[c][j]
				}
			}
		}
	}
	var x [m]float64
	for r := range m {
		x[r] = A[r][m] / A[r][r]
	}
	for i, v := range s {
		b := basis(i)
		for r := range m {
			v -= x[r] * b[r]
		}
		rest += v * v
	}
	return math.Hypot(x[0], x[1]), math.Hypot(x[2], x[3]), math.Sqrt(rest / float64(len(s)))
}

func c15Run(p c15Plan) Out {
	return bubble(func() Out {
		rec := &timedRec{rate: p.Rate, start: time.Now(), failAt: p.FailA}
		ew := &c15Events{start: time.Now()}
		var audio media.Writer[media.PCM16Sample]
		if p.Audio {
			audio = rec
		}
		var events *rtp.Stream
		sw := rtp.NewSeqWriter(ew)
		if p.Events {
			events = sw.NewStream(p.Type, dtmf.SampleRate)
			for range p.PreSent {
				_ = events.WritePayload([]byte{1}, false)
			}
		}
		pre := len(ew.pkts)
		ew.calls, ew.failAt = 0, p.FailE
		at := time.Duration(p.Cancel)*time.Millisecond + 500*time.Microsecond
		after := at
		if p.Cancel == 0 {
			after = -1
		}
		ctx, cancel := ctxEnding(p.Ctx, after)
		defer cancel()
		err := dtmf.Write(ctx, audio, events, p.Start, p.Digits)
		end := time.Since(rec.start)
		pkts := ew.pkts[pre:]
		frames := rec.frames

		// The schedule: for every frame the digit that sounds, and its events.
		type slot struct {
			digit byte // 0 = silence
			k     int  // frame of the digit
			ts    uint32
		}
		var slots []slot
		ts := p.Start
		for _, d := range []byte(p.Digits) {
			if d == 'w' {
				for range 25 {
					slots = append(slots, slot{})
				}
				ts += 4000
				continue
			}
			for k := range 13 {
				slots = append(slots, slot{d, k, ts})
			}
			ts += 2000
			for range 13 {
				slots = append(slots, slot{})
			}
			ts += 2000
		}
		type evt struct {
			frame int
			s     slot
			last  bool
		}
		var want []evt
		for i, s := range slots {
			if s.digit == 0 {
				continue
			}
			if s.k < 12 {
				want = append(want, evt{i, s, false})
			} else {
				want = append(want, evt{i, s, true}, evt{i, s, true}, evt{i, s, true})
			}
		}
		// When does it stop?
		stopFrame, failed := len(slots), error(nil)
		if p.Audio && p.FailA > 0 && p.FailA <= stopFrame {
			stopFrame, failed = p.FailA-1, errSink
		}
		if p.Events && p.FailE > 0 && p.FailE <= len(want) {
			if f := want[p.FailE-1].frame; f < stopFrame {
				stopFrame, failed = f, errEvents
			}
		}
		wantFrames, wantEnd := len(slots), time.Duration(len(slots)+1)*tick20
		if failed != nil {
			wantFrames, wantEnd = stopFrame+1, time.Duration(stopFrame+1)*tick20
		}
		cancelled := p.Cancel > 0 && at < wantEnd
		if cancelled {
			failed = ctx.Err()
			wantFrames, wantEnd = int(at/tick20), at
		}
		if failed == nil && err != nil || failed != nil && !errors.Is(err, failed) {
			return bad("Write returned %v, want %v", err, failed)
		}
		if cancelled && err != ctx.Err() {
			return bad("Write returned %v, context has %v", err, ctx.Err())
		}
		if end != wantEnd {
			return bad("Write returned at %v, want %v (%v)", end, wantEnd, err)
		}
		// Audio
		if p.Audio {
			if len(frames) != wantFrames && !(failed == errEvents && len(frames) == wantFrames-1) {
				return bad("%d audio frames, want %d", len(frames), wantFrames)
			}
			for i, f := range frames {
				if rec.at[i] != time.Duration(i+1)*tick20 || len(f) != p.Rate/50 {
					return bad("frame %d: %d samples at %v", i, len(f), rec.at[i])
				}
				if slots[i].digit == 0 {
					for _, v := range f {
						if v != 0 {
							return bad("frame %d is not silent", i)
						}
					}
				}
			}
			// Whole digits are continuous dual tones.
			for i, s := range slots {
				if s.digit == 0 || s.k != 0 || i+13 > len(frames) {
					continue
				}
				var x []float64
				for _, f := range frames[i : i+13] {
					for _, v := range f {
						x = append(x, float64(v))
					}
				}
				fr := c14Freq[s.digit]
				a1, a2, rest := fitTones(x, float64(p.Rate), float64(fr[0]), float64(fr[1]))
				half := float64(math.MaxInt16/2) / 2
				if math.Abs(a1-half) > 10 || math.Abs(a2-half) > 10 || rest > 3 {
					return bad("digit %c at frame %d: tone levels %.0f and %.0f, residual %.1f, want %.0f each", s.digit, i, a1, a2, rest, half)
				}
			}
		} else if len(frames) != 0 {
			return bad("audio written")
		}
		// Events
		if !p.Events {
			if len(pkts) != 0 {
				return bad("events written")
			}
			return Out{NT: wantFrames > 13}
		}
		n := 0
		for i, w := range want {
			if w.frame >= wantFrames {
				break
			}
			if w.frame == wantFrames-1 && failed == errSink && n == len(pkts) {
				break // the order within one frame does not matter
			}
			if failed == errEvents && i+1 == p.FailE {
				break
			}
			if n >= len(pkts) {
				return bad("only %d events, the next one is %c of frame %d", len(pkts), w.s.digit, w.frame)
			}
			k := pkts[n]
			n++
			if k.at != time.Duration(w.frame+1)*tick20 {
				return bad("event %d sent at %v, want frame %d", i, k.at, w.frame)
			}
			if k.h.PayloadType != p.Type || k.h.Timestamp != w.s.ts || k.h.Marker != (w.s.k == 0) {
				return bad("event %d (%c, frame %d of it): type %d, timestamp %d, marker %v; want %d, %d, %v", i, w.s.digit, w.s.k, k.h.PayloadType, k.h.Timestamp, k.h.Marker, p.Type, w.s.ts, w.s.k == 0)
			}
			ev, err := dtmf.Decode(k.p)
			if err != nil || len(k.p) != 4 {
				return bad("event %d: %x", i, k.p)
			}
			if ev.Digit != w.s.digit || ev.End != w.last || int(ev.Dur) != 160*(w.s.k+1) || ev.Volume != 10 {
				return bad("event %d: %+v, want digit %c, end %v, duration %d", i, ev, w.s.digit, w.last, 160*(w.s.k+1))
			}
		}
		if n != len(pkts) {
			return bad("%d events, want %d", len(pkts), n)
		}
		for i := 1; i < len(ew.pkts); i++ {
			if ew.pkts[i].h.SequenceNumber != ew.pkts[i-1].h.SequenceNumber+1 {
				return bad("sequence numbers are not consecutive")
			}
		}
		return Out{NT: wantFrames > 13}
	})
}

func init() {
	reg("C15", "digits", opts{sec: [2]float64{10, 120}, rule: "more than one digit's length was sent"},
		func(t *rapid.T) c15Plan {
			p := c15Plan{
				Digits: string(laps(t, []byte(rapid.StringOfN(rapid.SampledFrom([]rune("0123456789*#abcdww")), 0, 8, -1).Draw(t, "digits")), 70)),
				Rate:   rapid.SampledFrom([]int{8000, 16000, 48000, 44100}).Draw(t, "rate"),
				Start:  rapid.OneOf(rapid.Just(uint32(0)), rapid.Uint32Range(0, 100000), rapid.Uint32Range(0, 1<<31), rapid.Uint32Range(1<<31, 1<<32-1<<20)).Draw(t, "start"),
				Type:   rapid.SampledFrom([]byte{101, 96, 127, 0}).Draw(t, "type"),
			}
			if rapid.IntRange(0, 15).Draw(t, "run?") == 9 && len(p.Digits) > 0 {
				// A run of one character.
				i := rapid.IntRange(0, len(p.Digits)-1).Draw(t, "of")
				p.Digits = p.Digits[:i] + strings.Repeat(p.Digits[i:i+1], rapid.IntRange(2, 45).Draw(t, "run")) + p.Digits[i:]
				p.Digits = p.Digits[:min(70, len(p.Digits))]
			}
			k := rapid.IntRange(0, 7).Draw(t, "outputs")
			p.Audio = k != 0
			p.Events = k != 1
			switch rapid.IntRange(0, 4).Draw(t, "k") {
			case 0:
				p.Cancel = rapid.IntRange(1, 3000).Draw(t, "cancel")
				p.Ctx = rapid.IntRange(0, 3).Draw(t, "ctx")
			case 1:
				p.FailA = rapid.IntRange(1, 150).Draw(t, "fa")
			case 2:
				p.FailE = rapid.IntRange(1, 60).Draw(t, "fe")
			}
			if p.Start == 0 || p.Start > 2000 {
				p.PreSent = rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "pre")
				if p.Start == 0 && p.PreSent > 1 {
					p.PreSent = 1
				}
			}
			return p
		}, c15Run)
}
