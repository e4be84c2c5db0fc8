package props

import (
	"errors"
	"math"

	media "github.com/livekit/media-sdk"
	sdkopus "github.com/livekit/media-sdk/opus"
	"github.com/livekit/protocol/logger"
	"gopkg.in/hraban/opus.v2"
	"pgregory.net/rapid"
)

// C13: Opus.

type c13Op struct {
	Op  string `json:"o"` // mono, stereo (a run of frames), empty, bad
	N   int    `json:"n"`
	F   int    `json:"f,omitempty"`   // tone, Hz
	D   int    `json:"d,omitempty"`   // duration of packets in 0.1 ms, 0: 20 ms
	R   int    `json:"r,omitempty"`   // right channel level, percent of the left one
	Bad int    `json:"bad,omitempty"` // kind of corruption
}

type c13Plan struct {
	ERate int     `json:"erate"`
	DRate int     `json:"drate"`
	Ops   []c13Op `json:"ops"`
	Fail  int     `json:"fail"`
	Chs   int     `json:"chs"` // another target layout to try
}

func c13Bad(kind, ch int) []byte {
	stereo := byte(0)
	if ch == 2 {
		stereo = 4
	}
	switch kind % 5 {
	case 0:
		return []byte{0x03 | stereo} // frame count byte missing
	case 1:
		return []byte{0xfb | stereo, 0} // no frames
	case 2:
		return []byte{0x82 | stereo, 0xfd} // truncated length of the first frame
	case 3:
		return []byte{0x81 | stereo, 1, 2, 3} // odd length of two equal frames + 1
	default:
		return []byte{0xfb | stereo, 0x3f, 1, 1} // more than 120 ms
	}
}

func c13Run(p c13Plan) Out {
	log := logger.GetLogger()
	for _, ch := range []int{p.Chs, 0, 3, -1} {
		_, err := sdkopus.Decode(&c09Dst{rate: p.DRate}, ch, log)
		if (err == nil) != (ch == 1 || ch == 2) {
			return bad("Decode for %d channels: %v", ch, err)
		}
	}
	dst := [3]*c09Dst{1: {rate: p.DRate}, 2: {rate: p.DRate}}
	var dec [3]sdkopus.Writer
	for ch := 1; ch <= 2; ch++ {
		d, err := sdkopus.Decode(dst[ch], ch, log)
		if err != nil {
			return bad("Decode: %v", err)
		}
		if d.SampleRate() != p.DRate {
			return bad("decoder SampleRate=%d", d.SampleRate())
		}
		dec[ch] = d
	}
	dst[1].failAt = p.Fail
	pk := [3]*c11Bytes{1: {rate: p.ERate}, 2: {rate: p.ERate}}
	var enc [3]media.PCM16Writer
	for ch := 1; ch <= 2; ch++ {
		e, err := sdkopus.Encode(c11BW[sdkopus.Sample]{pk[ch]}, ch, log)
		if err != nil {
			return bad("Encode: %v", err)
		}
		if e.SampleRate() != p.ERate {
			return bad("encoder SampleRate=%d", e.SampleRate())
		}
		enc[ch] = e
	}
	durs := 0
	var raw *opus.Decoder // plain decoder for the first run of one channel layout
	rawCh := 0
	badRun := 0
	lastCh := 0
	lastLayout := 0
	sync := true // the decoders started with the stream of the current encoder
	pos := 0
	good, changes, bads := 0, 0, 0
	var copyErr error
	feed := func(ch int, pkt []byte) (e1, e2 error, o1, o2 media.PCM16Sample) {
		n1, n2 := len(dst[1].got), len(dst[2].got)
		a := append(sdkopus.Sample(nil), pkt...)
		if err := c11Copy(a, len(pkt)); err != nil {
			copyErr = err
		}
		e1 = dec[1].WriteSample(a)
		e2 = dec[2].WriteSample(a)
		return e1, e2, dst[1].got[n1:], dst[2].got[n2:]
	}
	for oi, o := range p.Ops {
		switch o.Op {
		case "mono", "stereo":
			ch := 1
			if o.Op == "stereo" {
				ch = 2
			}
			// A sender that changes its channel layout starts a new encoder.
			newEnc := lastLayout != ch
			lastLayout = ch
			if newEnc {
				e, err := sdkopus.Encode(c11BW[sdkopus.Sample]{pk[ch]}, ch, log)
				if err != nil {
					return bad("Encode: %v", err)
				}
				enc[ch] = e
			}
			layout := ch
			dur := o.D
			if dur == 0 {
				dur = 200
			}
			frame := p.DRate * dur / 10000
			if dur != 200 {
				durs++
			}
			var run media.PCM16Sample // mono output of this run
			amp := 8000.0
			for range o.N {
				in := make(media.PCM16Sample, p.ERate*dur/10000*ch)
				for j := range p.ERate * dur / 10000 {
					v := amp * math.Sin(2*math.Pi*float64(o.F)*float64(pos)/float64(p.ERate))
					pos++
					in[j*ch] = int16(v)
					if ch == 2 {
						in[j*2+1] = int16(v * float64(o.R) / 100)
					}
				}
				np, nb := len(pk[ch].frames), len(pk[ch].got)
				if err := enc[ch].WriteSample(in); err != nil {
					return bad("op %d: encoder: %v", oi, err)
				}
				if len(pk[ch].frames) != np+1 || pk[ch].frames[np] == 0 {
					return bad("op %d: encoder produced packets of %v bytes for one frame", oi, pk[ch].frames[np:])
				}
				pkt := pk[ch].got[nb:]
				// The encoder may choose to send two channels as one.
				ch := 1 + int(pkt[0]>>2&1)
				if ch > layout {
					return bad("op %d: packet of %d channels for a frame of %d", oi, ch, layout)
				}
				willFail := dst[1].writes+1 == p.Fail
				e1, e2, o1, o2 := feed(ch, pkt)
				if e2 != nil || errors.Is(e1, errSink) != willFail || (e1 != nil && !willFail) {
					return bad("op %d: decoding a good packet: %v / %v (destination fails: %v)", oi, e1, e2, willFail)
				}
				if len(o1) != frame || len(o2) != 2*frame {
					return bad("op %d: a packet of %d us and %d channels gave %d mono and %d stereo samples at %d Hz", oi, dur*100, ch, len(o1), len(o2), p.DRate)
				}
				for j := range o1 {
					l, r := int(o2[2*j]), int(o2[2*j+1])
					if ch == 1 && l != r {
						return bad("op %d: mono packet, stereo sample %d is %d/%d", oi, j, l, r)
					}
					if d := int(o1[j]) - (l+r)/2; (ch == 1 && d != 0) || absI(d) > 1 {
						return bad("op %d: packet of %d channels, sample %d: mono %d, stereo %d/%d", oi, ch, j, o1[j], l, r)
					}
				}
				if lastCh == 0 {
					raw, _ = opus.NewDecoder(p.DRate, ch)
					rawCh = ch
				}
				if lastCh != 0 && lastCh != ch {
					changes++
					raw = nil
				}
				if reset := lastCh != ch; newEnc || reset {
					sync = newEnc && reset
				}
				newEnc = false
				lastCh = ch
				if raw != nil {
					buf := make([]int16, p.DRate*120/1000*ch)
					n, err := raw.Decode(pkt, buf)
					if err != nil || n != frame {
						return bad("op %d: the encoder's packet is not a %d us one: %d, %v", oi, dur*100, n, err)
					}
					have := o1
					if rawCh == 2 {
						have = o2
					}
					if !eqSlice(have, media.PCM16Sample(buf[:n*ch])) {
						return bad("op %d: decoded audio differs from plain libopus: %s", oi, diffAt(have, media.PCM16Sample(buf[:n*ch])))
					}
				}
				run = append(run, o1...)
				good++
				badRun = 0
			}
			// The tone is still there, at its level, once the codec has settled.
			if o.N >= 20 && dur == 200 && sync {
				tail := run[len(run)-5*frame:]
				level := amp
				if ch == 2 {
					level = amp * (100 + float64(o.R)) / 200
				}
				var a, b, e float64
				for j, v := range tail {
					ph := 2 * math.Pi * float64(o.F) * float64(j) / float64(p.DRate)
					a += float64(v) * math.Cos(ph)
					b += float64(v) * math.Sin(ph)
					e += float64(v) * float64(v)
				}
				n := float64(len(tail))
				g := 2 * math.Hypot(a, b) / n
				rest := e/n - g*g/2
				if g < 0.4*level || g > 1.8*level || rest > 0.9*g*g/2+1e4 {
					return bad("op %d: %d Hz tone of level %.0f came out with level %.0f, other energy %.3g", oi, o.F, level, g, rest/(g*g/2))
				}
			}
		case "empty":
			e1, e2, o1, o2 := feed(0, nil)
			if e1 != nil || e2 != nil || len(o1) != 0 || len(o2) != 0 {
				return bad("op %d: empty packet: %v %v, %d samples", oi, e1, e2, len(o1))
			}
		case "bad":
			ch := 1 + o.R%2
			if lastCh == 0 || lastCh != ch {
				raw, sync = nil, false
				if lastCh == 0 {
					lastCh = -1
				}
			}
			for k := range o.N {
				e1, e2, o1, o2 := feed(ch, c13Bad(o.Bad+k, ch))
				if len(o1) != 0 || len(o2) != 0 {
					return bad("op %d: a corrupt packet produced %d samples", oi, len(o1))
				}
				badRun++
				bads++
				want := badRun > 5
				if (e1 != nil) != want || (e2 != nil) != want {
					return bad("op %d: corrupt packet number %d in a row: %v / %v", oi, badRun, e1, e2)
				}
			}
		}
	}
	if copyErr != nil {
		return bad("packet: %v", copyErr)
	}
	for ch := 1; ch <= 2; ch++ {
		_ = dec[ch].Close()
		_ = enc[ch].Close()
		if dst[ch].closed != 1 || pk[ch].closed != 1 {
			return bad("closed %d/%d times", dst[ch].closed, pk[ch].closed)
		}
	}
	o := Out{NT: good >= 2}
	if changes > 0 {
		o = o.cls("alternating")
	}
	if durs > 0 {
		o = o.cls("other durations")
	}
	if bads > 5 {
		o = o.cls("corrupt")
	}
	return o
}

func init() {
	op := rapid.Custom(func(t *rapid.T) c13Op {
		o := c13Op{Op: rapid.SampledFrom([]string{"mono", "stereo", "mono", "stereo", "empty", "bad", "bad"}).Draw(t, "op")}
		switch o.Op {
		case "mono", "stereo":
			o.N = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 28)).Draw(t, "n")
			if rapid.IntRange(0, 2).Draw(t, "dur?") == 0 {
				o.D = rapid.SampledFrom([]int{25, 50, 100, 100, 400, 600, 800, 1000, 1200}).Draw(t, "dur")
				o.N = min(o.N, 5)
			}
			o.F = rapid.IntRange(3, 25).Draw(t, "f") * 100
			o.R = rapid.SampledFrom([]int{100, 100, 50}).Draw(t, "r")
		case "bad":
			o.N = rapid.IntRange(1, 8).Draw(t, "n")
			o.R = rapid.IntRange(0, 1).Draw(t, "ch")
			o.Bad = rapid.IntRange(0, 4).Draw(t, "kind")
		}
		return o
	})
	reg("C13", "streams", opts{sec: [2]float64{12, 200}, rule: "at least two good packets"},
		func(t *rapid.T) c13Plan {
			rates := []int{8000, 12000, 16000, 24000, 48000}
			return c13Plan{
				ERate: rapid.SampledFrom(rates).Draw(t, "er"),
				DRate: rapid.SampledFrom(rates).Draw(t, "dr"),
				Ops:   laps(t, rapid.SliceOfN(op, 1, 12).Draw(t, "ops"), 400),
				Fail:  rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "fail"),
				Chs:   rapid.IntRange(-2, 5).Draw(t, "chs"),
			}
		}, c13Run)
}
