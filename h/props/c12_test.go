package props

import (
	"errors"
	"math"

	"github.com/gotranspile/g722"
	media "github.com/livekit/media-sdk"
	sdkg722 "github.com/livekit/media-sdk/g722"
	"pgregory.net/rapid"
)

// C12: G.722.

type c12Plan struct {
	Rate  int   `json:"rate"`  // encoder rate: 8000 or 16000
	DRate int   `json:"drate"` // rate of the decoder's destination
	Lens  []int `json:"lens"`
	DLens []int `json:"dlens"` // byte counts of decoder writes, cyclic
	Sig   int   `json:"sig"`
	Fail  bool  `json:"fail"`
	Blank []int `json:"blank,omitempty"` // kinds of frames, cyclic: 1 is silence, 2 full scale, 3 one value
}

func c12Run(p c12Plan) Out {
	total := 0
	for _, n := range p.Lens {
		total += n
	}
	in := c09Signal(p.Sig, total, p.Rate)
	blank, at := 0, 0
	for i, n := range p.Lens {
		f := in[at : at+n]
		at += n
		if len(p.Blank) == 0 || n == 0 {
			continue
		}
		k := p.Blank[i%len(p.Blank)]
		for j := range f {
			switch k {
			case 1:
				f[j] = 0
			case 2:
				f[j] = 32767
				if j/20%2 == 1 {
					f[j] = -32768
				}
			case 3:
				f[j] = -1
			}
		}
		if k != 0 && i > 0 {
			blank++
		}
	}
	var fl g722.Flags
	div := 2
	if p.Rate == 8000 {
		fl, div = g722.FlagSampleRate8000, 1
	}
	// Oracle: one codec instance fed with everything at once.
	ref := make([]byte, total/div+2)
	ref = ref[:g722.NewEncoder(g722.Rate64000, fl).Encode(ref, append([]int16(nil), in...))]

	bd := &c11Bytes{rate: p.Rate}
	if p.Fail {
		bd.err = errSink
	}
	enc := sdkg722.Encode(c11BW[sdkg722.Sample]{bd})
	if enc.SampleRate() != p.Rate {
		return bad("encoder SampleRate=%d", enc.SampleRate())
	}
	off := 0
	for i, n := range p.Lens {
		s := append(media.PCM16Sample(nil), in[off:off+n]...)
		err := enc.WriteSample(s)
		if p.Fail != errors.Is(err, errSink) || (!p.Fail && err != nil) {
			return bad("encoder: WriteSample=%v", err)
		}
		off += n
		if len(bd.frames) != i+1 || bd.frames[i] != n/div {
			return bad("write %d of %d samples at %d Hz gave frames %v", i, n, p.Rate, bd.frames)
		}
		for j := range s {
			s[j] = 4242
		}
	}
	if !eqSlice(bd.got, ref) {
		return bad("encoded stream: %s", diffAt(bd.got, ref))
	}
	_ = enc.Close()
	if bd.closed != 1 {
		return bad("encoder closed its destination %d times", bd.closed)
	}
	// Decoder.
	fl, div = 0, 2
	if p.DRate == 8000 {
		fl, div = g722.FlagSampleRate8000, 1
	}
	pcm := make([]int16, len(ref)*div+2)
	pcm = pcm[:g722.NewDecoder(g722.Rate64000, fl).Decode(pcm, append([]byte(nil), ref...))]
	want := &c09Dst{rate: p.DRate}
	ww := media.PCM16Writer(want)
	if p.DRate != 8000 {
		ww = media.ResampleWriter(want, 16000)
	}
	_ = ww.WriteSample(pcm)
	_ = ww.Close()
	pd := &c09Dst{rate: p.DRate}
	if p.Fail && p.DRate <= 16000 {
		pd.failAt = 1
	}
	dec := sdkg722.Decode(pd)
	errs := 0
	rest := ref
	for i := 0; len(rest) > 0; i++ {
		n := min(p.DLens[i%len(p.DLens)], len(rest))
		before := len(pd.got)
		b := append(sdkg722.Sample(nil), rest[:n]...)
		if err := dec.WriteSample(b); err != nil {
			if !errors.Is(err, errSink) {
				return bad("decoder: %v", err)
			}
			errs++
		}
		if !eqSlice(b, rest[:n]) {
			return bad("decoder modified its input")
		}
		rest = rest[n:]
		if (p.DRate == 8000 || p.DRate == 16000) && len(pd.got)-before != n*div {
			return bad("decoder: %d bytes gave %d samples at %d Hz", n, len(pd.got)-before, p.DRate)
		}
	}
	if pd.failed != (errs == 1) || errs > 1 {
		return bad("decoder: destination failed=%v, %d errors", pd.failed, errs)
	}
	_ = dec.Close()
	if pd.closed != 1 {
		return bad("decoder closed its destination %d times", pd.closed)
	}
	if !eqDither(pd.got, want.got, p.DRate == 8000 || p.DRate == 16000) {
		return bad("decoded stream at %d Hz: %s", p.DRate, diffAt(pd.got, want.got))
	}
	if p.DRate != 8000 && p.DRate != 16000 {
		if protect(func() { sdkg722.Encode(c11BW[sdkg722.Sample]{&c11Bytes{rate: p.DRate}}) }) == nil {
			return bad("encoder accepts %d Hz", p.DRate)
		}
	}
	if err := c11Copy(sdkg722.Sample(bd.got), len(bd.got)); err != nil {
		return bad("sample: %v", err)
	}
	o := Out{NT: len(p.Lens) >= 2 && total >= 100}
	if blank > 0 {
		o = o.cls("silence-or-extremes")
	}
	return o
}

type c12FPlan struct {
	Rate  int       `json:"rate"`
	Tones []c10Tone `json:"tones"`
	Frame int       `json:"frame"`
}

const (
	c12Delay16 = 22
	c12Delay8  = 0
)

// Fidelity: a voice-band signal comes out at level one after a fixed delay.
func c12Fidelity(p c12FPlan) Out {
	n := p.Rate // one second
	sig := func(i float64) float64 {
		v := 0.0
		for _, c := range p.Tones {
			v += c.A * math.Sin(2*math.Pi*(200+c.F*2800)*i/float64(p.Rate)+c.Phi)
		}
		return v
	}
	out := &c09Dst{rate: p.Rate}
	dec := sdkg722.Decode(out)
	enc := sdkg722.Encode(c12Link{dec, p.Rate})
	s := make(media.PCM16Sample, 0, p.Frame)
	for i := 0; i < n; i++ {
		s = append(s, int16(math.Round(sig(float64(i)))))
		if len(s) == p.Frame || i == n-1 {
			if err := enc.WriteSample(s); err != nil {
				return bad("%v", err)
			}
			s = s[:0]
		}
	}
	delay := c12Delay16
	if p.Rate == 8000 {
		delay = c12Delay8
	}
	var se, ss float64
	for k := n / 10; k < n; k++ {
		w := sig(float64(k - delay))
		e := float64(out.got[k]) - w
		se += e * e
		ss += w * w
	}
	if len(out.got) != n {
		return bad("%d of %d samples", len(out.got), n)
	}
	snr := 10 * math.Log10(ss/(se+1))
	if snr < c12MinSNR {
		return bad("signal-to-noise ratio is %.1f dB at %d Hz", snr, p.Rate)
	}
	return Out{NT: true}
}

const c12MinSNR = 26.0

type c12Link struct {
	media.WriteCloser[sdkg722.Sample]
	rate int
}

func (l c12Link) SampleRate() int { return l.rate }

func init() {
	even := rapid.Map(rapid.OneOf(rapid.IntRange(0, 10), rapid.SampledFrom([]int{80, 160, 40}), rapid.IntRange(0, 400)), func(n int) int { return 2 * n })
	reg("C12", "framing", opts{sec: [2]float64{7, 90}, rule: "at least two writes and 100 samples"},
		func(t *rapid.T) c12Plan {
			return c12Plan{
				Rate:  rapid.SampledFrom([]int{8000, 16000, 16000}).Draw(t, "rate"),
				DRate: rapid.SampledFrom([]int{8000, 16000, 16000, 48000, 24000}).Draw(t, "drate"),
				Lens:  huge(t, laps(t, rapid.SliceOfN(even, 1, 14).Draw(t, "lens"), 300)),
				DLens: rapid.SliceOfN(rapid.IntRange(1, 300), 1, 5).Draw(t, "dlens"),
				Sig:   rapid.IntRange(0, 11).Draw(t, "sig"),
				Fail:  rapid.IntRange(0, 5).Draw(t, "fail") == 0,
				Blank: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}), 0, 6).Draw(t, "blank"),
			}
		}, c12Run)
	tone := rapid.Custom(func(t *rapid.T) c10Tone {
		return c10Tone{
			F:   float64(rapid.IntRange(0, 1000).Draw(t, "f")) / 1000,
			A:   float64(rapid.SampledFrom([]int{1000, 3000, 8000}).Draw(t, "a")),
			Phi: float64(rapid.IntRange(0, 62).Draw(t, "phi")) / 10,
		}
	})
	reg("C12", "fidelity", opts{sec: [2]float64{5, 60}, rule: "every case"},
		func(t *rapid.T) c12FPlan {
			return c12FPlan{
				Rate:  rapid.SampledFrom([]int{8000, 16000}).Draw(t, "rate"),
				Tones: rapid.SliceOfN(tone, 1, 3).Draw(t, "tones"),
				Frame: rapid.SampledFrom([]int{2, 160, 320, 500, 16000}).Draw(t, "frame"),
			}
		}, c12Fidelity)
}
