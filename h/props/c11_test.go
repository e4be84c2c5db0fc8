package props

import (
	"errors"
	"io"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"pgregory.net/rapid"
)

// C11: G.711.

// Reference decoders, from the tables of ITU-T G.711, 16-bit scale.
func refALaw(b byte) int {
	b ^= 0x55
	seg, q := int(b>>4)&7, int(b)&15
	v := 0
	if seg == 0 {
		v = 2*q + 1 // interval mid points, step 2 of 4096
	} else {
		v = (2*q + 33) << (seg - 1)
	}
	v *= 8
	if b&0x80 == 0 {
		v = -v
	}
	return v
}

func refULaw(b byte) int {
	b = ^b
	seg, q := int(b>>4)&7, int(b)&15
	v := ((2*q+33)<<seg - 33) * 4
	if b&0x80 != 0 {
		v = -v
	}
	return v
}

type c11Law struct {
	name string
	dec  func(byte) int
	enc  func(out []byte, in []int16)
	decT func(out []int16, in []byte)
	m    func(in media.PCM16Sample) []byte // sample method
	md   func(in []byte) media.PCM16Sample
}

var c11Laws = []c11Law{
	{name: "alaw", dec: refALaw, enc: g711.EncodeALawTo, decT: g711.DecodeALawTo,
		m:  func(in media.PCM16Sample) []byte { var s g711.ALawSample; s.Encode(in); return s },
		md: func(in []byte) media.PCM16Sample { return g711.ALawSample(in).Decode() }},
	{name: "ulaw", dec: refULaw, enc: g711.EncodeULawTo, decT: g711.DecodeULawTo,
		m:  func(in media.PCM16Sample) []byte { var s g711.ULawSample; s.Encode(in); return s },
		md: func(in []byte) media.PCM16Sample { return g711.ULawSample(in).Decode() }},
}

type c11Bytes struct {
	rate   int
	got    []byte
	frames []int
	err    error
	closed int
}

type c11BW[S ~[]byte] struct{ *c11Bytes }

func (d c11BW[S]) String() string  { return "bytes" }
func (d c11BW[S]) SampleRate() int { return d.rate }
func (d c11BW[S]) Close() error    { d.closed++; return nil }
func (d c11BW[S]) WriteSample(s S) error {
	d.got = append(d.got, s...)
	d.frames = append(d.frames, len(s))
	return d.err
}

func c11Encoder(law int, d *c11Bytes) media.PCM16Writer {
	if law == 0 {
		return g711.EncodeALaw(c11BW[g711.ALawSample]{d})
	}
	return g711.EncodeULaw(c11BW[g711.ULawSample]{d})
}

type c11Dec struct {
	write func([]byte) error
	close func() error
	rate  int
}

func c11Decoder(law int, w media.PCM16Writer) c11Dec {
	if law == 0 {
		d := g711.DecodeALaw(w)
		return c11Dec{func(b []byte) error { return d.WriteSample(b) }, d.Close, d.SampleRate()}
	}
	d := g711.DecodeULaw(w)
	return c11Dec{func(b []byte) error { return d.WriteSample(b) }, d.Close, d.SampleRate()}
}

type c11Plan struct {
	Law int `json:"law"`
	Hi  int `json:"hi"` // which 256-sample block
}

func c11Values(p c11Plan) Out {
	l := c11Laws[p.Law]
	if p.Hi == 0 {
		for c := 0; c < 256; c++ {
			var out [1]int16
			l.decT(out[:], []byte{byte(c)})
			if int(out[0]) != l.dec(byte(c)) {
				return bad("%s: code %#x decodes to %d, the standard says %d", l.name, c, out[0], l.dec(byte(c)))
			}
		}
	}
	encode := func(x int) byte {
		var b [1]byte
		l.enc(b[:], []int16{int16(x)})
		return b[0]
	}
	for x := p.Hi*256 - 32768; x < p.Hi*256-32768+256; x++ {
		c := encode(x)
		v := l.dec(c)
		best := 1 << 30
		for k := 0; k < 256; k++ {
			best = min(best, absI(l.dec(byte(k))-x))
		}
		// The encoder drops the two lowest bits.
		if absI(v-x) > best+8 {
			return bad("%s: %d is encoded as %#x = %d, off by %d, the nearest code is off by %d", l.name, x, c, v, absI(v-x), best)
		}
		// Values within the 14-bit step next to zero have no sign to keep.
		if (x >= 4 && v < 0) || (x <= -4 && v > 0) {
			return bad("%s: %d is encoded as %#x = %d", l.name, x, c, v)
		}
		if r := l.dec(encode(v)); r != v {
			return bad("%s: %d is encoded as %d, which is re-encoded as %d", l.name, x, v, r)
		}
		if x > -32768 {
			if pv := l.dec(encode(x - 1)); pv > v {
				return bad("%s: not monotonic: %d->%d, %d->%d", l.name, x-1, pv, x, v)
			}
		}
	}
	return Out{NT: true}
}

func absI(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

type c11SPlan struct {
	Law  int   `json:"law"`
	Lens []int `json:"lens"`
	Rate int   `json:"rate"`
	Fail bool  `json:"fail"`
	Seed int   `json:"seed"`
}

func c11Stream(p c11SPlan) Out {
	l := c11Laws[p.Law]
	bd := &c11Bytes{rate: 8000}
	if p.Fail {
		bd.err = errSink
	}
	enc := c11Encoder(p.Law, bd)
	if enc.SampleRate() != 8000 {
		return bad("encoder SampleRate=%d", enc.SampleRate())
	}
	pd := &c09Dst{rate: p.Rate}
	ref := &c09Dst{rate: p.Rate}
	dec := c11Decoder(p.Law, pd)
	refW := media.ResampleWriter(ref, 8000)
	var all []byte
	for i, n := range p.Lens {
		pcm := make(media.PCM16Sample, n)
		rng := uint32(p.Seed*7919 + i*31 + 1)
		for j := range pcm {
			rng = rng*1664525 + 1013904223
			pcm[j] = int16(rng >> 16)
		}
		orig := append(media.PCM16Sample(nil), pcm...)
		to := make([]byte, n)
		l.enc(to, pcm)
		if m := l.m(pcm); !eqSlice(m, to) {
			return bad("%s: sample method encodes differently: %s", l.name, diffAt(m, to))
		}
		err := enc.WriteSample(pcm)
		if p.Fail != errors.Is(err, errSink) || (!p.Fail && err != nil) {
			return bad("%s encoder: WriteSample=%v", l.name, err)
		}
		if !eqSlice(pcm, orig) {
			return bad("%s encoder modified its input", l.name)
		}
		if len(bd.frames) != i+1 || bd.frames[i] != n || !eqSlice(bd.got[len(all):], to) {
			return bad("%s encoder: write %d of %d samples gave %v, %s", l.name, i, n, bd.frames, diffAt(bd.got[len(all):], to))
		}
		all = append(all, to...)
		// decoding
		back := make(media.PCM16Sample, n)
		l.decT(back, to)
		for j, b := range to {
			if int(back[j]) != l.dec(b) {
				return bad("%s: buffer decoding of %#x: %d", l.name, b, back[j])
			}
		}
		if m := l.md(to); !eqSlice(m, back) {
			return bad("%s: sample method decodes differently: %s", l.name, diffAt(m, back))
		}
		_ = refW.WriteSample(append(media.PCM16Sample(nil), back...))
		in := append([]byte(nil), to...)
		if err := dec.write(in); err != nil {
			return bad("%s decoder: %v", l.name, err)
		}
		if !eqSlice(in, to) {
			return bad("%s decoder modified its input", l.name)
		}
		if p.Rate == 8000 && !eqSlice(pd.got, ref.got) {
			return bad("%s decoder: %s", l.name, diffAt(pd.got, ref.got))
		}
		// byte views
		if p.Law == 0 {
			err = c11Copy(g711.ALawSample(to), n)
		} else {
			err = c11Copy(g711.ULawSample(to), n)
		}
		if err != nil {
			return bad("%s sample: %v", l.name, err)
		}
	}
	if dec.close() != nil || refW.Close() != nil || enc.Close() != nil {
		return bad("close failed")
	}
	if pd.closed != 1 || bd.closed != 1 {
		return bad("closed %d/%d times", pd.closed, bd.closed)
	}
	if !eqDither(pd.got, ref.got, p.Rate == 8000) {
		return bad("%s decoder at %d Hz: %s", l.name, p.Rate, c09Diff(pd.got, ref.got))
	}
	if p.Rate != 8000 {
		if protect(func() { c11Encoder(p.Law, &c11Bytes{rate: p.Rate}) }) == nil {
			return bad("%s encoder accepts %d Hz", l.name, p.Rate)
		}
	}
	return Out{NT: len(p.Lens) >= 2 && len(all) > 0}
}

func c11Copy(s media.Frame, n int) error {
	if s.Size() != n {
		return errors.New("wrong Size")
	}
	buf := make([]byte, n+3)
	if k, err := s.CopyTo(buf); k != n || err != nil {
		return errors.New("CopyTo into a larger buffer failed")
	}
	if n > 0 {
		if k, err := s.CopyTo(buf[:n-1]); k != 0 || !errors.Is(err, io.ErrShortBuffer) {
			return errors.New("CopyTo into a short buffer did not fail properly")
		}
	}
	return nil
}

func init() {
	regList("C11", "all-values", opts{exh: true, rule: "every block of 256 samples; the 256 codes with the first block"},
		func(tier int, seed int64, yield func(c11Plan) bool) {
			for law := range c11Laws {
				for hi := 0; hi < 256; hi++ {
					if !yield(c11Plan{law, hi}) {
						return
					}
				}
			}
		}, c11Values)
	reg("C11", "streams", opts{sec: [2]float64{5, 60}, rule: "at least two writes with data"},
		func(t *rapid.T) c11SPlan {
			return c11SPlan{
				Law:  rapid.IntRange(0, 1).Draw(t, "law"),
				Lens: huge(t, laps(t, rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 10), rapid.SampledFrom([]int{160, 80, 320}), rapid.IntRange(0, 500)), 1, 12).Draw(t, "lens"), 600)),
				Rate: rapid.SampledFrom([]int{8000, 8000, 16000, 48000, 24000}).Draw(t, "rate"),
				Fail: rapid.IntRange(0, 4).Draw(t, "fail") == 0,
				Seed: rapid.IntRange(0, 1000).Draw(t, "seed"),
			}
		}, c11Stream)
}
