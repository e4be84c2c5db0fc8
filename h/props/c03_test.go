package props

import (
	"io"
	"slices"

	media "github.com/livekit/media-sdk"
	"pgregory.net/rapid"
)

// C03: PCM16 serialisation and channel conversion.

type c03Plan struct {
	Op    string  `json:"op"`
	Src   []int16 `json:"src"`
	Rep   int     `json:"rep,omitempty"` // the source is repeated so many times more
	Extra int     `json:"extra"`         // destination size relative to what is needed
	Alias bool    `json:"alias,omitempty"`
}

func init() {
	reg("C03", "random", opts{sec: [2]float64{5, 60}, rule: "non-empty source"},
		func(t *rapid.T) c03Plan {
			return c03Plan{
				Op:    rapid.SampledFrom([]string{"copyto", "m2s", "s2m", "s2m", "clear", "append"}).Draw(t, "op"),
				Src:   laps(t, rapid.SliceOfN(genI16(), 0, 80).Draw(t, "src"), 80000),
				Rep:   rapid.SampledFrom([]int{0, 0, 0, 1, 7, 40}).Draw(t, "rep"),
				Extra: rapid.OneOf(rapid.IntRange(-3, 5), rapid.Just(0)).Draw(t, "extra"),
				Alias: rapid.Bool().Draw(t, "alias"),
			}
		}, c03Run)
	regList("C03", "pairs", opts{rule: "every pair of boundary samples", exh: true},
		func(tier int, seed int64, yield func(c03Plan) bool) {
			vals := []int16{-32768, -32767, -32766, -16385, -16384, -16383, -257, -256, -255, -3, -2, -1, 0, 1, 2, 3, 127, 128, 255, 256, 257, 16383, 16384, 16385, 32765, 32766, 32767}
			for _, a := range vals {
				for _, b := range vals {
					for _, al := range []bool{false, true} {
						if !yield(c03Plan{Op: "s2m", Src: []int16{a, b}, Alias: al}) {
							return
						}
					}
				}
				for _, op := range []string{"copyto", "m2s"} {
					if !yield(c03Plan{Op: op, Src: []int16{a, 1}}) {
						return
					}
				}
			}
		}, c03Run)
}

func c03Run(p c03Plan) Out {
	p.Src = slices.Repeat(p.Src, p.Rep+1)
	src := media.PCM16Sample(append([]int16(nil), p.Src...))
	const fill = int16(0x5A5A)
	o := Out{NT: len(p.Src) > 0}.cls(p.Op)
	switch p.Op {
	case "copyto":
		need := 2 * len(src)
		if src.Size() != need {
			return bad("Size=%d want %d", src.Size(), need)
		}
		dst := make([]byte, max(0, need+p.Extra))
		for i := range dst {
			dst[i] = 0xEE
		}
		n, err := src.CopyTo(dst)
		if len(dst) < need {
			if err != io.ErrShortBuffer || n != 0 {
				return bad("short destination (%d < %d): got (%d,%v)", len(dst), need, n, err)
			}
			return o.cls("short")
		}
		if n != need || err != nil {
			return bad("CopyTo=(%d,%v) want (%d,nil)", n, err, need)
		}
		for i, v := range p.Src {
			if int(dst[2*i])|int(dst[2*i+1])<<8 != int(v)&0xffff {
				return bad("sample %d (%d) serialised as %02x %02x", i, v, dst[2*i], dst[2*i+1])
			}
		}
		for _, b := range dst[need:] {
			if b != 0xEE {
				return bad("CopyTo wrote beyond the sample")
			}
		}
	case "m2s":
		need := 2 * len(src)
		dst := make(media.PCM16Sample, max(0, need+p.Extra))
		for i := range dst {
			dst[i] = fill
		}
		pn := protect(func() { media.MonoToStereo(dst, src) })
		if len(dst) < need {
			if pn == nil {
				return bad("MonoToStereo accepted a destination of %d for %d", len(dst), need)
			}
			return o.cls("short")
		}
		if pn != nil {
			return bad("MonoToStereo panicked: %v", pn)
		}
		for i, v := range p.Src {
			if dst[2*i] != v || dst[2*i+1] != v {
				return bad("MonoToStereo sample %d: %d -> %d %d", i, v, dst[2*i], dst[2*i+1])
			}
		}
		for _, v := range dst[need:] {
			if v != fill {
				return bad("MonoToStereo wrote beyond the end")
			}
		}
		if !eqSlice(src, p.Src) {
			return bad("MonoToStereo changed its source")
		}
	case "s2m":
		need := len(src) / 2
		var dst media.PCM16Sample
		if p.Alias {
			dst = src
		} else {
			dst = make(media.PCM16Sample, max(0, need+p.Extra))
			for i := range dst {
				dst[i] = fill
			}
		}
		pn := protect(func() { media.StereoToMono(dst, src) })
		if len(dst) < need {
			if pn == nil {
				return bad("StereoToMono accepted a destination of %d for %d", len(dst), need)
			}
			return o.cls("short")
		}
		if pn != nil {
			return bad("StereoToMono panicked: %v", pn)
		}
		for i := 0; i < need; i++ {
			want := int16((int64(p.Src[2*i]) + int64(p.Src[2*i+1])) / 2)
			if dst[i] != want {
				return bad("StereoToMono(%d,%d)=%d want %d", p.Src[2*i], p.Src[2*i+1], dst[i], want)
			}
		}
		if p.Alias {
			o = o.cls("alias")
			if !eqSlice(dst[need:], p.Src[need:]) {
				return bad("StereoToMono in place wrote beyond the result")
			}
		} else {
			for _, v := range dst[need:] {
				if v != fill {
					return bad("StereoToMono wrote beyond the end")
				}
			}
			if !eqSlice(src, p.Src) {
				return bad("StereoToMono changed its source")
			}
		}
	case "clear":
		back := append(append(media.PCM16Sample{}, src...), fill)
		back[:len(src)].Clear()
		for _, v := range back[:len(src)] {
			if v != 0 {
				return bad("Clear left %d", v)
			}
		}
		if back[len(src)] != fill {
			return bad("Clear wrote beyond the end")
		}
	case "append":
		var acc media.PCM16Sample
		var want []int16
		for i := 0; i < 3; i++ {
			in := append(media.PCM16Sample{}, src[:len(src)*(i+1)/3]...)
			want = append(want, in...)
			if err := acc.WriteSample(in); err != nil {
				return bad("WriteSample: %v", err)
			}
			for j := range in {
				in[j] = fill
			}
		}
		if err := acc.Close(); err != nil {
			return bad("Close: %v", err)
		}
		if !eqSlice(acc, want) {
			return bad("appended samples differ: %s", diffAt(acc, want))
		}
	}
	return o
}
