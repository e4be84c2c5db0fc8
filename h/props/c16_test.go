package props

import (
	"math"
	"math/big"
	"time"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/tones"
	"pgregory.net/rapid"
)

// C16: tone generation.

type c16Plan struct {
	Ts   int64   `json:"ts"`
	Dur  int64   `json:"dur"`
	Lens []int   `json:"lens"` // consecutive buffers, each of Dur
	Amp  int16   `json:"amp"`
	Freq []int64 `json:"freq"`
}

// sine of 2*pi*f*t for t = num/den seconds, exact phase reduction.
func refSine(f int64, num, den *big.Int) float64 {
	n := new(big.Int).Mul(num, big.NewInt(f))
	n.Mod(n, den)
	ph, _ := new(big.Rat).SetFrac(n, den).Float64()
	return math.Sin(2 * math.Pi * ph)
}

func c16Run(p c16Plan) Out {
	ts := time.Duration(p.Ts)
	dur := time.Duration(p.Dur)
	var freq []tones.Hz
	fmax := int64(0)
	for _, f := range p.Freq {
		freq = append(freq, tones.Hz(f))
		fmax = max(fmax, f)
	}
	// One unit of truncation, and the nanosecond resolution of time.Duration.
	tol := 1.05 + math.Abs(float64(p.Amp))*2*math.Pi*float64(fmax)*1.5e-9
	nsPerS := big.NewInt(1e9)
	samples := 0
	for k, n := range p.Lens {
		buf := make(media.PCM16Sample, n)
		for i := range buf {
			buf[i] = 31111
		}
		next := tones.Generate(buf, ts, dur, p.Amp, freq)
		if next != ts+dur {
			return bad("buffer %d: returned time %v want %v", k, next, ts+dur)
		}
		for i, v := range buf {
			samples++
			if len(freq) == 0 {
				if v != 0 {
					return bad("sample %d is %d without any frequency", i, v)
				}
				continue
			}
			// t = ts + dur*i/n
			num := new(big.Int).SetInt64(int64(ts))
			num.Mul(num, big.NewInt(int64(n)))
			num.Add(num, new(big.Int).Mul(big.NewInt(int64(dur)), big.NewInt(int64(i))))
			den := new(big.Int).Mul(nsPerS, big.NewInt(int64(n)))
			sum := 0.0
			for _, f := range p.Freq {
				sum += refSine(f, num, den)
			}
			want := float64(p.Amp) * sum / float64(len(freq))
			if d := math.Abs(float64(v) - want); d > tol {
				return bad("buffer %d sample %d of %d at %v: got %d want %.2f (tolerance %.2f)", k, i, n, ts, v, want, tol)
			}
			if math.Abs(float64(v)) > math.Abs(float64(p.Amp)) {
				return bad("sample %d exceeds the amplitude %d", v, p.Amp)
			}
		}
		ts = next
	}
	return Out{NT: samples > 20 && len(freq) > 0 && len(p.Lens) > 1}
}

func init() {
	reg("C16", "generate", opts{sec: [2]float64{6, 90}, rule: "several buffers with more than 20 samples and at least one frequency"},
		func(t *rapid.T) c16Plan {
			return c16Plan{
				Ts: rapid.OneOf(
					rapid.Just(int64(0)),
					rapid.Int64Range(0, int64(time.Second)),
					rapid.Map(rapid.Int64Range(0, 1<<20), func(n int64) int64 { return n * int64(20*time.Millisecond) }),
					rapid.Int64Range(0, int64(12*time.Hour)),
					// up to 146 years, less what the buffers last
					rapid.Int64Range(0, 1<<62),
				).Draw(t, "ts"),
				Dur: rapid.OneOf(
					rapid.Just(int64(20*time.Millisecond)),
					rapid.Int64Range(int64(time.Millisecond), int64(100*time.Millisecond)),
				).Draw(t, "dur"),
				Lens: huge(t, rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]int{160, 320, 960, 882}), rapid.IntRange(0, 200)), 1, 4).Draw(t, "lens")),
				Amp:  rapid.OneOf(rapid.SampledFrom([]int16{32767, 16383, 1, 0, -32767, 10000}), rapid.Int16Range(-32767, 32767)).Draw(t, "amp"),
				Freq: rapid.SliceOfN(rapid.OneOf(rapid.Int64Range(20, 4000), rapid.SampledFrom([]int64{425, 697, 1209, 1633, 3999})), 0, 5).Draw(t, "freq"),
			}
		}, c16Run)
}
