package props

import (
	"bytes"
	"errors"
	"fmt"

	media "github.com/livekit/media-sdk"
	"pgregory.net/rapid"
)

// C06: MultiWriter fan-out.

type c06Plan struct {
	N      int     `json:"n"`
	Writes int     `json:"writes"`
	Fail   [][]int `json:"fail"` // Fail[w]: destinations failing on write w
	CloseF []int   `json:"closef"`
	Rates  []int   `json:"rates"`
}

func init() {
	reg("C06", "fanout", opts{sec: [2]float64{5, 60}, rule: "at least two destinations and one failure"},
		func(t *rapid.T) c06Plan {
			var p c06Plan
			p.N = crowd(t, 0, rapid.SampledFrom([]int{5, 5, 20}).Draw(t, "most"), 300, "n")
			p.Writes = rapid.IntRange(0, 8).Draw(t, "writes")
			idx := rapid.SliceOfNDistinct(rapid.IntRange(0, max(0, p.N-1)), 0, p.N, rapid.ID[int])
			for i := 0; i < p.Writes; i++ {
				if p.N > 0 && rapid.Bool().Draw(t, "f") {
					p.Fail = append(p.Fail, idx.Draw(t, "fail"))
				} else {
					p.Fail = append(p.Fail, nil)
				}
			}
			if p.N > 0 {
				p.CloseF = idx.Draw(t, "closef")
			}
			for i := 0; i < p.N; i++ {
				p.Rates = append(p.Rates, rapid.SampledFrom([]int{8000, 16000, 48000}).Draw(t, "rate"))
			}
			return p
		}, c06Run)
}

func c06Run(p c06Plan) Out {
	var order []int // global order of destination calls
	recs := make([]*recWriter[media.PCM16Sample], p.N)
	var m media.MultiWriter[media.PCM16Sample]
	errs := make([]error, p.N)
	faults := 0
	for i := range recs {
		errs[i] = fmt.Errorf("dst %d", i)
		recs[i] = &recWriter[media.PCM16Sample]{rate: p.Rates[i], fail: map[int]error{}, enc: func(s media.PCM16Sample) []byte {
			order = append(order, i)
			b := make([]byte, s.Size())
			_, _ = s.CopyTo(b)
			return b
		}}
		m = append(m, recs[i])
	}
	has := func(l []int, x int) bool {
		for _, v := range l {
			if v == x {
				return true
			}
		}
		return false
	}
	wantRate := 0
	if p.N > 0 {
		wantRate = p.Rates[0]
	}
	if m.SampleRate() != wantRate {
		return bad("SampleRate=%d want %d", m.SampleRate(), wantRate)
	}
	for w := 0; w < p.Writes; w++ {
		var want error
		for i := range recs {
			if has(p.Fail[w], i) {
				recs[i].fail[w] = errs[i]
				want = errs[i]
				faults++
			}
		}
		order = nil
		s := c04PCM(w, 5+w)
		err := m.WriteSample(s)
		if err != want && !(want != nil && errors.Is(err, want)) {
			return bad("write %d: error %v, want %v", w, err, want)
		}
		if (err != nil) != (want != nil) {
			return bad("write %d: error %v, want %v", w, err, want)
		}
		if len(order) != p.N {
			return bad("write %d reached %v of %d destinations", w, order, p.N)
		}
		for i, r := range recs {
			if order[i] != i {
				return bad("write %d: order %v", w, order)
			}
			if r.calls != w+1 || !bytes.Equal(r.got[w], c04Bytes(w, 2*(5+w))) {
				return bad("write %d: destination %d received %d writes or wrong data", w, i, r.calls)
			}
		}
	}
	var want error
	for i, r := range recs {
		if has(p.CloseF, i) {
			r.cerr = errs[i]
			want = errs[i]
			faults++
		}
	}
	err := m.Close()
	if (err != nil) != (want != nil) || (want != nil && !errors.Is(err, want)) {
		return bad("Close: %v want %v", err, want)
	}
	for i, r := range recs {
		if r.closed != 1 || r.calls != p.Writes {
			return bad("destination %d closed %d times, %d writes", i, r.closed, r.calls)
		}
	}
	return Out{NT: p.N >= 2 && faults > 0}
}
