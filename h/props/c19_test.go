package props

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/livekit/media-sdk/rtp"
	"pgregory.net/rapid"
)

// C19: sequence writer and its streams.

type c19Op struct {
	Op  string `json:"o"` // write, same, delay, delayn, reset, get, new
	S   int    `json:"s"`
	V   uint32 `json:"v,omitempty"`
	N   int    `json:"n,omitempty"`
	M   bool   `json:"m,omitempty"`
	Rep int    `json:"r,omitempty"`
}

type c19Stream struct {
	Type byte   `json:"t"`
	Rate int    `json:"rate"` // 0: explicit duration
	Dur  uint32 `json:"dur"`
}

type c19Plan struct {
	Streams []c19Stream `json:"streams"`
	Ops     []c19Op     `json:"ops"`
	Fail    []int       `json:"fail"` // indexes of failing writes
	Skip    int         `json:"skip"` // packets written first, to get near wrap-around
}

type c19Sink struct {
	mu    sync.Mutex
	calls int
	fail  map[int]bool
	pkts  []c15Pkt
	busy  atomic.Int32
	over  bool
}

func (e *c19Sink) String() string { return "c19" }
func (e *c19Sink) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
	if e.busy.Add(1) != 1 {
		e.over = true
	}
	defer e.busy.Add(-1)
	e.mu.Lock()
	defer e.mu.Unlock()
	e.calls++
	if e.fail[e.calls-1] {
		return 0, errSink
	}
	e.pkts = append(e.pkts, c15Pkt{0, h.Clone(), append([]byte(nil), payload...)})
	return len(payload), nil
}

func c19Run(p c19Plan) Out {
	sink := &c19Sink{fail: map[int]bool{}}
	sw := rtp.NewSeqWriter(sink)
	for range p.Skip {
		if err := sw.WriteEvent(&rtp.Event{Type: 9, Payload: []byte{9}}); err != nil {
			return bad("WriteEvent: %v", err)
		}
	}
	for _, f := range p.Fail {
		sink.fail[p.Skip+f] = true
	}
	if p.Skip == 0 {
		if len(sink.pkts) != 0 {
			return bad("packets without a write")
		}
	}
	type model struct {
		st     *rtp.Stream
		typ    byte
		dur    uint32
		ts     uint64
		follow bool
	}
	var ms []*model
	add := func(c c19Stream) {
		m := &model{typ: c.Type, dur: c.Dur}
		if c.Rate > 0 {
			m.dur = uint32(c.Rate / 50)
			m.st = sw.NewStream(c.Type, c.Rate)
		} else {
			m.st = sw.NewStreamWithDur(c.Type, c.Dur)
		}
		ms = append(ms, m)
	}
	for _, c := range p.Streams {
		add(c)
	}
	var maxTS uint64
	cur := func(ts uint64, inc uint32) uint64 {
		if maxTS > ts+25*uint64(inc) {
			return maxTS
		}
		maxTS = max(maxTS, ts)
		return ts
	}
	seq := uint16(0)
	base := 0
	if p.Skip > 0 {
		seq = sink.pkts[0].h.SequenceNumber
		for i, k := range sink.pkts {
			if k.h.SequenceNumber != seq+uint16(i) {
				return bad("packet %d has sequence number %d, the first had %d", i, k.h.SequenceNumber, seq)
			}
		}
		seq += uint16(p.Skip)
		base = p.Skip
	}
	written, jumps, fails := 0, 0, 0
	for oi, o := range p.Ops {
		m := ms[o.S%len(ms)]
		switch o.Op {
		case "write", "same":
			for r := range o.Rep + 1 {
				data := make([]byte, o.N)
				for i := range data {
					data[i] = byte(oi*7 + i + r)
				}
				want := append([]byte(nil), data...)
				was := m.ts
				if !m.follow {
					m.ts = cur(m.ts, m.dur)
				}
				if m.ts != was {
					jumps++
				}
				var err error
				n := len(sink.pkts)
				willFail := sink.fail[sink.calls]
				if o.Op == "write" {
					err = m.st.WritePayload(data, o.M)
				} else {
					err = m.st.WritePayloadAtCurrent(data, o.M)
				}
				if willFail {
					fails++
					if !errors.Is(err, errSink) || len(sink.pkts) != n {
						return bad("op %d: failed write returned %v", oi, err)
					}
					continue
				}
				if err != nil || len(sink.pkts) != n+1 {
					return bad("op %d: write returned %v, %d packets", oi, err, len(sink.pkts)-n)
				}
				k := sink.pkts[n]
				if n == base && base == 0 {
					seq = k.h.SequenceNumber // where it starts is not specified
				}
				if k.h.SequenceNumber != seq {
					return bad("op %d: sequence number %d, want %d", oi, k.h.SequenceNumber, seq)
				}
				seq++
				if k.h.SSRC != sink.pkts[0].h.SSRC || k.h.Version != 2 {
					return bad("op %d: SSRC %d vs %d, version %d", oi, k.h.SSRC, sink.pkts[0].h.SSRC, k.h.Version)
				}
				if k.h.PayloadType != m.typ || k.h.Marker != o.M || !eqSlice(k.p, want) || k.h.Padding || k.h.Extension || len(k.h.CSRC) != 0 {
					return bad("op %d: packet %+v, payload %s", oi, k.h, diffAt(k.p, want))
				}
				if k.h.Timestamp != uint32(m.ts) {
					return bad("op %d: stream %d: timestamp %d, want %d", oi, o.S%len(ms), k.h.Timestamp, uint32(m.ts))
				}
				written++
				if o.Op == "write" {
					m.follow = false
					m.ts += uint64(m.dur)
				} else {
					m.follow = true
				}
			}
		case "delay", "delayn":
			d := uint64(o.V)
			if o.Op == "delayn" {
				d = uint64(o.N) * uint64(m.dur)
				m.st.DelayN(o.N)
			} else {
				m.st.Delay(o.V)
			}
			m.ts = cur(m.ts+d, m.dur)
			m.follow = false
		case "reset":
			m.st.ResetTimestamp(o.V)
			m.ts = uint64(o.V)
			m.follow = false
		case "negdelay":
			if protect(func() { m.st.DelayN(-1 - o.N) }) == nil {
				return bad("op %d: DelayN(%d) did not panic", oi, -1-o.N)
			}
		case "new":
			if len(ms) < 8 {
				add(p.Streams[o.S%len(p.Streams)])
			}
		}
		if m.ts >= 1<<32-1<<20 {
			break // see the phase wrap
		}
		if g := m.st.GetCurrentTimestamp(); g != uint32(m.ts) {
			return bad("op %d (%s): current timestamp %d, want %d", oi, o.Op, g, uint32(m.ts))
		}
	}
	o := Out{NT: written >= 3 && len(ms) >= 2}
	if jumps > 0 {
		o = o.cls("jump")
	}
	if fails > 0 {
		o = o.cls("failed-write")
	}
	if p.Skip > 60000 {
		o = o.cls("seq-wrap")
	}
	return o
}

type c19Wrap struct {
	Dur    uint32 `json:"dur"`
	Before uint32 `json:"before"` // packets until the timestamp wraps around
	Delay  bool   `json:"delay"`  // wrap in a delay
}

// c19WrapRun lets the timestamps of a stream go past 2^32. They stop there at present, which is a known finding;
// anything but that and the correct timestamps is a violation.
func c19WrapRun(p c19Wrap) Out {
	sink := &c19Sink{}
	st := rtp.NewSeqWriter(sink).NewStreamWithDur(1, p.Dur)
	var newest uint32
	stuck := func(ts uint32) uint32 {
		if newest > ts+25*p.Dur {
			return newest
		}
		newest = max(newest, ts)
		return ts
	}
	good := -p.Before * p.Dur
	known := good
	st.ResetTimestamp(good)
	isKnown := false
	for i := range p.Before + 50 {
		if p.Delay && i == p.Before/2 {
			st.Delay((p.Before + 3) * p.Dur)
			good += (p.Before + 3) * p.Dur
			known = stuck(known + (p.Before+3)*p.Dur)
		}
		if err := st.WritePayload([]byte{1}, false); err != nil {
			return bad("WritePayload: %v", err)
		}
		known = stuck(known)
		switch got := sink.pkts[i].h.Timestamp; {
		case got == good && !isKnown:
		case got == known && known != good:
			isKnown = true
		default:
			return bad("packet %d has timestamp %d, want %d", i, got, good)
		}
		good += p.Dur
		known += p.Dur
	}
	if isKnown {
		return Out{}.cls("known-finding")
	}
	return Out{NT: true}
}

type c19sPlan struct {
	W    []int `json:"w"` // writes per stream
	Fail int   `json:"fail"`
}

func c19Stress(p c19sPlan) Out {
	sink := &c19Sink{fail: map[int]bool{}}
	if p.Fail > 0 {
		for i := p.Fail; i < 100000; i += p.Fail + 1 {
			sink.fail[i] = true
		}
	}
	sw := rtp.NewSeqWriter(sink)
	var wg sync.WaitGroup
	var okN atomic.Int64
	for i, n := range p.W {
		st := sw.NewStreamWithDur(byte(i), uint32(160+i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				if st.WritePayload([]byte{byte(i), byte(k), byte(k >> 8)}, k%3 == 0) == nil {
					okN.Add(1)
				}
				if k%7 == 0 {
					_ = st.GetCurrentTimestamp()
				}
			}
		}()
	}
	wg.Wait()
	if sink.over {
		return bad("overlapping writes to the underlying writer")
	}
	if int(okN.Load()) != len(sink.pkts) {
		return bad("%d successful writes, %d packets", okN.Load(), len(sink.pkts))
	}
	last := map[byte]int{}
	lastTS := map[byte]uint32{}
	var order []string
	for i, k := range sink.pkts {
		if i > 0 && k.h.SequenceNumber != sink.pkts[i-1].h.SequenceNumber+1 {
			return bad("packet %d: sequence number %d after %d", i, k.h.SequenceNumber, sink.pkts[i-1].h.SequenceNumber)
		}
		if k.h.SSRC != sink.pkts[0].h.SSRC {
			return bad("SSRC changed")
		}
		s := k.p[0]
		n := int(k.p[1]) | int(k.p[2])<<8
		if k.h.PayloadType != s || k.h.Marker != (n%3 == 0) {
			return bad("packet %d of stream %d has type %d, marker %v", n, s, k.h.PayloadType, k.h.Marker)
		}
		if l, ok := last[s]; ok {
			if n <= l {
				return bad("stream %d: payload %d after %d", s, n, l)
			}
			if k.h.Timestamp < lastTS[s]+160+uint32(s) {
				return bad("stream %d: timestamp %d after %d", s, k.h.Timestamp, lastTS[s])
			}
		}
		last[s], lastTS[s] = n, k.h.Timestamp
		order = append(order, fmt.Sprint(s))
	}
	inter := 0
	for i := 1; i < len(order); i++ {
		if order[i] != order[i-1] {
			inter++
		}
	}
	sort.Strings(order)
	return Out{NT: inter > len(p.W)}
}

func init() {
	stream := rapid.Custom(func(t *rapid.T) c19Stream {
		s := c19Stream{Type: byte(rapid.IntRange(0, 127).Draw(t, "t"))}
		if rapid.Bool().Draw(t, "r?") {
			s.Rate = rapid.SampledFrom([]int{8000, 48000, 16000, 44100}).Draw(t, "rate")
		} else {
			s.Dur = rapid.SampledFrom([]uint32{160, 960, 1, 3000, 80}).Draw(t, "dur")
		}
		return s
	})
	op := rapid.Custom(func(t *rapid.T) c19Op {
		o := c19Op{Op: rapid.SampledFrom([]string{"write", "write", "write", "write", "same", "same", "delay", "delayn", "reset", "new", "negdelay"}).Draw(t, "op"), S: rapid.OneOf(rapid.IntRange(0, 7), rapid.IntRange(0, 7), rapid.IntRange(0, 63)).Draw(t, "s")}
		switch o.Op {
		case "write", "same":
			o.N = rapid.IntRange(0, 20).Draw(t, "n")
			o.M = rapid.Bool().Draw(t, "m")
			o.Rep = rapid.SampledFrom([]int{0, 0, 0, 3, 30}).Draw(t, "rep")
		case "delay":
			o.V = rapid.OneOf(rapid.Uint32Range(0, 5000), rapid.Uint32Range(0, 1<<24), rapid.SampledFrom([]uint32{4000, 4001, 3999, 24000, 24001, 25, 26})).Draw(t, "v")
		case "delayn":
			o.N = rapid.OneOf(rapid.IntRange(0, 60), rapid.SampledFrom([]int{25, 26, 24})).Draw(t, "n")
		case "reset":
			o.V = rapid.OneOf(rapid.Uint32Range(0, 5000), rapid.Uint32Range(0, 1<<30)).Draw(t, "v")
		}
		return o
	})
	reg("C19", "history", opts{sec: [2]float64{8, 120}, rule: "at least three packets and two streams"},
		func(t *rapid.T) c19Plan {
			p := c19Plan{
				Streams: laps(t, rapid.SliceOfN(stream, 1, 4).Draw(t, "streams"), 60),
				Ops:     laps(t, rapid.SliceOfN(op, 1, 40).Draw(t, "ops"), 1500),
			}
			if rapid.IntRange(0, 2).Draw(t, "f?") == 0 {
				p.Fail = rapid.SliceOfN(rapid.IntRange(0, 60), 1, 8).Draw(t, "fail")
			}
			if rapid.IntRange(0, 40).Draw(t, "wrap") == 0 {
				p.Skip = rapid.IntRange(65500, 65540).Draw(t, "skip")
			}
			return p
		}, c19Run)
	regList("C19", "wrap", opts{rule: "the timestamps continue after the wrap"},
		func(_ int, _ int64, yield func(c19Wrap) bool) {
			for _, d := range []uint32{160, 320, 960} {
				for _, n := range []uint32{1, 3, 24, 25, 26, 27, 60} {
					for _, del := range []bool{false, true} {
						if !yield(c19Wrap{d, n, del}) {
							return
						}
					}
				}
			}
		}, c19WrapRun)
	reg("C19", "concurrent", opts{build: "both", racy: true, reps: 30, sec: [2]float64{3, 40}, rule: "the streams' packets interleaved"},
		func(t *rapid.T) c19sPlan {
			return c19sPlan{
				W:    rapid.SliceOfN(rapid.IntRange(1, 400), 2, 6).Draw(t, "w"),
				Fail: rapid.SampledFrom([]int{0, 0, 3, 50}).Draw(t, "fail"),
			}
		}, c19Stress)
}
