package props

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/livekit/media-sdk/rtp"
	prtp "github.com/pion/rtp"
	"pgregory.net/rapid"
)

// C20: RTP mux.

type c20Op struct {
	Op string `json:"o"` // pkt, reg, def
	T  int    `json:"t"`
	H  int    `json:"h"` // handler, -1 = nil
}

type c20Plan struct {
	Def int     `json:"def"`
	Ops []c20Op `json:"ops"`
	N   int     `json:"n"`
}

type muxHandler struct {
	id   int
	got  []c15Pkt
	hdrs []*rtp.Header
	err  error
}

func (m *muxHandler) String() string { return fmt.Sprint("h", m.id) }
func (m *muxHandler) HandleRTP(h *rtp.Header, payload []byte) error {
	m.got = append(m.got, c15Pkt{0, h.Clone(), append([]byte(nil), payload...)})
	m.hdrs = append(m.hdrs, h)
	return m.err
}

func genHeader(t *rapid.T) rtp.Header {
	h := rtp.Header{Version: 2,
		Marker:         rapid.Bool().Draw(t, "marker"),
		PayloadType:    byte(rapid.IntRange(0, 127).Draw(t, "pt")),
		SequenceNumber: rapid.Uint16().Draw(t, "seq"),
		Timestamp:      rapid.Uint32().Draw(t, "ts"),
		SSRC:           rapid.Uint32().Draw(t, "ssrc"),
	}
	h.CSRC = rapid.SliceOfN(rapid.Uint32(), 0, 3).Draw(t, "csrc")
	if rapid.Bool().Draw(t, "ext") {
		_ = h.SetExtension(byte(rapid.IntRange(1, 14).Draw(t, "eid")), rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "ev"))
	}
	return h
}

// eqHeader compares everything a header carries on the wire.
func eqHeader(a, b rtp.Header) bool {
	x, e1 := a.Marshal()
	y, e2 := b.Marshal()
	return e1 == nil && e2 == nil && eqSlice(x, y)
}

func c20Run(p c20Plan) Out {
	var hs []*muxHandler
	for i := range p.N {
		h := &muxHandler{id: i}
		if i%3 == 2 {
			h.err = fmt.Errorf("handler %d failed", i)
		}
		hs = append(hs, h)
	}
	get := func(i int) rtp.Handler {
		if i < 0 {
			return nil
		}
		return hs[i]
	}
	m := rtp.NewMux(get(p.Def))
	def := p.Def
	reg := map[byte]int{}
	used := map[int]bool{}
	var nilMux *rtp.Mux
	for oi, o := range p.Ops {
		switch o.Op {
		case "nested":
			// A handler that changes the mux while it handles a packet.
			typ := byte(o.T)
			var calls int
			self := rtp.HandlerFunc(func(h *rtp.Header, payload []byte) error {
				calls++
				_ = m.String()
				m.Register(typ, get(o.H))
				m.SetDefault(get(def))
				return m.HandleRTP(h, payload)
			})
			m.Register(typ, self)
			reg[typ] = o.H
			want := o.H
			if want < 0 {
				want = def
			}
			n := 0
			if want >= 0 {
				n = len(hs[want].got)
			}
			done := make(chan error, 1)
			go func() {
				done <- m.HandleRTP(&rtp.Header{Version: 2, PayloadType: typ, SequenceNumber: uint16(oi)}, []byte{1, byte(oi)})
			}()
			select {
			case err := <-done:
				var wantErr error
				if want >= 0 {
					wantErr = hs[want].err
					if len(hs[want].got) != n+1 || hs[want].got[n].h.SequenceNumber != uint16(oi) {
						return bad("op %d: packet handed on to handler %d was delivered %d times", oi, want, len(hs[want].got)-n)
					}
					used[want] = true
				}
				if err != wantErr || calls != 1 {
					return bad("op %d: nested handler was called %d times, %v, want %v", oi, calls, err, wantErr)
				}
			case <-time.After(20 * time.Second):
				return bad("op %d: a handler that registers another one never returns", oi)
			}
		case "reg":
			m.Register(byte(o.T), get(o.H))
			reg[byte(o.T)] = o.H
		case "def":
			m.SetDefault(get(o.H))
			def = o.H
		case "str":
			_ = m.String()
		case "pkt":
			h := rtp.Header{Version: 2, PayloadType: byte(o.T), SequenceNumber: uint16(oi), Timestamp: uint32(oi) * 77, SSRC: 5, Marker: oi%2 == 0, CSRC: []uint32{1, uint32(oi)}}
			pl := []byte{byte(oi), 2, 3}
			want := -1
			if r, ok := reg[byte(o.T)]; ok && r >= 0 {
				want = r
			} else {
				want = def
			}
			before := make([]int, len(hs))
			for i := range hs {
				before[i] = len(hs[i].got)
			}
			err := m.HandleRTP(&h, pl)
			var wantErr error
			for i := range hs {
				n := before[i]
				if i == want {
					n++
					wantErr = hs[i].err
					used[i] = true
				}
				if len(hs[i].got) != n {
					return bad("op %d: packet of type %d: handler %d was called %d times, want handler %d", oi, o.T, i, len(hs[i].got)-before[i], want)
				}
				if i == want {
					g := hs[i].got[n-1]
					if !eqHeader(g.h, h) || !eqSlice(g.p, pl) {
						return bad("op %d: packet changed: %+v %x", oi, g.h, g.p)
					}
				}
			}
			if !errors.Is(err, wantErr) || (wantErr == nil && err != nil) {
				return bad("op %d: HandleRTP=%v want %v", oi, err, wantErr)
			}
			if err := nilMux.HandleRTP(&h, pl); err != nil {
				return bad("nil mux: %v", err)
			}
		}
	}
	return Out{NT: len(used) >= 2}
}

type c20sPlan struct {
	Goroutines int   `json:"g"`
	Pkts       int   `json:"n"`
	Types      []int `json:"types"`
	Rounds     int   `json:"rounds"`
	NilToo     bool  `json:"nil"`
	Hand       bool  `json:"hand,omitempty"` // hand over between a type's handler and the default
}

type c20Stress struct {
	typ   int
	gen   int
	n     atomic.Int64
	wrong *atomic.Int64
	late  *atomic.Int64
	after atomic.Int64 // set when another registration for this type returned
	clock *atomic.Int64
}

func (s *c20Stress) String() string { return "stress" }
func (s *c20Stress) HandleRTP(h *rtp.Header, payload []byte) error {
	if s.typ >= 0 && int(h.PayloadType) != s.typ {
		s.wrong.Add(1)
	}
	// the packet carries the clock at its start
	st := int64(h.Timestamp)
	if a := s.after.Load(); a != 0 && st > a {
		s.late.Add(1)
	}
	s.n.Add(1)
	return nil
}

func c20StressRun(p c20sPlan) Out {
	var clock, wrong, late atomic.Int64
	mk := func(t int) *c20Stress { return &c20Stress{typ: t, wrong: &wrong, late: &late, clock: &clock} }
	def := mk(-1)
	m := rtp.NewMux(def)
	var all []*c20Stress
	all = append(all, def)
	dcur := def
	cur := map[int]*c20Stress{}
	for _, t := range p.Types {
		if cur[t] == nil {
			cur[t] = mk(t)
			all = append(all, cur[t])
			m.Register(byte(t), cur[t])
		}
	}
	var wg sync.WaitGroup
	sent := p.Goroutines * p.Pkts
	var running atomic.Int64
	running.Store(int64(p.Goroutines))
	for g := range p.Goroutines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer running.Add(-1)
			for i := range p.Pkts {
				t := p.Types[(i+g)%len(p.Types)]
				h := rtp.Header{Version: 2, PayloadType: byte(t), Timestamp: uint32(clock.Add(1))}
				_ = m.HandleRTP(&h, []byte{1})
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		if p.Hand {
			// There is a handler for the packets at every moment.
			t := p.Types[0]
			for range p.Rounds * 20 {
				if running.Load() == 0 {
					break
				}
				n := mk(t)
				all = append(all, n)
				m.Register(byte(t), n)
				if c := cur[t]; c != nil {
					c.after.Store(clock.Add(1))
				}
				m.SetDefault(nil)
				dcur.after.Store(clock.Add(1))
				dcur = mk(-1)
				all = append(all, dcur)
				m.SetDefault(dcur)
				m.Register(byte(t), nil)
				n.after.Store(clock.Add(1))
				cur[t] = nil
			}
			return
		}
		for r := range p.Rounds {
			t := p.Types[r%len(p.Types)]
			if p.NilToo && r%2 == 1 {
				m.Register(byte(t), nil)
				if c := cur[t]; c != nil {
					c.after.Store(clock.Add(1))
					cur[t] = nil
				}
				runtime.Gosched()
				continue
			}
			n := mk(t)
			all = append(all, n)
			m.Register(byte(t), n)
			if c := cur[t]; c != nil {
				c.after.Store(clock.Add(1))
			}
			cur[t] = n
			runtime.Gosched()
		}
	}()
	wg.Wait()
	var total int64
	busy := 0
	for _, h := range all {
		n := h.n.Load()
		total += n
		if n > 0 && h != def {
			busy++
		}
	}
	if wrong.Load() != 0 {
		return bad("%d packets reached a handler of another type", wrong.Load())
	}
	if late.Load() != 0 {
		return bad("%d packets reached a handler that had been replaced before", late.Load())
	}
	if total != int64(sent) {
		return bad("%d packets, %d handled", sent, total)
	}
	if !p.NilToo && !p.Hand && def.n.Load() != 0 {
		return bad("%d packets of registered types reached the default handler", def.n.Load())
	}
	o := Out{NT: busy > len(p.Types)}
	if p.Hand {
		o = o.cls("hand-over")
	}
	return o
}

func init() {
	_ = prtp.PayloadTypeFirstDynamic
	op := func(n int) *rapid.Generator[c20Op] {
		return rapid.Custom(func(t *rapid.T) c20Op {
			return c20Op{
				Op: rapid.SampledFrom([]string{"pkt", "pkt", "pkt", "reg", "reg", "def", "str", "nested"}).Draw(t, "op"),
				T:  rapid.OneOf(rapid.SampledFrom([]int{0, 8, 9, 34, 35, 36, 95, 96, 97, 127}), rapid.IntRange(0, 127)).Draw(t, "t"),
				H:  rapid.IntRange(-1, n-1).Draw(t, "h"),
			}
		})
	}
	reg("C20", "history", opts{sec: [2]float64{5, 60}, rule: "packets reached at least two handlers"},
		func(t *rapid.T) c20Plan {
			n := crowd(t, 1, 6, 120, "n")
			return c20Plan{N: n, Def: rapid.IntRange(-1, n-1).Draw(t, "def"), Ops: laps(t, rapid.SliceOfN(op(n), 1, 60).Draw(t, "ops"), 6000)}
		}, c20Run)
	reg("C20", "concurrent", opts{build: "both", racy: true, reps: 30, sec: [2]float64{3, 40}, rule: "several generations of handlers were used"},
		func(t *rapid.T) c20sPlan {
			p := c20sPlan{
				Goroutines: rapid.IntRange(1, 4).Draw(t, "g"),
				Pkts:       rapid.IntRange(10, 1000).Draw(t, "n"),
				Types:      rapid.SliceOfNDistinct(rapid.SampledFrom([]int{0, 8, 9, 35, 96, 101, 127}), 1, 4, rapid.ID[int]).Draw(t, "types"),
				Rounds:     rapid.IntRange(1, 100).Draw(t, "rounds"),
				NilToo:     rapid.Bool().Draw(t, "nil"),
				Hand:       rapid.Bool().Draw(t, "hand"),
			}
			if p.Hand {
				p.Types = p.Types[:1]
				p.Pkts *= 20
			}
			return p
		}, c20StressRun)
}
