package props

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/rtp"
	"pgregory.net/rapid"
)

// C24: the jitter stage in front of a handler.

type c24Pkt struct {
	Gap   int  `json:"g"`
	Delay int  `json:"d"`
	Lost  bool `json:"l,omitempty"`
	Dup   int  `json:"u,omitempty"`
	Ext   int  `json:"e,omitempty"` // header extension of that size
	CSRC  int  `json:"c,omitempty"`
	Len   int  `json:"n,omitempty"`
	PT    int  `json:"p,omitempty"`
}

type c24Plan struct {
	First uint16   `json:"first"`
	Pkts  []c24Pkt `json:"pkts"`
	Errs  []int    `json:"errs,omitempty"` // calls of the inner handler that fail
	Close int      `json:"close"`          // close after that many arrivals, -1: at the end
	Reuse bool     `json:"reuse,omitempty"`
	After int      `json:"after,omitempty"` // packets after the close
}

type c24Handler struct {
	mu     sync.Mutex
	start  time.Time
	got    []c15Pkt
	errs   map[int]error
	fresh  []error // errors not returned by HandleRTP yet
	closes int
}

func (h *c24Handler) String() string { return "c24" }
func (h *c24Handler) Close()         { h.mu.Lock(); h.closes++; h.mu.Unlock() }
func (h *c24Handler) n() int         { h.mu.Lock(); defer h.mu.Unlock(); return len(h.got) }
func (h *c24Handler) HandleRTP(hd *rtp.Header, p []byte) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	n := len(h.got)
	h.got = append(h.got, c15Pkt{time.Since(h.start), hd.Clone(), append([]byte(nil), p...)})
	if err := h.errs[n]; err != nil {
		h.fresh = append(h.fresh, err)
		return err
	}
	return nil
}

func c24Run(p c24Plan) Out {
	return bubble(func() Out {
		kp := c22Plan{First: p.First}
		for _, k := range p.Pkts {
			kp.Pkts = append(kp.Pkts, c22Pkt{F: 7, Gap: k.Gap, Delay: k.Delay, Lost: k.Lost, Dup: k.Dup})
		}
		evs := c22Events(kp)
		in := &c24Handler{start: time.Now(), errs: map[int]error{}}
		for _, e := range p.Errs {
			in.errs[e] = fmt.Errorf("inner error %d", e)
		}
		var cl, cd uint64
		h := rtp.HandleJitter(in, jitter.WithPacketLossHandler(func(l, d uint64) { in.mu.Lock(); cl, cd = l, d; in.mu.Unlock() }))
		m := &c23Model{lat: 60 * time.Millisecond}
		want := map[int64]c15Pkt{}
		buf := make([]byte, 0, 2000)
		var hd rtp.Header
		compare := func(what string) string {
			synctest.Wait()
			in.mu.Lock()
			defer in.mu.Unlock()
			for i := 0; i < len(in.got) || i < len(m.out); i++ {
				if i >= len(m.out) {
					return fmt.Sprintf("%s: unexpected packet %d", what, in.got[i].h.SequenceNumber)
				}
				x := m.out[i]
				w := want[x.exts[0]]
				if i >= len(in.got) {
					return fmt.Sprintf("%s: packet %d was due at %v", what, w.h.SequenceNumber, x.at)
				}
				g := in.got[i]
				if g.h.SequenceNumber != w.h.SequenceNumber || g.at != x.at {
					return fmt.Sprintf("%s: forward %d is packet %d at %v, expected %d at %v", what, i, g.h.SequenceNumber, g.at, w.h.SequenceNumber, x.at)
				}
				if !eqHeader(g.h, w.h) {
					return fmt.Sprintf("%s: packet %d has header %+v, expected %+v", what, w.h.SequenceNumber, g.h, w.h)
				}
				if !eqSlice(g.p, w.p) {
					return fmt.Sprintf("%s: payload of packet %d was changed: %s", what, w.h.SequenceNumber, diffAt(g.p, w.p))
				}
			}
			if cl != m.st.PacketsLost || cd != m.st.PacketsDropped {
				return fmt.Sprintf("%s: loss handler got (%d,%d), expected (%d,%d)", what, cl, cd, m.st.PacketsLost, m.st.PacketsDropped)
			}
			return ""
		}
		closed := false
		direct := 0
		for n, e := range evs {
			if n == p.Close {
				h.Close()
				closed = true
				break
			}
			at := e.at + time.Duration(e.order+1)*time.Microsecond
			if d := at - 300*time.Nanosecond - time.Since(in.start); d > 0 {
				time.Sleep(d)
			}
			m.advance(at - 300*time.Nanosecond)
			if w := compare(fmt.Sprintf("before %v", at)); w != "" {
				return bad("%s", w)
			}
			time.Sleep(300 * time.Nanosecond)
			k := p.Pkts[int(e.ext-int64(p.First))]
			nh := rtp.Header{Version: 2, SequenceNumber: uint16(e.ext), Timestamp: uint32(e.ext) * 160, SSRC: 99, PayloadType: byte(k.PT), Marker: e.ext%3 == 0}
			for c := range k.CSRC {
				nh.CSRC = append(nh.CSRC, uint32(c)+uint32(e.ext))
			}
			pl := c04Bytes(int(e.ext), k.Len)
			if k.Ext > 0 {
				_ = nh.SetExtension(3, c04Bytes(int(e.ext)+1, k.Ext))
			}
			// What the next layer must see: a private copy.
			want[e.ext] = c15Pkt{0, nh.Clone(), append([]byte(nil), pl...)}
			arg, parg := &nh, pl
			if p.Reuse {
				// Like a read loop that parses every packet in the same buffer.
				raw, _ := nh.Marshal()
				buf = append(append(buf[:0], raw...), pl...)
				for i := len(raw) + len(pl); i < cap(buf); i++ {
					buf[:cap(buf)][i] = 0xee
				}
				hd.CSRC, hd.Extensions = hd.CSRC[:0], hd.Extensions[:0]
				hn, err := hd.Unmarshal(buf)
				if err != nil {
					return bad("harness: %v", err)
				}
				arg, parg = &hd, buf[hn:]
			}
			before := in.n()
			err := h.HandleRTP(arg, parg)
			m.push(at, c23Pkt{ext: e.ext, recv: at, start: true, end: true})
			if n := in.n(); n != len(m.out) {
				return bad("packet %d at %v: %d packets forwarded synchronously, expected %d", uint16(e.ext), at, n-before, len(m.out)-before)
			}
			direct += in.n() - before
			in.mu.Lock()
			fresh := in.fresh
			in.fresh = nil
			in.mu.Unlock()
			if err != nil {
				found := false
				for _, f := range fresh {
					found = found || errors.Is(err, f)
				}
				if !found {
					return bad("HandleRTP returned %v, the inner handler failed with %v", err, fresh)
				}
			} else if len(fresh) > 0 {
				return bad("HandleRTP hides %v", fresh[0])
			}
			if w := compare(fmt.Sprintf("at %v after packet %d", at, uint16(e.ext))); w != "" {
				return bad("%s", w)
			}
			if p.Reuse {
				for i := range buf[:cap(buf)] {
					buf[:cap(buf)][i] = 0xbb
				}
			} else {
				for i := range pl {
					pl[i] = 0xbb
				}
			}
		}
		n := in.n()
		if !closed {
			time.Sleep(time.Second)
			m.advance(time.Since(in.start))
			if w := compare("at the end"); w != "" {
				return bad("%s", w)
			}
			n = in.n()
			h.Close()
		}
		if len(evs) > 0 && p.After > 0 {
			// Some more packets of the stream after the close.
			for i := range p.After {
				nh := rtp.Header{Version: 2, SequenceNumber: uint16(evs[len(evs)-1].ext) + uint16(i) + 1, SSRC: 99}
				if err := h.HandleRTP(&nh, []byte{1}); err != nil && !strings.HasPrefix(err.Error(), "inner error") {
					return bad("HandleRTP after Close: %v", err)
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
		time.Sleep(time.Second)
		synctest.Wait()
		in.mu.Lock()
		defer in.mu.Unlock()
		if in.closes != 1 {
			return bad("the inner handler was closed %d times", in.closes)
		}
		if len(in.got) != n {
			return bad("packet %d forwarded after Close", in.got[n].h.SequenceNumber)
		}
		o := Out{NT: n >= 3}
		for c, ok := range map[string]bool{"timer": n > direct, "errors": len(p.Errs) > 0, "closed-early": closed, "reused-buffers": p.Reuse, "lost": m.st.PacketsLost > 0} {
			if ok {
				o = o.cls(c)
			}
		}
		return o
	})
}

// c24Slow is a history in real time: after a gap, packets wait for the timer, and the stage is closed while the
// inner handler works on one of them.
type c24Slow struct {
	First uint16 `json:"first"`
	Wait  int    `json:"wait"`  // packets that wait
	At    int    `json:"at"`    // close when the inner handler has started on that many of them
	Work  int    `json:"work"`  // ms the inner handler takes
	Delay int    `json:"delay"` // ms from there to the close
	Err   bool   `json:"err,omitempty"`
}

type c24SlowHandler struct {
	mu      sync.Mutex
	started []uint16
	closes  int
	signal  chan int
	work    time.Duration
	err     error
}

func (h *c24SlowHandler) String() string { return "c24s" }
func (h *c24SlowHandler) Close()         { h.mu.Lock(); h.closes++; h.mu.Unlock() }
func (h *c24SlowHandler) HandleRTP(hd *rtp.Header, p []byte) error {
	h.mu.Lock()
	h.started = append(h.started, hd.SequenceNumber)
	n := len(h.started)
	h.mu.Unlock()
	h.signal <- n
	if n > 1 {
		time.Sleep(h.work)
	}
	return h.err
}

func c24SlowRun(p c24Slow) Out {
	in := &c24SlowHandler{signal: make(chan int, 100), work: time.Duration(p.Work) * time.Millisecond}
	if p.Err {
		in.err = errors.New("inner error")
	}
	h := rtp.HandleJitter(in)
	for i := range p.Wait + 1 {
		sn := p.First + uint16(i)
		if i > 0 {
			sn++ // one is missing
		}
		if err := h.HandleRTP(&rtp.Header{Version: 2, SequenceNumber: sn, SSRC: 1}, []byte{1}); err != nil && !p.Err {
			return bad("HandleRTP: %v", err)
		}
	}
	limit := time.After(20 * time.Second)
	for n := 0; n < p.At+1; {
		select {
		case n = <-in.signal:
		case <-limit:
			h.Close()
			return bad("the inner handler got only %d packets", n)
		}
	}
	time.Sleep(time.Duration(p.Delay) * time.Millisecond)
	h.Close()
	in.mu.Lock()
	n, closes := len(in.started), in.closes
	in.mu.Unlock()
	if closes != 1 {
		return bad("the inner handler was closed %d times", closes)
	}
	time.Sleep(time.Duration(p.Work*p.Wait+10) * time.Millisecond)
	in.mu.Lock()
	defer in.mu.Unlock()
	if len(in.started) > n+1 { // one may have been on its way
		return bad("packets %v forwarded after Close", in.started[n:])
	}
	if in.closes != 1 {
		return bad("the inner handler was closed %d times", in.closes)
	}
	for i, sn := range in.started {
		w := p.First + uint16(i)
		if i > 0 {
			w++
		}
		if sn != w {
			return bad("forward %d is packet %d, expected %d", i, sn, w)
		}
	}
	return Out{NT: n < p.Wait+1}
}

func init() {
	reg("C24", "slow", opts{sec: [2]float64{4, 40}, hang: 60 * time.Second, rule: "closed before all waiting packets were forwarded"},
		func(t *rapid.T) c24Slow {
			w := rapid.IntRange(1, 12).Draw(t, "wait")
			return c24Slow{First: genFirst().Draw(t, "first"), Wait: w, At: rapid.IntRange(1, w).Draw(t, "at"),
				Work: rapid.IntRange(0, 10).Draw(t, "work"), Delay: rapid.IntRange(0, 3).Draw(t, "delay"), Err: rapid.IntRange(0, 3).Draw(t, "err") == 0}
		}, c24SlowRun)
	reg("C24", "stream", opts{build: "both", sec: [2]float64{7, 100}, rule: "at least three packets were forwarded"},
		func(t *rapid.T) c24Plan {
			p := c24Plan{First: genFirst().Draw(t, "first"), Reuse: rapid.Bool().Draw(t, "reuse"), Close: -1}
			n := rapid.IntRange(1, 25).Draw(t, "n")
			net := rapid.IntRange(0, 2).Draw(t, "net")
			for range n {
				k := c24Pkt{Gap: rapid.SampledFrom([]int{20, 20, 20, 0, 7, 100}).Draw(t, "gap"), Delay: 5}
				if net > 0 && rapid.IntRange(0, 3).Draw(t, "late?") == 0 {
					k.Delay = rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 200)).Draw(t, "delay")
				}
				if net > 0 && rapid.IntRange(0, 6).Draw(t, "dup?") == 0 {
					k.Dup = rapid.IntRange(1, 100).Draw(t, "dup")
				}
				k.Lost = net > 1 && rapid.IntRange(0, 6).Draw(t, "lost?") == 0
				k.Len = rapid.OneOf(rapid.Just(160), rapid.IntRange(0, 1400)).Draw(t, "len")
				k.PT = rapid.IntRange(0, 127).Draw(t, "pt")
				if rapid.IntRange(0, 3).Draw(t, "ext?") == 0 {
					k.Ext = rapid.IntRange(1, 16).Draw(t, "ext")
					k.Len++ // pion does not parse an extension at the very end of a packet
				}
				k.CSRC = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "csrc")
				p.Pkts = append(p.Pkts, k)
			}
			p.Pkts = laps(t, p.Pkts, 300)
			n = len(p.Pkts)
			if rapid.IntRange(0, 2).Draw(t, "errs?") == 0 {
				p.Errs = rapid.SliceOfN(rapid.IntRange(0, n), 1, 5).Draw(t, "errs")
			}
			if rapid.IntRange(0, 2).Draw(t, "close?") == 0 {
				p.Close = rapid.IntRange(0, n).Draw(t, "close")
			}
			p.After = rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "after")
			return p
		}, c24Run)
}
