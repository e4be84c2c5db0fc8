package props

import (
	"fmt"
	"slices"
	"testing/synctest"
	"time"

	"github.com/livekit/media-sdk/jitter"
	"github.com/pion/rtp"
	"pgregory.net/rapid"
)

// C23: the jitter buffer against a reference model of its documented behaviour:
// a frame leaves as soon as it is complete and next in line, and otherwise once
// the packet at the head of the line has waited for the latency.

type c23Pkt struct {
	ext        int64
	recv       time.Duration
	start, end bool
	pad        bool
}

type c23Frame struct {
	at   time.Duration
	exts []int64
}

type c23Model struct {
	lat     time.Duration
	prev    int64
	init    bool
	pending []c23Pkt
	st      jitter.BufferStats
	out     []c23Frame
}

func (m *c23Model) headLen() int {
	if len(m.pending) == 0 || !m.pending[0].start {
		return 0
	}
	for i := range m.pending {
		if i > 0 && m.pending[i].ext != m.pending[i-1].ext+1 {
			return 0
		}
		if m.pending[i].end {
			return i + 1
		}
	}
	return 0
}

func (m *c23Model) take(n int) {
	m.prev = m.pending[n-1].ext
	m.pending = m.pending[n:]
}

func (m *c23Model) gap() {
	if m.init {
		m.st.PacketsLost += uint64(m.pending[0].ext - m.prev - 1)
	}
}

func (m *c23Model) emit(now time.Duration, n int) {
	f := c23Frame{at: now}
	for _, p := range m.pending[:n] {
		if !p.pad {
			f.exts = append(f.exts, p.ext)
		}
	}
	m.take(n)
	m.st.PacketsPopped += uint64(n)
	m.st.SamplesPopped++
	m.init = true
	if len(f.exts) > 0 {
		m.out = append(m.out, f)
	}
}

func (m *c23Model) process(now time.Duration, force bool) {
	for len(m.pending) > 0 {
		old := force || m.pending[0].recv+m.lat <= now
		n := m.headLen()
		switch {
		case n == 0 && old:
			m.gap()
			m.take(1)
			m.st.PacketsDropped++
		case n > 0 && (old || !m.init || m.pending[0].ext == m.prev+1):
			m.gap()
			m.emit(now, n)
		default:
			return
		}
	}
}

// advance runs everything that becomes due up to t.
func (m *c23Model) advance(t time.Duration) {
	for len(m.pending) > 0 {
		due := m.pending[0].recv + m.lat
		if due > t {
			return
		}
		n := len(m.pending)
		m.process(due, false)
		if len(m.pending) == n {
			return
		}
	}
}

func (m *c23Model) push(now time.Duration, p c23Pkt) (late bool) {
	m.st.PacketsPushed++
	if p.pad {
		m.st.PaddingPushed++
		if !m.init {
			return false
		}
	}
	i, dup := slices.BinarySearchFunc(m.pending, p.ext, func(a c23Pkt, e int64) int { return int(a.ext - e) })
	if dup || (m.init && p.ext <= m.prev) {
		if !p.pad {
			m.st.PacketsDropped++
		}
		return true
	}
	m.pending = slices.Insert(m.pending, i, p)
	m.process(now, false)
	return false
}

func c23Run(p c22Plan) Out {
	return bubble(func() Out {
		evs := c22Events(p)
		start := time.Now()
		m := &c23Model{lat: time.Duration(p.Lat) * time.Millisecond}
		var got []c23Frame
		exts := map[uint16]int64{}
		for _, e := range evs {
			if e.pkt != nil {
				exts[uint16(e.ext)] = e.ext
			}
		}
		cb := ""
		var cl, cd uint64
		calls := 0
		b := jitter.NewBuffer(c22Depack{}, m.lat, func(pk []jitter.ExtPacket) {
			f := c23Frame{at: time.Since(start)}
			for _, x := range pk {
				f.exts = append(f.exts, exts[x.SequenceNumber])
			}
			got = append(got, f)
		}, jitter.WithPacketLossHandler(func(l, d uint64) {
			if l < cl || d < cd {
				cb = fmt.Sprintf("loss callback went from (%d,%d) to (%d,%d)", cl, cd, l, d)
			}
			if l == cl && d == cd {
				cb = fmt.Sprintf("loss callback (%d,%d) without loss", l, d)
			}
			cl, cd = l, d
			calls++
		}))
		defer b.Close()
		late := 0
		compare := func(what string) string {
			synctest.Wait()
			if len(got) > len(m.out) {
				return fmt.Sprintf("%s: frame %v at %v, the model emitted %d frames", what, got[len(m.out)].exts, got[len(m.out)].at, len(m.out))
			}
			if len(got) < len(m.out) {
				return fmt.Sprintf("%s: frame %v was due at %v", what, m.out[len(got)].exts, m.out[len(got)].at)
			}
			for i := range got {
				if got[i].at != m.out[i].at || !slices.Equal(got[i].exts, m.out[i].exts) {
					return fmt.Sprintf("%s: frame %d is %v at %v, expected %v at %v", what, i, got[i].exts, got[i].at, m.out[i].exts, m.out[i].at)
				}
			}
			if s := *b.Stats(); s != m.st {
				return fmt.Sprintf("%s: stats %+v, expected %+v", what, s, m.st)
			}
			if s := b.Size(); s != len(m.pending) {
				return fmt.Sprintf("%s: Size=%d, expected %d", what, s, len(m.pending))
			}
			if cl != m.st.PacketsLost || cd != m.st.PacketsDropped {
				return fmt.Sprintf("%s: last loss callback (%d,%d), totals (%d,%d)", what, cl, cd, m.st.PacketsLost, m.st.PacketsDropped)
			}
			if cb != "" {
				return cb
			}
			s := b.Stats()
			if pl := s.PacketLoss(); (s.PacketsPushed == 0 && pl != 0) || (s.PacketsPushed > 0 && pl != float64(s.PacketsDropped)/float64(s.PacketsPushed)) {
				return fmt.Sprintf("%s: PacketLoss()=%v of %+v", what, pl, *s)
			}
			return ""
		}
		for _, e := range evs {
			// No two things happen at the same instant, so their order is defined.
			at := e.at + time.Duration(e.order+1)*100*time.Nanosecond
			if d := at - 30*time.Nanosecond - time.Since(start); d > 0 {
				time.Sleep(d)
			}
			m.advance(at - 30*time.Nanosecond)
			if w := compare(fmt.Sprintf("before %v", at)); w != "" {
				return bad("%s", w)
			}
			time.Sleep(30 * time.Nanosecond)
			what := fmt.Sprintf("at %v after ", at)
			switch e.op {
			case "flush":
				b.Flush()
				m.process(at, true)
				what += "Flush"
			case "lat":
				m.lat = time.Duration(e.v) * time.Millisecond
				b.UpdateLatency(m.lat)
				m.process(at, false)
				what += "UpdateLatency"
			default:
				if at := time.Now().Add(-e.ago); e.ext%2 == 0 {
					b.PushAt(e.pkt, at)
				} else {
					b.PushExtPacket(jitter.ExtPacket{ReceivedAt: at, Packet: e.pkt})
				}
				if m.push(at, c23Pkt{ext: e.ext, recv: at - e.ago, start: e.f&1 != 0, end: e.f&6 != 0, pad: e.f&8 != 0}) {
					late++
				}
				what += fmt.Sprintf("packet %d", e.pkt.SequenceNumber)
			}
			if w := compare(what); w != "" {
				return bad("%s", w)
			}
		}
		time.Sleep(2 * time.Second)
		m.advance(time.Since(start))
		if w := compare("at the end"); w != "" {
			return bad("%s", w)
		}
		b.Flush()
		m.process(time.Since(start), true)
		if w := compare("after the last Flush"); w != "" {
			return bad("%s", w)
		}
		o := Out{NT: len(got) >= 2 && m.st.PacketsPopped >= 4}
		for c, ok := range map[string]bool{"lost": m.st.PacketsLost > 0, "dropped": m.st.PacketsDropped > 0, "late-or-duplicate": late > 0, "padding": m.st.PaddingPushed > 0, "clean": m.st.PacketsLost+m.st.PacketsDropped == 0} {
			if ok {
				o = o.cls(c)
			}
		}
		return o
	})
}

// c23Across is a stream whose sequence numbers jump ahead while packets from
// before the jump are still on their way.
type c23Across struct {
	First uint16 `json:"first"`
	Jump  int    `json:"jump"`
	Old   []int  `json:"old"` // sizes of the frames before the jump
	New   []int  `json:"new"` // and after it
	At    []int  `json:"at"`  // arrival of the packets, ms
	Lat   int    `json:"lat"`
	Batch bool   `json:"batch,omitempty"`
	Fresh bool   `json:"fresh,omitempty"` // no frame has come out before
	Flush bool   `json:"flush,omitempty"` // the missing packet never comes
}

func c23AcrossRun(p c23Across) Out {
	return bubble(func() Out {
		type arr struct {
			at  int
			pkt *rtp.Packet
		}
		var arrs []arr
		var want [][]uint16
		sn, k, lastAt, mixed := p.First+2, 0, 0, false
		frame := func(sz int) {
			var f []uint16
			for j := range sz {
				fl := 0
				if j == 0 {
					fl |= 1
				}
				if j == sz-1 {
					fl |= 4
				}
				a := p.At[k%len(p.At)]
				k++
				lastAt = max(lastAt, a)
				arrs = append(arrs, arr{a, &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: sn}, Payload: []byte{byte(fl), 1, 2, 0xaa}}})
				f = append(f, sn)
				sn++
			}
			want = append(want, f)
		}
		for _, sz := range p.Old {
			frame(sz)
		}
		old := len(arrs)
		// One packet from before the jump waits in the buffer from the start.
		arrs[0].at = 0
		sn += uint16(p.Jump)
		for _, sz := range p.New {
			frame(sz)
		}
		for i := range arrs {
			for j := range old {
				mixed = mixed || i >= old && arrs[i].at < arrs[j].at
			}
		}
		slices.SortStableFunc(arrs, func(a, b arr) int { return a.at - b.at })
		one := func(n uint16) *rtp.Packet {
			return &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: n, Marker: true}, Payload: []byte{1, 1, 2, 0xaa}}
		}
		var got [][]uint16
		b := jitter.NewBuffer(c22Depack{}, time.Duration(p.Lat)*time.Millisecond, func(pk []jitter.ExtPacket) {
			var f []uint16
			for _, x := range pk {
				f = append(f, x.SequenceNumber)
			}
			got = append(got, f)
		})
		defer b.Close()
		first := one(p.First)
		if p.Fresh {
			// The first frame is held up as well.
			first.Marker = false
		}
		b.Push(first)
		synctest.Wait()
		n0 := 1
		if p.Fresh {
			n0 = 0
		}
		if len(got) != n0 {
			return bad("%d frames were emitted at once, want %d", len(got), n0)
		}
		now := 0
		for i := 0; i < len(arrs); {
			time.Sleep(time.Duration(arrs[i].at-now) * time.Millisecond)
			now = arrs[i].at
			var batch []jitter.ExtPacket
			for ; i < len(arrs) && arrs[i].at == now; i++ {
				if p.Batch {
					batch = append(batch, jitter.ExtPacket{ReceivedAt: time.Now(), Packet: arrs[i].pkt})
				} else {
					b.Push(arrs[i].pkt)
				}
			}
			b.PushExtPacketBatch(batch)
			synctest.Wait()
			if len(got) != n0 {
				return bad("frame %d was emitted before packet %d", got[n0], p.First+1)
			}
		}
		time.Sleep(time.Millisecond)
		if p.Flush {
			// The missing packet never comes: it is the only one lost, and one held up by it is dropped.
			b.Flush()
			if !p.Fresh {
				want = append([][]uint16{{p.First}}, want...)
			}
			var dropped uint64
			if p.Fresh {
				dropped = 1
			}
			if !slices.EqualFunc(got, want, func(a, b []uint16) bool { return slices.Equal(a, b) }) {
				return bad("Flush emitted frames %d, want %d", got, want)
			}
			if st := b.Stats(); st.PacketsDropped != dropped || st.PacketsPushed != st.PacketsPopped+dropped || b.Size() != 0 || !p.Fresh && st.PacketsLost != 1 {
				return bad("after Flush with packet %d missing: stats %+v, size %d", p.First+1, *st, b.Size())
			}
			return Out{NT: mixed}.cls("flush")
		}
		second := one(p.First + 1)
		if p.Fresh {
			second.Payload[0] = 4
			want = append([][]uint16{{p.First, p.First + 1}}, want...)
		} else {
			want = append([][]uint16{{p.First}, {p.First + 1}}, want...)
		}
		b.Push(second)
		synctest.Wait()
		if !slices.EqualFunc(got, want, func(a, b []uint16) bool { return slices.Equal(a, b) }) {
			return bad("all packets arrived within %d ms: frames %d, want %d", now+1, got, want)
		}
		if st := b.Stats(); st.PacketsLost != 0 || st.PacketsDropped != 0 || st.PacketsPushed != st.PacketsPopped || b.Size() != 0 {
			return bad("all packets arrived within %d ms: stats %+v, size %d", now+1, *st, b.Size())
		}
		o := Out{NT: mixed}
		if mixed {
			o = o.cls("overtaking")
		}
		return o
	})
}

func init() {
	reg("C23", "model", opts{sec: [2]float64{12, 200}, rule: "at least two frames and four packets were emitted"},
		func(t *rapid.T) c22Plan {
			return c22Plan{
				First: genFirst().Draw(t, "first"),
				Lat:   rapid.SampledFrom([]int{60, 60, 20, 200, 0}).Draw(t, "lat"),
				Pkts:  genC22(t, rapid.IntRange(0, 3).Draw(t, "single") == 0, false, rapid.Bool().Draw(t, "ops"), rapid.Bool().Draw(t, "ago")),
			}
		}, c23Run)
	reg("C23", "burst", opts{sec: [2]float64{3, 50}, rule: "at least two frames and four packets were emitted"},
		func(t *rapid.T) c22Plan {
			return c22Plan{
				First: genFirst().Draw(t, "first"),
				Lat:   rapid.SampledFrom([]int{60, 60, 20, 200, 0}).Draw(t, "lat"),
				Pkts:  genC22Burst(t),
			}
		}, c23Run)
	reg("C23", "across", opts{sec: [2]float64{4, 40}, rule: "a packet from after the jump overtakes one from before it"},
		func(t *rapid.T) c23Across {
			sizes := rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 1, 1, 2, 3, 1, 1, 2, 3, 1, 1, 2, 3, 1, 1, 2, 3, 60, 140}), 1, 5)
			p := c23Across{
				First: genFirst().Draw(t, "first"),
				Jump:  rapid.SampledFrom([]int{3001, 4000, 20000, 29000}).Draw(t, "jump"),
				Old:   sizes.Draw(t, "old"), New: sizes.Draw(t, "new"),
				Lat:   rapid.SampledFrom([]int{60, 100, 200}).Draw(t, "lat"),
				Batch: rapid.IntRange(0, 2).Draw(t, "batch") == 0,
				Flush: rapid.IntRange(0, 3).Draw(t, "flush") == 0,
			}
			if p.Fresh = rapid.IntRange(0, 2).Draw(t, "fresh") == 0; p.Fresh {
				p.Jump = rapid.SampledFrom([]int{3001, 20000, 32000, 33000, 40000, 61000}).Draw(t, "anywhere")
			}
			p.At = rapid.SliceOfN(rapid.IntRange(0, 50), 1, 30).Draw(t, "at")
			return p
		}, c23AcrossRun)
}
