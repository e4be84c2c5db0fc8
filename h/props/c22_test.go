package props

import (
	"fmt"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/livekit/media-sdk/jitter"
	"github.com/pion/rtp"
	"pgregory.net/rapid"
)

// C22: structure of what the jitter buffer emits. C23: timing and accounting.

// c22Pkt is one packet of the stream with its way through the network.
type c22Pkt struct {
	F     int    `json:"f"`           // 1 = frame start, 2 = frame end (marker), 4 = frame end (payload), 8 = padding
	Gap   int    `json:"g"`           // ms since the previous packet was sent
	Delay int    `json:"d"`           // ms in the network
	Lost  bool   `json:"l,omitempty"` // not delivered
	Dup   int    `json:"u,omitempty"` // second copy this many ms later, if > 0
	Jump  int    `json:"j,omitempty"` // sequence number jump before this packet (the line was quiet before)
	Op    string `json:"o,omitempty"` // flush or lat at the time this packet is sent
	V     int    `json:"v,omitempty"` // new latency
	Ago   int    `json:"a,omitempty"` // receive time lies that many ms before the push
}

type c22Plan struct {
	First uint16   `json:"first"`
	Lat   int      `json:"lat"`
	Pkts  []c22Pkt `json:"pkts"`
	Batch bool     `json:"batch,omitempty"`
}

type c22Depack struct{}

func (c22Depack) Unmarshal(p []byte) ([]byte, error)    { return p, nil }
func (c22Depack) IsPartitionHead(p []byte) bool         { return len(p) > 0 && p[0]&1 != 0 }
func (c22Depack) IsPartitionTail(m bool, p []byte) bool { return m || (len(p) > 0 && p[0]&4 != 0) }

type c22Event struct {
	at    time.Duration
	order int
	pkt   *rtp.Packet
	ext   int64 // unwrapped sequence number
	f     int
	ago   time.Duration
	op    string
	v     int
}

func c22Events(p c22Plan) (evs []c22Event) {
	now := time.Duration(0)
	sn := int64(p.First)
	n := 0
	add := func(e c22Event) {
		e.order = n
		n++
		evs = append(evs, e)
	}
	for i, k := range p.Pkts {
		now += time.Duration(k.Gap) * time.Millisecond
		if k.Jump > 0 {
			now += 3 * time.Second // everything before is delivered and expired
			sn += int64(k.Jump)
		}
		if k.Op != "" {
			add(c22Event{at: now, op: k.Op, v: k.V})
		}
		pl := []byte{byte(k.F), byte(i), byte(i >> 8), 0xaa}
		mk := func() *rtp.Packet {
			return &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: uint16(sn), Timestamp: uint32(i), SSRC: 7, Marker: k.F&2 != 0, Padding: k.F&8 != 0}, Payload: append([]byte(nil), pl...)}
		}
		if !k.Lost {
			at := now + time.Duration(k.Delay)*time.Millisecond
			add(c22Event{at: at, pkt: mk(), ext: sn, f: k.F, ago: time.Duration(k.Ago) * time.Millisecond})
			if k.Dup > 0 {
				add(c22Event{at: at + time.Duration(k.Dup-1)*time.Millisecond, pkt: mk(), ext: sn, f: k.F})
			}
		}
		sn++
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	return evs
}

type c22Emit struct {
	at   time.Duration
	pkts []jitter.ExtPacket
}

func c22Run(p c22Plan) Out {
	return bubble(func() Out {
		evs := c22Events(p)
		start := time.Now()
		var emits []c22Emit
		b := jitter.NewBuffer(c22Depack{}, time.Duration(p.Lat)*time.Millisecond, func(pk []jitter.ExtPacket) {
			emits = append(emits, c22Emit{time.Since(start), append([]jitter.ExtPacket(nil), pk...)})
		})
		defer b.Close()
		type seen struct {
			pkts []*rtp.Packet
			at   []time.Time
			f    int
		}
		pushed := map[int64]*seen{}
		exts := map[*rtp.Packet]int64{}
		flushes := 0
		push := func(e c22Event) {
			rt := time.Now().Add(-e.ago)
			s := pushed[e.ext]
			if s == nil {
				s = &seen{f: e.f}
				pushed[e.ext] = s
			}
			s.pkts = append(s.pkts, e.pkt)
			s.at = append(s.at, rt)
			exts[e.pkt] = e.ext
			if e.ext%2 == 0 {
				b.PushAt(e.pkt, rt)
			} else {
				b.PushExtPacket(jitter.ExtPacket{ReceivedAt: rt, Packet: e.pkt})
			}
		}
		for i := 0; i < len(evs); i++ {
			e := evs[i]
			if d := e.at - time.Since(start); d > 0 {
				time.Sleep(d)
			}
			switch e.op {
			case "flush":
				synctest.Wait()
				b.Flush()
				flushes++
				if b.Size() != 0 {
					return bad("Size=%d after Flush", b.Size())
				}
			case "lat":
				b.UpdateLatency(time.Duration(e.v) * time.Millisecond)
			default:
				if p.Batch {
					var batch []jitter.ExtPacket
					for ; i < len(evs) && evs[i].at == e.at && evs[i].op == ""; i++ {
						rt := time.Now().Add(-evs[i].ago)
						s := pushed[evs[i].ext]
						if s == nil {
							s = &seen{f: evs[i].f}
							pushed[evs[i].ext] = s
						}
						s.pkts = append(s.pkts, evs[i].pkt)
						s.at = append(s.at, rt)
						exts[evs[i].pkt] = evs[i].ext
						batch = append(batch, jitter.ExtPacket{ReceivedAt: rt, Packet: evs[i].pkt})
					}
					i--
					b.PushExtPacketBatch(batch)
				} else {
					push(e)
				}
			}
		}
		time.Sleep(10 * time.Second)
		synctest.Wait()
		if b.Size() != 0 {
			return bad("%d packets still held long after the latency", b.Size())
		}
		b.Flush()
		if b.Size() != 0 {
			return bad("Size=%d after Flush", b.Size())
		}
		// Invariants over everything emitted.
		last := int64(-1)
		total := 0
		multi := 0
		for n, em := range emits {
			if len(em.pkts) == 0 {
				return bad("an empty frame was emitted")
			}
			if len(em.pkts) > 1 {
				multi++
			}
			prev := int64(-1)
			for k, x := range em.pkts {
				ext, ok := exts[x.Packet]
				if !ok {
					return bad("frame %d contains a packet that was never pushed", n)
				}
				s := pushed[ext]
				match := false
				for q := range s.pkts {
					match = match || (s.pkts[q] == x.Packet && s.at[q].Equal(x.ReceivedAt))
				}
				if !match {
					return bad("frame %d: packet %d has receive time %v", n, uint16(ext), x.ReceivedAt)
				}
				if x.Packet.SequenceNumber != uint16(ext) || len(x.Packet.Payload) != 4 || x.Packet.Payload[3] != 0xaa || int(x.Packet.Payload[0]) != s.f {
					return bad("frame %d: packet %d was changed", n, uint16(ext))
				}
				if s.f&8 != 0 {
					return bad("frame %d contains padding packet %d", n, uint16(ext))
				}
				if ext <= last {
					return bad("frame %d: packet %d (%d) after %d: emitted twice or out of order", n, uint16(ext), ext, last)
				}
				if prev >= 0 {
					for q := prev + 1; q < ext; q++ {
						if m := pushed[q]; m == nil || m.f&8 == 0 {
							return bad("frame %d: packet %d follows %d", n, uint16(ext), uint16(prev))
						} else if m.f&6 != 0 {
							return bad("frame %d continues after the end at %d", n, uint16(q))
						}
					}
				}
				if k < len(em.pkts)-1 && s.f&6 != 0 {
					return bad("frame %d continues after the end at %d", n, uint16(ext))
				}
				prev, last = ext, ext
				total++
			}
			// Padding may sit at either side of the frame.
			first := exts[em.pkts[0].Packet]
			for pushed[first].f&1 == 0 {
				first--
				if m := pushed[first]; m == nil || m.f&8 == 0 || m.f&6 != 0 {
					return bad("frame %d does not begin with a frame start: %d", n, em.pkts[0].Packet.SequenceNumber)
				}
			}
			end := last
			for pushed[end].f&6 == 0 {
				end++
				if m := pushed[end]; m == nil || m.f&8 == 0 {
					return bad("frame %d does not end with a frame end: %d", n, uint16(last))
				}
			}
		}
		o := Out{NT: len(emits) >= 2 && total >= 4}
		if multi > 0 {
			o = o.cls("multi-packet-frames")
		}
		if flushes > 0 {
			o = o.cls("flush")
		}
		if int(p.First)+len(p.Pkts) > 65535 {
			o = o.cls("wrap")
		}
		for _, k := range p.Pkts {
			if k.Jump > 0 {
				// After a jump the stream goes on with the new numbers: the last packets
				// of the plan, if complete and delivered in order, must have come out.
				o = o.cls("jump")
				break
			}
		}
		if m := c22Tail(p, evs, emits, exts); m != "" {
			return bad("%s", m)
		}
		return o
	})
}

// After a jump ahead, the first complete frame that follows it must come out.
func c22Tail(p c22Plan, evs []c22Event, emits []c22Emit, exts map[*rtp.Packet]int64) string {
	got := map[int64]bool{}
	for _, e := range emits {
		for _, x := range e.pkts {
			got[exts[x.Packet]] = true
		}
	}
	sn := int64(p.First)
	for i, k := range p.Pkts {
		sn += int64(k.Jump)
		if k.Jump > 0 && k.F&1 != 0 && k.F&6 != 0 && k.F&8 == 0 && !k.Lost {
			// A one-packet frame right after the jump, unless something newer overtook it.
			over := false
			for j := i + 1; j < len(p.Pkts) && p.Pkts[j].Jump == 0; j++ {
				over = over || p.Pkts[j].Op != ""
			}
			at := time.Duration(-1)
			for _, e := range evs {
				if e.pkt != nil && e.ext == sn {
					at = e.at
					break
				}
			}
			for _, e := range evs {
				if e.pkt != nil && e.ext > sn && e.at <= at {
					over = true
				}
			}
			if !over && k.Op == "" && !got[sn] {
				return fmt.Sprintf("packet %d, the first after a jump by %d, was not emitted", uint16(sn), k.Jump)
			}
		}
		sn++
	}
	return ""
}

func genC22(t *rapid.T, single bool, jumps, ops, ago bool) []c22Pkt {
	n := rapid.IntRange(1, 14).Draw(t, "frames")
	net := rapid.IntRange(0, 3).Draw(t, "net") // how bad the network is
	var out []c22Pkt
	for range n {
		sz := 1
		if !single {
			sz = rapid.SampledFrom([]int{1, 1, 2, 3, 5}).Draw(t, "size")
			if rapid.IntRange(0, 511).Draw(t, "big?") == 333 {
				sz = rapid.IntRange(6, 400).Draw(t, "big")
			}
		}
		for j := range sz {
			k := c22Pkt{}
			if j == 0 {
				k.F |= 1
				k.Gap = rapid.SampledFrom([]int{0, 20, 20, 20, 20, 33, 1, 100}).Draw(t, "gap")
			}
			if j == sz-1 {
				k.F |= rapid.SampledFrom([]int{2, 2, 4}).Draw(t, "end")
			}
			out = append(out, k)
		}
		if rapid.IntRange(0, 9).Draw(t, "pad?") == 0 {
			out = append(out, c22Pkt{F: 8 | rapid.SampledFrom([]int{0, 0, 7, 1, 4}).Draw(t, "pf"), Gap: 1})
		}
	}
	for i := range out {
		k := &out[i]
		k.Delay = 5
		if net >= 1 && rapid.IntRange(0, 4).Draw(t, "late?") == 0 {
			k.Delay = rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 300)).Draw(t, "delay")
		}
		if net >= 2 && rapid.IntRange(0, 9).Draw(t, "lost?") == 0 {
			k.Lost = true
		}
		if net >= 1 && rapid.IntRange(0, 9).Draw(t, "dup?") == 0 {
			k.Dup = rapid.SampledFrom([]int{1, 2, 21, 50, 200}).Draw(t, "dup")
		}
		if jumps && i > 0 && rapid.IntRange(0, 15).Draw(t, "jump?") == 0 {
			k.Jump = rapid.SampledFrom([]int{3001, 5000, 20000, 29000}).Draw(t, "jump")
			k.Delay, k.Lost = 0, false
		}
		if ops && rapid.IntRange(0, 19).Draw(t, "op?") == 0 {
			k.Op = rapid.SampledFrom([]string{"flush", "lat"}).Draw(t, "op")
			if k.Op == "lat" {
				k.V = rapid.SampledFrom([]int{0, 10, 60, 100, 250}).Draw(t, "lat")
			}
		}
		if ago && rapid.IntRange(0, 19).Draw(t, "ago?") == 0 {
			k.Ago = rapid.IntRange(1, 150).Draw(t, "ago")
		}
	}
	if !jumps {
		out = laps(t, out, 2500)
		if len(out) > 100 && rapid.IntRange(0, 2).Draw(t, "burst?") == 0 {
			// All of it in a short time.
			for i := range out {
				out[i].Gap /= 20
			}
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "join?") == 0 {
		// The receiver joins in the middle of a frame.
		for i := range min(rapid.IntRange(1, 2).Draw(t, "join"), len(out)-1) {
			out[i].Lost = true
		}
		if ops {
			out[min(rapid.IntRange(1, 6).Draw(t, "early"), len(out)-1)].Op = "flush"
		}
	}
	return out
}

// genC22Burst draws many packets that arrive in a short time, so that many wait in the buffer.
func genC22Burst(t *rapid.T) []c22Pkt {
	n := rapid.OneOf(rapid.IntRange(20, 200), rapid.IntRange(200, 1500)).Draw(t, "packets")
	sizes := rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 1, 2, 3, 7}), 1, 5).Draw(t, "sizes")
	if rapid.IntRange(0, 3).Draw(t, "big?") == 0 {
		sizes[0] = rapid.IntRange(20, 600).Draw(t, "big")
	}
	every := rapid.SampledFrom([]int{0, 0, 20, 50}).Draw(t, "every") // packets per millisecond
	var out []c22Pkt
	for k := 0; len(out) < n; k++ {
		for j := range sizes[k%len(sizes)] {
			p := c22Pkt{Delay: 5}
			if j == 0 {
				p.F |= 1
			}
			if j == sizes[k%len(sizes)]-1 {
				p.F |= 2
			}
			if every > 0 && len(out)%every == every-1 {
				p.Gap = 1
			}
			out = append(out, p)
		}
	}
	// The first packets are sometimes late, so that the others have to wait.
	if rapid.IntRange(0, 3).Draw(t, "hold?") > 0 {
		for range rapid.IntRange(1, 3).Draw(t, "holds") {
			out[rapid.IntRange(1, min(8, len(out)-1)).Draw(t, "held")].Delay = rapid.SampledFrom([]int{8, 15, 25, 40, 55, 80, 250}).Draw(t, "hold")
		}
	}
	idx := func() int { return rapid.IntRange(0, len(out)-1).Draw(t, "i") }
	for range rapid.IntRange(0, 8).Draw(t, "late") {
		out[idx()].Delay = rapid.IntRange(0, 60).Draw(t, "delay")
	}
	for range rapid.IntRange(0, 3).Draw(t, "dups") {
		out[idx()].Dup = rapid.SampledFrom([]int{1, 2, 21, 50, 100}).Draw(t, "dup")
	}
	for range rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "lost") {
		out[idx()].Lost = true
	}
	for range rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "flush") {
		out[idx()].Op = "flush"
	}
	return out
}

func genFirst() *rapid.Generator[uint16] {
	return rapid.OneOf(rapid.Uint16Range(65500, 65535), rapid.Uint16(), rapid.Uint16Range(0, 3), rapid.Uint16Range(32755, 32775))
}

type c22sPlan struct {
	First  uint16 `json:"first"`
	N      int    `json:"n"`
	G      int    `json:"g"`
	LatUs  int    `json:"lat"`
	Seed   int    `json:"seed"`
	Readby bool   `json:"r"`
}

// Real time, several goroutines.
func c22Stress(p c22sPlan) Out {
	var mu sync.Mutex
	var got []uint16
	b := jitter.NewBuffer(c22Depack{}, time.Duration(p.LatUs)*time.Microsecond, func(pk []jitter.ExtPacket) {
		mu.Lock()
		defer mu.Unlock()
		for _, x := range pk {
			got = append(got, x.SequenceNumber)
		}
	}, jitter.WithPacketLossHandler(func(l, d uint64) {}))
	var wg sync.WaitGroup
	for g := range p.G {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := g; i < p.N; i += p.G {
				b.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: p.First + uint16(i), Marker: true}, Payload: []byte{1, 0, 0, 0xaa}})
				if i%17 == 0 {
					b.Push(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: p.First + uint16(i), Marker: true}, Payload: []byte{1, 0, 0, 0xaa}})
				}
				if p.Readby && i%13 == 0 {
					_ = b.Size()
					_ = b.Stats().PacketLoss()
					b.UpdateLatency(time.Duration(p.LatUs+i) * time.Microsecond)
				}
				if (i+p.Seed)%29 == 0 {
					time.Sleep(time.Duration(i%7) * 50 * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(time.Duration(p.LatUs+p.N)*time.Microsecond + 2*time.Millisecond)
	b.Flush()
	b.Close()
	mu.Lock()
	defer mu.Unlock()
	for i := 1; i < len(got); i++ {
		if int16(got[i]-got[i-1]) <= 0 {
			return bad("packet %d emitted after %d", got[i], got[i-1])
		}
	}
	st := b.Stats()
	if b.Size() != 0 || int(st.PacketsPopped) != len(got) || st.PacketsPopped+st.PacketsDropped != st.PacketsPushed {
		return bad("%d held, %d emitted, stats %+v", b.Size(), len(got), *st)
	}
	return Out{NT: len(got) > p.N/4 && p.G > 1}
}

func init() {
	reg("C22", "stream", opts{sec: [2]float64{9, 150}, rule: "at least two frames and four packets were emitted"},
		func(t *rapid.T) c22Plan {
			return c22Plan{
				First: genFirst().Draw(t, "first"),
				Lat:   rapid.SampledFrom([]int{60, 60, 20, 200, 0}).Draw(t, "lat"),
				Pkts:  genC22(t, rapid.IntRange(0, 3).Draw(t, "single") == 0, rapid.IntRange(0, 2).Draw(t, "jumps") == 0, true, true),
				Batch: rapid.IntRange(0, 4).Draw(t, "batch") == 0,
			}
		}, c22Run)
	reg("C22", "burst", opts{sec: [2]float64{3, 50}, rule: "at least two frames and four packets were emitted"},
		func(t *rapid.T) c22Plan {
			return c22Plan{
				First: genFirst().Draw(t, "first"),
				Lat:   rapid.SampledFrom([]int{60, 60, 20, 200, 0}).Draw(t, "lat"),
				Pkts:  genC22Burst(t),
				Batch: rapid.IntRange(0, 4).Draw(t, "batch") == 0,
			}
		}, c22Run)
	reg("C22", "concurrent", opts{build: "both", racy: true, reps: 30, sec: [2]float64{3, 40}, rule: "several goroutines, and more than a quarter of the packets was in time"},
		func(t *rapid.T) c22sPlan {
			return c22sPlan{
				First:  genFirst().Draw(t, "first"),
				N:      rapid.IntRange(10, 1000).Draw(t, "n"),
				G:      rapid.IntRange(1, 4).Draw(t, "g"),
				LatUs:  rapid.SampledFrom([]int{100, 1000, 5000}).Draw(t, "lat"),
				Seed:   rapid.IntRange(0, 28).Draw(t, "seed"),
				Readby: rapid.Bool().Draw(t, "r"),
			}
		}, c22Stress)
}
