package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/protocol/logger"
	"github.com/pion/logging"
	prtp "github.com/pion/rtp"
	"pgregory.net/rapid"
)

// C25: demultiplexing of an RTP session. C26: its write side and Close.

// c25Conn delivers datagrams the way a connected UDP socket does.
type c25Conn struct {
	in       chan []byte
	done     chan struct{}
	closes   atomic.Int32
	closeErr error

	mu     sync.Mutex
	out    [][]byte
	failAt int // index of the write that fails, -1: none
	writes int
	yield  func()
}

func newC25Conn(n int) *c25Conn {
	return &c25Conn{in: make(chan []byte, n), done: make(chan struct{}), failAt: -1}
}

var errC25Closed = errors.New("c25: use of closed connection")

func (c *c25Conn) Read(p []byte) (int, error) {
	select {
	case <-c.done:
		return 0, errC25Closed
	default:
	}
	select {
	case b := <-c.in:
		n := copy(p, b)
		// Bytes behind the datagram are garbage to the reader.
		for i := n; i < len(p); i++ {
			p[i] = 0xd7
		}
		return n, nil
	case <-c.done:
		return 0, errC25Closed
	}
}

func (c *c25Conn) Write(p []byte) (int, error) {
	if c.yield != nil {
		c.yield()
	}
	b := bytes.Clone(p)
	if c.yield != nil {
		c.yield()
		if !bytes.Equal(b, p) {
			b = append([]byte("changed while writing:"), p...)
		}
	}
	select {
	case <-c.done:
		return 0, errC25Closed
	default:
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writes++
	if c.writes-1 == c.failAt {
		return 0, errSink
	}
	c.out = append(c.out, b)
	return len(p), nil
}

func (c *c25Conn) Close() error {
	if c.closes.Add(1) == 1 {
		close(c.done)
		return c.closeErr
	}
	return errC25Closed
}
func (c *c25Conn) LocalAddr() net.Addr              { return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c *c25Conn) RemoteAddr() net.Addr             { return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (c *c25Conn) SetDeadline(time.Time) error      { return nil }
func (c *c25Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *c25Conn) SetWriteDeadline(time.Time) error { return nil }

// c25Packet builds the k-th packet of a stream; everything in it depends on both.
func c25Packet(ssrc uint32, k, sz, ext, csrc int) *prtp.Packet {
	p := &prtp.Packet{Header: prtp.Header{Version: 2, SSRC: ssrc, SequenceNumber: uint16(k*3 + int(ssrc)), Timestamp: uint32(k) * 160, PayloadType: byte(k % 128), Marker: k%2 == 0}}
	for c := range csrc {
		p.CSRC = append(p.CSRC, uint32(k*100+c))
	}
	if ext > 0 {
		_ = p.SetExtension(byte(1+k%14), c04Bytes(k+int(ssrc)*7, ext))
		if ext < 10 {
			_ = p.SetExtension(byte(1+(k+1)%14), c04Bytes(k+int(ssrc)*7+1, ext))
		}
		if sz == 0 {
			sz = 1 // pion does not parse an extension at the very end of a packet
		}
	}
	p.Payload = c04Bytes(k*31+int(ssrc), sz)
	return p
}

type c25Op struct {
	Op   string `json:"op"` // send, read, junk
	S    int    `json:"s,omitempty"`
	N    int    `json:"n,omitempty"` // repeat
	Len  int    `json:"len,omitempty"`
	Ext  int    `json:"e,omitempty"`
	CSRC int    `json:"c,omitempty"`
	Raw  []byte `json:"raw,omitempty"`
}

type c25Plan struct {
	SSRC []uint32 `json:"ssrc"`
	Ops  []c25Op  `json:"ops"`
}

type c25Res struct {
	h   prtp.Header
	buf []byte
	n   int
	err error
}

type c25Stream struct {
	r       rtp.ReadStream
	sent    int
	unread  []c25Unread
	pending chan *c25Res
	size    int
	results []*c25Res
	want    []*prtp.Packet
	over    bool
}

type c25Unread struct {
	p        *prtp.Packet
	droppabl bool
}

func c25Run(p c25Plan) Out {
	return bubble(func() Out {
		conn := newC25Conn(0)
		s := rtp.NewSession(logger.GetLogger(), conn)
		type acc struct {
			r    rtp.ReadStream
			ssrc uint32
		}
		var mu sync.Mutex
		var accepted []acc
		accDone := make(chan error, 1)
		go func() {
			for {
				r, ssrc, err := s.AcceptStream()
				if err != nil {
					accDone <- err
					return
				}
				mu.Lock()
				accepted = append(accepted, acc{r, ssrc})
				mu.Unlock()
			}
		}()
		defer s.Close()
		streams := map[uint32]*c25Stream{}
		var order []*c25Stream
		nAcc := 0
		check := func(st *c25Stream, res *c25Res) string {
			if res.err != nil {
				return fmt.Sprintf("ReadRTP failed: %v", res.err)
			}
			for i, u := range st.unread {
				w := u.p
				n := min(len(w.Payload), len(res.buf))
				if eqHeader(res.h, w.Header) && res.n == n && bytes.Equal(res.buf[:n], w.Payload[:n]) {
					st.unread = st.unread[i+1:]
					st.results = append(st.results, res)
					st.want = append(st.want, w)
					return ""
				}
				if !u.droppabl {
					return fmt.Sprintf("expected packet %+v with %d bytes, got %+v with %d bytes (payload equal: %v)", w.Header, n, res.h, res.n, res.n == n && bytes.Equal(res.buf[:res.n], w.Payload[:n]))
				}
			}
			return fmt.Sprintf("unexpected packet %+v", res.h)
		}
		settle := func() string {
			synctest.Wait()
			mu.Lock()
			a := accepted
			mu.Unlock()
			for ; nAcc < len(a); nAcc++ {
				st := streams[a[nAcc].ssrc]
				if st == nil || st.r != nil {
					return fmt.Sprintf("stream %d accepted twice or without a packet", a[nAcc].ssrc)
				}
				st.r = a[nAcc].r
			}
			for _, st := range order {
				if st.r == nil {
					return "a new SSRC was not announced"
				}
				if st.pending != nil {
					select {
					case res := <-st.pending:
						st.pending = nil
						if len(st.unread) == 0 {
							return fmt.Sprintf("a read returned without a packet: %+v %v", res.h, res.err)
						}
						if w := check(st, res); w != "" {
							return w
						}
					default:
						for _, u := range st.unread {
							if !u.droppabl {
								return fmt.Sprintf("a pending read did not get packet %+v", u.p.Header)
							}
						}
					}
				}
			}
			return ""
		}
		junk := 0
		trunc := false
		for i, o := range p.Ops {
			switch o.Op {
			case "send", "new":
				ssrc := p.SSRC[o.S%len(p.SSRC)]
				if o.Op == "new" {
					ssrc = 0x7000_0000 + uint32(i)
				}
				st := streams[ssrc]
				if st == nil {
					st = &c25Stream{}
					streams[ssrc] = st
					order = append(order, st)
				}
				for range max(o.N, 1) {
					pk := c25Packet(ssrc, st.sent, o.Len, o.Ext, o.CSRC)
					st.sent++
					raw, err := pk.Marshal()
					if err != nil {
						return bad("harness: %v", err)
					}
					must := 0
					for _, u := range st.unread {
						if !u.droppabl {
							must++
						}
					}
					st.unread = append(st.unread, c25Unread{pk, must >= 10})
					st.over = st.over || must >= 10
					conn.in <- raw
					if w := settle(); w != "" {
						return bad("op %d: %s", i, w)
					}
				}
			case "read":
				if len(order) == 0 {
					continue
				}
				st := order[o.S%len(order)]
				if st.pending != nil {
					continue
				}
				st.pending = make(chan *c25Res, 1)
				go func(ch chan *c25Res) {
					res := &c25Res{buf: bytes.Repeat([]byte{0xcc}, o.Len)}
					// A caller that reuses its header: nothing of the old one may stay.
					res.h = prtp.Header{Marker: true, Extension: true, CSRC: []uint32{1, 2, 3}, SSRC: 1}
					res.n, res.err = st.r.ReadRTP(&res.h, res.buf)
					ch <- res
				}(st.pending)
				trunc = trunc || o.Len < 20
			case "junk":
				var q prtp.Packet
				if len(o.Raw) <= rtp.MTUSize && q.Unmarshal(bytes.Clone(o.Raw)) == nil {
					continue // it happens to parse
				}
				conn.in <- o.Raw
				junk++
			}
			if w := settle(); w != "" {
				return bad("op %d (%s): %s", i, o.Op, w)
			}
		}
		// Drain everything.
		for _, st := range order {
			for !allDroppable(st.unread) {
				if st.pending == nil {
					st.pending = make(chan *c25Res, 1)
					go func(ch chan *c25Res) {
						res := &c25Res{buf: make([]byte, 1500)}
						res.n, res.err = st.r.ReadRTP(&res.h, res.buf)
						ch <- res
					}(st.pending)
				}
				if w := settle(); w != "" {
					return bad("draining: %s", w)
				}
			}
		}
		nr := 0
		for _, st := range order {
			for i, res := range st.results {
				n := min(len(st.want[i].Payload), len(res.buf))
				if !eqHeader(res.h, st.want[i].Header) || !bytes.Equal(res.buf[:n], st.want[i].Payload[:n]) {
					return bad("a packet that was read earlier changed later: %+v is now %+v", st.want[i].Header, res.h)
				}
				nr++
			}
		}
		if err := s.Close(); err != nil {
			return bad("Close: %v", err)
		}
		synctest.Wait()
		select {
		case <-accDone:
		default:
			return bad("AcceptStream is still blocked after Close")
		}
		for _, st := range order {
			if st.pending != nil {
				select {
				case res := <-st.pending:
					if res.err == nil {
						return bad("a blocked read returned a packet on Close")
					}
				default:
					return bad("a read is still blocked after Close")
				}
			}
		}
		o := Out{NT: nr >= 3}
		for c, ok := range map[string]bool{"junk": junk > 0, "truncated": trunc, "several-streams": len(order) > 1} {
			if ok {
				o = o.cls(c)
			}
		}
		for _, st := range order {
			if st.over {
				o = o.cls("overflow")
				break
			}
		}
		return o
	})
}

func allDroppable(u []c25Unread) bool {
	for _, x := range u {
		if !x.droppabl {
			return false
		}
	}
	return true
}

// Real concurrency: the sender keeps at most Window packets outstanding per
// stream, so none may be lost.
type c25rPlan struct {
	Streams int  `json:"streams"`
	N       int  `json:"n"`
	Window  int  `json:"w"`
	Len     int  `json:"len"`
	Ext     int  `json:"e"`
	Readers int  `json:"readers"` // per stream
	Junk    bool `json:"junk"`
	Jit     int  `json:"jit"`
	UDP     bool `json:"udp"`
}

func c25Stress(p c25rPlan) Out {
	var conn net.Conn
	var send func([]byte)
	if p.UDP {
		a, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			return bad("harness: %v", err)
		}
		b, err := net.DialUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}, a.LocalAddr().(*net.UDPAddr))
		if err != nil {
			return bad("harness: %v", err)
		}
		defer b.Close()
		conn = struct{ net.Conn }{a}
		send = func(raw []byte) { _, _ = b.Write(raw) }
	} else {
		c := newC25Conn(p.Window)
		conn = c
		send = func(raw []byte) {
			select {
			case c.in <- raw:
			case <-c.done:
			}
		}
	}
	s := rtp.NewSession(logger.GetLogger(), conn)
	got := make([]atomic.Int32, p.Streams)
	wake := make(chan struct{}, 1)
	var mu sync.Mutex
	viol := ""
	fail := func(f string, a ...any) {
		mu.Lock()
		if viol == "" {
			viol = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	failed := func() bool { mu.Lock(); defer mu.Unlock(); return viol != "" }
	var wg sync.WaitGroup
	seen := make([][]atomic.Int32, p.Streams)
	for i := range seen {
		seen[i] = make([]atomic.Int32, p.N)
	}
	reader := func(r rtp.ReadStream, ssrc uint32) {
		defer wg.Done()
		buf := make([]byte, 1500)
		var h prtp.Header
		last := -1
		type kept struct {
			h prtp.Header
			w *prtp.Packet
		}
		var keep []kept
		for {
			n, err := r.ReadRTP(&h, buf)
			if err != nil {
				break
			}
			k := int(h.Timestamp / 160)
			if k >= p.N {
				fail("stream %d: bogus header %+v", ssrc, h)
				continue
			}
			w := c25Packet(ssrc, k, p.Len, p.Ext, 0)
			if !eqHeader(h, w.Header) || !bytes.Equal(buf[:n], w.Payload) {
				fail("stream %d packet %d was corrupted: %+v", ssrc, k, h)
			}
			if p.Readers == 1 && k != last+1 || k <= last {
				fail("stream %d: packet %d after %d", ssrc, k, last)
			}
			if seen[ssrc-1][k].Add(1) > 1 {
				fail("stream %d: packet %d twice", ssrc, k)
			}
			last = k
			if k%5 == 0 {
				keep = append(keep, kept{h, w})
				h = prtp.Header{}
			}
			if p.Jit > 0 && k%p.Jit == 0 {
				time.Sleep(time.Microsecond * time.Duration(k%50))
			}
			got[ssrc-1].Add(1)
			select {
			case wake <- struct{}{}:
			default:
			}
		}
		for _, x := range keep {
			if !eqHeader(x.h, x.w.Header) {
				fail("stream %d: a header read earlier changed: %+v", ssrc, x.h)
			}
		}
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		known := map[uint32]bool{}
		for {
			r, ssrc, err := s.AcceptStream()
			if err != nil {
				return
			}
			if known[ssrc] || ssrc < 1 || int(ssrc) > p.Streams {
				fail("stream %d accepted", ssrc)
				continue
			}
			known[ssrc] = true
			for range p.Readers {
				wg.Add(1)
				go reader(r, ssrc)
			}
		}
	}()
	dead := time.Now().Add(20 * time.Second)
	for k := 0; k < p.N; k++ {
		for si := range p.Streams {
			for k-int(got[si].Load()) >= p.Window && !failed() {
				select {
				case <-wake:
				case <-time.After(5 * time.Millisecond):
				}
				if time.Now().After(dead) {
					fail("stream %d: only %d of the %d packets were read", si+1, got[si].Load(), k)
				}
			}
			if failed() {
				break
			}
			raw, _ := c25Packet(uint32(si+1), k, p.Len, p.Ext, 0).Marshal()
			send(raw)
			if p.Junk && k%3 == 0 {
				send([]byte{0x80, 1, 2})
				send(make([]byte, 1600))
			}
		}
	}
	for si := range p.Streams {
		for int(got[si].Load()) < p.N && !failed() {
			time.Sleep(time.Millisecond)
			if time.Now().After(dead) {
				fail("stream %d: only %d of %d packets were read", si+1, got[si].Load(), p.N)
			}
		}
	}
	ch := make(chan struct{})
	go func() { _ = s.Close(); wg.Wait(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(20 * time.Second):
		return bad("goroutines still blocked 20 s after Close (%s)", viol)
	}
	if viol != "" {
		return bad("%s", viol)
	}
	return Out{NT: p.N >= 20}.cls(fmt.Sprintf("readers-%d", p.Readers), fmt.Sprintf("udp-%v", p.UDP))
}

// ---------------------------------------------------------------- C26

type c26wPlan struct {
	G    int   `json:"g"`
	N    int   `json:"n"`
	Len  []int `json:"len"`
	Ext  []int `json:"e"`
	CSRC []int `json:"c"`
	Fail int   `json:"fail"`
}

func c26Write(p c26wPlan) Out {
	conn := newC25Conn(0)
	conn.failAt = p.Fail
	conn.yield = func() { time.Sleep(0) }
	s := rtp.NewSession(logger.GetLogger(), conn)
	var wg sync.WaitGroup
	var mu sync.Mutex
	viol := ""
	fails := 0
	for g := range p.G {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := s.OpenWriteStream()
			for k := range p.N {
				if err != nil {
					break
				}
				pk := c25Packet(uint32(g+1), k, p.Len[(g+k)%len(p.Len)], p.Ext[(g+k)%len(p.Ext)], p.CSRC[(g+2*k)%len(p.CSRC)])
				hb, _ := pk.Header.Marshal()
				pb := bytes.Clone(pk.Payload)
				var n int
				n, err2 := w.WriteRTP(&pk.Header, pk.Payload)
				mu.Lock()
				if err2 != nil {
					fails++
					if !errors.Is(err2, errSink) {
						viol = fmt.Sprintf("WriteRTP: %v", err2)
					}
				} else if n != len(hb)+len(pb) && n != len(pb) {
					viol = fmt.Sprintf("WriteRTP returned %d for a packet of %d+%d bytes", n, len(hb), len(pb))
				}
				ha, _ := pk.Header.Marshal()
				if !bytes.Equal(ha, hb) || !bytes.Equal(pb, pk.Payload) {
					viol = "WriteRTP changed its arguments"
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if viol != "" {
		return bad("%s", viol)
	}
	if wf := p.Fail >= 0 && p.Fail < p.G*p.N; (fails == 1) != wf || fails > 1 {
		return bad("%d writes reported an error", fails)
	}
	seen := map[[2]int]bool{}
	lastOf := map[int]int{}
	for _, raw := range conn.out {
		var q prtp.Packet
		if err := q.Unmarshal(bytes.Clone(raw)); err != nil {
			return bad("a written datagram does not parse: %v", err)
		}
		g, k := int(q.SSRC)-1, int(q.Timestamp/160)
		if g < 0 || g >= p.G || k >= p.N || seen[[2]int{g, k}] {
			return bad("datagram of stream %d packet %d: unknown or written twice", g, k)
		}
		seen[[2]int{g, k}] = true
		pk := c25Packet(uint32(g+1), k, p.Len[(g+k)%len(p.Len)], p.Ext[(g+k)%len(p.Ext)], p.CSRC[(g+2*k)%len(p.CSRC)])
		want, _ := pk.Marshal()
		if !bytes.Equal(raw, want) {
			return bad("datagram of stream %d packet %d: %s", g, k, diffAt(raw, want))
		}
		if l, ok := lastOf[g]; ok && l >= k {
			return bad("packet %d of goroutine %d after %d", k, g, l)
		}
		lastOf[g] = k
	}
	if len(conn.out) != p.G*p.N-fails {
		return bad("%d datagrams for %d packets", len(conn.out), p.G*p.N)
	}
	conn.closeErr = errSink
	if err := s.Close(); !errors.Is(err, errSink) {
		return bad("Close returned %v, the connection failed to close with %v", err, errSink)
	}
	if w, err := s.OpenWriteStream(); err == nil {
		pk := c25Packet(1, 1, 10, 0, 0)
		if _, err = w.WriteRTP(&pk.Header, pk.Payload); err == nil {
			return bad("WriteRTP succeeded after Close")
		}
	}
	if n := conn.closes.Load(); n != 1 {
		return bad("the connection was closed %d times", n)
	}
	return Out{NT: p.G > 1 && p.N > 1}
}

type c26cPlan struct {
	Streams   int  `json:"streams"`
	Readers   int  `json:"readers"`
	Acceptors int  `json:"acceptors"`
	Senders   int  `json:"senders"`
	Delay     int  `json:"us"` // close after that many microseconds
	Packets   int  `json:"n"`  // or after that many packets
	Closers   int  `json:"closers"`
	Slow      int  `json:"slow"` // readers pause that many microseconds
	Len       int  `json:"len"`
	Stop      bool `json:"stop"` // acceptors stop before Close
	SRTP      bool `json:"srtp"`
}

// c26Wire is the sending end of a connection: what is written there is read from to.
type c26Wire struct {
	*c25Conn
	to *c25Conn
}

func (c c26Wire) Write(p []byte) (int, error) {
	select {
	case c.to.in <- bytes.Clone(p):
		return len(p), nil
	case <-c.done:
		return 0, errC25Closed
	}
}

func c26Close(p c26cPlan) Out {
	conn := newC25Conn(4)
	s := rtp.NewSession(logger.GetLogger(), conn)
	wire := c26Wire{newC25Conn(0), conn}
	peer := rtp.NewSession(logger.GetLogger(), wire)
	if p.SRTP {
		keys := srtp.SessionKeys{LocalMasterKey: c04Bytes(1, 16), LocalMasterSalt: c04Bytes(2, 14), RemoteMasterKey: c04Bytes(3, 16), RemoteMasterSalt: c04Bytes(4, 14)}
		prof, _ := srtp.ProtectionProfile("AES_CM_128_HMAC_SHA1_80").Parse()
		lf := logging.NewDefaultLoggerFactory()
		lf.DefaultLogLevel = logging.LogLevelDisabled
		var err error
		if s, err = srtp.NewSession(logger.GetLogger(), conn, &srtp.Config{Keys: keys, Profile: prof, LoggerFactory: lf}); err != nil {
			return bad("NewSession: %v", err)
		}
		keys.LocalMasterKey, keys.RemoteMasterKey = keys.RemoteMasterKey, keys.LocalMasterKey
		keys.LocalMasterSalt, keys.RemoteMasterSalt = keys.RemoteMasterSalt, keys.LocalMasterSalt
		if peer, err = srtp.NewSession(logger.GetLogger(), wire, &srtp.Config{Keys: keys, Profile: prof, LoggerFactory: lf}); err != nil {
			return bad("NewSession: %v", err)
		}
	}
	out, err := peer.OpenWriteStream()
	if err != nil {
		return bad("OpenWriteStream: %v", err)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	viol := ""
	fail := func(f string, a ...any) { mu.Lock(); viol = fmt.Sprintf(f, a...); mu.Unlock() }
	var sent, read, closedBy atomic.Int32
	var all []rtp.ReadStream
	reader := func(r rtp.ReadStream, ssrc uint32) {
		defer wg.Done()
		buf := make([]byte, 1500)
		var h prtp.Header
		for {
			n, err := r.ReadRTP(&h, buf)
			if err != nil {
				return
			}
			w := c25Packet(ssrc, int(h.Timestamp/160), p.Len, 0, 0)
			if p.SRTP {
				w.SequenceNumber = h.SequenceNumber
			}
			if !eqHeader(h, w.Header) || !bytes.Equal(buf[:n], w.Payload) {
				fail("stream %d: corrupted packet %+v", ssrc, h)
			}
			read.Add(1)
			if p.Slow > 0 {
				time.Sleep(time.Duration(p.Slow) * time.Microsecond)
			}
		}
	}
	for range p.Acceptors {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				late := closedBy.Load() == int32(p.Closers)
				r, ssrc, err := s.AcceptStream()
				if err != nil {
					return
				}
				if late {
					fail("AcceptStream returned stream %d after Close returned", ssrc)
				}
				mu.Lock()
				all = append(all, r)
				mu.Unlock()
				for range p.Readers {
					wg.Add(1)
					go reader(r, ssrc)
				}
				if p.Stop && int(ssrc) == p.Streams {
					return
				}
			}
		}()
	}
	var sw sync.WaitGroup
	for g := range p.Senders {
		sw.Add(1)
		go func() {
			defer sw.Done()
			for k := 0; ; k++ {
				for si := range p.Streams {
					pk := c25Packet(uint32(si+1), k*p.Senders+g, p.Len, 0, 0)
					if p.SRTP {
						pk.SequenceNumber = uint16(k*p.Senders + g) // the sender's rollover counter needs that
					}
					if _, err := out.WriteRTP(&pk.Header, pk.Payload); err != nil {
						return
					}
					sent.Add(1)
				}
			}
		}()
	}
	t0 := time.Now()
	for time.Since(t0) < time.Duration(p.Delay)*time.Microsecond && (p.Senders == 0 || int(sent.Load()) < p.Packets) {
		time.Sleep(20 * time.Microsecond)
	}
	for range p.Closers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = s.Close()
			closedBy.Add(1)
		}()
	}
	ch := make(chan struct{})
	go func() { wg.Wait(); close(ch) }()
	hang := false
	select {
	case <-ch:
	case <-time.After(20 * time.Second):
		hang = true
	}
	go peer.Close()
	sw.Wait()
	if hang {
		return bad("goroutines are still blocked 20 s after Close")
	}
	// Later calls fail, once what had been received is read.
	late := make(chan string, 1)
	go func() {
		if _, _, err := s.AcceptStream(); err == nil {
			late <- "AcceptStream succeeded after Close"
			return
		}
		buf := make([]byte, 1500)
		var h prtp.Header
		for _, r := range all {
			good := 0
			for range 3000 {
				n, err := r.ReadRTP(&h, buf)
				if err == nil {
					good++ // received before
				} else if !errors.Is(err, io.EOF) || n != 0 {
					late <- fmt.Sprintf("ReadRTP after Close: %d, %v", n, err)
					return
				}
			}
			if good > 2900 {
				late <- "ReadRTP keeps succeeding after Close"
				return
			}
		}
		if err := s.Close(); err != nil {
			late <- fmt.Sprintf("second Close: %v", err)
			return
		}
		late <- ""
	}()
	select {
	case w := <-late:
		if w != "" {
			return bad("%s", w)
		}
	case <-time.After(20 * time.Second):
		return bad("a call after Close is blocked")
	}
	if viol != "" {
		return bad("%s", viol)
	}
	if n := conn.closes.Load(); n != 1 {
		return bad("the connection was closed %d times", n)
	}
	return Out{NT: read.Load() > 0 && sent.Load() > read.Load()}.cls(fmt.Sprintf("srtp-%v", p.SRTP))
}

func init() {
	reg("C25", "model", opts{sec: [2]float64{8, 120}, rule: "at least three packets were read"},
		func(t *rapid.T) c25Plan {
			p := c25Plan{SSRC: rapid.SliceOfNDistinct(rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, 0xffffffff})), 1, 4, rapid.ID[uint32]).Draw(t, "ssrc")}
			n := rapid.IntRange(1, 40).Draw(t, "ops")
			most := rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "crowd")
			for range n {
				if most > 0 && rapid.IntRange(0, 7).Draw(t, "new?") == 0 {
					most--
					for range rapid.SampledFrom([]int{1, 3, 20, 60}).Draw(t, "newcomers") {
						p.Ops = append(p.Ops, c25Op{Op: "new", Len: 20})
					}
				}
				o := c25Op{Op: rapid.SampledFrom([]string{"send", "send", "send", "read", "read", "read", "read", "junk"}).Draw(t, "op")}
				switch o.Op {
				case "send":
					o.S = rapid.IntRange(0, 3).Draw(t, "s")
					o.N = rapid.SampledFrom([]int{1, 1, 1, 2, 5, 12}).Draw(t, "n")
					o.Len = rapid.OneOf(rapid.IntRange(0, 200), rapid.SampledFrom([]int{0, 1, 1400})).Draw(t, "len")
					o.Ext = rapid.SampledFrom([]int{0, 0, 1, 4, 16}).Draw(t, "e")
					o.CSRC = rapid.SampledFrom([]int{0, 0, 1, 15}).Draw(t, "c")
					if o.Len == 1400 && rapid.Bool().Draw(t, "full") {
						o.Ext, o.CSRC, o.Len = 0, 0, 1488 // exactly the MTU
					}
				case "read":
					o.S = rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 3), rapid.IntRange(0, 300)).Draw(t, "s")
					o.Len = rapid.OneOf(rapid.Just(1500), rapid.IntRange(0, 200)).Draw(t, "len")
				case "junk":
					switch rapid.IntRange(0, 2).Draw(t, "kind") {
					case 0:
						o.Raw = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "raw")
					case 1: // oversize, but valid otherwise
						o.Raw, _ = c25Packet(p.SSRC[0], 999, rapid.SampledFrom([]int{1489, 1490, 2000}).Draw(t, "len"), 0, 0).Marshal()
					case 2: // cut short
						raw, _ := c25Packet(p.SSRC[0], 999, 0, 4, 2).Marshal()
						o.Raw = raw[:rapid.IntRange(0, 20).Draw(t, "cut")]
					}
				}
				p.Ops = append(p.Ops, o)
			}
			p.Ops = laps(t, p.Ops, 1500)
			return p
		}, c25Run)
	reg("C25", "concurrent", opts{build: "both", racy: true, reps: 40, sec: [2]float64{5, 60}, hang: 60 * time.Second, rule: "at least 20 packets per stream"},
		func(t *rapid.T) c25rPlan {
			return c25rPlan{
				Streams: rapid.IntRange(1, 3).Draw(t, "streams"),
				N:       rapid.IntRange(5, 400).Draw(t, "n"),
				Window:  rapid.IntRange(1, 9).Draw(t, "w"),
				Len:     rapid.SampledFrom([]int{1, 20, 160, 1200}).Draw(t, "len"),
				Ext:     rapid.SampledFrom([]int{0, 0, 4}).Draw(t, "e"),
				Readers: rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "readers"),
				Junk:    rapid.Bool().Draw(t, "junk"),
				Jit:     rapid.SampledFrom([]int{0, 0, 1, 2, 7}).Draw(t, "jit"),
				UDP:     rapid.IntRange(0, 3).Draw(t, "udp") == 0,
			}
		}, c25Stress)
	reg("C26", "write", opts{build: "both", racy: true, reps: 20, sec: [2]float64{4, 40}, rule: "several goroutines with several packets each"},
		func(t *rapid.T) c26wPlan {
			p := c26wPlan{G: rapid.IntRange(1, 6).Draw(t, "g"), N: rapid.IntRange(1, 40).Draw(t, "n"), Fail: -1}
			p.Len = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 300), rapid.SampledFrom([]int{0, 1, 160, 1400, 9000})), 1, 6).Draw(t, "len")
			p.Ext = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 5, 16}), 1, 4).Draw(t, "e")
			p.CSRC = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 2, 15}), 1, 4).Draw(t, "c")
			if rapid.IntRange(0, 3).Draw(t, "fail?") == 0 {
				p.Fail = rapid.IntRange(0, 40).Draw(t, "fail")
			}
			return p
		}, c26Write)
	reg("C26", "close", opts{build: "both", racy: true, reps: 100, sec: [2]float64{6, 80}, hang: 100 * time.Second, rule: "packets were read, and some were in flight at Close"},
		func(t *rapid.T) c26cPlan {
			return c26cPlan{
				Streams:   rapid.IntRange(1, 3).Draw(t, "streams"),
				Readers:   rapid.IntRange(0, 2).Draw(t, "readers"),
				Acceptors: rapid.SampledFrom([]int{1, 1, 1, 2, 0}).Draw(t, "acceptors"),
				Senders:   rapid.IntRange(0, 3).Draw(t, "senders"),
				Delay:     rapid.SampledFrom([]int{0, 50, 200, 1000, 3000}).Draw(t, "us"),
				Packets:   rapid.IntRange(0, 200).Draw(t, "n"),
				Closers:   rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "closers"),
				Slow:      rapid.SampledFrom([]int{0, 0, 1, 30}).Draw(t, "slow"),
				Len:       rapid.SampledFrom([]int{1, 160}).Draw(t, "len"),
				Stop:      rapid.IntRange(0, 5).Draw(t, "stop") == 0,
				SRTP:      rapid.Bool().Draw(t, "srtp"),
			}
		}, c26Close)
}
