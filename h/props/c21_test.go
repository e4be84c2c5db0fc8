package props

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"slices"
	"syscall"

	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/rtp"
	"github.com/pion/interceptor"
	"pgregory.net/rapid"
)

// C21: handling loop and media stream adaptors.

type c21Plan struct {
	Lens    []int `json:"lens"`
	HErr    int   `json:"herr"` // handler fails on this packet (1-based), 0 never
	Rate    int   `json:"rate"`
	Clock   int   `json:"clock"`
	Type    byte  `json:"type"`
	WErr    int   `json:"werr"`
	Delays  []int `json:"delays"`
	ReadErr int   `json:"re"` // which error value the reader ends with
	With    bool  `json:"with,omitempty"`
}

// c21Errs are the errors a reader may end with: some are temporary, but the loop does not retry.
var c21Errs = append(slices.Clone(sinkErrs),
	os.ErrDeadlineExceeded,
	context.DeadlineExceeded,
	context.Canceled,
	&net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded},
	&net.OpError{Op: "read", Net: "udp", Err: os.NewSyscallError("read", syscall.ECONNREFUSED)},
	syscall.EAGAIN,
	syscall.EINTR,
	io.ErrShortBuffer,
	io.ErrNoProgress,
)

type c21Reader struct {
	pkts []*rtp.Packet
	err  error
	n    int
	over int
	with bool // a packet is returned along with the error
}

func (r *c21Reader) ReadRTP() (*rtp.Packet, interceptor.Attributes, error) {
	if r.n >= len(r.pkts) {
		r.over++
		if r.with {
			// Not a packet that was read.
			return &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: 4711}, Payload: []byte{1}}, nil, r.err
		}
		return nil, nil, r.err
	}
	p := r.pkts[r.n]
	r.n++
	return p, nil, nil
}

type c21Handler struct {
	muxHandler
	failAt int
	closed []int // number of packets seen at each close
}

func (h *c21Handler) Close() { h.closed = append(h.closed, len(h.got)) }
func (h *c21Handler) HandleRTP(hd *rtp.Header, payload []byte) error {
	_ = h.muxHandler.HandleRTP(hd, payload)
	if len(h.got) == h.failAt {
		return h.err
	}
	return nil
}

func c21Run(p c21Plan) Out {
	mk := func() []*rtp.Packet {
		var pk []*rtp.Packet
		for i, n := range p.Lens {
			pl := make([]byte, n)
			for j := range pl {
				pl[j] = byte(i*13 + j)
			}
			pk = append(pk, &rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: byte(i % 128), SequenceNumber: uint16(65530 + i), Timestamp: uint32(i * 160), SSRC: uint32(i % 3), Marker: i%4 == 0, CSRC: []uint32{uint32(i)}}, Payload: pl})
		}
		return pk
	}
	want := mk()
	r := &c21Reader{pkts: mk(), err: c21Errs[p.ReadErr%len(c21Errs)], with: p.With}
	h := &c21Handler{failAt: p.HErr}
	h.err = sinkErrs[(p.ReadErr+len(p.Lens))%len(sinkErrs)]
	err := rtp.HandleLoop(r, h)
	n := len(want)
	wantErr := r.err
	if p.HErr > 0 && p.HErr <= n {
		n, wantErr = p.HErr, h.err
	}
	if err != wantErr {
		return bad("HandleLoop returned %v, want %v", err, wantErr)
	}
	if len(h.got) != n {
		return bad("%d packets handled, want %d", len(h.got), n)
	}
	if r.n != n || r.over > 1 {
		return bad("%d packets read, %d handled, %d reads after the error", r.n, n, r.over)
	}
	for i, g := range h.got {
		if !eqHeader(g.h, want[i].Header) || !eqSlice(g.p, want[i].Payload) {
			return bad("packet %d: %+v %x", i, g.h, g.p)
		}
	}
	if len(h.closed) != 1 || h.closed[0] != n {
		return bad("handler closed %d times, after %v packets", len(h.closed), h.closed)
	}
	// Non-closing adaptor and the nil function.
	h2 := &muxHandler{}
	nc := rtp.NewNopCloser(h2)
	nc.Close()
	if e := rtp.HandleLoop(&c21Reader{pkts: mk(), err: r.err}, nc); e != r.err || len(h2.got) != len(want) {
		return bad("no-op closer: %v after %d packets", e, len(h2.got))
	}
	if e := rtp.HandleLoop(&c21Reader{pkts: mk(), err: r.err}, rtp.NewNopCloser(rtp.HandlerFunc(nil))); e != r.err {
		return bad("nil handler function: %v", e)
	}
	calls := 0
	fn := rtp.HandlerFunc(func(hd *rtp.Header, pl []byte) error {
		calls++
		if !eqHeader(*hd, want[calls-1].Header) || !eqSlice(pl, want[calls-1].Payload) {
			return errors.New("wrong packet")
		}
		return nil
	})
	if e := rtp.HandleLoop(&c21Reader{pkts: mk(), err: r.err}, rtp.NewNopCloser(fn)); e != r.err || calls != len(want) {
		return bad("handler function: %v after %d packets", e, calls)
	}
	// Incoming media stream.
	in := &c11Bytes{rate: p.Rate}
	ms := rtp.NewMediaStreamIn[g711.ULawSample](c11BW[g711.ULawSample]{in})
	// Outgoing media stream.
	sink := &c19Sink{fail: map[int]bool{}}
	if p.WErr > 0 {
		sink.fail[p.WErr-1] = true
	}
	st := rtp.NewSeqWriter(sink).NewStream(p.Type, p.Clock)
	mo := rtp.NewMediaStreamOut[g711.ULawSample](st, p.Rate)
	if mo.SampleRate() != p.Rate {
		return bad("SampleRate=%d want %d", mo.SampleRate(), p.Rate)
	}
	var off int
	ts := uint32(0)
	for i, k := range want {
		in.err = nil
		if i+1 == p.WErr {
			in.err = errSink
		}
		e := ms.HandleRTP(&k.Header, k.Payload)
		if e != in.err {
			return bad("incoming stream: %v want %v", e, in.err)
		}
		if len(in.frames) != i+1 || in.frames[i] != len(k.Payload) || !eqSlice(in.got[off:], k.Payload) {
			return bad("incoming stream: packet %d of %d bytes written as %v", i, len(k.Payload), in.frames)
		}
		off += len(k.Payload)

		np := len(sink.pkts)
		e = mo.WriteSample(g711.ULawSample(k.Payload))
		if i+1 == p.WErr {
			if !errors.Is(e, errSink) || len(sink.pkts) != np {
				return bad("outgoing stream: %v", e)
			}
			continue
		}
		if e != nil || len(sink.pkts) != np+1 {
			return bad("outgoing stream: %v, %d packets", e, len(sink.pkts)-np)
		}
		o := sink.pkts[np]
		if o.h.Marker || o.h.PayloadType != p.Type || o.h.Timestamp != ts || !eqSlice(o.p, k.Payload) {
			return bad("outgoing packet %d: %+v, timestamp should be %d", i, o.h, ts)
		}
		ts += uint32(p.Clock / 50)
		if d := p.Delays[i%len(p.Delays)]; d > 0 {
			st.Delay(uint32(d))
			ts += uint32(d)
		}
	}
	if e := mo.Close(); e != nil {
		return bad("Close: %v", e)
	}
	return Out{NT: len(want) >= 3}
}

func init() {
	reg("C21", "loop", opts{sec: [2]float64{5, 60}, rule: "at least three packets"},
		func(t *rapid.T) c21Plan {
			return c21Plan{
				Lens:    laps(t, rapid.SliceOfN(rapid.IntRange(0, 40), 0, 30).Draw(t, "lens"), 3000),
				HErr:    rapid.SampledFrom([]int{0, 0, 1, 2, 5, 10, 20}).Draw(t, "herr"),
				Rate:    rapid.SampledFrom([]int{8000, 16000, 48000}).Draw(t, "rate"),
				Clock:   rapid.SampledFrom([]int{8000, 16000, 48000, 90000}).Draw(t, "clock"),
				Type:    byte(rapid.IntRange(0, 127).Draw(t, "type")),
				WErr:    rapid.SampledFrom([]int{0, 0, 1, 2, 7}).Draw(t, "werr"),
				Delays:  rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 160, 1}), 1, 3).Draw(t, "delays"),
				ReadErr: rapid.IntRange(0, len(c21Errs)-1).Draw(t, "re"),
				With:    rapid.Bool().Draw(t, "with"),
			}
		}, c21Run)
}
