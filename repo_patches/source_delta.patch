From 64d82824fd9c67b951d39800c8ef6b86a148dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 01/36] fix: avoid int16 overflow when averaging stereo samples
 in StereoToMono

---
 pcm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcm.go b/pcm.go
index 7e374ab..3b79464 100644
--- a/pcm.go
+++ b/pcm.go
@@ -228,6 +228,7 @@ func StereoToMono(dst, src PCM16Sample) {
 	}
 	// average stereo samples to mono
 	for i := range n {
-		dst[i] = (src[i*2+0] + src[i*2+1]) / 2
+		// sum of two samples may not fit int16
+		dst[i] = int16((int32(src[i*2+0]) + int32(src[i*2+1])) / 2)
 	}
 }
-- 
2.43.0


From eeec7132499d2b9250988d9865503cde2af3edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 02/36] fix: do not drop input in the resampler when the output
 buffer is filled

soxr may consume only a part of the input if the output slice is full, and
the rest of that input was silently lost, making output length and content
depend on how the input was split. Also flush everything on close.
---
 resample_soxr.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index c290992..6e9c11c 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -162,7 +162,10 @@ type soxrResampler struct {
 	srcRate int
 	dstRate int
 	maxIn   int
-	done    *atomic.Bool
+	// Total number of samples consumed and produced so far.
+	totalIn  int
+	totalOut int
+	done     *atomic.Bool
 }
 
 func soxrErr(e C.soxr_error_t) error {
@@ -230,16 +233,18 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 			1024,
 		)
 	}
-	// Make sure output has space for new samples. Length is still unchanged.
-	out = slices.Grow(out, dstN)
-	// Slice for the unused capacity, which we will write into.
-	dst := out[len(out) : len(out)+dstN]
+	flush := len(in) == 0
+	r.totalIn += len(in)
 	total := 0
 	// Always call at least once (for flush to work), thus not considering len(in) here.
-	for len(dst) > 0 {
+	for {
+		// Make sure output has space for new samples. Length is still unchanged.
+		out = slices.Grow(out, dstN)
+		// Slice for the unused capacity, which we will write into.
+		dst := out[len(out) : len(out)+dstN]
 		var read, done C.size_t
 		var e C.soxr_error_t
-		if len(in) != 0 {
+		if !flush {
 			e = C.soxr_process(r.ptr, C.soxr_in_t(unsafe.Pointer(&in[0])), C.size_t(len(in)), &read, C.soxr_out_t(unsafe.Pointer(&dst[0])), C.size_t(len(dst)), &done)
 		} else {
 			// Flush, no input.
@@ -251,13 +256,23 @@ func (r *soxrResampler) Resample(out PCM16Sample, in PCM16Sample) (PCM16Sample,
 			return out, 0, err
 		}
 		total += int(done)
-		dst = dst[done:]
+		// Adjust the length to cover written data.
+		out = out[:len(out)+int(done)]
 		in = in[read:]
-		if len(in) == 0 {
-			break
+		if read == 0 && done == 0 {
+			break // flushed everything
+		}
+		if !flush && len(in) == 0 {
+			break // all the input is consumed
+		}
+	}
+	r.totalOut += total
+	if flush {
+		// The final partial sample is rounded up by soxr. Drop it.
+		if extra := r.totalOut - (r.totalIn*r.dstRate)/r.srcRate; extra > 0 && extra <= total {
+			out = out[:len(out)-extra]
+			total -= extra
 		}
 	}
-	// Finally adjust the length to cover written data.
-	out = out[:len(out)+total]
 	return out, total, nil
 }
-- 
2.43.0


From 1f0b9a51b7f416061b98cc7822da300009a50b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 03/36] fix: do not free static error strings of soxr

A resampler with invalid rates crashed the process with "free(): invalid
pointer" instead of the error.
---
 resample_soxr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index 6e9c11c..071d245 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -172,7 +172,7 @@ func soxrErr(e C.soxr_error_t) error {
 	if e == nil {
 		return nil
 	}
-	defer C.free(unsafe.Pointer(e))
+	// Errors are static strings, they must not be freed.
 	estr := C.GoString(e)
 	switch estr {
 	case "", "0":
-- 
2.43.0


From 16f27bbffd0461605e9073bb53b71c3fc58ffd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 04/36] fix: return the write error when closing the resample
 writer

---
 resample_soxr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resample_soxr.go b/resample_soxr.go
index 071d245..b12ab31 100644
--- a/resample_soxr.go
+++ b/resample_soxr.go
@@ -106,7 +106,7 @@ func (w *resampleWriter) Close() error {
 	// Close soxr resampler.
 	_ = w.r.Close()
 	// Flush our own PCM frame buffer to the underlying writer.
-	_ = w.flush(0)
+	err = w.flush(0)
 	err2 := w.w.Close()
 	if err2 != nil {
 		err = err2
-- 
2.43.0


From 5f356896f199e652ffd3ba650e809eee13b39b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 05/36] fix: allow DTMF writes without an event stream

Write panicked on a nil event stream, although it is checked for everywhere else.
---
 dtmf/dtmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dtmf/dtmf.go b/dtmf/dtmf.go
index b9d0e86..2b7849e 100644
--- a/dtmf/dtmf.go
+++ b/dtmf/dtmf.go
@@ -223,7 +223,9 @@ func Write(ctx context.Context, audio media.Writer[media.PCM16Sample], events *r
 		}
 	}
 
-	events.ResetTimestamp(startTs)
+	if events != nil {
+		events.ResetTimestamp(startTs)
+	}
 
 	for {
 		select {
-- 
2.43.0


From 5e69ba7494b28d30c6b18174e7a380d8af7af732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 06/36] fix: copy RTP packets kept in the jitter buffer

A reader that reuses its packet buffer (like all users of ReadStream) overwrote
the payload of packets that were still waiting for reordering.
---
 rtp/jitter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtp/jitter.go b/rtp/jitter.go
index a081891..2b11652 100644
--- a/rtp/jitter.go
+++ b/rtp/jitter.go
@@ -15,6 +15,7 @@
 package rtp
 
 import (
+	"slices"
 	"time"
 
 	"github.com/pion/rtp"
@@ -63,8 +64,9 @@ func (r *jitterHandler) handleRTP(p *rtp.Packet) {
 }
 
 func (r *jitterHandler) HandleRTP(h *rtp.Header, payload []byte) error {
+	// The packet may be kept in the buffer, while the caller is free to reuse both header and payload.
 	// This may call handleRTP, possibly multiple times.
-	r.buf.Push(&rtp.Packet{Header: *h, Payload: payload})
+	r.buf.Push(&rtp.Packet{Header: h.Clone(), Payload: slices.Clone(payload)})
 	select {
 	case err := <-r.err:
 		return err
-- 
2.43.0


From 80b5efb3d9dc462ab57b8962bfa0b43cbc02cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 07/36] fix: reset the discontinuity flag of recycled jitter
 buffer packets

A recycled packet kept the flag, so a frame could be emitted without waiting
for the packets missing before it, which were then dropped as late.
---
 jitter/packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jitter/packet.go b/jitter/packet.go
index 31e3181..60aee32 100644
--- a/jitter/packet.go
+++ b/jitter/packet.go
@@ -38,6 +38,7 @@ func (b *Buffer) newPacket(pkt *rtp.Packet, receivedAt time.Time) *packet {
 
 	p.prev = nil
 	p.next = nil
+	p.discont = false
 	p.start = b.depacketizer.IsPartitionHead(pkt.Payload)
 	p.end = b.depacketizer.IsPartitionTail(pkt.Marker, pkt.Payload)
 	p.extPacket = ExtPacket{receivedAt, pkt}
-- 
2.43.0


From a432842eceaac104a77c8ecdffe34c5ed298fdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 08/36] fix: wait for missing packets after a reordered start
 of a stream

When an earlier packet was put in front of the first one after a discontinuity,
that one kept its flag and did not wait for packets missing between the two.
---
 jitter/buffer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index ee0de74..2afd581 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -234,6 +234,7 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		p.discont = discont && p.start
 		b.head.prev = p
 		p.next = b.head
+		p.next.discont = false // continues p now
 		b.head = p
 
 	case afterTail && withinTailRange:
@@ -253,6 +254,9 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 				p.next = c.next
 				c.next.prev = p
 				c.next = p
+				if withinRange(pkt.SequenceNumber, p.next.extPacket.SequenceNumber) {
+					p.next.discont = false // continues p now
+				}
 				return
 			}
 		}
-- 
2.43.0


From 0f02e21b714cb12f6a3db61f5dcdead8d8660ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 09/36] fix: drop duplicates of packets waiting in the jitter
 buffer

A duplicate was queued again, emitted twice (or made its frame incomplete),
and counted as 65535 lost packets.
---
 jitter/buffer.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 2afd581..304b8fc 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -212,6 +212,17 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 		return
 	}
 
+	if b.contains(pkt.SequenceNumber) {
+		// duplicate
+		if !pkt.Padding {
+			b.stats.PacketsDropped++
+			if b.onPacketLoss != nil {
+				b.onPacketLoss(b.stats.PacketsLost, b.stats.PacketsDropped)
+			}
+		}
+		return
+	}
+
 	p := b.newPacket(pkt, receivedAt)
 
 	discont := !b.initialized || !withinRange(pkt.SequenceNumber, b.prevSN)
@@ -284,6 +295,20 @@ func (b *Buffer) push(pkt *rtp.Packet, receivedAt time.Time) {
 	}
 }
 
+// contains checks if a packet with this sequence number is waiting in the buffer
+func (b *Buffer) contains(sn uint16) bool {
+	for c := b.tail; c != nil; c = c.prev {
+		if c.extPacket.SequenceNumber == sn {
+			return true
+		}
+		if before(c.extPacket.SequenceNumber, sn) && withinRange(c.extPacket.SequenceNumber, sn) {
+			// everything else is even older
+			return false
+		}
+	}
+	return false
+}
+
 // popReady pushes all ready samples to the out channel
 func (b *Buffer) popReady() {
 	expiry := time.Now().Add(-b.latency)
-- 
2.43.0


From cca80133c99319d2ff08543e40e225f20b61e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 10/36] fix: drop incomplete packets exactly at the latency
 limit

The timer fires at that time. If the clock did not advance since, the packet
was kept and the timer re-armed with no delay, spinning.
---
 jitter/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jitter/buffer.go b/jitter/buffer.go
index 304b8fc..8b2b158 100644
--- a/jitter/buffer.go
+++ b/jitter/buffer.go
@@ -357,7 +357,7 @@ func (b *Buffer) dropIncompleteExpired(expiry time.Time) {
 func (b *Buffer) dropIncomplete(expiry time.Time, force bool) bool {
 	dropped := false
 
-	for b.head != nil && !b.head.isComplete() && (force || b.head.extPacket.ReceivedAt.Before(expiry)) {
+	for b.head != nil && !b.head.isComplete() && (force || !expiry.Before(b.head.extPacket.ReceivedAt)) {
 		if b.initialized && !b.head.discont {
 			b.stats.PacketsLost += uint64(b.head.extPacket.SequenceNumber - b.prevSN - 1)
 		}
-- 
2.43.0


From 88d5c88edf7098bc45260978cf8f6eef27e74ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 11/36] fix: keep order and content of RTP packets read while
 new ones arrive

A reader could take a queued packet while the accept loop was copying a newer
one to the same header and payload, which corrupted data, reordered packets
and left the accept loop blocked with the session lock held. Header extensions
also pointed to the read buffer of the session, which is reused.
---
 rtp/session.go | 67 +++++++++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index 9cfcbee..b366701 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -106,7 +106,7 @@ func (s *session) AcceptStream() (ReadStream, uint32, error) {
 			r = &readStream{
 				ssrc:   p.SSRC,
 				closed: closed,
-				copied: make(chan int),
+				copied: make(chan int, 1),
 				recv:   make(chan *rtp.Packet, 10),
 			}
 			s.bySSRC[p.SSRC] = r
@@ -159,30 +159,28 @@ func (w *writeStream) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
 type readStream struct {
 	ssrc uint32
 
-	closed  <-chan struct{}
-	recv    chan *rtp.Packet
-	copied  chan int
+	closed <-chan struct{}
+	recv   chan *rtp.Packet
+	copied chan int // signals that the pending read is complete
+
 	mu      sync.Mutex
-	hdr     *rtp.Header
+	hdr     *rtp.Header // pending read, if any
 	payload []byte
+	done    bool // pending read is complete
 }
 
 func (r *readStream) write(p *rtp.Packet) {
-	if enableZeroCopy {
-		r.mu.Lock()
-		h, payload := r.hdr, r.payload
-		r.hdr, r.payload = nil, nil
-		r.mu.Unlock()
-		if h != nil {
-			// zero copy
-			*h = p.Header
-			n := copy(payload, p.Payload)
-			select {
-			case <-r.closed:
-			case r.copied <- n:
-			}
-			return
-		}
+	// Header extensions point to the read buffer, which will be reused.
+	p.Header = p.Header.Clone()
+
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.hdr != nil && !r.done {
+		// zero copy
+		*r.hdr = p.Header
+		r.done = true
+		r.copied <- copy(r.payload, p.Payload)
+		return
 	}
 	p.Payload = slices.Clone(p.Payload)
 	select {
@@ -193,15 +191,20 @@ func (r *readStream) write(p *rtp.Packet) {
 
 func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 	direct := false
-	if enableZeroCopy {
-		r.mu.Lock()
-		if r.hdr == nil {
-			r.hdr = h
-			r.payload = payload
-			direct = true
-		}
+	r.mu.Lock()
+	select {
+	case p := <-r.recv:
+		// Packets in the queue are older than the ones that could be read directly.
 		r.mu.Unlock()
+		*h = p.Header
+		return copy(payload, p.Payload), nil
+	default:
+	}
+	if enableZeroCopy && r.hdr == nil {
+		r.hdr, r.payload = h, payload
+		direct = true
 	}
+	r.mu.Unlock()
 	if !direct {
 		select {
 		case p := <-r.recv:
@@ -215,17 +218,15 @@ func (r *readStream) ReadRTP(h *rtp.Header, payload []byte) (int, error) {
 	defer func() {
 		r.mu.Lock()
 		defer r.mu.Unlock()
-		if r.hdr == h {
-			r.hdr, r.payload = nil, nil
+		r.hdr, r.payload, r.done = nil, nil, false
+		select {
+		case <-r.copied: // closed, but the read has completed
+		default:
 		}
 	}()
 	select {
 	case n := <-r.copied:
 		return n, nil
-	case p := <-r.recv:
-		*h = p.Header
-		n := copy(payload, p.Payload)
-		return n, nil
 	case <-r.closed:
 	}
 	return 0, io.EOF
-- 
2.43.0


From 1ba1f1bc260c1254aa327e87c1750679d29d9fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 12/36] fix: copy header extensions of received SRTP packets

They pointed to the caller's buffer, which is overwritten by the payload.
---
 srtp/srtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 09de8e6..aab2895 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -166,7 +166,7 @@ func (r readStream) ReadRTP(h *prtp.Header, payload []byte) (int, error) {
 	if err = p.Unmarshal(buf[:n]); err != nil {
 		return 0, err
 	}
-	*h = p.Header
+	*h = p.Header.Clone() // extensions point to the buffer that is overwritten below
 	n = copy(payload, p.Payload)
 	return n, nil
 }
-- 
2.43.0


From f22f2595d7ed13564a0d8c4a14b7a19117c76ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 13/36] fix: do not panic on SDP connection lines without an
 address

---
 sdp/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/helpers.go b/sdp/helpers.go
index dc00686..a1890f1 100644
--- a/sdp/helpers.go
+++ b/sdp/helpers.go
@@ -44,7 +44,7 @@ func GetAudioDest(s *sdp.SessionDescription, audio *sdp.MediaDescription) (netip
 		ci = s.ConnectionInformation
 	}
 	var addr string
-	if ci != nil && ci.NetworkType == "IN" {
+	if ci != nil && ci.NetworkType == "IN" && ci.Address != nil {
 		addr = ci.Address.Address
 	} else if s.Origin.NetworkType == "IN" {
 		addr = s.Origin.UnicastAddress
-- 
2.43.0


From 8b918dee453a5cfc8ab95edca974e6fec8cd2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 14/36] fix: skip RTP payload types out of range in SDP

They were truncated to a byte, which selected a wrong codec or panicked for 255.
---
 rtp/codecs.go |  2 +-
 sdp/offer.go  | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/rtp/codecs.go b/rtp/codecs.go
index 7b0db70..e0adf85 100644
--- a/rtp/codecs.go
+++ b/rtp/codecs.go
@@ -28,7 +28,7 @@ var (
 )
 
 var (
-	codecByType [0xff]media.Codec
+	codecByType [0x100]media.Codec
 )
 
 func init() {
diff --git a/sdp/offer.go b/sdp/offer.go
index 3bb1809..cc658b6 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -510,6 +510,12 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 	}, nil
 }
 
+// parsePayloadType parses RTP payload type, which is a 7-bit value.
+func parsePayloadType(s string) (byte, error) {
+	typ, err := strconv.ParseUint(s, 10, 7)
+	return byte(typ), err
+}
+
 func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 	var out MediaDesc
 	for _, m := range d.Attributes {
@@ -519,18 +525,18 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 			if len(sub) != 2 {
 				continue
 			}
-			typ, err := strconv.Atoi(sub[0])
+			typ, err := parsePayloadType(sub[0])
 			if err != nil {
 				continue
 			}
 			name := sub[1]
 			if name == dtmf.SDPName || name == dtmf.SDPName+"/1" {
-				out.DTMFType = byte(typ)
+				out.DTMFType = typ
 				continue
 			}
 			codec, _ := CodecByName(name).(rtp.AudioCodec)
 			out.Codecs = append(out.Codecs, CodecInfo{
-				Type:  byte(typ),
+				Type:  typ,
 				Codec: codec,
 			})
 		case "crypto":
@@ -544,16 +550,16 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 		}
 	}
 	for _, f := range d.MediaName.Formats {
-		typ, err := strconv.Atoi(f)
+		typ, err := parsePayloadType(f)
 		if err != nil {
 			continue
 		}
-		codec, _ := rtp.CodecByPayloadType(byte(typ)).(rtp.AudioCodec)
+		codec, _ := rtp.CodecByPayloadType(typ).(rtp.AudioCodec)
 		if !media.CodecEnabled(codec) {
 			codec = nil
 		}
 		out.Codecs = append(out.Codecs, CodecInfo{
-			Type:  byte(typ),
+			Type:  typ,
 			Codec: codec,
 		})
 	}
-- 
2.43.0


From 9992917be7a4071ee48361b4c75d96ac37070e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 15/36] fix: reject crypto keys of invalid length in SDP

Keys that are too short caused a panic.
---
 sdp/offer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index cc658b6..57df909 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -498,6 +498,13 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		if err != nil {
 			return nil, err
 		}
+		saltLen, err := sp.SaltLen()
+		if err != nil {
+			return nil, err
+		}
+		if len(keys) != keyLen+saltLen {
+			return nil, fmt.Errorf("invalid crypto key length for %s: %d", prof, len(keys))
+		}
 		keys, salt = keys[:keyLen], keys[keyLen:]
 	}
 	return &srtp.Profile{
-- 
2.43.0


From 63ff63c38e15cd512cca22cd3f204ae08ffb73cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 16/36] fix: accept MKI of 8 bytes in SDP

---
 sdp/offer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 57df909..cc5d741 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -434,8 +434,8 @@ func parseMKI(s string) ([]byte, error) {
 	if length == 0 || length > 8 {
 		return nil, fmt.Errorf("supported MKI length between 1 and 8 bytes, got %d", length)
 	}
-	maxValue := uint64(1) << (length * 8)
-	if value >= maxValue {
+	// note that 8 bytes fit any value
+	if value>>(length*8) != 0 {
 		return nil, fmt.Errorf("value %d is too large for %d bytes", value, length)
 	}
 
-- 
2.43.0


From d599cb256c572339de857f33719dec2eb4a07123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 17/36] fix: accept MKI without lifetime in SDP

See RFC4568, section 6.1: inline:...|1066:4
---
 sdp/offer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index cc5d741..41d9435 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -466,6 +466,10 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 	// Split by '|' per RFC 4568 6.1
 	parts := strings.Split(skey, "|")
 	keyMaterial := parts[0] // First part is always the base64-encoded key+salt
+	if len(parts) == 2 && strings.Contains(parts[1], ":") {
+		// Lifetime is optional, MKI may follow the key directly
+		parts = []string{keyMaterial, "", parts[1]}
+	}
 
 	keys, err := base64.RawStdEncoding.DecodeString(keyMaterial)
 	if err != nil {
-- 
2.43.0


From 0a531e2c077194465609f95d9586f0430c65fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 18/36] fix: match the name of DTMF codec in SDP
 case-insensitively

---
 sdp/offer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 41d9435..9ad7043 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -541,7 +541,7 @@ func ParseMedia(d *sdp.MediaDescription) (*MediaDesc, error) {
 				continue
 			}
 			name := sub[1]
-			if name == dtmf.SDPName || name == dtmf.SDPName+"/1" {
+			if strings.EqualFold(name, dtmf.SDPName) || strings.EqualFold(name, dtmf.SDPName+"/1") {
 				out.DTMFType = typ
 				continue
 			}
-- 
2.43.0


From 0bb24ec700be3fe74d9f6d44a640a05d292ae61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 19/36] fix: listen on IPv6 and unspecified addresses with a
 listen config

---
 rtp/listen.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rtp/listen.go b/rtp/listen.go
index 3c0084a..788a4e4 100644
--- a/rtp/listen.go
+++ b/rtp/listen.go
@@ -17,10 +17,10 @@ package rtp
 import (
 	"context"
 	"errors"
-	"fmt"
 	"math/rand"
 	"net"
 	"net/netip"
+	"strconv"
 	"syscall"
 )
 
@@ -71,9 +71,12 @@ func ListenUDPPortRange(portMin, portMax int, ip netip.Addr) (*net.UDPConn, erro
 
 func ListenUDPPortRangeWithConfig(portMin, portMax int, ip netip.Addr, lc *net.ListenConfig) (*net.UDPConn, error) {
 	ctx := context.Background() // ctx is only used to resolve domain names, which we don't use here.
-	ipStr := ip.String()
+	ipStr := "" // any address
+	if ip.IsValid() {
+		ipStr = ip.String()
+	}
 	return bindRange(portMin, portMax, ip, func(port int, ip netip.Addr) (*net.UDPConn, error) {
-		conn, err := lc.ListenPacket(ctx, "udp", fmt.Sprintf("%s:%d", ipStr, port))
+		conn, err := lc.ListenPacket(ctx, "udp", net.JoinHostPort(ipStr, strconv.Itoa(port)))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7cf5c98af4b67a970d13221f93a412c0312ffc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 20/36] fix: unblock everything when an SRTP session is closed

Blocked readers were never released, and Close itself could wait forever for
the read loop if a new stream was not accepted yet.
---
 srtp/srtp.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index aab2895..94a7bf9 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -18,7 +18,9 @@ import (
 	"crypto/rand"
 	"fmt"
 	"net"
+	"sync"
 
+	"github.com/frostbyte73/core"
 	prtp "github.com/pion/rtp"
 	"github.com/pion/srtp/v3"
 
@@ -116,8 +118,12 @@ func NewSession(log logger.Logger, conn net.Conn, conf *Config) (rtp.Session, er
 }
 
 type session struct {
-	log logger.Logger
-	s   *srtp.SessionSRTP
+	log    logger.Logger
+	s      *srtp.SessionSRTP
+	closed core.Fuse
+
+	mu      sync.Mutex
+	streams []*srtp.ReadStreamSRTP
 }
 
 func (s *session) OpenWriteStream() (rtp.WriteStream, error) {
@@ -133,11 +139,36 @@ func (s *session) AcceptStream() (rtp.ReadStream, uint32, error) {
 	if err != nil {
 		return nil, 0, err
 	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.closed.IsBroken() {
+		_ = r.Close()
+	}
+	s.streams = append(s.streams, r)
 	return readStream{r: r}, ssrc, nil
 }
 
 func (s *session) Close() error {
-	return s.s.Close()
+	if !s.closed.Break() {
+		return nil
+	}
+	// Read loop may be waiting for a new stream to be accepted, and the session waits for it when closing.
+	go func() {
+		for {
+			if _, _, err := s.s.AcceptStream(); err != nil {
+				return
+			}
+		}
+	}()
+	err := s.s.Close()
+
+	// The session doesn't close its streams, which leaves the readers blocked.
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	for _, r := range s.streams {
+		_ = r.Close()
+	}
+	return err
 }
 
 type writeStream struct {
-- 
2.43.0


From 3f594a4d4a18311ea1fb2fb698304e829ed2ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 21/36] fix: do not leave the mixer blocked on its output
 channel after Stop

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 9ed82e8..1649045 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -226,7 +226,10 @@ func (m *Mixer) mixOnce() {
 			m.stats.BlockedMixes.Add(1)
 			// Blocking, mimics behavior witohut channel
 			// TODO: Consider, carefully, dropping when blocked
-			m.outchan <- out
+			select {
+			case m.outchan <- out:
+			case <-m.stopped.Watch(): // The writer is gone, nobody will read the channel
+			}
 		}
 	}
 }
-- 
2.43.0


From 140508e5368c9a10f0084498ae4d89816ae8045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 22/36] fix: stop mixing missed frames after Stop

---
 mixer/mixer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index 1649045..b38312a 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -268,7 +268,7 @@ func (m *Mixer) mixUpdate() {
 		m.stats.TimingResets.Add(uint64(n))
 		m.lastMixEndTs = now
 	}
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && !m.stopped.IsBroken(); i++ {
 		m.mixOnce()
 	}
 }
-- 
2.43.0


From db9c01d85aa7de81e63ad9a17d57f07ec07343d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 23/36] fix: do not lose fractions of a millisecond in WebM
 frame times

---
 webm/writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm/writer.go b/webm/writer.go
index e07cc03..32835ee 100644
--- a/webm/writer.go
+++ b/webm/writer.go
@@ -57,7 +57,7 @@ type writer[T media.Frame] struct {
 	channels   int
 	sampleRate int
 	dur        time.Duration
-	ts         int64
+	ts         time.Duration
 	buf        []byte
 }
 
@@ -79,8 +79,8 @@ func (w *writer[T]) WriteSample(sample T) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.ws.Write(true, w.ts, slices.Clone(w.buf[:n]))
-	w.ts += w.dur.Milliseconds()
+	_, err = w.ws.Write(true, w.ts.Milliseconds(), slices.Clone(w.buf[:n]))
+	w.ts += w.dur
 	return err
 }
 
-- 
2.43.0


From 65aeb2d7cd503dcdafe9473e7ba84748c5fceefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 24/36] fix: read Ogg files with several channels in frames of
 full duration

---
 res/embed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/res/embed.go b/res/embed.go
index 7701362..2d2b03d 100644
--- a/res/embed.go
+++ b/res/embed.go
@@ -37,7 +37,7 @@ var WrongPinOgg []byte
 const SampleRate = 48000
 
 func ReadOggAudioFile(data []byte, sampleRate int, channels int) []media.PCM16Sample {
-	perFrame := sampleRate / media.DefFramesPerSec
+	perFrame := sampleRate / media.DefFramesPerSec * channels
 	r, err := oggvorbis.NewReader(bytes.NewReader(data))
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 2ef54ed5fe793c772b4be7cf59d21d251478c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 25/36] fix: do not accept SRTP streams on a closed session

---
 srtp/srtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srtp/srtp.go b/srtp/srtp.go
index 94a7bf9..b88a222 100644
--- a/srtp/srtp.go
+++ b/srtp/srtp.go
@@ -142,7 +142,7 @@ func (s *session) AcceptStream() (rtp.ReadStream, uint32, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 	if s.closed.IsBroken() {
-		_ = r.Close()
+		return nil, 0, net.ErrClosed
 	}
 	s.streams = append(s.streams, r)
 	return readStream{r: r}, ssrc, nil
-- 
2.43.0


From 7e9c8dc13de631e60fc6d900ea3c5076fbf564bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 26/36] fix: decode Opus packets longer than 20 ms

---
 opus/opus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opus/opus.go b/opus/opus.go
index b0dfb0a..f9ca0c4 100644
--- a/opus/opus.go
+++ b/opus/opus.go
@@ -150,7 +150,8 @@ func (d *decoder) resetForSample(in Sample) (int, error) {
 		}
 		d.dec = dec
 
-		d.buf = make([]int16, d.w.SampleRate()/rtp.DefFramesPerSec*channels)
+		// Opus packets hold up to 120 ms of audio.
+		d.buf = make([]int16, d.w.SampleRate()*120/1000*channels)
 		d.lastChannels = channels
 	}
 
-- 
2.43.0


From b369bcafb5ae5c5ba0e9201e04aaf6f7eea1f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 27/36] fix: lock the handlers that Mux.String reads

---
 rtp/mux.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/mux.go b/rtp/mux.go
index feaf724..893c55a 100644
--- a/rtp/mux.go
+++ b/rtp/mux.go
@@ -38,6 +38,8 @@ type Mux struct {
 }
 
 func (m *Mux) String() string {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	var buf strings.Builder
 	buf.WriteString("Mux")
 	for t, h := range m.static {
-- 
2.43.0


From 2d766910691077c08e089f02d1387952f7f381a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 28/36] fix: lock the inputs that Mixer.String counts

---
 mixer/mixer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixer/mixer.go b/mixer/mixer.go
index b38312a..9551dc7 100644
--- a/mixer/mixer.go
+++ b/mixer/mixer.go
@@ -346,7 +346,10 @@ func (m *Mixer) RemoveInput(inp *Input) {
 }
 
 func (m *Mixer) String() string {
-	return fmt.Sprintf("Mixer(%d) -> %s", len(m.inputs), m.out.String())
+	m.mu.Lock()
+	inputs := len(m.inputs)
+	m.mu.Unlock()
+	return fmt.Sprintf("Mixer(%d) -> %s", inputs, m.out.String())
 }
 
 func (m *Mixer) SampleRate() int {
-- 
2.43.0


From ff0a336feab009fb5d322cad51fe4625e32128fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:41 +0000
Subject: [PATCH 29/36] fix: keep a copy of the header in rtp.Buffer

CSRCs and extensions of the stored packets were shared with the caller's
header, which may be reused for the next packet.
---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 9e8de21..ad2ab41 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -100,7 +100,7 @@ func (b *Buffer) String() string {
 
 func (b *Buffer) WriteRTP(h *rtp.Header, payload []byte) (int, error) {
 	*b = append(*b, &rtp.Packet{
-		Header:  *h,
+		Header:  h.Clone(),
 		Payload: slices.Clone(payload),
 	})
 	return len(payload), nil
-- 
2.43.0


From e737fedd2e4069f4e6423d43daf1b08dd7a4a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:41 +0000
Subject: [PATCH 30/36] fix: announce IPv6 addresses as IP6 in SDP

---
 sdp/offer.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 9ad7043..148c601 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -212,6 +212,14 @@ type Offer Description
 
 type Answer Description
 
+// addressType returns SDP address type for a given IP.
+func addressType(ip netip.Addr) string {
+	if ip.Is6() {
+		return "IP6"
+	}
+	return "IP4"
+}
+
 func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*Offer, error) {
 	sessId := rand.Uint64() // TODO: do we need to track these?
 
@@ -226,13 +234,13 @@ func NewOffer(publicIp netip.Addr, rtpListenerPort int, encrypted Encryption) (*
 			SessionID:      sessId,
 			SessionVersion: sessId,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
@@ -284,13 +292,13 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 			SessionID:      d.SDP.Origin.SessionID,
 			SessionVersion: d.SDP.Origin.SessionID + 2,
 			NetworkType:    "IN",
-			AddressType:    "IP4",
+			AddressType:    addressType(publicIp),
 			UnicastAddress: publicIp.String(),
 		},
 		SessionName: "LiveKit",
 		ConnectionInformation: &sdp.ConnectionInformation{
 			NetworkType: "IN",
-			AddressType: "IP4",
+			AddressType: addressType(publicIp),
 			Address:     &sdp.Address{Address: publicIp.String()},
 		},
 		TimeDescriptions: []sdp.TimeDescription{
-- 
2.43.0


From db4f2f3b63578b0f58f9c9801b0bb8dbdcca525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 31/36] fix: set the selected crypto profile in SDP answers

The profile was only written to the SDP, so applying the answer without
parsing it again failed or selected no encryption.
---
 sdp/offer.go | 56 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index 148c601..65a49cf 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -151,18 +151,18 @@ func OfferMedia(rtpListenerPort int, encrypted Encryption) (MediaDesc, *sdp.Medi
 	}
 
 	return MediaDesc{
-			Codecs:         codecs,
-			DTMFType:       dtmfType,
-			CryptoProfiles: cryptoProfiles,
-		}, &sdp.MediaDescription{
-			MediaName: sdp.MediaName{
-				Media:   "audio",
-				Port:    sdp.RangedPort{Value: rtpListenerPort},
-				Protos:  []string{"RTP", proto},
-				Formats: formats,
-			},
-			Attributes: attrs,
-		}, nil
+		Codecs:         codecs,
+		DTMFType:       dtmfType,
+		CryptoProfiles: cryptoProfiles,
+	}, &sdp.MediaDescription{
+		MediaName: sdp.MediaName{
+			Media:   "audio",
+			Port:    sdp.RangedPort{Value: rtpListenerPort},
+			Protos:  []string{"RTP", proto},
+			Formats: formats,
+		},
+		Attributes: attrs,
+	}, nil
 }
 
 func AnswerMedia(rtpListenerPort int, audio *AudioConfig, crypt *srtp.Profile) *sdp.MediaDescription {
@@ -284,6 +284,11 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 		return nil, nil, ErrNoCommonCrypto
 	}
 
+	var cryptoProfiles []srtp.Profile
+	if sprof != nil {
+		cryptoProfiles = []srtp.Profile{*sprof}
+	}
+
 	mediaDesc := AnswerMedia(rtpListenerPort, audio, sprof)
 	answer := sdp.SessionDescription{
 		Version: 0,
@@ -313,20 +318,21 @@ func (d *Offer) Answer(publicIp netip.Addr, rtpListenerPort int, enc Encryption)
 	}
 	src := netip.AddrPortFrom(publicIp, uint16(rtpListenerPort))
 	return &Answer{
-			SDP:  answer,
-			Addr: src,
-			MediaDesc: MediaDesc{
-				Codecs: []CodecInfo{
-					{Type: audio.Type, Codec: audio.Codec},
-				},
-				DTMFType: audio.DTMFType,
+		SDP:  answer,
+		Addr: src,
+		MediaDesc: MediaDesc{
+			Codecs: []CodecInfo{
+				{Type: audio.Type, Codec: audio.Codec},
 			},
-		}, &MediaConfig{
-			Local:  src,
-			Remote: d.Addr,
-			Audio:  *audio,
-			Crypto: sconf,
-		}, nil
+			DTMFType:       audio.DTMFType,
+			CryptoProfiles: cryptoProfiles,
+		},
+	}, &MediaConfig{
+		Local:  src,
+		Remote: d.Addr,
+		Audio:  *audio,
+		Crypto: sconf,
+	}, nil
 }
 
 func (d *Answer) Apply(offer *Offer, enc Encryption) (*MediaConfig, error) {
-- 
2.43.0


From e3505edf152a6cae847b0bcd3ab5b26202e7c36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 32/36] fix: ignore SDES crypto profiles with unsupported
 session parameters

They were taken as a part of the key, which failed the whole SDP.
---
 sdp/offer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sdp/offer.go b/sdp/offer.go
index 65a49cf..e71d025 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -477,6 +477,15 @@ func parseSRTPProfile(val string) (*srtp.Profile, error) {
 		return nil, nil // ignore
 	}
 
+	// Session parameters follow the key, see RFC 4568 6.3.
+	// None are supported, so the profile cannot be used if they are mandatory.
+	skey, params, _ := strings.Cut(skey, " ")
+	for _, p := range strings.Fields(params) {
+		if !strings.HasPrefix(p, "-") {
+			return nil, nil // ignore
+		}
+	}
+
 	// Split by '|' per RFC 4568 6.1
 	parts := strings.Split(skey, "|")
 	keyMaterial := parts[0] // First part is always the base64-encoded key+salt
-- 
2.43.0


From aadd38ff149e732bf1963d8c757e40046f8ef401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:14 +0000
Subject: [PATCH 33/36] fix: keep generated tones correct at large timestamps

The product of timestamp and frequency overflowed after some days.
---
 tones/tones.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tones/tones.go b/tones/tones.go
index 06ce9ef..841b697 100644
--- a/tones/tones.go
+++ b/tones/tones.go
@@ -28,6 +28,8 @@ type Hz uint32
 func Generate(buf media.PCM16Sample, ts, dur time.Duration, amp int16, freq []Hz) time.Duration {
 	for i := range buf {
 		phi := ts + (dur*time.Duration(i))/time.Duration(len(buf))
+		// All the tones repeat every second. This prevents an overflow in the product below.
+		phi %= time.Second
 		if len(freq) == 0 {
 			buf[i] = 0
 		} else {
-- 
2.43.0


From 854869d3f0043932864016cde6bd9445136239c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 34/36] fix: keep the zone of link-local addresses when
 listening

---
 rtp/listen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/listen.go b/rtp/listen.go
index 788a4e4..50a7a4c 100644
--- a/rtp/listen.go
+++ b/rtp/listen.go
@@ -64,7 +64,7 @@ func bindRange(portMin, portMax int, ip netip.Addr, create bindFunc) (*net.UDPCo
 
 func ListenUDPPortRange(portMin, portMax int, ip netip.Addr) (*net.UDPConn, error) {
 	return bindRange(portMin, portMax, ip, func(port int, ip netip.Addr) (*net.UDPConn, error) {
-		addr := &net.UDPAddr{IP: ip.AsSlice(), Port: port}
+		addr := &net.UDPAddr{IP: ip.AsSlice(), Port: port, Zone: ip.Zone()}
 		return net.ListenUDP("udp", addr)
 	})
 }
-- 
2.43.0


From 126f16bc3accac4e0511c4e0eb8f9e3a53c2498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:17 +0000
Subject: [PATCH 35/36] fix: stop forwarding when the jitter handler is closed

Packets that were still in the buffer, or came later, reached the closed handler.
---
 rtp/jitter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rtp/jitter.go b/rtp/jitter.go
index 2b11652..69cc951 100644
--- a/rtp/jitter.go
+++ b/rtp/jitter.go
@@ -16,6 +16,7 @@ package rtp
 
 import (
 	"slices"
+	"sync/atomic"
 	"time"
 
 	"github.com/pion/rtp"
@@ -46,6 +47,8 @@ type jitterHandler struct {
 	h   HandlerCloser
 	buf *jitter.Buffer
 	err chan error
+
+	closed atomic.Bool
 }
 
 func (r *jitterHandler) String() string {
@@ -53,6 +56,9 @@ func (r *jitterHandler) String() string {
 }
 
 func (r *jitterHandler) handleRTP(p *rtp.Packet) {
+	if r.closed.Load() {
+		return // the buffer may still be emitting packets
+	}
 	if err := r.h.HandleRTP(&p.Header, p.Payload); err != nil {
 		select {
 		case r.err <- err:
@@ -76,6 +82,7 @@ func (r *jitterHandler) HandleRTP(h *rtp.Header, payload []byte) error {
 }
 
 func (r *jitterHandler) Close() {
+	r.closed.Store(true)
 	r.buf.Close()
 	r.h.Close()
 }
-- 
2.43.0


From 9f6fe7e343d3c66333d3f38a7fdbf2eec28211b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 36/36] fix: order offered codecs whose priorities are far
 apart

The difference of the priorities may overflow, e.g. for a codec registered
with the maximal priority to prefer it over all others.
---
 sdp/offer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdp/offer.go b/sdp/offer.go
index e71d025..a33311e 100644
--- a/sdp/offer.go
+++ b/sdp/offer.go
@@ -15,6 +15,7 @@
 package sdp
 
 import (
+	"cmp"
 	"encoding/base64"
 	"encoding/binary"
 	"errors"
@@ -64,7 +65,7 @@ func OfferCodecs() []CodecInfo {
 				return 1
 			}
 		}
-		return bi.Priority - ai.Priority
+		return cmp.Compare(bi.Priority, ai.Priority)
 	})
 	infos := make([]CodecInfo, 0, len(codecs))
 	nextType := byte(dynamicType)
-- 
2.43.0

