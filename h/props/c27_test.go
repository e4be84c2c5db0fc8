package props

import (
	"bytes"
	"fmt"
	"slices"
	"sync"
	"testing/synctest"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/protocol/logger"
	"github.com/pion/logging"
	prtp "github.com/pion/rtp"
	psrtp "github.com/pion/srtp/v3"
	"pgregory.net/rapid"
)

// C27: SRTP sessions back to back, with an adversary on the wire.

var c27Suites = []struct {
	name           string
	ref            psrtp.ProtectionProfile
	key, salt, tag int
}{
	{"AES_CM_128_HMAC_SHA1_80", psrtp.ProtectionProfileAes128CmHmacSha1_80, 16, 14, 10},
	{"AES_CM_128_HMAC_SHA1_32", psrtp.ProtectionProfileAes128CmHmacSha1_32, 16, 14, 4},
	{"AES_256_CM_HMAC_SHA1_80", psrtp.ProtectionProfileAes256CmHmacSha1_80, 32, 14, 10},
	{"AES_256_CM_HMAC_SHA1_32", psrtp.ProtectionProfileAes256CmHmacSha1_32, 32, 14, 4},
}

type c27Msg struct {
	Dir  int `json:"dir"`
	S    int `json:"s"`
	Len  int `json:"len"`
	Ext  int `json:"e,omitempty"`
	CSRC int `json:"c,omitempty"`
	// ok, drop, late (one message later), twice, flip, cut, grow, swap (of the other direction)
	Net string `json:"net"`
	Pos int    `json:"pos,omitempty"`
}

type c27Plan struct {
	Suite int       `json:"suite"`
	MKI   [2][]byte `json:"mki"`
	Wrong int       `json:"wrong"` // 0: right keys, 1: other key, 2: other salt, 3: other MKI
	First uint16    `json:"first"`
	Msgs  []c27Msg  `json:"msgs"`
	Buf   int       `json:"buf"` // reader's buffer
}

type c27Got struct {
	h   prtp.Header
	p   []byte
	dir int
}

func c27Run(p c27Plan) Out {
	return bubble(func() Out {
		su := c27Suites[p.Suite%4]
		prof, err := srtp.ProtectionProfile(su.name).Parse()
		if err != nil {
			return bad("Parse(%s): %v", su.name, err)
		}
		keys := [2][2][]byte{{c04Bytes(1, su.key), c04Bytes(2, su.salt)}, {c04Bytes(3, su.key), c04Bytes(4, su.salt)}}
		lf := logging.NewDefaultLoggerFactory()
		lf.DefaultLogLevel = logging.LogLevelDisabled
		var conns [2]*c25Conn
		var ss [2]rtp.Session
		var ws [2]rtp.WriteStream
		for i := range 2 {
			conns[i] = newC25Conn(0)
			c := &srtp.Config{Profile: prof, LoggerFactory: lf, Keys: srtp.SessionKeys{
				LocalMasterKey: keys[i][0], LocalMasterSalt: keys[i][1], RemoteMasterKey: bytes.Clone(keys[1-i][0]), RemoteMasterSalt: bytes.Clone(keys[1-i][1]),
			}}
			remote := bytes.Clone(p.MKI[1-i])
			switch p.Wrong {
			case 1:
				c.Keys.RemoteMasterKey[3] ^= 1
			case 2:
				c.Keys.RemoteMasterSalt[13] ^= 0x80
			case 3:
				if len(remote) == 0 {
					remote = []byte{9}
				} else {
					remote[0] ^= 0x40
				}
			}
			if len(p.MKI[i]) > 0 {
				c.LocalOptions = append(c.LocalOptions, srtp.MasterKeyIndicator(p.MKI[i]))
			}
			if len(remote) > 0 {
				c.RemoteOptions = append(c.RemoteOptions, srtp.MasterKeyIndicator(remote))
			}
			if ss[i], err = srtp.NewSession(logger.GetLogger(), conns[i], c); err != nil {
				return bad("NewSession(%s): %v", su.name, err)
			}
			defer ss[i].Close()
			if ws[i], err = ss[i].OpenWriteStream(); err != nil {
				return bad("OpenWriteStream: %v", err)
			}
		}
		var mu sync.Mutex
		got := map[[2]uint32][]c27Got{} // direction, SSRC
		viol := ""
		var wg sync.WaitGroup
		for i := range 2 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					r, ssrc, err := ss[i].AcceptStream()
					if err != nil {
						return
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						buf := make([]byte, p.Buf)
						for {
							var h prtp.Header
							n, err := r.ReadRTP(&h, buf)
							if err != nil {
								return
							}
							mu.Lock()
							k := [2]uint32{uint32(1 - i), ssrc}
							if h.SSRC != ssrc {
								viol = fmt.Sprintf("stream %d returned a packet of %d", ssrc, h.SSRC)
							}
							got[k] = append(got[k], c27Got{h, bytes.Clone(buf[:n]), 1 - i})
							mu.Unlock()
						}
					}()
				}
			}()
		}
		// An independent receiver for what is on the wire.
		var ref [2]*psrtp.Context
		for i := range 2 {
			var o []psrtp.ContextOption
			if len(p.MKI[i]) > 0 {
				o = append(o, psrtp.MasterKeyIndicator(p.MKI[i]))
			}
			if ref[i], err = psrtp.CreateContext(keys[i][0], keys[i][1], su.ref, o...); err != nil {
				return bad("harness: %v", err)
			}
		}
		want := map[[2]uint32][]*prtp.Packet{}
		sent := map[[2]uint32]int{}
		var held [][2]any // delayed datagrams
		var lastWire [2][]byte
		attacks, plain := 0, 0
		for mi, m := range p.Msgs {
			d := m.Dir & 1
			ssrc := uint32(100 + m.S%100)
			key := [2]uint32{uint32(d), ssrc}
			k := sent[key]
			sent[key]++
			pk := c25Packet(ssrc, k+d*1000, m.Len, m.Ext, m.CSRC)
			pk.SequenceNumber = p.First + uint16(k)
			orig := pk.Clone()
			before := len(conns[d].out)
			if _, err := ws[d].WriteRTP(&pk.Header, pk.Payload); err != nil {
				return bad("WriteRTP: %v", err)
			}
			if !eqHeader(pk.Header, orig.Header) || !bytes.Equal(pk.Payload, orig.Payload) {
				return bad("WriteRTP changed its arguments")
			}
			if len(conns[d].out) != before+1 {
				return bad("WriteRTP sent %d datagrams", len(conns[d].out)-before)
			}
			wire := conns[d].out[before]
			hb, _ := orig.Header.Marshal()
			if len(wire) != len(hb)+len(orig.Payload)+su.tag+len(p.MKI[d]) {
				return bad("datagram of %d bytes for %s, header %d, payload %d, MKI %d", len(wire), su.name, len(hb), len(orig.Payload), len(p.MKI[d]))
			}
			if len(orig.Payload) >= 8 {
				plain++
				// The header and the key identifier are in the clear and may look like the payload.
				enc := wire[len(hb) : len(wire)-su.tag-len(p.MKI[d])]
				if bytes.Contains(enc, orig.Payload[:8]) || bytes.Contains(enc, orig.Payload[len(orig.Payload)-8:]) {
					return bad("the datagram contains the plaintext payload")
				}
			}
			dec, err := ref[d].DecryptRTP(nil, bytes.Clone(wire), nil)
			if err != nil {
				return bad("a standard receiver cannot decrypt packet %d of %s: %v", mi, su.name, err)
			}
			if w, _ := orig.Marshal(); !bytes.Equal(dec, w) {
				return bad("a standard receiver decrypts packet %d to something else", mi)
			}
			in := conns[1-d].in
			good := p.Wrong == 0
			net := m.Net
			if p.Wrong == 3 && net == "flip" {
				net = "ok" // the key identifier is not authenticated, so the change may happen to correct it
			}
			if k == 0 && net != "twice" {
				net = "ok" // the first packet of a stream sets the rollover counter
			}
			deliver := func(b []byte, ok *prtp.Packet, key [2]uint32) {
				in := conns[1-int(key[0])].in
				in <- bytes.Clone(b)
				synctest.Wait()
				if ok != nil && good {
					want[key] = append(want[key], ok)
				}
			}
			switch net {
			case "ok":
				deliver(wire, orig, key)
			case "drop":
			case "late":
				held = append(held, [2]any{wire, func() { deliver(wire, orig, key) }})
			case "twice":
				deliver(wire, orig, key)
				deliver(wire, nil, key)
				attacks++
			case "flip":
				b := bytes.Clone(wire)
				b[m.Pos%len(b)] ^= 1 << (m.Pos % 8)
				deliver(b, nil, key)
				deliver(wire, orig, key)
				attacks++
			case "cut":
				deliver(wire[:m.Pos%len(wire)], nil, key)
				attacks++
			case "grow":
				deliver(append(bytes.Clone(wire), c04Bytes(m.Pos, 1+m.Pos%20)...), nil, key)
				attacks++
			case "reflect": // back to the sender
				conns[d].in <- bytes.Clone(wire)
				synctest.Wait()
				deliver(wire, orig, key)
				attacks++
			case "plain": // unprotected packet
				b, _ := orig.Marshal()
				in <- b
				synctest.Wait()
				attacks++
			case "old": // replay of the previous one
				if lastWire[d] != nil {
					deliver(lastWire[d], nil, key)
					attacks++
				}
				deliver(wire, orig, key)
			}
			if net == "ok" || net == "twice" || net == "old" || net == "reflect" {
				lastWire[d] = wire
			}
			if net != "late" {
				for _, h := range held {
					h[1].(func())()
				}
				held = nil
			}
		}
		for _, h := range held {
			h[1].(func())()
		}
		synctest.Wait()
		for _, s := range ss {
			if err := s.Close(); err != nil {
				return bad("Close: %v", err)
			}
		}
		wg.Wait()
		if viol != "" {
			return bad("%s", viol)
		}
		n := 0
		for k, g := range got {
			w := want[k]
			for i := range g {
				if i >= len(w) {
					return bad("%s: unexpected packet %+v (%d bytes) of direction %d", su.name, g[i].h, len(g[i].p), k[0])
				}
				if !eqHeader(g[i].h, w[i].Header) || !bytes.Equal(g[i].p, w[i].Payload) {
					return bad("%s: packet %d of stream %v is %+v with %d bytes, expected %+v with %d bytes", su.name, i, k, g[i].h, len(g[i].p), w[i].Header, len(w[i].Payload))
				}
				n++
			}
		}
		for k, w := range want {
			if len(got[k]) != len(w) {
				return bad("%s: stream %v received %d of %d packets", su.name, k, len(got[k]), len(w))
			}
		}
		o := Out{NT: (n >= 3 || p.Wrong > 0) && plain > 0}.cls(su.name)
		for c, ok := range map[string]bool{"attacks": attacks > 0, "wrong-keys": p.Wrong > 0, "mki": len(p.MKI[0])+len(p.MKI[1]) > 0, "rollover": int(p.First)+len(p.Msgs) > 65535} {
			if ok {
				o = o.cls(c)
			}
		}
		return o
	})
}

type c27dPlan struct {
	Name string `json:"name"`
}

func c27Profiles(p c27dPlan) Out {
	a, err := srtp.DefaultProfiles()
	if err != nil {
		return bad("DefaultProfiles: %v", err)
	}
	b, err := srtp.DefaultProfiles()
	if err != nil {
		return bad("DefaultProfiles: %v", err)
	}
	if len(a) != 4 || len(b) != 4 {
		return bad("%d default profiles", len(a))
	}
	seen := map[string]bool{}
	names := map[srtp.ProtectionProfile]bool{}
	for _, x := range append(slices.Clone(a), b...) {
		var k, s int
		for _, su := range c27Suites {
			if su.name == string(x.Profile) {
				k, s = su.key, su.salt
			}
		}
		if k == 0 || len(x.Key) != k || len(x.Salt) != s || len(x.MKI) != 0 {
			return bad("default profile %s has a key of %d, a salt of %d and an MKI of %d bytes", x.Profile, len(x.Key), len(x.Salt), len(x.MKI))
		}
		// 14 bytes that repeat by chance are out of question.
		for _, m := range [][]byte{x.Key[:14], x.Key[len(x.Key)-14:], x.Salt} {
			if seen[string(m)] && !bytes.Equal(m, x.Key[:14]) || bytes.Count(m, []byte{0}) > 8 {
				return bad("key material is reused or not random: %x", m)
			}
			seen[string(m)] = true
		}
		names[x.Profile] = true
	}
	for i := range a {
		if a[i].Index != i+1 || a[i].Profile != b[i].Profile || bytes.Equal(a[i].Key, b[i].Key) || bytes.Equal(a[i].Salt, b[i].Salt) {
			return bad("default profile %d: %+v and %+v", i, a[i], b[i])
		}
		for j := range a {
			if j != i && (bytes.Equal(a[i].Salt, a[j].Salt) || bytes.Equal(a[i].Key[:16], a[j].Key[:16])) {
				return bad("profiles %d and %d share key material", i, j)
			}
		}
	}
	if len(names) != 4 {
		return bad("only %d different suites", len(names))
	}
	known := false
	for _, su := range c27Suites {
		x, err := srtp.ProtectionProfile(su.name).Parse()
		if err != nil || x != su.ref {
			return bad("Parse(%s) = %v, %v", su.name, x, err)
		}
		known = known || su.name == p.Name
	}
	if _, err := srtp.ProtectionProfile(p.Name).Parse(); (err == nil) != known {
		return bad("Parse(%q): %v", p.Name, err)
	}
	return Out{NT: !known}
}

func init() {
	reg("C27", "wire", opts{sec: [2]float64{8, 120}, rule: "at least three packets arrived, or the keys differ, and one payload was long enough to be recognised"},
		func(t *rapid.T) c27Plan {
			p := c27Plan{Suite: rapid.IntRange(0, 3).Draw(t, "suite"), First: genFirst().Draw(t, "first")}
			for i := range 2 {
				p.MKI[i] = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "mki")
			}
			if rapid.IntRange(0, 4).Draw(t, "wrong?") == 0 {
				p.Wrong = rapid.IntRange(1, 3).Draw(t, "wrong")
			}
			n := rapid.IntRange(1, 25).Draw(t, "n")
			many := 0
			if rapid.IntRange(0, 15).Draw(t, "many?") == 9 {
				many, n = 1, n*6
			}
			for range n {
				p.Msgs = append(p.Msgs, c27Msg{
					Dir:  rapid.IntRange(0, 1).Draw(t, "dir"),
					S:    rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "s") + many*rapid.IntRange(0, 60).Draw(t, "of"),
					Len:  rapid.OneOf(rapid.Just(160), rapid.IntRange(0, 1300)).Draw(t, "len"),
					Ext:  rapid.SampledFrom([]int{0, 0, 1, 4, 16}).Draw(t, "e"),
					CSRC: rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "c"),
					Net:  rapid.SampledFrom([]string{"ok", "ok", "ok", "drop", "late", "twice", "flip", "flip", "cut", "grow", "reflect", "plain", "old"}).Draw(t, "net"),
					Pos:  rapid.IntRange(0, 2000).Draw(t, "pos"),
				})
			}
			p.Msgs = laps(t, p.Msgs, 1000)
			p.Buf = rapid.SampledFrom([]int{1500, 1500, 2000, 8192}).Draw(t, "buf")
			return p
		}, c27Run)
	reg("C27", "profiles", opts{sec: [2]float64{2, 10}, rule: "an unknown profile name was tried"},
		func(t *rapid.T) c27dPlan {
			return c27dPlan{Name: rapid.OneOf(rapid.SampledFrom([]string{"", "AEAD_AES_128_GCM", "AEAD_AES_256_GCM", "AES_CM_256_HMAC_SHA1_80", "aes_cm_128_hmac_sha1_80", "AES_CM_128_HMAC_SHA1_80 ", "NULL_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_80", "F8_128_HMAC_SHA1_80"}), rapid.String()).Draw(t, "name")}
		}, c27Profiles)
}
