package props

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"net/netip"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"testing/synctest"

	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/protocol/logger"
	"github.com/pion/logging"
	prtp "github.com/pion/rtp"
	psdp "github.com/pion/sdp/v3"
	psrtp "github.com/pion/srtp/v3"
	"pgregory.net/rapid"
)

// C31: negotiation of SRTP keys.

type c31Line struct {
	Tag   int    `json:"tag"`
	Suite int    `json:"suite"` // 4: unknown
	Seed  int    `json:"seed"`
	Pad   bool   `json:"pad,omitempty"`
	Life  string `json:"life,omitempty"`
	MKI   []byte `json:"mki,omitempty"`
	Par   string `json:"par,omitempty"`   // session parameters
	Zeros int    `json:"zeros,omitempty"` // before the value of the key identifier
}

func (l c31Line) name() string {
	if l.Suite >= 4 {
		return "F8_128_HMAC_SHA1_80"
	}
	return c27Suites[l.Suite].name
}

// usable tells whether the SDK can use an offered line: it knows the suite and
// no session parameter is mandatory.
func (l c31Line) usable() bool {
	for _, p := range strings.Fields(l.Par) {
		if p[0] != '-' {
			return false
		}
	}
	return l.Suite < 4
}

func (l c31Line) key() (key, salt []byte) {
	if l.Suite >= 4 {
		return c04Bytes(l.Seed*32+1, 30), nil
	}
	su := c27Suites[l.Suite]
	b := c04Bytes(l.Seed*32+1, su.key+su.salt)
	return b[:su.key], b[su.key:]
}

func (l c31Line) String() string {
	k, s := l.key()
	enc := base64.RawStdEncoding
	if l.Pad {
		enc = base64.StdEncoding
	}
	out := fmt.Sprintf("%d %s inline:%s", l.Tag, l.name(), enc.EncodeToString(append(slices.Clone(k), s...)))
	if l.Life != "" {
		out += "|" + l.Life
	}
	if len(l.MKI) > 0 {
		v := uint64(0)
		for _, b := range l.MKI {
			v = v<<8 | uint64(b)
		}
		out += fmt.Sprintf("|%s%d:%d", strings.Repeat("0", l.Zeros), v, len(l.MKI))
	}
	if l.Par != "" {
		out += " " + l.Par
	}
	return out
}

type c31Plan struct {
	Offer []c31Line         `json:"offer,omitempty"` // nil: an offer of the SDK
	Own   bool              `json:"own,omitempty"`
	Enc   [2]sdp.Encryption `json:"enc"`
	// A foreign answer that accepts offered line number Pick.
	Ans  *c31Line `json:"ans,omitempty"`
	Pick int      `json:"pick,omitempty"`
}

// c31Key is the key material of one direction.
type c31Key struct{ key, salt, mki []byte }

func c31Interop(conf *srtp.Config, suite int, local, remote c31Key) string {
	lf := logging.NewDefaultLoggerFactory()
	lf.DefaultLogLevel = logging.LogLevelDisabled
	c := *conf
	c.LoggerFactory = lf
	viol := ""
	out := bubble(func() Out {
		conn := newC25Conn(0)
		s, err := srtp.NewSession(logger.GetLogger(), conn, &c)
		if err != nil {
			return bad("NewSession: %v", err)
		}
		defer s.Close()
		w, err := s.OpenWriteStream()
		if err != nil {
			return bad("OpenWriteStream: %v", err)
		}
		ctx := func(k c31Key) *psrtp.Context {
			var o []psrtp.ContextOption
			if len(k.mki) > 0 {
				o = append(o, psrtp.MasterKeyIndicator(k.mki))
			}
			x, err := psrtp.CreateContext(k.key, k.salt, c27Suites[suite].ref, o...)
			if err != nil {
				panic(err)
			}
			return x
		}
		var got *prtp.Packet
		done := make(chan struct{})
		go func() {
			defer close(done)
			r, _, err := s.AcceptStream()
			if err != nil {
				return
			}
			var h prtp.Header
			buf := make([]byte, 1500)
			n, err := r.ReadRTP(&h, buf)
			if err == nil {
				got = &prtp.Packet{Header: h, Payload: bytes.Clone(buf[:n])}
			}
		}()
		pk := c25Packet(7, 3, 160, 0, 0)
		if _, err := w.WriteRTP(&pk.Header, pk.Payload); err != nil {
			return bad("WriteRTP: %v", err)
		}
		want, _ := pk.Marshal()
		dec, err := ctx(local).DecryptRTP(nil, conn.out[0], nil)
		if err != nil || !bytes.Equal(dec, want) {
			return bad("what is sent cannot be decrypted with the local key: %v", err)
		}
		enc, err := ctx(remote).EncryptRTP(nil, want, nil)
		if err != nil {
			return bad("harness: %v", err)
		}
		conn.in <- enc
		synctest.Wait()
		select {
		case <-done:
		default:
			return bad("a packet protected with the remote key is not received")
		}
		if got == nil || !bytes.Equal(got.Payload, pk.Payload) {
			return bad("a packet protected with the remote key is received as %v", got)
		}
		return Out{}
	})
	if out.Viol != "" {
		viol = out.Viol
	}
	return viol
}

// c31Conf compares a configuration with the expected keys.
func c31Conf(c *srtp.Config, suite int, local, remote c31Key) string {
	if c == nil {
		return "no SRTP configuration"
	}
	if c.Profile != c27Suites[suite].ref {
		return fmt.Sprintf("profile %v, want %v", c.Profile, c27Suites[suite].ref)
	}
	k := c.Keys
	if !bytes.Equal(k.LocalMasterKey, local.key) || !bytes.Equal(k.LocalMasterSalt, local.salt) || !bytes.Equal(k.RemoteMasterKey, remote.key) || !bytes.Equal(k.RemoteMasterSalt, remote.salt) {
		return fmt.Sprintf("keys %x, want %x and %x", k, local, remote)
	}
	return c31Interop(c, suite, local, remote)
}

func c31Crypto(m *psdp.SessionDescription) (out []string) {
	for _, a := range m.MediaDescriptions[0].Attributes {
		if a.Key == "crypto" {
			out = append(out, a.Value)
		}
	}
	return
}

func c31Run(p c31Plan) Out {
	ip := [2]netip.Addr{netip.MustParseAddr("10.0.0.1"), netip.MustParseAddr("10.0.0.2")}
	var own *sdp.Offer
	var err error
	var data []byte
	var lines []c31Line // the offered ones
	var keys []c31Key
	if p.Own {
		if own, err = sdp.NewOffer(ip[0], 4000, p.Enc[0]); err != nil {
			return bad("NewOffer: %v", err)
		}
		if data, err = own.SDP.Marshal(); err != nil {
			return bad("Marshal: %v", err)
		}
		attrs := c31Crypto(&own.SDP)
		if (p.Enc[0] == sdp.EncryptionNone) != (len(attrs) == 0) || len(attrs) != len(own.CryptoProfiles) {
			return bad("offer with encryption %d has %d crypto lines, %d profiles", p.Enc[0], len(attrs), len(own.CryptoProfiles))
		}
		if protos := own.SDP.MediaDescriptions[0].MediaName.Protos; (p.Enc[0] == sdp.EncryptionNone) != slices.Equal(protos, []string{"RTP", "AVP"}) ||
			(p.Enc[0] != sdp.EncryptionNone) != slices.Equal(protos, []string{"RTP", "SAVP"}) {
			return bad("offer with encryption %d has protocol %v", p.Enc[0], protos)
		}
		tags := map[int]bool{}
		for i, pr := range own.CryptoProfiles {
			l := c31Line{Tag: pr.Index, Suite: slices.IndexFunc(c27Suites, func(s struct {
				name           string
				ref            psrtp.ProtectionProfile
				key, salt, tag int
			}) bool {
				return s.name == string(pr.Profile)
			})}
			if l.Suite < 0 || tags[l.Tag] {
				return bad("offered suite %q with tag %d", pr.Profile, l.Tag)
			}
			tags[l.Tag] = true
			b64 := base64.StdEncoding.EncodeToString(append(slices.Clone(pr.Key), pr.Salt...))
			if want := fmt.Sprintf("%d %s inline:%s", pr.Index, pr.Profile, b64); strings.TrimRight(attrs[i], "=") != strings.TrimRight(want, "=") {
				return bad("crypto line %q, want %q", attrs[i], want)
			}
			lines = append(lines, l)
			keys = append(keys, c31Key{pr.Key, pr.Salt, pr.MKI})
		}
	} else {
		x := c30Text{Origin: ip[0].String(), Port: 4000, Proto: "RTP/SAVP", Fmts: []c30Fmt{{0, "PCMU/8000", 1}}}
		for _, l := range p.Offer {
			x.Attrs = append(x.Attrs, "a=crypto:"+l.String())
			k, s := l.key()
			lines = append(lines, l)
			keys = append(keys, c31Key{k, s, l.MKI})
		}
		data = []byte(x.String())
		if own, err = sdp.ParseOffer(data); err != nil {
			return bad("ParseOffer(%q): %v", data, err)
		}
	}
	known := false
	for _, l := range lines {
		known = known || l.usable()
	}
	o := Out{NT: len(lines) > 0}.cls(fmt.Sprintf("policy-%d-%d", p.Enc[0], p.Enc[1]))

	var answer []byte
	var mem *sdp.Answer
	picked := -1
	var akey c31Key
	if p.Ans == nil {
		off, err := sdp.ParseOffer(data)
		if err != nil {
			return bad("ParseOffer(%q): %v", data, err)
		}
		ans, mc, err := off.Answer(ip[1], 5000, p.Enc[1])
		if p.Enc[1] == sdp.EncryptionRequire && !known {
			if !errors.Is(err, sdp.ErrNoCommonCrypto) {
				return bad("answer that requires encryption to %q: %v", data, err)
			}
			return o.cls("refused")
		}
		if err != nil {
			return bad("Answer(%q, %d): %v", data, p.Enc[1], err)
		}
		if answer, err = ans.SDP.Marshal(); err != nil {
			return bad("Marshal: %v", err)
		}
		mem = ans
		attrs := c31Crypto(&ans.SDP)
		if !known || p.Enc[1] == sdp.EncryptionNone {
			if mc.Crypto != nil || len(attrs) > 0 {
				return bad("answer to %q with encryption %d: configuration %v, attributes %q", data, p.Enc[1], mc.Crypto, attrs)
			}
			o = o.cls("plain")
		} else {
			if mc.Crypto == nil || len(attrs) != 1 {
				return bad("answer to %q with encryption %d: configuration %v, attributes %q", data, p.Enc[1], mc.Crypto, attrs)
			}
			f := strings.Fields(attrs[0])
			if len(f) != 3 {
				return bad("crypto attribute %q", attrs[0])
			}
			tag, err := strconv.Atoi(f[0])
			if err != nil {
				return bad("crypto attribute %q", attrs[0])
			}
			// The tag names the chosen line.
			picked = slices.IndexFunc(lines, func(l c31Line) bool { return l.Tag == tag })
			if picked < 0 || lines[picked].name() != f[1] || !lines[picked].usable() {
				return bad("crypto attribute %q of the answer to %q", attrs[0], data)
			}
			b64, ok := strings.CutPrefix(f[2], "inline:")
			raw, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(strings.Split(b64, "|")[0], "="))
			su := c27Suites[lines[picked].Suite]
			if !ok || err != nil || len(raw) != su.key+su.salt {
				return bad("crypto attribute %q of the answer", attrs[0])
			}
			akey = c31Key{raw[:su.key], raw[su.key:], nil}
			for _, k := range keys {
				if bytes.Equal(k.key, akey.key) {
					return bad("the answer repeats a key of the offer: %q", attrs[0])
				}
			}
			if e := c31Conf(mc.Crypto, lines[picked].Suite, akey, keys[picked]); e != "" {
				return bad("answering side, offer %q, answer %q: %s", data, answer, e)
			}
			o = o.cls("encrypted")
		}
	} else {
		picked = p.Pick
		l := *p.Ans
		l.Tag, l.Suite = lines[picked].Tag, lines[picked].Suite
		x := c30Text{Origin: ip[1].String(), Port: 5000, Proto: "RTP/SAVP", Fmts: []c30Fmt{{0, "PCMU/8000", 1}}, Attrs: []string{"a=crypto:" + l.String()}}
		answer = []byte(x.String())
		k, s := l.key()
		akey = c31Key{k, s, l.MKI}
		o = o.cls("foreign-answer")
	}
	ans, err := sdp.ParseAnswer(answer)
	if err != nil {
		return bad("ParseAnswer(%q): %v", answer, err)
	}
	mc, err := ans.Apply(own, p.Enc[0])
	if mem != nil {
		// Without the way through text.
		mm, err2 := mem.Apply(own, p.Enc[0])
		if (err == nil) != (err2 == nil) || err != nil && !errors.Is(err2, sdp.ErrNoCommonCrypto) {
			return bad("offer %q, answer %q: Apply returns %v, on the unparsed answer %v", data, answer, err, err2)
		}
		if err == nil && ((mc.Crypto == nil) != (mm.Crypto == nil) || mc.Crypto != nil && (mc.Crypto.Profile != mm.Crypto.Profile || !reflect.DeepEqual(mc.Crypto.Keys, mm.Crypto.Keys) || len(mc.Crypto.LocalOptions) != len(mm.Crypto.LocalOptions) || len(mc.Crypto.RemoteOptions) != len(mm.Crypto.RemoteOptions))) {
			return bad("offer %q, answer %q: Apply gives %+v, on the unparsed answer %+v", data, answer, mc.Crypto, mm.Crypto)
		}
	}
	switch {
	case picked < 0 && p.Enc[0] == sdp.EncryptionRequire:
		if !errors.Is(err, sdp.ErrNoCommonCrypto) {
			return bad("applying the unencrypted answer %q, encryption required: %v", answer, err)
		}
	case err != nil:
		return bad("Apply(%q, %d): %v", answer, p.Enc[0], err)
	case picked < 0 || p.Enc[0] == sdp.EncryptionNone:
		if mc.Crypto != nil {
			return bad("Apply(%q, %d): configuration %v", answer, p.Enc[0], mc.Crypto)
		}
	default:
		if e := c31Conf(mc.Crypto, lines[picked].Suite, keys[picked], akey); e != "" {
			return bad("offering side, offer %q, answer %q: %s", data, answer, e)
		}
	}
	return o
}

// c31Attr is one crypto attribute, possibly malformed.
type c31Attr struct {
	Line  c31Line `json:"line"`
	Delta int     `json:"delta"` // bytes more or less than the suite wants
	B64   string  `json:"b64"`   // raw, padded, half, bad
	Life  string  `json:"life"`
	MKI   string  `json:"mki"`
	NoL   bool    `json:"nol"` // no field for the lifetime
}

func refLife(s string) (uint64, bool) {
	if e, ok := strings.CutPrefix(s, "2^"); ok {
		n, err := strconv.Atoi(e)
		if err != nil || n < 0 || n > 63 {
			return 0, false
		}
		return 1 << n, true
	}
	v, err := strconv.ParseUint(s, 10, 64)
	return v, err == nil && v > 0
}

func refMKI(s string) ([]byte, bool) {
	a, b, ok := strings.Cut(s, ":")
	v, err := strconv.ParseUint(a, 10, 64)
	n, err2 := strconv.Atoi(b)
	if !ok || err != nil || err2 != nil || n < 1 || n > 8 {
		return nil, false
	}
	out := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		out[i] = byte(v)
		v >>= 8
	}
	return out, v == 0
}

func c31AttrRun(p c31Attr) Out {
	k, s := p.Line.key()
	raw := append(slices.Clone(k), s...)
	valid := true
	if p.Delta < 0 {
		raw = raw[:max(0, len(raw)+p.Delta)]
	} else {
		raw = append(raw, c04Bytes(5, p.Delta)...)
	}
	if p.Delta != 0 {
		valid = false
	}
	b64 := base64.StdEncoding.EncodeToString(raw)
	switch p.B64 {
	case "raw":
		b64 = strings.TrimRight(b64, "=")
	case "half":
		if strings.HasSuffix(b64, "==") {
			b64, valid = b64[:len(b64)-1], false
		}
	case "bad":
		i := len(b64) / 3
		b64, valid = b64[:i]+"*"+b64[min(i+1, len(b64)):], false
	}
	want := srtp.Profile{Index: p.Line.Tag, Profile: srtp.ProtectionProfile(p.Line.name()), Key: k, Salt: s}
	val := fmt.Sprintf("%d %s inline:%s", p.Line.Tag, p.Line.name(), b64)
	if p.Life != "" || p.MKI != "" && !p.NoL {
		val += "|" + p.Life
	}
	if p.Life != "" {
		var ok bool
		want.Lifetime, ok = refLife(p.Life)
		valid = valid && ok
	}
	if p.MKI != "" {
		val += "|" + p.MKI
		var ok bool
		want.MKI, ok = refMKI(p.MKI)
		valid = valid && ok
	}
	m, err := sdp.ParseMedia(&psdp.MediaDescription{Attributes: []psdp.Attribute{{Key: "crypto", Value: val}}})
	if !valid {
		if err == nil {
			return bad("accepted %q as %+v", val, m.CryptoProfiles)
		}
		return Out{NT: true}.cls("malformed")
	}
	if err != nil {
		return bad("%q: %v", val, err)
	}
	if len(m.CryptoProfiles) != 1 {
		return bad("%q: %d profiles", val, len(m.CryptoProfiles))
	}
	got := m.CryptoProfiles[0]
	if !bytes.Equal(got.MKI, want.MKI) || !bytes.Equal(got.Key, want.Key) || !bytes.Equal(got.Salt, want.Salt) {
		return bad("%q: got %+v, want %+v", val, got, want)
	}
	got.MKI, got.Key, got.Salt = want.MKI, want.Key, want.Salt
	if !reflect.DeepEqual(got, want) {
		return bad("%q: got %+v, want %+v", val, got, want)
	}
	return Out{NT: true}.cls("valid")
}

func genC31Life(t *rapid.T) string {
	switch rapid.IntRange(0, 2).Draw(t, "life") {
	case 0:
		return ""
	case 1:
		return "2^" + strconv.Itoa(rapid.IntRange(0, 63).Draw(t, "exp"))
	}
	return rapid.SampledFrom([]string{"", "", "", "0", "00"}).Draw(t, "zeros") + strconv.FormatUint(rapid.Uint64Range(1, 1<<64-1).Draw(t, "count"), 10)
}

func genC31Line(t *rapid.T, suites int) c31Line {
	l := c31Line{
		Suite: rapid.IntRange(0, suites-1).Draw(t, "suite"),
		Seed:  rapid.IntRange(0, 1<<20).Draw(t, "seed"),
		Pad:   rapid.Bool().Draw(t, "pad"),
		Life:  genC31Life(t),
	}
	if rapid.IntRange(0, 2).Draw(t, "mki?") == 0 {
		l.MKI = rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "mki")
		l.Zeros = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "zeros")
	}
	return l
}

func init() {
	reg("C31", "exchange", opts{sec: [2]float64{8, 80}, rule: "crypto lines are offered"},
		func(t *rapid.T) c31Plan {
			p := c31Plan{}
			for i := range p.Enc {
				p.Enc[i] = sdp.Encryption(rapid.IntRange(0, 2).Draw(t, "enc"))
			}
			if p.Own = rapid.IntRange(0, 2).Draw(t, "own") == 0; p.Own {
				if p.Enc[0] != sdp.EncryptionNone && rapid.Bool().Draw(t, "foreign") {
					l := genC31Line(t, 4)
					p.Ans, p.Pick = &l, rapid.IntRange(0, 3).Draw(t, "pick")
				}
				return p
			}
			n := crowd(t, 0, 6, 60, "n")
			tags := rapid.SliceOfNDistinct(rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 999999999)), n, n, rapid.ID[int]).Draw(t, "tags")
			for i := range n {
				l := genC31Line(t, 5)
				l.Tag, l.Seed = tags[i], l.Seed*64+i
				if rapid.IntRange(0, 4).Draw(t, "par?") == 0 {
					l.Par = rapid.SampledFrom([]string{"UNENCRYPTED_SRTP", "UNENCRYPTED_SRTCP UNAUTHENTICATED_SRTP", "KDR=5", "WSH=64", "-WSH=64", "-X -Y=1", "-X FEC_ORDER=FEC_SRTP", "FEC_KEY=inline:" + strings.Repeat("A", 40)}).Draw(t, "par")
				}
				p.Offer = append(p.Offer, l)
			}
			return p
		}, c31Run)
	reg("C31", "attribute", opts{sec: [2]float64{4, 40}, rule: "always: every case is one crypto attribute, valid or malformed in a listed way"},
		func(t *rapid.T) c31Attr {
			p := c31Attr{Line: genC31Line(t, 4), B64: "raw", Life: genC31Life(t), NoL: rapid.Bool().Draw(t, "nol")}
			p.Line.Tag = rapid.IntRange(0, 999999999).Draw(t, "tag")
			if len(p.Line.MKI) > 0 {
				v := uint64(0)
				for _, b := range p.Line.MKI {
					v = v<<8 | uint64(b)
				}
				p.MKI = fmt.Sprintf("%s%d:%d", strings.Repeat("0", p.Line.Zeros), v, len(p.Line.MKI))
			}
			p.Line.MKI, p.Line.Life = nil, ""
			if rapid.Bool().Draw(t, "padded") {
				p.B64 = "padded"
			}
			switch rapid.IntRange(0, 9).Draw(t, "break") {
			case 0:
				p.B64 = rapid.SampledFrom([]string{"half", "bad"}).Draw(t, "b64")
			case 1:
				p.Delta = rapid.SampledFrom([]int{-100, -30, -16, -2, -1, 1, 2, 14, 16}).Draw(t, "delta")
			case 2:
				p.Life = rapid.SampledFrom([]string{"0", "-1", "2^64", "2^-1", "2^", "x", "2^x", "18446744073709551616", "3^2", "1.5", "0x10", "0b1", "1_000", "1e3", "2^0x10", "2^1_0", "2^99999999999999999999"}).Draw(t, "badlife")
			case 3:
				p.MKI = rapid.SampledFrom([]string{"1:0", "1:9", "1:-1", "256:1", "65536:2", "18446744073709551616:8", "1:256", "1:257", ":", "1:", ":1", "x:1", "1:x", "1:1:1", "-1:1", "4294967296:4", "1:264", "0x1:4", "0b1:1", "0o7:1", "1_0:2", "1:0x4", "+1:2", "1.0:2", "1e1:2"}).Draw(t, "badmki")
			}
			return p
		}, c31AttrRun)
}
