package props

import (
	"errors"
	"fmt"
	"net/netip"
	"slices"
	"strconv"
	"strings"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
	psdp "github.com/pion/sdp/v3"
	"pgregory.net/rapid"
)

// C30: SDP offer/answer. c30Text is a model of a foreign SDP message.

// The audio codecs of the SDK, by descending priority.
var c30Codecs = []struct {
	name string
	typ  byte
}{{g722.SDPName, 9}, {g711.ULawSDPName, 0}, {g711.ALawSDPName, 8}}

func c30Enable(en [4]bool) {
	for i, c := range c30Codecs {
		media.CodecSetEnabled(c.name, en[i])
	}
	media.CodecSetEnabled(dtmf.SDPName, en[3])
}

var c30All = [4]bool{true, true, true, true}

// c30Fmt is one format of the audio section.
type c30Fmt struct {
	Type int    `json:"t"`
	Name string `json:"n,omitempty"` // empty: no rtpmap
	// Codec is the index of the known codec that it stands for, 3: DTMF, -1: none.
	Codec int `json:"c"`
}

type c30Text struct {
	Sess    uint64   `json:"sess"`
	Ver     uint64   `json:"ver,omitempty"` // version minus id of the session
	Origin  string   `json:"origin"`        // unicast address
	SessC   string   `json:"sessc,omitempty"`
	MediaC  string   `json:"mediac,omitempty"`
	Port    int      `json:"port"`
	NPorts  int      `json:"nports,omitempty"`
	Proto   string   `json:"proto"`
	Fmts    []c30Fmt `json:"fmts"`
	Order   []int    `json:"order,omitempty"` // permutation of attributes: sort keys
	Before  []string `json:"before,omitempty"`
	After   []string `json:"after,omitempty"`
	SessA   []string `json:"sessa,omitempty"`
	Attrs   []string `json:"attrs,omitempty"` // further attribute lines of the audio section
	LF      bool     `json:"lf,omitempty"`
	NoFinal bool     `json:"nofinal,omitempty"`
}

func c30Type(a string) string {
	if strings.Contains(a, ":") {
		return "IP6"
	}
	return "IP4"
}

func (x c30Text) String() string {
	lines := []string{"v=0", fmt.Sprintf("o=- %d %d IN %s %s", x.Sess, x.Sess+x.Ver, c30Type(x.Origin), x.Origin), "s=-"}
	if x.SessC != "" {
		lines = append(lines, "c=IN "+c30Type(x.SessC)+" "+x.SessC)
	}
	lines = append(lines, "t=0 0")
	lines = append(lines, x.SessA...)
	lines = append(lines, x.Before...)
	var f []string
	var attrs []string
	for _, c := range x.Fmts {
		f = append(f, strconv.Itoa(c.Type))
		if c.Name != "" {
			attrs = append(attrs, fmt.Sprintf("a=rtpmap:%d %s", c.Type, c.Name))
		}
		if c.Codec == 3 {
			attrs = append(attrs, fmt.Sprintf("a=fmtp:%d 0-16", c.Type))
		}
	}
	port := strconv.Itoa(x.Port)
	if x.NPorts > 0 {
		port += "/" + strconv.Itoa(x.NPorts)
	}
	lines = append(lines, fmt.Sprintf("m=audio %s %s %s", port, x.Proto, strings.Join(f, " ")))
	if x.MediaC != "" {
		lines = append(lines, "c=IN "+c30Type(x.MediaC)+" "+x.MediaC)
	}
	attrs = append(attrs, x.Attrs...)
	if len(x.Order) > 0 {
		type keyed struct {
			k int
			s string
		}
		var ks []keyed
		for i, a := range attrs {
			ks = append(ks, keyed{x.Order[i%len(x.Order)], a})
		}
		slices.SortStableFunc(ks, func(a, b keyed) int { return a.k - b.k })
		for i := range ks {
			attrs[i] = ks[i].s
		}
	}
	lines = append(lines, attrs...)
	lines = append(lines, x.After...)
	eol := "\r\n"
	if x.LF {
		eol = "\n"
	}
	s := strings.Join(lines, eol)
	if !x.NoFinal {
		s += eol
	}
	return s
}

func (x c30Text) addr() (netip.AddrPort, bool) {
	a := x.MediaC
	if a == "" {
		a = x.SessC
	}
	if a == "" {
		a = x.Origin
	}
	ip, err := netip.ParseAddr(a)
	if err != nil || x.Port == 0 {
		return netip.AddrPort{}, false
	}
	return netip.AddrPortFrom(ip, uint16(x.Port)), true
}

// types returns the payload types offered for a codec.
func (x c30Text) types(codec int) (out []byte) {
	for _, f := range x.Fmts {
		if f.Codec == codec {
			out = append(out, byte(f.Type))
		}
	}
	return
}

// best is the index of the best codec that is enabled.
func (x c30Text) best(en [4]bool) int {
	for i := range c30Codecs {
		if en[i] && len(x.types(i)) > 0 {
			return i
		}
	}
	return -1
}

func (x c30Text) dtmf() byte {
	if t := x.types(3); len(t) > 0 {
		return t[0]
	}
	return 0
}

var c30Static = map[int]int{9: 0, 0: 1, 8: 2}

func genCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 4).Draw(t, "case") {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		m := rapid.Uint32().Draw(t, "casemask")
		b := []byte(strings.ToLower(s))
		for i := range b {
			if m>>(i%32)&1 == 1 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func genIP(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "ip?") {
	case 0:
		var a [16]byte
		a[0], a[1] = 0x20, 1
		for i := 2; i < 16; i++ {
			a[i] = rapid.SampledFrom([]byte{0, 0, 1, 0xff, 0x9a}).Draw(t, "ip6")
		}
		return netip.AddrFrom16(a).String()
	case 1:
		return rapid.SampledFrom([]string{"0.0.0.0", "::1", "127.0.0.1", "::", "255.255.255.255", "::ffff:1.2.3.4", "10.0.0.1", "fe80::1%eth0"}).Draw(t, "ips")
	}
	var a [4]byte
	for i := range a {
		a[i] = rapid.Byte().Draw(t, "ip4")
	}
	return netip.AddrFrom4(a).String()
}

var c30Unknown = []string{"opus/48000/2", "GSM/8000", "speex/16000", "CN/8000", "G729/8000", "PCMU/16000", "telephone-event/48000", "G722/16000", "PCMA/8000/2", "x", "L16/44100/2", "red/8000"}

// genC30Fmts draws the formats of an audio section; every payload type is used once.
func genC30Fmts(t *rapid.T, want func(codec int) bool) (out []c30Fmt) {
	used := map[int]bool{}
	typ := func(lo, hi int) int {
		for {
			x := rapid.IntRange(lo, hi).Draw(t, "type")
			for ; x <= hi; x++ {
				if !used[x] {
					used[x] = true
					return x
				}
			}
		}
	}
	n := crowd(t, 0, 7, 16, "fmts")
	dt := false
	for range n {
		k := rapid.IntRange(-1, 3).Draw(t, "fmt")
		if k >= 0 && !want(k) {
			continue
		}
		switch {
		case k == -1:
			if rapid.Bool().Draw(t, "map?") {
				out = append(out, c30Fmt{typ(96, 127), rapid.SampledFrom(c30Unknown).Draw(t, "unknown"), -1})
			} else {
				out = append(out, c30Fmt{typ(10, 95), "", -1})
			}
		case k == 3:
			if dt {
				continue
			}
			dt = true
			name := genCase(t, dtmf.SDPName)
			if rapid.IntRange(0, 3).Draw(t, "one") == 0 {
				name += "/1"
			}
			out = append(out, c30Fmt{typ(96, 127), name, 3})
		default:
			name := genCase(t, c30Codecs[k].name)
			if rapid.IntRange(0, 3).Draw(t, "one") == 0 {
				name += "/1"
			}
			st := int(c30Codecs[k].typ)
			switch rapid.IntRange(0, 3).Draw(t, "static?") {
			case 0: // dynamic type
				out = append(out, c30Fmt{typ(96, 127), name, k})
			case 1: // static without a map
				if !used[st] {
					used[st] = true
					out = append(out, c30Fmt{st, "", k})
				}
			default:
				if !used[st] {
					used[st] = true
					out = append(out, c30Fmt{st, name, k})
				}
			}
		}
	}
	return out
}

func genC30Text(t *rapid.T, want func(codec int) bool) c30Text {
	x := c30Text{
		Sess:   rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 3)).Draw(t, "sess"),
		Ver:    rapid.SampledFrom([]uint64{0, 1, 2, 100}).Draw(t, "ver"),
		Origin: genIP(t),
		Port:   rapid.OneOf(rapid.IntRange(0, 65535), rapid.IntRange(1, 65535), rapid.SampledFrom([]int{1, 65535, 5004})).Draw(t, "port"),
		Proto:  rapid.SampledFrom([]string{"RTP/AVP", "RTP/SAVP", "UDP/TLS/RTP/SAVPF"}).Draw(t, "proto"),
		Fmts:   genC30Fmts(t, want),
		LF:     rapid.Bool().Draw(t, "lf"),
	}
	if rapid.Bool().Draw(t, "sessc?") {
		x.SessC = genIP(t)
	}
	if rapid.Bool().Draw(t, "mediac?") {
		x.MediaC = genIP(t)
	}
	if rapid.IntRange(0, 3).Draw(t, "order?") > 0 {
		x.Order = rapid.SliceOfN(rapid.IntRange(0, 9), 8, 8).Draw(t, "order")
	}
	if rapid.IntRange(0, 7).Draw(t, "nports") == 0 {
		x.NPorts = rapid.IntRange(1, 4).Draw(t, "np")
	}
	return x
}

// c30Noise adds things that have to be skipped.
func c30Noise(t *rapid.T, x *c30Text) {
	noise := []string{"a=mid:0", "a=sendrecv", "a=ptime:20", "a=maxptime:150", "a=rtcp-mux", "a=fmtp:0 x=y", "a=rtcp:5005 IN IP4 1.2.3.4", "a=silenceSupp:off - - - -",
		"a=ssrc:12345 cname:x", "a=candidate:1 1 UDP 2130706431 10.0.0.1 5004 typ host", "a=rtpmap:", "a=rtpmap:0", "a=rtpmap:x PCMU/8000", "a=rtpmap:256 PCMU/8000", "a=rtpmap:-1 PCMA/8000",
		"a=rtpmap", "a=crypto:", "a=crypto:1", "a=crypto:1 AES_CM_128_HMAC_SHA1_80", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 notinline:xx", "a=rtpmap:99999999999999999999 PCMU/8000", "a=unknown:\x01\xff", "a=fmtp:300 0-16",
		"a=rtpmap:128 telephone-event/8000", "a=rtpmap:+1 PCMA/8000"}
	x.Attrs = append(x.Attrs, rapid.SliceOfN(rapid.SampledFrom(noise), 0, 5).Draw(t, "noise")...)
	x.SessA = append(x.SessA, rapid.SliceOfN(rapid.SampledFrom([]string{"a=group:BUNDLE 0", "a=rtpmap:0 PCMA/8000", "a=tool:x", "a=crypto:9 zz zz zz"}), 0, 2).Draw(t, "sessnoise")...)
	other := [][]string{{"m=video 4000 RTP/AVP 96", "a=rtpmap:96 VP8/90000"}, {"m=video 4000 RTP/AVP 0 8 9", "c=IN IP4 9.9.9.9", "a=rtpmap:101 telephone-event/8000"}, {"m=application 9 UDP/DTLS/SCTP webrtc-datachannel"}, {"m=text 11000 RTP/AVP 98"}}
	for range rapid.IntRange(0, 2).Draw(t, "before") {
		x.Before = append(x.Before, rapid.SampledFrom(other).Draw(t, "sec")...)
	}
	other = append(other, []string{"m=audio 7777 RTP/AVP 0 8 9 101", "c=IN IP4 7.7.7.7", "a=rtpmap:101 telephone-event/8000"})
	for range rapid.IntRange(0, 2).Draw(t, "after") {
		x.After = append(x.After, rapid.SampledFrom(other).Draw(t, "sec")...)
	}
}

// c30CheckAnswer checks the audio section of an answer.
func c30CheckAnswer(d *psdp.SessionDescription, port int, ip string, codec string, typ, dt byte) string {
	var audio *psdp.MediaDescription
	for _, m := range d.MediaDescriptions {
		if m.MediaName.Media == "audio" {
			if audio != nil {
				return "two audio sections"
			}
			audio = m
		}
	}
	if audio == nil {
		return "no audio section"
	}
	want := []string{strconv.Itoa(int(typ))}
	maps := []string{want[0] + " " + codec}
	if dt != 0 {
		want = append(want, strconv.Itoa(int(dt)))
		maps = append(maps, want[1]+" "+dtmf.SDPName)
	}
	got := slices.Clone(audio.MediaName.Formats)
	slices.Sort(got)
	slices.Sort(want)
	if !slices.Equal(got, want) {
		return fmt.Sprintf("formats %q, want %q", got, want)
	}
	var gotm []string
	for _, a := range audio.Attributes {
		if a.Key == "rtpmap" {
			gotm = append(gotm, a.Value)
		}
	}
	slices.Sort(gotm)
	slices.Sort(maps)
	if !slices.EqualFunc(gotm, maps, strings.EqualFold) {
		return fmt.Sprintf("codecs %q, want %q", gotm, maps)
	}
	if audio.MediaName.Port.Value != port {
		return fmt.Sprintf("port %d, want %d", audio.MediaName.Port.Value, port)
	}
	ci := audio.ConnectionInformation
	if ci == nil {
		ci = d.ConnectionInformation
	}
	if ci == nil || ci.Address == nil || ci.Address.Address != ip {
		return fmt.Sprintf("connection %v, want %s", ci, ip)
	}
	return c30Family(d, ip)
}

// c30Family checks the address type of the origin and the connection.
func c30Family(d *psdp.SessionDescription, ip string) string {
	want := "IP4"
	if strings.Contains(ip, ":") {
		want = "IP6"
	}
	audio := d.MediaDescriptions[0]
	for _, m := range d.MediaDescriptions {
		if m.MediaName.Media == "audio" {
			audio = m
			break
		}
	}
	for _, ci := range []*psdp.ConnectionInformation{d.ConnectionInformation, audio.ConnectionInformation} {
		if ci != nil && ci.Address != nil && ci.Address.Address == ip && (ci.AddressType != want || ci.NetworkType != "IN") {
			return fmt.Sprintf("the connection to %s is announced as %s %s", ip, ci.NetworkType, ci.AddressType)
		}
	}
	if o := d.Origin; o.UnicastAddress == ip && (o.AddressType != want || o.NetworkType != "IN") {
		return fmt.Sprintf("the origin %s is announced as %s %s", ip, o.NetworkType, o.AddressType)
	}
	return ""
}

type c30Plan struct {
	Off   *c30Text  `json:"off,omitempty"` // a foreign offer, else one of the SDK
	Ans   *c30Text  `json:"ans,omitempty"` // a foreign answer to an offer of the SDK
	OffEn [4]bool   `json:"offen"`
	AnsEn [4]bool   `json:"ansen"`
	IP    [2]string `json:"ip"`
	Port  [2]int    `json:"port"`
}

func c30Run(p c30Plan) Out {
	defer c30Enable(c30All)
	ip := [2]netip.Addr{netip.MustParseAddr(p.IP[0]), netip.MustParseAddr(p.IP[1])}
	ap := [2]netip.AddrPort{netip.AddrPortFrom(ip[0], uint16(p.Port[0])), netip.AddrPortFrom(ip[1], uint16(p.Port[1]))}
	o := Out{NT: true}

	// The offer.
	var data []byte
	var own *sdp.Offer
	var sess uint64
	best, dt := -1, byte(0)
	var types []byte
	if p.Off != nil {
		data = []byte(p.Off.String())
		sess = p.Off.Sess
		var ok bool
		if ap[0], ok = p.Off.addr(); !ok {
			d, err := sdp.ParseOffer(data)
			if err == nil {
				return bad("accepted an offer without a usable audio address: %q: %v", data, d.Addr)
			}
			return Out{NT: true}.cls("bad-address")
		}
		best, dt = p.Off.best(p.AnsEn), p.Off.dtmf()
		if best >= 0 {
			types = p.Off.types(best)
		}
		o = o.cls("foreign-offer")
	} else {
		c30Enable(p.OffEn)
		var err error
		if own, err = sdp.NewOffer(ip[0], p.Port[0], sdp.EncryptionNone); err != nil {
			return bad("NewOffer: %v", err)
		}
		if data, err = own.SDP.Marshal(); err != nil {
			return bad("Marshal: %v", err)
		}
		if own.Addr != ap[0] {
			return bad("address of the offer is %v, want %v", own.Addr, ap[0])
		}
		sess = own.SDP.Origin.SessionID
		if e := c30Family(&own.SDP, ip[0].String()); e != "" {
			return bad("offer %q: %s", data, e)
		}
		for i, c := range c30Codecs {
			if p.OffEn[i] && p.AnsEn[i] {
				best, types = i, []byte{c.typ}
				break
			}
		}
		if p.OffEn[3] {
			dt = own.DTMFType
			if dt < 96 || dt > 127 {
				return bad("offered DTMF type %d", dt)
			}
		} else if own.DTMFType != 0 {
			return bad("DTMF is disabled, but offered with type %d", own.DTMFType)
		}
		o = o.cls("own-offer")
	}

	var cfg [2]*sdp.MediaConfig // of the offering and the answering side
	var answer []byte
	var mem *sdp.Answer
	if p.Ans == nil {
		c30Enable(p.AnsEn)
		off, err := sdp.ParseOffer(data)
		if err != nil {
			return bad("ParseOffer(%q): %v", data, err)
		}
		if off.Addr != ap[0] || off.DTMFType != dt {
			return bad("ParseOffer(%q): address %v, DTMF type %d; want %v and %d", data, off.Addr, off.DTMFType, ap[0], dt)
		}
		ans, mc, err := off.Answer(ip[1], p.Port[1], sdp.EncryptionAllow)
		if best < 0 {
			if !errors.Is(err, sdp.ErrNoCommonMedia) {
				return bad("no common codec in %q, enabled %v: error %v", data, p.AnsEn, err)
			}
			return o.cls("no-common")
		}
		if err != nil {
			return bad("Answer to %q: %v", data, err)
		}
		if ans.SDP.Origin.SessionID != sess {
			return bad("session id is %d, want %d", ans.SDP.Origin.SessionID, sess)
		}
		cfg[1] = mc
		mem = ans
		if !slices.Contains(types, mc.Audio.Type) || mc.Audio.Codec == nil || mc.Audio.Codec.Info().SDPName != c30Codecs[best].name {
			return bad("answering %q with enabled %v chose %v of type %d, want %v with one of types %d", data, p.AnsEn, mc.Audio.Codec.Info().SDPName, mc.Audio.Type, c30Codecs[best].name, types)
		}
		if ans.Addr != ap[1] {
			return bad("address of the answer is %v, want %v", ans.Addr, ap[1])
		}
		if answer, err = ans.SDP.Marshal(); err != nil {
			return bad("Marshal: %v", err)
		}
		var d psdp.SessionDescription
		if err := d.Unmarshal(answer); err != nil {
			return bad("answer %q does not parse: %v", answer, err)
		}
		if d.Origin.SessionID != sess {
			return bad("session id in %q, want %d", answer, sess)
		}
		if e := c30CheckAnswer(&d, p.Port[1], ip[1].String(), c30Codecs[best].name, mc.Audio.Type, dt); e != "" {
			return bad("answer %q to %q: %s", answer, data, e)
		}
		o = o.cls("answered")
	} else {
		// A foreign answer with at most one codec that we know.
		answer = []byte(p.Ans.String())
		var ok bool
		if ap[1], ok = p.Ans.addr(); !ok {
			if _, err := sdp.ParseAnswer(answer); err == nil {
				return bad("accepted an answer without a usable audio address: %q", answer)
			}
			return Out{NT: true}.cls("bad-address")
		}
		best, dt = p.Ans.best(p.OffEn), p.Ans.dtmf()
		if best >= 0 {
			types = p.Ans.types(best)
		}
		o = o.cls("foreign-answer")
	}
	c30Enable(p.OffEn)
	if own == nil {
		// The foreign offerer, if it were the SDK with every codec.
		c30Enable(c30All)
		var err error
		if own, err = sdp.ParseOffer(data); err != nil {
			return bad("ParseOffer(%q): %v", data, err)
		}
	}
	ans, err := sdp.ParseAnswer(answer)
	if err != nil {
		return bad("ParseAnswer(%q): %v", answer, err)
	}
	if ans.Addr != ap[1] {
		return bad("ParseAnswer(%q): address %v, want %v", answer, ans.Addr, ap[1])
	}
	mc, err := ans.Apply(own, sdp.EncryptionAllow)
	if best < 0 {
		if !errors.Is(err, sdp.ErrNoCommonMedia) {
			return bad("no common codec in the answer %q: %v", answer, err)
		}
		return o.cls("no-common")
	}
	if err != nil {
		return bad("applying %q to %q: %v", answer, data, err)
	}
	cfg[0] = mc
	for i, c := range cfg {
		if c == nil {
			continue
		}
		if c.Local != ap[i] || c.Remote != ap[1-i] {
			return bad("side %d (offer %q, answer %q): addresses %v, %v; want %v, %v", i, data, answer, c.Local, c.Remote, ap[i], ap[1-i])
		}
		if c.Audio.Codec.Info().SDPName != c30Codecs[best].name || !slices.Contains(types, c.Audio.Type) || c.Audio.DTMFType != dt {
			return bad("side %d (offer %q, answer %q): %s type %d DTMF %d, want %s type %d DTMF %d", i, data, answer, c.Audio.Codec.Info().SDPName, c.Audio.Type, c.Audio.DTMFType, c30Codecs[best].name, types, dt)
		}
		if c.Crypto != nil {
			return bad("side %d: crypto configured", i)
		}
	}
	if mem != nil {
		// Without the way through text.
		mm, err := mem.Apply(own, sdp.EncryptionAllow)
		if err != nil {
			return bad("applying the unparsed answer %q to %q: %v", answer, data, err)
		}
		if c := cfg[0]; mm.Local != c.Local || mm.Remote != c.Remote || mm.Audio.Codec.Info().SDPName != c.Audio.Codec.Info().SDPName || mm.Audio.Type != c.Audio.Type || mm.Audio.DTMFType != c.Audio.DTMFType || mm.Crypto != nil {
			return bad("applying the unparsed answer %q to %q gives %+v, and the parsed one %+v", answer, data, mm, c)
		}
	}
	if cfg[1] != nil && cfg[0].Audio.Type != cfg[1].Audio.Type {
		return bad("offer %q, answer %q: types %d and %d", data, answer, cfg[0].Audio.Type, cfg[1].Audio.Type)
	}
	return o
}

type c30Sel struct {
	Prio   []int  `json:"prio"`
	Kind   []int  `json:"kind"` // 0: audio, 1: none, 2: not audio
	DTMF   byte   `json:"dtmf"`
	Answer bool   `json:"answer"`
	Types  []byte `json:"types"`
}

func c30SelRun(p c30Sel) Out {
	d := sdp.MediaDesc{DTMFType: p.DTMF}
	best, last, src := -1, -1, map[int]int{}
	for i, k := range p.Kind {
		c := sdp.CodecInfo{Type: p.Types[i]}
		info := media.CodecInfo{SDPName: fmt.Sprintf("c%d/8000", i), SampleRate: 8000, Priority: p.Prio[i]}
		switch k {
		case 3:
			// The same codec once more, with another type.
			if last >= 0 {
				c.Codec = d.Codecs[last].Codec
				src[i] = src[last]
				if best < 0 || !p.Answer && p.Prio[src[i]] > p.Prio[src[best]] {
					best = i
				}
			}
		case 0:
			last, src[i] = i, i
			c.Codec = rtp.NewAudioCodec[g711.ULawSample](info, nil, nil)
			if best < 0 || !p.Answer && p.Prio[i] > p.Prio[src[best]] {
				best = i
			}
		case 2:
			c.Codec = media.NewCodec(info)
		}
		d.Codecs = append(d.Codecs, c)
	}
	a, err := sdp.SelectAudio(d, p.Answer)
	if best < 0 {
		if !errors.Is(err, sdp.ErrNoCommonMedia) {
			return bad("SelectAudio of nothing usable: %v, %v", a, err)
		}
		return Out{NT: len(p.Kind) > 0}.cls("none")
	}
	if err != nil {
		return bad("SelectAudio: %v", err)
	}
	i, _ := strconv.Atoi(strings.TrimSuffix(a.Codec.Info().SDPName[1:], "/8000"))
	if i != src[best] || a.Type != p.Types[best] || a.DTMFType != p.DTMF {
		return bad("SelectAudio(%+v) chose codec %d with type %d, DTMF %d, want codec %d with type %d", p, i, a.Type, a.DTMFType, src[best], p.Types[best])
	}
	return Out{NT: len(p.Kind) > 1}.cls("some")
}

func genEn(t *rapid.T, name string) (en [4]bool) {
	for i := range en {
		en[i] = rapid.IntRange(0, 3).Draw(t, name) > 0
	}
	return
}

func init() {
	reg("C30", "exchange", opts{sec: [2]float64{6, 60}, rule: "always: a complete exchange, or a message that has to be refused"},
		func(t *rapid.T) c30Plan {
			p := c30Plan{OffEn: genEn(t, "offen"), AnsEn: genEn(t, "ansen")}
			for i := range 2 {
				p.IP[i] = genIP(t)
				p.Port[i] = rapid.IntRange(1, 65535).Draw(t, "port")
			}
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0, 1:
				x := genC30Text(t, func(int) bool { return true })
				p.Off = &x
			case 2:
				one := rapid.IntRange(0, 2).Draw(t, "one")
				used := false
				x := genC30Text(t, func(k int) bool {
					if k == 3 {
						return true
					}
					ok := k == one && !used
					used = used || ok
					return ok
				})
				p.Ans = &x
			}
			return p
		}, c30Run)
	reg("C30", "select", opts{sec: [2]float64{2, 15}, rule: "several codecs, or nothing usable"},
		func(t *rapid.T) c30Sel {
			n := crowd(t, 0, 6, 200, "n")
			return c30Sel{
				Prio:   rapid.SliceOfN(rapid.OneOf(rapid.IntRange(-3, 3), rapid.Int()), n, n).Draw(t, "prio"),
				Kind:   rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}), n, n).Draw(t, "kind"),
				Types:  rapid.SliceOfN(rapid.ByteRange(0, 127), n, n).Draw(t, "types"),
				DTMF:   rapid.ByteRange(0, 127).Draw(t, "dtmf"),
				Answer: rapid.Bool().Draw(t, "answer"),
			}
		}, c30SelRun)
	_ = srtp.Profile{}
}
