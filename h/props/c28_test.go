package props

import (
	"errors"
	"fmt"
	"net"
	"net/netip"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/livekit/media-sdk/rtp"
	"pgregory.net/rapid"
)

// C28: listening on a range of UDP ports. Every case works on a loopback
// address of its own, so that the set of occupied ports is exactly the plan's.
// Wildcard addresses use ports 10000-30000, a part for each worker; loopback
// addresses use other ports, and so does the kernel (32768-60999).

type c28Plan struct {
	IP   string `json:"ip"` // own: 127.x.y.z, any4, any6, lo6, none, foreign
	Base int    `json:"base"`
	Size int    `json:"size"`          // ports in the range; 0 and less: empty range
	Open string `json:"open"`          // both, min, max: bounds that are not given
	Neg  int    `json:"neg"`           // value used for these bounds
	Occ  []int  `json:"occ"`           // occupied offsets
	Sim  bool   `json:"sim,omitempty"` // occupied ports are simulated with the listen configuration
	All  bool   `json:"all"`           // everything is occupied
	Free int    `json:"free"`          // with All: except this offset
	Cfg  bool   `json:"cfg"`
	Fail int    `json:"fail"` // the n-th socket fails with another error (needs Cfg)
	Par  int    `json:"par"`  // concurrent calls
	High int    `json:"high"` // added to the upper bound 65535
	Salt int    `json:"salt"`
}

// c28FDs counts the open sockets of this process. Other descriptors are left
// out: the runtime opens some of its own at any time.
func c28FDs() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range d {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

var c28Priv = sync.OnceValue(func() bool {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 9, 9, 9), Port: 7})
	if err == nil {
		c.Close()
	}
	return err == nil
})

var c28V6 = sync.OnceValue(func() bool {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv6loopback})
	if err == nil {
		c.Close()
	}
	return err == nil
})

// c28Link returns an address that needs a zone, if there is one we can use.
var c28Link = sync.OnceValue(func() netip.Addr {
	ifs, _ := net.Interfaces()
	for _, i := range ifs {
		addrs, _ := i.Addrs()
		for _, a := range addrs {
			if n, ok := a.(*net.IPNet); ok && n.IP.To4() == nil && n.IP.IsLinkLocalUnicast() {
				c, err := net.ListenUDP("udp", &net.UDPAddr{IP: n.IP, Zone: i.Name})
				if err != nil {
					continue
				}
				c.Close()
				ip, _ := netip.AddrFromSlice(n.IP)
				return ip.WithZone(i.Name)
			}
		}
	}
	return netip.Addr{}
})

var errC28 = errors.New("c28: no socket for you")

func c28Run(p c28Plan) Out {
	worker := int(envInt("VP_WORKER", 0)) + 1
	var ip netip.Addr
	wild := false
	switch p.IP {
	case "own":
		ip = netip.AddrFrom4([4]byte{127, byte(worker), byte(p.Salt), byte(1 + p.Salt>>8&0x7f)})
	case "lo6":
		ip = netip.IPv6Loopback()
	case "mapped": // an IPv4 address as IPv6
		ip = netip.AddrFrom16(netip.AddrFrom4([4]byte{127, byte(worker), byte(p.Salt), byte(1 + p.Salt>>8&0x7f)}).As16())
	case "link":
		if ip = c28Link(); !ip.IsValid() {
			return Out{}.cls("no-link-local")
		}
	case "any4":
		ip, wild = netip.IPv4Unspecified(), true
	case "any6":
		ip, wild = netip.IPv6Unspecified(), true
	case "none":
		wild = true
	case "foreign":
		ip = netip.MustParseAddr("203.0.113.77")
	}
	if (p.IP == "lo6" || p.IP == "any6") && !c28V6() {
		return Out{}.cls("no-ipv6")
	}
	lo := p.Base
	if p.IP != "own" {
		// Ports are shared with the other workers.
		lo = 10000 + worker*2000 + p.Base%1900
	}
	hi := lo + p.Size - 1
	if hi > 65535 {
		hi = 65535
	}
	amin, amax := lo, hi // arguments
	switch p.Open {
	case "both":
		amin, amax = p.Neg, -p.Neg*p.Neg
		lo, hi = 1, 65535
	case "min":
		amin = p.Neg
		lo = 1
		if !c28Priv() {
			return Out{}.cls("no-privileged-ports")
		}
	case "max":
		amax = p.Neg
		hi = 65535
	}
	if p.Open == "" && hi == 65535 {
		amax += p.High
	}
	base := hi - p.Size + 1
	var holders []*net.UDPConn
	defer func() {
		for _, c := range holders {
			c.Close()
		}
	}()
	occ := map[int]bool{}
	hold := func(port int) {
		if port < lo || port > hi || occ[port] {
			return
		}
		if p.Sim {
			occ[port] = true
			return
		}
		// A port that we cannot get is occupied, too.
		c, err := net.ListenUDP("udp", &net.UDPAddr{IP: ip.AsSlice(), Port: port, Zone: ip.Zone()})
		if err == nil {
			holders = append(holders, c)
		}
		occ[port] = true
	}
	if p.IP != "foreign" && p.Open != "both" {
		if p.All && (p.Open != "min" || p.Sim) {
			n := hi - lo + 1
			if n > 600 && !p.Sim {
				return Out{}
			}
			for i := range n {
				if i != p.Free {
					hold(lo + i)
				}
			}
		}
		for _, o := range p.Occ {
			hold(base + o)
		}
	}
	free := hi - lo + 1 - len(occ)
	if free < 0 {
		free = 0
	}
	var calls atomic.Int32
	lc := &net.ListenConfig{Control: func(network, address string, c syscall.RawConn) error {
		if int(calls.Add(1)) == p.Fail {
			return errC28
		}
		if p.Sim {
			if a, err := netip.ParseAddrPort(address); err == nil && occ[int(a.Port())] {
				return os.NewSyscallError("bind", syscall.EADDRINUSE)
			}
		}
		// Something the caller can recognise on the socket.
		var e error
		err := c.Control(func(fd uintptr) {
			e = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_PRIORITY, 3)
		})
		return errors.Join(err, e)
	}}
	fds := c28FDs()
	listen := func() (*net.UDPConn, error) {
		if p.Cfg {
			return rtp.ListenUDPPortRangeWithConfig(amin, amax, ip, lc)
		}
		return rtp.ListenUDPPortRange(amin, amax, ip)
	}
	par := max(p.Par, 1)
	if p.Fail > 0 && p.Cfg {
		par = 1
	}
	conns := make([]*net.UDPConn, par)
	errs := make([]error, par)
	var wg sync.WaitGroup
	for i := range par {
		wg.Add(1)
		go func() {
			defer wg.Done()
			conns[i], errs[i] = listen()
		}()
	}
	wg.Wait()
	defer func() {
		for _, c := range conns {
			if c != nil {
				c.Close()
			}
		}
	}()
	ok := 0
	seen := map[int]bool{}
	what := fmt.Sprintf("range %d..%d (arguments %d, %d) on %v, %d free", lo, hi, amin, amax, ip, free)
	for i, err := range errs {
		if err == nil {
			ok++
			if conns[i] == nil {
				return bad("%s: neither socket nor error", what)
			}
			a := conns[i].LocalAddr().(*net.UDPAddr)
			if a.Port < lo || a.Port > hi || occ[a.Port] || seen[a.Port] {
				return bad("%s: got port %d (occupied: %v)", what, a.Port, occ[a.Port] || seen[a.Port])
			}
			seen[a.Port] = true
			if wild && !a.IP.IsUnspecified() || !wild && (!a.IP.Equal(ip.AsSlice()) || a.Zone != ip.Zone()) {
				return bad("%s: got address %v", what, a)
			}
			if p.Cfg {
				prio := 0
				rc, _ := conns[i].SyscallConn()
				_ = rc.Control(func(fd uintptr) { prio, _ = syscall.GetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_PRIORITY) })
				if prio != 3 {
					return bad("%s: the listen configuration was not applied", what)
				}
			}
			continue
		}
		if conns[i] != nil {
			return bad("%s: a socket and the error %v", what, err)
		}
		switch {
		case p.Cfg && p.Fail > 0 && int(calls.Load()) >= p.Fail:
			if !errors.Is(err, errC28) || int(calls.Load()) != p.Fail {
				return bad("%s: %v after %d sockets, socket %d failed with %v", what, err, calls.Load(), p.Fail, errC28)
			}
		case p.IP == "foreign":
			if errors.Is(err, rtp.ErrListenFailed) != (lo > hi) || lo <= hi && !errors.Is(err, syscall.EADDRNOTAVAIL) {
				return bad("%s: %v", what, err)
			}
		case amin == amax && amin > 0:
			// A single port: the error of the bind itself.
			if !errors.Is(err, syscall.EADDRINUSE) && !errors.Is(err, rtp.ErrListenFailed) {
				return bad("%s: %v", what, err)
			}
		default:
			if !errors.Is(err, rtp.ErrListenFailed) {
				return bad("%s: %v", what, err)
			}
		}
	}
	if p.IP == "foreign" {
		if ok > 0 {
			return bad("%s: got a socket on a foreign address", what)
		}
	} else if p.Fail > 0 && p.Cfg && int(calls.Load()) >= p.Fail {
		if ok > 0 {
			return bad("%s: the error of the listen configuration is hidden", what)
		}
	} else if want := min(par, free); ok != want {
		return bad("%s: %d of %d calls succeeded: %v", what, ok, par, errors.Join(errs...))
	}
	for _, c := range conns {
		if c != nil {
			c.Close()
		}
	}
	n := c28FDs()
	for i := 0; n != fds && i < 50; i++ {
		time.Sleep(10 * time.Millisecond)
		n = c28FDs()
	}
	if n != fds {
		return bad("%s: %d sockets before, %d after", what, fds, n)
	}
	o := Out{NT: len(occ) > 0 && lo < hi || p.Open != "" || p.IP == "foreign" || lo > hi}
	for c, y := range map[string]bool{p.IP: true, "config": p.Cfg, "full": free == 0 && lo <= hi, "one-free": free == 1, "empty-range": lo > hi, "open-" + p.Open: p.Open != "", "parallel": par > 1} {
		if y {
			o = o.cls(c)
		}
	}
	return o
}

func init() {
	reg("C28", "range", opts{sec: [2]float64{6, 60}, rule: "some port of a range of several is occupied, or a bound is open, or the range is empty, or the address is foreign"},
		func(t *rapid.T) c28Plan {
			p := c28Plan{
				IP:   rapid.SampledFrom([]string{"own", "own", "own", "own", "own", "lo6", "any4", "any6", "none", "foreign", "mapped", "link"}).Draw(t, "ip"),
				Base: rapid.OneOf(rapid.IntRange(1100, 9900), rapid.IntRange(61100, 65535), rapid.IntRange(65510, 65535)).Draw(t, "base"),
				Size: rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 6), rapid.IntRange(7, 40), rapid.IntRange(-3, 1)).Draw(t, "size"),
				Cfg:  rapid.Bool().Draw(t, "cfg"),
				Par:  rapid.SampledFrom([]int{1, 1, 1, 2, 4, 8}).Draw(t, "par"),
				High: rapid.SampledFrom([]int{0, 0, 1, 5000}).Draw(t, "high"),
				Salt: rapid.IntRange(0, 1<<15-1).Draw(t, "salt"),
			}
			p.Open = rapid.SampledFrom([]string{"", "", "", "", "", "both", "min", "max"}).Draw(t, "open")
			p.Neg = rapid.SampledFrom([]int{0, 0, -1, -5000}).Draw(t, "neg")
			if p.Open == "min" {
				// The chosen port must not get in the way of other workers.
				p.IP, p.Base, p.Size = "own", rapid.IntRange(1100, 9900).Draw(t, "obase"), min(p.Size, 40)
			}
			if p.Open == "max" {
				p.IP = "own"
				p.Base = rapid.IntRange(65490, 65535).Draw(t, "obase")
			}
			if p.Size > 0 {
				p.Occ = rapid.SliceOfN(rapid.IntRange(0, p.Size-1), 0, 2*p.Size).Draw(t, "occ")
			}
			if rapid.IntRange(0, 2).Draw(t, "all?") == 0 {
				p.All = true
				p.Free = rapid.IntRange(-1, max(p.Size, 0)).Draw(t, "free")
				p.Occ = nil
			}
			if p.Cfg && rapid.IntRange(0, 3).Draw(t, "fail?") == 0 {
				p.Fail = rapid.IntRange(1, 4).Draw(t, "fail")
			}
			if rapid.IntRange(0, 127).Draw(t, "sim?") == 77 {
				// A wide range with little room.
				p.IP, p.Open, p.Cfg, p.Sim, p.Fail, p.All, p.Occ = "own", "", true, true, 0, true, nil
				p.Base = rapid.IntRange(1100, 40000).Draw(t, "wide")
				p.Size = rapid.OneOf(rapid.IntRange(100, 2000), rapid.IntRange(100, 2000), rapid.IntRange(2000, 25000)).Draw(t, "width")
				p.Free = rapid.IntRange(-1, p.Size).Draw(t, "room")
			}
			return p
		}, c28Run)
	// The whole port space, and what bounds that are not given leave of it: all ports but one are (simulated to be) taken.
	regList("C28", "space", opts{rule: "all"},
		func(_ int, seed int64, yield func(c28Plan) bool) {
			for i, x := range []c28Plan{
				{Base: 1, Size: 65535, Free: 1023},
				{Base: 1, Size: 65535, Free: -1},
				{Base: 1, Size: 65535, Free: 65534},
				{Base: 65535, Size: 1, Open: "min", Free: 5000, Neg: -1},
				{Base: 65535, Size: 1, Open: "min", Free: 0},
				{Base: 1, Size: 1, Open: "max", Free: 65534},
				{Base: 1, Size: 1, Open: "max", Free: 1100, Neg: -3},
				{Base: 1024, Size: 65535 - 1023, Free: 20},
				{Base: 30500, Size: 30000, Free: 500},
				{Base: 1, Size: 32767, Free: 1100},
				{Base: 1, Size: 65535, Free: 1100, High: 10},
			} {
				x.IP, x.Cfg, x.Sim, x.All, x.Par, x.Salt = "own", true, true, true, 1, int(seed%1000)*16+i
				if !yield(x) {
					return
				}
			}
		}, c28Run)
}
