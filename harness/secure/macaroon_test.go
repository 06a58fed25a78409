//go:build go1.23

package secure

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"net"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"gopkg.in/macaroon-bakery.v2/bakery"
	"gopkg.in/macaroon-bakery.v2/bakery/checkers"
	"gopkg.in/macaroon.v2"
)

var (
	perms = []bakery.Op{
		{Entity: "market", Action: "read"}, {Entity: "market", Action: "write"}, {Entity: "wallet", Action: "read"}, {Entity: "wallet", Action: "write"},
		{Entity: "price", Action: "write"}, {Entity: "uri", Action: "/Operator/NewMarket"}, {Entity: "uri", Action: "/Wallet/SendToMany"}, {Entity: "market", Action: "reader"},
	}
	methods = []string{"/Operator/NewMarket", "/Wallet/SendToMany", "/Trade/TradePropose", "/operator/NewMarket"}
	rootIDs = []string{"0", "1", "0\x00", "second", "\xff", "00"}
	peers   = []string{"10.0.0.1:4321", "10.0.0.2:1", "[::1]:99", "[2001:db8::1]:443", "@unix"}
	locks   = []string{"10.0.0.1", "10.0.0.2", "::1", "2001:db8::1", "::ffff:10.0.0.1"}
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type caveat struct {
	kind   int // 0 timeout, 1 ip, 2 one nobody knows
	until  time.Time
	ip     string
	caveat string
}

// baked is a macaroon with what it should be good for.
type baked struct {
	mac     *macaroon.Macaroon
	id      string
	gen     int
	ops     map[bakery.Op]bool
	caveats []caveat
	foreign bool
}

type macModel struct {
	*story
	dir     string
	svc     *macaroons.Service
	other   *macaroons.Service
	open    bool
	made    bool
	pw      string
	gens    map[string]int // generation of the root key of an id, 0 for none
	lastGen int
	macs    []*baked
	listed  [][2][]byte // ids listed earlier: as given, and a copy
	good    int
	changes int
	afterPw int
}

func (m *macModel) start(dir string) *macaroons.Service {
	s, err := macaroons.NewService(dir, "tdexd", "macaroons.db", false, macaroons.IPLockChecker)
	if err != nil {
		m.fatalf("service: %v", err)
	}
	return s
}

func (m *macModel) unlock(pw string) {
	if !m.made {
		m.pw = pw
	}
	p := []byte(pw)
	err := m.svc.CreateUnlock(&p)
	m.did("unlock %q: %v", pw, err)
	if (err == nil) != (!m.open && pw == m.pw) {
		m.fatalf("unlock with %q gave %v, the password is %q (open %v)", pw, err, m.pw, m.open)
	}
	if err == nil {
		m.open, m.made = true, true
	}
}

func (m *macModel) mint(svc *macaroons.Service) {
	rt := m.rt
	id := rootIDs[within(rt, "id", len(rootIDs))]
	if within(rt, "zero", 3) > 0 {
		id = "0"
	}
	switch within(rt, "oddID", 25) {
	case 23:
		id = "enckey"
	case 24:
		id = ""
	}
	b := &baked{id: id, ops: map[bakery.Op]bool{}, foreign: svc != m.svc}
	list := []bakery.Op{}
	for i, n := 0, []int{1, 2, 3, 5}[within(rt, "ops", 4)]; i < n; i++ {
		op := perms[within(rt, "op", len(perms))]
		b.ops[op] = true
		list = append(list, op)
	}
	mac, err := svc.NewMacaroon(context.Background(), []byte(id), list...)
	ok := id != "" && id != "enckey" && (b.foreign || m.open)
	m.did("mint %q %v (foreign %v): %v", id, list, b.foreign, err)
	if (err == nil) != ok {
		m.fatalf("minting for root key %q gave %v (open %v)", id, err, m.open)
	}
	if err != nil {
		return
	}
	if !b.foreign {
		m.touch(id)
		b.gen = m.gens[id]
	}
	b.mac = mac.M()
	m.macs = append(m.macs, b)
}

// touch makes the root key of an id.
func (m *macModel) touch(id string) {
	if m.gens[id] == 0 {
		m.lastGen++
		m.gens[id] = m.lastGen
	}
}

func (m *macModel) constrain() {
	rt := m.rt
	if len(m.macs) == 0 {
		return
	}
	b := m.macs[within(rt, "mac", len(m.macs))]
	n := *b
	n.caveats = append([]caveat{}, b.caveats...)
	cs := []macaroons.Constraint{}
	for i, k := 0, 1+within(rt, "caveats", 2); i < k; i++ {
		c := caveat{kind: []int{0, 1, 0, 1, 2}[within(rt, "caveat", 5)]}
		switch c.kind {
		case 0:
			secs := []int64{60, 600, 1, 86400, 0, -5}[within(rt, "seconds", 6)]
			c.until = time.Now().Add(time.Duration(secs) * time.Second)
			cs = append(cs, macaroons.TimeoutConstraint(secs))
		case 1:
			c.ip = locks[within(rt, "ip", len(locks))]
			cs = append(cs, macaroons.IPLockConstraint(c.ip))
		default:
			text := []string{"unknown 1", "ipaddr", "time-before tomorrow", "error no", "ip-addr 10.0.0.1", ""}[within(rt, "text", 6)]
			cs = append(cs, func(mac *macaroon.Macaroon) error { return mac.AddFirstPartyCaveat([]byte(text)) })
			c.caveat = text
		}
		n.caveats = append(n.caveats, c)
	}
	sig := append([]byte{}, b.mac.Signature()...)
	mac, err := macaroons.AddConstraints(b.mac, cs...)
	m.did("constrain %d: %v", len(m.macs), n.caveats)
	if err != nil {
		m.fatalf("constraints: %v", err)
	}
	if !bytes.Equal(sig, b.mac.Signature()) || len(b.mac.Caveats()) != len(b.caveats) {
		m.fatalf("adding constraints altered the macaroon given")
	}
	n.mac = mac
	m.macs = append(m.macs, &n)
}

func sameMac(a, b *macaroon.Macaroon) bool {
	if !bytes.Equal(a.Id(), b.Id()) || !bytes.Equal(a.Signature(), b.Signature()) || len(a.Caveats()) != len(b.Caveats()) {
		return false
	}
	for i, c := range a.Caveats() {
		d := b.Caveats()[i]
		if !bytes.Equal(c.Id, d.Id) || !bytes.Equal(c.VerificationId, d.VerificationId) {
			return false
		}
	}
	return true
}

func (m *macModel) holds(c caveat, from string) bool {
	switch c.kind {
	case 0:
		return time.Now().Before(c.until)
	case 1:
		host, _, err := net.SplitHostPort(from)
		return err == nil && net.ParseIP(host) != nil && net.ParseIP(host).Equal(net.ParseIP(c.ip))
	}
	return false
}

// validate asks for some permissions with a macaroon, at times an altered one.
func (m *macModel) validate() {
	rt := m.rt
	if len(m.macs) == 0 {
		return
	}
	b := m.macs[len(m.macs)-1-within(rt, "mac", len(m.macs))]
	raw, err := b.mac.MarshalBinary()
	if err != nil {
		m.fatalf("[verif-error] %v", err)
	}
	how, genuine := "as it is", true
	if rarely(rt, "tamper", 35) {
		genuine = false
		switch within(rt, "how", 7) {
		case 0:
			raw = append([]byte{}, raw...)
			i := within(rt, "at", len(raw)*8)
			raw[i/8] ^= 1 << (i % 8)
			how = fmt.Sprintf("with bit %d flipped", i)
		case 1:
			raw = raw[:within(rt, "cut", len(raw))]
			how = "cut"
		case 2: // without the last caveat
			c := b.mac.Caveats()
			if len(c) == 0 {
				return
			}
			raw = rebuild(b.mac, b.mac.Id(), c[:len(c)-1], b.mac.Signature())
			how = "without the last caveat"
		case 3: // with the rights of another one
			o := m.macs[within(rt, "other", len(m.macs))]
			raw = rebuild(b.mac, o.mac.Id(), b.mac.Caveats(), b.mac.Signature())
			how = "with another id"
		case 4: // with any signature
			sig := append([]byte{}, b.mac.Signature()...)
			sig[within(rt, "byte", len(sig))] ^= byte(1 + within(rt, "bits", 255))
			raw = rebuild(b.mac, b.mac.Id(), b.mac.Caveats(), sig)
			how = "with another signature"
		case 5: // signed with a key of the attacker
			mac, err := macaroon.New([]byte("attacker"), b.mac.Id(), b.mac.Location(), macaroon.LatestVersion)
			if err != nil {
				m.fatalf("[verif-error] %v", err)
			}
			raw, _ = mac.MarshalBinary()
			how = "signed by another"
		default: // caveats swapped
			c := append([]macaroon.Caveat{}, b.mac.Caveats()...)
			if len(c) < 2 {
				return
			}
			c[0], c[len(c)-1] = c[len(c)-1], c[0]
			raw = rebuild(b.mac, b.mac.Id(), c, b.mac.Signature())
			how = "with swapped caveats"
		}
		x := &macaroon.Macaroon{}
		if x.UnmarshalBinary(raw) == nil && sameMac(x, b.mac) {
			genuine, how = true, how+" (which is the same)" // the location is not part of it
		}
	}
	text := hex.EncodeToString(raw)
	if rarely(rt, "upper", 5) {
		text = strings.ToUpper(text)
	}
	from := peers[within(rt, "peer", len(peers))]
	for _, c := range b.caveats {
		if c.kind == 1 && chance(rt, "rightPeer", 70) {
			from = net.JoinHostPort(c.ip, "7")
		}
	}
	need := []bakery.Op{}
	have := []bakery.Op{}
	for op := range b.ops {
		have = append(have, op)
	}
	sort.Slice(have, func(i, j int) bool { return fmt.Sprint(have[i]) < fmt.Sprint(have[j]) })
	for i, n := 0, 1+within(rt, "needs", 3); i < n; i++ {
		if chance(rt, "granted", 80) {
			need = append(need, have[within(rt, "need", len(have))])
		} else {
			need = append(need, perms[within(rt, "need", len(perms))])
		}
	}
	method := methods[within(rt, "method", len(methods))]
	ctx := context.Background()
	n := 1
	if rarely(rt, "count", 6) {
		n = []int{0, 2, -1}[within(rt, "macaroons", 3)]
	}
	if n >= 0 {
		md := metadata.MD{}
		for i := 0; i < n; i++ {
			md.Append("macaroon", text)
		}
		ctx = metadata.NewIncomingContext(ctx, md)
	}
	if !rarely(rt, "noPeer", 4) {
		ctx = peer.NewContext(ctx, &peer.Peer{Addr: addr(from)})
	} else {
		from = ""
	}
	err = m.svc.ValidateMacaroon(ctx, need, method)
	allowed := true
	for _, op := range need {
		allowed = allowed && b.ops[op]
	}
	allowed = allowed || b.ops[bakery.Op{Entity: "uri", Action: method}]
	held := true
	for _, c := range b.caveats {
		held = held && m.holds(c, from)
	}
	minted := !b.foreign && b.gen != 0 && m.gens[b.id] == b.gen
	ok := m.open && genuine && minted && allowed && held && n == 1
	if (err == nil) != ok {
		m.fatalf("macaroon for %v with caveats %v, root key %q, foreign %v, %s, given %d times from %q for %v of %s: %v; open %v minted %v allowed %v caveats hold %v",
			have, b.caveats, b.id, b.foreign, how, n, from, need, method, err, m.open, minted, allowed, held)
	}
	if ok {
		m.good++
		if m.changes > 0 {
			m.afterPw++
		}
	}
}

// rebuild serialises a macaroon of any parts (the v2 binary format).
func rebuild(mac *macaroon.Macaroon, id []byte, caveats []macaroon.Caveat, sig []byte) []byte {
	b := []byte{2}
	field := func(t byte, data []byte) {
		b = append(b, t)
		n := len(data)
		for n >= 128 {
			b = append(b, byte(n)|128)
			n >>= 7
		}
		b = append(b, byte(n))
		b = append(b, data...)
	}
	if mac.Location() != "" {
		field(1, []byte(mac.Location()))
	}
	field(2, id)
	b = append(b, 0)
	for _, c := range caveats {
		field(2, c.Id)
		b = append(b, 0)
	}
	b = append(b, 0)
	field(6, sig)
	return b
}

func (m *macModel) step() {
	rt := m.rt
	switch n := within(rt, "step", 24); {
	case n < 5:
		svc := m.svc
		if rarely(rt, "foreign", 15) {
			svc = m.other
		}
		m.mint(svc)
	case n < 8:
		m.constrain()
	case n < 15:
		m.validate()
	case n < 17:
		d := []time.Duration{time.Second, time.Minute - time.Second, time.Minute, time.Hour, time.Nanosecond}[within(rt, "pass", 5)]
		time.Sleep(d)
		m.did("%v pass", d)
	case n < 18: // delete
		id := rootIDs[within(rt, "id", len(rootIDs))]
		if rarely(rt, "odd", 15) {
			id = []string{"enckey", "", "nothing"}[within(rt, "oddID", 3)]
		}
		got, err := m.svc.DeleteMacaroonID(context.Background(), []byte(id))
		m.did("delete %q: %q %v", id, got, err)
		if ok := m.open && id != "" && id != "enckey" && id != "0"; (err == nil) != ok {
			m.fatalf("deletion of root key %q gave %v (open %v)", id, err, m.open)
		}
		if err == nil {
			if (string(got) == id) != (m.gens[id] != 0) {
				m.fatalf("deletion of root key %q gave %q, there %v", id, got, m.gens[id] != 0)
			}
			delete(m.gens, id)
		}
	case n < 19: // renew the default key
		err := m.svc.GenerateNewRootKey()
		m.did("new root key: %v", err)
		if (err == nil) != m.open {
			m.fatalf("new root key: %v (open %v)", err, m.open)
		}
		if err == nil {
			m.lastGen++
			m.gens["0"] = m.lastGen
		}
	case n < 21: // password
		old, to := m.pw, genPassword(rt, m.pw)
		if rarely(rt, "wrong", 25) {
			old = genPassword(rt, m.pw)
		}
		o, p := []byte(old), []byte(to)
		switch within(rt, "nil", 16) {
		case 14:
			o = nil
		case 15:
			p = nil
		}
		err := m.svc.ChangePassword(o, p)
		m.did("password from %q to %q (nil %v %v): %v", old, to, o == nil, p == nil, err)
		ok := m.open && old == m.pw && o != nil && p != nil
		if ok && m.gens["0"] == 0 {
			ok = err == nil // may need the default key to be there
		}
		if (err == nil) != ok {
			m.fatalf("password from %q to %q (nil %v %v) gave %v, it is %q (open %v)", old, to, o == nil, p == nil, err, m.pw, m.open)
		}
		if err == nil {
			m.pw = to
			m.changes++
		}
	case n < 22: // restart
		if err := m.svc.Close(); err != nil {
			m.fatalf("close: %v", err)
		}
		m.svc, m.open, m.listed = m.start(m.dir), false, nil
		m.did("restart")
		m.validate()
		pw := m.pw
		if rarely(rt, "wrong", 40) {
			pw = genPassword(rt, m.pw)
		}
		m.unlock(pw)
	case n < 23:
		m.unlock(m.pw)
	default:
		m.list()
	}
	for _, l := range m.listed {
		if !bytes.Equal(l[0], l[1]) {
			m.fatalf("a listed root key id turned from %q into %q", l[1], l[0])
		}
	}
}

func (m *macModel) list() {
	ids, err := m.svc.ListMacaroonIDs(context.Background())
	if (err == nil) != m.open {
		m.fatalf("listing: %v (open %v)", err, m.open)
	}
	if err != nil {
		return
	}
	got, want := []string{}, []string{}
	for _, id := range ids {
		got = append(got, string(id))
		m.listed = append(m.listed, [2][]byte{id, append([]byte{}, id...)})
	}
	for id := range m.gens {
		want = append(want, id)
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		m.fatalf("root keys %q listed, want %q", got, want)
	}
}

func TestC26Macaroons(t *testing.T) {
	rule := "histories of 10-50 steps: minting (several root keys, by another service too), constraining, validating (also altered in 7 ways), time passing, root keys renewed and deleted, password changes and restarts; each verdict compared with a reference; non-trivial: something valid after a change of password, and 3 valid ones"
	vt.Check(t, 4000, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		rapid.SyncTest(rt, func(rt *rapid.T) {
			m := &macModel{story: &story{rt: rt}, gens: map[string]int{}}
			m.dir = tempDir(rt)
			m.svc, m.other = m.start(m.dir), m.start(tempDir(rt))
			defer func() { m.svc.Close(); m.other.Close() }()
			pw := []byte("password")
			if err := m.other.CreateUnlock(&pw); err != nil {
				rt.Fatal(err)
			}
			if chance(rt, "start", 92) {
				m.unlock(genPassword(rt, "none"))
				m.mint(m.svc)
			}
			for i, n := 0, rapid.IntRange(10, 50).Draw(rt, "steps"); i < n; i++ {
				m.step()
			}
			if !m.open {
				m.unlock(m.pw)
			}
			if m.open {
				m.list()
				for i := 0; i < 5; i++ {
					m.validate()
				}
			}
			c.Class("valid=%v changes=%v", m.good > 0, m.changes > 0)
			if m.afterPw > 0 && m.good > 2 {
				c.NonTrivial("%v", m.String())
			}
		})
	})
}

var _ = checkers.New
