//go:build go1.23

package rpc

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/emptypb"
	"gopkg.in/macaroon.v2"

	"github.com/tdex-network/tdex-daemon/config"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/interfaces"
	grpcinterface "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/pkg/macaroons"

	_ "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	_ "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	_ "github.com/tdex-network/tdex-protobuf/generated/go/trade"
)

// policy tells what area a call belongs to and if it changes anything. Those
// that are open need no macaroon.
var policy = map[string]string{
	"/Operator/DepositMarket":             "market write",
	"/Operator/ListDepositMarket":         "market read",
	"/Operator/DepositFeeAccount":         "market write",
	"/Operator/BalanceFeeAccount":         "market read",
	"/Operator/ClaimMarketDeposit":        "market write",
	"/Operator/ClaimFeeDeposit":           "market write",
	"/Operator/OpenMarket":                "market write",
	"/Operator/CloseMarket":               "market write",
	"/Operator/ListMarket":                "market read",
	"/Operator/UpdateMarketPercentageFee": "market write",
	"/Operator/UpdateMarketFixedFee":      "market write",
	"/Operator/UpdateMarketStrategy":      "market write",
	"/Operator/DropMarket":                "market write",
	"/Operator/ReportMarketFee":           "market read",
	"/Operator/UpdateMarketPrice":         "price write",
	"/Operator/WithdrawMarket":            "operator write",
	"/Operator/ReloadUtxos":               "operator write",
	"/Operator/ListTrades":                "operator read",
	"/Operator/ListUtxos":                 "operator read",
	"/Operator/AddWebhook":                "webhook write",
	"/Operator/RemoveWebhook":             "webhook write",
	"/Operator/ListWebhooks":              "webhook read",
	"/Wallet/WalletAddress":               "wallet write",
	"/Wallet/WalletBalance":               "wallet read",
	"/Wallet/SendToMany":                  "wallet write",
	"/Wallet/GenSeed":                     "open",
	"/Wallet/InitWallet":                  "open",
	"/Wallet/UnlockWallet":                "open",
	"/Wallet/ChangePassword":              "open",
	"/Trade/Markets":                      "open",
	"/Trade/Balances":                     "open",
	"/Trade/MarketPrice":                  "open",
	"/Trade/TradePropose":                 "open",
	"/Trade/TradeComplete":                "open",
}

// opens tells if a macaroon file opens a call.
func opens(file, what string) bool {
	area := strings.Fields(what)[0]
	switch file {
	case "admin":
		return true
	case "readonly":
		return strings.HasSuffix(what, " read")
	case "market":
		return area == "market" || area == "price"
	default:
		return area == file
	}
}

var files = []string{"admin", "readonly", "market", "price", "wallet", "webhook"}

type method struct {
	name   string
	stream bool
	body   []byte // of a valid request
}

// methods are all those of the servers.
var methods = func() (r []method) {
	for _, s := range []string{"Operator", "Wallet", "Trade"} {
		d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(s))
		if err != nil {
			panic("[verif-error] " + err.Error())
		}
		l := d.(protoreflect.ServiceDescriptor).Methods()
		for i := 0; i < l.Len(); i++ {
			m := l.Get(i)
			t, err := protoregistry.GlobalTypes.FindMessageByName(m.Input().FullName())
			if err != nil {
				panic("[verif-error] " + err.Error())
			}
			b, err := proto.Marshal(fill(t.New()).Interface())
			if err != nil {
				panic("[verif-error] " + err.Error())
			}
			r = append(r, method{"/" + s + "/" + string(m.Name()), m.IsStreamingServer(), b})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return
}()

// fill sets every field to something reasonable.
func fill(m protoreflect.Message) protoreflect.Message {
	other := strings.Repeat("ab", 32)
	scalar := func(f protoreflect.FieldDescriptor) protoreflect.Value {
		switch f.Kind() {
		case protoreflect.StringKind:
			switch {
			case f.Name() == "base_asset":
				return protoreflect.ValueOfString(config.GetString(config.BaseAssetKey))
			case f.Name() == "endpoint":
				return protoreflect.ValueOfString("http://127.0.0.1:9/hook")
			}
			return protoreflect.ValueOfString(other)
		case protoreflect.BytesKind:
			return protoreflect.ValueOfBytes([]byte("password"))
		case protoreflect.EnumKind:
			return protoreflect.ValueOfEnum(f.Enum().Values().Get(0).Number())
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(false)
		case protoreflect.Int32Kind:
			return protoreflect.ValueOfInt32(1)
		case protoreflect.Int64Kind:
			return protoreflect.ValueOfInt64(100)
		case protoreflect.Uint32Kind:
			return protoreflect.ValueOfUint32(1)
		case protoreflect.Uint64Kind:
			return protoreflect.ValueOfUint64(100)
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32(1)
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(1)
		}
		panic("[verif-error] unknown kind " + f.Kind().String())
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		switch {
		case f.IsMap():
			v := m.Mutable(f).Map()
			if f.MapValue().Kind() == protoreflect.MessageKind {
				e := v.NewValue()
				fill(e.Message())
				v.Set(protoreflect.ValueOfString("k").MapKey(), e)
			} else {
				v.Set(protoreflect.ValueOfString("k").MapKey(), scalar(f.MapValue()))
			}
		case f.IsList():
			v := m.Mutable(f).List()
			if f.Kind() == protoreflect.MessageKind {
				fill(v.AppendMutable().Message())
			} else {
				v.Append(scalar(f))
			}
		case f.Kind() == protoreflect.MessageKind:
			fill(m.Mutable(f).Message())
		default:
			m.Set(f, scalar(f))
		}
	}
	return m
}

// raw is a request already encoded.
type raw []byte

type codec struct{}

func (codec) Marshal(v interface{}) ([]byte, error)   { return v.(raw), nil }
func (codec) Unmarshal(b []byte, v interface{}) error { return nil }
func (codec) Name() string                            { return "proto" }

// daemon is a running instance of the interfaces.
type daemon struct {
	rt      *rapid.T
	dir, ip string
	noAuth  bool
	svc     interfaces.Service
	hit     *calls
	pass    chan application.PassphraseMsg
	conns   map[string]*grpc.ClientConn
}

const operatorPort, tradePort = "19000", "19945"

var nextIP int

func opts(dir string, noAuth bool, hit *calls, pass chan application.PassphraseMsg) grpcinterface.ServiceOpts {
	return grpcinterface.ServiceOpts{
		NoMacaroons: noAuth, Datadir: dir, DBLocation: "db", TLSLocation: "tls", MacaroonsLocation: "macaroons",
		WalletSvc: walletStub{calls: hit, passphrases: pass}, OperatorSvc: operatorStub{calls: hit}, TradeSvc: tradeStub{calls: hit},
	}
}

// startDaemon looks for an address nobody else uses: every process has its own.
func startDaemon(rt *rapid.T, dir string, noAuth bool) *daemon {
	d := &daemon{rt: rt, dir: dir, noAuth: noAuth, hit: &calls{}, pass: make(chan application.PassphraseMsg), conns: map[string]*grpc.ClientConn{}}
	svc, err := grpcinterface.NewService(opts(dir, noAuth, d.hit, d.pass))
	if err != nil {
		rt.Fatalf("the daemon does not start: %v", err)
	}
	d.svc = svc
	d.listen()
	return d
}

func (d *daemon) listen() {
	for try := 0; ; try++ {
		nextIP++
		d.ip = fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()%250, os.Getpid()/250%250, 1+nextIP%250)
		err := d.svc.Start(d.ip+":"+operatorPort, d.ip+":"+tradePort, "", "")
		if err == nil {
			return
		}
		if try == 20 {
			d.rt.Fatalf("the daemon does not start: %v", err)
		}
	}
}

func (d *daemon) stop() {
	for _, c := range d.conns {
		c.Close()
	}
	done := make(chan struct{})
	go func() { d.svc.Stop(); close(d.pass); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		d.rt.Fatalf("the daemon does not stop")
	}
}

func (d *daemon) tls() *tls.Config {
	b, err := os.ReadFile(filepath.Join(d.dir, "tls", "cert.pem"))
	pool := x509.NewCertPool()
	if err != nil || !pool.AppendCertsFromPEM(b) {
		d.rt.Fatalf("no certificate of the operator interface: %v", err)
	}
	return &tls.Config{RootCAs: pool, ServerName: "localhost"}
}

func dialer(from string) *net.Dialer {
	return &net.Dialer{Timeout: 10 * time.Second, LocalAddr: &net.TCPAddr{IP: net.ParseIP(from)}}
}

const home = "127.0.0.1"

// conn is a connection to one of the interfaces from an address.
func (d *daemon) conn(port, from string, plain bool) *grpc.ClientConn {
	k := fmt.Sprint(port, from, plain)
	if d.conns[k] == nil {
		o := grpc.WithInsecure()
		if !plain {
			o = grpc.WithTransportCredentials(credentials.NewTLS(d.tls()))
		}
		c, err := grpc.Dial(d.ip+":"+port, o, grpc.WithContextDialer(func(ctx context.Context, a string) (net.Conn, error) {
			return dialer(from).DialContext(ctx, "tcp", a)
		}))
		must(d.rt, err)
		d.conns[k] = c
	}
	return d.conns[k]
}

// call tells if a request got to the service, and what came back.
func (d *daemon) call(m method, creds []string, from, how string) (bool, error) {
	n := d.hit.count()
	err := d.send(m, creds, from, how)
	switch got := d.hit.count() - n; got {
	case 0:
		return false, err
	case 1:
		return true, err
	default:
		d.rt.Fatalf("%s was served %d times", m.name, got)
		return false, nil
	}
}

func (d *daemon) send(m method, creds []string, from, how string) error {
	port, plain := operatorPort, d.noAuth || how == "plain grpc"
	if strings.HasPrefix(m.name, "/Trade/") {
		port, plain = tradePort, true
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	if how == "grpc-web" {
		return d.web(ctx, m, creds, from, port, plain)
	}
	for _, c := range creds {
		ctx = metadata.AppendToOutgoingContext(ctx, "macaroon", c)
	}
	conn := d.conn(port, from, plain)
	if !m.stream {
		return conn.Invoke(ctx, m.name, raw(m.body), &emptypb.Empty{}, grpc.ForceCodec(codec{}))
	}
	s, err := conn.NewStream(ctx, &grpc.StreamDesc{ServerStreams: true}, m.name, grpc.ForceCodec(codec{}))
	if err != nil {
		return err
	}
	if err := s.SendMsg(raw(m.body)); err != nil && err != io.EOF {
		return err
	}
	s.CloseSend()
	for err == nil {
		err = s.RecvMsg(&emptypb.Empty{})
	}
	return err
}

func (d *daemon) web(ctx context.Context, m method, creds []string, from, port string, plain bool) error {
	b := append(make([]byte, 5), m.body...)
	binary.BigEndian.PutUint32(b[1:], uint32(len(m.body)))
	t := &http.Transport{DialContext: dialer(from).DialContext, DisableKeepAlives: true}
	url := "http://"
	if !plain {
		url, t.TLSClientConfig = "https://", d.tls()
	}
	req, err := http.NewRequestWithContext(ctx, "POST", url+d.ip+":"+port+m.name, bytes.NewReader(b))
	must(d.rt, err)
	req.Header.Set("Content-Type", "application/grpc-web+proto")
	req.Header.Set("X-Grpc-Web", "1")
	for _, c := range creds {
		req.Header.Add("Macaroon", c)
	}
	res, err := t.RoundTrip(req)
	if err != nil {
		return err
	}
	defer res.Body.Close()
	body, err := io.ReadAll(res.Body)
	return fmt.Errorf("HTTP %d %q %q %v", res.StatusCode, res.Header.Get("Grpc-Message"), body, err)
}

// tell is what the wallet service does when a password is right.
func (d *daemon) tell(st *story, m application.PassphraseMsg) {
	select {
	case d.pass <- m:
	case <-time.After(20 * time.Second):
		st.fatalf("the daemon does not take a password")
	}
}

// minted are the macaroons found in the files.
func (d *daemon) minted(st *story) map[string][]byte {
	r := map[string][]byte{}
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(d.dir, "macaroons", f+".macaroon"))
		if err != nil {
			st.fatalf("no %s macaroon: %v", f, err)
		}
		r[f] = b
	}
	return r
}

// credential is what a client shows.
type credential struct {
	what   string
	values []string
	grant  string // file whose calls it opens, or none
	from   string // address it is used from
}

func parse(b []byte) *macaroon.Macaroon {
	m := &macaroon.Macaroon{}
	if m.UnmarshalBinary(b) != nil {
		return nil
	}
	return m
}

func encode(rt *rapid.T, m *macaroon.Macaroon) string {
	b, err := m.MarshalBinary()
	must(rt, err)
	return hex.EncodeToString(b)
}

// edit changes fields of a macaroon without knowing its key.
func edit(rt *rapid.T, b []byte, set map[string]interface{}) string {
	j, err := json.Marshal(parse(b))
	must(rt, err)
	f := map[string]interface{}{}
	must(rt, json.Unmarshal(j, &f))
	for k, v := range set {
		if v == nil {
			delete(f, k)
		} else {
			f[k] = v
		}
	}
	j, err = json.Marshal(f)
	must(rt, err)
	m := &macaroon.Macaroon{}
	must(rt, json.Unmarshal(j, m))
	return encode(rt, m)
}

// genCredential makes one out of the macaroons there are (none at first) and
// those of another daemon.
func genCredential(rt *rapid.T, have, foreign map[string][]byte) credential {
	c := credential{from: home}
	file := files[within(rt, "file", len(files))]
	b := have[file]
	kind := within(rt, "credential", 22)
	if b == nil && kind < 20 {
		kind = 20
		if chance(rt, "foreign", 50) {
			kind = 21
		}
	}
	derive := func(cs ...macaroons.Constraint) string {
		m, err := macaroons.AddConstraints(parse(b), cs...)
		must(rt, err)
		return encode(rt, m)
	}
	caveat := func(s string) macaroons.Constraint {
		return func(m *macaroon.Macaroon) error { return m.AddFirstPartyCaveat([]byte(s)) }
	}
	set := func(what, v, grant string) {
		c.what, c.grant = what, grant
		c.values = []string{v}
	}
	switch kind {
	default:
		set("the "+file+" macaroon", hex.EncodeToString(b), file)
	case 8:
		at := within(rt, "byte", len(b))
		x := append([]byte{}, b...)
		x[at] ^= byte(1 << within(rt, "bit", 8))
		set(fmt.Sprintf("the %s macaroon altered at byte %d of %d", file, at, len(b)), hex.EncodeToString(x), "")
		// The location and the encoding are not protected.
		if m, o := parse(x), parse(b); m != nil && bytes.Equal(m.Id(), o.Id()) && bytes.Equal(m.Signature(), o.Signature()) && len(m.Caveats()) == len(o.Caveats()) {
			c.grant = file
		}
	case 9:
		n := within(rt, "length", len(b))
		set(fmt.Sprintf("the %s macaroon cut to %d bytes", file, n), hex.EncodeToString(b[:n]), "")
	case 10:
		if to := files[within(rt, "signature of", len(files))]; to != file {
			set(fmt.Sprintf("the %s macaroon with the signature of the %s one", file, to),
				edit(rt, b, map[string]interface{}{"s64": sig64(parse(have[to]))}), "")
		} else {
			set("the "+file+" macaroon", hex.EncodeToString(b), file)
		}
	case 11:
		set("an expired "+file+" macaroon", derive(macaroons.TimeoutConstraint(-int64(1+within(rt, "seconds", 100)))), "")
	case 12:
		set("the "+file+" macaroon with an hour to go", derive(macaroons.TimeoutConstraint(3600)), file)
	case 13:
		set("the "+file+" macaroon of this address", derive(macaroons.IPLockConstraint(home)), file)
		if chance(rt, "elsewhere", 50) {
			c.from, c.grant = "127.99.0.1", ""
			c.what += " used from elsewhere"
		}
	case 14:
		set("the "+file+" macaroon of another address", derive(macaroons.IPLockConstraint("127.99.0.1")), "")
		if chance(rt, "elsewhere", 50) {
			c.from, c.grant = "127.99.0.1", file
			c.what += " used from there"
		}
	case 15:
		set("the "+file+" macaroon with an unknown caveat", derive(caveat([]string{"unknown", "custom condition", "error no", "ipaddr", "time-before x"}[within(rt, "caveat", 5)])), "")
	case 16:
		v := derive(macaroons.TimeoutConstraint(-10))
		x, err := hex.DecodeString(v)
		must(rt, err)
		set("an expired "+file+" macaroon without its caveats", edit(rt, x, map[string]interface{}{"c": nil}), "")
	case 17:
		m, err := macaroon.New([]byte("key of somebody else"), parse(b).Id(), "tdexd", macaroon.LatestVersion)
		must(rt, err)
		set("a forged "+file+" macaroon", encode(rt, m), "")
	case 18:
		m, err := macaroon.New(make([]byte, 32), parse(b).Id(), "tdexd", macaroon.LatestVersion)
		must(rt, err)
		set("a "+file+" macaroon forged with an empty key", encode(rt, m), "")
	case 19:
		set("the "+file+" macaroon allowed for another call only", derive(caveat("allow nothing"), macaroons.TimeoutConstraint(60)), "?")
	case 20:
		c.what = "no macaroon"
	case 21:
		switch within(rt, "junk", 6) {
		case 0:
			set("an empty macaroon", "", "")
		case 1:
			set("something not hexadecimal", "not a macaroon", "")
		case 2:
			set("an odd number of digits", "abc", "")
		case 3:
			set("something that is no macaroon", "abcdef0123", "")
		default:
			set("the "+file+" macaroon of another daemon", hex.EncodeToString(foreign[file]), "")
		}
	}
	return c
}

func sig64(m *macaroon.Macaroon) string {
	j, _ := m.MarshalJSON()
	f := map[string]interface{}{}
	json.Unmarshal(j, &f)
	s, _ := f["s64"].(string)
	return s
}

// strangers are the macaroons of another daemon.
var strangers map[string][]byte

func foreignMacaroons(rt *rapid.T) map[string][]byte {
	if strangers == nil {
		dir, err := os.MkdirTemp("", "verif")
		must(rt, err)
		defer os.RemoveAll(dir)
		st := &story{rt: rt}
		d := startDaemon(rt, dir, false)
		d.tell(st, application.PassphraseMsg{Method: application.InitWallet, CurrentPwd: "password"})
		d.tell(st, application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: "password"})
		strangers = d.minted(st)
		d.stop()
	}
	return strangers
}

var passwords = []string{"password", "p", "Password", "hunter2 hunter2", "\xff\x00\x01", "пароль"}

func TestC27Policy(t *testing.T) {
	vt.Check(t, 1000, 12000, "a call was authorised and a call with a macaroon was refused", func(rt *rapid.T, c *vt.Case) {
		st := &story{rt: rt}
		foreign := foreignMacaroons(rt)
		dir := tempDir(rt)
		noAuth := chance(rt, "without authentication", 4)
		d := startDaemon(rt, dir, noAuth)
		defer func() { d.stop() }()
		if noAuth {
			for _, m := range methods {
				how := []string{"grpc", "grpc-web"}[within(rt, "transport", 2)]
				if ok, err := d.call(m, nil, home, how); !ok {
					st.fatalf("without authentication %s over %s is refused: %v", m.name, how, err)
				}
			}
			c.Class("without authentication")
			return
		}

		var all []map[string][]byte // macaroons minted so far
		initialised, unlocked, unknown := false, false, false
		password := ""
		granted, refused := 0, 0

		check := func(m method, cr credential, how string) {
			what, known := policy[m.name]
			if !known {
				what = "unknown write"
			}
			want := what == "open" || unlocked && cr.grant != "" && cr.grant != "?" && opens(cr.grant, what)
			if !known && cr.grant != "" || cr.grant == "?" && what != "open" || unknown && cr.grant != "" && what != "open" {
				return // any answer will do
			}
			if how == "plain grpc" {
				if strings.HasPrefix(m.name, "/Trade/") {
					how = "grpc"
				} else {
					want = false
				}
			}
			ok, err := d.call(m, cr.values, cr.from, how)
			switch {
			case ok && !want:
				st.fatalf("%s (%s) over %s is served with %s", m.name, what, how, cr.what)
			case !ok && want:
				st.fatalf("%s (%s) over %s is refused with %s: %v", m.name, what, how, cr.what, err)
			case !ok && err == nil:
				st.fatalf("%s (%s) over %s with %s is refused without an error", m.name, what, how, cr.what)
			}
			if what != "open" {
				if ok {
					granted++
				} else if len(cr.values) > 0 {
					refused++
				}
				c.Class("%s: %v", strings.Fields(cr.what + " none")[0]+" "+what, ok)
			}
		}
		transport := func() string {
			switch k := within(rt, "transport", 20); {
			case k < 14:
				return "grpc"
			case k < 19:
				return "grpc-web"
			}
			return "plain grpc"
		}
		cred := func() credential {
			var have map[string][]byte
			if len(all) > 0 {
				have = all[within(rt, "generation", len(all))]
			}
			return genCredential(rt, have, foreign)
		}

		for left := 2 + within(rt, "phases", 5); ; left-- {
			if chance(rt, "sweep", 40) {
				cr, how := cred(), transport()
				st.did("every call with %s", cr.what)
				for _, m := range methods {
					check(m, cr, how)
				}
			}
			for n := 5 + within(rt, "calls", 30); n > 0; n-- {
				check(methods[within(rt, "method", len(methods))], cred(), transport())
			}
			if left == 0 {
				break
			}

			// The life of the wallet.
			switch {
			case !initialised:
				if chance(rt, "restart", 20) {
					d.stop()
					st.did("restart")
					d = startDaemon(rt, dir, false)
					continue
				}
				password = passwords[within(rt, "password", len(passwords))]
				d.tell(st, application.PassphraseMsg{Method: application.InitWallet, CurrentPwd: password})
				d.tell(st, application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: password})
				st.did("init")
				initialised, unlocked = true, true
				all = append(all, d.minted(st))
			case unlocked:
				d.stop()
				st.did("restart")
				unlocked = false
				if chance(rt, "delete", 15) {
					must(rt, os.RemoveAll(filepath.Join(dir, "macaroons")))
					st.did("delete the macaroon files")
				}
				d = startDaemon(rt, dir, false)
			default:
				if chance(rt, "change", 50) {
					old := password
					password = passwords[within(rt, "password", len(passwords))]
					d.tell(st, application.PassphraseMsg{Method: application.ChangePassphrase, CurrentPwd: old, NewPwd: password})
					st.did("change password")
					unknown = true
					c.Class("password changed")
					if chance(rt, "restart", 30) {
						d.tell(st, application.PassphraseMsg{Method: application.ChangePassphrase, CurrentPwd: password, NewPwd: password})
						d.stop()
						st.did("restart")
						d = startDaemon(rt, dir, false)
						unknown = false
					}
					continue
				}
				for i := 0; i < 2; i++ {
					d.tell(st, application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: password})
				}
				st.did("unlock")
				unlocked, unknown = true, false
				now := d.minted(st)
				if !bytes.Equal(now["admin"], all[len(all)-1]["admin"]) {
					all = append(all, now)
				}
			}
		}
		if granted > 0 && refused > 0 {
			c.NonTrivial("%d calls authorised and %d refused: %s", granted, refused, st)
		}
	})
}

// TestC27Unusable has the daemon start without being able to use its macaroons.
func TestC27Unusable(t *testing.T) {
	vt.Check(t, 100, 1000, "the key store could not be opened", func(rt *rapid.T, c *vt.Case) {
		dir := tempDir(rt)
		file := filepath.Join(dir, "db", "macaroons.db")
		what := ""
		switch within(rt, "problem", 4) {
		case 0:
			what = "a folder in place of the key store"
			must(rt, os.MkdirAll(file, 0755))
		case 1:
			what = "garbage in the key store"
			must(rt, os.MkdirAll(filepath.Dir(file), 0755))
			must(rt, os.WriteFile(file, rapid.SliceOfN(rapid.Byte(), 1, 9000).Draw(rt, "garbage"), 0600))
		case 2:
			what = "a file in place of the folder of the key store"
			must(rt, os.WriteFile(filepath.Dir(file), []byte("x"), 0600))
		default:
			what = "a key store cut short"
			st := &story{rt: rt}
			d := startDaemon(rt, dir, false)
			d.tell(st, application.PassphraseMsg{Method: application.InitWallet, CurrentPwd: "password"})
			d.tell(st, application.PassphraseMsg{Method: application.UnlockWallet, CurrentPwd: "password"})
			d.stop()
			must(rt, os.Truncate(file, int64(1+within(rt, "size", 4095))))
		}
		hit, pass := &calls{}, make(chan application.PassphraseMsg)
		svc, err := grpcinterface.NewService(opts(dir, false, hit, pass))
		c.Class("%s: starts %v", what, err == nil)
		c.NonTrivial("%s: %v", what, err)
		if err != nil {
			return
		}
		d := &daemon{rt: rt, dir: dir, hit: hit, pass: pass, svc: svc, conns: map[string]*grpc.ClientConn{}}
		d.listen()
		defer d.stop()
		for _, m := range methods {
			if policy[m.name] == "open" {
				continue
			}
			if ok, _ := d.call(m, nil, home, "grpc"); ok {
				rt.Fatalf("with %s, %s (%s) is served without a macaroon", what, m.name, policy[m.name])
			}
		}
	})
}
