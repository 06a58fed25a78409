//go:build go1.23

// Package cli runs the operator's command line program against a made-up
// explorer and daemon.
package cli

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/address"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
)

// RunEnv makes the test program be the CLI.
const RunEnv = "VERIF_CLI_RUN"

func within(rt *rapid.T, name string, n int) int { return rapid.IntRange(0, n-1).Draw(rt, name) }

// rarely is for choices that matter: the shrinker goes to false.
func rarely(rt *rapid.T, name string, pct int) bool { return within(rt, name, 100) >= 100-pct }

const (
	minBase, minQuote = 50000, 50000 // documented minimum deposits for a market
	minFee            = 5000         // and for the fee account; also the size of its fragments
	maxFeeFragments   = 150
	maxMoney          = 21e14
)

var lbtc = txlib.Net.AssetID

// marketScheme is how many fragments of which percentage a deposit is split into.
var marketScheme = []uint64{2, 2, 2, 2, 2, 10, 10, 10, 15, 15, 30}

type outpoint struct {
	id string
	n  uint32
}

// coin is a funding output.
type coin struct {
	outpoint
	asset    string
	value    uint64
	abf, vbf []byte
	out      *transaction.TxOutput
	mine     bool // pays the script of the wallet
	opens    bool // and can be read by it
	spent    bool
}

type deposit struct {
	id, hex string
	coins   []*coin
}

// w is the world of one case.
type w struct {
	sync.Mutex
	deposits map[string]*deposit
	keys     map[string]*txlib.Key // of the daemon, by address
	byScript map[string]*txlib.Key
	n        int

	// faults of the current run
	failGet            int // the number of the request for a transaction that fails, or -1
	short              int // addresses missing in the reply
	failAddr, failSend bool
	failStatus         bool
	failClaim          bool

	gets     int
	accepted []*transaction.Transaction
	past     []*transaction.Transaction // of the deposits before
	bad      string                     // why a transaction was found bad
	refused  int
	asked    int
	claims   [][]outpoint
	market   string // quote asset of the claim
	odd      string
	fees     bool // fragmentfee
	quoteOpt string
	told     map[string]bool // ids told to the CLI
	flags    map[string]bool // and those with flags: what it has when it asks again and gets no answer
	retry    bool
}

type servers struct {
	pb.UnimplementedOperatorServer
	sync.Mutex
	w        *w
	url, rpc string
}

func (s *servers) cur() *w {
	s.Lock()
	defer s.Unlock()
	return s.w
}

var (
	srv     *servers
	srvOnce sync.Once
)

func start() *servers {
	srvOnce.Do(func() {
		srv = &servers{}
		srv.url = httptest.NewServer(srv).URL
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("[verif-error] " + err.Error())
		}
		g := grpc.NewServer()
		pb.RegisterOperatorServer(g, srv)
		go g.Serve(l)
		srv.rpc = l.Addr().String()
	})
	return srv
}

// ServeHTTP is an Esplora server.
func (s *servers) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	w := s.cur()
	w.Lock()
	defer w.Unlock()
	code, text := w.esplora(req)
	rw.WriteHeader(code)
	io.WriteString(rw, text)
}

func (w *w) esplora(req *http.Request) (int, string) {
	p := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
	if req.Method == "POST" && len(p) == 1 && p[0] == "tx" {
		b, _ := io.ReadAll(req.Body)
		return w.broadcast(string(b))
	}
	if strings.Join(p, "/") == "blocks/tip/height" {
		return 200, "100"
	}
	if req.Method != "GET" || len(p) < 2 || len(p) > 3 || p[0] != "tx" {
		w.odd = fmt.Sprintf("%s %s", req.Method, req.URL)
		return 404, "not found"
	}
	for _, tx := range append(w.past[:len(w.past):len(w.past)], w.accepted...) {
		if tx.TxHash().String() == p[1] {
			if w.failStatus {
				return 500, "out of order"
			}
			return 200, status
		}
	}
	d := w.deposits[p[1]]
	if d == nil {
		return 404, "Transaction not found"
	}
	w.gets++
	if w.gets-1 == w.failGet {
		return 500, "out of order"
	}
	if len(p) == 2 {
		return 200, fmt.Sprintf(`{"txid":"%s","version":2,"locktime":0,"vin":[],"vout":[],"size":0,"weight":0,"fee":0,"status":%s}`, d.id, status)
	}
	if p[2] == "hex" {
		return 200, d.hex
	}
	return 200, status
}

const status = `{"confirmed":true,"block_height":3,"block_hash":"0000000000000000000000000000000000000000000000000000000000000003","block_time":1600000000}`

func (w *w) broadcast(txhex string) (int, string) {
	tx, err := transaction.NewTxFromHex(txhex)
	if err != nil {
		w.bad = "a transaction that cannot be decoded is broadcast: " + err.Error()
		return 400, "TX decode failed"
	}
	if why := w.judge(tx); why != "" {
		w.bad = why
		return 400, "bad transaction"
	}
	if w.failSend {
		w.refused++
		return 400, `sendrawtransaction RPC error: {"code":-26,"message":"min relay fee not met"}`
	}
	for _, in := range tx.Inputs {
		w.coin(in).spent = true
	}
	w.accepted = append(w.accepted, tx)
	return 200, tx.TxHash().String()
}

func (w *w) coin(in *transaction.TxInput) *coin {
	b := append([]byte{}, in.Hash...)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	if d := w.deposits[hex.EncodeToString(b)]; d != nil && int(in.Index) < len(d.coins) {
		return d.coins[in.Index]
	}
	return nil
}

// funds gives what the wallet holds of an asset in the transactions told.
func (w *w) funds(asset string) (sum uint64, coins int) { return w.fundsOf(w.told, asset) }

func (w *w) fundsOf(told map[string]bool, asset string) (sum uint64, coins int) {
	for id := range told {
		for _, c := range w.deposits[id].coins {
			if c.opens && c.asset == asset {
				sum += c.value
				coins++
			}
		}
	}
	return
}

// assets lists the ones the wallet holds besides the base asset.
func (w *w) assets() (list []string) {
	seen := map[string]bool{lbtc: true}
	for id := range w.told {
		for _, c := range w.deposits[id].coins {
			if c.opens && !seen[c.asset] {
				seen[c.asset] = true
				list = append(list, c.asset)
			}
		}
	}
	sort.Strings(list)
	return
}

// judge tells what is wrong with a transaction of the CLI.
func (w *w) judge(tx *transaction.Transaction) string {
	in := map[string]uint64{}
	for i, x := range tx.Inputs {
		c := w.coin(x)
		if c == nil {
			return fmt.Sprintf("input %d of the transaction is no coin of the deposit", i)
		}
		if c.spent {
			return "the transaction spends a coin that is spent already"
		}
		in[c.asset] += c.value
	}
	err := txlib.VerifyTxWith(tx, func(id string, n uint32) *transaction.TxOutput {
		if d := w.deposits[id]; d != nil && int(n) < len(d.coins) {
			return d.coins[n].out
		}
		return nil
	}, w.open)
	if err != nil {
		return "the transaction is not valid: " + err.Error()
	}
	for asset, v := range in {
		if some, _ := w.fundsOf(w.flags, asset); w.retry && some == v {
			continue
		}
		if all, _ := w.funds(asset); all != v {
			return fmt.Sprintf("%d of the %d deposited of asset %s are spent", v, all, name(asset))
		}
	}
	out := map[string][]uint64{}
	used := map[string]bool{}
	fee := uint64(0)
	for i, o := range tx.Outputs {
		op, _ := w.open(o)
		if op.Value == 0 {
			return fmt.Sprintf("output %d is worth nothing", i)
		}
		if len(o.Script) == 0 {
			if op.Asset != lbtc {
				return "the fee is not paid with the asset of the network"
			}
			fee = op.Value
			continue
		}
		s := hex.EncodeToString(o.Script)
		if w.byScript[s] == nil || used[s] {
			return fmt.Sprintf("output %d does not go to an address of its own of the daemon", i)
		}
		used[s] = true
		if !o.IsConfidential() {
			return fmt.Sprintf("output %d is not confidential", i)
		}
		out[op.Asset] = append(out[op.Asset], op.Value)
	}
	if in[lbtc] == 0 {
		return "no base asset is spent"
	}
	if vsize := tx.VirtualSize(); fee*10+10 < uint64(vsize) || fee > uint64(vsize) {
		return fmt.Sprintf("the fee is %d for a transaction of %d vbytes", fee, vsize)
	}
	if w.fees {
		if len(out) != 1 || len(out[lbtc]) == 0 {
			return "not exactly the base asset goes to the fee account"
		}
		return feeScheme(in[lbtc], fee, out[lbtc])
	}
	quote := ""
	for asset := range out {
		if asset != lbtc {
			if quote != "" {
				return "more than one quote asset goes to the market"
			}
			quote = asset
		}
	}
	if w.quoteOpt != "" && quote != "" && quote != w.quoteOpt {
		return "the asset sent to the market is not that of the market"
	}
	if quote == "" {
		quote = w.quoteOpt
		if quote == "" && len(w.assets()) == 1 {
			quote = w.assets()[0]
		}
	}
	if all, _ := w.funds(quote); quote != "" && all > in[quote] && !w.retry {
		return fmt.Sprintf("%d of the quote asset were deposited and %d are sent", all, in[quote])
	}
	if why := scheme("base", in[lbtc], fee, out[lbtc], in[lbtc] >= minBase); why != "" {
		return why
	}
	if quote != "" && in[quote] > 0 {
		return scheme("quote", in[quote], 0, out[quote], in[quote] >= minQuote)
	}
	return ""
}

func (w *w) open(out *transaction.TxOutput) (*txlib.Opening, error) {
	for _, d := range w.deposits {
		for _, c := range d.coins {
			if c.out == out {
				return &txlib.Opening{Asset: c.asset, Value: c.value, ABF: c.abf, VBF: c.vbf}, nil
			}
		}
	}
	var blind []byte
	if k := w.byScript[hex.EncodeToString(out.Script)]; k != nil {
		blind = k.Blind.Serialize()
	}
	return txlib.Open(out, blind)
}

func sorted(v []uint64) []uint64 {
	v = append([]uint64{}, v...)
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	return v
}

// scheme checks fragments of a deposit of v, fee taken off the biggest one.
func scheme(what string, v, fee uint64, frags []uint64, strict bool) string {
	if len(frags) > len(marketScheme) {
		return fmt.Sprintf("the %s deposit is split into %d fragments", what, len(frags))
	}
	if !strict {
		return "" // positive and adding up, was checked
	}
	if len(frags) != len(marketScheme) {
		return fmt.Sprintf("the %s deposit of %d is split into %d fragments", what, v, len(frags))
	}
	// the fee may make the biggest one smaller than others.
	want := map[uint64]int{}
	for _, p := range marketScheme[:10] {
		want[v/100*p+v%100*p/100]++
	}
	var rest []uint64
	for _, f := range frags {
		hit := false
		for _, g := range []uint64{f, f - 1, f + 1} {
			if want[g] > 0 {
				want[g]--
				hit = true
				break
			}
		}
		if !hit {
			rest = append(rest, f)
		}
	}
	if len(rest) != 1 {
		return fmt.Sprintf("the %s deposit of %d is split into %v (fee %d)", what, v, sorted(frags), fee)
	}
	low := v/100*30 + v%100*30/100
	if got := rest[0] + fee; got+2 < low || got > low+13 {
		return fmt.Sprintf("the %s deposit of %d is split into %v (fee %d)", what, v, sorted(frags), fee)
	}
	return ""
}

func feeScheme(v, fee uint64, frags []uint64) string {
	f := sorted(frags)
	odd := 0
	for _, x := range f {
		if x != minFee {
			odd++
		}
	}
	n := v / minFee
	if n > maxFeeFragments {
		n = maxFeeFragments
	}
	least := uint64(1)
	if lost := fee/minFee + 1; n > lost+1 {
		least = n - lost
	}
	if n < 1 {
		n = 1
	}
	if uint64(len(f)) > n || uint64(len(f)) < least || odd > 1 {
		return fmt.Sprintf("the deposit of %d is split into the %d fragments %v (fee %d)", v, len(f), f, fee)
	}
	return ""
}

func name(asset string) string {
	if asset == lbtc {
		return "LBTC"
	}
	return asset[:8]
}

func (w *w) addresses(n int) (list []string) {
	for i := 0; i < n; i++ {
		k := txlib.NewKey("daemon", w.n)
		w.n++
		a := k.ConfidentialAddress()
		w.keys[a], w.byScript[k.ScriptHex()] = k, k
		list = append(list, a)
	}
	return
}

func (s *servers) give(n int64) ([]*pbtypes.AddressWithBlindingKey, error) {
	w := s.cur()
	w.Lock()
	defer w.Unlock()
	w.asked++
	if w.failAddr {
		return nil, errors.New("the wallet is locked")
	}
	if n > 10000 {
		return nil, errors.New("too many addresses")
	}
	if n <= 0 {
		n = 1
	}
	if n -= int64(w.short); n < 0 {
		n = 0
	}
	var list []*pbtypes.AddressWithBlindingKey
	for _, a := range w.addresses(int(n)) {
		list = append(list, &pbtypes.AddressWithBlindingKey{Address: a, Blinding: hex.EncodeToString(w.keys[a].Blind.Serialize())})
	}
	return list, nil
}

func (s *servers) DepositMarket(_ context.Context, r *pb.DepositMarketRequest) (*pb.DepositMarketReply, error) {
	m := r.GetMarket()
	w := s.cur()
	w.Lock()
	if (m.GetBaseAsset() == "") != (m.GetQuoteAsset() == "") || m.GetQuoteAsset() != w.quoteOpt || w.fees {
		w.odd = fmt.Sprintf("deposit addresses of market %v asked", m)
	}
	w.Unlock()
	list, err := s.give(r.GetNumOfAddresses())
	if err != nil {
		return nil, err
	}
	reply := &pb.DepositMarketReply{}
	for _, a := range list {
		reply.Addresses = append(reply.Addresses, a.Address)
	}
	return reply, nil
}

func (s *servers) DepositFeeAccount(_ context.Context, r *pb.DepositFeeAccountRequest) (*pb.DepositFeeAccountReply, error) {
	list, err := s.give(r.GetNumOfAddresses())
	if err != nil {
		return nil, err
	}
	return &pb.DepositFeeAccountReply{AddressWithBlindingKey: list}, nil
}

func (s *servers) claim(quote string, points []*pb.TxOutpoint) error {
	w := s.cur()
	w.Lock()
	defer w.Unlock()
	if w.failClaim {
		return errors.New("the wallet is locked")
	}
	var list []outpoint
	for _, p := range points {
		list = append(list, outpoint{p.GetHash(), uint32(p.GetIndex())})
	}
	w.market = quote
	w.claims = append(w.claims, list)
	return nil
}

func (s *servers) ClaimMarketDeposit(_ context.Context, r *pb.ClaimMarketDepositRequest) (*pb.ClaimMarketDepositReply, error) {
	if m := r.GetMarket(); m.GetBaseAsset() != lbtc {
		w := s.cur()
		w.Lock()
		w.odd = fmt.Sprintf("claim for market %v", m)
		w.Unlock()
	}
	return &pb.ClaimMarketDepositReply{}, s.claim(r.GetMarket().GetQuoteAsset(), r.GetOutpoints())
}

func (s *servers) ClaimFeeDeposit(_ context.Context, r *pb.ClaimFeeDepositRequest) (*pb.ClaimFeeDepositReply, error) {
	return &pb.ClaimFeeDepositReply{}, s.claim("", r.GetOutpoints())
}

// output gathers what the program prints.
type output struct {
	sync.Mutex
	b    bytes.Buffer
	addr chan string
	told bool
}

var addressRE = regexp.MustCompile(`\bel1[a-z0-9]{40,}`)

func (o *output) Write(b []byte) (int, error) {
	o.Lock()
	defer o.Unlock()
	o.b.Write(b)
	if !o.told {
		// only whole lines
		if i := bytes.LastIndexByte(o.b.Bytes(), '\n'); i >= 0 {
			if a := addressRE.Find(o.b.Bytes()[:i+1]); a != nil {
				o.told = true
				o.addr <- string(a)
			}
		}
	}
	return len(b), nil
}

func (o *output) String() string {
	o.Lock()
	defer o.Unlock()
	return o.b.String()
}

const runLimit = 150 * time.Second

// run runs the CLI; once it showed an address, lines gives what to type.
func run(dir string, args []string, lines func(addr string) (text string, kill bool)) (addr, out string, code int) {
	exe, err := os.Executable()
	if err != nil {
		panic("[verif-error] " + err.Error())
	}
	ctx, cancel := context.WithTimeout(context.Background(), runLimit)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe)
	cmd.Args = append([]string{"tdex"}, args...)
	cmd.Env = append(os.Environ(), RunEnv+"=1", "TDEX_OPERATOR_DATADIR="+dir)
	cmd.Dir = dir
	o := &output{addr: make(chan string, 1)}
	cmd.Stdout, cmd.Stderr = o, o
	stdin, err := cmd.StdinPipe()
	if err != nil {
		panic("[verif-error] " + err.Error())
	}
	if err := cmd.Start(); err != nil {
		panic("[verif-error] " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	if lines != nil {
		select {
		case addr = <-o.addr:
			text, kill := lines(addr)
			if kill {
				cmd.Process.Kill()
				<-done
				return addr, o.String(), -1
			}
			io.WriteString(stdin, text)
		case err = <-done:
			done <- err
		}
	}
	stdin.Close()
	err = <-done
	out = o.String()
	if addr == "" {
		select {
		case addr = <-o.addr:
		default:
		}
	}
	if ctx.Err() != nil {
		return addr, out, -2
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return addr, out, ee.ExitCode()
	}
	if err != nil {
		panic("[verif-error] " + err.Error())
	}
	return addr, out, 0
}

// Market checks fragmentmarket, Fee checks fragmentfee.
func Market(t *testing.T) { check(t, false, 300, 9000) }

func Fee(t *testing.T) { check(t, true, 160, 5000) }

func check(t *testing.T, fees bool, quick, thorough int) {
	s := start()
	vt.Check(t, quick, thorough, "the CLI got coins to split", func(rt *rapid.T, c *vt.Case) {
		scenario(rt, c, s, fees)
	})
}

// amount draws one around where something changes.
func amount(rt *rapid.T, label string) uint64 {
	n := []int{0, 0, 0, 1, 2, 3, 3, 4, 5, 5, 6, 6, 7, 8}[within(rt, label+" scale", 14)]
	x := uint64(rapid.IntRange(0, 999).Draw(rt, label+" digits"))
	switch n {
	case 0:
		return minBase + x*x
	case 1:
		return 1 + x
	case 2:
		return 1000 + x*20
	case 3:
		return minBase*(1+x/250) - 3 + x%7
	case 4:
		return minFee*(1+x/6) - 3 + x%6
	case 5:
		return minFee*(1+x/4) + x*9
	case 6:
		return 100000000 + x*x*x
	case 7:
		return maxMoney/2 - x*x*x*7
	}
	return maxMoney - 40000*(x%7) - x // 4 of them are beyond what there is
}

func scenario(rt *rapid.T, c *vt.Case, s *servers, fees bool) {
	w := &w{
		deposits: map[string]*deposit{}, keys: map[string]*txlib.Key{}, byScript: map[string]*txlib.Key{},
		fees: fees,
	}
	s.Lock()
	s.w = w
	s.Unlock()
	dir, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic("[verif-error] " + err.Error())
	}
	defer os.RemoveAll(dir)
	var log []string
	did := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	lastOut := ""
	fail := func(f string, a ...interface{}) {
		rt.Helper()
		rt.Fatalf("%s\nafter %s\noutput:\n%s", fmt.Sprintf(f, a...), strings.Join(log, "; "), clip(lastOut))
	}
	if _, out, code := run(dir, []string{"config", "init", "--network", "regtest", "--explorer_url", s.url,
		"--rpcserver", s.rpc, "--no_macaroons"}, nil); code != 0 {
		rt.Fatalf("[verif-error] config init: %s", out)
	}

	third, quotes := txlib.Asset(3), []string{txlib.Asset(1), txlib.Asset(2)}
	var txs []*deposit // of this round
	made := 0
	// fund makes a transaction that pays the wallet.
	fund := func(addr, label string, amounts []struct {
		asset string
		value uint64
	}) {
		script, err := address.ToOutputScript(addr)
		if err != nil {
			fail("the address %s cannot be paid: %v", addr, err)
		}
		ct, err := address.FromConfidential(addr)
		if err != nil {
			fail("the address %s is not confidential: %v", addr, err)
		}
		tx := &transaction.Transaction{Version: 2}
		tx.Inputs = append(tx.Inputs, transaction.NewTxInput(txlib.H("funding", made), 0))
		d := &deposit{}
		what := ""
		for i, a := range amounts {
			id := fmt.Sprintf("%d/%d", made, i)
			k := &coin{asset: a.asset, value: a.value, mine: true, opens: true}
			k.n = uint32(i)
			blind, to := ct.BlindingKey, script
			switch within(rt, "coin", 20) {
			case 18:
				if what == "" && i == 0 {
					break
				}
				blind, k.opens = txlib.NewKey("stranger").BlindPub.SerializeCompressed(), false
			case 19:
				to, k.mine, k.opens = txlib.NewKey("stranger").Script, false, false
			}
			if within(rt, "confidential", 4) > 0 || (k.mine && !k.opens) {
				k.abf, k.vbf = txlib.H("abf", id), txlib.H("vbf", id)
				k.out = txlib.BlindOut(a.asset, a.value, to, blind, k.abf, k.vbf, txlib.H("eph", id))
			} else {
				k.abf, k.vbf = make([]byte, 32), make([]byte, 32)
				k.out = txlib.Out(a.asset, a.value, to)
			}
			what += fmt.Sprintf(" %d %s", a.value, name(a.asset))
			if !k.mine {
				what += " (of others)"
			} else if !k.opens {
				what += " (unreadable)"
			} else if !k.out.IsConfidential() {
				what += " (explicit)"
			}
			tx.Outputs = append(tx.Outputs, k.out)
			d.coins = append(d.coins, k)
		}
		d.hex, err = tx.ToHex()
		if err != nil {
			rt.Fatalf("[verif-error] %v", err)
		}
		d.id = tx.TxHash().String()
		for _, k := range d.coins {
			k.id = d.id
		}
		did("tx %d pays%s", made, what)
		made++
		w.Lock()
		w.deposits[d.id] = d
		w.Unlock()
		txs = append(txs, d)
	}
	type pay = struct {
		asset string
		value uint64
	}
	round := func() bool {
		// what is deposited
		base, quote := amount(rt, "base"), amount(rt, "quote")
		others := 0
		if !fees {
			if rarely(rt, "no base", 6) {
				base = 0
			}
			if base > 0 && rarely(rt, "no quote", 10) {
				quote = 0
			}
			if rarely(rt, "other asset", 12) {
				others = 1
			}
			if rarely(rt, "known market", 40) {
				w.quoteOpt = quotes[0]
			}
		} else {
			quote = 0
			if rarely(rt, "other asset", 12) {
				others = 1
			}
		}
		plan := func() [][]pay {
			var flat []pay
			split := func(asset string, v uint64) {
				n := uint64(1 + within(rt, "coins", 4))
				for ; v > 0; n-- {
					part := v
					if n > 1 {
						part = v / n
						if part == 0 || within(rt, "uneven", 3) == 0 {
							part = 1
						}
					}
					flat = append(flat, pay{asset, part})
					v -= part
				}
			}
			split(lbtc, base)
			split(quotes[0], quote)
			if others > 0 {
				split(third, 1+amount(rt, "third"))
			}
			var list [][]pay
			for len(flat) > 0 {
				n := 1 + within(rt, "outputs", len(flat))
				list = append(list, flat[:n])
				flat = flat[n:]
			}
			return list
		}()

		cmdName := map[bool]string{false: "fragmentmarket", true: "fragmentfee"}[fees]
		addr0 := ""
		attempts := 1 + within(rt, "attempts", 3)
		for a := 0; a < attempts; a++ {
			w.Lock()
			w.failGet, w.short, w.failAddr, w.failSend, w.failStatus, w.failClaim = -1, 0, false, false, false, false
			w.gets, w.bad, w.odd, w.refused, w.asked = 0, "", "", 0, 0
			w.told, w.flags, w.retry = map[string]bool{}, map[string]bool{}, false
			w.Unlock()
			faulty := true
			switch within(rt, "fault", 16) {
			case 10:
				w.failGet = within(rt, "get", 6)
				did("request %d for a deposit fails", w.failGet)
			case 11:
				w.short = 1 + within(rt, "short", 11)
				did("%d addresses too few", w.short)
			case 12:
				w.failAddr = true
				did("no addresses are given")
			case 13:
				w.failSend = true
				did("the broadcast is refused")
			case 14:
				w.failStatus = true
				did("the status is not available")
			case 15:
				w.failClaim = true
				did("the claim is refused")
			default:
				faulty = false
			}
			args := []string{cmdName}
			if w.quoteOpt != "" {
				args = append(args, "--quote_asset", w.quoteOpt)
				if within(rt, "base named", 2) > 0 {
					args = append(args, "--base_asset", lbtc)
				}
			}
			last := a == attempts-1
			before := !last && addr0 == "" && rarely(rt, "stopped before", 30)
			if addr0 != "" {
				// resumes
				inFlag := len(txs)
				if inFlag == 0 {
					for _, p := range plan {
						fund(addr0, "", p)
					}
					inFlag = len(txs)
				}
				inFlag = 1 + within(rt, "in flags", inFlag)
				for i, d := range txs {
					if i < inFlag {
						args = append(args, "--txid", d.id)
						w.told[d.id], w.flags[d.id] = true, true
					}
				}
			}
			typed := []string{}
			unknown, twice := rarely(rt, "unknown tx", 4), rarely(rt, "twice", 8)
			w.retry = unknown || w.failGet >= 0
			var addr string
			var code int
			did("%s run", cmdName)
			addr, lastOut, code = run(dir, args, func(addr string) (string, bool) {
				if before {
					return "", true
				}
				if len(txs) == 0 {
					for _, p := range plan {
						fund(addr, "", p)
					}
				}
				w.Lock()
				defer w.Unlock()
				for _, d := range txs {
					if !w.told[d.id] {
						typed = append(typed, d.id)
					}
					w.told[d.id] = true
				}
				if twice && len(txs) > 0 {
					typed = append(typed, txs[within(rt, "twice which", len(txs))].id)
					did("a transaction is told twice")
				}
				if unknown {
					typed = append(typed, hex.EncodeToString(txlib.H("unknown")))
					did("an unknown transaction is told")
				}
				return strings.Join(typed, " ") + "\n", false
			})
			w.Lock()
			bad, odd := w.bad, w.odd
			w.Unlock()
			if code == -2 {
				fail("the program does not end")
			}
			if strings.Contains(lastOut, "panic:") || strings.Contains(lastOut, "fatal error:") || code > 1 {
				fail("the program crashes (exit %d)", code)
			}
			if bad != "" {
				fail("%s", bad)
			}
			if odd != "" {
				fail("unexpected: %s", odd)
			}
			if addr == "" {
				fail("no address was shown")
			}
			if addr0 != "" && addr != addr0 {
				fail("the address was %s and is %s when resuming: what it got is lost", addr0, addr)
			}
			addr0 = addr
			if before {
				did("stopped")
				c.Class("stopped before funding")
				continue
			}
			if len(w.accepted) > 1 {
				fail("%d transactions were broadcast", len(w.accepted))
			}
			b, nb := w.funds(lbtc)
			q, nq := w.funds(quotes[0])
			o, no := w.funds(third)
			if nb+nq+no > 0 {
				c.NonTrivial("%s", strings.Join(log, "; "))
			}
			if len(w.accepted) == 0 {
				if code == 0 {
					fail("the program succeeds and nothing was sent")
				}
				enough := b >= minBase && (q == 0 || q >= minQuote) && o == 0
				if fees {
					enough = b >= minFee
				}
				unreadable := false
				for _, d := range txs {
					for _, k := range d.coins {
						unreadable = unreadable || (k.mine && !k.opens)
					}
				}
				if enough && !faulty && !unknown && !twice && !unreadable {
					fail("a deposit of %d LBTC and %d of the quote asset is refused", b, q)
				}
				switch {
				case w.refused > 0:
					c.Class("broadcast refused")
				case faulty || unknown:
					c.Class("failed by a fault")
				default:
					c.Class("deposit refused")
				}
				continue
			}
			if code == 0 {
				if len(w.claims) != 1 {
					fail("the program succeeds after %d claims", len(w.claims))
				}
				want := map[outpoint]bool{}
				tx := w.accepted[0]
				spentQuote := ""
				for i, out := range tx.Outputs {
					if len(out.Script) > 0 {
						want[outpoint{tx.TxHash().String(), uint32(i)}] = true
						if op, _ := w.open(out); op.Asset != lbtc {
							spentQuote = op.Asset
						}
					}
				}
				for _, p := range w.claims[0] {
					if !want[p] {
						fail("the output %s:%d is claimed", p.id, p.n)
					}
					delete(want, p)
				}
				if len(want) > 0 {
					fail("%d outputs are not claimed", len(want))
				}
				if !fees && spentQuote != "" && w.market != spentQuote {
					fail("the market of %s is funded and that of %q claimed", name(spentQuote), w.market)
				}
				if !fees && w.quoteOpt != "" && w.market != w.quoteOpt {
					fail("the market of %s is to be funded and that of %q claimed", name(w.quoteOpt), w.market)
				}
				c.Class("%d inputs of %d assets split", len(tx.Inputs), 1+len(spentQuote)/64)
				left := false
				for id := range w.told {
					for _, k := range w.deposits[id].coins {
						left = left || (k.opens && !k.spent && !w.retry)
					}
				}
				if left {
					c.Class("coins left in the wallet")
				}
				if !left && rarely(rt, "another deposit", 40) {
					return true
				}
				again, out, _ := run(dir, []string{cmdName, "--txid", txs[0].id}, func(string) (string, bool) { return "", true })
				lastOut = out
				if left && again != addr0 {
					fail("coins of the wallet were not sent and its key is forgotten")
				}
				if again == "" {
					fail("no other deposit can be split")
				}
			} else {
				c.Class("failed after the broadcast")
				if !w.failStatus && !w.failClaim {
					fail("the program fails though all went well")
				}
			}
			return false
		}
		return false
	}
	for r := 0; round() && r < 3; r++ {
		w.Lock()
		w.past, w.accepted, w.claims, w.market = append(w.past, w.accepted...), nil, nil, ""
		w.Unlock()
		txs = nil
		c.Class("another deposit")
	}
}

func clip(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}
