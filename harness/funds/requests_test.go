//go:build go1.23

package funds

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/btcsuite/btcutil/psbt"
	pboperator "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbwallet "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	webhookpubsub "github.com/tdex-network/tdex-daemon/internal/infrastructure/pubsub/webhook"
	grpchandler "github.com/tdex-network/tdex-daemon/internal/interfaces/grpc/handler"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
	boltsecurestore "github.com/tdex-network/tdex-daemon/pkg/securestore/bolt"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/network"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// rpc is a method of the daemon's interfaces.
type rpc struct {
	service, name string
	in            protoreflect.MessageType
	stream        bool
	reads         bool // never changes anything
}

var rpcs = func() (r []rpc) {
	reading := map[string]bool{}
	for _, n := range strings.Fields("BalanceFeeAccount ListDepositMarket ListMarket ReportMarketFee ListTrades ListUtxos ListWebhooks GenSeed WalletBalance Markets Balances MarketPrice") {
		reading[n] = true
	}
	for _, s := range []string{"Operator", "Wallet", "Trade"} {
		d, err := protoregistry.GlobalFiles.FindDescriptorByName(protoreflect.FullName(s))
		if err != nil {
			panic("[verif-error] " + err.Error())
		}
		l := d.(protoreflect.ServiceDescriptor).Methods()
		for i := 0; i < l.Len(); i++ {
			m := l.Get(i)
			t, err := protoregistry.GlobalTypes.FindMessageByName(m.Input().FullName())
			if err != nil {
				panic("[verif-error] " + err.Error())
			}
			r = append(r, rpc{s, string(m.Name()), t, m.IsStreamingServer(), reading[string(m.Name())]})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].service+r[i].name < r[j].service+r[j].name })
	return
}()

func rpcNamed(name string) rpc {
	for _, r := range rpcs {
		if r.name == name {
			return r
		}
	}
	panic("[verif-error] no method " + name)
}

// wire is the stream of replies to a client, who may be gone.
type wire struct {
	grpc.ServerStream
	ctx   context.Context
	sent  []proto.Message
	gone  int // the client leaves after that many replies, -1: never
	leave func()
	slow  bool // the client takes its time
}

func (w *wire) Context() context.Context { return w.ctx }

func (w *wire) push(m proto.Message) error {
	if w.gone >= 0 && len(w.sent) >= w.gone {
		w.leave()
		return errors.New("transport is closing")
	}
	if w.slow {
		time.Sleep(time.Second)
	}
	w.sent = append(w.sent, m)
	return nil
}

type initStream struct{ *wire }

func (s initStream) Send(m *pbwallet.InitWalletReply) error { return s.push(m) }

type proposeStream struct{ *wire }

func (s proposeStream) Send(m *pbtrade.TradeProposeReply) error { return s.push(m) }

type completeStream struct{ *wire }

func (s completeStream) Send(m *pbtrade.TradeCompleteReply) error { return s.push(m) }

// clerk sends requests to the handlers.
type clerk struct {
	*bank
	fresh, open bool
	pass        string
	outs        []application.TxOutpoint // deposits not claimed yet
	hooks       []string
	psets       []string
	replies     map[string]int
}

// answer is what came back of a request.
type answer struct {
	reply  proto.Message
	err    error
	failed bool // answered with a failure message
}

// do sends a request as if it came from the network and waits for the answer.
func (k *clerk) do(m rpc, req proto.Message, gone int, slow bool) (a answer) {
	b, err := proto.Marshal(req)
	if err != nil {
		return answer{err: err} // cannot get through
	}
	msg := m.in.New().Interface()
	if err := proto.Unmarshal(b, msg); err != nil {
		return answer{err: err}
	}
	ctx, leave := context.WithCancel(context.Background())
	defer leave()
	w := &wire{ctx: ctx, gone: gone, leave: leave, slow: slow}
	var h interface{}
	switch m.service {
	case "Operator":
		h = grpchandler.NewOperatorHandler(k.Operator)
	case "Wallet":
		h = grpchandler.NewWalletHandler(k.Wallet)
	default:
		h = grpchandler.NewTraderHandler(k.Trade)
	}
	f := reflect.ValueOf(h).MethodByName(m.name)
	if m.stream {
		var s reflect.Value
		switch m.name {
		case "InitWallet":
			s = reflect.ValueOf(initStream{w})
		case "TradePropose":
			s = reflect.ValueOf(proposeStream{w})
		default:
			s = reflect.ValueOf(completeStream{w})
		}
		r := f.Call([]reflect.Value{reflect.ValueOf(msg), s})
		a.err, _ = r[0].Interface().(error)
		if len(w.sent) > 0 {
			a.reply = w.sent[len(w.sent)-1]
		}
	} else {
		r := f.Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(msg)})
		a.err, _ = r[1].Interface().(error)
		a.reply, _ = r[0].Interface().(proto.Message)
	}
	switch x := a.reply.(type) {
	case *pbtrade.TradeProposeReply:
		a.failed = x.GetSwapFail() != nil
	case *pbtrade.TradeCompleteReply:
		a.failed = x.GetSwapFail() != nil
	}
	return
}

// batch sends requests at once and gives the answers.
func (k *clerk) batch(ms []rpc, reqs []proto.Message, gone []int, slow bool) []answer {
	r := make([]answer, len(ms))
	trouble := make(chan string, len(ms)+1)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 8000)
					text := string(buf[:runtime.Stack(buf, false)])
					if ownPanic(text) {
						trouble <- fmt.Sprintf("panic in %s: %v\n%s", ms[i].name, p, text)
						return
					}
					// what the interceptors make of it
					r[i] = answer{err: status.Errorf(codes.Internal, "%v", p)}
				}
			}()
			r[i] = k.do(ms[i], reqs[i], gone[i], slow)
		}(i)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Hour): // of the bubble: nothing is going to happen any more
		k.fatalf("no answer to %s", k.txt[len(k.txt)-1])
	}
	select {
	case p := <-trouble:
		k.fatalf("%s", p)
	default:
	}
	k.Settle()
	return r
}

// ownPanic tells whether it was code of the daemon that panicked, and not that
// of a library that was handed something it cannot decode, as there is nothing
// but recovering from that.
func ownPanic(stack string) bool {
	_, stack, _ = strings.Cut(stack, "\npanic(")
	for _, l := range strings.Split(stack, "\n")[1:] {
		switch {
		case strings.HasPrefix(l, "\t"), strings.HasPrefix(l, "runtime."), strings.HasPrefix(l, "panic("):
		default:
			return strings.HasPrefix(l, "github.com/tdex-network/")
		}
	}
	return true
}

// state is all there is to know of the daemon.
func (k *clerk) state() map[string][]string {
	s := map[string][]string{"vault": {vaultText(k.story, k.World)}, "transactions": append([]string{}, k.Chain.Sent...), "lock": {fmt.Sprint(k.Keys.IsSet())}}
	for _, u := range k.Unspents() {
		s["coins"] = append(s["coins"], jsonOf(u))
	}
	ms, err := k.RM.MarketRepository().GetAllMarkets(Ctx)
	if err != nil {
		k.fatalf("markets: %v", err)
	}
	for _, m := range ms {
		s["markets"] = append(s["markets"], fmt.Sprintf("%+v", m))
	}
	ts, err := k.RM.TradeRepository().GetAllTrades(Ctx)
	if err != nil {
		k.fatalf("trades: %v", err)
	}
	for _, t := range ts {
		s["trades"] = append(s["trades"], jsonOf(t))
	}
	for a := 0; a < 4; a++ {
		hs, err := k.Operator.ListWebhooks(Ctx, a)
		s["webhooks"] = append(s["webhooks"], fmt.Sprint(hs, err))
	}
	for _, l := range s {
		sort.Strings(l)
	}
	return s
}

func jsonOf(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic("[verif-error] " + err.Error())
	}
	return string(b)
}

// differ tells what is in one list and not in the other.
func differ(a, b []string) string {
	in := func(l []string) map[string]bool {
		m := map[string]bool{}
		for _, x := range l {
			m[x] = true
		}
		return m
	}
	ia, ib := in(a), in(b)
	r := ""
	for _, x := range a {
		if !ib[x] {
			r += "\n- " + x
		}
	}
	for _, x := range b {
		if !ia[x] {
			r += "\n+ " + x
		}
	}
	if r == "" && len(a) != len(b) {
		r = fmt.Sprintf("\n%d entries became %d", len(a), len(b))
	}
	return r
}

func (k *clerk) pick(what string, l ...string) string { return l[within(k.rt, what, len(l))] }

func (k *clerk) market() application.Market {
	if len(k.markets) == 0 {
		return application.Market{BaseAsset: Base, QuoteAsset: txlib.Asset(1)}
	}
	return k.markets[within(k.rt, "market", len(k.markets))]
}

var badAssets = []string{
	"", "LBTC", "zz", strings.Repeat("0", 64), strings.Repeat("f", 64), strings.Repeat("ab", 31), strings.Repeat("ab", 33),
	strings.Repeat("xy", 32), strings.ToUpper(Base), Base + "\n", " " + Base, Base[:63], "é", "\x00",
}

func (k *clerk) text(f string) string {
	rt := k.rt
	if rarely(rt, "any text", 4) {
		return rapid.StringN(0, 80, -1).Draw(rt, "text")
	}
	odd := rarely(rt, "odd "+f, 25)
	switch {
	case f == "base_asset":
		if odd {
			return k.pick("asset", append(badAssets, txlib.Asset(1))...)
		}
		return Base
	case strings.Contains(f, "asset"):
		if odd {
			return k.pick("asset", append(badAssets, txlib.Asset(9))...)
		}
		if f == "asset" && chance(rt, "base", 50) {
			return Base
		}
		return k.market().QuoteAsset
	case f == "address":
		out := txlib.NewKey("outside", "requests", within(rt, "payee", 3))
		k.Chain.Register(out)
		if odd {
			own := k.HD.Key(0, 0, 0).ConfidentialAddress()
			a := out.ConfidentialAddress()
			return k.pick("address", "", "garbage", a[:len(a)-1], a+"q", strings.ToUpper(a), own, "ert1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq",
				out.AddressOn(&network.Liquid), "1BoatSLRHtKNngkdXEeobR76b53LETtpyT", "\x00")
		}
		return out.ConfidentialAddress()
	case f == "hash":
		if odd || len(k.outs) == 0 {
			ids := k.Chain.Txs()
			l := []string{"", "00", "zz", strings.Repeat("0", 64), strings.Repeat("ab", 32), strings.Repeat("ab", 33), strings.Repeat("a", 63), "é"}
			if len(ids) > 0 {
				l = append(l, ids[within(rt, "tx", len(ids))], strings.ToUpper(ids[0]))
			}
			return k.pick("hash", l...)
		}
		return k.outs[within(rt, "deposit", len(k.outs))].Hash
	case f == "endpoint":
		return k.pick("endpoint", "http://hooks.test/a", "http://hooks.test/b", "", ":", "http://", "ftp://x", "http://[::1", "http://hooks.test/\x7f", "http://a b", strings.Repeat("h", 5000))
	case f == "secret":
		return k.pick("secret", "", "s", "secret", "\x00\x00")
	case f == "id" && len(k.hooks) > 0 && !odd:
		return k.hooks[within(rt, "hook", len(k.hooks))]
	case (f == "accept_id" || f == "message_id") && len(k.deals) > 0 && !odd:
		return k.deals[within(rt, "deal", len(k.deals))].id
	case f == "transaction":
		return k.transaction(odd)
	}
	return k.pick("string", "", "x", strings.Repeat("ab", 32), "\x00", "é", "-1")
}

// transaction is some encoded transaction, most often a damaged one.
func (k *clerk) transaction(odd bool) string {
	rt := k.rt
	if len(k.psets) == 0 || rarely(rt, "nothing like it", 10) {
		return k.pick("tx", "", "cHNldP8=", "cHNldA==", "!", "cHNldP8BAA==", strings.Repeat("A", 400), "02000000", base64.StdEncoding.EncodeToString([]byte("pset\xff\x01\x00\x0a\x02\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00")))
	}
	t := k.psets[within(rt, "pset", len(k.psets))]
	if !odd {
		return t
	}
	return k.damage(t)
}

// damage changes a pset, at a place that means something or anywhere.
func (k *clerk) damage(b64 string) string {
	rt := k.rt
	raw, err := base64.StdEncoding.DecodeString(b64)
	if err != nil || len(raw) < 10 {
		return b64
	}
	for n := 1 + within(rt, "damages", 3); n > 0 && len(raw) > 10; n-- {
		if chance(rt, "fields", 70) {
			if s := k.damageFields(base64.StdEncoding.EncodeToString(raw)); s != "" {
				raw, _ = base64.StdEncoding.DecodeString(s)
				continue
			}
		}
		i := within(rt, "at", len(raw))
		switch within(rt, "bytes", 5) {
		case 0:
			raw[i] ^= byte(1 << within(rt, "bit", 8))
		case 1:
			raw[i] = byte(k.number("byte", 0, 1, 0xfd, 0xfe, 0xff, 8, 9, 10))
		case 2:
			raw = raw[:i]
		case 3:
			raw = append(append(append([]byte{}, raw[:i]...), make([]byte, 1+within(rt, "more", 40))...), raw[i:]...)
		default:
			j := i + within(rt, "less", len(raw)-i)
			raw = append(append([]byte{}, raw[:i]...), raw[j:]...)
		}
	}
	return base64.StdEncoding.EncodeToString(raw)
}

func (k *clerk) number(what string, l ...uint64) uint64 { return l[within(k.rt, what, len(l))] }

// damageFields gives "" if that cannot be encoded.
func (k *clerk) damageFields(b64 string) (out string) {
	rt := k.rt
	defer func() {
		if recover() != nil {
			out = ""
		}
	}()
	p, err := pset.NewPsetFromBase64(b64)
	if err != nil || p.UnsignedTx == nil {
		return ""
	}
	bytesOf := func(what string) []byte {
		switch within(rt, what, 9) {
		case 0:
			return nil
		case 1:
			return []byte{1}
		case 2:
			return []byte{1, 0, 0, 0, 0}
		case 3:
			return append([]byte{1}, make([]byte, 8)...)
		case 4:
			return append([]byte{1}, []byte{255, 255, 255, 255, 255, 255, 255, 255}...)
		case 5:
			return append([]byte{8}, make([]byte, 32)...)
		case 6:
			return append([]byte{10}, make([]byte, 32)...)
		case 7:
			return append([]byte{2}, []byte(strings.Repeat("\x11", 32))...)
		default:
			return make([]byte, 1+within(rt, "size", 100))
		}
	}
	outputField := func(o *transaction.TxOutput) {
		switch within(rt, "output field", 6) {
		case 0:
			o.Value = bytesOf("value")
		case 1:
			o.Asset = bytesOf("asset")
		case 2:
			o.Script = bytesOf("script")
		case 3:
			o.Nonce = bytesOf("nonce")
		case 4:
			o.RangeProof = bytesOf("rangeproof")
		default:
			o.SurjectionProof = bytesOf("surjectionproof")
		}
	}
	ins, outs := p.UnsignedTx.Inputs, p.UnsignedTx.Outputs
	var in *pset.PInput
	i := 0
	if len(p.Inputs) > 0 && len(ins) > 0 {
		i = within(rt, "input", len(p.Inputs))
		in = &p.Inputs[i]
	}
	kind := within(rt, "damage", 14)
	switch {
	case kind < 7 && in == nil:
		return ""
	case kind == 0:
		in.WitnessUtxo = nil
	case kind == 1:
		in.WitnessUtxo = nil
		tx := transaction.NewTx(2)
		tx.AddInput(transaction.NewTxInput(make([]byte, 32), 0))
		for n := within(rt, "outputs", 2); n > 0; n-- {
			tx.AddOutput(txlib.Out(Base, 1000, []byte{0x51}))
		}
		in.NonWitnessUtxo = tx
	case kind == 2:
		ins[i].Index = uint32(k.number("index", 1, 99, math.MaxUint32, 0x3fffffff, 1<<31))
	case kind == 3 && in.WitnessUtxo != nil:
		outputField(in.WitnessUtxo)
	case kind == 4:
		in.PartialSigs = append(in.PartialSigs, &psbt.PartialSig{PubKey: bytesOf("pubkey"), Signature: bytesOf("signature")})
	case kind == 5:
		in.FinalScriptWitness = bytesOf("witness")
	case kind == 6:
		in.RedeemScript, in.WitnessScript = bytesOf("redeem"), bytesOf("script")
	case kind == 7 && len(outs) > 0, kind == 8 && len(outs) > 0:
		outputField(outs[within(rt, "output", len(outs))])
	case kind == 9:
		p.UnsignedTx.Outputs, p.Outputs = nil, nil
	case kind == 10 && len(outs) > 0:
		p.UnsignedTx.Outputs, p.Outputs = outs[1:], p.Outputs[1:]
	case kind == 11 && in != nil:
		p.UnsignedTx.Inputs, p.Inputs = ins[1:], p.Inputs[1:]
	case kind == 12 && in != nil:
		p.UnsignedTx.Inputs, p.Inputs = append(ins, ins[i]), append(p.Inputs, *in)
	case kind == 13 && len(outs) > 0:
		p.Outputs = p.Outputs[1:]
	default:
		return ""
	}
	s, err := p.ToBase64()
	if err != nil {
		return ""
	}
	return s
}

func (k *clerk) bytes(f string) []byte {
	if strings.Contains(f, "password") {
		return []byte(k.pick("password", k.pass, k.pass, k.pass, "wrong", "", "\x00", k.pass+"\x00", strings.Repeat("p", 3000)))
	}
	switch within(k.rt, "bytes", 6) {
	case 0:
		return nil
	case 1:
		return make([]byte, 32)
	case 2:
		return []byte{1}
	case 3:
		return []byte(strings.Repeat("\xff", 32))
	case 4:
		return []byte(strings.Repeat("\x01", 33))
	default:
		return []byte(strings.Repeat("\x07", 32))
	}
}

var integers = []uint64{
	0, 1, 2, 100, 1000, 5000, 100000, 9999, 10000, 10001, 21e14, 1 << 31, 1 << 32, 1 << 62, math.MaxInt64, 1 << 63, math.MaxUint64, math.MaxUint64 - 99,
}

func (k *clerk) integer(f string) uint64 {
	odd := rarely(k.rt, "odd "+f, 30)
	switch {
	case odd:
	case f == "account_index":
		return uint64(domain.MarketAccountStart + within(k.rt, "account", 4))
	case f == "num_of_addresses":
		return uint64(within(k.rt, "addresses", 4))
	case f == "millisat_per_byte":
		return uint64(100 + within(k.rt, "rate", 300))
	case f == "index":
		return uint64(within(k.rt, "vout", 4))
	default:
		return uint64(1 + within(k.rt, "amount", 100000))
	}
	n := k.number("number", integers...)
	if f == "num_of_addresses" && n >= 100 && n <= 1<<32 {
		return 12 // too long, or too much memory when there is no limit
	}
	return n
}

func (k *clerk) scalar(f protoreflect.FieldDescriptor, name string) protoreflect.Value {
	rt := k.rt
	switch f.Kind() {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(k.text(name))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(k.bytes(name))
	case protoreflect.EnumKind:
		if rarely(rt, "odd "+name, 15) {
			return protoreflect.ValueOfEnum([]protoreflect.EnumNumber{-1, 3, 4, 5, 256, math.MaxInt32, math.MinInt32}[within(rt, "enum", 7)])
		}
		return protoreflect.ValueOfEnum(f.Enum().Values().Get(within(rt, "enum", f.Enum().Values().Len())).Number())
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(chance(rt, name, 50))
	case protoreflect.Int32Kind:
		return protoreflect.ValueOfInt32(int32(k.integer(name)))
	case protoreflect.Int64Kind:
		return protoreflect.ValueOfInt64(int64(k.integer(name)))
	case protoreflect.Uint32Kind:
		return protoreflect.ValueOfUint32(uint32(k.integer(name)))
	case protoreflect.Uint64Kind:
		return protoreflect.ValueOfUint64(k.integer(name))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32([]float32{1, 0.5, 20000, 1e-6, 0, -1, 1e-45, math.MaxFloat32, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}[within(rt, name, 11)])
	}
	rt.Fatalf("[verif-error] unknown kind %v", f.Kind())
	panic("")
}

// fill sets most of the fields of a message.
func (k *clerk) fill(m protoreflect.Message) {
	rt := k.rt
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		name := string(f.Name())
		if rarely(rt, "no "+name, 8) {
			continue
		}
		k.set(m, f, name)
	}
}

func (k *clerk) set(m protoreflect.Message, f protoreflect.FieldDescriptor, name string) {
	rt := k.rt
	switch {
	case f.IsMap():
		v := m.Mutable(f).Map()
		for n := within(rt, name, 3); n > 0; n-- {
			key := k.pick("script", "", "zz", "0014"+strings.Repeat("ab", 20), "51")
			v.Set(protoreflect.ValueOfString(key).MapKey(), k.scalar(f.MapValue(), name))
		}
	case name == "seed_mnemonic":
		v := m.Mutable(f).List()
		words := append([]string{}, txlib.Mnemonic(within(rt, "seed", 3))...)
		if rarely(rt, "odd seed", 40) {
			switch within(rt, "how", 4) {
			case 0:
				words = words[:within(rt, "words", len(words))]
			case 1:
				words[within(rt, "word", len(words))] = "zzz"
			case 2:
				words[0] = ""
			default:
				words = append(words, words...)
			}
		}
		for _, w := range words {
			v.Append(protoreflect.ValueOfString(w))
		}
	case f.IsList():
		v := m.Mutable(f).List()
		for n := within(rt, name, 4); n > 0; n-- {
			if f.Kind() == protoreflect.MessageKind {
				k.fill(v.AppendMutable().Message())
			} else {
				v.Append(k.scalar(f, name))
			}
		}
	case f.Kind() == protoreflect.MessageKind:
		k.fill(m.Mutable(f).Message())
	default:
		m.Set(f, k.scalar(f, name))
	}
}

// spoil changes some field of a message that was right.
func (k *clerk) spoil(m protoreflect.Message) {
	fs := m.Descriptor().Fields()
	if fs.Len() == 0 {
		return
	}
	f := fs.Get(within(k.rt, "spoilt field", fs.Len()))
	name := string(f.Name())
	switch {
	case rarely(k.rt, "cleared", 10):
		m.Clear(f)
	case name == "transaction":
		m.Set(f, protoreflect.ValueOfString(k.damage(m.Get(f).String())))
	case f.IsMap() && m.Get(f).Map().Len() > 0:
		keys := []string{}
		m.Get(f).Map().Range(func(x protoreflect.MapKey, _ protoreflect.Value) bool { keys = append(keys, x.String()); return true })
		sort.Strings(keys)
		x := protoreflect.ValueOfString(keys[within(k.rt, "key", len(keys))]).MapKey()
		if chance(k.rt, "dropped", 30) {
			m.Mutable(f).Map().Clear(x)
		} else {
			m.Mutable(f).Map().Set(x, k.scalar(f.MapValue(), name))
		}
	case f.Kind() == protoreflect.MessageKind && !f.IsList() && m.Has(f):
		k.spoil(m.Mutable(f).Message())
	default:
		k.set(m, f, name)
	}
}

// request makes one: right, spoilt, or anything.
func (k *clerk) request() (rpc, proto.Message) {
	rt := k.rt
	m := rpcs[within(rt, "method", len(rpcs))]
	if len(k.markets) > 0 && k.open && chance(rt, "trade", 35) {
		m = rpcNamed(k.pick("what", "TradePropose", "TradePropose", "TradeComplete"))
	}
	if k.fresh && chance(rt, "initialise", 20) {
		m = rpcNamed("InitWallet")
	}
	msg := m.in.New()
	k.fill(msg)
	right := chance(rt, "right", 85)
	switch r := msg.Interface().(type) {
	case *pbwallet.InitWalletRequest:
		if right {
			r.SeedMnemonic, r.WalletPassword = txlib.Mnemonic(within(rt, "seed", 3)), []byte(Pass)
		}
	case *pbtrade.TradeProposeRequest:
		if p := k.proposal(); right && p != nil {
			proto.Reset(r)
			proto.Merge(r, p)
			k.psets = append(k.psets, p.SwapRequest.Transaction)
			if rarely(rt, "spoilt", 75) {
				k.spoil(msg)
				if chance(rt, "in the request", 60) && r.SwapRequest != nil {
					k.spoil(r.SwapRequest.ProtoReflect())
				}
			}
		}
	case *pbtrade.TradeCompleteRequest:
		if c := r.GetSwapComplete(); right && c != nil && len(k.deals) > 0 {
			d := k.deals[within(rt, "deal", len(k.deals))]
			r.SwapFail = nil
			c.AcceptId, c.Transaction = d.id, d.signed
			if rarely(rt, "spoilt", 75) {
				k.spoil(c.ProtoReflect())
			}
		}
	case *pbtrade.MarketPriceRequest:
		if x := k.market(); right && r.Market != nil {
			r.Market.BaseAsset, r.Market.QuoteAsset = x.BaseAsset, x.QuoteAsset
			if r.Asset = x.QuoteAsset; chance(rt, "base", 50) {
				r.Asset = Base
			}
		}
	case *pboperator.UpdateMarketPriceRequest:
		if right && r.Market != nil {
			r.Market.BaseAsset, r.Market.QuoteAsset = Base, k.market().QuoteAsset
		}
	case *pboperator.DepositMarketRequest:
		if chance(rt, "new market", 30) {
			r.Market = nil
		}
	case *pbwallet.ChangePasswordRequest:
		if right {
			r.CurrentPassword = []byte(k.pass)
		}
	}
	return m, msg.Interface()
}

// proposal is one the daemon should accept.
func (k *clerk) proposal() *pbtrade.TradeProposeRequest {
	rt := k.rt
	if len(k.markets) == 0 || !k.open {
		return nil
	}
	m := k.market()
	sell := chance(rt, "sell", 50)
	amount := uint64(1000 + within(rt, "amount", 1000000))
	price, err := k.Trade.GetMarketPrice(Ctx, m, kindOf(sell), amount, Base)
	if err != nil {
		return nil
	}
	P, p, R, r := Base, amount, m.QuoteAsset, price.Amount
	if !sell {
		P, p, R, r = R, r, P, p
	}
	if p == 0 || r == 0 || p > 21e14 {
		return nil
	}
	k.n++
	req := k.NewTrader(fmt.Sprint("trader", k.n)).Request(m, sell, P, p, R, r, uint64(within(rt, "change", 2)*700), 1, chance(rt, "conf", 60))
	return &pbtrade.TradeProposeRequest{Market: mktOf(m), Type: pbtrade.TradeType(kindOf(sell)), SwapRequest: req.Msg}
}

// learn keeps what came back for later requests.
func (k *clerk) learn(m rpc, req proto.Message, a answer) {
	k.replies[m.name]++
	switch r := a.reply.(type) {
	case *pboperator.AddWebhookReply:
		if a.err == nil {
			k.hooks = append(k.hooks, r.GetId())
		}
	case *pbtrade.TradeProposeReply:
		if acc := r.GetSwapAccept(); acc != nil && a.err == nil {
			k.psets = append(k.psets, acc.GetTransaction())
			for i := k.n; i > 0 && i > k.n-3; i-- { // whoever made it
				who := k.NewTrader(fmt.Sprint("trader", i))
				for j := 0; j < 6; j++ {
					who.Key()
				}
				if s, err := who.Sign(acc.GetTransaction()); err == nil {
					k.psets = append(k.psets, s)
					k.deals = append(k.deals, &pending{who: who, id: acc.GetId(), signed: s})
				}
			}
		}
	case *pbwallet.UnlockWalletReply:
		if a.err == nil {
			k.open = true
		}
	case *pbwallet.ChangePasswordReply:
		if a.err == nil {
			k.pass = string(req.(*pbwallet.ChangePasswordRequest).GetNewPassword())
		}
	}
	// a client that leaves does not stop it
	if m.name == "InitWallet" && k.fresh && (a.err == nil || k.exists()) {
		k.fresh = false
		k.pass = string(req.(*pbwallet.InitWalletRequest).GetWalletPassword())
	}
}

func hooksService(rt *rapid.T, dir string) *webhooks {
	s, err := boltsecurestore.NewSecureStorage(dir, "hooks.db")
	if err != nil {
		rt.Fatalf("[verif-error] %v", err)
	}
	w := &webhooks{}
	svc, err := webhookpubsub.NewWebhookPubSubService(s, &esplora.Client{Client: &http.Client{Transport: w}})
	if err != nil {
		rt.Fatalf("[verif-error] %v", err)
	}
	w.SecurePubSub = svc
	return w
}

func TestC34Requests(t *testing.T) {
	rule := "histories of 8-40 requests over every method of the three interfaces, right, spoilt in some field or arbitrary, one by one or several at once, to a daemon without wallet, locked or running with markets and trades; non-trivial: at least 4 requests refused and 4 served"
	vt.Check(t, 300, 12000, rule, func(rt *rapid.T, c *vt.Case) {
		dir, err := os.MkdirTemp("", "verif")
		if err != nil {
			rt.Fatalf("[verif-error] %v", err)
		}
		defer os.RemoveAll(dir)
		kind := within(rt, "wallet", 10)
		o := genWorld(rt)
		o.InMemory = false // has no rollback
		o.Bare = true
		o.MarketFee = int64(within(rt, "fee", 3) * 25)
		hooks := hooksService(rt, dir)
		o.PubSub = hooks
		In(rt, o, func(rt *rapid.T, w *World) {
			defer hooks.Store().Close()
			s := &story{rt: rt}
			k := &clerk{bank: &bank{story: s, World: w}, fresh: true, pass: Pass, replies: map[string]int{}}
			switch {
			case kind == 9:
				s.did("no wallet")
			default:
				w.Init(false)
				k.fresh = false
				if kind == 8 {
					s.did("locked")
					break
				}
				w.Unlock()
				k.open = true
				if kind < 7 {
					k.bank = newBank(rt, s, w)
					for n := within(rt, "trades", 3); n > 0; n-- {
						if d := k.propose(); d != nil {
							k.psets = append(k.psets, d.signed, d.req.Msg.Transaction)
						}
					}
				}
				k.unclaimed()
				s.did("running")
			}
			refused, served := 0, 0
			var last map[string][]string
			for n := rapid.IntRange(8, 40).Draw(rt, "requests"); n > 0; n-- {
				if rarely(rt, "restart", 4) && !k.fresh {
					w.Restart()
					k.open, last = false, nil
					s.did("restart")
					if chance(rt, "unlock", 70) {
						if err := w.Wallet.UnlockWallet(Ctx, k.pass); err != nil {
							s.fatalf("unlock: %v", err)
						}
						k.open = true
						w.Advance(time.Minute)
					}
				}
				size := 1
				if rarely(rt, "at once", 12) {
					size = 2 + within(rt, "size", 3)
				}
				ms, reqs, gone, reads := []rpc{}, []proto.Message{}, []int{}, true
				text, proposing, init := []string{}, false, false
				for i := 0; i < size; i++ {
					m, r := k.request()
					g := -1
					if m.name == "InitWallet" {
						// of two at once, the one that comes late gets no error,
						// whatever becomes of the other
						if init {
							continue
						}
						init = true
					}
					if m.stream && rarely(rt, "gone", 8) || init && chance(rt, "gone", 30) {
						g = within(rt, "replies", 3)
					}
					if m.name == "TradePropose" {
						// a proposal waits for another one on a mutex, while time
						// stands still and the other waits for the storage
						if proposing {
							continue
						}
						proposing = true
					}
					ms, reqs, gone = append(ms, m), append(reqs, r), append(gone, g)
					reads = reads && m.reads
					text = append(text, fmt.Sprintf("%s(%s)", m.name, short(r)))
				}
				before := last
				if before == nil {
					before = k.state()
				}
				s.did("%s", strings.Join(text, " with "))
				down := rarely(rt, "explorer down", 6) || init && chance(rt, "down", 30)
				if down {
					k.txt[len(k.txt)-1] += " while the explorer is down"
					w.Chain.Fail = func(string, string) error { return errors.New("explorer is down") }
				}
				as := k.batch(ms, reqs, gone, chance(rt, "slow", 30))
				w.Chain.Fail = nil
				after := k.state()
				last = after
				bad := true
				for i, a := range as {
					k.txt[len(k.txt)-1] += fmt.Sprintf(": %v", a.err)
					k.learn(ms[i], reqs[i], a)
					bad = bad && (a.err != nil || a.failed) && gone[i] < 0
					switch {
					case a.err == nil && a.reply == nil && gone[i] < 0:
						if ms[i].name != "InitWallet" {
							s.fatalf("%s has neither reply nor error", ms[i].name)
						}
						k.usable()
					case a.err == nil && a.reply != nil:
						if _, err := proto.Marshal(a.reply); err != nil {
							s.fatalf("the reply of %s cannot be encoded: %v", ms[i].name, err)
						}
					}
					if a.err != nil || a.failed {
						refused++
						c.Class("%s refused", ms[i].name)
					} else {
						served++
						c.Class("%s served", ms[i].name)
					}
				}
				for what := range after {
					d := differ(before[what], after[what])
					switch {
					case d == "":
					case reads:
						s.fatalf("the %s changed: %s", what, d)
					case bad && !down && !k.mayChange(ms, what):
						s.fatalf("the request was refused but the %s changed: %s", what, d)
					}
				}
				if rarely(rt, "time", 10) {
					w.Advance(time.Duration(1+within(rt, "minutes", 90)) * time.Minute)
					k.mine()
					last = nil
				}
			}
			if k.fresh {
				s.did("InitWallet, as it should be")
				a := k.batch([]rpc{rpcNamed("InitWallet")}, []proto.Message{&pbwallet.InitWalletRequest{
					SeedMnemonic: txlib.Mnemonic(1), WalletPassword: []byte(Pass), Restore: chance(rt, "restore", 50),
				}}, []int{-1}, false)
				if a[0].err != nil {
					s.fatalf("the wallet cannot be initialised: %v", a[0].err)
				}
				k.usable()
			}
			if refused >= 4 && served >= 4 {
				c.NonTrivial("%d refused, %d served: %s", refused, served, strings.Join(k.txt, "; "))
			}
		})
	})
}

// usable makes sure that there is a wallet.
func (k *clerk) usable() {
	if !k.exists() {
		k.fatalf("the wallet was initialised, but there is none")
	}
}

func (k *clerk) exists() bool {
	err := k.Wallet.UnlockWallet(Ctx, "not the password of the wallet")
	return err != application.ErrWalletNotInitialized && err != application.ErrWalletIsSyncing
}

// mayChange tells what a refused request may leave behind.
func (k *clerk) mayChange(ms []rpc, what string) bool {
	for _, m := range ms {
		switch m.name {
		case "TradePropose", "TradeComplete":
			if what == "trades" || what == "coins" && m.name == "TradeComplete" { // the trade fails and gives back what it holds
				return true
			}
		}
	}
	return false
}

// unclaimed pays to some addresses of the fee account and of the markets.
func (k *clerk) unclaimed() {
	rt := k.rt
	if !chance(rt, "deposits", 60) {
		return
	}
	fee, err := k.Operator.DepositFeeAccount(Ctx, 1)
	if err != nil {
		k.fatalf("deposit: %v", err)
	}
	addrs := []string{fee[0].Address}
	for _, m := range append(k.markets, application.Market{}) {
		a, err := k.Operator.DepositMarket(Ctx, m.BaseAsset, m.QuoteAsset, 2)
		if err != nil {
			k.fatalf("deposit: %v", err)
		}
		addrs = append(addrs, a[0].Address, a[1].Address)
	}
	pays := []Pay{}
	for i, a := range addrs {
		asset := Base
		if i > 0 && i%2 == 0 {
			asset = txlib.Asset(1 + within(rt, "asset", 3))
		}
		pays = append(pays, Pay{Asset: asset, Value: uint64(5000 + within(rt, "value", 100000)), Key: k.KeyOf(a), Confidential: chance(rt, "confidential", 50)})
	}
	for _, x := range k.Chain.Fund(true, pays...) {
		k.outs = append(k.outs, application.TxOutpoint{Hash: x.TxID, Index: int(x.Vout)})
	}
}

func short(m proto.Message) string {
	s := fmt.Sprint(m)
	if len(s) > 700 {
		s = s[:400] + "…" + s[len(s)-200:]
	}
	return s
}

func mktOf(m application.Market) *pbtypes.Market {
	return &pbtypes.Market{BaseAsset: m.BaseAsset, QuoteAsset: m.QuoteAsset}
}

// webhooks is the pubsub service, with endpoints that answer something.
type webhooks struct{ ports.SecurePubSub }

func (w *webhooks) RoundTrip(r *http.Request) (*http.Response, error) {
	rec := httptest.NewRecorder()
	if strings.HasSuffix(r.URL.Path, "b") {
		rec.WriteHeader(500)
	}
	return rec.Result(), nil
}
