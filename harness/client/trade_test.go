//go:build go1.23

package client

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"

	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	"github.com/tdex-network/tdex-daemon/internal/verif/world"
	"github.com/tdex-network/tdex-daemon/pkg/trade"
	tradeclient "github.com/tdex-network/tdex-daemon/pkg/trade/client"
	trademarket "github.com/tdex-network/tdex-daemon/pkg/trade/market"
	tradetype "github.com/tdex-network/tdex-daemon/pkg/trade/type"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	pbtrade "github.com/tdex-network/tdex-protobuf/generated/go/trade"
	pbtypes "github.com/tdex-network/tdex-protobuf/generated/go/types"
	"github.com/vulpemventures/go-elements/pset"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

func within(rt *rapid.T, name string, n int) int { return rapid.IntRange(0, n-1).Draw(rt, name) }

func chance(rt *rapid.T, name string, percent int) bool { return within(rt, name, 100) < percent }

// provider is the counter-party; a case sets what it does.
type provider struct {
	pbtrade.UnimplementedTradeServer
	mu       sync.Mutex
	price    func(*pbtrade.MarketPriceRequest) (*pbtrade.MarketPriceReply, error)
	propose  func(*pbtrade.TradeProposeRequest) (*pbtrade.TradeProposeReply, error)
	complete func(*pbtrade.TradeCompleteRequest) (*pbtrade.TradeCompleteReply, error)
}

func (p *provider) MarketPrice(_ context.Context, r *pbtrade.MarketPriceRequest) (*pbtrade.MarketPriceReply, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.price(r)
}

func (p *provider) TradePropose(r *pbtrade.TradeProposeRequest, s pbtrade.Trade_TradeProposeServer) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	x, err := p.propose(r)
	if err != nil || x == nil {
		return err
	}
	return s.Send(x)
}

func (p *provider) TradeComplete(r *pbtrade.TradeCompleteRequest, s pbtrade.Trade_TradeCompleteServer) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	x, err := p.complete(r)
	if err != nil || x == nil {
		return err
	}
	return s.Send(x)
}

var (
	once sync.Once
	prov = &provider{}
	conn *tradeclient.Client
)

func connect() {
	once.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("[verif-error] " + err.Error())
		}
		s := grpc.NewServer()
		pbtrade.RegisterTradeServer(s, prov)
		go s.Serve(l)
		conn, err = tradeclient.NewTradeClient("127.0.0.1", l.Addr().(*net.TCPAddr).Port)
		if err != nil {
			panic("[verif-error] " + err.Error())
		}
	})
}

// deal is an order of the trader and what the provider sees of it.
type deal struct {
	rt           *rapid.T
	chain        *world.Chain
	market       trademarket.Market
	buy          bool
	amount       uint64
	asset        string
	other        string // asset of the preview
	preview      uint64
	key          *txlib.Key
	coins        map[world.Outpoint]*txlib.Coin
	P, R         string
	p, r         uint64
	prices, sent int
	failing      string
	extra        uint64 // change of the provider
	sealed       bool   // its coin
	blind        bool   // the outputs
	input        int    // without prevout
	accept       *pbswap.SwapAccept
	final        *pbswap.SwapComplete
	problem      error
}

func (d *deal) bad(format string, a ...interface{}) {
	if d.problem == nil {
		d.problem = fmt.Errorf(format, a...)
	}
}

func (d *deal) wantType() pbtrade.TradeType {
	if d.buy {
		return pbtrade.TradeType_BUY
	}
	return pbtrade.TradeType_SELL
}

var errDown = errors.New("provider is down")

func (d *deal) onPrice(r *pbtrade.MarketPriceRequest) (*pbtrade.MarketPriceReply, error) {
	d.prices++
	if r.GetMarket().GetBaseAsset() != d.market.BaseAsset || r.GetMarket().GetQuoteAsset() != d.market.QuoteAsset ||
		r.GetType() != d.wantType() || r.GetAmount() != d.amount || r.GetAsset() != d.asset {
		d.bad("price asked with %v", r)
	}
	switch d.failing {
	case "price":
		return nil, errDown
	case "no price":
		return &pbtrade.MarketPriceReply{}, nil
	}
	return &pbtrade.MarketPriceReply{Prices: []*pbtypes.PriceWithFee{{Price: &pbtypes.Price{}, Fee: &pbtypes.Fee{}, Amount: d.preview, Asset: d.other}}}, nil
}

func (d *deal) onPropose(r *pbtrade.TradeProposeRequest) (*pbtrade.TradeProposeReply, error) {
	d.sent++
	if r.GetMarket().GetBaseAsset() != d.market.BaseAsset || r.GetMarket().GetQuoteAsset() != d.market.QuoteAsset || r.GetType() != d.wantType() {
		d.bad("proposed to %v as %v", r.GetMarket(), r.GetType())
	}
	m := r.GetSwapRequest()
	if m.GetAssetP() != d.P || m.GetAmountP() != d.p || m.GetAssetR() != d.R || m.GetAmountR() != d.r {
		d.bad("proposes to send %d %.4s for %d %.4s", m.GetAmountP(), m.GetAssetP(), m.GetAmountR(), m.GetAssetR())
	}
	p, err := pset.NewPsetFromBase64(m.GetTransaction())
	if err != nil {
		d.bad("transaction does not parse: %v", err)
		return nil, errDown
	}
	script := d.key.ScriptHex()
	for _, keys := range []map[string][]byte{m.GetInputBlindingKey(), m.GetOutputBlindingKey()} {
		if len(keys) != 1 || !bytes.Equal(keys[script], d.key.Blind.Serialize()) {
			d.bad("blinding keys %v", keys)
		}
	}
	total, seen := uint64(0), map[world.Outpoint]bool{}
	for i, in := range p.UnsignedTx.Inputs {
		o := world.Outpoint{TxID: world.InHash(in), Vout: in.Index}
		c := d.coins[o]
		if c == nil || seen[o] || c.Asset != d.P {
			d.bad("input %s is not an unspent of the trader in the asset to send, or is there twice", o)
			continue
		}
		seen[o] = true
		total += c.Value
		w := p.Inputs[i].WitnessUtxo
		if w == nil || !bytes.Equal(w.Script, c.Out.Script) || !bytes.Equal(w.Value, c.Out.Value) || !bytes.Equal(w.Asset, c.Out.Asset) || !bytes.Equal(w.Nonce, c.Out.Nonce) {
			d.bad("prevout of input %d altered", i)
		}
	}
	want := map[string]int{fmt.Sprint(d.R, d.r): 1}
	if total < d.p {
		d.bad("%d are spent to send %d", total, d.p)
	} else if total > d.p {
		want[fmt.Sprint(d.P, total-d.p)]++
	}
	for i, o := range p.UnsignedTx.Outputs {
		k := fmt.Sprint(txlib.AssetOf(o.Asset), txlib.ValueOf(o.Value))
		if o.IsConfidential() || !bytes.Equal(o.Script, d.key.Script) || want[k] == 0 {
			d.bad("output %d of %s to %x", i, k, o.Script)
			continue
		}
		want[k]--
	}
	for k, n := range want {
		if n != 0 {
			d.bad("output %s is missing", k)
		}
	}
	if d.problem != nil {
		return nil, errDown
	}
	switch d.failing {
	case "propose":
		return nil, errDown
	case "no reply":
		return nil, nil
	case "rejected":
		return &pbtrade.TradeProposeReply{SwapFail: &pbswap.SwapFail{Id: "f", MessageId: m.GetId(), FailureCode: 1, FailureMessage: "no"}}, nil
	}
	d.accept = d.fill(m, p)
	return &pbtrade.TradeProposeReply{SwapAccept: d.accept, ExpiryTimeUnix: 1}, nil
}

// fill completes the transaction as the daemon does.
func (d *deal) fill(m *pbswap.SwapRequest, p *pset.Pset) *pbswap.SwapAccept {
	mine := txlib.NewKey("provider")
	extra := d.extra
	coin := txlib.NewCoin(hex.EncodeToString(txlib.H("provider", d.p)), 0, d.R, d.r+extra, mine)
	fee := txlib.NewCoin(hex.EncodeToString(txlib.H("fee", d.p)), 1, world.Base, 1000, mine)
	if d.sealed {
		coin.Confidential()
	}
	u, err := pset.NewUpdater(p)
	must(err)
	n := len(p.Inputs)
	for i, c := range []*txlib.Coin{coin, fee} {
		u.AddInput(transaction.NewTxInput(c.TxHash(), c.Vout))
		must(u.AddInWitnessUtxo(c.Out, n+i))
	}
	u.AddOutput(txlib.Out(d.P, d.p, mine.Script))
	if extra > 0 {
		u.AddOutput(txlib.Out(d.R, extra, mine.Script))
	}
	u.AddOutput(txlib.Out(world.Base, 400, mine.Script))
	u.AddOutput(txlib.Out(world.Base, 600, nil))
	if d.blind {
		for i, o := range p.UnsignedTx.Outputs {
			if len(o.Script) > 0 {
				k := d.key
				if bytes.Equal(o.Script, mine.Script) {
					k = mine
				}
				x := txlib.BlindOut(txlib.AssetOf(o.Asset), txlib.ValueOf(o.Value), o.Script, k.BlindPub.SerializeCompressed(),
					txlib.H("abf", i), txlib.H("vbf", i), txlib.H("eph", i))
				p.UnsignedTx.Outputs[i] = x
			}
		}
	}
	must(txlib.Sign(p, n, mine))
	must(txlib.Sign(p, n+1, mine))
	if d.failing == "no prevout" {
		p.Inputs[d.input%len(p.Inputs)].WitnessUtxo = nil
	}
	tx := txlib.B64(p)
	if d.failing == "garbage" {
		tx = tx[:len(tx)/2]
	}
	return &pbswap.SwapAccept{Id: "accept", RequestId: m.GetId(), Transaction: tx,
		InputBlindingKey: map[string][]byte{mine.ScriptHex(): mine.Blind.Serialize()}, OutputBlindingKey: map[string][]byte{mine.ScriptHex(): mine.Blind.Serialize()}}
}

func (d *deal) onComplete(r *pbtrade.TradeCompleteRequest) (*pbtrade.TradeCompleteReply, error) {
	if r.GetSwapFail() != nil || r.GetSwapComplete() == nil || d.final != nil {
		d.bad("completed with %v", r)
		return nil, errDown
	}
	d.final = r.GetSwapComplete()
	switch d.failing {
	case "complete":
		return nil, errDown
	case "no completion":
		return nil, nil
	case "refused":
		return &pbtrade.TradeCompleteReply{SwapFail: &pbswap.SwapFail{Id: "f", MessageId: "x", FailureCode: 2, FailureMessage: "too late"}}, nil
	}
	return &pbtrade.TradeCompleteReply{Txid: "the id"}, nil
}

func must(err error) {
	if err != nil {
		panic("[verif-error] " + err.Error())
	}
}

// judge compares the handed in transaction with the accepted one.
func (d *deal) judge() error {
	if d.final.GetAcceptId() != d.accept.GetId() || d.final.GetId() == "" {
		return fmt.Errorf("completes %q as %q", d.final.GetAcceptId(), d.final.GetId())
	}
	a, err := pset.NewPsetFromBase64(d.accept.GetTransaction())
	must(err)
	b, err := pset.NewPsetFromBase64(d.final.GetTransaction())
	if err != nil {
		return fmt.Errorf("signed transaction: %v", err)
	}
	x, err := a.UnsignedTx.ToHex()
	must(err)
	y, err := b.UnsignedTx.ToHex()
	if err != nil || x != y {
		return fmt.Errorf("the transaction is altered (%v)", err)
	}
	for i := range a.Inputs {
		w := a.Inputs[i].WitnessUtxo
		if !bytes.Equal(w.Script, d.key.Script) {
			if fmt.Sprint(sigs(a, i)) != fmt.Sprint(sigs(b, i)) {
				return fmt.Errorf("signatures of input %d of the provider altered", i)
			}
			continue
		}
		if len(b.Inputs[i].PartialSigs) != 1 {
			return fmt.Errorf("input %d of the trader has %d signatures", i, len(b.Inputs[i].PartialSigs))
		}
	}
	_, tx, err := txlib.Final(b)
	if err != nil {
		return fmt.Errorf("signed transaction is not final: %v", err)
	}
	for i := range a.Inputs {
		if err := txlib.VerifyP2WPKH(tx, i, a.Inputs[i].WitnessUtxo); err != nil {
			return err
		}
	}
	return nil
}

func sigs(p *pset.Pset, i int) (l []string) {
	for _, s := range p.Inputs[i].PartialSigs {
		l = append(l, fmt.Sprintf("%x:%x", s.PubKey, s.Signature))
	}
	return
}

var failures = []string{"price", "no price", "propose", "no reply", "rejected", "complete", "no completion", "refused", "no prevout", "garbage", "explorer"}

func TestC31Trader(t *testing.T) {
	connect()
	rule := "orders (buy or sell, given in either asset, any amount and preview) of traders with 0-6 coins of three assets, confidential or not, through a provider that accepts, rejects or fails at any point; non-trivial: a proposal with change or several coins was accepted"
	vt.Check(t, 1000, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		d := &deal{rt: rt, chain: world.NewChain("t"), coins: map[world.Outpoint]*txlib.Coin{}}
		d.market = trademarket.Market{BaseAsset: world.Base, QuoteAsset: txlib.Asset(1)}
		d.buy = chance(rt, "buy", 50)
		amount := func(name string) uint64 {
			switch within(rt, name+"Scale", 4) {
			case 0:
				return uint64(1 + within(rt, name, 10))
			case 1:
				return rapid.Uint64Range(1, 2100000000000000).Draw(rt, name)
			}
			return uint64(1 + within(rt, name, 10000000))
		}
		d.amount, d.preview = amount("amount"), amount("preview")
		d.asset, d.other = d.market.BaseAsset, d.market.QuoteAsset
		if chance(rt, "in quote", 50) {
			d.asset, d.other = d.other, d.asset
		}
		// sells the base asset, or buys it with the quote asset
		d.P, d.R = d.market.BaseAsset, d.market.QuoteAsset
		if d.buy {
			d.P, d.R = d.R, d.P
		}
		d.p, d.r = d.amount, d.preview
		if d.asset != d.P {
			d.p, d.r = d.r, d.p
		}
		d.key = txlib.NewKey("trader", within(rt, "trader", 3))
		// coins
		total := uint64(0)
		pays := []world.Pay{}
		for i, n := 0, []int{1, 2, 3, 0, 4, 6}[within(rt, "coins", 6)]; i < n; i++ {
			a, v := d.P, uint64(0)
			switch within(rt, "coin", 8) {
			case 0, 1:
				v = d.p/uint64(n) + uint64(within(rt, "more", 3)*within(rt, "some", 1000))
			case 2:
				v = d.p
			case 3:
				v = d.p + uint64(1+within(rt, "more", 100000))
			case 4:
				a, v = d.R, amount("coinR")
			case 5:
				a, v = txlib.Asset(7), amount("coin7")
			default:
				v = amount("coinP")
			}
			if v == 0 {
				v = 1
			}
			if a == d.P {
				total += v
			}
			pays = append(pays, world.Pay{Asset: a, Value: v, Key: d.key, Confidential: chance(rt, "confidential", 30)})
		}
		for i := range pays {
			x := d.chain.Fund(true, pays[i])[0]
			d.coins[world.Outpoint{TxID: x.TxID, Vout: x.Vout}] = x
		}
		if len(pays) > 0 && chance(rt, "spent", 15) {
			x := d.chain.Fund(true, world.Pay{Asset: d.P, Value: d.p + 1, Key: d.key})[0]
			d.chain.Spend(true, x)
		}
		if chance(rt, "fails", 40) {
			d.failing = failures[within(rt, "failure", len(failures))]
		}
		d.extra, d.sealed, d.blind, d.input = uint64(within(rt, "providerChange", 3)*500), chance(rt, "sealed", 50), chance(rt, "blind", 40), within(rt, "input", 12)
		if d.failing == "explorer" {
			d.chain.Fail = func(m, _ string) error { return errors.New("explorer is down") }
		}
		prov.mu.Lock()
		prov.price, prov.propose, prov.complete = d.onPrice, d.onPropose, d.onComplete
		prov.mu.Unlock()
		tr, err := trade.NewTrade(trade.NewTradeOpts{Chain: txlib.Net.Name, ExplorerService: d.chain, Client: conn})
		must(err)
		what := fmt.Sprintf("order of %d %.4s (buy %v), preview %d, %d available to send, provider %q", d.amount, d.asset, d.buy, d.preview, total, d.failing)
		whole := chance(rt, "whole", 70)
		var msg []byte
		var txid string
		vt.NoCrash(rt, what, func() {
			if whole {
				o := trade.BuyOrSellAndCompleteOpts{Market: d.market, Amount: d.amount, Asset: d.asset, PrivateKey: d.key.Priv.Serialize(), BlindingKey: d.key.Blind.Serialize()}
				if d.buy {
					txid, err = tr.BuyAndComplete(o)
				} else {
					txid, err = tr.SellAndComplete(o)
				}
			} else {
				o := trade.BuyOrSellOpts{Market: d.market, Amount: d.amount, Asset: d.asset, Address: d.key.ConfidentialAddress(), BlindingKey: d.key.Blind.Serialize()}
				if d.buy {
					msg, err = tr.Buy(o)
				} else {
					msg, err = tr.Sell(o)
				}
			}
		})
		prov.mu.Lock()
		defer prov.mu.Unlock()
		if d.problem != nil {
			rt.Fatalf("%s: %v", what, d.problem)
		}
		if d.prices > 1 || d.sent > 1 {
			rt.Fatalf("%s: %d prices asked, %d proposals", what, d.prices, d.sent)
		}
		broken := d.failing == "price" || d.failing == "no price" || d.failing == "explorer" || total < d.p
		if broken {
			if err == nil || d.sent > 0 || d.final != nil {
				rt.Fatalf("%s: proposed (%d), result %q %x %v", what, d.sent, txid, msg, err)
			}
			c.Class("no proposal")
			return
		}
		if d.sent == 0 {
			rt.Fatalf("%s: no proposal: %v", what, err)
		}
		if d.accept == nil {
			if err == nil || d.final != nil {
				rt.Fatalf("%s: no acceptance, result %q %x", what, txid, msg)
			}
			c.Class("not accepted")
			return
		}
		if !whole {
			got := &pbswap.SwapAccept{}
			if err != nil || proto.Unmarshal(msg, got) != nil || !proto.Equal(got, d.accept) || d.final != nil {
				rt.Fatalf("%s: accepted with %v, returned %v %v", what, d.accept, got, err)
			}
		} else {
			if d.failing == "garbage" || d.failing == "no prevout" {
				if err == nil || d.final != nil {
					rt.Fatalf("%s: completed", what)
				}
				c.Class("broken acceptance")
				return
			}
			if d.final == nil {
				rt.Fatalf("%s: not completed: %v", what, err)
			}
			if e := d.judge(); e != nil {
				rt.Fatalf("%s: %v", what, e)
			}
			switch d.failing {
			case "complete", "no completion", "refused":
				if err == nil {
					rt.Fatalf("%s: completion failed, result %q", what, txid)
				}
			default:
				if err != nil || txid != "the id" {
					rt.Fatalf("%s: completed, result %q %v", what, txid, err)
				}
			}
		}
		c.Class("accepted, whole=%v", whole)
		p, err := pset.NewPsetFromBase64(d.accept.GetTransaction())
		if err != nil {
			return
		}
		if n := len(p.Inputs); n > 3 || total > d.p {
			c.NonTrivial("%s, %d inputs", what, n)
		}
	})
}

// The preview alone.
func TestC31Preview(t *testing.T) {
	connect()
	rule := "previews of orders of any kind and amount in either asset, with any reply; non-trivial: all"
	vt.Check(t, 400, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		d := &deal{rt: rt, market: trademarket.Market{BaseAsset: txlib.Asset(within(rt, "base", 3)), QuoteAsset: txlib.Asset(3 + within(rt, "quote", 3))}}
		d.buy = chance(rt, "buy", 50)
		d.amount, d.preview = rapid.Uint64Min(1).Draw(rt, "amount"), rapid.Uint64().Draw(rt, "preview")
		d.asset, d.other = d.market.BaseAsset, d.market.QuoteAsset
		if chance(rt, "in quote", 50) {
			d.asset, d.other = d.other, d.asset
		}
		prov.mu.Lock()
		prov.price = d.onPrice
		prov.mu.Unlock()
		tr, err := trade.NewTrade(trade.NewTradeOpts{Chain: txlib.Net.Name, ExplorerService: world.NewChain("p"), Client: conn})
		must(err)
		kind := tradetype.Sell
		want := trade.PreviewResult{AssetToSend: d.market.BaseAsset, AssetToReceive: d.market.QuoteAsset}
		if d.buy {
			kind = tradetype.Buy
			want.AssetToSend, want.AssetToReceive = want.AssetToReceive, want.AssetToSend
		}
		if want.AmountToSend, want.AmountToReceive = d.amount, d.preview; want.AssetToSend != d.asset {
			want.AmountToSend, want.AmountToReceive = d.preview, d.amount
		}
		got, err := tr.Preview(trade.PreviewOpts{Market: d.market, TradeType: int(kind), Amount: d.amount, Asset: d.asset})
		if err != nil || *got != want || d.problem != nil {
			rt.Fatalf("preview of %d %.4s (buy %v) at %d: %+v %v %v", d.amount, d.asset, d.buy, d.preview, got, err, d.problem)
		}
		c.NonTrivial("%+v", want)
	})
}
