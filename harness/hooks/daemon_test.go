//go:build go1.23

package hooks

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"testing"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	. "github.com/tdex-network/tdex-daemon/internal/verif/world"
)

// house is a daemon with webhooks.
type house struct {
	*ward
	*World
	market application.Market
	terms  map[string]*Request
	deals  []string // transactions of completed trades to be settled
	done   []string // settled ones
	n      int
}

func (h *house) fatalf(f string, a ...interface{}) { h.ward.fatalf(f, a...) }

// heard checks that the hooks of a topic and no other got one message, and
// gives it.
func (h *house) heard(topic string) map[string]interface{} {
	h.Settle()
	got := h.in.take()
	must, may := h.meant(topic)
	message := ""
	if len(got) > 0 {
		message = got[0].message
	}
	for _, d := range got {
		if d.message != message {
			h.fatalf("%.200q and %.200q were delivered for one event", message, d.message)
		}
	}
	h.received(message, got, must, may)
	if len(got) == 0 {
		return nil
	}
	m := map[string]interface{}{}
	if err := json.Unmarshal([]byte(message), &m); err != nil {
		h.fatalf("%q: %v", message, err)
	}
	return m
}

// pair checks the market a message is about.
func (h *house) pair(m map[string]interface{}) {
	x, _ := m["market"].(map[string]interface{})
	if x["base_asset"] != Base || x["quote_asset"] != h.market.QuoteAsset {
		h.fatalf("the market is %+v: the message is %v", h.market, m)
	}
}

// owned is the balance of the market that is not reserved.
func (h *house) owned(asset string) (total uint64) {
	for _, u := range h.Unspents() {
		if u.AssetHash == asset && !u.Spent && !u.Locked && u.Confirmed && h.Account(hex.EncodeToString(u.ScriptPubKey)) == domain.MarketAccountStart {
			total += u.Value
		}
	}
	return
}

// silent checks that nothing was delivered.
func (h *house) silent(what string) {
	h.Settle()
	if got := h.in.take(); len(got) > 0 {
		h.fatalf("%.300q was delivered after %s", got, what)
	}
}

func (h *house) listing() {
	for code, topic := range topics {
		l, err := h.Operator.ListWebhooks(Ctx, code)
		if err != nil {
			h.fatalf("list %s: %v", topic, err)
		}
		must, _ := h.meant(topic)
		got := map[string]application.WebhookInfo{}
		for _, x := range l {
			got[x.Id] = x
		}
		if len(l) != len(must) {
			h.fatalf("%d webhooks are listed for %s instead of %d: %+v", len(l), topic, len(must), l)
		}
		for _, id := range must {
			k := h.hooks[id]
			want := application.WebhookInfo{Id: id, Endpoint: h.base + k.endpoint, IsSecured: k.secret != ""}
			for c, t := range topics {
				if t == k.topic {
					want.ActionType = c
				}
			}
			if got[id] != want {
				h.fatalf("%v is listed for %s as %+v", k, topic, got[id])
			}
		}
	}
}

func (h *house) trade(rt *rapid.T) {
	sell := chance(rt, "sell", 50)
	kind := application.TradeBuy
	if sell {
		kind = application.TradeSell
	}
	amount := uint64(50000 * (1 + within(rt, "amount", 10)))
	price, err := h.Trade.GetMarketPrice(Ctx, h.market, kind, amount, Base)
	if err != nil {
		return
	}
	P, p, R, r := Base, amount, h.market.QuoteAsset, price.Amount
	if !sell {
		P, p, R, r = R, r, P, p
	}
	h.n++
	who := h.NewTrader(fmt.Sprint("trader", h.n))
	req := who.Request(h.market, sell, P, p, R, r, 0, 1, true)
	acc, _, err := who.Propose(req)
	if acc == nil {
		h.did("a proposal is refused: %v", err)
		return
	}
	signed, err := who.Sign(acc.GetTransaction())
	must(rt, err)
	txid, _, err := who.Complete(acc.GetId(), signed)
	h.did("trade %.8s: %v", txid, err)
	if err == nil && txid != "" {
		h.deals = append(h.deals, txid)
		h.terms[txid] = req
	}
	h.silent("a trade is completed")
}

func (h *house) settle(rt *rapid.T) {
	if len(h.deals) == 0 || rarely(rt, "again", 30) && len(h.done) > 0 {
		if len(h.done) > 0 {
			id := h.done[within(rt, "trade", len(h.done))]
			h.Confirmed(id)
			h.did("%.8s is confirmed again", id)
			h.silent("a confirmation comes again")
		}
		return
	}
	id := h.deals[0]
	h.deals = h.deals[1:]
	h.done = append(h.done, id)
	h.Confirmed(id)
	h.did("%.8s is confirmed", id)
	m := h.heard("TRADE_SETTLED")
	if m == nil {
		return
	}
	d := h.terms[id]
	x, _ := m["swap"].(map[string]interface{})
	if m["txid"] != id || x["asset_p"] != d.AssetP || x["asset_r"] != d.AssetR || x["amount_p"] != float64(d.AmountP) || x["amount_r"] != float64(d.AmountR) {
		h.fatalf("trade %s of %d %s for %d %s was settled: the message is %v", id, d.AmountP, d.AssetP, d.AmountR, d.AssetR, m)
	}
	h.pair(m)
}

func (h *house) withdraw(rt *rapid.T) {
	to := txlib.NewKey("payee", fmt.Sprint(within(rt, "payee", 3)))
	h.Chain.Register(to)
	req := application.WithdrawMarketReq{Market: h.market, MillisatPerByte: 100, Push: true, Address: to.ConfidentialAddress()}
	req.BalanceToWithdraw.BaseAmount = uint64(1000 * (1 + within(rt, "base", 40)))
	req.BalanceToWithdraw.QuoteAmount = uint64(1000 * within(rt, "quote", 40))
	if rarely(rt, "too much", 20) {
		req.BalanceToWithdraw.BaseAmount = 1 << 50
	}
	n := len(h.Chain.Sent)
	base, quote := h.owned(Base), h.owned(h.market.QuoteAsset)
	_, err := h.Operator.WithdrawMarketFunds(Ctx, req)
	h.did("withdraw: %v", err)
	if err != nil {
		h.silent("a withdrawal failed")
		return
	}
	m := h.heard("ACCOUNT_WITHDRAW")
	if len(h.Chain.Sent) != n+1 {
		h.fatalf("the withdrawal sent %d transactions", len(h.Chain.Sent)-n)
	}
	if m != nil {
		a, _ := m["amount_withdraw"].(map[string]interface{})
		if m["txid"] != h.Chain.Sent[n] || m["receiving_address"] != req.Address || a == nil ||
			a["base_amount"] != float64(req.BalanceToWithdraw.BaseAmount) || a["quote_amount"] != float64(req.BalanceToWithdraw.QuoteAmount) {
			h.fatalf("after the withdrawal %+v sent with %s the message is %v", req, h.Chain.Sent[n], m)
		}
		h.pair(m)
		b, _ := m["balance"].(map[string]interface{})
		if b["base_balance"] != float64(base-req.BalanceToWithdraw.BaseAmount) || b["quote_balance"] != float64(quote-req.BalanceToWithdraw.QuoteAmount) {
			h.fatalf("after the withdrawal %+v from %d and %d the message is %v", req, base, quote, m)
		}
	}
	// The change has to be confirmed before it is spent.
	h.Confirmed(h.Chain.Sent[n])
	h.silent("the withdrawal is confirmed")
}

func (h *house) restart(rt *rapid.T) {
	h.Settle()
	if err := h.svc.Store().Close(); err != nil {
		h.fatalf("close: %v", err)
	}
	h.open()
	h.World.Opts.PubSub = h.svc
	h.World.Restart()
	h.did("restart")
	if id, err := h.Operator.AddWebhook(Ctx, application.Webhook{Endpoint: h.base + "/ok/1"}); err == nil {
		h.fatalf("webhook %s is added while locked", id)
	}
	for n := 0; n < 2 && chance(rt, "change password", 40); n++ {
		p := fmt.Sprintf("password %d", within(rt, "password", 4))
		if err := h.Wallet.ChangePassword(Ctx, h.pass, p); err != nil {
			h.fatalf("change of password: %v", err)
		}
		h.pass = p
		h.did("change password")
		if chance(rt, "wait", 70) {
			h.Settle()
		}
		if chance(rt, "wrong password", 20) && h.Wallet.UnlockWallet(Ctx, "wrong") == nil {
			h.fatalf("unlocked with a wrong password")
		}
	}
	if err := h.Wallet.UnlockWallet(Ctx, h.pass); err != nil {
		h.fatalf("unlock: %v", err)
	}
	h.did("unlock")
	if chance(rt, "wait", 50) {
		h.Advance(time.Minute)
	}
}

func TestC28Daemon(t *testing.T) {
	vt.Check(t, 180, 2500, "an event was delivered to two hooks or more, or to one after a restart", func(rt *rapid.T, c *vt.Case) {
		wd := newWard(rt, false)
		wd.rt = rt
		wd.open()
		wd.pass = Pass
		In(rt, Opts{InMemory: chance(rt, "memory", 50), Seed: within(rt, "seed", 3), PubSub: wd.svc, Bare: true}, func(rt *rapid.T, w *World) {
			defer func() { wd.svc.Store().Close() }()
			h := &house{ward: wd, World: w, terms: map[string]*Request{}}
			h.ward.rt = rt
			if errs := w.InitWith(w.Mnemonic, Pass, false); len(errs) > 0 {
				h.fatalf("init: %v", errs)
			}
			if chance(rt, "restart", 30) {
				h.restart(rt)
			} else if err := w.Wallet.UnlockWallet(Ctx, Pass); err != nil {
				h.fatalf("unlock: %v", err)
			}
			funded, restarts, wide := false, 0, false
			for n := 4 + within(rt, "steps", 25); n > 0; n-- {
				switch k := within(rt, "step", 100); {
				case k < 35:
					x := genHook(rt)
					code := 0
					for i, tp := range topics {
						if tp == x.topic {
							code = i
						}
					}
					id, err := h.Operator.AddWebhook(Ctx, application.Webhook{ActionType: code, Endpoint: h.base + x.endpoint, Secret: x.secret})
					if err != nil {
						h.fatalf("add %v: %v", x, err)
					}
					h.hooks[id] = x
					h.did("add %v", x)
				case k < 42:
					id := h.genID(rt)
					if err := h.Operator.RemoveWebhook(Ctx, id); err != nil {
						h.fatalf("remove %v: %v", h.hooks[id], err)
					}
					h.did("remove %v", h.hooks[id])
					h.removed(id)
				case k < 50:
					h.listing()
				case k < 62:
					h.restart(rt)
					restarts++
				default:
					if !funded {
						funded = true
						h.Advance(time.Minute)
						h.FundFee(400000, 400000, 400000)
						h.market = h.CreateMarket(txlib.Asset(1), []uint64{5000000, 5000000, 5000000}, []uint64{5000000, 5000000, 5000000})
						h.Open(h.market)
						h.silent("the market is funded")
					}
					h.Settle()
					got := len(h.done)
					switch {
					case k < 75:
						h.trade(rt)
					case k < 90:
						h.settle(rt)
					default:
						h.withdraw(rt)
						got--
					}
					if m, _ := h.meant("TRADE_SETTLED"); len(h.done) > got && (len(m) > 1 || len(m) > 0 && restarts > 0) {
						wide = true
						c.Class("an event after %d restarts", restarts)
					}
				}
			}
			h.listing()
			h.silent("nothing")
			if wide {
				c.NonTrivial("%s", h.ward)
			}
		})
	})
}
