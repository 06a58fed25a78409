//go:build go1.23

package domainsm

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/shopspring/decimal"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	pbswap "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"github.com/vulpemventures/go-elements/transaction"
	"google.golang.org/protobuf/proto"
)

// swapTxs is a ladder of transactions of the same swap.
type swapTxs struct {
	request   string // trader's partial transaction
	accept    string // both sides, daemon's inputs signed
	final     string // all inputs signed
	finalHex  string
	txid      string
	trader    *txlib.Key
	daemon    *txlib.Key
	amountP   uint64
	amountR   uint64
	assetP    string
	assetR    string
	inKeys    map[string][]byte
	outKeys   map[string][]byte
	unsigned  string
	inKeysReq map[string][]byte
}

func buildSwap(label string, amountP, amountR uint64) *swapTxs {
	s := &swapTxs{amountP: amountP, amountR: amountR, assetP: txlib.Asset(1), assetR: txlib.Asset(2)}
	s.trader, s.daemon = txlib.NewKey(label, "trader"), txlib.NewKey(label, "daemon")
	tc := txlib.NewCoin(hex.EncodeToString(txlib.H(label, 1)), 0, s.assetP, amountP, s.trader)
	dc := txlib.NewCoin(hex.EncodeToString(txlib.H(label, 2)), 1, s.assetR, amountR, s.daemon)
	o1 := txlib.Out(s.assetR, amountR, s.trader.Script)
	o2 := txlib.Out(s.assetP, amountP, s.daemon.Script)
	s.request = txlib.B64(txlib.Pset([]*txlib.Coin{tc}, append(one(), o1)))
	p := txlib.Pset([]*txlib.Coin{tc, dc}, append(one(), o1, o2))
	s.unsigned = txlib.B64(p)
	s.txid = p.UnsignedTx.TxHash().String()
	if err := txlib.SignOwn(p, s.daemon); err != nil {
		panic(err)
	}
	s.accept = txlib.B64(p)
	if err := txlib.SignOwn(p, s.trader); err != nil {
		panic(err)
	}
	s.final = txlib.B64(p)
	h, _, err := txlib.Final(p)
	if err != nil {
		panic(err)
	}
	s.finalHex = h
	s.inKeysReq = map[string][]byte{s.trader.ScriptHex(): s.trader.Blind.Serialize()}
	s.inKeys = map[string][]byte{s.trader.ScriptHex(): s.trader.Blind.Serialize(), s.daemon.ScriptHex(): s.daemon.Blind.Serialize()}
	s.outKeys = s.inKeys
	return s
}

type tradeModel struct {
	code                           int
	failed                         bool
	req, acc, comp, fail           domain.Swap
	hasFailMsg                     bool
	expiry                         uint64 // 0: none
	settlement                     uint64
	pset, txid, txhex              string
	price                          domain.Prices
	fee, fixedBase, fixedQuote     int64
	quote                          string
	pubkey                         []byte
}

func brief(s domain.Swap) string {
	return fmt.Sprintf("%s/%x/%d", s.ID, sha256.Sum256(s.Message), s.Timestamp)
}

func (m tradeModel) String() string {
	return fmt.Sprintf("status %d failed %v request %s accept %s complete %s fail %s deadline %d settled at %d pset %x tx %s %x "+
		"price %s %s fee %d %d %d quote %s trader %x", m.code, m.failed, brief(m.req), brief(m.acc), brief(m.comp), brief(m.fail),
		m.expiry, m.settlement, sha256.Sum256([]byte(m.pset)), m.txid, sha256.Sum256([]byte(m.txhex)),
		m.price.BasePrice, m.price.QuotePrice, m.fee, m.fixedBase, m.fixedQuote, m.quote, m.pubkey)
}

func TestC05TradeHistories(t *testing.T) {
	txs := []*swapTxs{buildSwap("one", 100000, 7000000), buildSwap("two", 1, 2100000000000000), buildSwap("three", 33333333, 7), buildSwap("other", 100000, 7000000)}
	vt.Check(t, 4000, 80000, "the trade was accepted and at least one later step was refused or repeated", func(rt *rapid.T, c *vt.Case) {
		other := txs[3]
		s := txs[rapid.IntRange(0, 2).Draw(rt, "swap")]
		tr := domain.NewTrade()
		m := tradeModel{code: domain.Empty}
		hist := ""
		var reqID string
		accepted, after := false, 0
		n := rapid.IntRange(1, 14).Draw(rt, "n")
		fresh := 0
		for i := 0; i < n; i++ {
			before := *tr
			id := tr.ID
			now0 := uint64(time.Now().Unix())
			// natural next steps are drawn more often
			ops := []string{"propose", "badpropose", "accept", "badaccept", "complete", "badcomplete", "settle", "fail", "expire"}
			switch m.code {
			case domain.Empty:
				ops = append(ops, "propose", "propose", "propose", "propose", "propose", "propose")
			case domain.Proposal:
				ops = append(ops, "accept", "accept", "accept", "accept", "accept", "accept")
			case domain.Accepted:
				ops = append(ops, "complete", "complete", "complete", "complete")
			}
			op := rapid.SampledFrom(ops).Draw(rt, "op")
			if op == "fail" && m.code == domain.Empty {
				continue
			}
			hist += " " + op
			fatal := func(format string, a ...interface{}) {
				rt.Fatalf("after%s: %s", hist, fmt.Sprintf(format, a...))
			}
			expired := m.expiry > 0 && m.expiry <= now0
			switch op {
			case "propose", "badpropose":
				fresh++
				req := &pbswap.SwapRequest{
					Id: fmt.Sprintf("req%d", fresh), AssetP: s.assetP, AssetR: s.assetR, AmountP: s.amountP, AmountR: s.amountR,
					Transaction: s.request, InputBlindingKey: s.inKeysReq, OutputBlindingKey: s.inKeysReq,
				}
				if op == "badpropose" {
					switch rapid.IntRange(0, 2).Draw(rt, "bad") {
					case 0:
						req.Transaction = "garbage"
					case 1:
						req.Transaction = ""
					case 2:
						req.InputBlindingKey = map[string][]byte{"00": {1}}
					}
				}
				quote := s.assetR
				if rapid.Bool().Draw(rt, "quoteIsP") {
					quote = s.assetP
				}
				fee := rapid.Int64Range(0, 9999).Draw(rt, "fee")
				fb, fq := rapid.Int64Range(0, 99).Draw(rt, "fb"), rapid.Int64Range(0, 99).Draw(rt, "fq")
				pub := []byte{byte(fresh)}
				ok, err := tr.Propose(req, quote, fee, fb, fq, pub)
				if m.code >= domain.Proposal {
					if !ok || err != nil {
						fatal("repeated propose: %v %v", ok, err)
					}
					break
				}
				if err != nil {
					fatal("propose: %v", err)
				}
				if ok != (op == "propose") {
					fatal("propose returned %v", ok)
				}
				reqID = req.Id
				m.code = domain.Proposal
				m.pset, m.quote, m.pubkey = req.Transaction, quote, pub
				if tr.SwapRequest.ID != req.Id {
					fatal("request id %q, expected %q", tr.SwapRequest.ID, req.Id)
				}
				if ok {
					m.fee, m.fixedBase, m.fixedQuote = fee, fb, fq
					pr, rp := div8(s.amountP, s.amountR), div8(s.amountR, s.amountP)
					if s.assetP == quote {
						m.price = domain.Prices{BasePrice: rp, QuotePrice: pr}
					} else {
						m.price = domain.Prices{BasePrice: pr, QuotePrice: rp}
					}
					got := &pbswap.SwapRequest{}
					if err := proto.Unmarshal(tr.SwapRequest.Message, got); err != nil {
						fatal("request message: %v", err)
					}
					if got.Id != req.Id || got.AmountP != req.AmountP || got.AmountR != req.AmountR || got.AssetP != req.AssetP ||
						got.AssetR != req.AssetR || got.Transaction != req.Transaction {
						fatal("request message stored is %v, received %v", got, req)
					}
				} else {
					m.failed, m.hasFailMsg = true, true
				}
				m.req, m.fail = tr.SwapRequest, tr.SwapFail
				checkFail(fatal, tr, m, req.Id, !ok)
			case "accept", "badaccept":
				tx, in, out := s.accept, s.inKeys, s.outKeys
				if op == "badaccept" {
					switch rapid.IntRange(0, 2).Draw(rt, "bad") {
					case 0:
						tx = "garbage"
					case 1:
						in = s.inKeysReq
					case 2:
						out = s.inKeysReq
					}
				}
				dur := rapid.SampledFrom([]uint64{0, 3600, 1 << 32}).Draw(rt, "duration")
				ok, err := tr.Accept(tx, in, out, dur)
				if m.code >= domain.Accepted {
					after++
					if !ok || err != nil {
						fatal("repeated accept: %v %v", ok, err)
					}
					break
				}
				if m.code != domain.Proposal || m.failed {
					if ok || err == nil {
						fatal("accept on a trade that is no pending proposal: %v %v", ok, err)
					}
					break
				}
				if err != nil {
					fatal("accept: %v", err)
				}
				if ok != (op == "accept") {
					fatal("accept returned %v", ok)
				}
				if !ok {
					m.failed, m.hasFailMsg = true, true
					m.fail = tr.SwapFail
					checkFail(fatal, tr, m, reqID, true)
					break
				}
				accepted = true
				m.code = domain.Accepted
				m.pset, m.txid = tx, s.txid
				m.acc = tr.SwapAccept
				m.expiry = tr.ExpiryTime
				now1 := uint64(time.Now().Unix())
				if tr.ExpiryTime < now0+dur || tr.ExpiryTime > now1+dur {
					fatal("deadline %d, expected %d..%d", tr.ExpiryTime, now0+dur, now1+dur)
				}
				got := &pbswap.SwapAccept{}
				if err := proto.Unmarshal(tr.SwapAccept.Message, got); err != nil {
					fatal("accept message: %v", err)
				}
				if got.Id == "" || got.Id != tr.SwapAccept.ID || got.RequestId != reqID || got.Transaction != tx {
					fatal("accept message %v, trade %v", got, tr.SwapAccept)
				}
			case "complete", "badcomplete":
				tx := []string{s.final, s.finalHex}[rapid.IntRange(0, 1).Draw(rt, "tx")]
				if op == "badcomplete" {
					bad := []string{"", "garbage", s.request, s.accept, s.unsigned, s.finalHex[:len(s.finalHex)-8], "00", other.final, other.finalHex}
					tx = bad[rapid.IntRange(0, len(bad)-1).Draw(rt, "badtx")]
				}
				res, err := tr.Complete(tx)
				if m.code == domain.Completed || m.code == domain.Settled {
					after++
					if err != nil || res == nil || !res.OK || res.TxHex != m.txhex || res.TxID != m.txid {
						fatal("repeated complete: %v %v", res, err)
					}
					break
				}
				if m.code != domain.Accepted || (m.failed && !expired) {
					if err == nil {
						fatal("complete on a trade in status %d failed=%v: %+v", m.code, m.failed, res)
					}
					after++
					break
				}
				if expired {
					after++
					if err == nil {
						fatal("complete after the deadline succeeded: %+v", res)
					}
					m.failed = true
					break
				}
				if err != nil {
					fatal("complete: %v", err)
				}
				if res.OK != (op == "complete") {
					fatal("complete returned %+v for %s", res, tx)
				}
				if !res.OK {
					after++
					m.failed, m.hasFailMsg = true, true
					m.fail = tr.SwapFail
					checkFail(fatal, tr, m, m.acc.ID, true)
					break
				}
				if res.TxID != s.txid || res.TxHex != s.finalHex {
					fatal("completed with %+v, expected %s", res, s.txid)
				}
				m.code = domain.Completed
				m.comp, m.txhex = tr.SwapComplete, s.finalHex
				if tx == s.final {
					m.pset = tx
				}
				got := &pbswap.SwapComplete{}
				if err := proto.Unmarshal(tr.SwapComplete.Message, got); err != nil {
					fatal("complete message: %v", err)
				}
				if got.Id == "" || got.Id != tr.SwapComplete.ID || got.AcceptId != m.acc.ID || got.Transaction != tx {
					fatal("complete message %v", got)
				}
			case "settle":
				at := rapid.Uint64Range(1, 1<<40).Draw(rt, "time")
				ok, err := tr.Settle(at)
				if m.code == domain.Settled {
					after++
					if !ok || err != nil {
						fatal("repeated settle: %v %v", ok, err)
					}
					break
				}
				legal := m.code == domain.Accepted || m.code == domain.Completed || m.code == domain.Expired
				if !legal && m.failed {
					// a rejected proposal has no transaction to settle: not judged
					return
				}
				if (err == nil) != legal || ok != legal {
					fatal("settle in status %d: %v %v", m.code, ok, err)
				}
				if legal {
					m.code, m.failed, m.expiry, m.settlement = domain.Settled, false, 0, at
				}
			case "fail":
				code := rapid.IntRange(0, 2).Draw(rt, "code")
				id := rapid.SampledFrom([]string{"x", tr.SwapAccept.ID, tr.SwapRequest.ID}).Draw(rt, "id")
				tr.Fail(id, code, "because")
				if m.failed {
					break
				}
				m.failed, m.hasFailMsg = true, true
				m.fail = tr.SwapFail
				checkFail(fatal, tr, m, id, true)
				f := tr.SwapFailMessage()
				if f.GetFailureCode() != uint32(code) || !bytes.Contains([]byte(f.GetFailureMessage()), []byte("because")) {
					fatal("failure recorded as %v", f)
				}
			case "expire":
				ok, err := tr.Expire()
				if m.code == domain.Expired {
					after++
					if !ok || err != nil {
						fatal("repeated expire: %v %v", ok, err)
					}
					break
				}
				if (err == nil) != expired || ok != expired {
					fatal("expire with deadline %d: %v %v", m.expiry, ok, err)
				}
				if expired {
					m.code, m.failed = domain.Expired, true
				}
			}
			if tr.ID != id {
				fatal("trade id changed")
			}
			m.req.Timestamp, m.acc.Timestamp, m.comp.Timestamp = tr.SwapRequest.Timestamp, tr.SwapAccept.Timestamp, tr.SwapComplete.Timestamp
			for _, s := range []struct {
				what     string
				b, a     domain.Swap
			}{{"request", before.SwapRequest, tr.SwapRequest}, {"accept", before.SwapAccept, tr.SwapAccept}, {"complete", before.SwapComplete, tr.SwapComplete}} {
				if s.b.Timestamp != 0 && s.b.Timestamp != s.a.Timestamp {
					fatal("%s timestamp changed", s.what)
				}
			}
			got := tradeModel{
				code: tr.Status.Code, failed: tr.Status.Failed, req: tr.SwapRequest, acc: tr.SwapAccept, comp: tr.SwapComplete,
				fail: tr.SwapFail, hasFailMsg: m.hasFailMsg, expiry: tr.ExpiryTime, settlement: tr.SettlementTime,
				pset: tr.PsetBase64, txid: tr.TxID, txhex: tr.TxHex, price: tr.MarketPrice, fee: tr.MarketFee,
				fixedBase: tr.MarketFixedBaseFee, fixedQuote: tr.MarketFixedQuoteFee, quote: tr.MarketQuoteAsset, pubkey: tr.TraderPubkey,
			}
			if got.String() != m.String() {
				fatal("trade is\n%s\nexpected\n%s", got, m)
			}
			// predicates
			if tr.IsEmpty() != (m.code == domain.Empty && !m.failed) || tr.IsProposal() != (m.code == domain.Proposal) ||
				tr.IsAccepted() != (m.code == domain.Accepted) || tr.IsCompleted() != (m.code == domain.Completed) ||
				tr.IsSettled() != (m.code == domain.Settled) || tr.IsRejected() != m.failed {
				fatal("status predicates disagree with status %+v", tr.Status)
			}
			if want := m.code == domain.Expired || (m.expiry > 0 && m.expiry <= uint64(time.Now().Unix())); tr.IsExpired() != want {
				fatal("IsExpired=%v, expected %v", tr.IsExpired(), want)
			}
			for _, id := range []string{m.req.ID, m.acc.ID, m.comp.ID} {
				if id != "" && !tr.ContainsSwap(id) {
					fatal("trade does not contain its swap %s", id)
				}
			}
			if tr.ContainsSwap("nosuchswap") {
				fatal("trade claims a foreign swap")
			}
			if accepted && m.code >= domain.Accepted {
				if a := tr.SwapAcceptMessage(); a == nil || a.GetId() != m.acc.ID || a.GetRequestId() != m.req.ID {
					fatal("SwapAcceptMessage %v", a)
				}
			}
			if m.code == domain.Completed {
				if a := tr.SwapCompleteMessage(); a == nil || a.GetId() != m.comp.ID || a.GetAcceptId() != m.acc.ID {
					fatal("SwapCompleteMessage %v", a)
				}
			}
			c.Class("status %d failed %v", m.code, m.failed)
		}
		if accepted && after > 0 {
			c.NonTrivial("%s", hist)
		}
	})
}

func checkFail(fatal func(string, ...interface{}), tr *domain.Trade, m tradeModel, answers string, want bool) {
	if !want {
		return
	}
	f := tr.SwapFailMessage()
	if f == nil {
		fatal("no failure message")
	}
	if f.GetId() == "" || f.GetId() != tr.SwapFail.ID || f.GetMessageId() != answers {
		fatal("failure %v answers %q, expected %q (id %q)", f, f.GetMessageId(), answers, tr.SwapFail.ID)
	}
}

// div8 is a/b truncated to 8 decimals, within the 16-decimal precision of the
// division (exact for the amounts used here).
func div8(a, b uint64) decimal.Decimal {
	n := new(big.Int).Mul(new(big.Int).SetUint64(a), big.NewInt(100000000))
	n.Div(n, new(big.Int).SetUint64(b))
	return decimal.NewFromBigInt(n, -8)
}

func one() (o []*txOut) { return nil }
type txOut = transaction.TxOutput
