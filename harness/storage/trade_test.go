//go:build go1.23

package storage

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/google/uuid"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/verif/rapid"
	"github.com/tdex-network/tdex-daemon/internal/verif/txlib"
	"github.com/tdex-network/tdex-daemon/internal/verif/vt"
	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
	"google.golang.org/protobuf/proto"
)

func showTrade(t *domain.Trade) string {
	if t == nil {
		return "none"
	}
	b, err := json.Marshal(t)
	must(err)
	return string(b)
}

func showTrades(ts []*domain.Trade) string {
	var out []string
	for _, t := range ts {
		out = append(out, showTrade(t))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type tradeModel map[uuid.UUID]domain.Trade

func (m tradeModel) find(f func(t *domain.Trade) bool) []*domain.Trade {
	var out []*domain.Trade
	for _, t := range m {
		if f(&t) {
			out = append(out, &t)
		}
	}
	return out
}

func (m tradeModel) check(repo domain.TradeRepository, markets int) error {
	cmp := func(what string, got []*domain.Trade, err error, f func(t *domain.Trade) bool) error {
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if g, w := showTrades(got), showTrades(m.find(f)); g != w {
			return fmt.Errorf("%s:\ngot  %s\nwant %s", what, g, w)
		}
		return nil
	}
	ts, err := repo.GetAllTrades(ctx)
	if err := cmp("all trades", ts, err, func(*domain.Trade) bool { return true }); err != nil {
		return err
	}
	for i := 0; i < markets; i++ {
		quote := txlib.Asset(i)
		ts, err = repo.GetAllTradesByMarket(ctx, quote)
		if err := cmp(fmt.Sprintf("trades of market %d", i), ts, err, func(t *domain.Trade) bool { return t.MarketQuoteAsset == quote }); err != nil {
			return err
		}
		ts, err = repo.GetCompletedTradesByMarket(ctx, quote)
		if err := cmp(fmt.Sprintf("completed trades of market %d", i), ts, err, func(t *domain.Trade) bool {
			return t.MarketQuoteAsset == quote && (t.Status == domain.CompletedStatus || t.Status == domain.SettledStatus)
		}); err != nil {
			return err
		}
	}
	one := func(t *domain.Trade) (l []*domain.Trade) {
		if t != nil {
			l = append(l, t)
		}
		return
	}
	for _, t := range m {
		tid := t.ID
		got, err := repo.GetOrCreateTrade(ctx, &tid)
		if err := cmp("trade by id", one(got), err, func(x *domain.Trade) bool { return x.ID == tid }); err != nil {
			return err
		}
		if t.TxID != "" {
			got, err := repo.GetTradeByTxID(ctx, t.TxID)
			if err := cmp("trade by tx id", one(got), err, func(x *domain.Trade) bool { return x.TxID == t.TxID }); err != nil {
				return err
			}
		}
		if t.SwapAccept.ID != "" {
			got, err := repo.GetTradeBySwapAcceptID(ctx, t.SwapAccept.ID)
			if err := cmp("trade by accept id", one(got), err, func(x *domain.Trade) bool { return x.SwapAccept.ID == t.SwapAccept.ID }); err != nil {
				return err
			}
		}
	}
	// what nobody stored is not found
	if got, _ := repo.GetTradeByTxID(ctx, "unknown"); got != nil {
		return fmt.Errorf("unknown tx id: found %s", showTrade(got))
	}
	if got, _ := repo.GetTradeBySwapAcceptID(ctx, "unknown"); got != nil {
		return fmt.Errorf("unknown accept id: found %s", showTrade(got))
	}
	return nil
}

var statuses = []domain.Status{
	domain.ProposalStatus, domain.ProposalRejectedStatus, domain.AcceptedStatus, domain.FailedToCompleteStatus,
	domain.CompletedStatus, domain.FailedToSettleStatus, domain.SettledStatus, domain.ExpiredStatus,
}

func genSwap(rt *rapid.T, id string) domain.Swap {
	return domain.Swap{ID: id, Message: blob(rt, "message", 300), Timestamp: uint64(rapid.IntRange(0, 1<<40).Draw(rt, "time"))}
}

// fill gives the trade the contents of a later step of its life.
func fillTrade(rt *rapid.T, t *domain.Trade, i, markets int) {
	if t.MarketQuoteAsset == "" {
		t.MarketQuoteAsset = txlib.Asset(within(rt, "market", markets))
		t.MarketPrice = domain.Prices{BasePrice: genPrice(rt, "base"), QuotePrice: genPrice(rt, "quote")}
		t.MarketFee, t.MarketFixedBaseFee, t.MarketFixedQuoteFee = int64(within(rt, "fee", 10000)), int64(within(rt, "fb", 5000)), int64(within(rt, "fq", 5000))
		t.TraderPubkey = blob(rt, "pubkey", 33)
		t.SwapRequest = genSwap(rt, fmt.Sprintf("request%d", i))
	}
	t.Status = rapid.SampledFrom(statuses).Draw(rt, "status")
	t.PsetBase64 = fmt.Sprintf("%x", blob(rt, "pset", 1500))
	t.ExpiryTime, t.SettlementTime = uint64(within(rt, "expiry", 1<<40)), uint64(within(rt, "settled", 1<<40))
	if t.Status.Code >= domain.Accepted && t.SwapAccept.ID == "" {
		t.SwapAccept = genSwap(rt, fmt.Sprintf("accept%d", i))
		msg, err := proto.Marshal(&pb.SwapAccept{Id: t.SwapAccept.ID, RequestId: t.SwapRequest.ID, Transaction: fmt.Sprintf("%x", blob(rt, "tx", 300))})
		must(err)
		t.SwapAccept.Message = msg
		t.TxID = fmt.Sprintf("%x", txlib.H("txid", i))
	}
	if t.Status.Code >= domain.Completed {
		t.SwapComplete, t.TxHex = genSwap(rt, "complete"), fmt.Sprintf("%x", blob(rt, "hex", 500))
	}
	if t.Status.Failed {
		t.SwapFail = genSwap(rt, "fail")
	}
	if rapid.IntRange(0, 5).Draw(rt, "new txid") == 0 && t.TxID != "" {
		t.TxID = fmt.Sprintf("%x", txlib.H("txid", i, "again"))
	}
}

// tradeStep applies a generated step to the store and the model.
func tradeStep(rt *rapid.T, repo domain.TradeRepository, m tradeModel, n, markets int) (string, error) {
	i := within(rt, "trade", n)
	tid := id(i)
	old, has := m[tid]
	switch op := rapid.IntRange(0, 5).Draw(rt, "op"); {
	case op < 2: // get or create
		desc := fmt.Sprintf("create %d", i)
		got, err := repo.GetOrCreateTrade(ctx, &tid)
		if err != nil {
			return desc, err
		}
		if !has {
			old = domain.Trade{ID: tid, Status: domain.EmptyStatus}
			m[tid] = old
		}
		if g, w := showTrade(got), showTrade(&old); g != w {
			return desc, fmt.Errorf("returned %s, expected %s", g, w)
		}
		// what is done to it afterwards is nobody else's business
		got.Status, got.TxHex = domain.SettledStatus, "scribbled"
		return desc, nil
	case op == 2 && !has:
		desc := "create anonymous"
		got, err := repo.GetOrCreateTrade(ctx, nil)
		if err != nil {
			return desc, err
		}
		if got == nil || got.ID == (uuid.UUID{}) || got.Status != domain.EmptyStatus {
			return desc, fmt.Errorf("returned %s", showTrade(got))
		}
		if _, has := m[got.ID]; has {
			return desc, fmt.Errorf("id %s was given twice", got.ID)
		}
		m[got.ID] = *got
		return desc, nil
	default:
		if !has {
			return "-", nil
		}
		fail := rapid.IntRange(0, 4).Draw(rt, "fail") == 0
		desc := fmt.Sprintf("update %d fail=%v", i, fail)
		next := old
		fillTrade(rt, &next, i, markets)
		err := repo.UpdateTrade(ctx, &tid, func(t *domain.Trade) (*domain.Trade, error) {
			if g, w := showTrade(t), showTrade(&old); g != w {
				return nil, fmt.Errorf("update of %s, expected %s", g, w)
			}
			*t = next
			if fail {
				return nil, errors.New("refused")
			}
			return t, nil
		})
		if fail {
			if err == nil || err.Error() != "refused" {
				return desc, fmt.Errorf("refused update ended with %v", err)
			}
			return desc, nil
		}
		m[tid] = next
		return desc + " " + fmt.Sprint(next.Status), err
	}
}

func TestC19Trades(t *testing.T) {
	rule := "both drivers; histories of 1-25 creations, updates to any status and refused updates of 5 trades over 3 markets, every lookup compared with a reference after each step; non-trivial: a trade was updated"
	vt.Check(t, 400, 20000, rule, func(rt *rapid.T, c *vt.Case) {
		name, rm := open(rt)
		defer shut(rm)
		m := tradeModel{}
		var hist []string
		updated := false
		for i, n := 0, rapid.IntRange(1, 25).Draw(rt, "steps"); i < n; i++ {
			op, err := tradeStep(rt, rm.TradeRepository(), m, 5, 3)
			hist = append(hist, op)
			updated = updated || strings.HasPrefix(op, "update")
			if err == nil {
				err = m.check(rm.TradeRepository(), 3)
			}
			if err != nil {
				rt.Fatalf("%s: after %s: %v", name, strings.Join(hist, "; "), err)
			}
		}
		c.Class("driver %s", name)
		if updated {
			c.NonTrivial("%s: %s", name, strings.Join(hist, "; "))
		}
	})
}
