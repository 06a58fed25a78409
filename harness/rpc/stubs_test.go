//go:build go1.23

package rpc

import (
	"context"
	"errors"
	"sync/atomic"

	"github.com/tdex-network/tdex-daemon/internal/core/application"
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
)

var errReached = errors.New("reached the service")

// calls counts what got to the application services.
type calls struct{ n int64 }

func (c *calls) reach(string) { atomic.AddInt64(&c.n, 1) }

func (c *calls) count() int64 { return atomic.LoadInt64(&c.n) }

type walletStub struct {
	application.WalletService // for the methods it may get
	*calls
	passphrases chan application.PassphraseMsg
}

func (s walletStub) GenSeed(_ context.Context) (r0 []string, r1 error) {
	s.reach("GenSeed")
	r1 = errReached
	return
}

func (s walletStub) UnlockWallet(_ context.Context, _ string) (r0 error) {
	s.reach("UnlockWallet")
	r0 = errReached
	return
}

func (s walletStub) ChangePassword(_ context.Context, _ string, _ string) (r0 error) {
	s.reach("ChangePassword")
	r0 = errReached
	return
}

func (s walletStub) GenerateAddressAndBlindingKey(_ context.Context) (r0 string, r1 string, r2 error) {
	s.reach("GenerateAddressAndBlindingKey")
	r2 = errReached
	return
}

func (s walletStub) GetWalletBalance(_ context.Context) (r0 map[string]application.BalanceInfo, r1 error) {
	s.reach("GetWalletBalance")
	r1 = errReached
	return
}

func (s walletStub) SendToMany(_ context.Context, _ application.SendToManyRequest) (r0 []byte, r1 error) {
	s.reach("SendToMany")
	r1 = errReached
	return
}

func (s walletStub) InitWallet(
	_ context.Context, _ []string, _ string, _ bool,
	chReplies chan *application.InitWalletReply, chErr chan error,
) {
	s.reach("InitWallet")
	chErr <- errReached
	close(chErr)
	close(chReplies)
}

func (s walletStub) PassphraseChan() chan application.PassphraseMsg { return s.passphrases }

type operatorStub struct {
	application.OperatorService // for the methods it may get
	*calls
}

func (s operatorStub) DepositMarket(_ context.Context, _ string, _ string, _ int) (r0 []application.AddressAndBlindingKey, r1 error) {
	s.reach("DepositMarket")
	r1 = errReached
	return
}

func (s operatorStub) DepositFeeAccount(_ context.Context, _ int) (r0 []application.AddressAndBlindingKey, r1 error) {
	s.reach("DepositFeeAccount")
	r1 = errReached
	return
}

func (s operatorStub) OpenMarket(_ context.Context, _ string, _ string) (r0 error) {
	s.reach("OpenMarket")
	r0 = errReached
	return
}

func (s operatorStub) CloseMarket(_ context.Context, _ string, _ string) (r0 error) {
	s.reach("CloseMarket")
	r0 = errReached
	return
}

func (s operatorStub) UpdateMarketPercentageFee(_ context.Context, _ application.MarketWithFee) (r0 *application.MarketWithFee, r1 error) {
	s.reach("UpdateMarketPercentageFee")
	r1 = errReached
	return
}

func (s operatorStub) UpdateMarketFixedFee(_ context.Context, _ application.MarketWithFee) (r0 *application.MarketWithFee, r1 error) {
	s.reach("UpdateMarketFixedFee")
	r1 = errReached
	return
}

func (s operatorStub) UpdateMarketPrice(_ context.Context, _ application.MarketWithPrice) (r0 error) {
	s.reach("UpdateMarketPrice")
	r0 = errReached
	return
}

func (s operatorStub) UpdateMarketStrategy(_ context.Context, _ application.MarketStrategy) (r0 error) {
	s.reach("UpdateMarketStrategy")
	r0 = errReached
	return
}

func (s operatorStub) ListTrades(_ context.Context) (r0 []application.TradeInfo, r1 error) {
	s.reach("ListTrades")
	r1 = errReached
	return
}

func (s operatorStub) ListMarketExternalAddresses(_ context.Context, _ application.Market) (r0 []string, r1 error) {
	s.reach("ListMarketExternalAddresses")
	r1 = errReached
	return
}

func (s operatorStub) WithdrawMarketFunds(_ context.Context, _ application.WithdrawMarketReq) (r0 []byte, r1 error) {
	s.reach("WithdrawMarketFunds")
	r1 = errReached
	return
}

func (s operatorStub) FeeAccountBalance(_ context.Context) (r0 int64, r1 error) {
	s.reach("FeeAccountBalance")
	r1 = errReached
	return
}

func (s operatorStub) ClaimMarketDeposit(_ context.Context, _ application.Market, _ []application.TxOutpoint) (r0 error) {
	s.reach("ClaimMarketDeposit")
	r0 = errReached
	return
}

func (s operatorStub) ClaimFeeDeposit(_ context.Context, _ []application.TxOutpoint) (r0 error) {
	s.reach("ClaimFeeDeposit")
	r0 = errReached
	return
}

func (s operatorStub) ListMarket(_ context.Context) (r0 []application.MarketInfo, r1 error) {
	s.reach("ListMarket")
	r1 = errReached
	return
}

func (s operatorStub) GetCollectedMarketFee(_ context.Context, _ application.Market) (r0 *application.ReportMarketFee, r1 error) {
	s.reach("GetCollectedMarketFee")
	r1 = errReached
	return
}

func (s operatorStub) ListUtxos(_ context.Context) (r0 map[uint64]application.UtxoInfoList, r1 error) {
	s.reach("ListUtxos")
	r1 = errReached
	return
}

func (s operatorStub) ReloadUtxos(_ context.Context) (r0 error) {
	s.reach("ReloadUtxos")
	r0 = errReached
	return
}

func (s operatorStub) DropMarket(_ context.Context, _ int) (r0 error) {
	s.reach("DropMarket")
	r0 = errReached
	return
}

func (s operatorStub) AddWebhook(_ context.Context, _ application.Webhook) (r0 string, r1 error) {
	s.reach("AddWebhook")
	r1 = errReached
	return
}

func (s operatorStub) RemoveWebhook(_ context.Context, _ string) (r0 error) {
	s.reach("RemoveWebhook")
	r0 = errReached
	return
}

func (s operatorStub) ListWebhooks(_ context.Context, _ int) (r0 []application.WebhookInfo, r1 error) {
	s.reach("ListWebhooks")
	r1 = errReached
	return
}

type tradeStub struct {
	application.TradeService // for the methods it may get
	*calls
}

func (s tradeStub) GetTradableMarkets(_ context.Context) (r0 []application.MarketWithFee, r1 error) {
	s.reach("GetTradableMarkets")
	r1 = errReached
	return
}

func (s tradeStub) GetMarketPrice(_ context.Context, _ application.Market, _ int, _ uint64, _ string) (r0 *application.PriceWithFee, r1 error) {
	s.reach("GetMarketPrice")
	r1 = errReached
	return
}

func (s tradeStub) TradePropose(_ context.Context, _ application.Market, _ int, _ domain.SwapRequest) (r0 domain.SwapAccept, r1 domain.SwapFail, r2 uint64, r3 error) {
	s.reach("TradePropose")
	r3 = errReached
	return
}

func (s tradeStub) TradeComplete(_ context.Context, _ *domain.SwapComplete, _ *domain.SwapFail) (r0 string, r1 domain.SwapFail, r2 error) {
	s.reach("TradeComplete")
	r2 = errReached
	return
}

func (s tradeStub) GetMarketBalance(_ context.Context, _ application.Market) (r0 *application.BalanceWithFee, r1 error) {
	s.reach("GetMarketBalance")
	r1 = errReached
	return
}
