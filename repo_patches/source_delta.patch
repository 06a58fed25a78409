From ca359224577a0bfdc615d1a70c278b7fa41e7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 01/62] fix: round the constant-product reserve ratio in favour
 of the pool

OutGivenIn rounded the ratio of the reserves to the nearest 8 decimals, so that
it could pay out more than the constant product allows, and the whole reserve
for big amounts in.
---
 pkg/marketmaking/formula/balanced_reserves.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/marketmaking/formula/balanced_reserves.go b/pkg/marketmaking/formula/balanced_reserves.go
index 1bafafb..79c7ba1 100644
--- a/pkg/marketmaking/formula/balanced_reserves.go
+++ b/pkg/marketmaking/formula/balanced_reserves.go
@@ -87,8 +87,8 @@ func (BalancedReserves) OutGivenIn(_opts interface{}, amountIn uint64) (uint64,
 	balanceOut := decimal.NewFromInt(int64(opts.BalanceOut))
 	amountOutDecimal := balanceOut.Mul(
 		decimal.NewFromInt(1).Sub(
-			balanceIn.Div(
-				balanceIn.Add(decimal.NewFromInt(int64(amount))),
+			divRoundUp(
+				balanceIn, balanceIn.Add(decimal.NewFromInt(int64(amount))),
 			),
 		),
 	)
@@ -156,3 +156,15 @@ func (BalancedReserves) InGivenOut(_opts interface{}, amountOut uint64) (uint64,
 func (BalancedReserves) FormulaType() int {
 	return BalancedReservesType
 }
+
+// divRoundUp divides x by y with the default precision, rounding the result
+// up. It's used to calculate the reserve ratio after a swap so that the
+// rounding never favors the trader nor lets him take the entire reserve.
+func divRoundUp(x, y decimal.Decimal) decimal.Decimal {
+	precision := int32(decimal.DivisionPrecision)
+	quotient, remainder := x.QuoRem(y, precision)
+	if remainder.IsZero() {
+		return quotient
+	}
+	return quotient.Add(decimal.New(1, -precision))
+}
-- 
2.43.0


From b2ca5dce253f0fc6f8b012ca724dc4d315b76a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 02/62] fix: do not complete trades that already failed or
 expired

---
 internal/core/domain/trade_service.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index 4a488a0..3d8547d 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -104,10 +104,14 @@ type CompleteResult struct {
 // be called before the trade expires, otherwise it won't be possible to
 // actually complete an accepted trade.
 func (t *Trade) Complete(tx string) (*CompleteResult, error) {
-	if t.Status.Code >= Completed {
+	if t.IsCompleted() || t.IsSettled() {
 		return &CompleteResult{OK: true, TxHex: t.TxHex, TxID: t.TxID}, nil
 	}
 
+	if t.Status.Code == Expired {
+		return nil, ErrTradeExpired
+	}
+
 	if !t.IsAccepted() {
 		return nil, ErrTradeMustBeAccepted
 	}
@@ -119,6 +123,10 @@ func (t *Trade) Complete(tx string) (*CompleteResult, error) {
 		return nil, ErrTradeExpired
 	}
 
+	if t.IsRejected() {
+		return nil, ErrTradeMustBeAccepted
+	}
+
 	swapCompleteID, swapCompleteMsg, err := SwapParserManager.SerializeComplete(
 		t.SwapAccept.Message,
 		tx,
-- 
2.43.0


From 6aba80c19e71d3f4d33dd60bb344773bf4a4e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 03/62] fix: refuse to complete a trade with a transaction
 other than the accepted one

---
 pkg/swap/complete.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 1888bcd..bd325e0 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"fmt"
 
+	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 	"github.com/thanhpk/randstr"
 	"github.com/vulpemventures/go-elements/pset"
@@ -26,6 +27,7 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		return "", nil, fmt.Errorf("unmarshal swap accept %w", err)
 	}
 
+	var txid string
 	if !isHex(complete.Transaction) {
 		ptx, err := pset.NewPsetFromBase64(complete.Transaction)
 		if err != nil {
@@ -39,10 +41,21 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		if !ok {
 			return "", nil, fmt.Errorf("transaction contains invalid signatures")
 		}
+		txid = ptx.UnsignedTx.TxHash().String()
 	} else {
-		if _, err := transaction.NewTxFromHex(complete.Transaction); err != nil {
+		tx, err := transaction.NewTxFromHex(complete.Transaction)
+		if err != nil {
 			return "", nil, fmt.Errorf("transaction in hex format is invalid")
 		}
+		txid = tx.TxHash().String()
+	}
+
+	acceptedTxid, err := transactionutil.GetTxIdFromPset(msgAccept.GetTransaction())
+	if err != nil {
+		return "", nil, fmt.Errorf("transaction of swap accept is invalid: %w", err)
+	}
+	if txid != acceptedTxid {
+		return "", nil, fmt.Errorf("transaction does not match the accepted one")
 	}
 
 	randomID := randstr.Hex(8)
-- 
2.43.0


From 2f0194edc30d9b277eb764c397bbe1751a353579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 04/62] fix: refuse trade proposals whose assets are not those
 of the market

---
 internal/core/application/trade_service.go | 26 +++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f912673..f7d6500 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -294,7 +294,7 @@ func (t *tradeService) TradePropose(
 		log.Debugf("error while retrieving market: %s", err)
 		return nil, nil, 0, ErrServiceUnavailable
 	}
-	if marketAccountIndex < 0 {
+	if marketAccountIndex < 0 || market.BaseAsset != mkt.BaseAsset {
 		return nil, nil, 0, ErrMarketNotExist
 	}
 
@@ -349,6 +349,16 @@ func (t *tradeService) TradePropose(
 		goto end
 	}
 
+	if !isValidTradePair(swapRequest, tradeType, mkt) {
+		trade.Fail(
+			swapRequest.GetId(),
+			int(pkgswap.ErrCodeInvalidSwapRequest),
+			"assets do not match those of the market for the type of trade",
+		)
+		swapFail = trade.SwapFailMessage()
+		goto end
+	}
+
 	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
 		trade.Fail(
 			swapRequest.GetId(),
@@ -881,6 +891,20 @@ func getBalanceByAsset(unspents []domain.Unspent) map[string]uint64 {
 	return balances
 }
 
+// isValidTradePair checks that the assets of the trade are those of the market
+// in the direction given by the trade type.
+func isValidTradePair(
+	swapRequest domain.SwapRequest,
+	tradeType int,
+	market *domain.Market,
+) bool {
+	assetP, assetR := market.QuoteAsset, market.BaseAsset
+	if tradeType == TradeSell {
+		assetP, assetR = market.BaseAsset, market.QuoteAsset
+	}
+	return swapRequest.GetAssetP() == assetP && swapRequest.GetAssetR() == assetR
+}
+
 // isValidPrice checks that the amounts of the trade are valid by
 // making a preview of each counter amounts of the swap given the
 // current price of the market.
-- 
2.43.0


From 2089fcbd1e8b7563b6d38b9f6774845f30a6507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 05/62] fix: do not select the same unspents for concurrent
 trade proposals

---
 internal/core/application/trade_service.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f7d6500..b908c6b 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -54,6 +55,9 @@ type tradeService struct {
 	expiryDuration     time.Duration
 	priceSlippage      decimal.Decimal
 	network            *network.Network
+
+	// proposeLock prevents concurrent proposals from selecting the same unspents
+	proposeLock sync.Mutex
 }
 
 func NewTradeService(
@@ -286,6 +290,11 @@ func (t *tradeService) TradePropose(
 		return nil, nil, 0, ErrServiceUnavailable
 	}
 
+	// the unspents selected for a proposal must be locked before those for the
+	// next one are selected.
+	t.proposeLock.Lock()
+	defer t.proposeLock.Unlock()
+
 	mkt, marketAccountIndex, err := t.repoManager.MarketRepository().GetMarketByAsset(
 		ctx,
 		market.QuoteAsset,
@@ -417,11 +426,16 @@ end:
 		log.Infof("trade with id %s accepted", trade.ID)
 
 		selectedUnspentKeys = getUnspentKeys(fillProposalResult.SelectedUnspents)
-		lockedUnspents, _ := t.repoManager.UnspentRepository().LockUnspents(
+		lockedUnspents, err := t.repoManager.UnspentRepository().LockUnspents(
 			ctx,
 			selectedUnspentKeys,
 			trade.ID,
 		)
+		if err != nil {
+			log.Debugf("error while locking unspents: %s", err)
+			t.repoManager.UnspentRepository().UnlockUnspents(ctx, selectedUnspentKeys)
+			return nil, nil, 0, ErrServiceUnavailable
+		}
 		log.Debugf("locked %d unspents", lockedUnspents)
 
 		// set timer for trade expiration
-- 
2.43.0


From 506d8a66dde90ebee4e05f195883adb13ac22250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 06/62] fix: derive the addresses of a trade from the stored
 vault

---
 internal/core/application/trade_service.go | 78 +++++++++++++---------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index b908c6b..53b7af2 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -340,10 +340,6 @@ func (t *tradeService) TradePropose(
 	var swapExpiryTime uint64
 
 	var fillProposalResult *FillProposalResult
-	var outInfo *domain.AddressInfo
-	var changeInfo *domain.AddressInfo
-	var feeChangeInfo *domain.AddressInfo
-	var mnemonic []string
 
 	trade := domain.NewTrade()
 	if ok, _ := trade.Propose(
@@ -378,25 +374,54 @@ func (t *tradeService) TradePropose(
 		goto end
 	}
 
-	// derive output and change address for market, and change address for fee account
-	outInfo, _ = vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
-	changeInfo, _ = vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
-	feeChangeInfo, _ = vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-
-	mnemonic, _ = vault.GetMnemonicSafe()
-	fillProposalResult, err = TradeManager.FillProposal(FillProposalOpts{
-		Mnemonic:      mnemonic,
-		SwapRequest:   swapRequest,
-		MarketUtxos:   marketUnspents.ToUtxos(),
-		FeeUtxos:      feeUnspents.ToUtxos(),
-		MarketInfo:    marketInfo,
-		FeeInfo:       feeInfo,
-		OutputInfo:    *outInfo,
-		ChangeInfo:    *changeInfo,
-		FeeChangeInfo: *feeChangeInfo,
-		Network:       t.network,
-	})
-	if err != nil {
+	// the addresses are derived on, and stored with, the very last version of
+	// the vault. None of them is consumed if the proposal is rejected.
+	if _, err := t.repoManager.RunTransaction(
+		ctx,
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, t.repoManager.VaultRepository().UpdateVault(
+				ctx,
+				func(vault *domain.Vault) (*domain.Vault, error) {
+					// derive output and change address for market, and change address for
+					// fee account
+					outInfo, err := vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
+					if err != nil {
+						return nil, err
+					}
+					changeInfo, err := vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
+					if err != nil {
+						return nil, err
+					}
+					feeChangeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+					if err != nil {
+						return nil, err
+					}
+					mnemonic, err := vault.GetMnemonicSafe()
+					if err != nil {
+						return nil, err
+					}
+
+					fillProposalResult, err = TradeManager.FillProposal(FillProposalOpts{
+						Mnemonic:      mnemonic,
+						SwapRequest:   swapRequest,
+						MarketUtxos:   marketUnspents.ToUtxos(),
+						FeeUtxos:      feeUnspents.ToUtxos(),
+						MarketInfo:    marketInfo,
+						FeeInfo:       feeInfo,
+						OutputInfo:    *outInfo,
+						ChangeInfo:    *changeInfo,
+						FeeChangeInfo: *feeChangeInfo,
+						Network:       t.network,
+					})
+					if err != nil {
+						return nil, err
+					}
+					return vault, nil
+				},
+			)
+		},
+	); err != nil {
 		trade.Fail(
 			swapRequest.GetId(),
 			int(pkgswap.ErrCodeRejectedSwapRequest),
@@ -462,13 +487,6 @@ end:
 					return nil, err
 				}
 
-				if swapAccept != nil {
-					if err := t.repoManager.VaultRepository().UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) {
-						return vault, nil
-					}); err != nil {
-						return nil, err
-					}
-				}
 				return nil, nil
 			},
 		); err != nil {
-- 
2.43.0


From 3f0b395c94fcf1e0a45aff529a93d97fbdd735f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 07/62] fix: release the unspents of a failed trade only once
 and only if still pending

---
 internal/core/application/trade_service.go | 36 +++++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 53b7af2..e69d528 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -595,18 +595,32 @@ func (t *tradeService) tradeFail(
 	if err != nil {
 		return nil, err
 	}
+	if trade == nil {
+		return nil, fmt.Errorf("trade with swap id %s not found", swapID)
+	}
 
 	tradeID := trade.ID
-	if err := t.repoManager.TradeRepository().UpdateTrade(
+	if _, err := t.repoManager.RunTransaction(
 		ctx,
-		&tradeID,
-		func(trade *domain.Trade) (*domain.Trade, error) {
-			trade.Fail(
-				swapID,
-				int(pkgswap.ErrCodeFailedToComplete),
-				"set failed by counter-party",
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, t.repoManager.TradeRepository().UpdateTrade(
+				ctx,
+				&tradeID,
+				func(trade *domain.Trade) (*domain.Trade, error) {
+					// only pending trades can fail, the unspents of any other one have
+					// been either spent or already unlocked.
+					if !trade.IsAccepted() || trade.IsRejected() {
+						return nil, domain.ErrTradeMustBeAccepted
+					}
+					trade.Fail(
+						swapID,
+						int(pkgswap.ErrCodeFailedToComplete),
+						"set failed by counter-party",
+					)
+					return trade, nil
+				},
 			)
-			return trade, nil
 		},
 	); err != nil {
 		return nil, err
@@ -676,6 +690,12 @@ func (t *tradeService) checkTradeExpiration(
 	// and to bring the trade to failed status
 	trade, _ := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
 
+	// the unspents of a trade that is not pending anymore have been either spent
+	// or already unlocked, and possibly locked for another trade.
+	if trade == nil || !trade.IsAccepted() || trade.IsRejected() {
+		return
+	}
+
 	if trade.IsExpired() {
 		t.blockchainListener.StopObserveTx(trade.TxID)
 
-- 
2.43.0


From 5c2ab7a5ece2f6471945f425032a14d382051627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 08/62] fix: fill proposals without blinding keys and never
 modify their key maps

---
 internal/core/application/trade_service.go | 22 ++++++++++++++++++----
 pkg/wallet/blind.go                        |  2 +-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index e69d528..47f7fd9 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -775,11 +775,14 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	// swap in order to get the full list of selected inputs
 	selectedUnspents := append(selectedUnspentsForSwap, psetWithFeesResult.SelectedUnspents...)
 
-	inputBlindingData, _, _ := wallet.ExtractBlindingDataFromTx(
+	inputBlindingData, _, err := wallet.ExtractBlindingDataFromTx(
 		opts.SwapRequest.GetTransaction(),
-		opts.SwapRequest.GetInputBlindingKey(),
+		mergeBlindingKeys(opts.SwapRequest.GetInputBlindingKey()),
 		nil,
 	)
+	if err != nil {
+		return nil, fmt.Errorf("failed to unblind: %s", err)
+	}
 
 	// get the indexes of the inputs of the tx to sign
 	existingInputs := len(inputBlindingData)
@@ -794,7 +797,8 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 		}
 	}
 
-	outputBlindingKeys := opts.SwapRequest.GetOutputBlindingKey()
+	// the keys are copied as the request must not be modified
+	outputBlindingKeys := mergeBlindingKeys(opts.SwapRequest.GetOutputBlindingKey())
 	outputBlindingKeys[opts.OutputInfo.Script] = opts.OutputInfo.BlindingKey
 	outputBlindingKeys[opts.ChangeInfo.Script] = opts.ChangeInfo.BlindingKey
 	for script, blindKey := range psetWithFeesResult.ChangeOutputsBlindingKeys {
@@ -839,7 +843,7 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	}
 
 	// get blinding private keys for selected inputs
-	inputBlindingKeys := opts.SwapRequest.GetInputBlindingKey()
+	inputBlindingKeys := mergeBlindingKeys(opts.SwapRequest.GetInputBlindingKey())
 	for _, info := range selectedInfo {
 		inputBlindingKeys[info.Script] = info.BlindingKey
 	}
@@ -883,6 +887,16 @@ func getUnspentKeys(unspents []explorer.Utxo) []domain.UnspentKey {
 	return keys
 }
 
+func mergeBlindingKeys(maps ...map[string][]byte) map[string][]byte {
+	merge := make(map[string][]byte)
+	for _, m := range maps {
+		for k, v := range m {
+			merge[k] = v
+		}
+	}
+	return merge
+}
+
 func mergeDerivationPaths(maps ...map[string]string) map[string]string {
 	merge := make(map[string]string, 0)
 	for _, m := range maps {
diff --git a/pkg/wallet/blind.go b/pkg/wallet/blind.go
index 4d038ae..697207f 100644
--- a/pkg/wallet/blind.go
+++ b/pkg/wallet/blind.go
@@ -443,7 +443,7 @@ func ExtractBlindingDataFromTx(
 		return
 	}
 
-	if len(inBlindingKeys) > 0 {
+	if inBlindingKeys != nil {
 		inBlindingData = make(map[int]BlindingData)
 		for i, in := range ptx.Inputs {
 			prevout := in.WitnessUtxo
-- 
2.43.0


From f6022b2efcae444e739f57ed72480908a721bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 09/62] fix: list every trade of the in-memory storage instead
 of copies of one

---
 .../storage/db/inmemory/trade_memory_repository_impl.go        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
index 5f4fad2..be3fe9d 100644
--- a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
@@ -133,7 +133,8 @@ func (r tradeRepositoryImpl) getOrCreateTrade(tradeID *uuid.UUID) (*domain.Trade
 
 func (r tradeRepositoryImpl) getAllTrades() ([]*domain.Trade, error) {
 	allTrades := make([]*domain.Trade, 0)
-	for _, trade := range r.store.trades {
+	for _, tr := range r.store.trades {
+		trade := tr
 		allTrades = append(allTrades, &trade)
 	}
 	return allTrades, nil
-- 
2.43.0


From 3150c2b392c6f6ac73d63c2f3b89500f1439faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 10/62] fix: confirming an unspent of the in-memory storage
 does not unlock it

---
 .../storage/db/inmemory/unspent_memory_repository_impl.go        | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
index 2871252..89211a8 100644
--- a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
@@ -179,7 +179,6 @@ func (r UnspentRepositoryImpl) ConfirmUnspents(
 		if unspent, ok := r.store.unspents[key]; ok {
 			if !unspent.IsConfirmed() {
 				unspent.Confirm()
-				unspent.Unlock()
 				r.store.unspents[key] = unspent
 				count++
 			}
-- 
2.43.0


From 4f57e5091c5a2641203f39547cf001789caec7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 11/62] fix: only release the unspents locked by the trade that
 fails

---
 internal/core/application/trade_service.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 47f7fd9..bc7b884 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -654,19 +654,27 @@ func (t *tradeService) getInfoAndUnspentsForAccount(
 }
 
 func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
+	ctx := context.Background()
 	p, _ := pset.NewPsetFromBase64(trade.PsetBase64)
-	keyLen := len(p.Inputs)
-	unspentKeys := make([]domain.UnspentKey, keyLen, keyLen)
+	unspentKeys := make([]domain.UnspentKey, 0, len(p.Inputs))
 
-	for i, in := range p.UnsignedTx.Inputs {
-		unspentKeys[i] = domain.UnspentKey{
+	for _, in := range p.UnsignedTx.Inputs {
+		key := domain.UnspentKey{
 			TxID: bufferutil.TxIDFromBytes(in.Hash),
 			VOut: in.Index,
 		}
+		// the counter-party is free to add any input to the transaction, even the
+		// unspents locked for another trade, that must be preserved.
+		unspent, err := t.repoManager.UnspentRepository().GetUnspentWithKey(ctx, key)
+		if err != nil || unspent == nil || unspent.LockedBy == nil ||
+			*unspent.LockedBy != trade.ID {
+			continue
+		}
+		unspentKeys = append(unspentKeys, key)
 	}
 
 	count, err := t.repoManager.UnspentRepository().UnlockUnspents(
-		context.Background(),
+		ctx,
 		unspentKeys,
 	)
 	if err != nil {
-- 
2.43.0


From 3b6d006c3ac269fb711e511e58acd4117ebf1854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 12/62] fix: in-memory unspents of no address are none, not
 those of every account

---
 .../unspent_memory_repository_impl.go         | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
index 89211a8..93dadc3 100644
--- a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
@@ -45,7 +45,13 @@ func (r UnspentRepositoryImpl) GetAvailableUnspents(_ context.Context) ([]domain
 	r.store.locker.RLock()
 	defer r.store.locker.RUnlock()
 
-	return r.getAvailableUnspents(nil), nil
+	unspents := make([]domain.Unspent, 0)
+	for _, u := range r.store.unspents {
+		if !u.IsSpent() && !u.IsLocked() && u.IsConfirmed() {
+			unspents = append(unspents, u)
+		}
+	}
+	return unspents, nil
 }
 
 // GetAllUnspentsForAddresses ...
@@ -290,14 +296,10 @@ func (r UnspentRepositoryImpl) getUnspents(addresses []string, isLocked bool) []
 	unspents := make([]domain.Unspent, 0)
 	for _, u := range r.store.unspents {
 		if !u.IsSpent() && u.IsLocked() == isLocked && u.IsConfirmed() {
-			if len(addresses) == 0 {
-				unspents = append(unspents, u)
-			} else {
-				for _, addr := range addresses {
-					if addr == u.Address {
-						unspents = append(unspents, u)
-						break
-					}
+			for _, addr := range addresses {
+				if addr == u.Address {
+					unspents = append(unspents, u)
+					break
 				}
 			}
 		}
-- 
2.43.0


From a98050823a1c2c163cd4eb2a4e51fcf025a29c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 13/62] fix: in-memory market store copes with unknown and
 deleted markets

---
 .../inmemory/market_memory_repository_impl.go   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
index f390bcb..98e444c 100644
--- a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
@@ -117,6 +117,10 @@ func (r MarketRepositoryImpl) OpenMarket(_ context.Context, quoteAsset string) e
 		return err
 	}
 
+	if currentMarket == nil {
+		return nil
+	}
+
 	// We update the market status only if the market is closed.
 	if currentMarket.IsTradable() {
 		return nil
@@ -142,6 +146,10 @@ func (r MarketRepositoryImpl) CloseMarket(_ context.Context, quoteAsset string)
 		return err
 	}
 
+	if currentMarket == nil {
+		return nil
+	}
+
 	// We update the market status only if the market is open.
 	if !currentMarket.IsTradable() {
 		return nil
@@ -165,6 +173,9 @@ func (r *MarketRepositoryImpl) UpdatePrices(_ context.Context, accountIndex int,
 	if err != nil {
 		return err
 	}
+	if market == nil {
+		return ErrMarketNotFound
+	}
 
 	err = market.ChangeBasePrice(prices.BasePrice)
 	if err != nil {
@@ -183,6 +194,12 @@ func (r *MarketRepositoryImpl) DeleteMarket(
 	_ context.Context,
 	accountIndex int,
 ) error {
+	r.store.locker.Lock()
+	defer r.store.locker.Unlock()
+
+	if market, ok := r.store.markets[accountIndex]; ok {
+		delete(r.store.accountsByAsset, market.QuoteAsset)
+	}
 	delete(r.store.markets, accountIndex)
 
 	return nil
-- 
2.43.0


From fc3bcbb88a5594be8615e334310f0d8a1068bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 14/62] fix: badger market store persists the price changed by
 an update (switching to pluggable strategy resets it)

---
 .../storage/db/badger/market_repository_impl.go   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index bdf23a9..462915c 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -107,12 +107,25 @@ func (m marketRepositoryImpl) UpdateMarket(
 		return ErrMarketNotFound
 	}
 
+	currentPrice := currentMarket.Price
+
 	updatedMarket, err := updateFn(currentMarket)
 	if err != nil {
 		return err
 	}
 
-	return m.updateMarket(ctx, accountIndex, *updatedMarket)
+	if err := m.updateMarket(ctx, accountIndex, *updatedMarket); err != nil {
+		return err
+	}
+
+	// the price is stored on its own, any change made to it along with the other
+	// details of the market must not get lost.
+	price := updatedMarket.Price
+	if price.BasePrice.Equal(currentPrice.BasePrice) &&
+		price.QuotePrice.Equal(currentPrice.QuotePrice) {
+		return nil
+	}
+	return m.updatePriceByAccountIndex(ctx, accountIndex, price)
 }
 
 func (m marketRepositoryImpl) OpenMarket(
-- 
2.43.0


From 6f0fc3a25532b0d1984f305f91dd3968b1a7c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 15/62] fix: in-memory vault store does not share the vault it
 holds

---
 .../inmemory/vault_memory_implementation.go   | 41 ++++++++++++++++---
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
index 1e31d32..1324c4e 100644
--- a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
+++ b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
@@ -58,12 +58,12 @@ func (r VaultRepositoryImpl) UpdateVault(
 		return ErrVaultNotFound
 	}
 
-	updatedVault, err := updateFn(v)
+	updatedVault, err := updateFn(copyVault(v))
 	if err != nil {
 		return err
 	}
 
-	r.store.vault = updatedVault
+	r.store.vault = copyVault(updatedVault)
 
 	return nil
 }
@@ -73,7 +73,7 @@ func (r VaultRepositoryImpl) GetAccountByIndex(ctx context.Context,
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	return r.store.vault.AccountByIndex(accountIndex)
+	return copyVault(r.store.vault).AccountByIndex(accountIndex)
 }
 
 func (r VaultRepositoryImpl) GetAccountByAddress(
@@ -83,7 +83,7 @@ func (r VaultRepositoryImpl) GetAccountByAddress(
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	return r.store.vault.AccountByAddress(addr)
+	return copyVault(r.store.vault).AccountByAddress(addr)
 }
 
 func (r VaultRepositoryImpl) GetAllDerivedAddressesInfoForAccount(
@@ -120,7 +120,7 @@ func (r VaultRepositoryImpl) getOrCreateVault(
 		}
 		r.store.vault = v
 	}
-	return r.store.vault, nil
+	return copyVault(r.store.vault), nil
 }
 
 func (r VaultRepositoryImpl) getVault(_ context.Context) *domain.Vault {
@@ -150,3 +150,34 @@ func (r VaultRepositoryImpl) getDerivationPathByScript(
 
 	return m, nil
 }
+
+// copyVault returns a deep copy of the given vault, so that what is stored can
+// be changed only by updating it.
+func copyVault(v *domain.Vault) *domain.Vault {
+	vault := *v
+	vault.PassphraseHash = append([]byte(nil), v.PassphraseHash...)
+
+	if v.Accounts != nil {
+		vault.Accounts = make(map[int]*domain.Account, len(v.Accounts))
+	}
+	for i, a := range v.Accounts {
+		account := *a
+		account.DerivationPathByScript = make(
+			map[string]string, len(a.DerivationPathByScript),
+		)
+		for script, path := range a.DerivationPathByScript {
+			account.DerivationPathByScript[script] = path
+		}
+		vault.Accounts[i] = &account
+	}
+
+	if v.AccountAndKeyByAddress != nil {
+		vault.AccountAndKeyByAddress = make(
+			map[string]domain.AccountAndKey, len(v.AccountAndKeyByAddress),
+		)
+	}
+	for addr, accountAndKey := range v.AccountAndKeyByAddress {
+		vault.AccountAndKeyByAddress[addr] = accountAndKey
+	}
+	return &vault
+}
-- 
2.43.0


From 586cd900903063d690cdcbead40796f6ddcb025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 16/62] fix: a store whose last write was cut by a kill opens
 again

---
 internal/infrastructure/storage/db/badger/db_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 1bf012d..4a04e44 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -254,6 +254,9 @@ func createDb(dbDir string, logger badger.Logger) (*badgerhold.Store, error) {
 	} else {
 		opts.ValueLogLoadingMode = options.FileIO
 		opts.Compression = options.ZSTD
+		// if the process got killed while writing, drop what of the last (never
+		// committed) transaction was left in the log instead of refusing to open.
+		opts.Truncate = true
 	}
 
 	db, err := badgerhold.Open(badgerhold.Options{
-- 
2.43.0


From 4f1c3840dab312c30eb9a7d74ca2f26681c4fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 17/62] fix: trades and locks are found by key after a restart
 (gob type ids are part of the encoded keys)

---
 .../infrastructure/storage/db/badger/db_manager.go  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 4a04e44..322f109 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -10,12 +10,25 @@ import (
 
 	"github.com/dgraph-io/badger/v2"
 	"github.com/dgraph-io/badger/v2/options"
+	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
 	"github.com/tdex-network/tdex-daemon/internal/core/ports"
 	"github.com/timshannon/badgerhold/v2"
 )
 
+// The encoding of a key that is not of a basic type includes an identifier that
+// gob assigns to the type when it encounters it for the very first time. Keys
+// encoded by different processes would hence not match, if those used the types
+// in a different order: always start with those used for the keys.
+func init() {
+	for _, key := range []interface{}{uuid.UUID{}, domain.UnspentKey{}} {
+		if _, err := badgerhold.DefaultEncode(key); err != nil {
+			panic(err)
+		}
+	}
+}
+
 // repoManager holds all the badgerhold stores in a single data structure.
 type repoManager struct {
 	store        *badgerhold.Store
-- 
2.43.0


From f15a65a98fe17098e564a698f1523db4bddfeace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 18/62] fix: refuse swap transactions with missing prevouts
 instead of crashing

---
 pkg/swap/complete.go |  4 ++--
 pkg/swap/request.go  | 10 +++-------
 pkg/swap/swap.go     | 40 ++++++++++++++++++++++++++++++----------
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index bd325e0..8a9960c 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -91,7 +91,7 @@ func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
 
 	swapRequest := opts.SwapRequest
 
-	totalP, err := countCumulativeAmount(ptx.Inputs, swapRequest.GetAssetP(), opts.InputBlindingKeys)
+	totalP, err := countCumulativeAmount(ptx, swapRequest.GetAssetP(), opts.InputBlindingKeys)
 	if err != nil {
 		return err
 	}
@@ -112,7 +112,7 @@ func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
 		return fmt.Errorf("either SwapRequest.amount_r or SwapRequest.asset_r do not match the provided pset")
 	}
 
-	totalR, err := countCumulativeAmount(ptx.Inputs, swapRequest.GetAssetR(), opts.InputBlindingKeys)
+	totalR, err := countCumulativeAmount(ptx, swapRequest.GetAssetR(), opts.InputBlindingKeys)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/swap/request.go b/pkg/swap/request.go
index 9f40cd1..21c3c8d 100644
--- a/pkg/swap/request.go
+++ b/pkg/swap/request.go
@@ -7,7 +7,6 @@ import (
 	pb "github.com/tdex-network/tdex-protobuf/generated/go/swap"
 	"github.com/thanhpk/randstr"
 	"github.com/vulpemventures/go-elements/pset"
-	"github.com/vulpemventures/go-elements/transaction"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -73,12 +72,9 @@ func checkTxAndBlindKeys(
 		if !in.IsSane() {
 			return fmt.Errorf("partial input %d is not sane", i)
 		}
-		var prevout *transaction.TxOutput
-		if in.WitnessUtxo != nil {
-			prevout = in.WitnessUtxo
-		} else {
-			txinIndex := ptx.UnsignedTx.Inputs[i].Index
-			prevout = in.NonWitnessUtxo.Outputs[txinIndex]
+		prevout, err := getPrevout(in, ptx.UnsignedTx.Inputs[i])
+		if err != nil {
+			return fmt.Errorf("partial input %d: %w", i, err)
 		}
 		if checkInputKeys {
 			script := hex.EncodeToString(prevout.Script)
diff --git a/pkg/swap/swap.go b/pkg/swap/swap.go
index 7f94cb5..33a2882 100644
--- a/pkg/swap/swap.go
+++ b/pkg/swap/swap.go
@@ -3,6 +3,7 @@ package swap
 import (
 	"encoding/hex"
 	"errors"
+	"fmt"
 
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
@@ -17,14 +18,7 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 		return err
 	}
 
-	for index, input := range decodedFromRequest.Inputs {
-		if input.WitnessUtxo == nil && input.NonWitnessUtxo != nil {
-			inputVout := decodedFromRequest.UnsignedTx.Inputs[index].Index
-			decodedFromRequest.Inputs[index].WitnessUtxo = input.NonWitnessUtxo.Outputs[inputVout]
-		}
-	}
-
-	totalP, err := countCumulativeAmount(decodedFromRequest.Inputs, request.GetAssetP(), request.GetInputBlindingKey())
+	totalP, err := countCumulativeAmount(decodedFromRequest, request.GetAssetP(), request.GetInputBlindingKey())
 	if err != nil {
 		return err
 	}
@@ -55,7 +49,7 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 			return errors.New("id mismatch: SwapRequest.id and SwapAccept.request_id are not the same")
 		}
 
-		totalR, err := countCumulativeAmount(decodedFromAccept.Inputs, request.GetAssetR(), accept.GetInputBlindingKey())
+		totalR, err := countCumulativeAmount(decodedFromAccept, request.GetAssetR(), accept.GetInputBlindingKey())
 		if err != nil {
 			return err
 		}
@@ -106,9 +100,19 @@ func outputFoundInTransaction(outputs []*transaction.TxOutput, value uint64, ass
 	return false, nil
 }
 
-func countCumulativeAmount(utxos []pset.PInput, asset string, inputBlindKeys map[string][]byte) (uint64, error) {
+func countCumulativeAmount(ptx *pset.Pset, asset string, inputBlindKeys map[string][]byte) (uint64, error) {
 	var amount uint64 = 0
 
+	utxos := make([]pset.PInput, len(ptx.Inputs))
+	for i, in := range ptx.Inputs {
+		prevout, err := getPrevout(in, ptx.UnsignedTx.Inputs[i])
+		if err != nil {
+			return 0, fmt.Errorf("partial input %d: %w", i, err)
+		}
+		in.WitnessUtxo = prevout
+		utxos[i] = in
+	}
+
 	// filter the utxos using assetHash
 	filteredUtxos, err := utxosFilteredByAssetHashAndUnblinded(utxos, asset, inputBlindKeys)
 	if err != nil {
@@ -172,3 +176,19 @@ func utxosFilteredByAssetHashAndUnblinded(utxos []pset.PInput, asset string, inp
 
 	return filteredUtxos, nil
 }
+
+// getPrevout returns the output spent by an input of a partial transaction.
+func getPrevout(
+	in pset.PInput, txIn *transaction.TxInput,
+) (*transaction.TxOutput, error) {
+	if in.WitnessUtxo != nil {
+		return in.WitnessUtxo, nil
+	}
+	if in.NonWitnessUtxo == nil {
+		return nil, errors.New("missing prevout")
+	}
+	if int(txIn.Index) >= len(in.NonWitnessUtxo.Outputs) {
+		return nil, errors.New("prevout index out of range")
+	}
+	return in.NonWitnessUtxo.Outputs[txIn.Index], nil
+}
-- 
2.43.0


From 15d81b4473e17ce2a16520acc8bd4785ddb9f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 19/62] fix: refuse short cyphertexts instead of crashing

---
 pkg/wallet/cypher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/wallet/cypher.go b/pkg/wallet/cypher.go
index 4a21eb2..362b870 100644
--- a/pkg/wallet/cypher.go
+++ b/pkg/wallet/cypher.go
@@ -81,6 +81,9 @@ func Decrypt(opts DecryptOpts) (string, error) {
 	}
 
 	data, _ := base64.StdEncoding.DecodeString(opts.CypherText)
+	if len(data) < 32 {
+		return "", ErrInvalidCypherText
+	}
 	salt, data := data[len(data)-32:], data[:len(data)-32]
 
 	key, _, err := DeriveKey([]byte(opts.Passphrase), salt)
@@ -96,6 +99,9 @@ func Decrypt(opts DecryptOpts) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if len(data) < gcm.NonceSize() {
+		return "", ErrInvalidCypherText
+	}
 	nonce, text := data[:gcm.NonceSize()], data[gcm.NonceSize():]
 	plaintext, err := gcm.Open(nil, nonce, text, nil)
 	if err != nil {
-- 
2.43.0


From 5127b8654a0c77e6efb63d56c8af4d89e0136f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 20/62] fix: coin selection without shared state and in linear
 time

---
 pkg/explorer/coinselection.go | 71 ++++++++++++-----------------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/pkg/explorer/coinselection.go b/pkg/explorer/coinselection.go
index da9b4ca..680d614 100644
--- a/pkg/explorer/coinselection.go
+++ b/pkg/explorer/coinselection.go
@@ -105,56 +105,28 @@ func isIndexOccupied(i int, list []int) bool {
 	return false
 }
 
-var combination = []uint64{}
-
-//getCombination is calculating all combinations for 'size' the elements of src array
-// number of combination formula -> len(src)! / size! * (len(src) - size)!
-func getCombination(src []uint64, size int, offset int) [][]uint64 {
-	result := [][]uint64{}
-	if size == 0 {
-		temp := make([]uint64, len(combination))
-		copy(temp, combination)
-		return append(result, temp)
-	}
-	for i := offset; i <= len(src)-size; i++ {
-		combination = append(combination, src[i])
-		temp := getCombination(src, size-1, i+1)
-		result = append(result, temp...)
-		combination = combination[:len(combination)-1]
-	}
-	return result[:]
-}
-func sum(items []uint64) uint64 {
-	var total uint64
+//getBestCombination selects as few as possible elements of items, that must be
+//sorted in descending order, so that their sum is equal or greater than target
+//and, whenever possible, not greater than 10 times target:
+//1. the first element that covers target within the 10x ratio is enough alone
+//2. otherwise, every element is either smaller than target, or too big: the
+//fewest of the small ones that reach target are the first of them
+//3. if the small ones do not reach target, fall back to a too big one
+func getBestCombination(items []uint64, target uint64) []uint64 {
 	for _, v := range items {
-		total += v
+		if v >= target && isWithinRatio(v, target) {
+			return []uint64{v}
+		}
 	}
-	return total
-}
 
-//getBestCombination method implement strategy of selecting as less as possible
-//elements from items slice so that sum of elements is equal or greater than
-//target, with 10x ratio
-//It uses bellow logic:
-//1. set size = 1
-//2. uses Recursion (getCombination) to get all combinations for size elements in the input Array.
-//3. check each combination if meet the requirements from 0 -> i, if yes, return it (finish)
-//4. if none of combination matches, then size++ and go to Step 2.
-func getBestCombination(items []uint64, target uint64) []uint64 {
-	result := [][]uint64{}
-	for i := 1; i < len(items)+1; i++ {
-		result = append(result, getCombination(items, i, 0)...)
-		for j := 0; j < len(result); j++ {
-			total := sum(result[j])
-			if total < target {
-				continue
-			}
-			if total == target {
-				return result[j]
-			}
-			if total <= target*10 {
-				return result[j]
-			}
+	combination, total := []uint64{}, uint64(0)
+	for _, v := range items {
+		if v >= target {
+			continue
+		}
+		combination = append(combination, v)
+		if total += v; total >= target {
+			return combination
 		}
 	}
 
@@ -167,3 +139,8 @@ func getBestCombination(items []uint64, target uint64) []uint64 {
 
 	return []uint64{}
 }
+
+//isWithinRatio returns whether value is not greater than 10 times target
+func isWithinRatio(value, target uint64) bool {
+	return value/10 < target || (value/10 == target && value%10 == 0)
+}
-- 
2.43.0


From f0fe7d2d865feadfbc4bbe8a8dab1f356113c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 21/62] fix: do not underestimate the size of wrapped segwit
 and legacy inputs

---
 pkg/wallet/estimation.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/wallet/estimation.go b/pkg/wallet/estimation.go
index 22027e6..4c6f216 100644
--- a/pkg/wallet/estimation.go
+++ b/pkg/wallet/estimation.go
@@ -59,8 +59,8 @@ var (
 	scripsigtSizeByScriptType = map[int]int{
 		P2PK:        140, // len + opcode + sig + opcode + pubkey uncompressed
 		P2PKH:       108, // len + opcode + sig + opcode + pubkey
-		P2SH_P2WPKH: 23,  // len + p2wpkh script
-		P2SH_P2WSH:  35,  // len + p2wsh script
+		P2SH_P2WPKH: 24,  // len + opcode + p2wpkh script
+		P2SH_P2WSH:  36,  // len + opcode + p2wsh script
 		P2WPKH:      1,   // no scriptsig, still len is serialized
 		P2WSH:       1,   // no scriptsig
 	}
@@ -120,13 +120,16 @@ func calcTxWitnessSize(
 	insSize := 0
 	auxCount := 0
 	for _, scriptType := range inScriptTypes {
-		if scriptType == P2SH_P2WPKH || scriptType == P2WPKH {
+		switch scriptType {
+		case P2SH_P2WPKH, P2WPKH:
 			// len + witness[sig,pubkey] + no issuance proof + no token proof + no pegin
 			insSize += (1 + 107 + 1 + 1 + 1)
-		}
-		if scriptType == P2SH_P2WSH || scriptType == P2WSH {
+		case P2SH_P2WSH, P2WSH:
 			insSize += inAuxiliaryWitnessSize[auxCount]
 			auxCount++
+		default:
+			// no witness + no issuance proof + no token proof + no pegin
+			insSize += (1 + 1 + 1 + 1)
 		}
 	}
 
-- 
2.43.0


From 41beac341c415012ee1bfe876b8d6caf7049bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 22/62] fix: the coins selected for network fees cover them

---
 pkg/wallet/transaction.go | 62 +++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index 328bca4..49d55fc 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -395,40 +395,29 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				if changeAmount > feeAmount {
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount - feeAmount)
 				} else {
-					unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-					selectedUnspents, change, err := explorer.SelectUnspents(
-						unspents,
-						DummyFeeAmount,
-						opts.Network.AssetID,
+					selectedUnspents, change, fees, err := selectUnspentsForFees(
+						ptx, opts, inputsToAdd, len(outputsToAdd), changeAmount,
 					)
 					if err != nil {
 						return nil, err
 					}
 					inputsToAdd = append(inputsToAdd, selectedUnspents...)
-
-					feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes)
-					change += DummyFeeAmount - feeAmount
-					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount + change)
-
+					feeAmount = fees
+					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(change)
 				}
 			} else {
 				// In case there's no LBTC change, it's necessary to choose some other
 				// unspents from those not yet selected, add it/them to the list of
 				// inputs to add to the tx and add another output for the eventual change
 				// returned by the coin selection
-				unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-				selectedUnspents, change, err := explorer.SelectUnspents(
-					unspents,
-					DummyFeeAmount,
-					opts.Network.AssetID,
+				selectedUnspents, change, fees, err := selectUnspentsForFees(
+					ptx, opts, inputsToAdd, len(outputsToAdd)+1, 0,
 				)
 				if err != nil {
 					return nil, err
 				}
 				inputsToAdd = append(inputsToAdd, selectedUnspents...)
-
-				feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes)
-				change += DummyFeeAmount - feeAmount
+				feeAmount = fees
 
 				lbtcChangeOutput, _ := newTxOutput(
 					opts.Network.AssetID,
@@ -467,6 +456,43 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 	}, nil
 }
 
+// selectUnspentsForFees selects, among the LBTC unspents that are not in inputs
+// yet, those to add to pay the network fees of the transaction that has the
+// given inputs and number of outputs, and returns them along with the amount
+// of the LBTC change and that of the fees. The LBTC change, that also includes
+// the given changeAmount, is always greater than 0.
+func selectUnspentsForFees(
+	ptx *pset.Pset,
+	opts UpdateTxOpts,
+	inputs []explorer.Utxo,
+	numOfOutputs int,
+	changeAmount uint64,
+) ([]explorer.Utxo, uint64, uint64, error) {
+	unspents := getRemainingUnspents(opts.Unspents, inputs)
+	targetAmount := DummyFeeAmount
+	for {
+		selectedUnspents, change, err := explorer.SelectUnspents(
+			unspents,
+			targetAmount,
+			opts.Network.AssetID,
+		)
+		if err != nil {
+			return nil, 0, 0, err
+		}
+
+		totalAmount := changeAmount + targetAmount + change
+		feeAmount := calcFeeAmount(
+			ptx, len(inputs)+len(selectedUnspents), numOfOutputs, opts.MilliSatsPerBytes,
+		)
+		if totalAmount > feeAmount {
+			return selectedUnspents, totalAmount - feeAmount, feeAmount, nil
+		}
+
+		// the selected unspents are not enough to pay for the fees
+		targetAmount = feeAmount - changeAmount + 1
+	}
+}
+
 // FinalizeAndExtractTransactionOpts is the struct given to FinalizeAndExtractTransaction method
 type FinalizeAndExtractTransactionOpts struct {
 	PsetBase64 string
-- 
2.43.0


From 64424bafa049598df12975bdb7f0f326db5263ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 23/62] fix: confirmation of transactions that are not of a
 trade does not crash the daemon

---
 .../core/application/blockchain_listener.go   | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 3ab7652..d440c59 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -166,8 +166,18 @@ func (b *blockchainListener) listenToEventChannel() {
 			ctx := context.Background()
 
 			trade, err := b.repoManager.TradeRepository().GetTradeByTxID(ctx, e.TxID)
-			if err != nil {
-				log.Warnf("unable to find trade with id %s: %v", e.TxID, err)
+			if err != nil || trade == nil {
+				// not the transaction of a trade, but it can be any other one sent to
+				// or by the wallet.
+				count, err := b.confirmUnspentsOfTx(e.TxID)
+				if err != nil {
+					log.Warnf("trying to confirm unspents of tx %s: %v", e.TxID, err)
+					break
+				}
+				if count > 0 {
+					log.Debugf("confirmed %d unspents", count)
+					b.StopObserveTx(e.TxID)
+				}
 				break
 			}
 
@@ -290,6 +300,25 @@ func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.Trans
 	return nil
 }
 
+// confirmUnspentsOfTx confirms the stored outputs of the given transaction and
+// returns how many they are.
+func (b *blockchainListener) confirmUnspentsOfTx(txID string) (int, error) {
+	ctx := context.Background()
+	keys := make([]domain.UnspentKey, 0)
+	for _, u := range b.repoManager.UnspentRepository().GetAllUnspents(ctx) {
+		if u.TxID == txID {
+			keys = append(keys, u.Key())
+		}
+	}
+	if len(keys) <= 0 {
+		return 0, nil
+	}
+	if _, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, keys); err != nil {
+		return 0, err
+	}
+	return len(keys), nil
+}
+
 func (b *blockchainListener) confirmOrAddUnspents(
 	txHex string,
 	txID string,
-- 
2.43.0


From 873f7347dce6ce4c1088955ab7dbabd05db133c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 24/62] fix: changes of sent transactions are blinded with
 their own keys

---
 internal/core/application/wallet_service.go | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 27e69d5..13c4eae 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -20,6 +20,7 @@ import (
 	"github.com/tdex-network/tdex-daemon/pkg/wallet"
 	"github.com/vulpemventures/go-elements/address"
 	"github.com/vulpemventures/go-elements/network"
+	"github.com/vulpemventures/go-elements/pset"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -1028,12 +1029,6 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// update the list of output blinding keys with those of the eventual changes
-	outputsBlindingKeys := opts.outputsBlindingKeys
-	for _, v := range updateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
-	}
-
 	// add inputs for paying network fees
 	feeUpdateResult, err := w.UpdateTx(wallet.UpdateTxOpts{
 		PsetBase64:         updateResult.PsetBase64,
@@ -1047,9 +1042,21 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
-	// again, add changes' blinding keys to the list of those of the outputs
-	for _, v := range feeUpdateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	// update the list of output blinding keys with those of the eventual
+	// changes, in the same order they've been added to the transaction
+	changeBlindingKeys := mergeBlindingKeys(
+		updateResult.ChangeOutputsBlindingKeys,
+		feeUpdateResult.ChangeOutputsBlindingKeys,
+	)
+	ptx, err := pset.NewPsetFromBase64(feeUpdateResult.PsetBase64)
+	if err != nil {
+		return "", err
+	}
+	outputsBlindingKeys := append([][]byte{}, opts.outputsBlindingKeys...)
+	for _, out := range ptx.UnsignedTx.Outputs[len(opts.outputs):] {
+		outputsBlindingKeys = append(
+			outputsBlindingKeys, changeBlindingKeys[hex.EncodeToString(out.Script)],
+		)
 	}
 
 	// blind the transaction
-- 
2.43.0


From bac19a9fc32308bbe80bbcf4d6c7c3c25d3731d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 25/62] fix: confidential coins can be sent and withdrawn

---
 internal/core/application/trade_service.go  |  7 +-----
 internal/core/application/wallet_service.go | 28 ++++++++++++++++++++-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index bc7b884..89bff54 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -797,12 +797,7 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	inputsToSign := len(selectedUnspents)
 
 	for i, u := range selectedUnspents {
-		inputBlindingData[existingInputs+i] = wallet.BlindingData{
-			Asset:         u.Asset(),
-			Amount:        u.Value(),
-			AssetBlinder:  u.AssetBlinder(),
-			AmountBlinder: u.ValueBlinder(),
-		}
+		inputBlindingData[existingInputs+i] = blindingDataFromUtxo(u)
 	}
 
 	// the keys are copied as the request must not be modified
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 13c4eae..8b9cc57 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -1060,8 +1060,16 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	}
 
 	// blind the transaction
-	blindedPset, err := w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{
+	inputsBlindingData := make(map[int]wallet.BlindingData)
+	for _, u := range updateResult.SelectedUnspents {
+		inputsBlindingData[len(inputsBlindingData)] = blindingDataFromUtxo(u)
+	}
+	for _, u := range feeUpdateResult.SelectedUnspents {
+		inputsBlindingData[len(inputsBlindingData)] = blindingDataFromUtxo(u)
+	}
+	blindedPset, err := w.BlindTransactionWithData(wallet.BlindTransactionWithDataOpts{
 		PsetBase64:         feeUpdateResult.PsetBase64,
+		InputBlindingData:  inputsBlindingData,
 		OutputBlindingKeys: outputsBlindingKeys,
 	})
 	if err != nil {
@@ -1101,6 +1109,24 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	return txHex, nil
 }
 
+// blindingDataFromUtxo returns the data that blinds the given unspent. The
+// blinders of an unconfidential one are all zeros.
+func blindingDataFromUtxo(u explorer.Utxo) wallet.BlindingData {
+	data := wallet.BlindingData{
+		Asset:         u.Asset(),
+		Amount:        u.Value(),
+		AssetBlinder:  u.AssetBlinder(),
+		AmountBlinder: u.ValueBlinder(),
+	}
+	if len(data.AssetBlinder) == 0 {
+		data.AssetBlinder = make([]byte, 32)
+	}
+	if len(data.AmountBlinder) == 0 {
+		data.AmountBlinder = make([]byte, 32)
+	}
+	return data
+}
+
 func getDerivationPathsForUnspents(
 	account *domain.Account,
 	unspents []explorer.Utxo,
-- 
2.43.0


From 891d0e2eefa794fd24d3cd65dc45769735c6a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 26/62] fix: concurrent requests are not given the same
 addresses

---
 internal/core/application/operator_service.go | 190 ++++++---------
 internal/core/application/wallet_service.go   | 216 ++++++++++--------
 2 files changed, 196 insertions(+), 210 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e6e9192..4dcf8dc 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -167,39 +167,29 @@ func (o *operatorService) DepositMarket(
 		accountIndex = accountOfExistentMarket
 	} else {
 		// Second case: base and quote asset are empty. this means we need to create a new market.
-		_, latestAccountIndex, err := o.repoManager.MarketRepository().GetLatestMarket(
-			ctx,
-		)
-		if err != nil {
-			return nil, err
-		}
-
-		nextAccountIndex := latestAccountIndex + 1
-		accountIndex = nextAccountIndex
+		accountIndex = -1
 	}
-	if numOfAddresses == 0 {
+	if numOfAddresses <= 0 {
 		numOfAddresses = 1
 	}
 
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
-	if err != nil {
-		return nil, err
-	}
-
-	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
-	for i := 0; i < numOfAddresses; i++ {
-		info, err := vault.DeriveNextExternalAddressForAccount(accountIndex)
-		if err != nil {
-			return nil, err
-		}
-		list[i] = AddressAndBlindingKey{
-			Address:     info.Address,
-			BlindingKey: hex.EncodeToString(info.BlindingKey),
-		}
-	}
+	// the addresses are derived from the vault that is going to be updated,
+	// otherwise the same ones could be given to concurrent calls.
+	list, err := o.repoManager.RunTransaction(
+		ctx,
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			accountIndex := accountIndex
+			if accountIndex < 0 {
+				_, latestAccountIndex, err := o.repoManager.MarketRepository().GetLatestMarket(
+					ctx,
+				)
+				if err != nil {
+					return nil, err
+				}
+				accountIndex = latestAccountIndex + 1
+			}
 
-	go func() {
-		if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
 			// this makes sure that the market is created if it needs to. Otherwise,
 			// this does not commit any change to the marekt repo.
 			if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
@@ -212,60 +202,63 @@ func (o *operatorService) DepositMarket(
 				return nil, err
 			}
 
-			if err := o.repoManager.VaultRepository().UpdateVault(
-				ctx,
-				func(_ *domain.Vault) (*domain.Vault, error) {
-					return vault, nil
-				}); err != nil {
-				return nil, err
-			}
-
-			return nil, nil
-		}); err != nil {
-			log.WithError(err).Warn("unable to persist changes")
-		}
-	}()
+			return o.deriveAddresses(ctx, accountIndex, numOfAddresses)
+		},
+	)
+	if err != nil {
+		return nil, err
+	}
 
-	return list, nil
+	return list.([]AddressAndBlindingKey), nil
 }
 
 func (o *operatorService) DepositFeeAccount(
 	ctx context.Context,
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
-	if numOfAddresses == 0 {
+	if numOfAddresses <= 0 {
 		numOfAddresses = 1
 	}
 
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
+	list, err := o.repoManager.RunTransaction(
+		ctx,
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return o.deriveAddresses(ctx, domain.FeeAccount, numOfAddresses)
+		},
+	)
 	if err != nil {
 		return nil, err
 	}
 
-	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
-	for i := 0; i < numOfAddresses; i++ {
-		info, err := vault.DeriveNextExternalAddressForAccount(domain.FeeAccount)
-		if err != nil {
-			return nil, err
-		}
+	return list.([]AddressAndBlindingKey), nil
+}
 
-		list[i] = AddressAndBlindingKey{
-			Address:     info.Address,
-			BlindingKey: hex.EncodeToString(info.BlindingKey),
-		}
+// deriveAddresses derives and persists the next receiving addresses of an
+// account.
+func (o *operatorService) deriveAddresses(
+	ctx context.Context,
+	accountIndex, numOfAddresses int,
+) ([]AddressAndBlindingKey, error) {
+	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(vault *domain.Vault) (*domain.Vault, error) {
+			for i := range list {
+				info, err := vault.DeriveNextExternalAddressForAccount(accountIndex)
+				if err != nil {
+					return nil, err
+				}
+				list[i] = AddressAndBlindingKey{
+					Address:     info.Address,
+					BlindingKey: hex.EncodeToString(info.BlindingKey),
+				}
+			}
+			return vault, nil
+		},
+	); err != nil {
+		return nil, err
 	}
-
-	go func() {
-		if err := o.repoManager.VaultRepository().UpdateVault(
-			ctx,
-			func(_ *domain.Vault) (*domain.Vault, error) {
-				return vault, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to update vault")
-		}
-	}()
-
 	return list, nil
 }
 
@@ -786,52 +779,16 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
-	mnemonic, err := vault.GetMnemonicSafe()
-	if err != nil {
-		return nil, err
-	}
-
-	marketAccount, err := vault.AccountByIndex(market.AccountIndex)
-	if err != nil {
-		return nil, err
-	}
-	feeAccount, err := vault.AccountByIndex(domain.FeeAccount)
-	if err != nil {
-		return nil, err
-	}
-
-	changePathsByAsset := map[string]string{}
-	feeChangePathByAsset := map[string]string{}
-	for _, asset := range getAssetsOfOutputs(outputs) {
-		info, err := vault.DeriveNextInternalAddressForAccount(accountIndex)
-		if err != nil {
-			return nil, err
-		}
-
-		derivationPath := marketAccount.DerivationPathByScript[info.Script]
-		changePathsByAsset[asset] = derivationPath
-	}
-
-	feeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-	if err != nil {
-		return nil, err
-	}
-	feeChangePathByAsset[o.network.AssetID] =
-		feeAccount.DerivationPathByScript[feeInfo.Script]
-
-	txHex, err := sendToMany(sendToManyOpts{
-		mnemonic:              mnemonic,
-		unspents:              marketUnspents,
-		feeUnspents:           feeUnspents,
-		outputs:               outputs,
-		outputsBlindingKeys:   outputsBlindingKeys,
-		changePathsByAsset:    changePathsByAsset,
-		feeChangePathByAsset:  feeChangePathByAsset,
-		inputPathsByScript:    marketAccount.DerivationPathByScript,
-		feeInputPathsByScript: feeAccount.DerivationPathByScript,
-		milliSatPerByte:       int(req.MillisatPerByte),
-		network:               o.network,
-	})
+	txHex, err := deriveChangesAndSendToMany(
+		ctx, o.repoManager, market.AccountIndex, sendToManyOpts{
+			unspents:            marketUnspents,
+			feeUnspents:         feeUnspents,
+			outputs:             outputs,
+			outputsBlindingKeys: outputsBlindingKeys,
+			milliSatPerByte:     int(req.MillisatPerByte),
+			network:             o.network,
+		},
+	)
 	if err != nil {
 		return nil, err
 	}
@@ -844,15 +801,6 @@ func (o *operatorService) WithdrawMarketFunds(
 		}
 	}
 
-	if err := o.repoManager.VaultRepository().UpdateVault(
-		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
-		},
-	); err != nil {
-		return nil, err
-	}
-
 	go extractUnspentsFromTxAndUpdateUtxoSet(
 		o.repoManager.UnspentRepository(),
 		o.repoManager.VaultRepository(),
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 8b9cc57..094a966 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -300,14 +300,19 @@ func (w *walletService) UnlockWallet(
 		return nil
 	}
 
-	if err := vault.Unlock(passphrase); err != nil {
-		return err
-	}
-
-	if err := w.repoManager.VaultRepository().UpdateVault(
+	if _, err := w.repoManager.RunTransaction(
 		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, w.repoManager.VaultRepository().UpdateVault(
+				ctx,
+				func(v *domain.Vault) (*domain.Vault, error) {
+					if err := v.Unlock(passphrase); err != nil {
+						return nil, err
+					}
+					return v, nil
+				},
+			)
 		},
 	); err != nil {
 		return err
@@ -359,14 +364,20 @@ func (w *walletService) ChangePassword(
 		return ErrWalletNotInitialized
 	}
 
-	if err := w.repoManager.VaultRepository().UpdateVault(
+	if _, err := w.repoManager.RunTransaction(
 		ctx,
-		func(v *domain.Vault) (*domain.Vault, error) {
-			err := v.ChangePassphrase(currentPassphrase, newPassphrase)
-			if err != nil {
-				return nil, err
-			}
-			return v, nil
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, w.repoManager.VaultRepository().UpdateVault(
+				ctx,
+				func(v *domain.Vault) (*domain.Vault, error) {
+					err := v.ChangePassphrase(currentPassphrase, newPassphrase)
+					if err != nil {
+						return nil, err
+					}
+					return v, nil
+				},
+			)
 		},
 	); err != nil {
 		return err
@@ -407,20 +418,26 @@ func (w *walletService) GenerateAddressAndBlindingKey(
 		return "", "", ErrWalletNotInitialized
 	}
 
-	err = w.repoManager.VaultRepository().UpdateVault(
+	_, err = w.repoManager.RunTransaction(
 		ctx,
-		func(v *domain.Vault) (*domain.Vault, error) {
-			info, err := v.DeriveNextExternalAddressForAccount(
-				domain.WalletAccount,
-			)
-			if err != nil {
-				return nil, err
-			}
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, w.repoManager.VaultRepository().UpdateVault(
+				ctx,
+				func(v *domain.Vault) (*domain.Vault, error) {
+					info, err := v.DeriveNextExternalAddressForAccount(
+						domain.WalletAccount,
+					)
+					if err != nil {
+						return nil, err
+					}
 
-			address = info.Address
-			blindingKey = hex.EncodeToString(info.BlindingKey)
+					address = info.Address
+					blindingKey = hex.EncodeToString(info.BlindingKey)
 
-			return v, nil
+					return v, nil
+				},
+			)
 		},
 	)
 
@@ -497,74 +514,28 @@ func (w *walletService) SendToMany(
 		return nil, ErrFeeAccountNotFunded
 	}
 
-	var txHex string
-
-	if err := w.repoManager.VaultRepository().UpdateVault(
-		ctx,
-		func(v *domain.Vault) (*domain.Vault, error) {
-			mnemonic, err := v.GetMnemonicSafe()
-			if err != nil {
-				return nil, err
-			}
-			walletAccount, err := v.AccountByIndex(domain.WalletAccount)
-			if err != nil {
-				return nil, err
-			}
-			feeAccount, err := v.AccountByIndex(domain.FeeAccount)
-			if err != nil {
-				return nil, err
-			}
-
-			changePathsByAsset := map[string]string{}
-			feeChangePathByAsset := map[string]string{}
-			for _, asset := range getAssetsOfOutputs(outputs) {
-				info, err := v.DeriveNextInternalAddressForAccount(domain.WalletAccount)
-				if err != nil {
-					return nil, err
-				}
-				changePathsByAsset[asset] = info.DerivationPath
-			}
-			feeInfo, err := v.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-			if err != nil {
-				return nil, err
-			}
-			feeChangePathByAsset[w.network.AssetID] = feeInfo.DerivationPath
-
-			_txHex, err := sendToMany(sendToManyOpts{
-				mnemonic:              mnemonic,
-				unspents:              walletUnspents,
-				feeUnspents:           feeUnspents,
-				outputs:               outputs,
-				outputsBlindingKeys:   outputsBlindingKeys,
-				changePathsByAsset:    changePathsByAsset,
-				feeChangePathByAsset:  feeChangePathByAsset,
-				inputPathsByScript:    walletAccount.DerivationPathByScript,
-				feeInputPathsByScript: feeAccount.DerivationPathByScript,
-				milliSatPerByte:       int(req.MillisatPerByte),
-				network:               w.network,
-			})
-			if err != nil {
-				return nil, err
-			}
-
-			txHex = _txHex
-
-			if !req.Push {
-				return v, nil
-			}
-
-			txid, err := w.explorerService.BroadcastTransaction(txHex)
-			if err != nil {
-				return nil, err
-			}
-			log.Debugf("wallet account tx broadcasted with id: %s", txid)
-
-			return v, nil
+	txHex, err := deriveChangesAndSendToMany(
+		ctx, w.repoManager, domain.WalletAccount, sendToManyOpts{
+			unspents:            walletUnspents,
+			feeUnspents:         feeUnspents,
+			outputs:             outputs,
+			outputsBlindingKeys: outputsBlindingKeys,
+			milliSatPerByte:     int(req.MillisatPerByte),
+			network:             w.network,
 		},
-	); err != nil {
+	)
+	if err != nil {
 		return nil, err
 	}
 
+	if req.Push {
+		txid, err := w.explorerService.BroadcastTransaction(txHex)
+		if err != nil {
+			return nil, err
+		}
+		log.Debugf("wallet account tx broadcasted with id: %s", txid)
+	}
+
 	go extractUnspentsFromTxAndUpdateUtxoSet(
 		w.repoManager.UnspentRepository(),
 		w.repoManager.VaultRepository(),
@@ -995,6 +966,73 @@ type sendToManyOpts struct {
 	network               *network.Network
 }
 
+// deriveChangesAndSendToMany derives the addresses for the eventual changes of
+// the given account and of the fee one, and crafts the transaction with the
+// given options. The derived addresses are persisted only if this succeeds.
+func deriveChangesAndSendToMany(
+	ctx context.Context,
+	repoManager ports.RepoManager,
+	accountIndex int,
+	opts sendToManyOpts,
+) (string, error) {
+	var txHex string
+
+	if _, err := repoManager.RunTransaction(
+		ctx,
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, repoManager.VaultRepository().UpdateVault(
+				ctx,
+				func(v *domain.Vault) (*domain.Vault, error) {
+					mnemonic, err := v.GetMnemonicSafe()
+					if err != nil {
+						return nil, err
+					}
+					account, err := v.AccountByIndex(accountIndex)
+					if err != nil {
+						return nil, err
+					}
+					feeAccount, err := v.AccountByIndex(domain.FeeAccount)
+					if err != nil {
+						return nil, err
+					}
+
+					changePathsByAsset := map[string]string{}
+					feeChangePathByAsset := map[string]string{}
+					for _, asset := range getAssetsOfOutputs(opts.outputs) {
+						info, err := v.DeriveNextInternalAddressForAccount(accountIndex)
+						if err != nil {
+							return nil, err
+						}
+						changePathsByAsset[asset] = info.DerivationPath
+					}
+					feeInfo, err := v.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+					if err != nil {
+						return nil, err
+					}
+					feeChangePathByAsset[opts.network.AssetID] = feeInfo.DerivationPath
+
+					opts.mnemonic = mnemonic
+					opts.changePathsByAsset = changePathsByAsset
+					opts.feeChangePathByAsset = feeChangePathByAsset
+					opts.inputPathsByScript = account.DerivationPathByScript
+					opts.feeInputPathsByScript = feeAccount.DerivationPathByScript
+
+					txHex, err = sendToMany(opts)
+					if err != nil {
+						return nil, err
+					}
+					return v, nil
+				},
+			)
+		},
+	); err != nil {
+		return "", err
+	}
+
+	return txHex, nil
+}
+
 func sendToMany(opts sendToManyOpts) (string, error) {
 	w, err := wallet.NewWalletFromMnemonic(wallet.NewWalletFromMnemonicOpts{
 		SigningMnemonic: opts.mnemonic,
-- 
2.43.0


From 15478175d57c3ac22898072214f28767fa0b8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 27/62] fix: do not underestimate the size of P2WSH inputs

---
 pkg/wallet/estimation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/wallet/estimation.go b/pkg/wallet/estimation.go
index 4c6f216..d3b5221 100644
--- a/pkg/wallet/estimation.go
+++ b/pkg/wallet/estimation.go
@@ -125,7 +125,8 @@ func calcTxWitnessSize(
 			// len + witness[sig,pubkey] + no issuance proof + no token proof + no pegin
 			insSize += (1 + 107 + 1 + 1 + 1)
 		case P2SH_P2WSH, P2WSH:
-			insSize += inAuxiliaryWitnessSize[auxCount]
+			// witness + no issuance proof + no token proof + no pegin
+			insSize += inAuxiliaryWitnessSize[auxCount] + 1 + 1 + 1
 			auxCount++
 		default:
 			// no witness + no issuance proof + no token proof + no pegin
-- 
2.43.0


From 51fc09135bd0d0ab5d8ac21fece57e50814ea9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 28/62] fix: withdrawals are refused when the fee account has
 no funds

---
 internal/core/application/operator_service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 4dcf8dc..9c8d35e 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -779,6 +779,10 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
+	if len(feeUnspents) <= 0 {
+		return nil, ErrFeeAccountNotFunded
+	}
+
 	txHex, err := deriveChangesAndSendToMany(
 		ctx, o.repoManager, market.AccountIndex, sendToManyOpts{
 			unspents:            marketUnspents,
-- 
2.43.0


From 072520234ed70eae028a3f9d078efc5295eb72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 29/62] fix: pending trades still expire, and are settled,
 after a restart

---
 internal/core/application/trade_service.go | 43 ++++++++++++++++++++--
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 89bff54..062552e 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -69,7 +69,7 @@ func NewTradeService(
 	priceSlippage decimal.Decimal,
 	net *network.Network,
 ) TradeService {
-	return newTradeService(
+	svc := newTradeService(
 		repoManager,
 		explorerSvc,
 		bcListener,
@@ -78,6 +78,8 @@ func NewTradeService(
 		priceSlippage,
 		net,
 	)
+	svc.resumeTrades()
+	return svc
 }
 
 func newTradeService(
@@ -653,7 +655,36 @@ func (t *tradeService) getInfoAndUnspentsForAccount(
 	return info, Unspents(unspents), nil
 }
 
-func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
+// resumeTrades restores, after a restart, the observation of the transactions
+// of those trades that are not settled yet, and the timers for the expiration
+// of the pending ones.
+func (t *tradeService) resumeTrades() {
+	trades, err := t.repoManager.TradeRepository().GetAllTrades(context.Background())
+	if err != nil {
+		log.WithError(err).Warn("unable to resume pending trades")
+		return
+	}
+
+	for _, trade := range trades {
+		if trade.IsRejected() || !(trade.IsAccepted() || trade.IsCompleted()) {
+			continue
+		}
+		t.blockchainListener.StartObserveTx(trade.TxID)
+
+		if trade.IsAccepted() {
+			go func(trade *domain.Trade) {
+				// admit a tollerance of 1 minute past the expiration time.
+				expiration := time.Unix(int64(trade.ExpiryTime), 0).Add(time.Minute)
+				time.Sleep(time.Until(expiration))
+				t.checkTradeExpiration(trade.TxID, t.unspentsLockedForTrade(trade))
+			}(trade)
+		}
+	}
+}
+
+// unspentsLockedForTrade returns the keys of the unspents locked for the given
+// trade.
+func (t *tradeService) unspentsLockedForTrade(trade *domain.Trade) []domain.UnspentKey {
 	ctx := context.Background()
 	p, _ := pset.NewPsetFromBase64(trade.PsetBase64)
 	unspentKeys := make([]domain.UnspentKey, 0, len(p.Inputs))
@@ -673,9 +704,13 @@ func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
 		unspentKeys = append(unspentKeys, key)
 	}
 
+	return unspentKeys
+}
+
+func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
 	count, err := t.repoManager.UnspentRepository().UnlockUnspents(
-		ctx,
-		unspentKeys,
+		context.Background(),
+		t.unspentsLockedForTrade(trade),
 	)
 	if err != nil {
 		log.Warnf(
-- 
2.43.0


From 7748100353eda3484be874e41c5087235d58501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 30/62] fix: the changes of sends and withdrawals get confirmed

---
 internal/core/application/operator_service.go | 1 +
 internal/core/application/trade_service.go    | 1 +
 internal/core/application/wallet_service.go   | 5 ++++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 9c8d35e..c16ae06 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -808,6 +808,7 @@ func (o *operatorService) WithdrawMarketFunds(
 	go extractUnspentsFromTxAndUpdateUtxoSet(
 		o.repoManager.UnspentRepository(),
 		o.repoManager.VaultRepository(),
+		o.blockchainListener,
 		o.network,
 		txHex,
 		market.AccountIndex,
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 062552e..ae0da20 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -579,6 +579,7 @@ func (t *tradeService) tradeComplete(
 		extractUnspentsFromTxAndUpdateUtxoSet(
 			t.repoManager.UnspentRepository(),
 			t.repoManager.VaultRepository(),
+			t.blockchainListener,
 			t.network,
 			res.TxHex,
 			accountIndex,
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 094a966..1051359 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -539,9 +539,10 @@ func (w *walletService) SendToMany(
 	go extractUnspentsFromTxAndUpdateUtxoSet(
 		w.repoManager.UnspentRepository(),
 		w.repoManager.VaultRepository(),
+		w.blockchainListener,
 		w.network,
 		txHex,
-		domain.FeeAccount,
+		domain.WalletAccount,
 	)
 
 	rawTx, _ := hex.DecodeString(txHex)
@@ -1397,6 +1398,7 @@ func extractUnspentsFromTx(
 func extractUnspentsFromTxAndUpdateUtxoSet(
 	unspentRepo domain.UnspentRepository,
 	vaultRepo domain.VaultRepository,
+	bcListener BlockchainListener,
 	net *network.Network,
 	txHex string,
 	accountIndex int,
@@ -1417,4 +1419,5 @@ func extractUnspentsFromTxAndUpdateUtxoSet(
 	}
 	addUnspentsAsync(unspentRepo, unspentsToAdd)
 	spendUnspentsAsync(unspentRepo, unspentsToSpend)
+	startObserveUnconfirmedUnspents(bcListener, unspentsToAdd)
 }
-- 
2.43.0


From e0dc2d47b427b6dc34c2b8553af746417584463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 31/62] fix: reloading the utxo set confirms and spends the
 stored unspents

---
 .../core/application/blockchain_listener.go   | 28 +++--------
 internal/core/application/wallet_service.go   | 48 +++++++++++++++++--
 2 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index d440c59..788dd6b 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -340,34 +340,20 @@ func (b *blockchainListener) confirmOrAddUnspents(
 		return err
 	}
 
-	uLen := len(unspentsToAdd)
-	unspentAddresses := make([]string, uLen, uLen)
-	for i, u := range unspentsToAdd {
-		unspentAddresses[i] = u.Address
+	unspentKeys := make([]domain.UnspentKey, len(unspentsToAdd))
+	for i := range unspentsToAdd {
+		// those unspents not stored yet must be inserted already confirmed.
+		unspentsToAdd[i].Confirmed = true
+		unspentKeys[i] = unspentsToAdd[i].Key()
 	}
 
-	u, err := b.repoManager.UnspentRepository().GetAllUnspentsForAddresses(ctx, unspentAddresses)
+	count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
 	if err != nil {
 		return err
 	}
-	if len(u) > 0 {
-		unspentKeys := make([]domain.UnspentKey, uLen, uLen)
-		for i, u := range unspentsToAdd {
-			unspentKeys[i] = u.Key()
-		}
-		count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
-		if err != nil {
-			return err
-		}
-		log.Debugf("confirmed %d unspents", count)
-		return nil
-	}
+	log.Debugf("confirmed %d unspents", count)
 
 	go func() {
-		// these unspents must be inserted already confirmed.
-		for i := range unspentsToAdd {
-			unspentsToAdd[i].Confirmed = true
-		}
 		addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
 		spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
 	}()
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 1051359..6f1d308 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -1307,15 +1307,55 @@ func fetchAndAddUnspents(
 		log.Debugf("Restore took: %.2fs", elapsed.Seconds())
 	}()
 
+	storedUnspents, err := unspentRepo.GetAllUnspentsForAddresses(
+		context.Background(), info.Addresses(),
+	)
+	if err != nil {
+		return err
+	}
 	unspents, err = fetchUnspents(explorerSvc, info)
 	if err != nil {
 		return err
 	}
-	if unspents == nil {
-		return nil
+	if len(unspents) > 0 {
+		go startObserveUnconfirmedUnspents(bcListener, unspents)
+		if err := addUnspents(unspentRepo, unspents); err != nil {
+			return err
+		}
+	}
+	return updateUnspents(unspentRepo, storedUnspents, unspents)
+}
+
+// updateUnspents updates the unspents stored before fetching those existing on
+// the blockchain: the ones that were unconfirmed when they were stored are
+// confirmed, and the confirmed ones not fetched have been spent.
+func updateUnspents(
+	unspentRepo domain.UnspentRepository,
+	storedUnspents, fetchedUnspents []domain.Unspent,
+) error {
+	ctx := context.Background()
+	confirmedByKey := make(map[domain.UnspentKey]bool)
+	for _, u := range fetchedUnspents {
+		confirmedByKey[u.Key()] = u.IsConfirmed()
+	}
+
+	unspentsToConfirm := make([]domain.UnspentKey, 0)
+	unspentsToSpend := make([]domain.UnspentKey, 0)
+	for _, u := range storedUnspents {
+		confirmed, ok := confirmedByKey[u.Key()]
+		if !u.IsConfirmed() && confirmed {
+			unspentsToConfirm = append(unspentsToConfirm, u.Key())
+		}
+		if u.IsConfirmed() && !u.IsSpent() && !ok {
+			unspentsToSpend = append(unspentsToSpend, u.Key())
+		}
+	}
+
+	if _, err := unspentRepo.ConfirmUnspents(ctx, unspentsToConfirm); err != nil {
+		return err
 	}
-	go startObserveUnconfirmedUnspents(bcListener, unspents)
-	return addUnspents(unspentRepo, unspents)
+	_, err := unspentRepo.SpendUnspents(ctx, unspentsToSpend)
+	return err
 }
 
 func spendUnspents(
-- 
2.43.0


From a94d54f1322de20247cc7d2f8d021f3f4d812ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 32/62] fix: list trades with the fixed fees of their market

---
 internal/core/application/operator_service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index c16ae06..1ab80dd 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1317,7 +1317,9 @@ func tradeToTradeInfo(
 				QuoteAsset: trade.MarketQuoteAsset,
 			},
 			Fee{
-				BasisPoint: trade.MarketFee,
+				BasisPoint:    trade.MarketFee,
+				FixedBaseFee:  trade.MarketFixedBaseFee,
+				FixedQuoteFee: trade.MarketFixedQuoteFee,
 			},
 		},
 		Price:            Price(trade.MarketPrice),
-- 
2.43.0


From b18f1fe1112fed1daae3947aa3b10ab1ede6df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 33/62] fix: deposits are not claimed for negative output
 indexes

---
 internal/core/application/operator_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 1ab80dd..cbca4b1 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1110,7 +1110,7 @@ func (o *operatorService) claimDeposit(
 			return err
 		}
 
-		if len(tx.Outputs()) <= v.Index {
+		if v.Index < 0 || len(tx.Outputs()) <= v.Index {
 			return ErrInvalidOutpoint
 		}
 
-- 
2.43.0


From 420646eec7bb0bedb2453397589d3d30fa50b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 34/62] fix: a market can be funded only with the assets of the
 claimed pair

---
 internal/core/application/operator_service.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index cbca4b1..e6600b2 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -982,7 +982,9 @@ func (o *operatorService) ClaimMarketDeposit(
 		}
 	}
 
-	return o.claimDeposit(ctx, infoPerAccount, outpoints, marketDeposit)
+	return o.claimDeposit(
+		ctx, infoPerAccount, outpoints, marketDeposit, marketReq.QuoteAsset,
+	)
 }
 
 // ClaimFeeDeposit adds unspents to the Fee Account
@@ -1001,7 +1003,7 @@ func (o *operatorService) ClaimFeeDeposit(
 	infoPerAccount := make(map[int]domain.AddressesInfo)
 	infoPerAccount[domain.FeeAccount] = info
 
-	return o.claimDeposit(ctx, infoPerAccount, outpoints, feeDeposit)
+	return o.claimDeposit(ctx, infoPerAccount, outpoints, feeDeposit, "")
 }
 
 func (o *operatorService) DropMarket(
@@ -1079,6 +1081,7 @@ func (o *operatorService) claimDeposit(
 	infoPerAccount map[int]domain.AddressesInfo,
 	outpoints []TxOutpoint,
 	depositType int,
+	quoteAsset string,
 ) error {
 	// group all addresses info by script
 	infoByScript := make(map[string]domain.AddressInfo)
@@ -1149,7 +1152,7 @@ func (o *operatorService) claimDeposit(
 	for accountIndex, count := range counter {
 		if count == len(outpoints) {
 			if depositType == marketDeposit {
-				if err := o.fundMarket(accountIndex, unspents); err != nil {
+				if err := o.fundMarket(accountIndex, quoteAsset, unspents); err != nil {
 					return err
 				}
 				log.Infof("funded market with account %d", accountIndex)
@@ -1175,6 +1178,7 @@ func (o *operatorService) claimDeposit(
 
 func (o *operatorService) fundMarket(
 	accountIndex int,
+	quoteAsset string,
 	unspents []domain.Unspent,
 ) error {
 	outpoints := make([]domain.OutpointWithAsset, 0, len(unspents))
@@ -1194,6 +1198,11 @@ func (o *operatorService) fundMarket(
 			if err := m.FundMarket(outpoints, o.marketBaseAsset); err != nil {
 				return nil, err
 			}
+			// the market must not be funded with an asset other than the claimed
+			// one, especially if that's already the quote asset of another market.
+			if m.QuoteAsset != quoteAsset {
+				return nil, domain.ErrMarketInvalidQuoteAsset
+			}
 
 			return m, nil
 		},
-- 
2.43.0


From 093436d576b71732ede4e3b622848e3682f5c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 35/62] fix: a failed restore leaves no trace and can be
 retried

---
 internal/core/application/wallet_service.go | 48 ++++++++++++++-------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 6f1d308..eec3ff8 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -180,6 +180,7 @@ func (w *walletService) InitWallet(
 
 	if restore {
 		w.setSyncing(true)
+		defer w.setSyncing(false)
 		log.Debug("restoring wallet")
 		start := time.Now()
 		defer func() {
@@ -190,7 +191,17 @@ func (w *walletService) InitWallet(
 		log.Debug("creating wallet")
 	}
 
-	vault, err := w.repoManager.VaultRepository().GetOrCreateVault(ctx, mnemonic, passphrase, w.network)
+	// when restoring, nothing is stored until the whole state is rebuilt, so that
+	// a failed restoration can be retried.
+	var vault *domain.Vault
+	var err error
+	if restore {
+		vault, err = domain.NewVault(mnemonic, passphrase, w.network)
+	} else {
+		vault, err = w.repoManager.VaultRepository().GetOrCreateVault(
+			ctx, mnemonic, passphrase, w.network,
+		)
+	}
 	if err != nil {
 		chErr <- fmt.Errorf("unable to retrieve vault: %v", err)
 		return
@@ -239,7 +250,7 @@ func (w *walletService) InitWallet(
 		markets := make([]*domain.Market, mLen, mLen)
 		i := 0
 		for accountIndex, info := range marketInfoByAccount {
-			market, err := w.restoreMarket(ctx, accountIndex, info, unspentsByAddress)
+			market, err := w.restoreMarket(accountIndex, info, unspentsByAddress)
 			if err != nil {
 				chErr <- fmt.Errorf("unable to restore market: %v", err)
 				return
@@ -248,7 +259,9 @@ func (w *walletService) InitWallet(
 			i++
 		}
 
-		if err := w.persistRestoredState(ctx, vault, unspents, markets); err != nil {
+		if err := w.persistRestoredState(
+			ctx, mnemonic, passphrase, vault, unspents, markets,
+		); err != nil {
 			chErr <- fmt.Errorf("unable to persist restored state: %v", err)
 			return
 		}
@@ -274,9 +287,6 @@ func (w *walletService) InitWallet(
 		CurrentPwd: passphrase,
 	}
 	w.setInitialized(true)
-	if w.isSyncing() {
-		w.setSyncing(false)
-	}
 	log.Debug("done")
 }
 
@@ -686,18 +696,11 @@ func (w *walletService) restoreMarketAccounts(
 }
 
 func (w *walletService) restoreMarket(
-	ctx context.Context,
 	accountIndex int,
 	info domain.AddressesInfo,
 	unspentsByAddress map[string][]domain.Unspent,
 ) (*domain.Market, error) {
-	market, err := w.repoManager.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{
-		AccountIndex: accountIndex,
-		Fee:          w.marketFee,
-	})
-	if err != nil {
-		return nil, err
-	}
+	market := &domain.Market{AccountIndex: accountIndex, Fee: w.marketFee}
 
 	if len(unspentsByAddress) > 0 {
 		outpoints := make([]domain.OutpointWithAsset, 0)
@@ -718,6 +721,8 @@ func (w *walletService) restoreMarket(
 
 func (w *walletService) persistRestoredState(
 	ctx context.Context,
+	mnemonic []string,
+	passphrase string,
 	vault *domain.Vault,
 	unspents []domain.Unspent,
 	markets []*domain.Market,
@@ -726,7 +731,12 @@ func (w *walletService) persistRestoredState(
 		ctx,
 		false,
 		func(ctx context.Context) (interface{}, error) {
-			// update changes to vault
+			// create the vault and update its accounts
+			if _, err := w.repoManager.VaultRepository().GetOrCreateVault(
+				ctx, mnemonic, passphrase, w.network,
+			); err != nil {
+				return nil, fmt.Errorf("unable to persist the vault: %s", err)
+			}
 			if err := w.repoManager.VaultRepository().UpdateVault(
 				ctx,
 				func(v *domain.Vault) (*domain.Vault, error) {
@@ -738,6 +748,12 @@ func (w *walletService) persistRestoredState(
 
 			// update changes to markets
 			for _, m := range markets {
+				if _, err := w.repoManager.MarketRepository().GetOrCreateMarket(
+					ctx,
+					&domain.Market{AccountIndex: m.AccountIndex, Fee: m.Fee},
+				); err != nil {
+					return nil, fmt.Errorf("unable to persist the market: %s", err)
+				}
 				if err := w.repoManager.MarketRepository().UpdateMarket(
 					ctx,
 					m.AccountIndex,
@@ -799,7 +815,7 @@ func (w *walletService) restoreUnspents(
 	info domain.AddressesInfo,
 	chRes chan *InitWalletReply,
 ) ([]domain.Unspent, error) {
-	chUnspentsInfo := make(chan unspentInfo)
+	chUnspentsInfo := make(chan unspentInfo, len(info))
 	unspents := make([]domain.Unspent, 0)
 	cb := circuitbreaker.NewCircuitBreaker()
 	wg := &sync.WaitGroup{}
-- 
2.43.0


From d56aab9601b6bef432f4f89bf591732987bdcc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 36/62] fix: an unreachable explorer fails the restore instead
 of missing addresses

---
 internal/core/application/wallet_service.go | 52 ++++++++++++++-------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index eec3ff8..107f6bd 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -596,12 +596,18 @@ func (w *walletService) restoreVault(
 		SigningMnemonic: mnemonic,
 	})
 
-	var feeRestoreInfo, walletRestoreInfo *accountLastDerivedIndex
-	var marketsRestoreInfo []*accountLastDerivedIndex
-
-	feeRestoreInfo = w.restoreAccount(ww, domain.FeeAccount)
-	walletRestoreInfo = w.restoreAccount(ww, domain.WalletAccount)
-	marketsRestoreInfo = w.restoreMarketAccounts(ww)
+	feeRestoreInfo, err := w.restoreAccount(ww, domain.FeeAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	walletRestoreInfo, err := w.restoreAccount(ww, domain.WalletAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	marketsRestoreInfo, err := w.restoreMarketAccounts(ww)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	// restore vault accounts
 	feeInfo, err := initVaultAccount(vault, domain.FeeAccount, feeRestoreInfo)
@@ -629,7 +635,7 @@ func (w *walletService) restoreVault(
 func (w *walletService) restoreAccount(
 	ww *wallet.Wallet,
 	accountIndex int,
-) *accountLastDerivedIndex {
+) (*accountLastDerivedIndex, error) {
 	lastDerivedIndex := &accountLastDerivedIndex{}
 	for chainIndex := 0; chainIndex <= 1; chainIndex++ {
 		firstUnusedAddress := -1
@@ -644,7 +650,13 @@ func (w *walletService) restoreAccount(
 				Script: script,
 			})
 
-			if !isAddressFunded(ctAddress, blindKey.Serialize(), w.explorerService) {
+			funded, err := isAddressFunded(
+				ctAddress, blindKey.Serialize(), w.explorerService,
+			)
+			if err != nil {
+				return nil, err
+			}
+			if !funded {
 				if firstUnusedAddress < 0 {
 					firstUnusedAddress = i
 				}
@@ -666,33 +678,36 @@ func (w *walletService) restoreAccount(
 
 	if lastDerivedIndex.external < 0 && lastDerivedIndex.internal < 0 {
 		log.Debugf("account %d empty", accountIndex)
-		return nil
+		return nil, nil
 	}
 	log.Debugf(
 		"account %d total fetched addresses: %d",
 		accountIndex, lastDerivedIndex.total(),
 	)
-	return lastDerivedIndex
+	return lastDerivedIndex, nil
 }
 
 func (w *walletService) restoreMarketAccounts(
 	ww *wallet.Wallet,
-) []*accountLastDerivedIndex {
+) ([]*accountLastDerivedIndex, error) {
 	marketsLastIndex := make([]*accountLastDerivedIndex, 0)
 	i := 0
 	for {
 		marketIndex := domain.MarketAccountStart + i
-		lastDerivedIndex := w.restoreAccount(
+		lastDerivedIndex, err := w.restoreAccount(
 			ww,
 			marketIndex,
 		)
+		if err != nil {
+			return nil, err
+		}
 		if lastDerivedIndex == nil {
 			break
 		}
 		marketsLastIndex = append(marketsLastIndex, lastDerivedIndex)
 		i++
 	}
-	return marketsLastIndex
+	return marketsLastIndex, nil
 }
 
 func (w *walletService) restoreMarket(
@@ -1234,13 +1249,16 @@ func initVaultAccount(
 	return addresses, nil
 }
 
-func isAddressFunded(addr string, blindKey []byte, explorerSvc explorer.Service) bool {
+func isAddressFunded(
+	addr string,
+	blindKey []byte,
+	explorerSvc explorer.Service,
+) (bool, error) {
 	txs, err := explorerSvc.GetTransactionsForAddress(addr, blindKey)
 	if err != nil {
-		// should we retry?
-		return false
+		return false, err
 	}
-	return len(txs) > 0
+	return len(txs) > 0, nil
 }
 
 func getBalancesByAsset(unspents []explorer.Utxo) map[string]BalanceInfo {
-- 
2.43.0


From 3e3e59ae83d82db96bde63d07e51853a67be4238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 37/62] fix: markets without the funds of a pair do not prevent
 the restore

---
 internal/core/application/wallet_service.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 107f6bd..8213bf7 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -250,12 +250,7 @@ func (w *walletService) InitWallet(
 		markets := make([]*domain.Market, mLen, mLen)
 		i := 0
 		for accountIndex, info := range marketInfoByAccount {
-			market, err := w.restoreMarket(accountIndex, info, unspentsByAddress)
-			if err != nil {
-				chErr <- fmt.Errorf("unable to restore market: %v", err)
-				return
-			}
-			markets[i] = market
+			markets[i] = w.restoreMarket(accountIndex, info, unspentsByAddress)
 			i++
 		}
 
@@ -714,7 +709,7 @@ func (w *walletService) restoreMarket(
 	accountIndex int,
 	info domain.AddressesInfo,
 	unspentsByAddress map[string][]domain.Unspent,
-) (*domain.Market, error) {
+) *domain.Market {
 	market := &domain.Market{AccountIndex: accountIndex, Fee: w.marketFee}
 
 	if len(unspentsByAddress) > 0 {
@@ -726,12 +721,14 @@ func (w *walletService) restoreMarket(
 			}
 		}
 
+		// the funds of a market account may not be (anymore) those of a pair. In
+		// this case the market is restored as not funded.
 		if err := market.FundMarket(outpoints, w.marketBaseAsset); err != nil {
-			return nil, err
+			log.WithError(err).Warnf("market with account %d not funded", accountIndex)
 		}
 	}
 
-	return market, nil
+	return market
 }
 
 func (w *walletService) persistRestoredState(
-- 
2.43.0


From 0d508a4bea3c52bffa7957e17373e8fd5f87dcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 38/62] fix: errors of a trade proposal are returned to the
 trader

---
 pkg/trade/buy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/trade/buy.go b/pkg/trade/buy.go
index 75f6891..8ea6083 100644
--- a/pkg/trade/buy.go
+++ b/pkg/trade/buy.go
@@ -193,6 +193,9 @@ func (t *Trade) marketOrderRequest(
 		SwapRequest: swapRequestMsg,
 		TradeType:   tradeType,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	if fail := reply.GetSwapFail(); fail != nil {
 		return nil, fmt.Errorf("trade proposal has been rejected for reason: %s", fail.GetFailureMessage())
-- 
2.43.0


From ef0ac0035d8efb0c22f5979e2f527b28c34211d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 39/62] fix: replies of a provider lacking prices or prevouts
 do not crash the trader

---
 pkg/trade/preview.go | 5 +++++
 pkg/trade/wallet.go  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/trade/preview.go b/pkg/trade/preview.go
index c2d7d18..015c53b 100644
--- a/pkg/trade/preview.go
+++ b/pkg/trade/preview.go
@@ -18,6 +18,8 @@ var (
 	ErrInvalidTradeType = errors.New("trade type must be either BUY or SELL")
 	// ErrInvalidAmount ...
 	ErrInvalidAmount = errors.New("amount must be a positive satoshi amount")
+	// ErrMissingPreview ...
+	ErrMissingPreview = errors.New("provider returned no price for the market")
 )
 
 // PreviewOpts is the struct given to Preview method
@@ -69,6 +71,9 @@ func (t *Trade) Preview(opts PreviewOpts) (*PreviewResult, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(reply.GetPrices()) <= 0 {
+		return nil, ErrMissingPreview
+	}
 	preview := reply.GetPrices()[0]
 
 	assetToSend := preview.GetAsset()
diff --git a/pkg/trade/wallet.go b/pkg/trade/wallet.go
index ffcb7a7..9b9ab46 100644
--- a/pkg/trade/wallet.go
+++ b/pkg/trade/wallet.go
@@ -113,7 +113,7 @@ func (w *Wallet) Sign(psetBase64 string) (string, error) {
 
 	for i, in := range ptx.Inputs {
 		script, witnessScript := w.Script()
-		if bytes.Equal(in.WitnessUtxo.Script, witnessScript) {
+		if in.WitnessUtxo != nil && bytes.Equal(in.WitnessUtxo.Script, witnessScript) {
 			hashForSignature := ptx.UnsignedTx.HashForWitnessV0(
 				i,
 				script,
-- 
2.43.0


From 14534b8dc323f5b97b030eecc16a4ce1a3689223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:56 +0000
Subject: [PATCH 40/62] fix: password change of the secure store is atomic and
 keeps all its data

---
 pkg/securestore/bolt/store.go | 151 ++++++++++++----------------------
 1 file changed, 53 insertions(+), 98 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index 6a85c2a..c40bf76 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -2,10 +2,8 @@ package boltsecurestore
 
 import (
 	"bytes"
-	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
 	"sync"
 
 	"github.com/btcsuite/btcwallet/snacl"
@@ -152,9 +150,10 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 		return err
 	}
 
-	// Check that old password is correct.
-	if err := kvdb.View(s.db, func(tx kvdb.RTx) error {
-		bucket := tx.ReadBucket(RootKeyBucketName)
+	// Everything is done in one transaction, so that the DB is never left with
+	// data encrypted partly with the old and partly with the new password.
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
 		}
@@ -170,32 +169,26 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 			return err
 		}
 
-		return encKeyOld.DeriveKey(&oldPw)
-	}, func() {}); err != nil {
-		return err
-	}
-
-	// Efficiently decrypt DB with old password and encrypt is again with the
-	// new one.
-	if err := s.updateEncryptedDb(encKeyNew); err != nil {
-		return err
-	}
-
-	// Finally, store the new encryption key parameters in the DB
-	// as well.
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
-		bucket := tx.ReadWriteBucket(RootKeyBucketName)
-		if bucket == nil {
-			return ErrRootKeyBucketNotFound
+		// Check that old password is correct.
+		if err := encKeyOld.DeriveKey(&oldPw); err != nil {
+			return err
 		}
 
-		if err := bucket.Put(encryptionKeyID, encKeyNew.Marshal()); err != nil {
+		// Decrypt the data of all buckets with the old key and encrypt it again
+		// with the new one.
+		if err := updateEncryptedBucket(bucket, encKeyOld, encKeyNew); err != nil {
 			return err
 		}
 
-		s.encKey = encKeyNew
-		return nil
-	}, func() {})
+		// Finally, store the new encryption key parameters in the DB
+		// as well.
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
+	}, func() {}); err != nil {
+		return err
+	}
+
+	s.encKey = encKeyNew
+	return nil
 }
 
 // CreateBucket creates a nested bucket into the root one.
@@ -440,84 +433,46 @@ func (s *boltSecureStorage) RemoveBucket(key []byte) error {
 	}, func() {})
 }
 
-type bucketData struct {
-	bucketKey []byte
-	data      map[string][]byte
-	err       error
-}
-
-func (s *boltSecureStorage) updateEncryptedDb(newKey *snacl.SecretKey) error {
-	buckets, err := s.ListBuckets()
-	if err != nil {
+// updateEncryptedBucket encrypts with the new key all values of the given
+// bucket and of those nested into it.
+func updateEncryptedBucket(
+	bucket walletdb.ReadWriteBucket, oldKey, newKey *snacl.SecretKey,
+) error {
+	var nested [][]byte
+	values := make(map[string][]byte)
+	if err := bucket.ForEach(func(k, v []byte) error {
+		if v == nil {
+			nested = append(nested, append([]byte{}, k...))
+			return nil
+		}
+		if bytes.Equal(k, encryptionKeyID) {
+			return nil
+		}
+		value, err := oldKey.Decrypt(v)
+		if err != nil {
+			return err
+		}
+		encryptedValue, err := newKey.Encrypt(value)
+		if err != nil {
+			return err
+		}
+		values[string(k)] = encryptedValue
+		return nil
+	}); err != nil {
 		return err
 	}
-	// nil key is used for the top level bucket
-	buckets = append(buckets, nil)
-
-	wg := &sync.WaitGroup{}
-	wg.Add(len(buckets))
-	chData := make(chan bucketData)
 
-	go func() {
-		wg.Wait()
-		close(chData)
-	}()
-
-	for _, bucketKey := range buckets {
-		go s.getAllFromBucket(bucketKey, wg, chData)
-	}
-
-	allBucketData := make(map[string][]byte)
-	for d := range chData {
-		if d.err != nil {
+	for k, v := range values {
+		if err := bucket.Put([]byte(k), v); err != nil {
 			return err
 		}
-
-		for k, v := range d.data {
-			key := fmt.Sprintf("%s_%s", string(d.bucketKey), k)
-			allBucketData[key] = v
-		}
 	}
-
-	wg = &sync.WaitGroup{}
-	wg.Add(len(allBucketData))
-
-	for k := range allBucketData {
-		k := k
-		v := allBucketData[k]
-		go func() {
-			defer wg.Done()
-			kk := strings.Split(k, "_")
-			bucketKey := []byte(kk[0])
-			key := []byte(kk[1])
-
-			kvdb.Batch(s.db, func(tx kvdb.RwTx) error {
-				bucket := tx.ReadWriteBucket(RootKeyBucketName)
-				if len(bucketKey) > 0 {
-					bucket = bucket.NestedReadWriteBucket(bucketKey)
-				}
-
-				encryptedValue, _ := newKey.Encrypt(v)
-				bucket.Put(key, encryptedValue)
-				return nil
-			})
-		}()
+	for _, k := range nested {
+		if err := updateEncryptedBucket(
+			bucket.NestedReadWriteBucket(k), oldKey, newKey,
+		); err != nil {
+			return err
+		}
 	}
-
-	wg.Wait()
-
 	return nil
 }
-
-func (s *boltSecureStorage) getAllFromBucket(
-	key []byte, wg *sync.WaitGroup, chData chan bucketData,
-) {
-	defer wg.Done()
-
-	data, err := s.GetAllFromBucket(key)
-	if err != nil {
-		chData <- bucketData{err: err}
-		return
-	}
-	chData <- bucketData{bucketKey: key, data: data}
-}
-- 
2.43.0


From 4ae0804402b9d48a6052dffe50ef4908dfe3ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:56 +0000
Subject: [PATCH 41/62] fix: macaroons of any root key survive a change of
 password

---
 pkg/macaroons/store.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/pkg/macaroons/store.go b/pkg/macaroons/store.go
index 64b55dc..6862cd0 100644
--- a/pkg/macaroons/store.go
+++ b/pkg/macaroons/store.go
@@ -186,21 +186,32 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 			return err
 		}
 
-		// Now try to decrypt the root key with the old encryption key,
-		// encrypt it with the new one and then store it in the DB.
-		decryptedKey, err := encKeyOld.Decrypt(rootKeyDb)
-		if err != nil {
-			return err
-		}
-		rootKey := make([]byte, len(decryptedKey))
-		copy(rootKey, decryptedKey)
-		encryptedKey, err := encKeyNew.Encrypt(rootKey)
+		// Now try to decrypt all root keys with the old encryption key,
+		// encrypt them with the new one and then store them in the DB.
+		encryptedKeys := make(map[string][]byte)
+		err = bucket.ForEach(func(id, rootKeyDb []byte) error {
+			if bytes.Equal(id, encryptionKeyID) {
+				return nil
+			}
+			rootKey, err := encKeyOld.Decrypt(rootKeyDb)
+			if err != nil {
+				return err
+			}
+			encryptedKey, err := encKeyNew.Encrypt(rootKey)
+			if err != nil {
+				return err
+			}
+			encryptedKeys[string(id)] = encryptedKey
+			return nil
+		})
 		if err != nil {
 			return err
 		}
-		err = bucket.Put(DefaultRootKeyID, encryptedKey)
-		if err != nil {
-			return err
+		for id, encryptedKey := range encryptedKeys {
+			err = bucket.Put([]byte(id), encryptedKey)
+			if err != nil {
+				return err
+			}
 		}
 
 		// Finally, store the new encryption key parameters in the DB
@@ -383,7 +394,9 @@ func (r *RootKeyStorage) ListMacaroonIDs(_ context.Context) ([][]byte, error) {
 		appendRootKey := func(k, _ []byte) error {
 			// Only append when the key value is not encryptedKeyID.
 			if !bytes.Equal(k, encryptionKeyID) {
-				rootKeySlice = append(rootKeySlice, k)
+				rootKeySlice = append(
+					rootKeySlice, append([]byte{}, k...),
+				)
 			}
 			return nil
 		}
-- 
2.43.0


From 5fe11a5d515b2992e68275f8bafcdb8eac208f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 42/62] fix: the market fee report can be called with a
 macaroon

---
 internal/interfaces/grpc/permissions/permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/interfaces/grpc/permissions/permissions.go b/internal/interfaces/grpc/permissions/permissions.go
index ac9b9fa..5634b40 100644
--- a/internal/interfaces/grpc/permissions/permissions.go
+++ b/internal/interfaces/grpc/permissions/permissions.go
@@ -247,6 +247,10 @@ func AllPermissionsByMethod() map[string][]bakery.Op {
 			Entity: EntityMarket,
 			Action: "read",
 		}},
+		"/Operator/ReportMarketFee": {{
+			Entity: EntityMarket,
+			Action: "read",
+		}},
 		"/Operator/DropMarket": {{
 			Entity: EntityMarket,
 			Action: "write",
-- 
2.43.0


From b731f771705d3f6faae76f217ee4448348f362dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 43/62] fix: do not start without authentication if the
 macaroons cannot be used

---
 internal/interfaces/grpc/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 24e7206..6b25103 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -179,9 +179,13 @@ func NewService(opts ServiceOpts) (interfaces.Service, error) {
 
 	var macaroonSvc *macaroons.Service
 	if !opts.NoMacaroons {
-		macaroonSvc, _ = macaroons.NewService(
+		var err error
+		macaroonSvc, err = macaroons.NewService(
 			opts.dbDatadir(), Location, DBFile, false, macaroons.IPLockChecker,
 		)
+		if err != nil {
+			return nil, fmt.Errorf("failed to open macaroon service: %s", err)
+		}
 		if err := generateOperatorTLSKeyCert(
 			opts.tlsDatadir(), opts.OperatorExtraIPs, opts.OperatorExtraDomains,
 		); err != nil {
-- 
2.43.0


From a1bfad5328d6b2814f60dfebdb8ba9d18052912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:01 +0000
Subject: [PATCH 44/62] fix: macaroons can be used after the password of the
 wallet is changed

---
 internal/interfaces/grpc/service.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 6b25103..0f84d36 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -300,6 +300,15 @@ func (s *service) startListeningToPassphraseChan() {
 			case application.ChangePassphrase:
 				currentPwd := []byte(msg.CurrentPwd)
 				newPwd := []byte(msg.NewPwd)
+				// The wallet must be locked in order to change its password, and so is
+				// the macaroon store in such case.
+				if err := s.macaroonSvc.CreateUnlock(&currentPwd); err != nil {
+					if err != macaroons.ErrAlreadyUnlocked {
+						log.WithError(err).Warn(
+							"an error occured while unlocking macaroon service",
+						)
+					}
+				}
 				if err := s.macaroonSvc.ChangePassword(currentPwd, newPwd); err != nil {
 					log.WithError(err).Warn(
 						"an error occured while changing password of macaroon service",
-- 
2.43.0


From 277174a5e302664afad94d33f4ec41d3ddd34136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 45/62] fix: webhooks are not lost when added and removed
 concurrently or if the store fails

---
 .../infrastructure/pubsub/webhook/service.go  | 71 +++++++++++++------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index c3f30d5..d790d7a 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/dgrijalva/jwt-go"
 	"github.com/sony/gobreaker"
@@ -18,6 +19,10 @@ type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
 	cb         *gobreaker.CircuitBreaker
+
+	// lock protects the list of hooks by action, updated by reading it, changing
+	// it and writing it back.
+	lock *sync.RWMutex
 }
 
 func NewWebhookPubSubService(
@@ -35,6 +40,7 @@ func NewWebhookPubSubService(
 		store:      webhookStore{store},
 		httpClient: httpClient,
 		cb:         circuitbreaker.NewCircuitBreaker(),
+		lock:       &sync.RWMutex{},
 	}, nil
 }
 
@@ -109,6 +115,9 @@ func (ws *webhookService) TopicsByLabel() map[string]ports.Topic {
 // NOTE: The generation of the hook ID can be assumed enough random to infer
 // that if 2 hooks have the same id, then they are the same.
 func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
+	ws.lock.Lock()
+	defer ws.lock.Unlock()
+
 	hookID := []byte(hook.ID)
 	hh, err := ws.store.db().GetFromBucket(hooksBucket, hookID)
 	if err != nil {
@@ -122,7 +131,10 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 	if err := ws.store.db().AddToBucket(hooksBucket, hookID, hook.Serialize()); err != nil {
 		return "", err
 	}
-	ws.addHookByAction(hook)
+	if err := ws.addHookByAction(hook); err != nil {
+		ws.store.db().RemoveFromBucket(hooksBucket, hookID)
+		return "", err
+	}
 	return hook.ID, nil
 }
 
@@ -130,6 +142,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 // managed by the handler. Nothing is done in case the hook does not actually
 // exist in the handler's store.db().
 func (ws *webhookService) removeWebhook(hookID string) error {
+	ws.lock.Lock()
+	defer ws.lock.Unlock()
+
 	buf, err := ws.store.db().GetFromBucket(hooksBucket, []byte(hookID))
 	if err != nil {
 		return err
@@ -138,13 +153,14 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 		return nil
 	}
 
-	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
+	hook, err := NewWebhookFromBytes(buf)
+	if err != nil {
 		return err
 	}
-
-	hook, _ := NewWebhookFromBytes(buf)
-	ws.removeHookByAction(hook)
-	return nil
+	if err := ws.removeHookByAction(hook); err != nil {
+		return err
+	}
+	return ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID))
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
@@ -179,18 +195,24 @@ func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, mess
 	return eg.Wait()
 }
 
-func (ws *webhookService) addHookByAction(hook *Webhook) {
+func (ws *webhookService) addHookByAction(hook *Webhook) error {
 	key := []byte{byte(hook.ActionType)}
-	hooks := ws.getSerializedHooks(hook.ActionType)
+	hooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 	hooks = append(hooks, hook.Serialize())
 	updatedHooks := bytes.Join(hooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
-func (ws *webhookService) removeHookByAction(hook *Webhook) {
-	rawHooks := ws.getSerializedHooks(hook.ActionType)
+func (ws *webhookService) removeHookByAction(hook *Webhook) error {
+	rawHooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 
-	var index int
+	index := -1
 	for i, buf := range rawHooks {
 		hh, _ := NewWebhookFromBytes(buf)
 		if hh.ID == hook.ID {
@@ -199,20 +221,26 @@ func (ws *webhookService) removeHookByAction(hook *Webhook) {
 		}
 	}
 
+	if index < 0 {
+		return nil
+	}
+
 	key := []byte{byte(hook.ActionType)}
 	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
 
 	if len(rawHooks) <= 0 {
-		ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
-		return
+		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
 	}
 
 	updatedHooks := bytes.Join(rawHooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
 func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook {
-	rawHooks := ws.getSerializedHooks(actionType)
+	ws.lock.RLock()
+	defer ws.lock.RUnlock()
+
+	rawHooks, _ := ws.getSerializedHooks(actionType)
 	hooks := make([]*Webhook, 0, len(rawHooks))
 	for _, buf := range rawHooks {
 		hook, _ := NewWebhookFromBytes(buf)
@@ -221,13 +249,16 @@ func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook
 	return hooks
 }
 
-func (ws *webhookService) getSerializedHooks(actionType WebhookAction) [][]byte {
+func (ws *webhookService) getSerializedHooks(actionType WebhookAction) ([][]byte, error) {
 	key := []byte{byte(actionType)}
-	hooks, _ := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	hooks, err := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	if err != nil {
+		return nil, err
+	}
 	if len(hooks) <= 0 {
-		return nil
+		return nil, nil
 	}
-	return bytes.Split(hooks, separator)
+	return bytes.Split(hooks, separator), nil
 }
 
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-- 
2.43.0


From de08d06db5c88b44e5f33c5238f2b3c57f9e4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 46/62] fix: a failing webhook does not prevent the others from
 being invoked

---
 .../infrastructure/pubsub/webhook/service.go  | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index d790d7a..956695b 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -18,7 +18,10 @@ import (
 type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
-	cb         *gobreaker.CircuitBreaker
+	// every hook has its own circuit breaker, so that an endpoint that keeps
+	// failing does not prevent the others from being invoked.
+	cbByHook map[string]*gobreaker.CircuitBreaker
+	cbLock   *sync.Mutex
 
 	// lock protects the list of hooks by action, updated by reading it, changing
 	// it and writing it back.
@@ -39,7 +42,8 @@ func NewWebhookPubSubService(
 	return &webhookService{
 		store:      webhookStore{store},
 		httpClient: httpClient,
-		cb:         circuitbreaker.NewCircuitBreaker(),
+		cbByHook:   make(map[string]*gobreaker.CircuitBreaker),
+		cbLock:     &sync.Mutex{},
 		lock:       &sync.RWMutex{},
 	}, nil
 }
@@ -160,7 +164,14 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 	if err := ws.removeHookByAction(hook); err != nil {
 		return err
 	}
-	return ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID))
+	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
+		return err
+	}
+
+	ws.cbLock.Lock()
+	defer ws.cbLock.Unlock()
+	delete(ws.cbByHook, hookID)
+	return nil
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
@@ -261,8 +272,20 @@ func (ws *webhookService) getSerializedHooks(actionType WebhookAction) ([][]byte
 	return bytes.Split(hooks, separator), nil
 }
 
+func (ws *webhookService) circuitBreaker(hook *Webhook) *gobreaker.CircuitBreaker {
+	ws.cbLock.Lock()
+	defer ws.cbLock.Unlock()
+
+	cb, ok := ws.cbByHook[hook.ID]
+	if !ok {
+		cb = circuitbreaker.NewCircuitBreaker()
+		ws.cbByHook[hook.ID] = cb
+	}
+	return cb
+}
+
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-	_, err := ws.cb.Execute(func() (interface{}, error) {
+	_, err := ws.circuitBreaker(hook).Execute(func() (interface{}, error) {
 		headers := map[string]string{
 			"Content-Type": "application/json",
 		}
-- 
2.43.0


From f3c2a765681fa06c7abde493495f7e04d5bde5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 47/62] fix: webhooks survive a change of password and are
 available right after unlock

---
 internal/core/application/wallet_service.go | 86 +++++++++++----------
 1 file changed, 44 insertions(+), 42 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 8213bf7..6d7c6d7 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -265,16 +265,14 @@ func (w *walletService) InitWallet(
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().Init(
-				passphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while initializing pubsub service. " +
-						"Pubsub not available for the current session.",
-				)
-			}
-		}()
+		if err := w.blockchainListener.PubSubService().Store().Init(
+			passphrase,
+		); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while initializing pubsub service. " +
+					"Pubsub not available for the current session.",
+			)
+		}
 	}
 
 	w.pwChan <- PassphraseMsg{
@@ -324,29 +322,7 @@ func (w *walletService) UnlockWallet(
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			// For backward compatibility, check if the pubsub store has been
-			// initialized by wallet.Init, otherwise it is initialized before being
-			// unlocked here.
-			if w.blockchainListener.PubSubService().Store().IsLocked() {
-				if err := w.blockchainListener.PubSubService().Store().Init(
-					passphrase,
-				); err != nil {
-					log.WithError(err).Warn(
-						"an error occured while initializing pubsub service. " +
-							"Pubsub not available for the current session.",
-					)
-					return
-				}
-			}
-			if err := w.blockchainListener.PubSubService().Store().Unlock(
-				passphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while unlocking pubsub internal store",
-				)
-			}
-		}()
+		w.unlockPubSub(passphrase)
 	}
 
 	w.pwChan <- PassphraseMsg{
@@ -389,15 +365,20 @@ func (w *walletService) ChangePassword(
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().ChangePassword(
-				currentPassphrase, newPassphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while updating pubsub service password",
-				)
-			}
-		}()
+		// The wallet must be locked in order to change its password, and so is
+		// the pubsub store in such case.
+		store := w.blockchainListener.PubSubService().Store()
+		if store.IsLocked() {
+			w.unlockPubSub(currentPassphrase)
+			defer store.Lock()
+		}
+		if err := store.ChangePassword(
+			currentPassphrase, newPassphrase,
+		); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while updating pubsub service password",
+			)
+		}
 	}
 
 	w.pwChan <- PassphraseMsg{
@@ -409,6 +390,27 @@ func (w *walletService) ChangePassword(
 	return nil
 }
 
+// unlockPubSub unlocks the internal store of the pubsub service.
+// For backward compatibility, it checks if the store has been initialized by
+// wallet.Init, otherwise it is initialized before being unlocked here.
+func (w *walletService) unlockPubSub(passphrase string) {
+	store := w.blockchainListener.PubSubService().Store()
+	if store.IsLocked() {
+		if err := store.Init(passphrase); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while initializing pubsub service. " +
+					"Pubsub not available for the current session.",
+			)
+			return
+		}
+	}
+	if err := store.Unlock(passphrase); err != nil {
+		log.WithError(err).Warn(
+			"an error occured while unlocking pubsub internal store",
+		)
+	}
+}
+
 func (w *walletService) PassphraseChan() chan PassphraseMsg {
 	return w.pwChan
 }
-- 
2.43.0


From e0d8df78ad81fbd14bb978c13750b32d0e4c8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:17 +0000
Subject: [PATCH 48/62] fix: the settlement of a trade is published once

---
 internal/core/application/blockchain_listener.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 788dd6b..a41bd9d 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -181,6 +181,8 @@ func (b *blockchainListener) listenToEventChannel() {
 				break
 			}
 
+			// The same event may come more than once.
+			alreadySettled := trade.IsSettled()
 			if err := b.settleTrade(&trade.ID, e); err != nil {
 				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
 				break
@@ -191,7 +193,7 @@ func (b *blockchainListener) listenToEventChannel() {
 			}
 
 			// Publish message for topic TradeSettled to pubsub service.
-			if b.pubsubSvc != nil {
+			if b.pubsubSvc != nil && !alreadySettled {
 				go func() {
 					ctx := context.Background()
 					mkt, mktAccount, err := b.repoManager.MarketRepository().GetMarketByAsset(
-- 
2.43.0


From c1eb3330c1520709b259c19c8c1f9a0116090d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 49/62] fix: prices that are not finite numbers are refused
 instead of crashing the daemon

---
 internal/interfaces/grpc/handler/operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/interfaces/grpc/handler/operator.go b/internal/interfaces/grpc/handler/operator.go
index 5a4e361..f09a0cb 100644
--- a/internal/interfaces/grpc/handler/operator.go
+++ b/internal/interfaces/grpc/handler/operator.go
@@ -3,6 +3,7 @@ package grpchandler
 import (
 	"context"
 	"errors"
+	"math"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -850,6 +851,11 @@ func validatePrice(price *pbtypes.Price) error {
 	if price.GetBasePrice() <= 0 || price.GetQuotePrice() <= 0 {
 		return errors.New("base or quote price are too low")
 	}
+	for _, p := range []float32{price.GetBasePrice(), price.GetQuotePrice()} {
+		if math.IsNaN(float64(p)) || math.IsInf(float64(p), 0) {
+			return errors.New("base or quote price is not a number")
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From c2fc151e1d1d8e65d4a863707581abafa2401698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 50/62] fix: completing a trade without any message is refused
 instead of crashing the daemon

---
 internal/interfaces/grpc/handler/trade.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/interfaces/grpc/handler/trade.go b/internal/interfaces/grpc/handler/trade.go
index e39ed13..9e15088 100644
--- a/internal/interfaces/grpc/handler/trade.go
+++ b/internal/interfaces/grpc/handler/trade.go
@@ -273,6 +273,12 @@ func (t traderHandler) tradeComplete(
 	req *pb.TradeCompleteRequest,
 	stream pb.Trade_TradeCompleteServer,
 ) error {
+	if req.GetSwapComplete() == nil && req.GetSwapFail() == nil {
+		return status.Error(
+			codes.InvalidArgument, "swap complete and swap fail are null",
+		)
+	}
+
 	var swapCompletePtr *domain.SwapComplete
 	var swapComplete domain.SwapComplete
 	if s := req.SwapComplete; s != nil {
-- 
2.43.0


From 5ee16b64129f32981491b493e4d3a44b909ebbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:35 +0000
Subject: [PATCH 51/62] fix: a deposit with a huge number of addresses is
 refused instead of crashing the daemon

---
 internal/core/application/constants.go        | 4 ++++
 internal/core/application/errors.go           | 3 +++
 internal/core/application/operator_service.go | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/internal/core/application/constants.go b/internal/core/application/constants.go
index d0118c0..0250e9c 100644
--- a/internal/core/application/constants.go
+++ b/internal/core/application/constants.go
@@ -25,3 +25,7 @@ const (
 	AccountLowBalance
 	AccountWithdraw
 )
+
+// MaxNumOfAddresses is the max number of addresses that can be derived for a
+// single deposit.
+const MaxNumOfAddresses = 10000
diff --git a/internal/core/application/errors.go b/internal/core/application/errors.go
index a6defee..29a2b28 100644
--- a/internal/core/application/errors.go
+++ b/internal/core/application/errors.go
@@ -3,6 +3,9 @@ package application
 import "errors"
 
 var (
+	// ErrTooManyAddresses is returned if the addresses asked for a deposit are
+	// more than MaxNumOfAddresses
+	ErrTooManyAddresses = errors.New("too many addresses")
 	// ErrFeeAccountNotFunded ...
 	ErrFeeAccountNotFunded = errors.New("fee account not funded")
 	// ErrUnknownStrategy ...
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e6600b2..516629a 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -240,6 +240,9 @@ func (o *operatorService) deriveAddresses(
 	ctx context.Context,
 	accountIndex, numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
+	if numOfAddresses > MaxNumOfAddresses {
+		return nil, ErrTooManyAddresses
+	}
 	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
 	if err := o.repoManager.VaultRepository().UpdateVault(
 		ctx,
-- 
2.43.0


From 8a8ee2cdd7d08755b51d9769e85038ef3da15d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 52/62] fix: a request that panics its handler fails instead of
 crashing the daemon

---
 .../grpc/interceptor/interceptor.go           |  2 +
 .../interfaces/grpc/interceptor/recovery.go   | 50 +++++++++++++++++++
 2 files changed, 52 insertions(+)
 create mode 100644 internal/interfaces/grpc/interceptor/recovery.go

diff --git a/internal/interfaces/grpc/interceptor/interceptor.go b/internal/interfaces/grpc/interceptor/interceptor.go
index 8741b43..04d9d73 100644
--- a/internal/interfaces/grpc/interceptor/interceptor.go
+++ b/internal/interfaces/grpc/interceptor/interceptor.go
@@ -10,6 +10,7 @@ import (
 func UnaryInterceptor(svc *macaroons.Service) grpc.ServerOption {
 	return grpc.UnaryInterceptor(
 		middleware.ChainUnaryServer(
+			unaryRecovery,
 			unaryMacaroonAuthHandler(svc),
 			unaryLogger,
 		),
@@ -20,6 +21,7 @@ func UnaryInterceptor(svc *macaroons.Service) grpc.ServerOption {
 func StreamInterceptor(svc *macaroons.Service) grpc.ServerOption {
 	return grpc.StreamInterceptor(
 		middleware.ChainStreamServer(
+			streamRecovery,
 			streamMacaroonAuthHandler(svc),
 			streamLogger,
 		),
diff --git a/internal/interfaces/grpc/interceptor/recovery.go b/internal/interfaces/grpc/interceptor/recovery.go
new file mode 100644
index 0000000..da1b5f5
--- /dev/null
+++ b/internal/interfaces/grpc/interceptor/recovery.go
@@ -0,0 +1,50 @@
+package interceptor
+
+import (
+	"context"
+	"runtime/debug"
+
+	log "github.com/sirupsen/logrus"
+	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
+)
+
+// unaryRecovery makes a request that cannot be handled without panicking, like
+// those with transactions or addresses that make their decoders panic, fail
+// instead of taking the daemon down.
+func unaryRecovery(
+	ctx context.Context,
+	req interface{},
+	info *grpc.UnaryServerInfo,
+	handler grpc.UnaryHandler,
+) (res interface{}, err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			res, err = nil, recoveryError(info.FullMethod, rec)
+		}
+	}()
+
+	return handler(ctx, req)
+}
+
+// streamRecovery does the same for streams.
+func streamRecovery(
+	srv interface{},
+	stream grpc.ServerStream,
+	info *grpc.StreamServerInfo,
+	handler grpc.StreamHandler,
+) (err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			err = recoveryError(info.FullMethod, rec)
+		}
+	}()
+
+	return handler(srv, stream)
+}
+
+func recoveryError(method string, rec interface{}) error {
+	log.Errorf("%s panicked: %v\n%s", method, rec, debug.Stack())
+	return status.Error(codes.Internal, "the request could not be handled")
+}
-- 
2.43.0


From cf041bec4339ffd48bc1ab083b0394b6b9d3324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:18 +0000
Subject: [PATCH 53/62] fix: a failed wallet initialization is always reported
 and does not hang if the client is gone

---
 internal/interfaces/grpc/handler/wallet.go | 33 +++++++++++-----------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/internal/interfaces/grpc/handler/wallet.go b/internal/interfaces/grpc/handler/wallet.go
index 51b3e73..b17354c 100644
--- a/internal/interfaces/grpc/handler/wallet.go
+++ b/internal/interfaces/grpc/handler/wallet.go
@@ -115,24 +115,25 @@ func (w walletHandler) initWallet(
 		chErr,
 	)
 
-	for {
-		select {
-		case err := <-chErr:
-			return err
-		case reply, ok := <-chReplies:
-			if !ok {
-				return nil
-			}
-			if err := stream.Send(&pb.InitWalletReply{
-				Account: uint64(reply.AccountIndex),
-				Index:   uint64(reply.AddressIndex),
-				Status:  pb.InitWalletReply_Status(reply.Status),
-				Data:    reply.Data,
-			}); err != nil {
-				return err
-			}
+	// the replies must be consumed until the end even if the client is gone,
+	// otherwise the service would be stuck forever. Once they are over, the
+	// error, if any, is available.
+	var sendErr error
+	for reply := range chReplies {
+		if sendErr != nil {
+			continue
 		}
+		sendErr = stream.Send(&pb.InitWalletReply{
+			Account: uint64(reply.AccountIndex),
+			Index:   uint64(reply.AddressIndex),
+			Status:  pb.InitWalletReply_Status(reply.Status),
+			Data:    reply.Data,
+		})
 	}
+	if err := <-chErr; err != nil {
+		return err
+	}
+	return sendErr
 }
 
 func (w walletHandler) unlockWallet(
-- 
2.43.0


From 79d2f35396c1b111fea259541b84f0ac825e8dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:23 +0000
Subject: [PATCH 54/62] fix: the crawler keeps checking what it observes after
 a failure of the explorer

---
 pkg/crawler/observable.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index 2add166..2bb7811 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -50,6 +50,9 @@ func (a *AddressObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// whatever the outcome, the observable must be checked again later.
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -64,8 +67,6 @@ func (a *AddressObservable) Observe(
 	}
 	unspents := iUnspents.([]explorer.Utxo)
 
-	observableStatus.Set(Processed)
-
 	var eventType EventType
 	switch a.AccountIndex {
 	case domain.FeeAccount:
@@ -111,6 +112,9 @@ func (t *TransactionObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// whatever the outcome, the observable must be checked again later.
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -130,13 +134,13 @@ func (t *TransactionObservable) Observe(
 		iTxHex, err := t.cb.Execute(func() (interface{}, error) {
 			return explorerSvc.GetTransactionHex(t.TxID)
 		})
-		if err == nil {
-			t.TxHex = iTxHex.(string)
+		if err != nil {
+			errChan <- err
+			return
 		}
+		t.TxHex = iTxHex.(string)
 	}
 
-	observableStatus.Set(Processed)
-
 	var confirmed bool
 	var blockHash string
 	var blockTime float64
-- 
2.43.0


From ed9e83f90efae541d02568a94c7d09f1af9b34a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:23 +0000
Subject: [PATCH 55/62] fix: removing observables or stopping the crawler
 neither panics nor deadlocks

---
 pkg/crawler/observable.go | 80 +++++++++++++++++++++++++++++++--------
 pkg/crawler/service.go    | 22 +++++++++--
 2 files changed, 83 insertions(+), 19 deletions(-)

diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index 2bb7811..772b5f5 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -215,7 +215,7 @@ type observableHandler struct {
 	ticker           *time.Ticker
 	eventChan        chan Event
 	errChan          chan error
-	stopChan         chan int
+	stopChan         chan struct{}
 	observableStatus *observableStatus
 	rateLimiter      *rate.Limiter
 }
@@ -230,7 +230,7 @@ func newObservableHandler(
 	rateLimiter *rate.Limiter,
 ) *observableHandler {
 	ticker := time.NewTicker(interval)
-	stopChan := make(chan int, 1)
+	stopChan := make(chan struct{})
 
 	return &observableHandler{
 		observable,
@@ -246,32 +246,82 @@ func newObservableHandler(
 }
 
 func (oh *observableHandler) start() {
+	defer oh.wg.Done()
+	defer oh.ticker.Stop()
+
 	oh.logAction("start")
-	oh.wg.Add(1)
 	for {
 		select {
 		case <-oh.ticker.C:
-			if oh.observableStatus.Get() != Waiting {
-				oh.observable.Observe(
-					oh.explorerSvc,
-					oh.errChan,
-					oh.eventChan,
-					oh.observableStatus,
-					oh.rateLimiter,
-				)
+			if !oh.observe() {
+				return
 			}
 		case <-oh.stopChan:
-			oh.ticker.Stop()
-			close(oh.stopChan)
 			return
 		}
 	}
 }
 
+// observe makes one observation and forwards its outcome. It returns false if
+// the handler is stopped in the meantime: what is being observed at that time
+// is dropped.
+func (oh *observableHandler) observe() bool {
+	select {
+	case <-oh.stopChan:
+		return false
+	default:
+	}
+
+	// These belong to this observation only and are large enough to never block
+	// it, even if nobody is interested in its outcome anymore.
+	errChan := make(chan error, 1)
+	eventChan := make(chan Event, 1)
+	done := make(chan struct{})
+	go func() {
+		defer close(done)
+		oh.observable.Observe(
+			oh.explorerSvc,
+			errChan,
+			eventChan,
+			oh.observableStatus,
+			oh.rateLimiter,
+		)
+	}()
+
+	select {
+	case <-done:
+	case <-oh.stopChan:
+		return false
+	}
+
+	select {
+	case <-oh.stopChan:
+		return false
+	default:
+	}
+
+	select {
+	case err := <-errChan:
+		select {
+		case oh.errChan <- err:
+		case <-oh.stopChan:
+			return false
+		}
+	case event := <-eventChan:
+		select {
+		case oh.eventChan <- event:
+		case <-oh.stopChan:
+			return false
+		}
+	default:
+	}
+	return true
+}
+
+// stop must be called only once.
 func (oh *observableHandler) stop() {
 	oh.logAction("stop")
-	oh.stopChan <- 1
-	oh.wg.Done()
+	close(oh.stopChan)
 }
 
 func (oh *observableHandler) logAction(action string) {
diff --git a/pkg/crawler/service.go b/pkg/crawler/service.go
index fed4295..3d67bac 100644
--- a/pkg/crawler/service.go
+++ b/pkg/crawler/service.go
@@ -23,6 +23,7 @@ type blockchainCrawler struct {
 	mutex        *sync.RWMutex
 	wg           *sync.WaitGroup
 	rateLimiter  *rate.Limiter
+	stopped      bool
 }
 
 // Opts defines the parameters needed for creating a crawler service with NewService method
@@ -71,15 +72,23 @@ func (bc *blockchainCrawler) Start() {
 
 // Stop stops crawler
 func (bc *blockchainCrawler) Stop() {
+	// The lock can't be held while waiting, because who is listening to the
+	// events may be adding or removing observables.
 	bc.mutex.Lock()
-	defer bc.mutex.Unlock()
-	for _, obsHandler := range bc.observables {
-		go obsHandler.stop()
+	if bc.stopped {
+		bc.mutex.Unlock()
+		return
+	}
+	bc.stopped = true
+	for key, obsHandler := range bc.observables {
+		obsHandler.stop()
+		delete(bc.observables, key)
 	}
+	bc.mutex.Unlock()
+
 	bc.wg.Wait()
 	bc.eventChan <- CloseEvent{}
 	close(bc.errChan)
-	return
 }
 
 // GetEventChannel returns Event channel which can be used to "listen" to
@@ -96,6 +105,10 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 	bc.mutex.Lock()
 	defer bc.mutex.Unlock()
 
+	if bc.stopped {
+		return
+	}
+
 	if _, ok := bc.observables[observable.Key()]; !ok {
 		obsHandler := newObservableHandler(
 			observable,
@@ -108,6 +121,7 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 		)
 
 		bc.observables[observable.Key()] = obsHandler
+		bc.wg.Add(1)
 		go obsHandler.start()
 	}
 }
-- 
2.43.0


From 004389ea6961eb6d17455b64fb9f459c37c4b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:53 +0000
Subject: [PATCH 56/62] fix: the Esplora client turns malformed replies into
 errors and lists whole transactions

---
 pkg/explorer/esplora/transaction.go | 53 ++++++++++++++++++--------
 pkg/explorer/esplora/types.go       | 26 ++++++++++++-
 pkg/explorer/esplora/unspents.go    | 25 +++++++++++--
 pkg/explorer/transaction.go         | 58 +++++++++++++++++++++++++++++
 4 files changed, 142 insertions(+), 20 deletions(-)
 create mode 100644 pkg/explorer/transaction.go

diff --git a/pkg/explorer/esplora/transaction.go b/pkg/explorer/esplora/transaction.go
index 22fc37c..18a7351 100644
--- a/pkg/explorer/esplora/transaction.go
+++ b/pkg/explorer/esplora/transaction.go
@@ -44,7 +44,7 @@ func (e *esplora) GetTransactionsForAddress(address string, _ []byte) ([]explore
 		return nil, fmt.Errorf(resp)
 	}
 
-	return parseTransactions(resp)
+	return e.parseTransactions(resp)
 }
 
 func (e *esplora) BroadcastTransaction(txHex string) (string, error) {
@@ -65,6 +65,9 @@ func (e *esplora) BroadcastTransaction(txHex string) (string, error) {
 	if status != http.StatusOK {
 		return "", fmt.Errorf(resp)
 	}
+	if err := explorer.ValidateTransactionHash(resp); err != nil {
+		return "", err
+	}
 
 	return resp, nil
 }
@@ -132,6 +135,10 @@ func (e *esplora) getTransactionHex(hash string) (string, error) {
 		return "", fmt.Errorf(resp)
 	}
 
+	if _, err := explorer.ParseTransaction(resp); err != nil {
+		return "", err
+	}
+
 	return resp, nil
 }
 
@@ -169,6 +176,9 @@ func (e *esplora) getTransactionStatus(hash string) (map[string]interface{}, err
 	if err != nil {
 		return nil, err
 	}
+	if err := explorer.ValidateTransactionStatus(trxStatus); err != nil {
+		return nil, err
+	}
 
 	return trxStatus, nil
 }
@@ -178,26 +188,34 @@ type txResult struct {
 	err error
 }
 
-func parseTransactions(txList string) ([]explorer.Transaction, error) {
-	txInterfaces := make([]interface{}, 0)
-	if err := json.Unmarshal([]byte(txList), &txInterfaces); err != nil {
+type txInfo struct {
+	TxID   string `json:"txid"`
+	Status *struct {
+		Confirmed *bool `json:"confirmed"`
+	} `json:"status"`
+}
+
+func (e *esplora) parseTransactions(txList string) ([]explorer.Transaction, error) {
+	var list []txInfo
+	if err := json.Unmarshal([]byte(txList), &list); err != nil {
 		return nil, err
 	}
+	if list == nil {
+		return nil, fmt.Errorf("invalid list of transactions")
+	}
 
-	txs := make([]explorer.Transaction, 0, len(txInterfaces))
-	chRes := make(chan txResult)
+	txs := make([]explorer.Transaction, 0, len(list))
+	chRes := make(chan txResult, len(list))
 	wg := &sync.WaitGroup{}
-	wg.Add(len(txInterfaces))
+	wg.Add(len(list))
 
 	go func() {
 		wg.Wait()
 		close(chRes)
 	}()
 
-	for i := range txInterfaces {
-		txi := txInterfaces[i]
-
-		go parseTransaction(txi, chRes, wg)
+	for i := range list {
+		go e.getTxDetails(list[i], chRes, wg)
 	}
 
 	for r := range chRes {
@@ -210,19 +228,24 @@ func parseTransactions(txList string) ([]explorer.Transaction, error) {
 	return txs, nil
 }
 
-func parseTransaction(txi interface{}, chRes chan txResult, wg *sync.WaitGroup) {
+// getTxDetails retrieves the whole transaction because the listed one doesn't
+// come with the nonces and the proofs of its outputs.
+func (e *esplora) getTxDetails(info txInfo, chRes chan txResult, wg *sync.WaitGroup) {
 	defer wg.Done()
 
-	trx, err := json.Marshal(txi)
+	if info.Status == nil || info.Status.Confirmed == nil {
+		chRes <- txResult{err: fmt.Errorf("missing status of tx %s", info.TxID)}
+		return
+	}
+	txHex, err := e.getTransactionHex(info.TxID)
 	if err != nil {
 		chRes <- txResult{err: err}
 		return
 	}
-	tx, err := NewTxFromJSON(string(trx))
+	tx, err := NewTxFromHex(txHex, *info.Status.Confirmed)
 	if err != nil {
 		chRes <- txResult{err: err}
 		return
 	}
-
 	chRes <- txResult{tx: tx}
 }
diff --git a/pkg/explorer/esplora/types.go b/pkg/explorer/esplora/types.go
index 5dd87ff..44fd42d 100644
--- a/pkg/explorer/esplora/types.go
+++ b/pkg/explorer/esplora/types.go
@@ -1,6 +1,7 @@
 package esplora
 
 import (
+	"bytes"
 	"encoding/hex"
 	"encoding/json"
 	"fmt"
@@ -35,7 +36,7 @@ func NewTxFromJSON(txJSON string) (explorer.Transaction, error) {
 }
 
 func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
-	t, err := transaction.NewTxFromHex(txhex)
+	t, err := explorer.ParseTransaction(txhex)
 	if err != nil {
 		return nil, err
 	}
@@ -287,6 +288,29 @@ func (wu witnessUtxo) IsRevealed() bool {
 	return len(wu.ValueBlinder()) > 0 && len(wu.AssetBlinder()) > 0
 }
 
+// validate checks that what is known about the utxo matches the given output.
+func (wu witnessUtxo) validate(out *transaction.TxOutput) error {
+	mismatch := fmt.Errorf("utxo %s:%d does not match output", wu.UHash, wu.UIndex)
+
+	if wu.IsConfidential() {
+		if bufferutil.CommitmentFromBytes(out.Asset) != wu.UAssetCommitment ||
+			bufferutil.CommitmentFromBytes(out.Value) != wu.UValueCommitment {
+			return mismatch
+		}
+		return nil
+	}
+
+	asset, err := bufferutil.AssetHashToBytes(wu.UAsset)
+	if err != nil || !bytes.Equal(asset, out.Asset) {
+		return mismatch
+	}
+	value, err := bufferutil.ValueToBytes(wu.UValue)
+	if err != nil || !bytes.Equal(value, out.Value) {
+		return mismatch
+	}
+	return nil
+}
+
 func (wu witnessUtxo) Parse() (*transaction.TxInput, *transaction.TxOutput, error) {
 	inHash, err := bufferutil.TxIDToBytes(wu.UHash)
 	if err != nil {
diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index f8a5082..737e23b 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -26,7 +26,7 @@ func (e *esplora) GetUnspentsForAddresses(
 	addresses []string,
 	blindingKeys [][]byte,
 ) ([]explorer.Utxo, error) {
-	chRes := make(chan utxosResult)
+	chRes := make(chan utxosResult, len(addresses))
 	utxos := make([]explorer.Utxo, 0)
 	wg := &sync.WaitGroup{}
 	wg.Add(len(addresses))
@@ -76,9 +76,12 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	if err := json.Unmarshal([]byte(resp), &witnessOuts); err != nil {
 		return nil, fmt.Errorf("error on retrieving utxos: %s", err)
 	}
+	if witnessOuts == nil {
+		return nil, fmt.Errorf("error on retrieving utxos: invalid response")
+	}
 
 	utxos := make([]explorer.Utxo, 0, len(witnessOuts))
-	chRes := make(chan utxoResult)
+	chRes := make(chan utxoResult, len(witnessOuts))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(witnessOuts))
 
@@ -106,7 +109,7 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	}
 
 	if len(utxosToUnblind) > 0 {
-		chRes := make(chan utxoResult)
+		chRes := make(chan utxoResult, len(utxosToUnblind))
 		wg.Add(len(utxosToUnblind))
 
 		go func() {
@@ -161,8 +164,22 @@ func (e *esplora) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
-	trx, _ := transaction.NewTxFromHex(prevoutTxHex)
+	trx, err := explorer.ParseTransaction(prevoutTxHex)
+	if err != nil {
+		chRes <- utxoResult{err: err}
+		return
+	}
+	if int(utxo.Index()) >= len(trx.Outputs) {
+		chRes <- utxoResult{
+			err: fmt.Errorf("tx %s has no output %d", utxo.Hash(), utxo.Index()),
+		}
+		return
+	}
 	prevout := trx.Outputs[utxo.Index()]
+	if err := utxo.validate(prevout); err != nil {
+		chRes <- utxoResult{err: err}
+		return
+	}
 
 	if utxo.IsConfidential() {
 		utxo.UNonce = prevout.Nonce
diff --git a/pkg/explorer/transaction.go b/pkg/explorer/transaction.go
new file mode 100644
index 0000000..88c4ff7
--- /dev/null
+++ b/pkg/explorer/transaction.go
@@ -0,0 +1,58 @@
+package explorer
+
+import (
+	"encoding/hex"
+	"fmt"
+
+	"github.com/vulpemventures/go-elements/transaction"
+)
+
+// ParseTransaction deserializes a transaction received from a blockchain
+// backend. Differently from transaction.NewTxFromHex, also anything that is not
+// a transaction at all makes it return an error.
+func ParseTransaction(txhex string) (tx *transaction.Transaction, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			tx, err = nil, fmt.Errorf("invalid transaction: %v", r)
+		}
+	}()
+
+	if len(txhex) <= 0 {
+		return nil, fmt.Errorf("invalid transaction: empty")
+	}
+	tx, err = transaction.NewTxFromHex(txhex)
+	if err != nil {
+		return nil, fmt.Errorf("invalid transaction: %w", err)
+	}
+	return tx, nil
+}
+
+// ValidateTransactionHash checks that what a blockchain backend returned is the
+// hash of a transaction.
+func ValidateTransactionHash(txid string) error {
+	if buf, err := hex.DecodeString(txid); err != nil || len(buf) != 32 {
+		return fmt.Errorf("invalid transaction hash: %s", txid)
+	}
+	return nil
+}
+
+// ValidateTransactionStatus checks that the status of a transaction tells
+// whether it is confirmed and, in case, in which block.
+func ValidateTransactionStatus(status map[string]interface{}) error {
+	confirmed, ok := status["confirmed"].(bool)
+	if !ok {
+		return fmt.Errorf("invalid transaction status: missing confirmation")
+	}
+	if confirmed {
+		if _, ok := status["block_hash"].(string); !ok {
+			return fmt.Errorf("invalid transaction status: missing block hash")
+		}
+		if _, ok := status["block_height"].(float64); !ok {
+			return fmt.Errorf("invalid transaction status: missing block height")
+		}
+		if _, ok := status["block_time"].(float64); !ok {
+			return fmt.Errorf("invalid transaction status: missing block time")
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 7ec35daeb042d496949ff04d0d86649c276fb088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:53 +0000
Subject: [PATCH 57/62] fix: the Elements client neither crashes on nor makes
 up data from malformed replies, and rounds amounts right

---
 pkg/explorer/elements/client.go      |  6 ++++
 pkg/explorer/elements/service.go     | 21 ++++++++++--
 pkg/explorer/elements/transaction.go | 48 +++++++++++++++++++++-------
 pkg/explorer/elements/types.go       | 35 ++++++++++++++++++--
 pkg/explorer/elements/unspents.go    | 22 +++++++++----
 5 files changed, 111 insertions(+), 21 deletions(-)

diff --git a/pkg/explorer/elements/client.go b/pkg/explorer/elements/client.go
index 70fbdc2..dc10a03 100644
--- a/pkg/explorer/elements/client.go
+++ b/pkg/explorer/elements/client.go
@@ -74,6 +74,8 @@ func NewClient(host string, port int, user, passwd string, useSSL bool, timeout
 		serverAddr = "http://"
 		httpClient = &http.Client{}
 	}
+	// this covers the whole request, that is also reading the response.
+	httpClient.Timeout = time.Duration(timeout) * time.Second
 	c = &RPCClient{serverAddr: fmt.Sprintf("%s%s:%d", serverAddr, host, port), user: user, passwd: passwd, httpClient: httpClient, timeout: timeout}
 	return
 }
@@ -134,6 +136,10 @@ func (c *RPCClient) call(method string, params interface{}) (rr rpcResponse, err
 	err = json.Unmarshal(data, &rr)
 	if err != nil {
 		err = errors.New(string(data))
+		return
+	}
+	if rr.Err == nil && (len(rr.Result) <= 0 || string(rr.Result) == "null") {
+		err = fmt.Errorf("missing result of %s", method)
 	}
 	return
 }
diff --git a/pkg/explorer/elements/service.go b/pkg/explorer/elements/service.go
index 81a039c..1dc4540 100644
--- a/pkg/explorer/elements/service.go
+++ b/pkg/explorer/elements/service.go
@@ -75,6 +75,23 @@ func (e *elements) importAddress(addr, label string, blindKey []byte, rescan boo
 	if err = handleError(err, &r); err != nil {
 		return err
 	}
+
+	var results []struct {
+		Success bool      `json:"success"`
+		Err     *RPCError `json:"error"`
+	}
+	if err := json.Unmarshal(r.Result, &results); err != nil {
+		return fmt.Errorf("unmarshal: %w", err)
+	}
+	if len(results) != 1 {
+		return fmt.Errorf("invalid number of import results: %d", len(results))
+	}
+	if !results[0].Success {
+		if results[0].Err != nil {
+			return results[0].Err
+		}
+		return fmt.Errorf("address not imported")
+	}
 	return nil
 }
 
@@ -84,13 +101,13 @@ func (e *elements) isAddressImported(targetLabel string) (bool, error) {
 		return false, err
 	}
 
-	var labels []interface{}
+	var labels []string
 	if err := json.Unmarshal(r.Result, &labels); err != nil {
 		return false, fmt.Errorf("unmarshal: %w", err)
 	}
 
 	for _, label := range labels {
-		if label.(string) == targetLabel {
+		if label == targetLabel {
 			return true, nil
 		}
 	}
diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index 935a1c4..68e9e33 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -16,7 +16,16 @@ func (e *elements) GetTransaction(txid string) (explorer.Transaction, error) {
 	if err = handleError(err, &r); err != nil {
 		return nil, fmt.Errorf("rawtx: %w", err)
 	}
-	return NewTxFromJSON(string(r.Result))
+
+	// The confirmations are omitted until the tx is included in a block.
+	var info struct {
+		Hex           string `json:"hex"`
+		Confirmations int64  `json:"confirmations"`
+	}
+	if err := json.Unmarshal(r.Result, &info); err != nil {
+		return nil, fmt.Errorf("unmarshal: %w", err)
+	}
+	return NewTxFromHex(info.Hex, info.Confirmations > 0)
 }
 
 // GetTransactionHex returns the hex of the transaction indentified by its hash
@@ -31,6 +40,9 @@ func (e *elements) GetTransactionHex(txid string) (string, error) {
 	if err := json.Unmarshal(r.Result, &txhex); err != nil {
 		return "", fmt.Errorf("unmarshal: %w", err)
 	}
+	if _, err := explorer.ParseTransaction(txhex); err != nil {
+		return "", err
+	}
 	return txhex, nil
 }
 
@@ -43,7 +55,7 @@ func (e *elements) IsTransactionConfirmed(txid string) (bool, error) {
 	}
 	confirmations, ok := data["confirmations"].(float64)
 	if !ok {
-		return false, nil
+		return false, fmt.Errorf("tx: missing confirmations")
 	}
 	return confirmations > 0, nil
 }
@@ -59,8 +71,11 @@ func (e *elements) GetTransactionStatus(txid string) (map[string]interface{}, er
 		return nil, err
 	}
 
-	isConfirmed := data["confirmations"].(float64) > 0
-	if isConfirmed {
+	confirmations, ok := data["confirmations"].(float64)
+	if !ok {
+		return nil, fmt.Errorf("tx: missing confirmations")
+	}
+	if confirmations > 0 {
 		r, err := e.client.call("getblock", []interface{}{data["blockhash"]})
 		if err = handleError(err, &r); err != nil {
 			return nil, fmt.Errorf("block: %w", err)
@@ -71,12 +86,16 @@ func (e *elements) GetTransactionStatus(txid string) (map[string]interface{}, er
 			return nil, fmt.Errorf("unmarshal: %w", err)
 		}
 
-		return map[string]interface{}{
+		status := map[string]interface{}{
 			"confirmed":    true,
 			"block_hash":   data["hash"],
 			"block_height": data["height"],
 			"block_time":   data["time"],
-		}, nil
+		}
+		if err := explorer.ValidateTransactionStatus(status); err != nil {
+			return nil, err
+		}
+		return status, nil
 	}
 	return map[string]interface{}{
 		"confirmed": false,
@@ -113,17 +132,21 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 	if err = handleError(err, &r); err != nil {
 		return nil, fmt.Errorf("list: %w", err)
 	}
-	var data []interface{}
+	var data []struct {
+		TxIDs []string `json:"txids"`
+	}
 	if err := json.Unmarshal(r.Result, &data); err != nil {
 		return nil, fmt.Errorf("unmarshal: %w", err)
 	}
 
 	if len(data) > 0 {
-		info := data[0].(map[string]interface{})
-		txids := info["txids"].([]interface{})
+		txids := data[0].TxIDs
+		if txids == nil {
+			return nil, fmt.Errorf("list: missing txids")
+		}
 
 		txs := make([]explorer.Transaction, 0, len(txids))
-		chRes := make(chan txResult)
+		chRes := make(chan txResult, len(txids))
 		wg := &sync.WaitGroup{}
 		wg.Add(len(txids))
 
@@ -134,7 +157,7 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 
 		for i := range txids {
 			txid := txids[i]
-			go e.getTxDetails(txid.(string), chRes, wg)
+			go e.getTxDetails(txid, chRes, wg)
 		}
 
 		for r := range chRes {
@@ -161,6 +184,9 @@ func (e *elements) BroadcastTransaction(txhex string) (string, error) {
 	if err := json.Unmarshal(r.Result, &txid); err != nil {
 		return "", fmt.Errorf("unmarshal: %w", err)
 	}
+	if err := explorer.ValidateTransactionHash(txid); err != nil {
+		return "", err
+	}
 	return txid, nil
 }
 
diff --git a/pkg/explorer/elements/types.go b/pkg/explorer/elements/types.go
index f8df24c..a58cb91 100644
--- a/pkg/explorer/elements/types.go
+++ b/pkg/explorer/elements/types.go
@@ -1,8 +1,10 @@
 package elements
 
 import (
+	"bytes"
 	"encoding/hex"
 	"encoding/json"
+	"fmt"
 	"math"
 
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
@@ -23,7 +25,7 @@ type tx struct {
 }
 
 func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
-	t, err := transaction.NewTxFromHex(txhex)
+	t, err := explorer.ParseTransaction(txhex)
 	if err != nil {
 		return nil, err
 	}
@@ -117,7 +119,7 @@ func (eu elementsUnspent) Index() uint32 {
 }
 
 func (eu elementsUnspent) Value() uint64 {
-	return uint64(eu.UAmount * math.Pow10(8))
+	return uint64(math.Round(eu.UAmount * math.Pow10(8)))
 }
 
 func (eu elementsUnspent) Asset() string {
@@ -172,6 +174,35 @@ func (eu elementsUnspent) IsRevealed() bool {
 	return len(eu.UAmountBlinder) > 0 && len(eu.UAssetBlinder) > 0
 }
 
+// validate checks that what is known about the utxo matches the given output.
+func (eu elementsUnspent) validate(out *transaction.TxOutput) error {
+	mismatch := fmt.Errorf("utxo %s:%d does not match output", eu.UTxID, eu.UVout)
+
+	if hex.EncodeToString(out.Script) != eu.UScriptPubKey {
+		return mismatch
+	}
+	if out.IsConfidential() {
+		if bufferutil.CommitmentFromBytes(out.Asset) != eu.UAssetCommitment ||
+			bufferutil.CommitmentFromBytes(out.Value) != eu.UAmountCommitment {
+			return mismatch
+		}
+		if len(eu.UAsset) <= 0 || eu.UAmount <= 0 {
+			return fmt.Errorf("utxo %s:%d not unblinded", eu.UTxID, eu.UVout)
+		}
+		return nil
+	}
+
+	asset, err := bufferutil.AssetHashToBytes(eu.UAsset)
+	if err != nil || !bytes.Equal(asset, out.Asset) || eu.UAmount < 0 {
+		return mismatch
+	}
+	value, err := bufferutil.ValueToBytes(eu.Value())
+	if err != nil || !bytes.Equal(value, out.Value) {
+		return mismatch
+	}
+	return nil
+}
+
 func (eu elementsUnspent) Parse() (*transaction.TxInput, *transaction.TxOutput, error) {
 	inHash, err := bufferutil.TxIDToBytes(eu.UTxID)
 	if err != nil {
diff --git a/pkg/explorer/elements/unspents.go b/pkg/explorer/elements/unspents.go
index d68ce9b..48b67c3 100644
--- a/pkg/explorer/elements/unspents.go
+++ b/pkg/explorer/elements/unspents.go
@@ -10,7 +10,6 @@ import (
 	"github.com/btcsuite/btcd/btcec"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
 	"github.com/vulpemventures/go-elements/address"
-	"github.com/vulpemventures/go-elements/transaction"
 )
 
 func (e *elements) GetUnspents(addr string, blindKeys [][]byte) ([]explorer.Utxo, error) {
@@ -103,7 +102,7 @@ func (e *elements) toUtxos(unspents []elementsUnspent) ([]explorer.Utxo, error)
 	}
 
 	utxos := make([]explorer.Utxo, 0, len(unspents))
-	chRes := make(chan utxoResult)
+	chRes := make(chan utxoResult, len(unspents))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(unspents))
 
@@ -142,14 +141,25 @@ func (e *elements) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
-	tx, err := transaction.NewTxFromHex(txhex)
+	tx, err := explorer.ParseTransaction(txhex)
 	if err != nil {
 		chRes <- utxoResult{err: err}
 		return
 	}
-	utxo.UNonce = tx.Outputs[utxo.Index()].Nonce
-	utxo.URangeProof = tx.Outputs[utxo.Index()].RangeProof
-	utxo.USurjectionProof = tx.Outputs[utxo.Index()].SurjectionProof
+	if int(utxo.Index()) >= len(tx.Outputs) {
+		chRes <- utxoResult{
+			err: fmt.Errorf("tx %s has no output %d", utxo.Hash(), utxo.Index()),
+		}
+		return
+	}
+	prevout := tx.Outputs[utxo.Index()]
+	if err := utxo.validate(prevout); err != nil {
+		chRes <- utxoResult{err: err}
+		return
+	}
+	utxo.UNonce = prevout.Nonce
+	utxo.URangeProof = prevout.RangeProof
+	utxo.USurjectionProof = prevout.SurjectionProof
 
 	chRes <- utxoResult{utxo: utxo}
 }
-- 
2.43.0


From f8c22a2a7d5cdd3c4142cf08f0186becfd21e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:49 +0000
Subject: [PATCH 58/62] fix: the fragmenters neither crash on outputs they
 cannot unblind nor count funds twice

An output paying the ephemeral wallet and blinded with another key made the CLI
panic, and a transaction told twice (or both typed and given with --txid) had its
outputs added twice to the inputs, hence an invalid transaction.
---
 cmd/tdex/fragmentfee.go    | 22 ++++++++++++++++++++--
 cmd/tdex/fragmentmarket.go |  2 +-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index 2742ae2..180a342 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -229,7 +229,7 @@ func findBaseAssetsUnspents(
 	unspents := make([]explorer.Utxo, 0)
 	valuePerAsset := make(map[string]uint64, 0)
 
-	for _, txid := range txids {
+	for _, txid := range uniqueTxids(txids) {
 		u, err := getUnspents(explorerSvc, randomWallet, txid)
 		if err != nil {
 			return 0, nil, err
@@ -333,7 +333,11 @@ func getUnspents(explorerSvc explorer.Service, w *trade.Wallet, txid string) ([]
 	_, script := w.Script()
 	for i, out := range tx.Outputs() {
 		if bytes.Equal(out.Script, script) {
-			revealed, _ := transactionutil.UnblindOutput(out, w.BlindingKey())
+			revealed, ok := transactionutil.UnblindOutput(out, w.BlindingKey())
+			if !ok {
+				log.Warnf("skipping output %d of tx %s, unable to unblind it", i, txid)
+				continue
+			}
 			var valueCommitment, assetCommitment string
 			if out.IsConfidential() {
 				valueCommitment = hex.EncodeToString(out.Value)
@@ -361,6 +365,20 @@ func getUnspents(explorerSvc explorer.Service, w *trade.Wallet, txid string) ([]
 	return utxos, nil
 }
 
+// uniqueTxids drops the duplicates from the given list, otherwise the same
+// funds would be counted (and spent) more than once.
+func uniqueTxids(txids []string) []string {
+	seen := make(map[string]bool, len(txids))
+	unique := make([]string, 0, len(txids))
+	for _, txid := range txids {
+		if !seen[txid] {
+			seen[txid] = true
+			unique = append(unique, txid)
+		}
+	}
+	return unique
+}
+
 func waitForOperatorFunds() []string {
 	reader := bufio.NewReader(os.Stdin)
 	log.Info("Enter txid of fund(s) separated by a white space [press ENTER to skip or confirm]: ")
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index bcc322a..c49cfc8 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -343,7 +343,7 @@ func findAssetsUnspents(
 	var unspents []explorer.Utxo
 	valuePerAsset := make(map[string]uint64, 0)
 
-	for _, txid := range txids {
+	for _, txid := range uniqueTxids(txids) {
 		u, err := getUnspents(explorerSvc, randomWallet, txid)
 		if err != nil {
 			return assetValuePair, nil, err
-- 
2.43.0


From 39fcc868b33bce69f442464fc962143a496255ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:06 +0000
Subject: [PATCH 59/62] fix: the fragmenters never create outputs with a null
 or negative amount

The network fees were deducted from the last fragment even if greater than it:
the fragments of the fee account are worth 5000 while the fees of a transaction
with 45 of them or more are higher, therefore deposits to the fee account larger
than 225000 sats, if not larger than 750000, could fail to be split. Small
deposits had the same problem, or were split into fragments of null amount, and
those without base asset can't pay for any fee. The last fragments are merged
when required, what can't be split is kept whole and it's an error if the base
asset amount doesn't cover the fees.
---
 cmd/tdex/fragmentfee.go    |  8 ++++++--
 cmd/tdex/fragmentmarket.go | 40 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index 180a342..5955ae0 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -111,6 +111,12 @@ func fragmentFeeAction(ctx *cli.Context) error {
 	baseFragments := fragmentFeeUnspents(baseAssetValue, MinFee, MaxNumOfOutputs)
 
 	numUnspents := len(unspents)
+	baseFragments, feeAmount, err := deductibleFragments(
+		baseFragments, numUnspents, 0,
+	)
+	if err != nil {
+		return err
+	}
 	numFragments := len(baseFragments)
 	log.Infof(
 		"detected %d fund(s) of total amount %d that will be split into %d fragments",
@@ -124,8 +130,6 @@ func fragmentFeeAction(ctx *cli.Context) error {
 		return err
 	}
 
-	feeAmount := estimateFees(numUnspents, numFragments)
-
 	log.Info("crafting transaction...")
 	txHex, err := craftTransaction(
 		ephWallet,
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index c49cfc8..1d9f7be 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -139,6 +139,12 @@ func fragmentMarketAction(ctx *cli.Context) error {
 		fragmentationMapConfig,
 	)
 	numUnspents := len(unspents)
+	baseFragments, feeAmount, err := deductibleFragments(
+		baseFragments, numUnspents, len(quoteFragments),
+	)
+	if err != nil {
+		return err
+	}
 	numFragments := len(baseFragments) + len(quoteFragments)
 	log.Infof(
 		"detected %d coins that will be split into %d fragments",
@@ -156,8 +162,6 @@ func fragmentMarketAction(ctx *cli.Context) error {
 		len(quoteFragments),
 	)
 
-	feeAmount := estimateFees(numUnspents, numFragments)
-
 	if quoteAssetOpt == "" {
 		baseAssetOpt = ""
 	}
@@ -306,6 +310,14 @@ func fragmentUnspents(pair AssetValuePair, fragmentationMap map[int]int) ([]uint
 		return quoteAssetFragments[i] < quoteAssetFragments[j]
 	})
 
+	//if the amount is too small to be split it is kept whole
+	if len(baseAssetFragments) > 0 && baseAssetFragments[0] == 0 {
+		baseSum, baseAssetFragments = pair.BaseValue, []uint64{pair.BaseValue}
+	}
+	if len(quoteAssetFragments) > 0 && quoteAssetFragments[0] == 0 {
+		quoteSum, quoteAssetFragments = pair.QuoteValue, []uint64{pair.QuoteValue}
+	}
+
 	//if there is rest, created when calculating percentage,
 	//add it to last fragment
 	if baseSum != pair.BaseValue {
@@ -329,6 +341,30 @@ func fragmentUnspents(pair AssetValuePair, fragmentationMap map[int]int) ([]uint
 	return baseAssetFragments, quoteAssetFragments
 }
 
+// deductibleFragments makes sure that the last of the given base asset
+// fragments, the one that pays for network fees, has a positive value once they
+// are deducted, by merging it with the preceding ones if necessary. It returns
+// also the amount of fees of a transaction with the resulting fragments.
+func deductibleFragments(
+	fragments []uint64, numIns, numOtherFragments int,
+) ([]uint64, uint64, error) {
+	for {
+		last := len(fragments) - 1
+		feeAmount := estimateFees(numIns, len(fragments)+numOtherFragments)
+		if last >= 0 && fragments[last] > feeAmount {
+			return fragments, feeAmount, nil
+		}
+		if last <= 0 {
+			return nil, 0, fmt.Errorf(
+				"base asset amount is too low to pay for network fees, it must be "+
+					"greater than %d. Please retry with additional funds", feeAmount,
+			)
+		}
+		merged := fragments[last-1] + fragments[last]
+		fragments = append(fragments[:last-1:last-1], merged)
+	}
+}
+
 func percent(num int, percent int) float64 {
 	return (float64(num) * float64(percent)) / float64(100)
 }
-- 
2.43.0


From 59a4b48e24a1816e63047b2d21b4c5f114265cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 60/62] fix: the fragmenters do not crash if the daemon returns
 less addresses than requested

---
 cmd/tdex/fragmentfee.go    | 5 +++++
 cmd/tdex/fragmentmarket.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index 5955ae0..fb6c78d 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -129,6 +129,11 @@ func fragmentFeeAction(ctx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if len(addresses) < numFragments {
+		return fmt.Errorf(
+			"got %d addresses from daemon, expected %d", len(addresses), numFragments,
+		)
+	}
 
 	log.Info("crafting transaction...")
 	txHex, err := craftTransaction(
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index 1d9f7be..30632a6 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -175,6 +175,11 @@ func fragmentMarketAction(ctx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if len(addresses) < numFragments {
+		return fmt.Errorf(
+			"got %d addresses from daemon, expected %d", len(addresses), numFragments,
+		)
+	}
 
 	log.Info("crafting transaction...")
 	txHex, err := craftTransaction(
-- 
2.43.0


From 9557c6ccee2c95f4a5c06debbb5dddab83a047eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 61/62] fix: the fragmenters deposit only the assets of the
 market and never forget other funds

The coins of any asset were added to the inputs of the transaction, that was
invalid because no output received those of a third one, and the quote asset was
a random one even if that of an existing market was specified. In any case the
key of the ephemeral wallet, hence the funds left there, was lost at the end.
---
 cmd/tdex/fragmentfee.go    | 20 +++++++---
 cmd/tdex/fragmentmarket.go | 75 +++++++++++++++++++++++++++-----------
 2 files changed, 67 insertions(+), 28 deletions(-)

diff --git a/cmd/tdex/fragmentfee.go b/cmd/tdex/fragmentfee.go
index fb6c78d..1eff9b8 100644
--- a/cmd/tdex/fragmentfee.go
+++ b/cmd/tdex/fragmentfee.go
@@ -90,11 +90,12 @@ func fragmentFeeAction(ctx *cli.Context) error {
 
 	var baseAssetValue uint64
 	var unspents []explorer.Utxo
+	var unusedFunds bool
 	for {
 		funds := waitForOperatorFunds()
 		funds = append(funds, txids...)
 
-		baseAssetValue, unspents, err = findBaseAssetsUnspents(
+		baseAssetValue, unspents, unusedFunds, err = findBaseAssetsUnspents(
 			ephWallet,
 			explorerSvc,
 			baseAssetKey,
@@ -171,7 +172,11 @@ func fragmentFeeAction(ctx *cli.Context) error {
 		return err
 	}
 
-	flushWallet(walletType)
+	if unusedFunds {
+		log.Warn("the ephemeral wallet still holds funds, keep it or recover them")
+	} else {
+		flushWallet(walletType)
+	}
 	log.Info("done")
 	return nil
 }
@@ -228,20 +233,21 @@ func createOutputsForDepositFeeTransaction(
 	return outputs
 }
 
-// findBaseAssetsUnspents polls blockchain until base asset unspent is noticed
+// findBaseAssetsUnspents polls blockchain until base asset unspent is noticed.
+// It tells also whether the ephemeral wallet owns funds of other assets.
 func findBaseAssetsUnspents(
 	randomWallet *trade.Wallet,
 	explorerSvc explorer.Service,
 	baseAssetKey string,
 	txids []string,
-) (uint64, []explorer.Utxo, error) {
+) (uint64, []explorer.Utxo, bool, error) {
 	unspents := make([]explorer.Utxo, 0)
 	valuePerAsset := make(map[string]uint64, 0)
 
 	for _, txid := range uniqueTxids(txids) {
 		u, err := getUnspents(explorerSvc, randomWallet, txid)
 		if err != nil {
-			return 0, nil, err
+			return 0, nil, false, err
 		}
 		if len(u) > 0 {
 			for _, v := range u {
@@ -268,7 +274,9 @@ func findBaseAssetsUnspents(
 		}
 	}
 
-	return valuePerAsset[baseAssetKey], unspents, nil
+	_, hasBaseAsset := valuePerAsset[baseAssetKey]
+	unusedFunds := len(valuePerAsset) > 1 || (len(valuePerAsset) == 1 && !hasBaseAsset)
+	return valuePerAsset[baseAssetKey], unspents, unusedFunds, nil
 }
 
 func getFeeDepositAddresses(
diff --git a/cmd/tdex/fragmentmarket.go b/cmd/tdex/fragmentmarket.go
index 30632a6..c6a2208 100644
--- a/cmd/tdex/fragmentmarket.go
+++ b/cmd/tdex/fragmentmarket.go
@@ -53,6 +53,12 @@ var fragmentmarket = cli.Command{
 	Action: fragmentMarketAction,
 }
 
+var errAmbiguousQuoteAsset = errors.New(
+	"detected funds of more than one quote asset. " +
+		"Please retry with the txids of only one of them, or by specifying that of " +
+		"an existing market with --quote_asset",
+)
+
 type AssetValuePair struct {
 	BaseValue  uint64
 	BaseAsset  string
@@ -116,16 +122,21 @@ func fragmentMarketAction(ctx *cli.Context) error {
 
 	var assetValuePair AssetValuePair
 	var unspents []explorer.Utxo
+	var unusedFunds bool
 	for {
 		funds := waitForOperatorFunds()
 		funds = append(funds, txids...)
 
-		assetValuePair, unspents, err = findAssetsUnspents(
+		assetValuePair, unspents, unusedFunds, err = findAssetsUnspents(
 			ephWallet,
 			explorerSvc,
 			baseAssetOpt,
+			quoteAssetOpt,
 			funds,
 		)
+		if err == errAmbiguousQuoteAsset {
+			return err
+		}
 		if err != nil {
 			log.WithError(err).Warn("an unexpected error occured, please retry entering all txids")
 			continue
@@ -222,7 +233,11 @@ func fragmentMarketAction(ctx *cli.Context) error {
 		return err
 	}
 
-	flushWallet(walletType)
+	if unusedFunds {
+		log.Warn("the ephemeral wallet still holds funds, keep it or recover them")
+	} else {
+		flushWallet(walletType)
+	}
 	log.Info("done")
 	return nil
 }
@@ -374,43 +389,59 @@ func percent(num int, percent int) float64 {
 	return (float64(num) * float64(percent)) / float64(100)
 }
 
+// findAssetsUnspents returns the funds of the ephemeral wallet that can be
+// deposited into the market, and whether the wallet owns others that can't.
+// If not specified, the quote asset is the only one besides the base asset.
 func findAssetsUnspents(
 	randomWallet *trade.Wallet,
 	explorerSvc explorer.Service,
 	baseAssetKey string,
+	quoteAssetKey string,
 	txids []string,
-) (AssetValuePair, []explorer.Utxo, error) {
+) (AssetValuePair, []explorer.Utxo, bool, error) {
 	var assetValuePair AssetValuePair
-	var unspents []explorer.Utxo
+	var allUnspents, unspents []explorer.Utxo
 	valuePerAsset := make(map[string]uint64, 0)
 
 	for _, txid := range uniqueTxids(txids) {
 		u, err := getUnspents(explorerSvc, randomWallet, txid)
 		if err != nil {
-			return assetValuePair, nil, err
+			return assetValuePair, nil, false, err
 		}
 
-		if len(u) > 0 {
-			for _, v := range u {
-				valuePerAsset[v.Asset()] += v.Value()
+		for _, v := range u {
+			valuePerAsset[v.Asset()] += v.Value()
+		}
+		allUnspents = append(allUnspents, u...)
+	}
+
+	if quoteAssetKey == "" {
+		for k := range valuePerAsset {
+			if k == baseAssetKey {
+				continue
+			}
+			if quoteAssetKey != "" {
+				return assetValuePair, nil, false, errAmbiguousQuoteAsset
 			}
-			unspents = append(unspents, u...)
+			quoteAssetKey = k
 		}
 	}
 
+	assetValuePair = AssetValuePair{
+		BaseAsset:  baseAssetKey,
+		BaseValue:  valuePerAsset[baseAssetKey],
+		QuoteAsset: quoteAssetKey,
+		QuoteValue: valuePerAsset[quoteAssetKey],
+	}
+	for _, u := range allUnspents {
+		if u.Asset() == baseAssetKey || u.Asset() == quoteAssetKey {
+			unspents = append(unspents, u)
+		}
+	}
+	unusedFunds := len(unspents) < len(allUnspents)
 	for k, v := range valuePerAsset {
-		if k == baseAssetKey {
-			assetValuePair.BaseAsset = k
-			assetValuePair.BaseValue = v
-		} else {
-			if assetValuePair.QuoteAsset == "" {
-				assetValuePair.QuoteAsset = k
-				assetValuePair.QuoteValue = v
-			} else {
-				if k != assetValuePair.QuoteAsset {
-					log.Warnf("congrats! You just lost %d of asset %s 🎉", v, k)
-				}
-			}
+		if k != baseAssetKey && k != quoteAssetKey {
+			log.Warnf("%d of asset %s can't be deposited into the market", v, k)
 		}
 	}
 
@@ -431,7 +462,7 @@ func findAssetsUnspents(
 		)
 	}
 
-	return assetValuePair, unspents, nil
+	return assetValuePair, unspents, unusedFunds, nil
 }
 
 func craftTransaction(
-- 
2.43.0


From d4951a2f7d516b7c74f9e03b8d0c889915aa7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:35 +0000
Subject: [PATCH 62/62] fix: a trade settled while its completion is broadcast
 does not go back to completed

The record of the completed trade was written over whatever was stored in the
meantime: if the transaction was confirmed before the explorer answered, the
settled trade became completed again, and nobody watched its transaction
anymore. Completion and settlement of a trade are now stored in a transaction.
---
 .../core/application/blockchain_listener.go   | 28 +++++++++++--------
 internal/core/application/trade_service.go    | 21 ++++++++++++--
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index a41bd9d..a40bb91 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -280,19 +280,25 @@ func (b *blockchainListener) startPendingObservables() {
 }
 
 func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
-	if err := b.repoManager.TradeRepository().UpdateTrade(
+	if _, err := b.repoManager.RunTransaction(
 		context.Background(),
-		tradeID,
-		func(t *domain.Trade) (*domain.Trade, error) {
-			mustAddTxHex := t.IsAccepted()
-			if _, err := t.Settle(uint64(event.BlockTime)); err != nil {
-				return nil, err
-			}
-			if mustAddTxHex {
-				t.TxHex = event.TxHex
-			}
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			return nil, b.repoManager.TradeRepository().UpdateTrade(
+				ctx,
+				tradeID,
+				func(t *domain.Trade) (*domain.Trade, error) {
+					mustAddTxHex := t.IsAccepted()
+					if _, err := t.Settle(uint64(event.BlockTime)); err != nil {
+						return nil, err
+					}
+					if mustAddTxHex {
+						t.TxHex = event.TxHex
+					}
 
-			return t, nil
+					return t, nil
+				},
+			)
 		},
 	); err != nil {
 		return err
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index ae0da20..5c3aa30 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -564,10 +564,25 @@ func (t *tradeService) tradeComplete(
 	// this method will take care to retry to handle potential
 	// datastore conflicts (if any) at repository level
 	go func() {
-		if err := t.repoManager.TradeRepository().UpdateTrade(
+		if _, err := t.repoManager.RunTransaction(
 			ctx,
-			&trade.ID,
-			func(previousTrade *domain.Trade) (*domain.Trade, error) { return trade, nil },
+			false,
+			func(ctx context.Context) (interface{}, error) {
+				return nil, t.repoManager.TradeRepository().UpdateTrade(
+					ctx,
+					&trade.ID,
+					func(previousTrade *domain.Trade) (*domain.Trade, error) {
+						// the transaction may be already confirmed at this point, in this
+						// case the settled trade misses only how it has been completed.
+						if previousTrade.IsSettled() {
+							previousTrade.SwapComplete = trade.SwapComplete
+							previousTrade.PsetBase64 = trade.PsetBase64
+							return previousTrade, nil
+						}
+						return trade, nil
+					},
+				)
+			},
 		); err != nil {
 			log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
 		}
-- 
2.43.0

