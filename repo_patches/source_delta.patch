From 6676be1caaaa5dc0a0a8919e708f6ddf3d8efe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 01/29] fix: never select an excluded uploader in the
 round-robin

---
 x/bundles/keeper/logic_round_robin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/bundles/keeper/logic_round_robin.go b/x/bundles/keeper/logic_round_robin.go
index 56366f7..c8205ee 100644
--- a/x/bundles/keeper/logic_round_robin.go
+++ b/x/bundles/keeper/logic_round_robin.go
@@ -246,10 +246,11 @@ func (vs *RoundRobinValidatorSet) NextProposer(excludedAddresses ...string) stri
 		}
 	}
 
-	currentMaxValidator := vs.Validators[0].Address
+	// only validators which are not excluded are candidates
+	currentMaxValidator := ""
 	for _, validator := range vs.Validators {
 		if !mapExcludedAddresses[validator.Address] {
-			if vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
+			if currentMaxValidator == "" || vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
 				currentMaxValidator = validator.Address
 			}
 		}
-- 
2.43.0


From 6490252deedc6f6cc8bd4b24aadc8488778dc917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 02/29] fix: detect duplicated entries in the funders genesis
 state

---
 x/funders/types/genesis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/funders/types/genesis.go b/x/funders/types/genesis.go
index 9529939..78a6007 100644
--- a/x/funders/types/genesis.go
+++ b/x/funders/types/genesis.go
@@ -20,6 +20,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundersIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funder id for %v", funder)
 		}
+		fundersIndexMap[string(index)] = struct{}{}
 	}
 
 	fundingByFunderIndexMap := make(map[string]struct{})
@@ -33,6 +34,8 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingByPoolIndexMap[string(byPoolIndex)]; ok {
 			return fmt.Errorf("duplicated funding id for %v", funding)
 		}
+		fundingByFunderIndexMap[string(byFunderIndex)] = struct{}{}
+		fundingByPoolIndexMap[string(byPoolIndex)] = struct{}{}
 	}
 
 	fundingStateIndexMap := make(map[string]struct{})
@@ -41,6 +44,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingStateIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funding state id for %v", fundingState)
 		}
+		fundingStateIndexMap[string(index)] = struct{}{}
 	}
 	return gs.Params.Validate()
 }
-- 
2.43.0


From 1333eec0b4e46920935d5c88ce624871e4d6ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 03/29] fix: do not charge the fee allowance again when
 refunding fees

---
 x/global/post.go  |  5 +----
 x/global/utils.go | 18 ++++++------------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/x/global/post.go b/x/global/post.go
index a4a7073..c324f05 100644
--- a/x/global/post.go
+++ b/x/global/post.go
@@ -70,10 +70,7 @@ func (rfd RefundFeeDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate bo
 	}
 
 	// Send the refund back to this transaction's fee payer.
-	account, err := GetFeeAccount(ctx, feeTx, rfd.feeGrantKeeper)
-	if err != nil {
-		return ctx, err
-	}
+	account := GetFeeAccount(feeTx)
 	err = rfd.bankKeeper.SendCoinsFromModuleToAccount(ctx, authTypes.FeeCollectorName, account, refund)
 	if err != nil {
 		return ctx, err
diff --git a/x/global/utils.go b/x/global/utils.go
index 3584957..da53341 100644
--- a/x/global/utils.go
+++ b/x/global/utils.go
@@ -12,30 +12,24 @@ import (
 
 	// Auth
 	"github.com/cosmos/cosmos-sdk/x/auth/ante"
-	// FeeGrant
-	feeGrantKeeper "cosmossdk.io/x/feegrant/keeper"
 	// Global
 	"github.com/KYVENetwork/chain/x/global/keeper"
 	// Staking
 	stakingKeeper "github.com/cosmos/cosmos-sdk/x/staking/keeper"
 )
 
-func GetFeeAccount(ctx sdk.Context, tx sdk.FeeTx, feeGrantKeeper feeGrantKeeper.Keeper) (sdk.AccAddress, error) {
-	fee := tx.GetFee()
+// GetFeeAccount returns the account which has paid the fees of the given transaction.
+// The granted fees were already used when the fees got deducted, so this does
+// not touch the fee allowance again.
+func GetFeeAccount(tx sdk.FeeTx) sdk.AccAddress {
 	feePayer := tx.FeePayer()
 	feeGranter := tx.FeeGranter()
 
-	account := feePayer
 	if feeGranter != nil && !bytes.Equal(feeGranter, feePayer) {
-		err := feeGrantKeeper.UseGrantedFees(ctx, feeGranter, feePayer, fee, tx.GetMsgs())
-		if err != nil {
-			return nil, sdkErrors.Wrapf(err, "%s does not not allow to pay fees for %s", feeGranter, feePayer)
-		}
-
-		account = feeGranter
+		return feeGranter
 	}
 
-	return account, nil
+	return feePayer
 }
 
 // BuildTxFeeChecker ensures that the configured minimum gas price is met.
-- 
2.43.0


From c0272f4cc685cf969b7cb6938276d657f68bc693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 04/29] fix: do not evict a funder when an active funder tops
 up a full pool

---
 x/funders/keeper/logic_funders.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 7b1f245..c604f0e 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -6,6 +6,7 @@ import (
 	"cosmossdk.io/math"
 
 	"cosmossdk.io/errors"
+	"github.com/KYVENetwork/chain/util"
 	"github.com/KYVENetwork/chain/x/funders/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	errorsTypes "github.com/cosmos/cosmos-sdk/types/errors"
@@ -199,16 +200,16 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return nil
 	}
 
+	if util.ContainsString(fundingState.ActiveFunderAddresses, newFunding.FunderAddress) {
+		// Funder already has a funding slot
+		return nil
+	}
+
 	lowestFunding, err := k.GetLowestFunding(ctx, activeFundings)
 	if err != nil {
 		return err
 	}
 
-	if lowestFunding.FunderAddress == newFunding.FunderAddress {
-		// Funder already has a funding slot
-		return nil
-	}
-
 	whitelist := k.GetCoinWhitelistMap(ctx)
 
 	// Check if lowest funding is lower than new funding based on amount (amount per bundle is ignored)
-- 
2.43.0


From 78b6d3fd3610f2747b2c755341ccfeb0bb94db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 05/29] fix: emit the refunded amounts when a funder is evicted

---
 x/funders/keeper/logic_funders.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index c604f0e..a94a4e6 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -223,6 +223,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return err
 	}
 
+	defundedAmounts := lowestFunding.Amounts
 	lowestFunding.Amounts = sdk.NewCoins()
 	lowestFunding.AmountsPerBundle = sdk.NewCoins()
 	fundingState.SetInactive(lowestFunding)
@@ -232,7 +233,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventDefundPool{
 		PoolId:  fundingState.PoolId,
 		Address: lowestFunding.FunderAddress,
-		Amounts: lowestFunding.Amounts.String(),
+		Amounts: defundedAmounts.String(),
 	})
 
 	return nil
-- 
2.43.0


From 0187aa46fa4e830139c6247fcee790938a139e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 06/29] fix: drop the pending leave request when a staker is
 removed from a pool

---
 x/stakers/keeper/getters_leave.go  | 15 +++++++++++++++
 x/stakers/keeper/getters_staker.go |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/x/stakers/keeper/getters_leave.go b/x/stakers/keeper/getters_leave.go
index 718bab9..88dea1d 100644
--- a/x/stakers/keeper/getters_leave.go
+++ b/x/stakers/keeper/getters_leave.go
@@ -78,6 +78,21 @@ func (k Keeper) RemoveLeavePoolEntry(ctx sdk.Context, leavePoolEntry *types.Leav
 	))
 }
 
+// removePendingLeavePoolEntry removes the leave queue entry of the given staker
+// in the given pool. If there is no such entry nothing happens.
+func (k Keeper) removePendingLeavePoolEntry(ctx sdk.Context, staker string, poolId uint64) {
+	if !k.DoesLeavePoolEntryExistByIndex2(ctx, staker, poolId) {
+		return
+	}
+
+	for _, entry := range k.GetAllLeavePoolEntries(ctx) {
+		if entry.Staker == staker && entry.PoolId == poolId {
+			k.RemoveLeavePoolEntry(ctx, &entry)
+			return
+		}
+	}
+}
+
 // GetAllLeavePoolEntries ...
 func (k Keeper) GetAllLeavePoolEntries(ctx sdk.Context) (list []types.LeavePoolEntry) {
 	storeAdapter := runtime.KVStoreAdapter(k.storeService.OpenKVStore(ctx))
diff --git a/x/stakers/keeper/getters_staker.go b/x/stakers/keeper/getters_staker.go
index eeee362..809599a 100644
--- a/x/stakers/keeper/getters_staker.go
+++ b/x/stakers/keeper/getters_staker.go
@@ -84,6 +84,10 @@ func (k Keeper) RemoveValaccountFromPool(ctx sdk.Context, poolId uint64, stakerA
 		k.removeValaccount(ctx, valaccount)
 		k.subtractOneFromCount(ctx, poolId)
 		k.removeActiveStaker(ctx, stakerAddress)
+
+		// a pending leave request is obsolete once the staker has left the pool, otherwise
+		// it would block or shorten a later leave of the same staker from the same pool
+		k.removePendingLeavePoolEntry(ctx, stakerAddress, poolId)
 	}
 }
 
-- 
2.43.0


From 72eae39a27061d0465c6f6710ad1c67036a9e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 07/29] fix: support addresses of any length in delegation and
 valaccount lookups

---
 x/delegation/keeper/getters_delegator.go               | 2 +-
 x/delegation/keeper/getters_index_stakers.go           | 4 ++--
 x/delegation/keeper/getters_redelegation.go            | 6 ++++--
 x/query/keeper/grpc_account_assets.go                  | 2 +-
 x/query/keeper/grpc_delegation_stakers_by_delegator.go | 2 +-
 x/stakers/keeper/getters_valaccount.go                 | 2 +-
 6 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/x/delegation/keeper/getters_delegator.go b/x/delegation/keeper/getters_delegator.go
index 67c1a57..82b0279 100644
--- a/x/delegation/keeper/getters_delegator.go
+++ b/x/delegation/keeper/getters_delegator.go
@@ -105,7 +105,7 @@ func (k Keeper) GetStakersByDelegator(ctx sdk.Context, delegator string) (list [
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
-		staker := string(iterator.Key()[43 : 43+43])
+		staker := string(iterator.Key()[len(delegator):])
 		list = append(list, staker)
 	}
 	return
diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 4974608..927babb 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -98,7 +98,7 @@ func (k Keeper) GetPaginatedStakersByDelegation(ctx sdk.Context, pagination *que
 	store := prefix.NewStore(storeAdapter, types.StakerIndexKeyPrefix)
 
 	pageRes, err := query.FilteredPaginate(store, pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
-		address := string(key[8 : 8+43])
+		address := string(key[8:])
 		return accumulator(address, accumulate), nil
 	})
 	if err != nil {
@@ -132,7 +132,7 @@ func (k Keeper) GetPaginatedInactiveStakersByDelegation(ctx sdk.Context, paginat
 	store := prefix.NewStore(storeAdapter, types.StakerIndexKeyPrefix)
 
 	pageRes, err := query.FilteredPaginate(store, pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
-		address := string(key[8 : 8+43])
+		address := string(key[8:])
 		if k.stakersKeeper.GetPoolCount(ctx, address) > 0 {
 			return false, nil
 		}
diff --git a/x/delegation/keeper/getters_redelegation.go b/x/delegation/keeper/getters_redelegation.go
index f439933..179a014 100644
--- a/x/delegation/keeper/getters_redelegation.go
+++ b/x/delegation/keeper/getters_redelegation.go
@@ -53,9 +53,11 @@ func (k Keeper) GetAllRedelegationCooldownEntries(ctx sdk.Context) (list []types
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
+		// the key consists of the address, which has no fixed length, and the 8 byte creation date
+		key := iterator.Key()
 		val := types.RedelegationCooldown{
-			Address:      string(iterator.Key()[0:43]),
-			CreationDate: binary.BigEndian.Uint64(iterator.Key()[43:51]),
+			Address:      string(key[:len(key)-8]),
+			CreationDate: binary.BigEndian.Uint64(key[len(key)-8:]),
 		}
 		list = append(list, val)
 	}
diff --git a/x/query/keeper/grpc_account_assets.go b/x/query/keeper/grpc_account_assets.go
index 064cf24..44015e7 100644
--- a/x/query/keeper/grpc_account_assets.go
+++ b/x/query/keeper/grpc_account_assets.go
@@ -53,7 +53,7 @@ func (k Keeper) AccountAssets(goCtx context.Context, req *types.QueryAccountAsse
 
 	for ; delegatorIterator.Valid(); delegatorIterator.Next() {
 
-		staker := string(delegatorIterator.Key()[0:43])
+		staker := string(delegatorIterator.Key())
 
 		response.ProtocolDelegation += k.delegationKeeper.GetDelegationAmountOfDelegator(ctx, staker, req.Address)
 		response.ProtocolRewards = response.ProtocolRewards.Add(k.delegationKeeper.GetOutstandingRewards(ctx, staker, req.Address)...)
diff --git a/x/query/keeper/grpc_delegation_stakers_by_delegator.go b/x/query/keeper/grpc_delegation_stakers_by_delegator.go
index ff91996..3f6e8d3 100644
--- a/x/query/keeper/grpc_delegation_stakers_by_delegator.go
+++ b/x/query/keeper/grpc_delegation_stakers_by_delegator.go
@@ -28,7 +28,7 @@ func (k Keeper) StakersByDelegator(goCtx context.Context, req *types.QueryStaker
 
 	pageRes, err := query.FilteredPaginate(delegatorStore, req.Pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
 		if accumulate {
-			staker := string(key[0:43])
+			staker := string(key)
 
 			stakers = append(stakers, types.DelegationForStakerResponse{
 				Staker:           k.GetFullStaker(ctx, staker),
diff --git a/x/stakers/keeper/getters_valaccount.go b/x/stakers/keeper/getters_valaccount.go
index ac461a5..18dbff1 100644
--- a/x/stakers/keeper/getters_valaccount.go
+++ b/x/stakers/keeper/getters_valaccount.go
@@ -62,7 +62,7 @@ func (k Keeper) GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string)
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
-		poolId := binary.BigEndian.Uint64(iterator.Key()[43 : 43+8])
+		poolId := binary.BigEndian.Uint64(iterator.Key()[len(stakerAddress):])
 		valaccount, valaccountFound := k.GetValaccount(ctx, poolId, stakerAddress)
 
 		if valaccountFound {
-- 
2.43.0


From a122bc96596c43b57038cb522020b89cd0496db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 08/29] fix: return the requested page of stakers sorted by
 pool count

---
 x/delegation/keeper/getters_index_stakers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 927babb..26f3d0e 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -28,11 +28,13 @@ func arrayPagination(slice []string, pagination *query.PageRequest) ([]string, *
 		return nil, nil, err
 	}
 
-	resultLength := util.MinInt(limit, len(slice)-page*limit)
+	// the page returned by ParsePagination is one-based
+	minIndex := util.MinInt((page-1)*limit, len(slice))
+	resultLength := util.MinInt(limit, len(slice)-minIndex)
 	result := make([]string, resultLength)
 
 	for i := 0; i < resultLength; i++ {
-		result[i] = slice[page*limit+i]
+		result[i] = slice[minIndex+i]
 	}
 
 	pageRes := &query.PageResponse{
-- 
2.43.0


From 061bfba88092ad9238dd23ebecdabae63d11c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 09/29] fix: return an empty page for a reversed bundle query
 beyond the last bundle

---
 x/bundles/keeper/getters_bundles.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/bundles/keeper/getters_bundles.go b/x/bundles/keeper/getters_bundles.go
index 17f222d..1405512 100644
--- a/x/bundles/keeper/getters_bundles.go
+++ b/x/bundles/keeper/getters_bundles.go
@@ -244,6 +244,10 @@ func (k Keeper) GetPaginatedFinalizedBundleQuery(ctx sdk.Context, pagination *qu
 	// Translate offset to next page keys
 	if len(key) == 0 {
 		if reverse {
+			// an offset beyond the last bundle results in an empty page
+			if offset > pageResponse.Total {
+				offset = pageResponse.Total
+			}
 			pagination.Key = util.GetByteKey(pageResponse.Total - offset)
 		} else {
 			pagination.Key = util.GetByteKey(offset)
-- 
2.43.0


From 1701b36bd1a090297806a18ef34fca06b33e5560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 10/29] fix: report zero available redelegation slots if the
 max amount got lowered

---
 x/query/keeper/grpc_account_redelegation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/query/keeper/grpc_account_redelegation.go b/x/query/keeper/grpc_account_redelegation.go
index d6bac7d..2b67455 100644
--- a/x/query/keeper/grpc_account_redelegation.go
+++ b/x/query/keeper/grpc_account_redelegation.go
@@ -31,8 +31,14 @@ func (k Keeper) AccountRedelegation(goCtx context.Context, req *types.QueryAccou
 		}
 	}
 
+	// the max amount could have been lowered while there are still active cooldowns
+	availableSlots := uint64(0)
+	if maxAmount := k.delegationKeeper.GetRedelegationMaxAmount(ctx); maxAmount > usedSlots {
+		availableSlots = maxAmount - usedSlots
+	}
+
 	return &types.QueryAccountRedelegationResponse{
 		RedelegationCooldownEntries: redelegationEntries,
-		AvailableSlots:              k.delegationKeeper.GetRedelegationMaxAmount(ctx) - usedSlots,
+		AvailableSlots:              availableSlots,
 	}, nil
 }
-- 
2.43.0


From ab36f215382c2ef3080817a0d65fbdc06c9cf18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 11/29] fix: do not overflow the storage cost for large data
 sizes

---
 x/bundles/keeper/logic_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/logic_bundles.go b/x/bundles/keeper/logic_bundles.go
index a9b30c7..a11a01b 100644
--- a/x/bundles/keeper/logic_bundles.go
+++ b/x/bundles/keeper/logic_bundles.go
@@ -280,7 +280,7 @@ func (k Keeper) calculatePayouts(ctx sdk.Context, poolId uint64, totalPayout sdk
 	wantedStorageRewards := sdk.NewCoins()
 	// storageCostPerCoin is the storage cost in $USD for each coin. This implies that each coin contributes the same
 	// amount of value to the storage rewards
-	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt64(int64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
+	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt(math.NewIntFromUint64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
 	for _, coin := range totalPayout {
 		weight := whitelist[coin.Denom].CoinWeight
 		if weight.IsZero() {
-- 
2.43.0


From 76e00186664f8edfda74d83cf652c83359f0cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 12/29] fix: never round up delegation rewards

---
 x/delegation/keeper/logic_f1distribution.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/delegation/keeper/logic_f1distribution.go b/x/delegation/keeper/logic_f1distribution.go
index 053b78e..c7b760b 100644
--- a/x/delegation/keeper/logic_f1distribution.go
+++ b/x/delegation/keeper/logic_f1distribution.go
@@ -42,7 +42,7 @@ func (k Keeper) f1StartNewPeriod(ctx sdk.Context, staker string, delegationData
 		decTotalDelegation := math.LegacyNewDec(int64(delegationData.TotalDelegation))
 
 		// F1: $T_f / n_f$
-		currentPeriodValue = decCurrentRewards.QuoDec(decTotalDelegation)
+		currentPeriodValue = decCurrentRewards.QuoDecTruncate(decTotalDelegation)
 	}
 
 	// Add previous entry to current one
@@ -317,7 +317,7 @@ func (k Keeper) f1GetOutstandingRewards(ctx sdk.Context, stakerAddress string, d
 		decTotalDelegation := math.LegacyNewDec(int64(delegationData.TotalDelegation))
 
 		// F1: $T_f / n_f$
-		currentPeriodValue = decCurrentRewards.QuoDec(decTotalDelegation)
+		currentPeriodValue = decCurrentRewards.QuoDecTruncate(decTotalDelegation)
 	}
 
 	ongoingPeriodReward := safeMulDec(currentPeriodValue, latestBalance)
@@ -354,5 +354,5 @@ func safeMulDec(coins sdk.DecCoins, scalar math.LegacyDec) sdk.DecCoins {
 	if scalar.IsZero() {
 		return sdk.NewDecCoins()
 	}
-	return coins.MulDec(scalar)
+	return coins.MulDecTruncate(scalar)
 }
-- 
2.43.0


From 78de2be13a322591baa836e9234ae8c8a3be6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 13/29] fix: do not give points for missed votes when there is
 no proposal to vote on

---
 x/bundles/keeper/msg_server_skip_uploader_role.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/x/bundles/keeper/msg_server_skip_uploader_role.go b/x/bundles/keeper/msg_server_skip_uploader_role.go
index bc5d41e..b7d0ea3 100644
--- a/x/bundles/keeper/msg_server_skip_uploader_role.go
+++ b/x/bundles/keeper/msg_server_skip_uploader_role.go
@@ -20,10 +20,17 @@ func (k msgServer) SkipUploaderRole(goCtx context.Context, msg *types.MsgSkipUpl
 	// reset points of uploader as node has proven to be active
 	k.resetPoints(ctx, msg.PoolId, msg.Staker)
 
-	// Previous round contains a bundle which needs to be validated now
-	result, err := k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId)
-	if err != nil {
-		return nil, err
+	// If the previous bundle was dropped there is nothing which could have been voted on,
+	// so no validator missed a vote and only the next uploader has to be selected
+	result := types.TallyResult{Status: types.TallyResultNoQuorum}
+
+	if bundleProposal.StorageId != "" {
+		// Previous round contains a bundle which needs to be validated now
+		var err error
+		result, err = k.tallyBundleProposal(ctx, bundleProposal, msg.PoolId)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Get next uploader, except the one who skipped
-- 
2.43.0


From 0d96063a23e54992e356b7efa6c40e5889447dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 14/29] fix: do not overflow when checking the available team
 allocation

---
 x/team/keeper/msg_server_create_team_vesting_account.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/team/keeper/msg_server_create_team_vesting_account.go b/x/team/keeper/msg_server_create_team_vesting_account.go
index f9924a6..c71be1f 100644
--- a/x/team/keeper/msg_server_create_team_vesting_account.go
+++ b/x/team/keeper/msg_server_create_team_vesting_account.go
@@ -21,7 +21,7 @@ func (k msgServer) CreateTeamVestingAccount(goCtx context.Context, msg *types.Ms
 	}
 
 	// check if new team vesting account still has allocation left
-	if k.GetIssuedTeamAllocation(ctx)+msg.TotalAllocation > types.TEAM_ALLOCATION {
+	if issued := k.GetIssuedTeamAllocation(ctx); issued > types.TEAM_ALLOCATION || msg.TotalAllocation > types.TEAM_ALLOCATION-issued {
 		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), types.TEAM_ALLOCATION-k.GetIssuedTeamAllocation(ctx), msg.TotalAllocation)
 	}
 
-- 
2.43.0


From 728ef43105c8c1dd88f6ce239efe951391786a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 15/29] fix: do not exceed the team allocation when a clawback
 is moved or removed

---
 x/team/keeper/msg_server_clawback.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/x/team/keeper/msg_server_clawback.go b/x/team/keeper/msg_server_clawback.go
index ddebb46..6006e6c 100644
--- a/x/team/keeper/msg_server_clawback.go
+++ b/x/team/keeper/msg_server_clawback.go
@@ -31,7 +31,18 @@ func (k msgServer) Clawback(goCtx context.Context, msg *types.MsgClawback) (*typ
 		return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrInvalidClawbackDate.Error())
 	}
 
+	previousAllocation := getVestingMaxAmount(account)
 	account.Clawback = msg.Clawback
+
+	// moving or removing a clawback can increase the allocation of the account again, the tokens which
+	// got freed by the previous clawback could have been assigned to other accounts in the meantime
+	if allocation := getVestingMaxAmount(account); allocation > previousAllocation {
+		issued := k.GetIssuedTeamAllocation(ctx)
+		if issued > types.TEAM_ALLOCATION || allocation-previousAllocation > types.TEAM_ALLOCATION-issued {
+			return nil, errors.Wrapf(sdkErrors.ErrLogic, types.ErrAvailableFundsTooLow.Error(), types.TEAM_ALLOCATION-issued, allocation-previousAllocation)
+		}
+	}
+
 	k.SetTeamVestingAccount(ctx, account)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventClawback{
-- 
2.43.0


From 80ebd35c77f05c7961420d81d943fee929def459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 16/29] fix: only emit the leave event if the staker actually
 was in the pool

---
 x/stakers/keeper/exported_functions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index c661b45..113e645 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -20,6 +20,11 @@ import (
 // The staker is no longer able to participate in the given pool.
 // All points the staker had in that pool are deleted.
 func (k Keeper) LeavePool(ctx sdk.Context, staker string, poolId uint64) {
+	// nothing to do if the staker already left the pool
+	if !k.DoesValaccountExist(ctx, poolId, staker) {
+		return
+	}
+
 	k.RemoveValaccountFromPool(ctx, poolId, staker)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventLeavePool{
-- 
2.43.0


From 1330826ceba75618dfe1143136085e13d2c05c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 17/29] fix: do not change the old params while applying a
 params update

The new params shared slices with the old ones, so decoding the payload
changed both. Errors and invalid results were ignored as well.
---
 x/bundles/keeper/msg_server_update_params.go    | 11 +++++++++--
 x/delegation/keeper/msg_server_update_params.go | 11 +++++++++--
 x/funders/keeper/msg_server_update_params.go    | 11 +++++++++--
 x/global/keeper/msg_server_update_params.go     | 11 +++++++++--
 x/pool/keeper/msg_server_update_params.go       | 11 +++++++++--
 x/stakers/keeper/msg_server_update_params.go    | 11 +++++++++--
 6 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/x/bundles/keeper/msg_server_update_params.go b/x/bundles/keeper/msg_server_update_params.go
index 9e67e99..eb24331 100644
--- a/x/bundles/keeper/msg_server_update_params.go
+++ b/x/bundles/keeper/msg_server_update_params.go
@@ -22,8 +22,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	// Read the params again so that the payload does not get applied on
+	// values which are shared with the old params.
+	newParams := k.GetParams(ctx)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/delegation/keeper/msg_server_update_params.go b/x/delegation/keeper/msg_server_update_params.go
index 712e584..3756479 100644
--- a/x/delegation/keeper/msg_server_update_params.go
+++ b/x/delegation/keeper/msg_server_update_params.go
@@ -21,8 +21,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	// Read the params again so that the payload does not get applied on
+	// values which are shared with the old params.
+	newParams := k.GetParams(ctx)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index 0872cc6..c307403 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -21,8 +21,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	// Read the params again so that the payload does not get applied on
+	// values which are shared with the old params.
+	newParams := k.GetParams(ctx)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/global/keeper/msg_server_update_params.go b/x/global/keeper/msg_server_update_params.go
index 4189a23..9e45638 100644
--- a/x/global/keeper/msg_server_update_params.go
+++ b/x/global/keeper/msg_server_update_params.go
@@ -21,8 +21,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	// Read the params again so that the payload does not get applied on
+	// values which are shared with the old params.
+	newParams := k.GetParams(ctx)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/pool/keeper/msg_server_update_params.go b/x/pool/keeper/msg_server_update_params.go
index 9209b96..19ecd66 100644
--- a/x/pool/keeper/msg_server_update_params.go
+++ b/x/pool/keeper/msg_server_update_params.go
@@ -21,8 +21,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	// Read the params again so that the payload does not get applied on
+	// values which are shared with the old params.
+	newParams := k.GetParams(ctx)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
diff --git a/x/stakers/keeper/msg_server_update_params.go b/x/stakers/keeper/msg_server_update_params.go
index 0e5e6a6..5a4b3b4 100644
--- a/x/stakers/keeper/msg_server_update_params.go
+++ b/x/stakers/keeper/msg_server_update_params.go
@@ -21,8 +21,15 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	oldParams := k.GetParams(ctx)
 
-	newParams := oldParams
-	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+	// Read the params again so that the payload does not get applied on
+	// values which are shared with the old params.
+	newParams := k.GetParams(ctx)
+	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
+		return nil, err
+	}
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
-- 
2.43.0


From 862bd75bdc1094cb1a063262b2c244f9b3bca7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 18/29] fix: leave the inflation rounding remainder with the
 validators

The remainder was sent to every pool that can not run (instead of once to an
active one), which also can exceed the fee collector balance and halt the chain.
---
 x/bundles/abci.go | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/x/bundles/abci.go b/x/bundles/abci.go
index 0dbf318..3051684 100644
--- a/x/bundles/abci.go
+++ b/x/bundles/abci.go
@@ -37,9 +37,6 @@ func SplitInflation(ctx sdk.Context, k bundlesKeeper.Keeper, bk util.BankKeeper,
 		return
 	}
 
-	// track actual distributed block provision for protocol
-	distributed := uint64(0)
-
 	// calculate total inflation share weight of pools to get each pool's reward share
 	totalInflationShareWeight := math.LegacyZeroDec()
 
@@ -68,27 +65,9 @@ func SplitInflation(ctx sdk.Context, k bundlesKeeper.Keeper, bk util.BankKeeper,
 			if err := util.TransferFromModuleToAddress(bk, ctx, authTypes.FeeCollectorName, pool.GetPoolAccount().String(), amount); err != nil {
 				util.PanicHalt(uk, ctx, err.Error())
 			}
-
-			// track transferred $KYVE to protocol
-			distributed += amount
-		}
-	}
-
-	// calculate if a remainder is left
-	remainder := uint64(protocolBlockProvision) - distributed
-
-	if remainder > 0 {
-		// find an active pool
-		for _, pool := range pk.GetAllPools(ctx) {
-			if err := k.AssertPoolCanRun(ctx, pool.Id); err != nil {
-				// add remainder to first active pool we find
-				if err := util.TransferFromModuleToAddress(bk, ctx, authTypes.FeeCollectorName, pool.GetPoolAccount().String(), remainder); err != nil {
-					util.PanicHalt(uk, ctx, err.Error())
-				}
-			}
 		}
 	}
 
-	// rest gets transferred to chain
+	// rest, including the rounding remainder, gets transferred to chain
 	k.Logger().Info("split portion of minted coins to protocol", "amount", protocolBlockProvision)
 }
-- 
2.43.0


From 1254eab89010822b29bdb5358a7044281b4b54d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 19/29] fix: clear the delegation total when the last delegator
 leaves

Slash rounding can leave dust in the total of a staker nobody delegates to
anymore; rewards were then paid to nobody and got stuck.
---
 x/delegation/keeper/logic_f1distribution.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/delegation/keeper/logic_f1distribution.go b/x/delegation/keeper/logic_f1distribution.go
index c7b760b..d7de590 100644
--- a/x/delegation/keeper/logic_f1distribution.go
+++ b/x/delegation/keeper/logic_f1distribution.go
@@ -138,8 +138,10 @@ func (k Keeper) f1RemoveDelegator(ctx sdk.Context, stakerAddress string, delegat
 	// Remove old entry
 	k.RemoveDelegationEntry(ctx, stakerAddress, delegator.KIndex)
 
-	// Final cleanup
+	// Final cleanup. Slash rounding can leave dust in the total although
+	// nobody is delegating anymore. It must not attract rewards.
 	if delegationData.DelegatorCount == 0 {
+		delegationData.TotalDelegation = 0
 		k.RemoveDelegationEntry(ctx, stakerAddress, delegationData.LatestIndexK)
 	}
 	k.SetDelegationData(ctx, delegationData)
-- 
2.43.0


From 58eb69ef0a72a48672ce1a0df202175c63acd8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 20/29] fix: validate denoms, duplicates and decimals of
 whitelisted coins

An invalid denom made every funding operation panic, and more than about
sixty decimals halted the chain while evaluating a bundle proposal.
---
 x/funders/types/params.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/x/funders/types/params.go b/x/funders/types/params.go
index f998c08..0d69939 100644
--- a/x/funders/types/params.go
+++ b/x/funders/types/params.go
@@ -1,10 +1,10 @@
 package types
 
 import (
-	"errors"
 	"fmt"
 
 	"cosmossdk.io/math"
+	sdk "github.com/cosmos/cosmos-sdk/types"
 
 	"github.com/KYVENetwork/chain/util"
 	globalTypes "github.com/KYVENetwork/chain/x/global/types"
@@ -48,10 +48,21 @@ func (p *Params) Validate() error {
 
 	// the native $KYVE coin has to always be whitelisted
 	kyveWhitelisted := false
+	denoms := make(map[string]bool)
 
 	for _, entry := range p.CoinWhitelist {
-		if entry.CoinDenom == "" {
-			return errors.New("coin denom is empty")
+		if err := sdk.ValidateDenom(entry.CoinDenom); err != nil {
+			return err
+		}
+
+		if denoms[entry.CoinDenom] {
+			return fmt.Errorf("duplicated coin denom \"%s\"", entry.CoinDenom)
+		}
+		denoms[entry.CoinDenom] = true
+
+		// currency units have to be representable as decimals with a precision of 18
+		if entry.CoinDecimals > math.LegacyPrecision {
+			return fmt.Errorf("coin decimals %d exceed %d", entry.CoinDecimals, math.LegacyPrecision)
 		}
 
 		if err := util.ValidateInt(entry.MinFundingAmount); err != nil {
-- 
2.43.0


From 09d43ece182cbc2187223ea52d403f079cac08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:45 +0000
Subject: [PATCH 21/29] fix: accept whitelisted coins without a minimum

---
 x/funders/keeper/logic_funders.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index a94a4e6..d1e2e66 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -139,6 +139,8 @@ func (k Keeper) ensureParamsCompatibility(ctx sdk.Context, funding *types.Fundin
 
 	minFundingAmounts := sdk.NewCoins()
 	minFundingAmountsPerBundle := sdk.NewCoins()
+	// minimums of zero are not part of the coins above
+	whitelist := k.GetCoinWhitelistMap(ctx)
 
 	for _, entry := range params.CoinWhitelist {
 		minFundingAmounts = minFundingAmounts.Add(sdk.NewCoin(entry.CoinDenom, entry.MinFundingAmount))
@@ -154,13 +156,17 @@ func (k Keeper) ensureParamsCompatibility(ctx sdk.Context, funding *types.Fundin
 	}
 
 	// throw error if a coin in amounts is not in the whitelist
-	if !funding.Amounts.DenomsSubsetOf(minFundingAmounts) {
-		return types.ErrCoinNotWhitelisted
+	for _, coin := range funding.Amounts {
+		if _, found := whitelist[coin.Denom]; !found {
+			return types.ErrCoinNotWhitelisted
+		}
 	}
 
 	// throw error if a coin in amounts per bundle is not in the whitelist
-	if !funding.AmountsPerBundle.DenomsSubsetOf(minFundingAmountsPerBundle) {
-		return types.ErrAmountPerBundleCoinNotWhitelisted
+	for _, coin := range funding.AmountsPerBundle {
+		if _, found := whitelist[coin.Denom]; !found {
+			return types.ErrAmountPerBundleCoinNotWhitelisted
+		}
 	}
 
 	// throw error if a coin is less than the minimum funding amount
-- 
2.43.0


From b1cf20b70198da10fd95461c639570fc574e2e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 22/29] fix: do not list funders without funds as active

---
 x/funders/keeper/msg_server_fund_pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/funders/keeper/msg_server_fund_pool.go b/x/funders/keeper/msg_server_fund_pool.go
index 7fcf087..a0ef2a7 100644
--- a/x/funders/keeper/msg_server_fund_pool.go
+++ b/x/funders/keeper/msg_server_fund_pool.go
@@ -64,6 +64,11 @@ func (k msgServer) FundPool(goCtx context.Context, msg *types.MsgFundPool) (*typ
 		return nil, err
 	}
 
+	// A funding without any funds must not occupy a funder slot
+	if funding.IsInactive() {
+		return nil, types.ErrMinFundingAmount
+	}
+
 	// Kicks out lowest funder if all slots are taken and new funder is about to fund more.
 	// Otherwise, an error is thrown
 	// funding and fundingState are not written to the KV-Store. Everything else is handled safely.
-- 
2.43.0


From 9d8448a0f720b2ace31f93674e6d5eb28aff3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 23/29] fix: treat valaddresses as case-insensitive when
 joining a pool

---
 x/stakers/keeper/msg_server_join_pool.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x/stakers/keeper/msg_server_join_pool.go b/x/stakers/keeper/msg_server_join_pool.go
index cf843dd..95fd979 100644
--- a/x/stakers/keeper/msg_server_join_pool.go
+++ b/x/stakers/keeper/msg_server_join_pool.go
@@ -2,6 +2,7 @@ package keeper
 
 import (
 	"context"
+	"strings"
 
 	"github.com/KYVENetwork/chain/util"
 
@@ -39,10 +40,17 @@ func (k msgServer) JoinPool(goCtx context.Context, msg *types.MsgJoinPool) (*typ
 
 	// Stakers are not allowed to use their own address, to prevent
 	// users from putting their staker private key on the protocol node server.
-	if msg.Creator == msg.Valaddress {
+	// Note that bech32 addresses are case-insensitive.
+	if strings.EqualFold(msg.Creator, msg.Valaddress) {
 		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, types.ErrValaddressSameAsStaker.Error())
 	}
 
+	// Only accept the canonical spelling, so that the uniqueness of valaddresses
+	// below can not be circumvented.
+	if msg.Valaddress != strings.ToLower(msg.Valaddress) {
+		return nil, errors.Wrapf(errorsTypes.ErrInvalidAddress, "valaddress has to be lowercase")
+	}
+
 	// Stakers are not allowed to join a pool twice.
 	if _, valaccountFound := k.GetValaccount(ctx, msg.PoolId, msg.Creator); valaccountFound {
 		return nil, errors.Wrapf(errorsTypes.ErrInvalidRequest, types.ErrAlreadyJoinedPool.Error())
-- 
2.43.0


From 3bd2d2e3efeb7dd4fd5e2bbb7f5546556aa4170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 24/29] fix: ignore stakers without delegation in the
 governance tally

---
 x/stakers/keeper/exported_functions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/stakers/keeper/exported_functions.go b/x/stakers/keeper/exported_functions.go
index 113e645..9995038 100644
--- a/x/stakers/keeper/exported_functions.go
+++ b/x/stakers/keeper/exported_functions.go
@@ -104,6 +104,12 @@ func (k Keeper) GetActiveValidators(ctx context.Context) (validators []interface
 	for _, address := range k.getAllActiveStakers(sdkCtx) {
 		delegation := int64(k.delegationKeeper.GetDelegationAmount(sdkCtx, address))
 
+		// the tally divides by the shares of a validator, therefore stakers
+		// without any delegation (and voting power) must not be included
+		if delegation == 0 {
+			continue
+		}
+
 		validator := govV1Types.NewValidatorGovInfo(
 			sdk.ValAddress(sdk.MustAccAddressFromBech32(address)),
 			math.NewInt(delegation),
-- 
2.43.0


From f1b86490333efde717301b4987e2781ad79605d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 25/29] fix: do not merge updated lists of params with the old
 entries

A payload entry that omits a field took over the value the old list had at
the same position.
---
 x/bundles/keeper/msg_server_update_params.go | 13 +++++++++++++
 x/funders/keeper/msg_server_update_params.go | 13 +++++++++++++
 x/global/keeper/msg_server_update_params.go  | 17 +++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/x/bundles/keeper/msg_server_update_params.go b/x/bundles/keeper/msg_server_update_params.go
index eb24331..3da0544 100644
--- a/x/bundles/keeper/msg_server_update_params.go
+++ b/x/bundles/keeper/msg_server_update_params.go
@@ -25,6 +25,19 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	// Read the params again so that the payload does not get applied on
 	// values which are shared with the old params.
 	newParams := k.GetParams(ctx)
+
+	// A list in the payload replaces the old list. Without clearing it first,
+	// omitted fields would be taken over from the old entries.
+	var lists struct {
+		StorageCosts json.RawMessage `json:"storage_costs"`
+	}
+	if err := json.Unmarshal([]byte(msg.Payload), &lists); err != nil {
+		return nil, err
+	}
+	if lists.StorageCosts != nil {
+		newParams.StorageCosts = nil
+	}
+
 	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
 		return nil, err
 	}
diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index c307403..5053625 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -24,6 +24,19 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	// Read the params again so that the payload does not get applied on
 	// values which are shared with the old params.
 	newParams := k.GetParams(ctx)
+
+	// A list in the payload replaces the old list. Without clearing it first,
+	// omitted fields would be taken over from the old entries.
+	var lists struct {
+		CoinWhitelist json.RawMessage `json:"coin_whitelist"`
+	}
+	if err := json.Unmarshal([]byte(msg.Payload), &lists); err != nil {
+		return nil, err
+	}
+	if lists.CoinWhitelist != nil {
+		newParams.CoinWhitelist = nil
+	}
+
 	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
 		return nil, err
 	}
diff --git a/x/global/keeper/msg_server_update_params.go b/x/global/keeper/msg_server_update_params.go
index 9e45638..f5c09ce 100644
--- a/x/global/keeper/msg_server_update_params.go
+++ b/x/global/keeper/msg_server_update_params.go
@@ -24,6 +24,23 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 	// Read the params again so that the payload does not get applied on
 	// values which are shared with the old params.
 	newParams := k.GetParams(ctx)
+
+	// A list in the payload replaces the old list. Without clearing it first,
+	// omitted fields would be taken over from the old entries.
+	var lists struct {
+		GasAdjustments json.RawMessage `json:"gas_adjustments"`
+		GasRefunds     json.RawMessage `json:"gas_refunds"`
+	}
+	if err := json.Unmarshal([]byte(msg.Payload), &lists); err != nil {
+		return nil, err
+	}
+	if lists.GasAdjustments != nil {
+		newParams.GasAdjustments = nil
+	}
+	if lists.GasRefunds != nil {
+		newParams.GasRefunds = nil
+	}
+
 	if err := json.Unmarshal([]byte(msg.Payload), &newParams); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 23f61fe40c401f0e653d2993e36ca98471045342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 26/29] fix: list stakers without delegation and only stakers
 in the staker index

---
 x/delegation/genesis.go                      | 2 --
 x/delegation/keeper/getters_index_stakers.go | 5 +++++
 x/delegation/keeper/keeper.go                | 4 ++--
 x/delegation/types/expected_keepers.go       | 1 +
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/x/delegation/genesis.go b/x/delegation/genesis.go
index eaf9867..369d555 100644
--- a/x/delegation/genesis.go
+++ b/x/delegation/genesis.go
@@ -36,8 +36,6 @@ func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState)
 	for _, entry := range genState.RedelegationCooldownList {
 		k.SetRedelegationCooldown(ctx, entry)
 	}
-
-	k.InitMemStore(ctx)
 }
 
 // ExportGenesis returns the capability module's exported genesis.
diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 26f3d0e..5177d27 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -78,6 +78,11 @@ func arrayPaginationAccumulator(slice []string, pagination *query.PageRequest, a
 // SetStakerIndex sets and Index-entry which sorts all stakers (active and passive)
 // by its total delegation
 func (k Keeper) SetStakerIndex(ctx sdk.Context, staker string) {
+	// An unbonding of zero tokens can refer to an address which is not a staker
+	if !k.stakersKeeper.DoesStakerExist(ctx, staker) {
+		return
+	}
+
 	amount := k.GetDelegationAmount(ctx, staker)
 	storeAdapter := runtime.KVStoreAdapter(k.memService.OpenMemoryStore(ctx))
 	store := prefix.NewStore(storeAdapter, types.StakerIndexKeyPrefix)
diff --git a/x/delegation/keeper/keeper.go b/x/delegation/keeper/keeper.go
index 7f54a34..c2ffa42 100644
--- a/x/delegation/keeper/keeper.go
+++ b/x/delegation/keeper/keeper.go
@@ -75,8 +75,8 @@ func (k Keeper) InitMemStore(gasCtx sdk.Context) {
 
 		// Update mem index
 		noGasCtx := gasCtx.WithBlockGasMeter(storetypes.NewInfiniteGasMeter())
-		for _, entry := range k.GetAllDelegationData(noGasCtx) {
-			k.SetStakerIndex(noGasCtx, entry.Staker)
+		for _, staker := range k.stakersKeeper.GetAllStakers(noGasCtx) {
+			k.SetStakerIndex(noGasCtx, staker.Address)
 		}
 
 		memStoreInitialized = true
diff --git a/x/delegation/types/expected_keepers.go b/x/delegation/types/expected_keepers.go
index 4597599..f8c557f 100644
--- a/x/delegation/types/expected_keepers.go
+++ b/x/delegation/types/expected_keepers.go
@@ -31,4 +31,5 @@ type StakersKeeper interface {
 	GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string) (val []*stakerstypes.Valaccount)
 	GetPoolCount(ctx sdk.Context, stakerAddress string) (poolCount uint64)
 	GetActiveStakers(ctx sdk.Context) []string
+	GetAllStakers(ctx sdk.Context) (list []stakerstypes.Staker)
 }
-- 
2.43.0


From 646b800a1b4b5f01af125ed184ecc7ccbaac3121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 27/29] fix: honour offsets which are not a multiple of the
 limit when paginating active stakers

---
 x/delegation/keeper/getters_index_stakers.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 5177d27..264eed1 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -23,13 +23,13 @@ func arrayPagination(slice []string, pagination *query.PageRequest) ([]string, *
 		return nil, nil, fmt.Errorf("key pagination not supported")
 	}
 
-	page, limit, err := query.ParsePagination(pagination)
+	_, limit, err := query.ParsePagination(pagination)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	// the page returned by ParsePagination is one-based
-	minIndex := util.MinInt((page-1)*limit, len(slice))
+	// the offset does not have to be a multiple of the limit
+	minIndex := util.MinInt(int(pagination.GetOffset()), len(slice))
 	resultLength := util.MinInt(limit, len(slice)-minIndex)
 	result := make([]string, resultLength)
 
@@ -52,17 +52,17 @@ func arrayPaginationAccumulator(slice []string, pagination *query.PageRequest, a
 		return nil, fmt.Errorf("key pagination not supported")
 	}
 
-	page, limit, err := query.ParsePagination(pagination)
+	_, limit, err := query.ParsePagination(pagination)
 	if err != nil {
 		return nil, err
 	}
 
 	count := 0
-	minIndex := (page - 1) * limit
-	maxIndex := (page) * limit
+	// the offset does not have to be a multiple of the limit
+	minIndex := int(pagination.GetOffset())
 
 	for i := 0; i < len(slice); i++ {
-		if accumulator(slice[i], count >= minIndex && count < maxIndex) {
+		if accumulator(slice[i], count >= minIndex && count-minIndex < limit) {
 			count++
 		}
 	}
-- 
2.43.0


From eb3e3fe4ee77d30ee08876595578a2b472b72a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 28/29] fix: do not predict that a bundle can be proposed while
 the pending one has no quorum

---
 x/query/keeper/grpc_query_can_propose.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x/query/keeper/grpc_query_can_propose.go b/x/query/keeper/grpc_query_can_propose.go
index 9cfc66d..060999b 100644
--- a/x/query/keeper/grpc_query_can_propose.go
+++ b/x/query/keeper/grpc_query_can_propose.go
@@ -3,6 +3,7 @@ package keeper
 import (
 	"context"
 
+	bundlesTypes "github.com/KYVENetwork/chain/x/bundles/types"
 	"github.com/KYVENetwork/chain/x/query/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"google.golang.org/grpc/codes"
@@ -23,6 +24,15 @@ func (k Keeper) CanPropose(c context.Context, req *types.QueryCanProposeRequest)
 		}, nil
 	}
 
+	// a pending bundle proposal has to be tallied first and a submission gets rejected without a quorum
+	bundleProposal, _ := k.bundleKeeper.GetBundleProposal(ctx, req.PoolId)
+	if bundleProposal.StorageId != "" && k.bundleKeeper.GetVoteDistribution(ctx, req.PoolId).Status == bundlesTypes.BUNDLE_STATUS_NO_QUORUM {
+		return &types.QueryCanProposeResponse{
+			Possible: false,
+			Reason:   bundlesTypes.ErrQuorumNotReached.Error(),
+		}, nil
+	}
+
 	return &types.QueryCanProposeResponse{
 		Possible: true,
 		Reason:   "",
-- 
2.43.0


From 962cb61eff2761a4a3dda374232f0369aa7cf7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:40 +0000
Subject: [PATCH 29/29] fix: report the time at which a runtime upgrade will
 really start

An upgrade scheduled in the past starts now: the event named the requested
time instead of the time stored in the upgrade plan.
---
 x/pool/keeper/msg_server_schedule_runtime_upgrade.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
index 3b8f1ab..a6a7951 100644
--- a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
+++ b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
@@ -61,7 +61,7 @@ func (k msgServer) ScheduleRuntimeUpgrade(
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventRuntimeUpgradeScheduled{
 		Runtime:       req.Runtime,
 		Version:       req.Version,
-		ScheduledAt:   req.ScheduledAt,
+		ScheduledAt:   scheduledAt,
 		Duration:      req.Duration,
 		Binaries:      req.Binaries,
 		AffectedPools: affectedPools,
-- 
2.43.0

