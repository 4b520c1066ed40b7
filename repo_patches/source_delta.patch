From a0d624c8183049a3c306206d2c208d0bb4178dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 01/62] fix: forget a pool's k_last when liquidity changes
 while no fee receiver is set

---
 pallet/dex/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallet/dex/src/lib.rs b/pallet/dex/src/lib.rs
index e8a9c10..39c8991 100644
--- a/pallet/dex/src/lib.rs
+++ b/pallet/dex/src/lib.rs
@@ -736,6 +736,9 @@ where
 				*k = U256::from(reserve_a).mul(U256::from(reserve_b))?;
 				Ok(())
 			});
+		} else {
+			// a k_last kept across liquidity changes would be charged as swap growth later on
+			LiquidityPoolLastK::<T>::remove(lp_share_asset_id);
 		}
 
 		if is_swapped {
@@ -857,6 +860,9 @@ where
 				*k = U256::from(reserve_a).mul(U256::from(reserve_b))?;
 				Ok(())
 			});
+		} else {
+			// a k_last kept across liquidity changes would be charged as swap growth later on
+			LiquidityPoolLastK::<T>::remove(lp_share_asset_id);
 		}
 
 		if is_swapped {
-- 
2.43.0


From afbca0399120f7e68d100384e274d8963e4c42ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 02/62] fix: count a serial number listed twice in one NFT
 transfer once

---
 pallet/nft/src/impls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pallet/nft/src/impls.rs b/pallet/nft/src/impls.rs
index fbdbd69..372fce0 100644
--- a/pallet/nft/src/impls.rs
+++ b/pallet/nft/src/impls.rs
@@ -34,7 +34,7 @@ use seed_primitives::{CrossChainCompatibility, MAX_COLLECTION_ENTITLEMENTS};
 use sp_runtime::{
 	traits::Zero, ArithmeticError, BoundedVec, DispatchError, DispatchResult, SaturatedConversion,
 };
-use sp_std::vec;
+use sp_std::{collections::btree_set::BTreeSet, vec};
 
 impl<T: Config> Pallet<T> {
 	/// Returns the CollectionUuid unique across parachains
@@ -93,6 +93,11 @@ impl<T: Config> Pallet<T> {
 			Error::<T>::TransferUtilityBlocked
 		);
 
+		// a serial number listed twice is still one token
+		let mut serial_numbers = serial_numbers;
+		let mut seen = BTreeSet::new();
+		serial_numbers.retain(|serial_number| seen.insert(*serial_number));
+
 		CollectionInfo::<T>::try_mutate(collection_id, |maybe_collection_info| -> DispatchResult {
 			let collection_info =
 				maybe_collection_info.as_mut().ok_or(Error::<T>::NoCollectionFound)?;
-- 
2.43.0


From b5f2eb7cb5946527d2dd8d6ddd1c57bc0eb7259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:03 +0000
Subject: [PATCH 03/62] fix: do not truncate the XLS-20 mint fee to 32 bits

---
 pallet/xls20/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pallet/xls20/src/lib.rs b/pallet/xls20/src/lib.rs
index a672457..ea93b26 100644
--- a/pallet/xls20/src/lib.rs
+++ b/pallet/xls20/src/lib.rs
@@ -36,7 +36,7 @@ use seed_primitives::{
 };
 use sp_runtime::{
 	traits::{AccountIdConversion, Zero},
-	DispatchResult, SaturatedConversion,
+	DispatchResult,
 };
 use sp_std::prelude::*;
 
@@ -304,8 +304,7 @@ impl<T: Config> Pallet<T> {
 		}
 		if let Some(relayer) = Relayer::<T>::get() {
 			// Fee is per token minted
-			let nft_count: u32 = token_count.saturated_into();
-			let mint_fee: Balance = nft_count.saturating_mul(xls20_mint_fee as u32).into();
+			let mint_fee = xls20_mint_fee.saturating_mul(token_count as Balance);
 			// Make the payment
 			T::MultiCurrency::transfer(
 				T::Xls20PaymentAsset::get(),
-- 
2.43.0


From a63a3765e1976036fd677b137a047d02339a922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:48 +0000
Subject: [PATCH 04/62] fix: refuse the last asset/collection index instead of
 overflowing

---
 pallet/common/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/common/src/utils.rs b/pallet/common/src/utils.rs
index 19ad260..2a3296d 100644
--- a/pallet/common/src/utils.rs
+++ b/pallet/common/src/utils.rs
@@ -35,7 +35,7 @@ const MAX_U10: u32 = (1 << 10) - 1;
 pub fn next_asset_uuid(next_id: u32, parachain_id: u32) -> Option<u32> {
 	// Check ids fit within limited bit sizes
 	// next_id max 22 bits, parachain_id max 10 bits
-	if next_id + 1_u32 > MAX_U22 || parachain_id > MAX_U10 {
+	if next_id >= MAX_U22 || parachain_id > MAX_U10 {
 		return None;
 	}
 
-- 
2.43.0


From 82f2fe8de2a6782308fed0392e2393c50bc7e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 05/62] fix: never let a hold drop below the asset's minimum
 balance, where its backing is lost as dust

---
 pallet/assets-ext/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pallet/assets-ext/src/lib.rs b/pallet/assets-ext/src/lib.rs
index 3fe722d..175dfee 100644
--- a/pallet/assets-ext/src/lib.rs
+++ b/pallet/assets-ext/src/lib.rs
@@ -335,6 +335,16 @@ impl<T: Config> Pallet<T> {
 
 	/// Called by the ERC20 precompile to verify whether an assetId exists or not
 	/// Checked against whether the asset contains an owner
+	/// Held funds live in one shared account, where a remainder below the minimum balance is dust
+	/// and would be lost. A hold must therefore be either empty or no less than that minimum
+	fn ensure_sustainable_hold(asset_id: AssetId, amount: Balance) -> DispatchResult {
+		ensure!(
+			amount.is_zero() || amount >= <Self as Inspect<_>>::minimum_balance(asset_id),
+			Error::<T>::BalanceLow
+		);
+		Ok(())
+	}
+
 	pub fn asset_exists(asset_id: AssetId) -> bool {
 		if asset_id == T::NativeAssetId::get() {
 			true
@@ -559,6 +569,7 @@ impl<T: Config> Hold for Pallet<T> {
 		asset_id: AssetId,
 		amount: Balance,
 	) -> DispatchResult {
+		Self::ensure_sustainable_hold(asset_id, amount)?;
 		let mut holds = Holds::<T>::get(asset_id, who);
 		match holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			Ok(index) => {
@@ -604,6 +615,7 @@ impl<T: Config> Hold for Pallet<T> {
 		if let Ok(index) = holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			let (_, existing_hold) = holds[index];
 			let decreased_hold = existing_hold.checked_sub(amount).ok_or(Error::<T>::BalanceLow)?;
+			Self::ensure_sustainable_hold(asset_id, decreased_hold)?;
 			if decreased_hold.is_zero() {
 				holds.remove(index);
 			} else {
@@ -651,6 +663,7 @@ impl<T: Config> Hold for Pallet<T> {
 			let (_, existing_hold) = holds[index];
 			let decreased_hold =
 				existing_hold.checked_sub(total_spend).ok_or(Error::<T>::BalanceLow)?;
+			Self::ensure_sustainable_hold(asset_id, decreased_hold)?;
 			if decreased_hold.is_zero() {
 				holds.remove(index);
 			} else {
-- 
2.43.0


From 5c0c81aefd8f8db9435783b5638a73231130b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 06/62] fix: cap each rounded royalty at what is left of the
 sale amount

---
 pallet/marketplace/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 84c49b5..855f262 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -569,7 +569,8 @@ impl<T: Config> Pallet<T> {
 		if !royalties_schedule.calculate_total_entitlement().is_zero() {
 			let entitlements = royalties_schedule.entitlements.clone();
 			for (who, entitlement) in entitlements.into_iter() {
-				let royalty: Balance = entitlement * amount;
+				// rounding can make the royalties add up to more than the amount
+				let royalty: Balance = (entitlement * amount).min(for_seller);
 				for_seller -= royalty;
 				payouts.push((who, royalty));
 			}
-- 
2.43.0


From d6e7236fd0949bba1927321bef500dae0b377919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 07/62] fix: unlock the seller's tokens when an auction
 settlement fails

---
 pallet/marketplace/src/impls.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 855f262..f8e996b 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -514,6 +514,8 @@ impl<T: Config> Pallet<T> {
 				// This shouldn't happen
 				log!(error, "🃏 releasing hold failed");
 			}
+			// the settlement was rolled back, return the tokens to the seller
+			let _ = listing.tokens.unlock_tokens(&listing.seller);
 
 			// listing metadata is removed by now.
 			Self::deposit_event(Event::<T>::AuctionClose {
-- 
2.43.0


From dc73919fb4ff74d6d990073861865d32417b4bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 08/62] fix: accepting an offer releases every token of the
 listing it ends, and never ends an auction

---
 pallet/marketplace/src/impls.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index f8e996b..886ca48 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -373,14 +373,18 @@ impl<T: Config> Pallet<T> {
 		if let Some(TokenLockReason::Listed(listing_id)) = T::NFTExt::get_token_lock(offer.token_id)
 		{
 			if let Some(listing) = <Listings<T>>::get(listing_id) {
-				if let Listing::<T>::FixedPrice(sale) = listing.clone() {
-					Self::deposit_event(Event::<T>::FixedPriceSaleClose {
-						tokens: sale.tokens,
-						listing_id,
-						marketplace_id: sale.marketplace_id,
-						reason: FixedPriceClosureReason::OfferAccepted,
-					});
-				}
+				// An auction must run to its close, the winning bid is on hold until then
+				let Listing::<T>::FixedPrice(sale) = listing.clone() else {
+					return Err(Error::<T>::TokenOnAuction.into());
+				};
+				// The listing may be a bundle, release all of its tokens
+				sale.tokens.unlock_tokens(&sale.seller)?;
+				Self::deposit_event(Event::<T>::FixedPriceSaleClose {
+					tokens: sale.tokens,
+					listing_id,
+					marketplace_id: sale.marketplace_id,
+					reason: FixedPriceClosureReason::OfferAccepted,
+				});
 
 				Self::remove_listing(listing, listing_id);
 			}
-- 
2.43.0


From 2efb671945ef3d78a14b5b928ea053ab0dfc59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 09/62] fix: close crowdsales without contributions when the
 admin does not hold the payment asset

Closing transferred the zero funds raised to the admin, which the assets pallet refuses for an
account without that asset; the sale then stayed Enabled forever.
---
 pallet/crowdsale/src/impls.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pallet/crowdsale/src/impls.rs b/pallet/crowdsale/src/impls.rs
index 8d62264..c1af472 100644
--- a/pallet/crowdsale/src/impls.rs
+++ b/pallet/crowdsale/src/impls.rs
@@ -152,13 +152,16 @@ impl<T: Config> Pallet<T> {
 				);
 
 				// transfer all payment_asset from the sale vault to the admin
-				T::MultiCurrency::transfer(
-					sale_info.payment_asset_id,
-					&sale_info.vault,
-					&sale_info.admin,
-					sale_info.funds_raised,
-					Preservation::Expendable,
-				)?;
+				// (a transfer of nothing fails if the admin doesn't hold any payment_asset)
+				if !sale_info.funds_raised.is_zero() {
+					T::MultiCurrency::transfer(
+						sale_info.payment_asset_id,
+						&sale_info.vault,
+						&sale_info.admin,
+						sale_info.funds_raised,
+						Preservation::Expendable,
+					)?;
+				}
 
 				let collection_max_issuance =
 					T::NFTExt::get_collection_issuance(sale_info.reward_collection_id)?
-- 
2.43.0


From 6ee459182f3adb9d71ef35a5745e068e3584309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 10/62] fix: refuse crowdsales with a duration of zero blocks

Such a sale is scheduled to close in the block that enables it, after that block's sales were
closed already, so it never closes and its contributions are stuck in the vault.
---
 pallet/crowdsale/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index 38e44c1..8cc797e 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -378,6 +378,8 @@ pub mod pallet {
 
 			// ensure soft_cap_price is not zero - prevent future div by zero
 			ensure!(!soft_cap_price.is_zero(), Error::<T>::InvalidSoftCapPrice);
+			// Disallow empty sales, the end block of which would already have been processed when enabled
+			ensure!(!sale_duration.is_zero(), Error::<T>::InvalidBlockRange);
 			// Disallow sale durations that are too long
 			ensure!(sale_duration <= T::MaxSaleDuration::get(), Error::<T>::SaleDurationTooLong);
 
-- 
2.43.0


From 5fc21816aade2cc6209da4ed0b439909c0c12050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 11/62] fix: burn a full voucher for every crowdsale NFT
 redeemed, also for large quantities

The amount was computed in u32 and saturated: redeeming 4295 or more NFTs at once burned only
4294.967295 vouchers.
---
 pallet/crowdsale/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index 8cc797e..d513cad 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -790,11 +790,12 @@ pub mod pallet {
 			// burn vouchers from the user, will fail if the user does not have enough
 			// vouchers since 1:1 mapping between vouchers and NFTs, we can use the quantity
 			// * decimals as the amount burned
-			let voucher_amount = quantity.saturating_mul(10u32.pow(VOUCHER_DECIMALS as u32));
+			let voucher_amount =
+				Balance::from(quantity).saturating_mul(10u128.pow(VOUCHER_DECIMALS as u32));
 			T::MultiCurrency::burn_from(
 				sale_info.voucher_asset_id,
 				&who,
-				voucher_amount.into(),
+				voucher_amount,
 				Precision::Exact,
 				Fortitude::Polite,
 			)?;
-- 
2.43.0


From b26fdf1ff207d46392335cba9932c39c9ab0f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 12/62] fix: xrpl-bridge: drop stale entries when an asset or
 currency is mapped anew

---
 pallet/xrpl-bridge/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 2e2c0dd..5d1f1f7 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -814,6 +814,13 @@ pub mod pallet {
 			if let Some(xrpl_currency) = xrpl_currency {
 				// Validate currency to prevent errors during withdrawal
 				ensure!(xrpl_currency.symbol.is_valid(), Error::<T>::InvalidCurrencyCode);
+				// The mapping is one to one, drop what either side was mapped to before
+				if let Some(previous_currency) = AssetIdToXRPL::<T>::take(asset_id) {
+					XRPLToAssetId::<T>::remove(previous_currency);
+				}
+				if let Some(previous_asset_id) = XRPLToAssetId::<T>::take(xrpl_currency) {
+					AssetIdToXRPL::<T>::remove(previous_asset_id);
+				}
 				<AssetIdToXRPL<T>>::insert(asset_id, xrpl_currency);
 				<XRPLToAssetId<T>>::insert(xrpl_currency, asset_id);
 				Self::deposit_event(Event::XrplAssetMapSet { asset_id, xrpl_currency });
-- 
2.43.0


From 7386b908ac77df3d981fadfe46944ac9e53baa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 13/62] fix: xrpl-bridge: refuse a current ticket below the
 start of its bucket

---
 pallet/xrpl-bridge/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 5d1f1f7..7999b93 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -711,6 +711,7 @@ pub mod pallet {
 			let current_params = DoorTicketSequenceParams::<T>::get(door_account);
 
 			if ticket_sequence < current_ticket_sequence
+				|| ticket_sequence < start_ticket_sequence
 				|| start_ticket_sequence < current_params.start_sequence
 				|| ticket_bucket_size == 0
 			{
-- 
2.43.0


From fd94376996ea39a9461e5ad5638dda72335ebba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 14/62] fix: xrpl-bridge: do not panic when many transactions
 of one ledger settle

---
 pallet/xrpl-bridge/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 7999b93..06b5345 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -943,10 +943,16 @@ impl<T: Config> Pallet<T> {
 
 			// Add to SettledXRPTransactionDetails
 			used_weight = used_weight.saturating_add(DbWeight::get().reads_writes(1, 1));
-			<SettledXRPTransactionDetails<T>>::try_append(ledger_index as u32, *transaction_hash)
-				.expect(
-					"Should not happen since XRPLTransactionLimitPerLedger >= XRPTransactionLimit",
-				);
+			// Transactions of one ledger can settle in several blocks, so the list can be full. Such a
+			// transaction is not pruned automatically, its details keep guarding against a replay
+			if <SettledXRPTransactionDetails<T>>::try_append(
+				ledger_index as u32,
+				*transaction_hash,
+			)
+			.is_err()
+			{
+				log::error!("too many settled transactions for ledger index: {:?}", ledger_index);
+			}
 
 			// Update HighestSettledLedgerIndex
 			if highest_settled_ledger_index < ledger_index as u32 {
-- 
2.43.0


From 252ae26bb0f66258de6c2e49c3ca601eb8420052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 15/62] fix: xrpl-bridge: refuse to withdraw assets whose
 decimals exceed the balance range

---
 pallet/xrpl-bridge/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 06b5345..d029578 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -1633,10 +1633,9 @@ impl<T: Config> Pallet<T> {
 		let (mantissa, exponent) = Self::balance_to_mantissa_exponent(amount, 0)?;
 		let new_amount = mantissa as u128 * 10u128.pow(exponent as u32);
 		// Return an error if we are saturating by more than 1.0 of the asset
-		ensure!(
-			(amount - new_amount) < 10u128.pow(decimals as u32),
-			Error::<T>::AssetRoundingTooHigh
-		);
+		let one_asset =
+			10u128.checked_pow(decimals as u32).ok_or(Error::<T>::InvalidAssetDecimals)?;
+		ensure!((amount - new_amount) < one_asset, Error::<T>::AssetRoundingTooHigh);
 		// Return mantissa and exponent back into Balance for our calculations
 		Ok(new_amount)
 	}
-- 
2.43.0


From 508c1c5e6261ed173175766657631ad1b9d3aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 16/62] fix: xrpl-bridge: refuse to withdraw more XRP than a
 payment can carry

---
 pallet/xrpl-bridge/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index d029578..db84a6b 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -1244,7 +1244,8 @@ impl<T: Config> Pallet<T> {
 		let tx_data = match asset_id {
 			a if a == T::XrpAssetId::get() => {
 				ensure!(
-					amount.checked_add(tx_fee as Balance).is_some(),
+					u64::try_from(amount).is_ok()
+						&& amount.checked_add(tx_fee as Balance).is_some(),
 					Error::<T>::WithdrawInvalidAmount
 				); // xrp amounts are `u64`
 
-- 
2.43.0


From b2921adee788408c0e59236de0d255e78225c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 17/62] fix: xrpl-bridge: never hand out a door ticket twice

---
 pallet/xrpl-bridge/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index db84a6b..7fecd64 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -1750,6 +1750,9 @@ impl<T: Config> Pallet<T> {
 				|| next_ticket_params.start_sequence == ticket_params.start_sequence
 			{
 				return Err(Error::<T>::NextTicketSequenceParamsNotSet.into());
+			} else if next_ticket_params.start_sequence < current_sequence {
+				// set before the current bucket was used up, these tickets were handed out already
+				return Err(Error::<T>::NextTicketSequenceParamsInvalid.into());
 			} else {
 				// update next to current and clear next
 				DoorTicketSequenceParams::<T>::set(door_account, next_ticket_params.clone());
-- 
2.43.0


From 766ab13738a3991800548e7fd277122637d699bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 18/62] fix: ethy: an event is not processed under the schedule
 of an earlier, invalid claim

A claim proven invalid leaves its id scheduled. A new claim under that id was
processed at that earlier block, before its own challenge period had passed,
and without a new claim the id was marked as processed although no event was,
so that the real event with that id could never be submitted.
---
 pallet/ethy/src/impls.rs |  2 ++
 pallet/ethy/src/lib.rs   | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 872cc10..44bef8f 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -198,6 +198,7 @@ impl<T: Config> Pallet<T> {
 
 		PendingEventClaims::<T>::insert(event_id, &event_claim);
 		PendingClaimStatus::<T>::insert(event_id, EventClaimStatus::Pending);
+		PendingClaimProcessAt::<T>::insert(event_id, process_at);
 		Self::deposit_event(Event::<T>::EventSubmit {
 			event_claim_id: event_id,
 			event_claim,
@@ -657,6 +658,7 @@ impl<T: Config> Pallet<T> {
 				};
 
 				PendingClaimStatus::<T>::remove(event_claim_id);
+				PendingClaimProcessAt::<T>::remove(event_claim_id);
 				Self::deposit_event(Event::<T>::RelayerSet { relayer: None });
 			} else {
 				// This shouldn't happen
diff --git a/pallet/ethy/src/lib.rs b/pallet/ethy/src/lib.rs
index 0090c73..14c690d 100644
--- a/pallet/ethy/src/lib.rs
+++ b/pallet/ethy/src/lib.rs
@@ -343,6 +343,11 @@ pub mod pallet {
 	pub type PendingClaimStatus<T> =
 		StorageMap<_, Twox64Concat, EventProofId, EventClaimStatus, OptionQuery>;
 
+	/// The block at which a pending event claim is due to be processed
+	#[pallet::storage]
+	pub type PendingClaimProcessAt<T: Config> =
+		StorageMap<_, Twox64Concat, EventClaimId, BlockNumberFor<T>, OptionQuery>;
+
 	/// Tracks processed message Ids (prevent replay)
 	/// Must remain unbounded as this list will grow indefinitely
 	#[pallet::storage]
@@ -543,6 +548,14 @@ pub mod pallet {
 				// writes: PendingClaimStatus, PendingEventClaims
 				consumed_weight =
 					consumed_weight.saturating_add(DbWeight::get().reads_writes(2_u64, 2_u64));
+				// The claim scheduled for this block may have been proven invalid. If so, either no
+				// event is pending under its id or a claim that is due at another block
+				if !PendingEventClaims::<T>::contains_key(message_id)
+					|| PendingClaimProcessAt::<T>::get(message_id)
+						.map_or(false, |process_at| process_at != block_number)
+				{
+					continue;
+				}
 				if PendingClaimStatus::<T>::get(message_id) == Some(EventClaimStatus::Challenged) {
 					// We are still waiting on the challenge to be processed, push out by challenge
 					// period
@@ -562,6 +575,7 @@ pub mod pallet {
 						);
 						*v = message_ids_bounded;
 					});
+					PendingClaimProcessAt::<T>::insert(message_id, new_process_at);
 					Self::deposit_event(Event::<T>::ProcessAtExtended {
 						event_claim_id: message_id,
 						process_at: new_process_at,
@@ -611,6 +625,7 @@ pub mod pallet {
 
 				// Tidy up status check
 				PendingClaimStatus::<T>::remove(message_id);
+				PendingClaimProcessAt::<T>::remove(message_id);
 				message_processed = true;
 			}
 
-- 
2.43.0


From 8d2decc53ae44426336c21945ad844c1aac0a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 19/62] fix: ethy: settle a challenged claim proven valid also
 while no relayer is set

The notarizations and the entry in PendingClaimChallenges were dropped but the
claim stayed Challenged, so that it was postponed forever, never processed, and
the challenger's bond stayed locked.
---
 pallet/ethy/src/impls.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 44bef8f..8682810 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -695,10 +695,8 @@ impl<T: Config> Pallet<T> {
 		});
 
 		if PendingEventClaims::<T>::contains_key(event_claim_id) {
-			if let Some(relayer) = Relayer::<T>::get() {
-				if let Some((challenger, bond_amount)) =
-					<ChallengerAccount<T>>::take(event_claim_id)
-				{
+			if let Some((challenger, bond_amount)) = <ChallengerAccount<T>>::take(event_claim_id) {
+				if let Some(relayer) = Relayer::<T>::get() {
 					// Challenger is incorrect, the event is valid. Send funds to relayer
 					T::MultiCurrency::spend_hold(
 						T::BridgePalletId::get(),
@@ -707,15 +705,22 @@ impl<T: Config> Pallet<T> {
 						&[(relayer, bond_amount)],
 					)?;
 				} else {
-					// This shouldn't happen
-					log!(error, "💎 unexpected missing challenger account");
+					// There is no relayer to pay, the event is valid all the same
+					log!(error, "💎 No relayer set");
+					T::MultiCurrency::release_hold(
+						T::BridgePalletId::get(),
+						&challenger,
+						T::NativeAssetId::get(),
+						bond_amount,
+					)?;
 				}
-
-				PendingClaimStatus::<T>::insert(event_claim_id, EventClaimStatus::ProvenValid);
-				Self::deposit_event(Event::<T>::Verified { event_claim_id });
 			} else {
-				log!(error, "💎 No relayer set");
+				// This shouldn't happen
+				log!(error, "💎 unexpected missing challenger account");
 			}
+
+			PendingClaimStatus::<T>::insert(event_claim_id, EventClaimStatus::ProvenValid);
+			Self::deposit_event(Event::<T>::Verified { event_claim_id });
 		} else {
 			log!(error, "💎 unexpected empty claim");
 			return Err(Error::<T>::InvalidClaim.into());
-- 
2.43.0


From adcca291ac1fd106c23c2fab19dc3dc8a4058741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 20/62] fix: ethy: new authorities decide open challenges
 without the votes of former ones

---
 pallet/ethy/src/impls.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 8682810..8a6db0e 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -940,6 +940,15 @@ impl<T: Config> Pallet<T> {
 		// A proof should've been generated now so we can reactivate the bridge with the new
 		// validator set
 		AuthoritiesChangedThisEra::<T>::kill();
+		// The notarizations so far are those of the outgoing authorities, what is still undecided
+		// gets notarized afresh by the new ones
+		for event_claim_id in PendingClaimChallenges::<T>::get() {
+			let _ = <EventNotarizations<T>>::clear_prefix(event_claim_id, u32::MAX, None);
+		}
+		for call_id in EthCallRequests::<T>::get() {
+			let _ = <EthCallNotarizations<T>>::clear_prefix(call_id, u32::MAX, None);
+			EthCallNotarizationsAggregated::<T>::remove(call_id);
+		}
 		// Store the new keys and increment the validator set id
 		// Next notary keys should be unset, until populated by new session logic
 		NotaryKeys::<T>::put(&next_notary_keys);
-- 
2.43.0


From 0899f58e9eb9ca911a65e10d4415f2db684fc379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 21/62] fix: ethy: refute a challenged claim as soon as it can
 not be proven valid any more

---
 pallet/ethy/src/impls.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 8a6db0e..efc924d 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -596,10 +596,10 @@ impl<T: Config> Pallet<T> {
 			}
 		}
 
-		if Percent::from_rational(nay_count, notary_count)
-			> (Percent::from_parts(100_u8 - T::NotarizationThreshold::get().deconstruct()))
+		if Percent::from_rational(notary_count.saturating_sub(nay_count), notary_count)
+			< T::NotarizationThreshold::get()
 		{
-			// Claim is invalid (nays > (100% - NotarizationThreshold))
+			// Claim is invalid, the yays can not reach the NotarizationThreshold any more
 			Self::handle_invalid_claim(event_claim_id)?;
 		} else if Percent::from_rational(yay_count, notary_count) >= T::NotarizationThreshold::get()
 		{
-- 
2.43.0


From 39ec4cb853affcc2ab07a576b3104985a3b61985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:58 +0000
Subject: [PATCH 22/62] fix: ethy: report no result of an eth_call the notaries
 do not agree on

---
 pallet/ethy/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index efc924d..86fd962 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -810,8 +810,9 @@ impl<T: Config> Pallet<T> {
 				>= notarization_threshold
 		});
 		// cannot or will not reach consensus based on current notarizations
+		// the last notarization is as good as any other then, i.e. there is no result
 		if total_count == notary_count || !can_reach_consensus {
-			return do_callback_and_clean_up(result);
+			return do_callback_and_clean_up(CheckedEthCallResult::DataProviderErr);
 		}
 
 		// update counts
-- 
2.43.0


From 1b478ba5340ffe5e1389ae61a0f03caa23e13bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 23/62] fix: ethy: find the claimed event among all bridge
 events of a transaction

---
 pallet/ethy/src/impls.rs | 51 +++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 86fd962..0699015 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -350,36 +350,43 @@ impl<T: Config> Pallet<T> {
 			return EventClaimResult::UnexpectedSource;
 		}
 
-		// search for a bridge deposit event in this tx receipt
-		let matching_log = tx_receipt.logs.iter().find(|log| {
-			log.transaction_hash == Some(tx_hash)
-				&& log.topics.contains(&SUBMIT_BRIDGE_EVENT_SELECTOR.into())
-		});
-
+		// search for bridge deposit events in this tx receipt, there may be several of them
+		// e.g. if the tx sends more than one message
 		let submitted_event_data = ethabi::encode(&[
 			Token::Uint(event_claim_id.into()),
 			Token::Address(source),
 			Token::Address(destination),
 			Token::Bytes(data.into_inner()),
 		]);
-		if let Some(log) = matching_log {
-			// check if the Ethereum event data matches what was reported
-			// in the original claim
-			if log.data != submitted_event_data {
-				log!(
-					trace,
-					"💎 mismatch in provided data vs. observed data. provided: {:?} observed: {:?}",
-					submitted_event_data,
-					log.data,
-				);
-				return EventClaimResult::UnexpectedData;
-			}
-			if log.address != ContractAddress::<T>::get() {
-				return EventClaimResult::UnexpectedContractAddress;
-			}
-		} else {
+		let bridge_logs = tx_receipt
+			.logs
+			.iter()
+			.filter(|log| {
+				log.transaction_hash == Some(tx_hash)
+					&& log.topics.contains(&SUBMIT_BRIDGE_EVENT_SELECTOR.into())
+			})
+			.collect::<Vec<_>>();
+		if bridge_logs.is_empty() {
 			return EventClaimResult::NoTxLogs;
 		}
+		// check if the Ethereum event data of one of them matches what was reported in the
+		// original claim
+		let matching_logs = bridge_logs
+			.iter()
+			.filter(|log| log.data == submitted_event_data)
+			.collect::<Vec<_>>();
+		if matching_logs.is_empty() {
+			log!(
+				trace,
+				"💎 mismatch in provided data vs. observed data. provided: {:?} observed: {:?}",
+				submitted_event_data,
+				bridge_logs,
+			);
+			return EventClaimResult::UnexpectedData;
+		}
+		if !matching_logs.iter().any(|log| log.address == ContractAddress::<T>::get()) {
+			return EventClaimResult::UnexpectedContractAddress;
+		}
 
 		//  have we got enough block confirmations to be re-org safe?
 		let observed_block_number: u64 = tx_receipt.block_number.saturated_into();
-- 
2.43.0


From 4ffcdabbfb661b8581f0f0178d1adc9a1c4c565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:10 +0000
Subject: [PATCH 24/62] fix: ethy: enforce the limit of new door signers for
 long lists as well

---
 pallet/ethy/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/ethy/src/lib.rs b/pallet/ethy/src/lib.rs
index 14c690d..ef0c28e 100644
--- a/pallet/ethy/src/lib.rs
+++ b/pallet/ethy/src/lib.rs
@@ -805,7 +805,7 @@ pub mod pallet {
 		) -> DispatchResult {
 			ensure_root(origin)?;
 			ensure!(
-				(new_signers.len() as u8) < T::MaxNewSigners::get(),
+				new_signers.len() < T::MaxNewSigners::get() as usize,
 				Error::<T>::MaxNewSignersExceeded
 			);
 
-- 
2.43.0


From 0fa232deeb0e7c28926d0ec42cd31f355ef36bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 25/62] fix: nft-peg: refuse bridge messages shorter than their
 prefix instead of panicking

---
 pallet/nft-peg/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 211878c..ac4f4dc 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -497,7 +497,8 @@ where
 		let weight = Weight::zero();
 
 		// Decode prefix from first 32 bytes of data
-		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], &data[..32]) {
+		let prefix = data.get(..32).ok_or((weight, Error::<T>::InvalidAbiPrefix.into()))?;
+		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], prefix) {
 			Ok(abi) => abi,
 			Err(_) => return Err((weight, Error::<T>::InvalidAbiPrefix.into())),
 		};
-- 
2.43.0


From 3021b60474c6896195509465d35ed59d0ef98498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 26/62] fix: nft-peg: refuse token ids that do not fit into a
 serial number

---
 pallet/nft-peg/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index ac4f4dc..399201b 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -240,17 +240,18 @@ where
 					return Err((weight, Error::<T>::ExceedsMaxTokens.into()));
 				};
 
+				// Token ids that do not fit into a serial number cannot be represented on Root
 				let vec: Vec<SerialNumber> = token
 					.iter()
 					.filter_map(|j| {
 						if let Token::Uint(token_id) = j {
-							let token_id: SerialNumber = (*token_id).saturated_into();
-							Some(token_id)
+							Some(SerialNumber::try_from(*token_id))
 						} else {
 							None
 						}
 					})
-					.collect();
+					.collect::<Result<_, _>>()
+					.map_err(|_| (weight, Error::<T>::InvalidAbiEncoding.into()))?;
 
 				let vec = BoundedVec::try_from(vec)
 					.map_err(|_| (weight, Error::<T>::ExceedsMaxTokens.into()))?;
-- 
2.43.0


From cf5dc26484264afe23a0c1b68495f148817b0b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 27/62] fix: nft-peg: deposit the other collections of a
 message when one is blocked

---
 pallet/nft-peg/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 399201b..84e615c 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -293,6 +293,8 @@ where
 
 		let destination: T::AccountId = destination.into();
 		let name = BoundedVec::truncate_from(b"bridged-collection".to_vec());
+		// The first error minting, the tokens of the other collections are still deposited
+		let mut mint_error = None;
 
 		for current_token in token_info.tokens.iter() {
 			// Assign collection owner to pallet. User can claim it later
@@ -372,12 +374,13 @@ where
 						blocked_mint_id,
 						collection_id,
 						serial_numbers,
-						destination_address: destination,
+						destination_address: destination.clone(),
 					});
 
 					weight = weight.saturating_add(T::DbWeight::get().reads_writes(1, 2));
 
-					return Err((weight, err));
+					mint_error.get_or_insert(err);
+					continue;
 				},
 			}
 
@@ -390,6 +393,10 @@ where
 			weight = weight.saturating_add(T::DbWeight::get().writes(2));
 		}
 
+		if let Some(err) = mint_error {
+			return Err((weight, err));
+		}
+
 		Self::deposit_event(Event::<T>::Erc721Deposit { destination });
 		Ok(weight)
 	}
-- 
2.43.0


From 9798555baf1adc5ef01485b956c751238663a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 28/62] fix: erc20-peg: process payments with a delay of zero
 blocks in the next block

---
 pallet/erc20-peg/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallet/erc20-peg/src/lib.rs b/pallet/erc20-peg/src/lib.rs
index 81275bd..7df013b 100644
--- a/pallet/erc20-peg/src/lib.rs
+++ b/pallet/erc20-peg/src/lib.rs
@@ -676,7 +676,9 @@ impl<T: Config> Pallet<T> {
 			Self::deposit_event(Event::<T>::NoAvailableDelayedPaymentIds);
 			return;
 		}
-		let payment_block = <frame_system::Pallet<T>>::block_number().saturating_add(delay);
+		// The current block has been initialized already, its payments are not picked up anymore
+		let payment_block =
+			<frame_system::Pallet<T>>::block_number().saturating_add(delay.max(One::one()));
 		DelayedPayments::<T>::insert(payment_id, &pending_payment);
 		NextDelayedPaymentId::<T>::put(payment_id + 1);
 		DelayedPaymentSchedule::<T>::mutate(payment_block, |v| {
-- 
2.43.0


From 11f0f1f34bbabc4a60d0f5fdd3140c7052ac5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 29/62] fix: ERC721 Approval log names the token owner when an
 operator approves

---
 evm-precompiles/erc721/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index a3c7e9f..5e3d944 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -546,6 +546,12 @@ where
 		let serial_number: SerialNumber = serial_number.saturated_into();
 
 		let token_id: TokenId = (collection_id, serial_number);
+		// The approval is granted by the token owner, even if an operator of theirs calls
+		handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost())?;
+		let token_owner: H160 = match pallet_nft::Pallet::<Runtime>::get_token_owner(&token_id) {
+			Some(owner) => owner.into(),
+			None => return Err(revert("ERC721: Token does not exist")),
+		};
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
 			handle,
@@ -561,7 +567,7 @@ where
 		log4(
 			handle.code_address(),
 			SELECTOR_LOG_APPROVAL,
-			handle.context().caller,
+			token_owner,
 			to,
 			serial_number,
 			vec![],
-- 
2.43.0


From e3fd0dd6a2f9fe2a60307ccc9a8fd1f2749f5eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 30/62] fix: ERC721 burn is not a view, refuse it in static
 calls

---
 evm-precompiles/erc721/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 5e3d944..2084d5f 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -183,6 +183,7 @@ where
 						| Action::ReRequestXls20Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::Burn
 						| Action::Mint => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From 5fae56228e940180c134df0f615d954be8daf7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 31/62] fix: ERC721 reRequestXls20Mint reverts on too many
 serial numbers instead of panicking

---
 evm-precompiles/erc721/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 2084d5f..828d68f 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -1144,7 +1144,8 @@ where
 		let serial_numbers: BoundedVec<
 			SerialNumber,
 			<Runtime as pallet_xls20::Config>::MaxTokensPerXls20Mint,
-		> = BoundedVec::try_from(serial_numbers_unbounded).expect("Should not fail");
+		> = BoundedVec::try_from(serial_numbers_unbounded)
+			.map_err(|_| revert("XLS20: Too many serial numbers in one request"))?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From 6b2d175d06167c0159efeb0536b5e9f88864f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 32/62] fix: ERC721 safe transfer reverts on a short answer of
 the receiver instead of panicking

---
 evm-precompiles/erc721/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 828d68f..60a5004 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -489,7 +489,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC721_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if !output.starts_with(&ON_ERC721_RECEIVED_FUNCTION_SELECTOR) {
 						return Err(revert("ERC721: transfer to non ERC721Receiver implementer"));
 					}
 				},
-- 
2.43.0


From e4def5913369865acbff065ffc30ff6cc54d2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 33/62] fix: ERC721 safe transfer asks the receiver after the
 transfer, naming operator and sender

ERC-721: onERC721Received(operator, from, tokenId, data) is called after the transfer and the
token contract is always its message sender.
---
 evm-precompiles/erc721/src/lib.rs | 52 +++++++++++++++++--------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 60a5004..7f21bc1 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -466,6 +466,33 @@ where
 			return Err(revert("ERC721: Caller not approved"));
 		}
 
+		// Dispatch call (if enough gas).
+		let serial_numbers_unbounded: Vec<SerialNumber> = vec![serial_number];
+		let serial_numbers: BoundedVec<
+			SerialNumber,
+			<Runtime as pallet_nft::Config>::MaxTokensPerCollection,
+		> = BoundedVec::try_from(serial_numbers_unbounded).expect("Should not fail");
+
+		RuntimeHelper::<Runtime>::try_dispatch(
+			handle,
+			Some(Runtime::AccountId::from(from)).into(),
+			pallet_nft::Call::<Runtime>::transfer {
+				collection_id,
+				serial_numbers,
+				new_owner: to.into(),
+			},
+		)?;
+
+		log4(
+			handle.code_address(),
+			SELECTOR_LOG_TRANSFER,
+			from,
+			to,
+			H256::from_low_u64_be(serial_number as u64),
+			vec![],
+		)
+		.record(handle)?;
+
 		// Check that target implements onERC721Received
 		// Check that caller is not a smart contract s.t. no code is inserted into
 		// pallet_evm::AccountCodes except if the caller is another precompile i.e. CallPermit
@@ -475,12 +502,12 @@ where
 			// Setup input for onErc721Received call
 			let sub_context = Context {
 				address: to,
-				caller: handle.context().caller,
+				caller: handle.context().address,
 				apparent_value: Default::default(),
 			};
 			let input = EvmDataWriter::new_with_selector(Action::OnErc721Received)
+				.write::<Address>(handle.context().caller.into())
 				.write::<Address>(from.into())
-				.write::<Address>(to.into())
 				.write::<U256>(serial_number.into())
 				.write::<Bytes>(data)
 				.build();
@@ -497,27 +524,6 @@ where
 			};
 		}
 
-		// Dispatch call (if enough gas).
-		let serial_numbers_unbounded: Vec<SerialNumber> = vec![serial_number];
-		let serial_numbers: BoundedVec<
-			SerialNumber,
-			<Runtime as pallet_nft::Config>::MaxTokensPerCollection,
-		> = BoundedVec::try_from(serial_numbers_unbounded).expect("Should not fail");
-
-		RuntimeHelper::<Runtime>::try_dispatch(
-			handle,
-			Some(Runtime::AccountId::from(from)).into(),
-			pallet_nft::Call::<Runtime>::transfer {
-				collection_id,
-				serial_numbers,
-				new_owner: to.into(),
-			},
-		)?;
-
-		let serial_number = H256::from_low_u64_be(serial_number as u64);
-		log4(handle.code_address(), SELECTOR_LOG_TRANSFER, from, to, serial_number, vec![])
-			.record(handle)?;
-
 		// Build output.
 		Ok(succeed([]))
 	}
-- 
2.43.0


From 6b77886458b39ef56027cf4307321dc8962fb880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 34/62] fix: ERC1155 functions that change state are not views,
 refuse them in static calls

---
 evm-precompiles/erc1155/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index f4ccc06..5f3e60a 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -165,6 +165,11 @@ where
 						| Action::Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::RenounceOwnership
+						| Action::TransferOwnership
+						| Action::CreateToken
+						| Action::SetMaxSupply
+						| Action::SetBaseURI
 						| Action::MintBatch => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From 341f5fc32bf57df6bb5939badee7846d71b2f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 35/62] fix: ERC1155 transfers revert on a short answer of the
 receiver instead of panicking

---
 evm-precompiles/erc1155/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index 5f3e60a..0d3fc26 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -449,7 +449,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if !output.starts_with(&ON_ERC1155_RECEIVED_FUNCTION_SELECTOR) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
@@ -553,7 +553,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if !output.starts_with(&ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
-- 
2.43.0


From 4d5d3bb1f0a157cf08dfd7027bd37e1f9f272cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 36/62] fix: ERC1155 batch transfers call
 onERC1155BatchReceived of the receiver

---
 evm-precompiles/erc1155/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index 0d3fc26..970435d 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -541,7 +541,7 @@ where
 			// Setup input for onErc1155BatchReceived call
 			let sub_context =
 				Context { address: to, caller: operator, apparent_value: Default::default() };
-			let input = EvmDataWriter::new_with_selector(Action::OnErc1155Received)
+			let input = EvmDataWriter::new_with_selector(Action::OnErc1155BatchReceived)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
 				.write::<Vec<U256>>(ids)
-- 
2.43.0


From 1c3ebab49fec982418d197068a63653bb5df1745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 37/62] fix: ERC1155 safe transfers ask the receiver after the
 transfer, naming the sender

ERC-1155: the receiver is called after the balances have changed and the token contract is its
message sender.
---
 evm-precompiles/erc1155/src/lib.rs | 49 ++++++++++++++++--------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index 970435d..9acf427 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -389,18 +389,15 @@ where
 		);
 
 		let to: H160 = to.into();
-		Self::do_safe_transfer_acceptance_check(handle, from, to, id, amount, data)?;
-
 		ensure!(id <= u32::MAX.into(), revert("ERC1155: Expected token id <= 2^32"));
 		ensure!(amount <= Balance::MAX.into(), revert("ERC1155: Expected amounts <= 2^128"));
 		let serial_number: SerialNumber = id.saturated_into();
 		let balance: Balance = amount.saturated_into();
 
-		let from: H160 = from.into();
 		let res = Self::do_safe_transfer(
 			collection_id,
 			handle,
-			from,
+			from.into(),
 			to,
 			vec![serial_number],
 			vec![balance],
@@ -410,12 +407,14 @@ where
 			handle.code_address(),
 			SELECTOR_LOG_TRANSFER_SINGLE,
 			handle.context().caller,
-			from,
+			H160::from(from),
 			to,
 			EvmDataWriter::new().write(id).write(amount).build(),
 		)
 		.record(handle)?;
 
+		Self::do_safe_transfer_acceptance_check(handle, from, to, id, amount, data)?;
+
 		Ok(res)
 	}
 
@@ -435,8 +434,11 @@ where
 		if !(caller_code.is_empty()) {
 			let operator = handle.context().caller;
 			// Setup input for onErc1155Received call
-			let sub_context =
-				Context { address: to, caller: operator, apparent_value: Default::default() };
+			let sub_context = Context {
+				address: to,
+				caller: handle.context().address,
+				apparent_value: Default::default(),
+			};
 			let input = EvmDataWriter::new_with_selector(Action::OnErc1155Received)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
@@ -478,15 +480,6 @@ where
 		);
 
 		let to: H160 = to.into();
-		Self::do_batch_safe_transfer_acceptance_check(
-			handle,
-			from,
-			to,
-			ids.clone(),
-			amounts.clone(),
-			data,
-		)?;
-
 		let serial_numbers: Vec<SerialNumber> = ids
 			.iter()
 			.map(|id| {
@@ -506,20 +499,27 @@ where
 			})
 			.collect::<Result<Vec<Balance>, PrecompileFailure>>()?;
 
-		let from: H160 = from.into();
-		let res =
-			Self::do_safe_transfer(collection_id, handle, from, to, serial_numbers, balances)?;
+		let res = Self::do_safe_transfer(
+			collection_id,
+			handle,
+			from.into(),
+			to,
+			serial_numbers,
+			balances,
+		)?;
 
 		log4(
 			handle.code_address(),
 			SELECTOR_LOG_TRANSFER_BATCH,
 			handle.context().caller,
-			from,
+			H160::from(from),
 			to,
-			EvmDataWriter::new().write(ids).write(amounts).build(),
+			EvmDataWriter::new().write(ids.clone()).write(amounts.clone()).build(),
 		)
 		.record(handle)?;
 
+		Self::do_batch_safe_transfer_acceptance_check(handle, from, to, ids, amounts, data)?;
+
 		Ok(res)
 	}
 
@@ -539,8 +539,11 @@ where
 		if !(caller_code.is_empty()) {
 			let operator = handle.context().caller;
 			// Setup input for onErc1155BatchReceived call
-			let sub_context =
-				Context { address: to, caller: operator, apparent_value: Default::default() };
+			let sub_context = Context {
+				address: to,
+				caller: handle.context().address,
+				apparent_value: Default::default(),
+			};
 			let input = EvmDataWriter::new_with_selector(Action::OnErc1155BatchReceived)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
-- 
2.43.0


From 8f34a5412be3d588b2ff6e9bf287c9ce6c1b52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 38/62] fix: futurepass precompile: check the function
 modifiers

None of the functions checked for static calls or for value: a STATICCALL
could unregister delegates or transfer the ownership, and XRP sent along with
a non-payable function was accepted.
---
 evm-precompiles/futurepass/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index e70ac3b..5fac95b 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -160,6 +160,14 @@ where
 				},
 			};
 
+			if let Err(err) = handle.check_function_modifier(match selector {
+				Action::Default | Action::ProxyCall => FunctionModifier::Payable,
+				Action::DelegateType | Action::Owner => FunctionModifier::View,
+				_ => FunctionModifier::NonPayable,
+			}) {
+				return Some(Err(err.into()));
+			}
+
 			match selector {
 				Action::Default => Self::receive(handle),
 				Action::DelegateType => Self::delegate_type(handle),
-- 
2.43.0


From debdee6c07ca1aa1d2cea36d2ac105f0beb141e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 39/62] fix: do not let contracts delegatecall futurepass
 precompiles

In a DELEGATECALL the caller is the caller of the contract, so any contract
which the owner of a futurepass calls could act on the futurepass as its
owner: unregister its delegates, transfer its ownership, or call out as the
futurepass.
---
 runtime/src/precompiles.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/runtime/src/precompiles.rs b/runtime/src/precompiles.rs
index 1b20b97..45ad75b 100644
--- a/runtime/src/precompiles.rs
+++ b/runtime/src/precompiles.rs
@@ -89,11 +89,6 @@ pub type FutureversePrecompiles<R> = PrecompileSetBuilder<
 		PrecompileSetStartingWith<Erc721AssetPrefix, Erc721PrecompileSet<R>>,
 		PrecompileSetStartingWith<Erc1155AssetPrefix, Erc1155PrecompileSet<R>>,
 		PrecompileSetStartingWith<Erc20AssetPrefix, Erc20PrecompileSet<R>>,
-		PrecompileSetStartingWith<
-			FuturepassPrefix,
-			FuturePassPrecompileSet<R>,
-			LimitRecursionTo<1>,
-			AllowDelegateCall,
-		>,
+		PrecompileSetStartingWith<FuturepassPrefix, FuturePassPrecompileSet<R>, LimitRecursionTo<1>>,
 	),
 >;
-- 
2.43.0


From 7355afe7092109a0895aae15702859dab71fcca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 40/62] fix: replace the permission of a delegate who becomes
 the owner of a futurepass

The new owner kept the entry as a delegate next to the one as owner, and paid
a deposit for both. As the first entry counts, the owner could not register or
remove delegates through the futurepass.
---
 pallet/futurepass/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/futurepass/src/lib.rs b/pallet/futurepass/src/lib.rs
index 2a74ba8..285e490 100644
--- a/pallet/futurepass/src/lib.rs
+++ b/pallet/futurepass/src/lib.rs
@@ -434,6 +434,11 @@ pub mod pallet {
 					Error::<T>::AccountAlreadyRegistered
 				);
 
+				// The new owner may be a delegate already, this permission is replaced
+				if *new_owner != current_owner && T::Proxy::exists(&futurepass, new_owner, None) {
+					T::Proxy::remove_delegate(&caller, &futurepass, new_owner)?;
+				}
+
 				// Add the new owner as a proxy delegate with the most permissive type, i.e.,
 				T::Proxy::add_delegate(&caller, &futurepass, new_owner, &255)?; // owner is maxu8
 
-- 
2.43.0


From 15c8fc4e1a02d136c1eda6bd853b705ade72e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 41/62] fix: futurepass precompile: transfer or renounce only
 the futurepass at the address

transferOwnership and renounceOwnership acted on the futurepass of the caller,
whichever futurepass was called, and logged the event for the one called.
---
 evm-precompiles/futurepass/src/lib.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 5fac95b..8d9f3a0 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -324,13 +324,7 @@ where
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
 				|| sub_call_selector == &keccak256!("transferOwnership(address)")[..4]
 			{
-				let futurepass: H160 = handle.code_address();
-				let caller: H160 = handle.context().caller;
-				ensure!(
-					pallet_futurepass::Holders::<Runtime>::get(Runtime::AccountId::from(caller))
-						== Some(futurepass.into()),
-					revert("Futurepass: NotFuturepassOwner")
-				);
+				Self::ensure_owner(handle.context().caller, handle.code_address())?;
 			}
 		}
 
@@ -338,6 +332,16 @@ where
 		Self::do_proxy(handle, handle.code_address(), call_type, evm_subcall, value)
 	}
 
+	/// Only the owner of this futurepass may proceed
+	fn ensure_owner(caller: H160, futurepass: H160) -> EvmResult {
+		ensure!(
+			pallet_futurepass::Holders::<Runtime>::get(Runtime::AccountId::from(caller))
+				== Some(futurepass.into()),
+			revert("Futurepass: NotFuturepassOwner")
+		);
+		Ok(())
+	}
+
 	fn receive(_handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
 		// do nothing
 		Ok(succeed([]))
@@ -605,6 +609,7 @@ where
 		handle.record_log_costs_manual(3, 32)?;
 
 		let caller = handle.context().caller;
+		Self::ensure_owner(caller, handle.code_address())?;
 		let burn_account: H160 = H160::default();
 
 		// Dispatch call (if enough gas).
@@ -638,6 +643,7 @@ where
 		read_args!(handle, { new_owner: Address });
 		let new_owner: H160 = new_owner.into();
 		let caller = handle.context().caller;
+		Self::ensure_owner(caller, handle.code_address())?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From f32c3ccd6e3b3dcae6c0533d569cf033ca9bc74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 42/62] fix: do not let delegates administer futurepasses with
 EVM calls

---
 runtime/src/impls.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index d1f0dd5..e00cc0f 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -765,6 +765,12 @@ impl pallet_evm_precompiles_futurepass::EvmProxyCallFilter for ProxyType {
 	}
 }
 
+/// Whether `address` is the futurepass registrar or the precompile of a futurepass
+fn is_futurepass_precompile(address: &H160) -> bool {
+	*address == H160::from_low_u64_be(FUTUREPASS_REGISTRAR_PRECOMPILE)
+		|| address.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX)
+}
+
 // substrate side proxy filter
 impl InstanceFilter<RuntimeCall> for ProxyType {
 	fn filter(&self, c: &RuntimeCall) -> bool {
@@ -791,6 +797,20 @@ impl InstanceFilter<RuntimeCall> for ProxyType {
 			// the owner of the futurepass
 			return self == &ProxyType::Owner;
 		}
+		// EVM calls to the futurepass precompiles administer futurepasses as well
+		if let RuntimeCall::EVM(pallet_evm::Call::call { target, input, .. }) = c {
+			let target = if *target == H160::from_low_u64_be(FEE_PROXY_ADDRESS) {
+				pallet_fee_proxy::FeePreferencesRunner::<Runtime, Runtime, crate::Futurepass>::decode_input(
+					input.clone(),
+				)
+				.map_or(*target, |(_, target, _)| target)
+			} else {
+				*target
+			};
+			if is_futurepass_precompile(&target) {
+				return self == &ProxyType::Owner;
+			}
+		}
 		match self {
 			ProxyType::Owner => true,
 			ProxyType::Any => true,
-- 
2.43.0


From 46f267a5625abefec1ae19c56c39198c15f7381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:13 +0000
Subject: [PATCH 43/62] fix: futurepass precompile: do not panic on short call
 data

---
 evm-precompiles/futurepass/src/lib.rs | 3 ++-
 runtime/src/impls.rs                  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 8d9f3a0..87a6324 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -318,7 +318,7 @@ where
 
 		// restrict delegate access to whitelist
 		if call_to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX) {
-			let sub_call_selector = &call_data.inner[..4];
+			let sub_call_selector = call_data.inner.get(..4).unwrap_or_default();
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
@@ -510,6 +510,7 @@ where
 				let creation_code_len = call_data.inner.len();
 				let call_data_vec = call_data.into_vec();
 
+				ensure!(creation_code_len >= 32, revert("Futurepass: create2 salt is missing"));
 				// salt is the last 32 bytes of the creation code
 				// source: https://github.com/ERC725Alliance/ERC725/blob/c7f009261ff72b488f160028b835c311987638af/implementations/contracts/ERC725XCore.sol#L261
 				let salt = call_data_vec
diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index e00cc0f..cee1e8b 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -743,7 +743,7 @@ impl pallet_evm_precompiles_futurepass::EvmProxyCallFilter for ProxyType {
 			|| call.to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX)
 		{
 			// Whitelist for precompile side
-			let sub_call_selector = &call.call_data.inner[..4];
+			let sub_call_selector = call.call_data.inner.get(..4).unwrap_or_default();
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
-- 
2.43.0


From f9de4826fea545f444aca4cf7fb4ea584d972801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 44/62] fix: xrpl: refuse a transaction without a public key
 instead of panicking

---
 pallet/xrpl/src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl/src/types.rs b/pallet/xrpl/src/types.rs
index c14094c..e364692 100644
--- a/pallet/xrpl/src/types.rs
+++ b/pallet/xrpl/src/types.rs
@@ -121,7 +121,8 @@ impl XRPLTransaction {
 			hex::decode(&self.signing_pub_key).map_err(|_| "Error decoding hex string")?;
 		// check prefix (ignore-case "ED") to determine the public key type
 		// uppercase first 2 characters and compare with "ED"
-		let key_prefix = &self.signing_pub_key[0..2].to_uppercase();
+		let key_prefix =
+			self.signing_pub_key.get(0..2).ok_or("Missing public key")?.to_uppercase();
 		match key_prefix.as_str() {
 			"ED" => {
 				// remove the first byte (prefix) from the public key
-- 
2.43.0


From 49284ef8b9bc839effa0431b8e03ca6774361266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 45/62] fix: doughnut: refuse trailing bytes, which evade
 revocation

---
 pallet/doughnut/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallet/doughnut/src/lib.rs b/pallet/doughnut/src/lib.rs
index 76678ae..e363bb3 100644
--- a/pallet/doughnut/src/lib.rs
+++ b/pallet/doughnut/src/lib.rs
@@ -593,10 +593,13 @@ where
 		doughnut_payload: Vec<u8>,
 	) -> Result<Doughnut, DispatchError> {
 		// decode the doughnut
-		let doughnut_decoded = Doughnut::decode(&mut &doughnut_payload[..]).map_err(|e| {
+		let mut remaining = &doughnut_payload[..];
+		let doughnut_decoded = Doughnut::decode(&mut remaining).map_err(|e| {
 			log!(info, "🍩 failed to decode doughnut: {:?}", e);
 			Error::<T>::DoughnutDecodeFailed
 		})?;
+		// trailing bytes would give a revoked doughnut another hash
+		ensure!(remaining.is_empty(), Error::<T>::DoughnutDecodeFailed);
 
 		// only supports v1 for now
 		let Doughnut::V1(_) = doughnut_decoded.clone() else {
-- 
2.43.0


From 0d7acd787752b9f97c7b8278e3e3f622729f02cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 46/62] fix: doughnut: issuers do not pay for transactions of
 what they revoked

---
 pallet/doughnut/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pallet/doughnut/src/lib.rs b/pallet/doughnut/src/lib.rs
index e363bb3..3308a0e 100644
--- a/pallet/doughnut/src/lib.rs
+++ b/pallet/doughnut/src/lib.rs
@@ -300,6 +300,15 @@ where
 		else {
 			return Err("🍩 Doughnut validation failed.".into());
 		};
+		// The issuer must not be made to pay for what has been revoked
+		let issuer = crate::Pallet::<T>::get_address(doughnut_v1.issuer)
+			.map_err(|_| "🍩 failed to get issuer address")?;
+		let holder = crate::Pallet::<T>::get_address(doughnut_v1.holder)
+			.map_err(|_| "🍩 failed to get holder address")?;
+		if BlockedDoughnuts::<T>::get(keccak_256(doughnut)) || BlockedHolders::<T>::get(issuer, holder) {
+			log!(info, "🍩 doughnut or holder revoked");
+			return Err("🍩 doughnut or holder revoked".into());
+		}
 		// No need to do the doughnut verification again since already did in check_self_contained()
 		let Ok(fee_payer_doughnut) = crate::Pallet::<T>::get_address(doughnut_v1.fee_payer()) else {
 			log!(info, "🍩 failed to get fee payer address: {:?}", doughnut_v1.fee_payer());
-- 
2.43.0


From 66d44028e3ec5bb782631bc8d1a6bdabf9c2014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 47/62] fix: doughnut permissions: do not truncate amounts to
 64 bits

---
 runtime/src/impls.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index cee1e8b..91c32ac 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -996,7 +996,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u128.saturated_into())),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -1015,7 +1015,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u128.saturated_into())),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -1065,7 +1065,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						&[
 							PactType::Numeric(Numeric(asset_id_u64)),
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(*amount as u64)),
+							PactType::Numeric(Numeric((*amount).saturated_into())),
 							PactType::Numeric(Numeric(keep_alive_u64)),
 						],
 					)
-- 
2.43.0


From 872fd860d604c1d72037a459eda78138bff335b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 48/62] fix: fee-proxy: calls with fee preferences do not reach
 blocked addresses

---
 pallet/fee-proxy/src/runner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/fee-proxy/src/runner.rs b/pallet/fee-proxy/src/runner.rs
index c7e7e1e..0e0224e 100644
--- a/pallet/fee-proxy/src/runner.rs
+++ b/pallet/fee-proxy/src/runner.rs
@@ -319,6 +319,11 @@ where
 			input = new_input;
 			target = new_target;
 
+			// The actual target must not be blocked either
+			if !<T as Config>::MaintenanceChecker::validate_evm_call(&account, &target) {
+				return Err(RunnerError { error: Self::Error::WithdrawFailed, weight });
+			}
+
 			let base_fee_per_gas = <T as Config>::EVMBaseFeeProvider::evm_base_fee_per_gas();
 			let FeePreferencesData { path, total_fee_scaled, max_fee_scaled } =
 				get_fee_preferences_data::<T, U, P>(
-- 
2.43.0


From bdecbc756bb98c7dc598a5076fbc0d1f188ee520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 49/62] fix: maintenance mode holds for XRPL and doughnut
 transactions

---
 runtime/src/impls.rs | 33 ++++++++++++++++++++++++++++++---
 runtime/src/lib.rs   |  6 ++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 91c32ac..2865ebd 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -34,8 +34,9 @@ use sp_core::{H160, U256};
 use sp_runtime::{
 	generic::{Era, SignedPayload},
 	traits::{
-		AccountIdConversion, Dispatchable, Extrinsic, LookupError, SaturatedConversion, Saturating,
-		StaticLookup, UniqueSaturatedInto, Verify, Zero,
+		AccountIdConversion, DispatchInfoOf, Dispatchable, Extrinsic, LookupError,
+		SaturatedConversion, Saturating, SignedExtension, StaticLookup, UniqueSaturatedInto,
+		Verify, Zero,
 	},
 	ConsensusEngineId, Permill,
 };
@@ -51,7 +52,8 @@ use precompile_utils::{
 use seed_pallet_common::{
 	utils::{scale_decimals_to_wei, scale_wei_to_correct_decimals},
 	EthereumEventRouter as EthereumEventRouterT, EthereumEventSubscriber, EventRouterError,
-	EventRouterResult, FinalSessionTracker, MaintenanceCheck, OnNewAssetSubscriber,
+	EventRouterResult, ExtrinsicChecker, FinalSessionTracker, MaintenanceCheck,
+	OnNewAssetSubscriber,
 };
 use seed_primitives::{AccountId, Balance, Nonce, Signature};
 
@@ -495,6 +497,31 @@ impl seed_pallet_common::ExtrinsicChecker for MaintenanceModeCallValidator {
 	}
 }
 
+/// Signed extrinsics pass the maintenance mode checks as part of their `SignedExtra`; XRPL and
+/// doughnut transactions have none, so the call within is checked here against its signer.
+pub fn check_maintenance_mode(
+	call: &RuntimeCall,
+	origin: &H160,
+	info: &DispatchInfoOf<RuntimeCall>,
+	len: usize,
+) -> Result<(), TransactionValidityError> {
+	let (inner_call, signer) = match call {
+		RuntimeCall::Xrpl(pallet_xrpl::Call::transact { call, .. }) => {
+			// for futurepass transactions the origin is the futurepass of the signer
+			if FuturepassLookup::check_extrinsic(call, &()) {
+				(call, FuturepassLookup::unlookup(*origin))
+			} else {
+				(call, *origin)
+			}
+		},
+		RuntimeCall::Doughnut(pallet_doughnut::Call::transact { call, .. }) => (call, *origin),
+		_ => return Ok(()),
+	};
+	pallet_maintenance_mode::MaintenanceChecker::<Runtime>::new()
+		.validate(&signer.into(), inner_call, info, len)
+		.map(|_| ())
+}
+
 pub struct FuturepassLookup;
 impl StaticLookup for FuturepassLookup {
 	type Source = H160;
diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index e7631ba..df1c3e6 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -2199,6 +2199,9 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 		dispatch_info: &DispatchInfoOf<Self>,
 		len: usize,
 	) -> Option<TransactionValidity> {
+		if let Err(e) = impls::check_maintenance_mode(self, signed_info, dispatch_info, len) {
+			return Some(Err(e));
+		}
 		match self {
 			RuntimeCall::Ethereum(ref call) => {
 				Some(validate_self_contained_inner(self, call, signed_info, dispatch_info, len))
@@ -2219,6 +2222,9 @@ impl fp_self_contained::SelfContainedCall for RuntimeCall {
 		dispatch_info: &DispatchInfoOf<Self>,
 		len: usize,
 	) -> Option<Result<(), TransactionValidityError>> {
+		if let Err(e) = impls::check_maintenance_mode(self, signed_info, dispatch_info, len) {
+			return Some(Err(e));
+		}
 		match self {
 			RuntimeCall::Ethereum(call) => {
 				call.pre_dispatch_self_contained(signed_info, dispatch_info, len)
-- 
2.43.0


From fac328de39f0b386aeb8db362065adfa4824a674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 50/62] fix: fee amounts chosen by users saturate instead of
 panicking

---
 pallet/common/src/utils.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pallet/common/src/utils.rs b/pallet/common/src/utils.rs
index 2a3296d..78d25d8 100644
--- a/pallet/common/src/utils.rs
+++ b/pallet/common/src/utils.rs
@@ -49,14 +49,15 @@ pub fn next_asset_uuid(next_id: u32, parachain_id: u32) -> Option<u32> {
 pub fn scale_wei_to_correct_decimals(value: U256, decimals: u8) -> Balance {
 	let unit_value = U256::from(10).pow(U256::from(18) - U256::from(decimals));
 	let (quotient, remainder) = (value / unit_value, value % unit_value);
-	if remainder == U256::from(0) {
-		quotient.as_u128()
+	let scaled = if remainder == U256::from(0) {
+		quotient
 	} else {
 		// if value has a fractional part < CPAY unit value
 		// it is lost in this divide operation
-		(quotient + 1).as_u128()
-		// (quotient).as_u128() // <- validate this is correct
-	}
+		quotient + 1
+	};
+	// amounts chosen by users (e.g. max_fee_per_gas) may exceed any balance
+	Balance::try_from(scaled).unwrap_or(Balance::MAX)
 }
 
 /// convert X dp to 18dp (wei)
-- 
2.43.0


From e24b2fa887059e0decd868f5b836997d50ed3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:50 +0000
Subject: [PATCH 51/62] fix: fee preferences of Ethereum transactions: refuse a
 gas limit above 64 bits instead of panicking

---
 runtime/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index df1c3e6..c72092f 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -2142,9 +2142,14 @@ fn transaction_asset_check(
 		let (payment_asset_id, _target, _input) =
 			FeePreferencesRunner::<Runtime, Runtime, Futurepass>::decode_input(input)?;
 
+		// the gas limit is chosen by the sender, who may ask for more than 64 bits hold
+		let gas_limit = u64::try_from(gas_limit).map_err(|_| {
+			TransactionValidityError::Invalid(InvalidTransaction::ExhaustsResources)
+		})?;
+
 		let FeePreferencesData { max_fee_scaled, path, .. } =
 			get_fee_preferences_data::<Runtime, Runtime, Futurepass>(
-				gas_limit.as_u64(),
+				gas_limit,
 				<Runtime as pallet_fee_proxy::Config>::EVMBaseFeeProvider::evm_base_fee_per_gas(),
 				Some(max_fee_per_gas),
 				Some(max_priority_fee_per_gas),
-- 
2.43.0


From 970d1f5d08d1ae14b4303a6cb7e7a6d0aa596247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 52/62] fix: vortex distribution: a repeated reward
 registration replaces the earlier amount in the total too

---
 pallet/vortex-distribution/src/lib.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 4a356b5..714e204 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -49,7 +49,7 @@ use seed_pallet_common::CreateExt;
 use seed_primitives::{AssetId, OffchainErr};
 use sp_runtime::{
 	traits::{AccountIdConversion, CheckedAdd, One, Saturating, StaticLookup, Zero},
-	RuntimeDebug,
+	ArithmeticError, RuntimeDebug,
 };
 use sp_staking::EraIndex;
 use sp_std::{convert::TryInto, prelude::*};
@@ -543,16 +543,17 @@ pub mod pallet {
 
 			match s {
 				VtxDistStatus::Enabled => {
-					let mut total_rewards: BalanceOf<T> = Zero::zero();
+					let mut total_vortex = TotalVortex::<T>::get(id);
 					for (who, amount) in rewards.iter() {
-						total_rewards += *amount;
-						VtxDistOrderbook::<T>::mutate(id, who.clone(), |entry| {
-							*entry = (*amount, false);
-						});
+						// a repeated registration replaces the earlier one
+						let (replaced, _) = VtxDistOrderbook::<T>::get(id, who);
+						total_vortex = total_vortex
+							.saturating_sub(replaced)
+							.checked_add(amount)
+							.ok_or(ArithmeticError::Overflow)?;
+						VtxDistOrderbook::<T>::insert(id, who, (*amount, false));
 					}
-					TotalVortex::<T>::mutate(id, |total_vortex| {
-						*total_vortex = total_vortex.saturating_add(total_rewards);
-					});
+					TotalVortex::<T>::insert(id, total_vortex);
 					Self::deposit_event(Event::RewardRegistered { id, rewards });
 					Ok(())
 				},
-- 
2.43.0


From 7ae116efea18f262b16e4400cea2f7773790a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:49 +0000
Subject: [PATCH 53/62] fix: vortex distribution: redemption shares of large
 amounts do not saturate

---
 pallet/vortex-distribution/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 714e204..d171207 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -47,9 +47,10 @@ use pallet_staking::{BalanceOf, RewardPoint};
 use scale_info::TypeInfo;
 use seed_pallet_common::CreateExt;
 use seed_primitives::{AssetId, OffchainErr};
+use sp_core::U256;
 use sp_runtime::{
 	traits::{AccountIdConversion, CheckedAdd, One, Saturating, StaticLookup, Zero},
-	ArithmeticError, RuntimeDebug,
+	ArithmeticError, RuntimeDebug, SaturatedConversion,
 };
 use sp_staking::EraIndex;
 use sp_std::{convert::TryInto, prelude::*};
@@ -610,7 +611,13 @@ pub mod pallet {
 				// issue. then multiply it with the vortex token amount the user wants to reddem to
 				// get the resulting asset token amount.
 				let asset_balance = T::MultiCurrency::balance(asset_id, &vault_account);
-				let redeem_amount = vortex_balance.saturating_mul(asset_balance) / total_vortex;
+				// `vortex_balance <= total_vortex`, so the share fits a balance again
+				let redeem_amount: BalanceOf<T> = (U256::from(
+					vortex_balance.saturated_into::<u128>(),
+				) * U256::from(asset_balance.saturated_into::<u128>())
+					/ U256::from(total_vortex.saturated_into::<u128>()))
+				.low_u128()
+				.saturated_into();
 
 				Self::safe_transfer(asset_id, &vault_account, &who, redeem_amount, false)?;
 			}
-- 
2.43.0


From 4796a8811cae4d056e9ae290410442ead80dabcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 54/62] fix: vortex distribution: the event of an administrator
 change names the previous one

---
 pallet/vortex-distribution/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index d171207..33aef6a 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -353,11 +353,9 @@ pub mod pallet {
 			ensure_root(origin)?;
 
 			let new = T::Lookup::lookup(new)?;
+			let old_key = AdminAccount::<T>::get();
 			AdminAccount::<T>::put(&new);
-			Self::deposit_event(Event::AdminAccountChanged {
-				old_key: AdminAccount::<T>::get(),
-				new_key: new,
-			});
+			Self::deposit_event(Event::AdminAccountChanged { old_key, new_key: new });
 			Ok(())
 		}
 
-- 
2.43.0


From 81b3ae8bacf3e5093b987a615696d0654d5d2653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 55/62] fix: erc20 peg: count more than 255 handled blocks of
 delayed payments

`processed_block_count` was a u8: handling the 256th block of delayed payments in one on_idle overflowed (a panic, or after wrapping, handled blocks stayed in the list of ready ones).
---
 pallet/erc20-peg/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallet/erc20-peg/src/lib.rs b/pallet/erc20-peg/src/lib.rs
index 7df013b..68638d1 100644
--- a/pallet/erc20-peg/src/lib.rs
+++ b/pallet/erc20-peg/src/lib.rs
@@ -296,7 +296,7 @@ pub mod pallet {
 			// Total payments processed in this block
 			let mut processed_payment_count: u8 = 0;
 			// Count of blocks where all payments have been processed
-			let mut processed_block_count: u8 = 0;
+			let mut processed_block_count: usize = 0;
 
 			for block in ready_blocks.iter() {
 				let mut payment_ids = DelayedPaymentSchedule::<T>::take(block).into_inner();
@@ -328,7 +328,7 @@ pub mod pallet {
 			}
 
 			let ready_blocks =
-				BoundedVec::truncate_from(ready_blocks[processed_block_count as usize..].to_vec());
+				BoundedVec::truncate_from(ready_blocks[processed_block_count..].to_vec());
 			ReadyBlocks::<T>::put(ready_blocks);
 			initial_read_cost
 				.add_ref_time(weight_each.mul(processed_payment_count as u64).ref_time())
-- 
2.43.0


From b5457f0f12120c1b44b42bcddf51b70882d22b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 56/62] fix: NFI upgrade: take the old entries out before
 writing the new ones under the same prefix

---
 runtime/src/migrations/nfi.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/src/migrations/nfi.rs b/runtime/src/migrations/nfi.rs
index 59ec437..bddff82 100644
--- a/runtime/src/migrations/nfi.rs
+++ b/runtime/src/migrations/nfi.rs
@@ -127,9 +127,11 @@ pub mod v1 {
 		let chain_id = ChainId::<T>::get();
 
 		// Migrate NFI Data
-		for (token_id, sub_type, nfi_data) in NfiData::<T>::iter() {
+		// The new entries share the prefix of the old ones, so all of those are taken out first
+		let old_data: Vec<_> = NfiData::<T>::drain().collect();
+		for (token_id, sub_type, nfi_data) in old_data {
 			weight = weight
-				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 1));
+				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 2));
 			let multi_chain_token = MultiChainTokenId {
 				chain_id,
 				collection_id: GenericCollectionId::U32(token_id.0),
@@ -139,9 +141,10 @@ pub mod v1 {
 		}
 
 		// Migrate NFIEnabled
-		for (collection_id, sub_type, enabled) in NfiEnabled::<T>::iter() {
+		let old_enabled: Vec<_> = NfiEnabled::<T>::drain().collect();
+		for (collection_id, sub_type, enabled) in old_enabled {
 			weight = weight
-				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 1));
+				.saturating_add(<T as frame_system::Config>::DbWeight::get().reads_writes(1, 2));
 			let collection_id = GenericCollectionId::U32(collection_id);
 			NewNfiEnabled::<T>::insert((chain_id, collection_id), sub_type, enabled);
 		}
-- 
2.43.0


From 269bcb54bf03ac54785ae99af87ff1e0373611b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:23 +0000
Subject: [PATCH 57/62] fix: migration: only make steps there is weight left
 for, in both dimensions

---
 pallet/migration/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pallet/migration/src/lib.rs b/pallet/migration/src/lib.rs
index d5fd09b..7c9db7b 100644
--- a/pallet/migration/src/lib.rs
+++ b/pallet/migration/src/lib.rs
@@ -226,7 +226,7 @@ impl<T: Config> Pallet<T> {
 		let base_weight = T::WeightInfo::migrate();
 
 		// Check we have enough weight to perform at least one step
-		if weight_limit.all_lt(base_weight.saturating_add(max_step_weight)) {
+		if base_weight.saturating_add(max_step_weight).any_gt(weight_limit) {
 			return Weight::zero();
 		}
 
@@ -254,7 +254,10 @@ impl<T: Config> Pallet<T> {
 		used_weight = used_weight.saturating_add(base_weight);
 
 		log::debug!(target: LOG_TARGET, "🦆 Starting multi-block migration for block {:?}", block_number);
-		while used_weight.all_lt(weight_limit) && step_counter < block_limit {
+		// A step is only made if there is weight left for it
+		while used_weight.saturating_add(max_step_weight).all_lte(weight_limit)
+			&& step_counter < block_limit
+		{
 			// Perform one migration step on the current migration
 			let step_result = T::CurrentMigration::step(last_key);
 			last_key = step_result.last_key.clone();
-- 
2.43.0


From 3ec7c6236fc9b089db3442e62867cf14eaee0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:51 +0000
Subject: [PATCH 58/62] fix: migration: start a new migration at its first
 entry, whatever an abandoned one left

---
 pallet/migration/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/migration/src/lib.rs b/pallet/migration/src/lib.rs
index 7c9db7b..02bd4fe 100644
--- a/pallet/migration/src/lib.rs
+++ b/pallet/migration/src/lib.rs
@@ -249,7 +249,8 @@ impl<T: Config> Pallet<T> {
 		}
 
 		let block_limit: u32 = BlockLimit::<T>::get();
-		let mut last_key = LastKey::<T>::get();
+		// A key kept by a migration that was abandoned is not one of a migration just started
+		let mut last_key = if previous_steps.is_zero() { None } else { LastKey::<T>::get() };
 		let mut step_counter: u32 = 0;
 		used_weight = used_weight.saturating_add(base_weight);
 
-- 
2.43.0


From d0a2eb1faa31779ca9a320c94dc7f9f6e66fd4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 59/62] fix: ethy-gadget: an event's proof is for the
 validators at its block

A witness was indexed by, and the threshold taken from, whatever validator set
was current when the witness arrived: after a set change the proof of an
earlier event had its signatures at other validators' places, was counted
against another threshold and named another set id.
---
 ethy-gadget/src/types.rs          |  8 +++++++-
 ethy-gadget/src/witness_record.rs | 33 +++++++++++++++++++------------
 ethy-gadget/src/worker.rs         |  6 +++---
 3 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/ethy-gadget/src/types.rs b/ethy-gadget/src/types.rs
index 0b87f9c..15c6c92 100644
--- a/ethy-gadget/src/types.rs
+++ b/ethy-gadget/src/types.rs
@@ -14,7 +14,9 @@
 // You may obtain a copy of the License at the root of this project source code
 
 //! ethy-gadget types
-use seed_primitives::ethy::{EthyChainId, EventProofId, ETHY_ENGINE_ID};
+use seed_primitives::ethy::{
+	crypto::AuthorityId, EthyChainId, EventProofId, ValidatorSet, ETHY_ENGINE_ID,
+};
 
 /// Metadata about an Ethy event
 pub struct EventMetadata {
@@ -26,6 +28,10 @@ pub struct EventMetadata {
 	pub digest_data: Vec<u8>,
 	/// The (finalized) block hash where the event proof was made
 	pub block_hash: [u8; 32],
+	/// The validators at that block, signatures are indexed by their position in this set
+	pub validators: ValidatorSet<AuthorityId>,
+	/// The XRPL subset of the validators at that block
+	pub xrpl_validators: ValidatorSet<AuthorityId>,
 }
 
 /// An Ethy proof request
diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index 6fb6221..35e5e68 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -105,9 +105,13 @@ impl WitnessRecord {
 	pub fn has_consensus(&self, event_id: EventProofId, chain_id: EthyChainId) -> bool {
 		trace!(target: "ethy", "💎 event {:?}, witnesses: {:?}", event_id, self.witnesses.get(&event_id));
 
+		// the validators may have changed since the event was requested, its proof is for the set
+		// at the block of the request
+		let Some(metadata) = self.event_metadata(event_id) else { return false };
+
 		let proof_threshold = match chain_id {
-			EthyChainId::Ethereum => self.validators.proof_threshold as usize,
-			EthyChainId::Xrpl => self.xrpl_validators.proof_threshold as usize,
+			EthyChainId::Ethereum => metadata.validators.proof_threshold as usize,
+			EthyChainId::Xrpl => metadata.xrpl_validators.proof_threshold as usize,
 		};
 
 		let witness_count = match chain_id {
@@ -117,9 +121,9 @@ impl WitnessRecord {
 				// count signatures from the XRPL authorized signers only
 				w.iter()
 					.filter(|(idx, _sig)| {
-						let ethy_pub_key = self.validators.validators.get(*idx as usize);
+						let ethy_pub_key = metadata.validators.validators.get(*idx as usize);
 						if let Some(ethy_pub_key) = ethy_pub_key {
-							self.xrpl_validators.authority_index(ethy_pub_key).is_some()
+							metadata.xrpl_validators.authority_index(ethy_pub_key).is_some()
 						} else {
 							false
 						}
@@ -158,10 +162,13 @@ impl WitnessRecord {
 		block_hash: [u8; 32],
 		chain_id: EthyChainId,
 	) {
-		self.event_meta.entry(event_id).or_insert(EventMetadata {
+		let (validators, xrpl_validators) = (&self.validators, &self.xrpl_validators);
+		self.event_meta.entry(event_id).or_insert_with(|| EventMetadata {
 			block_hash,
 			digest_data,
 			chain_id,
+			validators: validators.clone(),
+			xrpl_validators: xrpl_validators.clone(),
 		});
 	}
 	/// Note a witness if we haven't seen it before
@@ -197,7 +204,7 @@ impl WitnessRecord {
 		// witness metadata may not be available at this point
 		// if so we can't fully verify `witness` is for the correct `digest` yet (i.e. validator
 		// didn't sign a different message) store `witness` as unconfirmed for verification later
-		if let Some(metadata) = self.event_metadata(witness.event_id) {
+		let authority_index = if let Some(metadata) = self.event_metadata(witness.event_id) {
 			// verify the signature against locally found digest info from metadata
 			let Some(digest) = data_to_digest(
 				metadata.chain_id,
@@ -219,6 +226,13 @@ impl WitnessRecord {
 				debug!(target: "ethy", "💎 witness digest signature verification failed. witness: {:?}, local digest: {:?} ", witness, digest);
 				return Err(WitnessError::SignatureVerificationFailed);
 			}
+
+			// Convert authority secp256k1 public key into ordered index
+			// this is useful to efficiently generate the full proof later
+			metadata
+				.validators
+				.authority_index(&witness.authority_id)
+				.ok_or(WitnessError::UnknownAuthority)? as AuthorityIndex
 		} else {
 			// store witness for re-verification later
 			debug!(target: "ethy", "💎 witness recorded (digest unverified): {:?}, {:?}", witness.event_id, witness.authority_id);
@@ -229,13 +243,6 @@ impl WitnessRecord {
 			return Ok(WitnessStatus::DigestUnverified);
 		};
 
-		// Convert authority secp256k1 public key into ordered index
-		// this is useful to efficiently generate the full proof later
-		let authority_index = self
-			.validators
-			.authority_index(&witness.authority_id)
-			.ok_or(WitnessError::UnknownAuthority)? as AuthorityIndex;
-
 		// There are 2 cases:
 		// 1) first time observing an event and witness
 		// 2) observed event, first time observing a witness
diff --git a/ethy-gadget/src/worker.rs b/ethy-gadget/src/worker.rs
index d6406f8..72797b9 100644
--- a/ethy-gadget/src/worker.rs
+++ b/ethy-gadget/src/worker.rs
@@ -352,12 +352,12 @@ where
 
 		// process any unverified witnesses, received before event metadata was known
 		self.witness_record.process_unverified_witnesses(event_id);
-		let EventMetadata { chain_id, block_hash, digest_data } =
+		let EventMetadata { chain_id, block_hash, digest_data, validators, .. } =
 			self.witness_record.event_metadata(event_id).expect("metadata is known; qed");
 
 		if self.witness_record.has_consensus(event_id, *chain_id) {
 			let signatures = self.witness_record.signatures_for(event_id);
-			info!(target: "ethy", "💎 generating proof for event: {:?}, signatures: {:?}, validator set: {:?}", event_id, signatures, self.validator_set.id);
+			info!(target: "ethy", "💎 generating proof for event: {:?}, signatures: {:?}, validator set: {:?}", event_id, signatures, validators.id);
 			// NOTE: XRPL digest is unique per pubkey. For Ethereum it's the same as digest_data.
 			// Anyway EventProof.digest is not used by any other part of the code
 			let Some(digest) = data_to_digest(*chain_id, digest_data.clone(), [0_u8; 33]) else {
@@ -367,7 +367,7 @@ where
 			let event_proof = EventProof {
 				digest,
 				event_id,
-				validator_set_id: self.validator_set.id,
+				validator_set_id: validators.id,
 				block: *block_hash,
 				signatures: signatures.clone(),
 			};
-- 
2.43.0


From b07933d16423b2a2c10551b715f9d8582e8e9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 60/62] fix: ethy-gadget: no proof for an event without known
 signers

With an empty validator set (its query failed or the chain has none) the
threshold is 0 and a proof without any signature was stored and announced.
---
 ethy-gadget/src/witness_record.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ethy-gadget/src/witness_record.rs b/ethy-gadget/src/witness_record.rs
index 35e5e68..ac1af6e 100644
--- a/ethy-gadget/src/witness_record.rs
+++ b/ethy-gadget/src/witness_record.rs
@@ -109,10 +109,15 @@ impl WitnessRecord {
 		// at the block of the request
 		let Some(metadata) = self.event_metadata(event_id) else { return false };
 
-		let proof_threshold = match chain_id {
-			EthyChainId::Ethereum => metadata.validators.proof_threshold as usize,
-			EthyChainId::Xrpl => metadata.xrpl_validators.proof_threshold as usize,
+		let signers = match chain_id {
+			EthyChainId::Ethereum => &metadata.validators,
+			EthyChainId::Xrpl => &metadata.xrpl_validators,
 		};
+		// without known signers (e.g. they could not be queried) nobody vouches for the event
+		if signers.is_empty() {
+			return false;
+		}
+		let proof_threshold = signers.proof_threshold as usize;
 
 		let witness_count = match chain_id {
 			EthyChainId::Ethereum => self.witnesses.get(&event_id).map(|w| w.len()),
-- 
2.43.0


From 1f537cda57181f1357c16b7de3328a71d7b0f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:18 +0000
Subject: [PATCH 61/62] fix: ethy-gadget: XRPL requests are for the XRPL
 signers at their block

The XRPL signers were queried only when the validator set changed, though they
change on their own (set_xrpl_door_signers) and the query is documented as made
always: proofs counted signers that are no longer authorised and missed new ones.
---
 ethy-gadget/src/worker.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ethy-gadget/src/worker.rs b/ethy-gadget/src/worker.rs
index 72797b9..3c32471 100644
--- a/ethy-gadget/src/worker.rs
+++ b/ethy-gadget/src/worker.rs
@@ -298,6 +298,14 @@ where
 			}
 		}
 
+		// The XRPL signers may change without a validator set change, requests in this block are for
+		// the signers at this block
+		if !extract_proof_requests::<B>(&new_header).is_empty() {
+			if let Some(xrpl_validators) = self.xrpl_validator_set(&new_header) {
+				self.witness_record.set_validators(self.validator_set.clone(), xrpl_validators);
+			}
+		}
+
 		// Process proof requests
 		if let Some(authority_id) =
 			self.key_store.authority_id(self.validator_set.validators.as_slice())
-- 
2.43.0


From 9125c510d81fdcbcc2b72a9cf102c0274e7d6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 62/62] fix: the DEX quote interface refuses amounts that do
 not fit instead of truncating them

---
 runtime/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index c72092f..984eb80 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -1665,7 +1665,9 @@ impl_runtime_apis! {
 			reserve_a: u128,
 			reserve_b: u128,
 		) -> Result<u128, sp_runtime::DispatchError> {
-			Dex::quote(amount_a.into(), reserve_a, reserve_b).map(|r| r.low_u128())
+			Dex::quote(amount_a.into(), reserve_a, reserve_b).and_then(|r| {
+				u128::try_from(r).map_err(|_| sp_runtime::ArithmeticError::Overflow.into())
+			})
 		}
 
 		fn get_amounts_out(
-- 
2.43.0

