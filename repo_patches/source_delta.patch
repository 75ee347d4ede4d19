From 1da8be32786c0794bd1b1e2ce150c2de2fdc4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 01/23] fix: a veto no longer shortens a permanent blacklisting

blacklist() promises the proposal can never be proposed again, but a later
external_propose_majority/default of it followed by veto_external replaced the
permanent entry with one that lapses after the cool-off period.
---
 pallets/democracy/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index c96b640..c55b294 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -815,11 +815,13 @@ pub mod pallet {
 				return Err(Error::<T>::NoProposal.into());
 			}
 
-			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();
+			let (existing_until, mut existing_vetoers) = <Blacklist<T>>::get(&proposal_hash).unwrap_or_default();
 			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
 			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
 
-			let until = <frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get());
+			// A veto never shortens a ban that already stands (e.g. a permanent one set by `blacklist`).
+			let until =
+				<frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get()).max(existing_until);
 			<Blacklist<T>>::insert(&proposal_hash, (until, existing_vetoers));
 
 			Self::deposit_event(Event::<T>::Vetoed { who, proposal_hash, until });
-- 
2.43.0


From b0c2b03a6ec7eeec50fe2fe4fd174e3e132c4c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 02/23] fix: slashing an account with an ended, unclaimed
 vesting schedule no longer panics

---
 pallets/on-slash-vesting/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 571f986..382deb2 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -36,6 +36,10 @@ where
 			let now = T::BlockNumberProvider::current_block_number();
 			for schedule in vesting_schedules {
 				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
+				// Nothing is left to vest. An ended schedule has no remaining duration to divide by.
+				if total_locked == 0 {
+					continue;
+				}
 				let start_block = T::BlockNumberToBalance::convert(now);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
-- 
2.43.0


From 4f7b8ee3fd0fab1ced1d4767b6668ebc57ad3078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 03/23] fix: slashing no longer makes vesting schedules start
 before their starting block

---
 pallets/on-slash-vesting/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 382deb2..5bdb7d8 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -40,11 +40,13 @@ where
 				if total_locked == 0 {
 					continue;
 				}
-				let start_block = T::BlockNumberToBalance::convert(now);
+				// A schedule which has not started yet keeps its start.
+				let starting_block = now.max(schedule.starting_block());
+				let start_block = T::BlockNumberToBalance::convert(starting_block);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
-				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
+				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, starting_block);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
 					let push_result = new_vesting_schedules.try_push(new_schedule);
-- 
2.43.0


From a5e5f5cd47136b0dd8039da307b818f7df1ac8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 04/23] fix: slashing no longer releases a vesting remainder
 smaller than one unit per block

---
 pallets/on-slash-vesting/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 5bdb7d8..319f296 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -45,7 +45,8 @@ where
 				let start_block = T::BlockNumberToBalance::convert(starting_block);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
-				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
+				// At least one unit per block, otherwise the schedule would be dropped and its funds released at once.
+				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128).max(1);
 				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, starting_block);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
-- 
2.43.0


From 290b8328de404231a105cebadd676bfd4b40fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 05/23] fix: adding a release schedule no longer forgets fully
 vested schedules whose funds are still held

---
 pallets/linear-release/src/impls.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index bb89b64..dbd4a72 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -284,13 +284,11 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 
 		let mut schedules = Self::vesting(who, reason).unwrap_or_default();
 
-		// NOTE: we must push the new schedule so that `exec_action`
-		// will give the correct new locked amount.
+		// NOTE: nothing is released here, so schedules that are already fully vested have to stay:
+		// the funds they release are still on hold until `vest` is called.
 		ensure!(schedules.try_push(vesting_schedule).is_ok(), Error::<T>::AtMaxVestingSchedules);
 
-		let (schedules, _) = Self::exec_action(schedules.to_vec(), VestingAction::Passive)?;
-
-		Self::write_vesting_schedule(who, schedules, reason)?;
+		Self::write_vesting_schedule(who, schedules.to_vec(), reason)?;
 		Ok(())
 	}
 
-- 
2.43.0


From 7f5be196b5c7f15694438ce50f637284a9739ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 06/23] fix: removing all release schedules no longer fails
 when one of them is already fully vested

---
 pallets/linear-release/src/impls.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index dbd4a72..bc9ff27 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -369,9 +369,9 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 	}
 
 	fn remove_all_vesting_schedules(who: &T::AccountId, reason: ReasonOf<T>) -> DispatchResult {
-		let schedules_count = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?.len();
-		for _ in 0..schedules_count {
-			let current_schedules = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?;
+		ensure!(Vesting::<T>::contains_key(who, reason), Error::<T>::NotVesting);
+		// Removing one schedule also drops the ones that are fully vested by now.
+		while let Some(current_schedules) = Self::vesting(who, reason) {
 			let remove_action = VestingAction::Remove { index: 0usize };
 			let (schedules, locked_now) = Self::exec_action(current_schedules.to_vec(), remove_action)?;
 			Self::write_vesting_schedule(who, schedules, reason)?;
-- 
2.43.0


From b35345e84ccf1c6168efeb06f8cde5e62f064282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 07/23] fix: a release schedule whose vested amount overflows
 is reported as fully vested, not as unvested

---
 pallets/linear-release/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/types.rs b/pallets/linear-release/src/types.rs
index 09ca6e6..9192139 100644
--- a/pallets/linear-release/src/types.rs
+++ b/pallets/linear-release/src/types.rs
@@ -109,7 +109,7 @@ where
 		let vested_block_count = BlockNumberToBalance::convert(time_range);
 		// TODO: Find a way to improve this.
 		// Return amount that is releasable in vesting.
-		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(Zero::zero());
+		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(self.locked);
 		res.min(self.locked)
 	}
 
-- 
2.43.0


From cafdb5f8accba38e2228b31d0e0c1d7c84cc5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 08/23] fix: a sold-out project can only be ended once, during
 its last funding round

---
 pallets/funding/src/functions/5_funding_end.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/5_funding_end.rs b/pallets/funding/src/functions/5_funding_end.rs
index f88d2fc..42bde71 100644
--- a/pallets/funding/src/functions/5_funding_end.rs
+++ b/pallets/funding/src/functions/5_funding_end.rs
@@ -12,10 +12,11 @@ impl<T: Config> Pallet<T> {
 
 		// * Validity checks *
 		ensure!(
-			// Can end due to running out of CTs
-			remaining_cts == Zero::zero() ||
-				// or the last funding round ending
-				project_details.round_duration.ended(now) && matches!(project_details.status, ProjectStatus::CommunityRound(..)),
+			matches!(project_details.status, ProjectStatus::CommunityRound(..)) &&
+				// Can end due to running out of CTs
+				(remaining_cts == Zero::zero() ||
+					// or the last funding round ending
+					project_details.round_duration.ended(now)),
 			Error::<T>::TooEarlyForRound
 		);
 
-- 
2.43.0


From ffe239c6b5ea33b399079cf6643d949d33cc2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 09/23] fix: an offchain migration can no longer be confirmed
 twice

---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index d9c1eac..cf37518 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -369,7 +369,8 @@ impl<T: Config> Pallet<T> {
 				if matches!(current_status, MigrationStatus::NotStarted | MigrationStatus::Failed) =>
 				status,
 			MigrationStatus::Confirmed
-				if matches!(project_details.migration_type, Some(MigrationType::Offchain)) ||
+				if (matches!(project_details.migration_type, Some(MigrationType::Offchain)) &&
+					!matches!(current_status, MigrationStatus::Confirmed)) ||
 					(matches!(project_details.migration_type, Some(MigrationType::Pallet(_))) &&
 						matches!(current_status, MigrationStatus::Sent(_))) =>
 			{
-- 
2.43.0


From 505e0ac41d3aec6d5fffa595f3acf85e444fc4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 10/23] fix: a migration readiness response without assets is
 rejected instead of panicking

---
 pallets/funding/src/functions/7_ct_migration.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 001e507..89556ab 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -345,9 +345,8 @@ impl<T: Config> Pallet<T> {
 			) => {
 				let ct_sold_as_u128: u128 = contribution_tokens_sold;
 				let assets: Vec<Asset> = assets.into_inner();
-				let asset_1 = assets[0].clone();
-				match asset_1 {
-					Asset { id: AssetId(location), fun: Fungible(amount) }
+				match assets.first().cloned() {
+					Some(Asset { id: AssetId(location), fun: Fungible(amount) })
 						if amount >= ct_sold_as_u128 &&
 							get_parachain_id(&location.clone()).ok_or(Error::<T>::WrongParaId)? ==
 								u32::from(para_id) =>
-- 
2.43.0


From cdfd4e020cda44954eba6fdc6d3b2049763dd380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 11/23] fix: the weighted average price no longer counts tokens
 beyond the auction allocation

---
 pallets/funding/src/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallets/funding/src/types.rs b/pallets/funding/src/types.rs
index ee3573b..201a501 100644
--- a/pallets/funding/src/types.rs
+++ b/pallets/funding/src/types.rs
@@ -459,6 +459,8 @@ pub mod storage {
 			let mut price: Price = self.current_price;
 			let mut bucket_sizes: Vec<(Balance, Price)> = Vec::new();
 			while price > self.initial_price && total_amount > Balance::zero() {
+				// The lowest bucket reached may hold more tokens than are left to account for.
+				amount = amount.min(total_amount);
 				total_amount.saturating_reduce(amount);
 				bucket_sizes.push((price.saturating_mul_int(amount), price));
 				price = price.saturating_sub(self.delta_price);
-- 
2.43.0


From e97ff47bb46d5cc52979e25225191d67165c8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 12/23] fix: a bond smaller than one unit per block of its
 vesting duration no longer blocks settlement

---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index cf37518..ca3fb05 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -66,7 +66,8 @@ impl<T: Config> Pallet<T> {
 		let amount_per_block = if duration_as_balance == Zero::zero() {
 			bonded_amount
 		} else {
-			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?
+			// A release schedule of zero per block is invalid, and would block the settlement of a small bond.
+			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?.max(One::one())
 		};
 
 		Ok(VestingInfo { total_amount: bonded_amount, amount_per_block, duration })
-- 
2.43.0


From cf0f86f6a1fa796a80aed7166bac14fd98cf447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 13/23] fix: removing a project frees its issuer's DID, not the
 one presented by the caller

---
 pallets/funding/src/functions/1_application.rs | 4 ++--
 pallets/funding/src/lib.rs                     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/1_application.rs b/pallets/funding/src/functions/1_application.rs
index eaf95b7..aad8d5f 100644
--- a/pallets/funding/src/functions/1_application.rs
+++ b/pallets/funding/src/functions/1_application.rs
@@ -123,7 +123,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	#[transactional]
-	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, did: Did) -> DispatchResult {
+	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId) -> DispatchResult {
 		// * Get variables *
 		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;
 
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 		// * Update storage *
 		ProjectsDetails::<T>::remove(project_id);
 		ProjectsMetadata::<T>::remove(project_id);
-		DidWithActiveProjects::<T>::set(did, None);
+		DidWithActiveProjects::<T>::set(project_details.issuer_did, None);
 		Buckets::<T>::remove(project_id);
 
 		// * Emit events *
diff --git a/pallets/funding/src/lib.rs b/pallets/funding/src/lib.rs
index 630bc7a..7d0ac25 100644
--- a/pallets/funding/src/lib.rs
+++ b/pallets/funding/src/lib.rs
@@ -706,10 +706,10 @@ pub mod pallet {
 		#[pallet::call_index(1)]
 		#[pallet::weight(WeightInfoOf::<T>::remove_project())]
 		pub fn remove_project(origin: OriginFor<T>, jwt: UntrustedToken, project_id: ProjectId) -> DispatchResult {
-			let (account, did, investor_type, _cid) =
+			let (account, _did, investor_type, _cid) =
 				T::InvestorOrigin::ensure_origin(origin, &jwt, T::VerifierPublicKey::get())?;
 			ensure!(investor_type == InvestorType::Institutional, Error::<T>::WrongInvestorType);
-			Self::do_remove_project(account, project_id, did)
+			Self::do_remove_project(account, project_id)
 		}
 
 		/// Change the metadata hash of a project
-- 
2.43.0


From 5f6284e9e56d00976c03a9afb881fbd32dc4f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 14/23] fix: a pallet migration can no longer be confirmed as
 if it were an offchain one

---
 pallets/funding/src/functions/7_ct_migration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 89556ab..e3dbf7a 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -35,6 +35,7 @@ impl<T: Config> Pallet<T> {
 		// * Validity checks *
 		ensure!(project_details.status == ProjectStatus::CTMigrationStarted, Error::<T>::IncorrectRound);
 		ensure!(project_details.issuer_account == caller, Error::<T>::NotIssuer);
+		ensure!(project_details.migration_type == Some(MigrationType::Offchain), Error::<T>::NotAllowed);
 
 		// * Update storage *
 		Self::change_migration_status(project_id, participant.clone(), MigrationStatus::Confirmed)?;
-- 
2.43.0


From 75be71df27cb0ea3748b4f1c135227be78f34766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 15/23] fix: only the issuer can restart a migration readiness
 check

---
 pallets/funding/src/functions/7_ct_migration.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index e3dbf7a..7665e60 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -232,14 +232,7 @@ impl<T: Config> Pallet<T> {
 		);
 		if migration_info.migration_readiness_check.is_none() {
 			ensure!(caller.clone() == T::PalletId::get().into_account_truncating(), Error::<T>::NotAllowed);
-		} else if matches!(
-			migration_info.migration_readiness_check,
-			Some(PalletMigrationReadinessCheck {
-				holding_check: (_, CheckOutcome::Failed),
-				pallet_check: (_, CheckOutcome::Failed),
-				..
-			})
-		) {
+		} else {
 			ensure!(caller == &project_details.issuer_account, Error::<T>::NotIssuer);
 		}
 
-- 
2.43.0


From 66c3ceb0bf242cb2b403585ceab0d470b6c784a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 16/23] fix: the total of the bottom delegations follows a
 decrease

---
 pallets/parachain-staking/src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/parachain-staking/src/types.rs b/pallets/parachain-staking/src/types.rs
index 96b9850..8cb4a44 100644
--- a/pallets/parachain-staking/src/types.rs
+++ b/pallets/parachain-staking/src/types.rs
@@ -1059,6 +1059,7 @@ impl<
 			})
 			.collect();
 		ensure!(in_bottom, Error::<T>::DelegationDNE);
+		bottom_delegations.total = bottom_delegations.total.saturating_sub(less);
 		bottom_delegations.sort_greatest_to_least();
 		self.reset_bottom_data::<T>(&bottom_delegations);
 		<BottomDelegations<T>>::insert(candidate, bottom_delegations);
-- 
2.43.0


From 3f72c13e257dddb980b6615099b446d4729ac3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 17/23] fix: a kicked delegation takes its auto-compounding
 along

---
 pallets/parachain-staking/src/auto_compound.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pallets/parachain-staking/src/auto_compound.rs b/pallets/parachain-staking/src/auto_compound.rs
index 900df94..cd7005d 100644
--- a/pallets/parachain-staking/src/auto_compound.rs
+++ b/pallets/parachain-staking/src/auto_compound.rs
@@ -189,16 +189,12 @@ where
 			Error::<T>::TooLowCandidateDelegationCountToDelegate
 		);
 
-		let auto_compounding_state = if !auto_compound.is_zero() {
-			let auto_compounding_state = Self::get_storage(&candidate);
+		if !auto_compound.is_zero() {
 			ensure!(
-				auto_compounding_state.len() <= candidate_auto_compounding_delegation_count_hint,
+				Self::get_storage(&candidate).len() <= candidate_auto_compounding_delegation_count_hint,
 				<Error<T>>::TooLowCandidateAutoCompoundingDelegationCountToDelegate,
 			);
-			Some(auto_compounding_state)
-		} else {
-			None
-		};
+		}
 
 		// add delegation to candidate
 		let (delegator_position, less_total_staked) =
@@ -212,8 +208,10 @@ where
 		let net_total_increase = if let Some(less) = less_total_staked { amount.saturating_sub(less) } else { amount };
 		let new_total_locked = <Total<T>>::get().saturating_add(net_total_increase);
 
-		// maybe set auto-compound config, state is Some if the percent is non-zero
-		if let Some(mut state) = auto_compounding_state {
+		// maybe set auto-compound config; read only now, as adding the delegation may have kicked one
+		// and removed its config
+		if !auto_compound.is_zero() {
+			let mut state = Self::get_storage(&candidate);
 			state.set_for_delegator(delegator.clone(), auto_compound)?;
 			state.set_storage(&candidate);
 		}
-- 
2.43.0


From b91a2a0a954948441d52243fd47f7bb6cddb4d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 18/23] fix: a decrease of a delegation waits its own delay

---
 pallets/parachain-staking/src/delegation_requests.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/parachain-staking/src/delegation_requests.rs b/pallets/parachain-staking/src/delegation_requests.rs
index c2fe8b6..c0ae055 100644
--- a/pallets/parachain-staking/src/delegation_requests.rs
+++ b/pallets/parachain-staking/src/delegation_requests.rs
@@ -132,7 +132,7 @@ impl<T: Config> Pallet<T> {
 		ensure!(decrease_amount <= max_subtracted_amount, <Error<T>>::DelegatorBondBelowMin);
 
 		let now = <Round<T>>::get().current;
-		let when = now.saturating_add(T::RevokeDelegationDelay::get());
+		let when = now.saturating_add(T::DelegationBondLessDelay::get());
 		scheduled_requests.push(ScheduledRequest {
 			delegator: delegator.clone(),
 			action: DelegationAction::Decrease(decrease_amount),
-- 
2.43.0


From f88b714a350de961545551488b9b53fce5b91f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 19/23] fix: price feeds are signed with the member's key

The worker looked for a key of a member in the keystore and then signed with
any key of the keystore. With a second key there the feed was refused on
chain, while the worker took the prices as sent and waited for the next window.
---
 pallets/oracle-ocw/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pallets/oracle-ocw/src/lib.rs b/pallets/oracle-ocw/src/lib.rs
index 0138759..5ca0bd7 100644
--- a/pallets/oracle-ocw/src/lib.rs
+++ b/pallets/oracle-ocw/src/lib.rs
@@ -131,7 +131,7 @@ pub mod pallet {
 				None
 			});
 
-			if let Some(_authority_key) = maybe_key {
+			if let Some(authority_key) = maybe_key {
 				let mut lock = StorageLock::<Time>::with_deadline(
 					b"oracle_ocw::lock",
 					Duration::from_millis(LOCK_TIMEOUT_EXPIRATION),
@@ -186,7 +186,7 @@ pub mod pallet {
 					for (asset_name, price) in prices.clone() {
 						log::trace!(target: LOG_TARGET, "Fetched price for {:?}: {}", asset_name, price);
 					}
-					let result = Self::send_signed_transaction(prices.clone());
+					let result = Self::send_signed_transaction(authority_key, prices.clone());
 					if result.is_ok() {
 						for (asset_name, _) in prices {
 							last_send_for_assets.insert(asset_name, block_number);
@@ -245,8 +245,13 @@ pub mod pallet {
 				.collect::<BTreeMap<AssetName, FixedU128>>()
 		}
 
-		fn send_signed_transaction(prices: BTreeMap<AssetName, FixedU128>) -> Result<(), ()> {
-			let signer = Signer::<T, T::AppCrypto>::any_account();
+		fn send_signed_transaction(
+			authority_key: RuntimeAppPublicOf<T>,
+			prices: BTreeMap<AssetName, FixedU128>,
+		) -> Result<(), ()> {
+			// The keystore may hold other keys as well, and only members may feed prices.
+			let public: T::Public = GenericPublicOf::<T>::from(authority_key).into();
+			let signer = Signer::<T, T::AppCrypto>::any_account().with_filter(vec![public]);
 			let prices = prices
 				.into_iter()
 				.map(|(asset_name, price)| T::ConvertAssetPricePair::convert((asset_name, price)))
-- 
2.43.0


From b0d00829aeb6096362b5f891c61ea64bfc7b390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 20/23] fix: the readiness queries carry the ids their answers
 are expected under

---
 pallets/funding/src/functions/7_ct_migration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 7665e60..97409c4 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -272,7 +272,7 @@ impl<T: Config> Pallet<T> {
 			ReportHolding {
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 0,
+					query_id: query_id_holdings,
 					max_weight,
 				},
 				assets: Wild(All),
@@ -281,7 +281,7 @@ impl<T: Config> Pallet<T> {
 				module_name: Vec::from("polimec_receiver"),
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 1,
+					query_id: query_id_pallet,
 					max_weight,
 				},
 			},
-- 
2.43.0


From 1b17fef9f1485b066699bd54291ad6ffdd49b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 21/23] fix: a readiness check passes only by the answer to its
 own query

An answer was matched to a check by its kind alone, so an answer to one of
the two queries counted for the other check.
---
 pallets/funding/src/functions/7_ct_migration.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 97409c4..3f8e0c5 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -327,6 +327,9 @@ impl<T: Config> Pallet<T> {
 		let contribution_tokens_sold =
 			project_metadata.total_allocation_size.saturating_sub(project_details.remaining_contribution_tokens);
 
+		let answers_holding_check =
+			migration_info.migration_readiness_check.as_ref().is_some_and(|check| check.holding_check.0 == query_id);
+
 		match (response.clone(), &mut migration_info.migration_readiness_check) {
 			(
 				Response::Assets(assets),
@@ -336,7 +339,7 @@ impl<T: Config> Pallet<T> {
 						..
 					},
 				),
-			) => {
+			) if answers_holding_check => {
 				let ct_sold_as_u128: u128 = contribution_tokens_sold;
 				let assets: Vec<Asset> = assets.into_inner();
 				match assets.first().cloned() {
@@ -371,7 +374,7 @@ impl<T: Config> Pallet<T> {
 						..
 					},
 				),
-			) => {
+			) if !answers_holding_check => {
 				let expected_module_name: BoundedVec<u8, MaxPalletNameLen> =
 					BoundedVec::try_from("polimec_receiver".as_bytes().to_vec()).map_err(|_| Error::<T>::NotAllowed)?;
 				let Some(PalletInfo { index, module_name, .. }) = pallets_info.first() else {
-- 
2.43.0


From e13328b3cca71423645c41dd501dd0aed6705c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 22/23] fix: a NonTransfer proxy cannot hand out identity
 judgements, which it may not give itself

---
 runtimes/polimec/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimes/polimec/src/lib.rs b/runtimes/polimec/src/lib.rs
index 5ec9826..0f939e4 100644
--- a/runtimes/polimec/src/lib.rs
+++ b/runtimes/polimec/src/lib.rs
@@ -330,6 +330,7 @@ impl InstanceFilter<RuntimeCall> for Type {
 			(x, y) if x == y => true,
 			(proxy::Type::Any, _) => true,
 			(_, proxy::Type::Any) => false,
+			(proxy::Type::NonTransfer, proxy::Type::IdentityJudgement) => false,
 			(proxy::Type::NonTransfer, _) => true,
 			_ => false,
 		}
-- 
2.43.0


From 54ba78f428a5db57ae3ed91fd1515a943e7097f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 23/23] fix: only the settlement (or Root) creates the class of
 a contribution token

---
 runtimes/polimec/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimes/polimec/src/lib.rs b/runtimes/polimec/src/lib.rs
index 0f939e4..de05bfe 100644
--- a/runtimes/polimec/src/lib.rs
+++ b/runtimes/polimec/src/lib.rs
@@ -1008,7 +1008,8 @@ impl pallet_assets::Config<ContributionTokensInstance> for Runtime {
 	#[cfg(feature = "runtime-benchmarks")]
 	type BenchmarkHelper = ();
 	type CallbackHandle = ();
-	type CreateOrigin = AsEnsureOriginWithArg<EnsureSigned<AccountId>>;
+	// The tokens of a project are created by its settlement, under the id of the project.
+	type CreateOrigin = AsEnsureOriginWithArg<EnsureRootWithSuccess<AccountId, RootOperatorAccountId>>;
 	type Currency = Balances;
 	type Extra = ();
 	type ForceOrigin = EnsureRoot<AccountId>;
-- 
2.43.0

