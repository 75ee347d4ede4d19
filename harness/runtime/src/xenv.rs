//! Stand-ins for the parts of xcm-builder, xcm-executor (polkadot-sdk 1.14) and cumulus the polimec
//! XCM configuration is made of, and a small executor that runs a message through that configuration.
use frame_support::{
	traits::{fungible, fungibles, Contains, ContainsPair, Get, ProcessMessageError},
	weights::{Weight, WeightToFee as WeightToFeeT},
};
use parity_scale_codec::{Decode, Encode};
use sp_runtime::traits::{MaybeEquivalence, Zero};
use std::{cell::RefCell, collections::BTreeMap, marker::PhantomData};
use xcm::v4::{prelude::*, Error as XError};

/// Append `j` to an origin; `None` when the stand-in locations cannot carry it.
pub fn append(l: &Location, j: &InteriorLocation) -> Option<Location> {
	let mut v = l.interior.as_slice().to_vec();
	v.extend_from_slice(j.as_slice());
	interior(&v).map(|interior| Location { parents: l.parents, interior })
}
pub fn interior(v: &[Junction]) -> Option<InteriorLocation> {
	Junctions::from_slice(v)
}

thread_local! {
	/// (responder, query): answers pallet-xcm waits for
	pub static EXPECTED: RefCell<Vec<(Location, u64)>> = RefCell::new(vec![]);
}

pub mod xcm_executor {
	use super::*;
	pub type Holding = BTreeMap<AssetId, u128>;
	pub trait Config {}
	pub struct XcmExecutor<C>(PhantomData<C>);
	pub mod traits {
		use super::*;
		#[derive(Debug)]
		pub struct Properties {
			pub weight_credit: Weight,
			pub message_id: Option<XcmHash>,
		}
		pub trait ShouldExecute {
			fn should_execute<Call>(
				origin: &Location,
				instructions: &mut [Instruction<Call>],
				max_weight: Weight,
				properties: &mut Properties,
			) -> Result<(), ProcessMessageError>;
		}
		pub trait OnResponse {
			fn expecting_response(origin: &Location, query_id: u64, querier: Option<&Location>) -> bool;
		}
		pub trait ConvertLocation<A> {
			fn convert_location(l: &Location) -> Option<A>;
		}
		pub trait TransactAsset {
			/// `Err(None)`: not an asset this one handles
			fn deposit_asset(what: &Asset, who: &Location) -> Result<(), Option<XError>>;
			fn withdraw_asset(what: &Asset, who: &Location) -> Result<(), Option<XError>>;
		}
		pub trait WeightTrader: Sized {
			fn new() -> Self;
			fn buy_weight(&mut self, weight: Weight, payment: Holding) -> Result<Holding, XError>;
		}
		pub trait WeightBounds {
			fn weight<Call>(m: &[Instruction<Call>]) -> Result<Weight, ()>;
		}
		pub trait TakeRevenue {
			fn take_revenue(what: Asset);
		}
		impl TakeRevenue for () {
			fn take_revenue(_: Asset) {}
		}
		pub struct JustTry;
		impl<S: TryFrom<D> + Clone, D: TryFrom<S> + Clone> MaybeEquivalence<S, D> for JustTry {
			fn convert(s: &S) -> Option<D> {
				D::try_from(s.clone()).ok()
			}
			fn convert_back(d: &D) -> Option<S> {
				S::try_from(d.clone()).ok()
			}
		}
		macro_rules! tuples {
			($($t:ident)+) => {
				impl<$($t: ShouldExecute),+> ShouldExecute for ($($t,)+) {
					fn should_execute<Call>(o: &Location, i: &mut [Instruction<Call>], w: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
						$(if $t::should_execute(o, i, w, p).is_ok() { return Ok(()) })+
						Err(ProcessMessageError::Unsupported)
					}
				}
				impl<A, $($t: ConvertLocation<A>),+> ConvertLocation<A> for ($($t,)+) {
					fn convert_location(l: &Location) -> Option<A> {
						$(if let Some(a) = $t::convert_location(l) { return Some(a) })+
						None
					}
				}
				impl<$($t: TransactAsset),+> TransactAsset for ($($t,)+) {
					fn deposit_asset(what: &Asset, who: &Location) -> Result<(), Option<XError>> {
						$(match $t::deposit_asset(what, who) { Err(None) => {}, r => return r })+
						Err(None)
					}
					fn withdraw_asset(what: &Asset, who: &Location) -> Result<(), Option<XError>> {
						$(match $t::withdraw_asset(what, who) { Err(None) => {}, r => return r })+
						Err(None)
					}
				}
				#[allow(non_snake_case)]
				impl<$($t: WeightTrader),+> WeightTrader for ($($t,)+) {
					fn new() -> Self { ($($t::new(),)+) }
					fn buy_weight(&mut self, w: Weight, payment: Holding) -> Result<Holding, XError> {
						let ($($t,)+) = self;
						$(if let Ok(r) = $t.buy_weight(w, payment.clone()) { return Ok(r) })+
						Err(XError::NotHoldingFees)
					}
				}
			};
		}
		tuples!(A1);
		tuples!(A1 A2);
		tuples!(A1 A2 A3);
		tuples!(A1 A2 A3 A4);
		tuples!(A1 A2 A3 A4 A5);
		tuples!(A1 A2 A3 A4 A5 A6);
	}
}
use xcm_executor::{traits::*, Holding};

impl OnResponse for crate::env::PolkadotXcm {
	fn expecting_response(origin: &Location, query_id: u64, _: Option<&Location>) -> bool {
		EXPECTED.with(|e| e.borrow().contains(&(origin.clone(), query_id)))
	}
}

pub mod xcm_builder {
	use super::*;
	pub trait CreateMatcher {
		type Matcher;
		fn matcher(self) -> Self::Matcher;
	}
	pub struct Matcher<'a, Call> {
		xcm: &'a mut [Instruction<Call>],
		idx: usize,
	}
	impl<'a, Call> CreateMatcher for &'a mut [Instruction<Call>] {
		type Matcher = Matcher<'a, Call>;
		fn matcher(self) -> Matcher<'a, Call> {
			Matcher { xcm: self, idx: 0 }
		}
	}
	pub trait MatchXcm: Sized {
		type Inst;
		type Loc;
		type Error;
		fn assert_remaining_insts(self, n: usize) -> Result<Self, Self::Error>;
		fn match_next_inst<F: FnMut(&mut Self::Inst) -> Result<(), Self::Error>>(self, f: F) -> Result<Self, Self::Error>;
		fn match_next_inst_while<C: Fn(&Self::Inst) -> bool, F: FnMut(&mut Self::Inst) -> Result<std::ops::ControlFlow<()>, Self::Error>>(
			self,
			c: C,
			f: F,
		) -> Result<Self, Self::Error>;
		fn skip_inst_while<C: Fn(&Self::Inst) -> bool>(self, c: C) -> Result<Self, Self::Error> {
			self.match_next_inst_while(c, |_| Ok(std::ops::ControlFlow::Continue(())))
		}
	}
	impl<'a, Call> MatchXcm for Matcher<'a, Call> {
		type Inst = Instruction<Call>;
		type Loc = Location;
		type Error = ProcessMessageError;
		fn assert_remaining_insts(self, n: usize) -> Result<Self, ProcessMessageError> {
			if self.xcm.len() - self.idx != n {
				return Err(ProcessMessageError::BadFormat)
			}
			Ok(self)
		}
		fn match_next_inst<F: FnMut(&mut Self::Inst) -> Result<(), ProcessMessageError>>(mut self, mut f: F) -> Result<Self, ProcessMessageError> {
			if self.idx < self.xcm.len() {
				f(&mut self.xcm[self.idx])?;
				self.idx += 1;
				Ok(self)
			} else {
				Err(ProcessMessageError::BadFormat)
			}
		}
		fn match_next_inst_while<C: Fn(&Self::Inst) -> bool, F: FnMut(&mut Self::Inst) -> Result<std::ops::ControlFlow<()>, ProcessMessageError>>(
			mut self,
			c: C,
			mut f: F,
		) -> Result<Self, ProcessMessageError> {
			if self.idx >= self.xcm.len() {
				return Err(ProcessMessageError::BadFormat)
			}
			while self.idx < self.xcm.len() && c(&self.xcm[self.idx]) {
				if let std::ops::ControlFlow::Break(()) = f(&mut self.xcm[self.idx])? {
					break
				}
				self.idx += 1;
			}
			Ok(self)
		}
	}

	type R = Result<(), ProcessMessageError>;
	pub struct TakeWeightCredit;
	impl ShouldExecute for TakeWeightCredit {
		fn should_execute<Call>(_: &Location, _: &mut [Instruction<Call>], w: Weight, p: &mut Properties) -> R {
			p.weight_credit = p.weight_credit.checked_sub(&w).ok_or(ProcessMessageError::Overweight(w))?;
			Ok(())
		}
	}
	pub struct AllowTopLevelPaidExecutionFrom<T>(PhantomData<T>);
	impl<T: Contains<Location>> ShouldExecute for AllowTopLevelPaidExecutionFrom<T> {
		fn should_execute<Call>(o: &Location, i: &mut [Instruction<Call>], max: Weight, _: &mut Properties) -> R {
			if !T::contains(o) {
				return Err(ProcessMessageError::Unsupported)
			}
			let end = i.len().min(5);
			i[..end]
				.matcher()
				.match_next_inst(|i| match i {
					ReceiveTeleportedAsset(a) | ReserveAssetDeposited(a) | WithdrawAsset(a) | ClaimAsset { assets: a, .. } =>
						if a.len() <= 2 { Ok(()) } else { Err(ProcessMessageError::BadFormat) },
					_ => Err(ProcessMessageError::BadFormat),
				})?
				.skip_inst_while(|i| matches!(i, ClearOrigin | AliasOrigin(..) | SetTopic(..)))?
				.match_next_inst(|i| match i {
					BuyExecution { weight_limit: Limited(w), .. } if w.all_gte(max) => {
						*w = max;
						Ok(())
					},
					BuyExecution { weight_limit, .. } if *weight_limit == Unlimited => {
						*weight_limit = Limited(max);
						Ok(())
					},
					_ => Err(ProcessMessageError::Overweight(max)),
				})?;
			Ok(())
		}
	}
	pub struct AllowExplicitUnpaidExecutionFrom<T>(PhantomData<T>);
	impl<T: Contains<Location>> ShouldExecute for AllowExplicitUnpaidExecutionFrom<T> {
		fn should_execute<Call>(o: &Location, i: &mut [Instruction<Call>], max: Weight, _: &mut Properties) -> R {
			if !T::contains(o) {
				return Err(ProcessMessageError::Unsupported)
			}
			i.matcher().match_next_inst(|i| match i {
				UnpaidExecution { weight_limit: Limited(m), .. } if m.all_gte(max) => Ok(()),
				UnpaidExecution { weight_limit: Unlimited, .. } => Ok(()),
				_ => Err(ProcessMessageError::Overweight(max)),
			})?;
			Ok(())
		}
	}
	pub struct AllowUnpaidExecutionFrom<T>(PhantomData<T>);
	impl<T: Contains<Location>> ShouldExecute for AllowUnpaidExecutionFrom<T> {
		fn should_execute<Call>(o: &Location, _: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> R {
			if T::contains(o) { Ok(()) } else { Err(ProcessMessageError::Unsupported) }
		}
	}
	pub struct AllowKnownQueryResponses<H>(PhantomData<H>);
	impl<H: OnResponse> ShouldExecute for AllowKnownQueryResponses<H> {
		fn should_execute<Call>(o: &Location, i: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> R {
			i.matcher().assert_remaining_insts(1)?.match_next_inst(|i| match i {
				QueryResponse { query_id, querier, .. } if H::expecting_response(o, *query_id, querier.as_ref()) => Ok(()),
				_ => Err(ProcessMessageError::BadFormat),
			})?;
			Ok(())
		}
	}
	pub struct AllowSubscriptionsFrom<T>(PhantomData<T>);
	impl<T: Contains<Location>> ShouldExecute for AllowSubscriptionsFrom<T> {
		fn should_execute<Call>(o: &Location, i: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> R {
			if !T::contains(o) {
				return Err(ProcessMessageError::Unsupported)
			}
			i.matcher().assert_remaining_insts(1)?.match_next_inst(|i| match i {
				SubscribeVersion { .. } | UnsubscribeVersion => Ok(()),
				_ => Err(ProcessMessageError::BadFormat),
			})?;
			Ok(())
		}
	}
	pub struct WithComputedOrigin<I, U, M>(PhantomData<(I, U, M)>);
	impl<I: ShouldExecute, U: Get<InteriorLocation>, M: Get<u32>> ShouldExecute for WithComputedOrigin<I, U, M> {
		fn should_execute<Call>(o: &Location, i: &mut [Instruction<Call>], max: Weight, p: &mut Properties) -> R {
			let mut origin = o.clone();
			let mut skipped = 0;
			while skipped < M::get() as usize && skipped < i.len() {
				match &i[skipped] {
					// another consensus system: two levels up from here
					UniversalOrigin(g) => origin = Location { parents: 2, interior: (*g).into() },
					DescendOrigin(j) => origin = append(&origin, j).ok_or(ProcessMessageError::Unsupported)?,
					_ => break,
				}
				skipped += 1;
			}
			I::should_execute(&origin, &mut i[skipped..], max, p)
		}
	}
	pub struct TrailingSetTopicAsId<I>(PhantomData<I>);
	impl<I: ShouldExecute> ShouldExecute for TrailingSetTopicAsId<I> {
		fn should_execute<Call>(o: &Location, i: &mut [Instruction<Call>], max: Weight, p: &mut Properties) -> R {
			let n = i.len();
			let end = if let Some(SetTopic(t)) = i.last() {
				p.message_id = Some(*t);
				n - 1
			} else {
				n
			};
			I::should_execute(o, &mut i[..end], max, p)
		}
	}
	pub struct DenyThenTry<D, A>(PhantomData<(D, A)>);
	impl<D: ShouldExecute, A: ShouldExecute> ShouldExecute for DenyThenTry<D, A> {
		fn should_execute<Call>(o: &Location, i: &mut [Instruction<Call>], max: Weight, p: &mut Properties) -> R {
			D::should_execute(o, i, max, p)?;
			A::should_execute(o, i, max, p)
		}
	}
	pub struct DenyReserveTransferToRelayChain;
	impl ShouldExecute for DenyReserveTransferToRelayChain {
		fn should_execute<Call>(_: &Location, i: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> R {
			let relay = |l: &Location| l.parents == 1 && l.interior == Junctions::Here;
			if i.iter().any(|i| match i {
				InitiateReserveWithdraw { reserve: d, .. } | DepositReserveAsset { dest: d, .. } | TransferReserveAsset { dest: d, .. } => relay(d),
				_ => false,
			}) {
				return Err(ProcessMessageError::Unsupported)
			}
			Ok(())
		}
	}

	pub struct ParentIsPreset<A>(PhantomData<A>);
	impl<A: Decode> ConvertLocation<A> for ParentIsPreset<A> {
		fn convert_location(l: &Location) -> Option<A> {
			(l.parents == 1 && l.interior == Junctions::Here)
				.then(|| b"Parent".using_encoded(|b| A::decode(&mut sp_runtime::traits::TrailingZeroInput::new(b)).ok()))
				.flatten()
		}
	}
	pub struct SiblingParachainConvertsVia<P, A>(PhantomData<(P, A)>);
	impl<P: From<u32> + sp_runtime::traits::AccountIdConversion<A>, A> ConvertLocation<A> for SiblingParachainConvertsVia<P, A> {
		fn convert_location(l: &Location) -> Option<A> {
			match l.unpack() {
				(1, [Parachain(id)]) => Some(P::from(*id).into_account_truncating()),
				_ => None,
			}
		}
	}
	pub struct AccountId32Aliases<N, A>(PhantomData<(N, A)>);
	impl<N: Get<Option<NetworkId>>, A: From<[u8; 32]>> ConvertLocation<A> for AccountId32Aliases<N, A> {
		fn convert_location(l: &Location) -> Option<A> {
			match l.unpack() {
				(0, [AccountId32 { network, id }]) if network.is_none() || *network == N::get() => Some((*id).into()),
				_ => None,
			}
		}
	}

	pub enum MintLocation {
		Local,
		NonLocal,
	}
	pub trait MatchesFungible<B> {
		fn matches_fungible(a: &Asset) -> Option<B>;
	}
	pub struct IsConcrete<T>(PhantomData<T>);
	impl<T: Get<Location>, B: TryFrom<u128>> MatchesFungible<B> for IsConcrete<T> {
		fn matches_fungible(a: &Asset) -> Option<B> {
			match a.fun {
				Fungible(x) if a.id.0 == T::get() => B::try_from(x).ok(),
				_ => None,
			}
		}
	}
	pub trait MatchesFungibles<I, B> {
		fn matches_fungibles(a: &Asset) -> Option<(I, B)>;
	}
	pub struct MatchedConvertedConcreteId<I, B, M, CI, CB>(PhantomData<(I, B, M, CI, CB)>);
	impl<I, B, M: Contains<Location>, CI: MaybeEquivalence<Location, I>, CB: MaybeEquivalence<u128, B>> MatchesFungibles<I, B>
		for MatchedConvertedConcreteId<I, B, M, CI, CB>
	{
		fn matches_fungibles(a: &Asset) -> Option<(I, B)> {
			let Fungible(x) = a.fun else { return None };
			if !M::contains(&a.id.0) {
				return None
			}
			Some((CI::convert(&a.id.0)?, CB::convert(&x)?))
		}
	}
	pub struct NoChecking;
	pub struct FungibleAdapter<F, M, C, A, Ch>(PhantomData<(F, M, C, A, Ch)>);
	impl<F, M, C, A, Ch> TransactAsset for FungibleAdapter<F, M, C, A, Ch>
	where
		A: Eq,
		F: fungible::Mutate<A>,
		M: MatchesFungible<F::Balance>,
		C: ConvertLocation<A>,
	{
		fn deposit_asset(what: &Asset, who: &Location) -> Result<(), Option<XError>> {
			let x = M::matches_fungible(what).ok_or(None)?;
			let a = C::convert_location(who).ok_or(Some(XError::BadOrigin))?;
			F::mint_into(&a, x).map(|_| ()).map_err(|_| Some(XError::Transport("mint")))
		}
		fn withdraw_asset(what: &Asset, who: &Location) -> Result<(), Option<XError>> {
			use frame_support::traits::tokens::{Fortitude::Polite, Precision::Exact, Preservation::Expendable};
			let x = M::matches_fungible(what).ok_or(None)?;
			let a = C::convert_location(who).ok_or(Some(XError::BadOrigin))?;
			F::burn_from(&a, x, Expendable, Exact, Polite).map(|_| ()).map_err(|_| Some(XError::Transport("burn")))
		}
	}
	pub struct FungiblesAdapter<F, M, C, A, K, Ch>(PhantomData<(F, M, C, A, K, Ch)>);
	impl<F, M, C, A, K, Ch> TransactAsset for FungiblesAdapter<F, M, C, A, K, Ch>
	where
		A: Eq,
		F: fungibles::Mutate<A>,
		M: MatchesFungibles<F::AssetId, F::Balance>,
		C: ConvertLocation<A>,
	{
		fn deposit_asset(what: &Asset, who: &Location) -> Result<(), Option<XError>> {
			let (id, x) = M::matches_fungibles(what).ok_or(None)?;
			let a = C::convert_location(who).ok_or(Some(XError::BadOrigin))?;
			F::mint_into(id, &a, x).map(|_| ()).map_err(|_| Some(XError::Transport("mint")))
		}
		fn withdraw_asset(what: &Asset, who: &Location) -> Result<(), Option<XError>> {
			use frame_support::traits::tokens::{Fortitude::Polite, Precision::Exact, Preservation::Expendable};
			let (id, x) = M::matches_fungibles(what).ok_or(None)?;
			let a = C::convert_location(who).ok_or(Some(XError::BadOrigin))?;
			F::burn_from(id, &a, x, Expendable, Exact, Polite).map(|_| ()).map_err(|_| Some(XError::Transport("burn")))
		}
	}

	pub struct FixedWeightBounds<T, C, M>(PhantomData<(T, C, M)>);
	impl<T: Get<Weight>, C, M: Get<u32>> WeightBounds for FixedWeightBounds<T, C, M> {
		fn weight<Call>(m: &[Instruction<Call>]) -> Result<Weight, ()> {
			fn count<Call>(m: &[Instruction<Call>]) -> u64 {
				m.iter()
					.map(|i| 1 + match i {
						SetAppendix(x) => count(&x.0),
						_ => 0,
					})
					.sum()
			}
			let n = count(m);
			if n > M::get() as u64 {
				return Err(())
			}
			Ok(T::get().saturating_mul(n))
		}
	}
	pub struct UsingComponents<W, L, A, F: fungible::Balanced<A>, O: frame_support::traits::OnUnbalanced<fungible::Credit<A, F>>>(
		F::Balance,
		PhantomData<(W, L, A, O)>,
	);
	impl<W: WeightToFeeT<Balance = u128>, L: Get<Location>, A, F: fungible::Balanced<A, Balance = u128>, O> WeightTrader
		for UsingComponents<W, L, A, F, O>
	where
		O: frame_support::traits::OnUnbalanced<fungible::Credit<A, F>>,
	{
		fn new() -> Self {
			Self(0, PhantomData)
		}
		fn buy_weight(&mut self, weight: Weight, mut payment: Holding) -> Result<Holding, XError> {
			let amount = W::weight_to_fee(&weight);
			take(&mut payment, &AssetId(L::get()), amount)?;
			self.0 += amount;
			Ok(payment)
		}
	}
	impl<W, L, A, F: fungible::Balanced<A>, O> Drop for UsingComponents<W, L, A, F, O>
	where
		O: frame_support::traits::OnUnbalanced<fungible::Credit<A, F>>,
	{
		fn drop(&mut self) {
			O::on_unbalanced(F::issue(self.0));
		}
	}
	pub struct FixedRateOfFungible<T: Get<(AssetId, u128, u128)>, R: TakeRevenue>(u128, PhantomData<(T, R)>);
	impl<T: Get<(AssetId, u128, u128)>, R: TakeRevenue> WeightTrader for FixedRateOfFungible<T, R> {
		fn new() -> Self {
			Self(0, PhantomData)
		}
		fn buy_weight(&mut self, w: Weight, mut payment: Holding) -> Result<Holding, XError> {
			let (id, per_second, per_mb) = T::get();
			let amount = per_second * w.ref_time() as u128 / 1_000_000_000_000 + per_mb * w.proof_size() as u128 / (1024 * 1024);
			if amount == 0 {
				return Ok(payment)
			}
			take(&mut payment, &id, amount)?;
			self.0 += amount;
			Ok(payment)
		}
	}
	impl<T: Get<(AssetId, u128, u128)>, R: TakeRevenue> Drop for FixedRateOfFungible<T, R> {
		fn drop(&mut self) {
			if self.0 > 0 {
				R::take_revenue((T::get().0, self.0).into());
			}
		}
	}
	fn take(h: &mut Holding, id: &AssetId, amount: u128) -> Result<(), XError> {
		if amount.is_zero() {
			return Ok(())
		}
		let b = h.get_mut(id).filter(|b| **b >= amount).ok_or(XError::NotHoldingFees)?;
		*b -= amount;
		if *b == 0 {
			h.remove(id);
		}
		Ok(())
	}
	pub struct FrameTransactionalProcessor;
	pub struct EnsureXcmOrigin<O, C>(PhantomData<(O, C)>);
	impl<O: frame_support::traits::OriginTrait + Clone, C: sp_runtime::traits::TryConvert<O, Location>> frame_support::traits::EnsureOrigin<O> for EnsureXcmOrigin<O, C> {
		type Success = Location;
		fn try_origin(o: O) -> Result<Location, O> {
			let o = match C::try_convert(o) {
				Ok(l) => return Ok(l),
				Err(o) => o,
			};
			// root can always represent the context
			if matches!(o.as_system_ref(), Some(frame_system::RawOrigin::Root)) {
				Ok(Location::here())
			} else {
				Err(o)
			}
		}
	}
	pub struct SignedToAccountId32<O, A, N>(PhantomData<(O, A, N)>);
	impl<O: frame_support::traits::OriginTrait + Clone, A: Into<[u8; 32]>, N: Get<Option<NetworkId>>> sp_runtime::traits::TryConvert<O, Location> for SignedToAccountId32<O, A, N>
	where
		O: Into<Result<frame_system::RawOrigin<A>, O>> + From<frame_system::RawOrigin<A>>,
	{
		fn try_convert(o: O) -> Result<Location, O> {
			o.into().and_then(|o| match o {
				frame_system::RawOrigin::Signed(who) => Ok(Junction::AccountId32 { network: N::get(), id: who.into() }.into()),
				o => Err(o.into()),
			})
		}
	}
}
pub mod cumulus_primitives_utility {
	use super::*;
	pub struct XcmFeesTo32ByteAccount<T, A, R>(PhantomData<(T, A, R)>);
	impl<T: TransactAsset, A: Into<[u8; 32]>, R: Get<Option<A>>> TakeRevenue for XcmFeesTo32ByteAccount<T, A, R> {
		fn take_revenue(what: Asset) {
			if let Some(a) = R::get() {
				let _ = T::deposit_asset(&what, &AccountId32 { network: None, id: a.into() }.into());
			}
		}
	}
}

/// What a message did.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Outcome {
	/// refused before anything ran
	Refused,
	Ran { done: usize, error: Option<String>, trapped: Holding, transacted: bool },
}

/// Runs a message as the executor does, over the polimec configuration.
pub struct Vm<Barrier, Assets, Reserve, Teleport, Calls, Trader, Weigher>(PhantomData<(Barrier, Assets, Reserve, Teleport, Calls, Trader, Weigher)>);
impl<B, A, R, T, C, W, G> Vm<B, A, R, T, C, W, G>
where
	B: ShouldExecute,
	A: TransactAsset,
	R: ContainsPair<Asset, Location>,
	T: ContainsPair<Asset, Location>,
	C: Contains<crate::calls::RuntimeCall>,
	W: WeightTrader,
	G: WeightBounds,
{
	pub fn weight(m: &[Instruction<()>]) -> Option<Weight> {
		G::weight(m).ok()
	}
	pub fn execute(origin: Location, mut m: Vec<Instruction<()>>, call: &crate::calls::RuntimeCall) -> Outcome {
		let Ok(w) = G::weight(&m) else { return Outcome::Refused };
		let mut p = Properties { weight_credit: Weight::zero(), message_id: None };
		if B::should_execute(&origin, &mut m, w, &mut p).is_err() {
			return Outcome::Refused
		}
		let mut trader = W::new();
		let mut o = Some(origin);
		let mut h = Holding::new();
		let mut transacted = false;
		let mut error = None;
		let mut done = 0;
		for i in m {
			let backup = (h.clone(), o.clone());
			let r = frame_support::storage::with_storage_layer::<(), sp_runtime::DispatchError, _>(|| {
				Self::step(i, &mut o, &mut h, &mut trader, w, call, &mut transacted).map_err(|e| {
					error = Some(e);
					sp_runtime::DispatchError::Other("")
				})
			});
			if r.is_err() {
				(h, o) = backup;
				break
			}
			done += 1;
		}
		Outcome::Ran { done, error, trapped: h, transacted }
	}
	fn put(h: &mut Holding, a: &Asset) -> Result<(), String> {
		let Fungible(x) = a.fun else { return Err("not fungible".into()) };
		let e = h.entry(a.id.clone()).or_default();
		*e = e.saturating_add(x);
		Ok(())
	}
	fn step(
		i: Instruction<()>,
		o: &mut Option<Location>,
		h: &mut Holding,
		trader: &mut W,
		weight: Weight,
		call: &crate::calls::RuntimeCall,
		transacted: &mut bool,
	) -> Result<(), String> {
		let origin = || o.clone().ok_or_else(|| "no origin".to_string());
		match i {
			WithdrawAsset(a) => {
				let o = origin()?;
				for a in a.inner() {
					A::withdraw_asset(a, &o).map_err(|e| format!("withdraw {e:?}"))?;
					Self::put(h, a)?;
				}
			},
			ReserveAssetDeposited(a) => {
				let o = origin()?;
				for a in a.inner() {
					if !R::contains(a, &o) {
						return Err("untrusted reserve".into())
					}
					Self::put(h, a)?;
				}
			},
			ReceiveTeleportedAsset(a) => {
				let o = origin()?;
				for a in a.inner() {
					if !T::contains(a, &o) {
						return Err("untrusted teleport".into())
					}
					Self::put(h, a)?;
				}
			},
			TransferAsset { assets, beneficiary } => {
				let o = origin()?;
				for a in assets.inner() {
					A::withdraw_asset(a, &o).map_err(|e| format!("withdraw {e:?}"))?;
					A::deposit_asset(a, &beneficiary).map_err(|e| format!("deposit {e:?}"))?;
				}
			},
			DepositAsset { assets, beneficiary } => {
				let all: Vec<(AssetId, u128)> = match assets {
					Wild(_) => h.iter().map(|(a, b)| (a.clone(), *b)).collect(),
					Definite(a) => a
						.inner()
						.iter()
						.filter_map(|a| {
							let Fungible(x) = a.fun else { return None };
							h.get(&a.id).map(|b| (a.id.clone(), x.min(*b)))
						})
						.collect(),
				};
				for (id, x) in all {
					let b = h.get_mut(&id).ok_or("not held")?;
					let x = x.min(*b);
					*b -= x;
					if *b == 0 {
						h.remove(&id);
					}
					if x > 0 {
						A::deposit_asset(&(id, x).into(), &beneficiary).map_err(|e| format!("deposit {e:?}"))?;
					}
				}
			},
			BuyExecution { fees, weight_limit } => {
				if let Limited(w) = weight_limit {
					let Fungible(x) = fees.fun else { return Err("not fungible".into()) };
					let have = h.get(&fees.id).copied().unwrap_or(0).min(x);
					let mut pay = Holding::new();
					if have > 0 {
						pay.insert(fees.id.clone(), have);
						*h.get_mut(&fees.id).unwrap() -= have;
					}
					let rest = trader.buy_weight(w, pay).map_err(|e| format!("buy {e:?}"))?;
					for (id, x) in rest {
						*h.entry(id).or_default() += x;
					}
					h.retain(|_, b| *b > 0);
				}
			},
			ClearOrigin => *o = None,
			DescendOrigin(j) => *o = Some(append(&origin()?, &j).ok_or("too long")?),
			// no alias is trusted
			AliasOrigin(l) =>
				if o.as_ref() != Some(&l) {
					return Err("no permission".into())
				},
			Transact { .. } => {
				let _ = origin()?;
				if !C::contains(call) {
					return Err("no permission".into())
				}
				*transacted = true;
			},
			UnpaidExecution { check_origin, .. } =>
				if check_origin.is_some() && check_origin != *o {
					return Err("bad origin".into())
				},
			// there is no trusted universal alias
			UniversalOrigin(_) => return Err("invalid location".into()),
			RefundSurplus | SetTopic(_) | ClearTopic | ReportError(_) | SetAppendix(_) => {},
			_ => return Err("not in the harness".into()),
		}
		let _ = weight;
		Ok(())
	}
}
