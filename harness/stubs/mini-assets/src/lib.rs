//! A small multi-asset ledger with the account-existence rules of pallet-assets (minimum
//! balance, sufficient assets, touch), the dust rule of its transfers, and no deposits, roles,
//! freezing or approvals. pallet-assets itself is not in this sandbox.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::{
		pallet_prelude::*,
		storage::KeyPrefixIterator,
		traits::{
			fungibles::{self, Dust},
			tokens::{DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence},
			AccountTouch, ContainsPair,
		},
	};
	use sp_runtime::{traits::Zero, DispatchError, TokenError};

	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {}

	#[pallet::pallet]
	#[pallet::without_storage_info]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);

	#[derive(Clone, Encode, Decode, TypeInfo, Default, PartialEq, Eq, RuntimeDebug)]
	pub struct Details {
		pub supply: u128,
		pub min_balance: u128,
		pub sufficient: bool,
		pub accounts: u32,
		pub destroying: bool,
	}
	#[derive(Clone, Encode, Decode, TypeInfo, Default, PartialEq, Eq, RuntimeDebug)]
	pub struct Holding {
		pub balance: u128,
		/// kept alive at zero: made by `touch`
		pub touched: bool,
		/// made with a sufficient reference
		pub sufficient: bool,
	}

	#[pallet::storage]
	pub type Asset<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, u32, Details>;
	#[pallet::storage]
	pub type Owner<T: Config<I>, I: 'static = ()> = StorageMap<_, Blake2_128Concat, u32, T::AccountId>;
	#[pallet::storage]
	pub type Account<T: Config<I>, I: 'static = ()> =
		StorageDoubleMap<_, Blake2_128Concat, u32, Blake2_128Concat, T::AccountId, Holding>;
	#[pallet::storage]
	pub type Metadata<T: Config<I>, I: 'static = ()> =
		StorageMap<_, Blake2_128Concat, u32, (Vec<u8>, Vec<u8>, u8), ValueQuery>;

	impl<T: Config<I>, I: 'static> fungibles::Inspect<T::AccountId> for Pallet<T, I> {
		type AssetId = u32;
		type Balance = u128;
		fn total_issuance(asset: u32) -> u128 {
			Asset::<T, I>::get(asset).map(|d| d.supply).unwrap_or_default()
		}
		fn minimum_balance(asset: u32) -> u128 {
			Asset::<T, I>::get(asset).map(|d| d.min_balance).unwrap_or_default()
		}
		fn total_balance(asset: u32, who: &T::AccountId) -> u128 {
			Self::balance(asset, who)
		}
		fn balance(asset: u32, who: &T::AccountId) -> u128 {
			Account::<T, I>::get(asset, who).map(|h| h.balance).unwrap_or_default()
		}
		fn reducible_balance(asset: u32, who: &T::AccountId, preservation: Preservation, _: Fortitude) -> u128 {
			let Some(d) = Asset::<T, I>::get(asset) else { return 0 };
			let b = Self::balance(asset, who);
			if preservation != Preservation::Expendable {
				b.saturating_sub(d.min_balance)
			} else {
				b
			}
		}
		fn can_deposit(asset: u32, who: &T::AccountId, amount: u128, _: Provenance) -> DepositConsequence {
			let Some(d) = Asset::<T, I>::get(asset) else { return DepositConsequence::UnknownAsset };
			if d.destroying {
				return DepositConsequence::UnknownAsset
			}
			if d.supply.checked_add(amount).is_none() {
				return DepositConsequence::Overflow
			}
			match Account::<T, I>::get(asset, who) {
				Some(h) =>
					if h.balance + amount < d.min_balance {
						DepositConsequence::BelowMinimum
					} else {
						DepositConsequence::Success
					},
				None =>
					if amount < d.min_balance {
						DepositConsequence::BelowMinimum
					} else if !d.sufficient && !frame_system::Pallet::<T>::can_inc_consumer(who) {
						DepositConsequence::CannotCreate
					} else {
						DepositConsequence::Success
					},
			}
		}
		fn can_withdraw(asset: u32, who: &T::AccountId, amount: u128) -> WithdrawConsequence<u128> {
			let Some(d) = Asset::<T, I>::get(asset) else { return WithdrawConsequence::UnknownAsset };
			if amount.is_zero() {
				return WithdrawConsequence::Success
			}
			let b = Self::balance(asset, who);
			if b < amount {
				return WithdrawConsequence::BalanceLow
			}
			let rest = b - amount;
			if rest < d.min_balance {
				WithdrawConsequence::ReducedToZero(rest)
			} else {
				WithdrawConsequence::Success
			}
		}
		fn asset_exists(asset: u32) -> bool {
			Asset::<T, I>::contains_key(asset)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Unbalanced<T::AccountId> for Pallet<T, I> {
		fn handle_dust(_: Dust<T::AccountId, Self>) {}
		fn write_balance(asset: u32, who: &T::AccountId, amount: u128) -> Result<Option<u128>, DispatchError> {
			let d = Asset::<T, I>::get(asset).ok_or(TokenError::UnknownAsset)?;
			let old = Account::<T, I>::get(asset, who);
			let (keep, dust) = if amount < d.min_balance { (0, amount) } else { (amount, 0) };
			match old {
				Some(mut h) =>
					if keep == 0 && !h.touched {
						if h.sufficient {
							frame_system::Pallet::<T>::dec_sufficients(who);
						} else {
							frame_system::Pallet::<T>::dec_consumers(who);
						}
						Account::<T, I>::remove(asset, who);
					} else {
						h.balance = keep;
						Account::<T, I>::insert(asset, who, h);
					},
				None =>
					if keep > 0 {
						if d.sufficient {
							frame_system::Pallet::<T>::inc_sufficients(who);
						} else {
							frame_system::Pallet::<T>::inc_consumers(who).map_err(|_| TokenError::CannotCreate)?;
						}
						Account::<T, I>::insert(
							asset,
							who,
							Holding { balance: keep, touched: false, sufficient: d.sufficient },
						);
					},
			}
			Ok((dust > 0).then_some(dust))
		}
		fn set_total_issuance(asset: u32, amount: u128) {
			Asset::<T, I>::mutate(asset, |d| {
				if let Some(d) = d {
					d.supply = amount
				}
			})
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Balanced<T::AccountId> for Pallet<T, I> {
		type OnDropCredit = fungibles::DecreaseIssuance<T::AccountId, Self>;
		type OnDropDebt = fungibles::IncreaseIssuance<T::AccountId, Self>;
	}
	impl<T: Config<I>, I: 'static> fungibles::Mutate<T::AccountId> for Pallet<T, I> {
		/// As pallet-assets: what is left below the minimum balance travels with the transfer.
		fn transfer(
			asset: u32,
			source: &T::AccountId,
			dest: &T::AccountId,
			amount: u128,
			preservation: Preservation,
		) -> Result<u128, DispatchError> {
			use fungibles::{Inspect, Unbalanced};
			if amount.is_zero() {
				return Ok(0)
			}
			Self::can_withdraw(asset, source, amount).into_result(preservation != Preservation::Expendable)?;
			let b = Self::balance(asset, source);
			let credit = if b - amount < Self::minimum_balance(asset) { b } else { amount };
			Self::can_deposit(asset, dest, credit, Provenance::Extant).into_result()?;
			if source == dest {
				return Ok(amount)
			}
			Self::write_balance(asset, source, b - credit)?;
			let to = Self::balance(asset, dest);
			Self::write_balance(asset, dest, to + credit)?;
			Ok(credit)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::metadata::Inspect<T::AccountId> for Pallet<T, I> {
		fn name(asset: u32) -> Vec<u8> {
			Metadata::<T, I>::get(asset).0
		}
		fn symbol(asset: u32) -> Vec<u8> {
			Metadata::<T, I>::get(asset).1
		}
		fn decimals(asset: u32) -> u8 {
			Metadata::<T, I>::get(asset).2
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::metadata::Mutate<T::AccountId> for Pallet<T, I> {
		fn set(asset: u32, from: &T::AccountId, name: Vec<u8>, symbol: Vec<u8>, decimals: u8) -> DispatchResult {
			ensure!(Asset::<T, I>::contains_key(asset), DispatchError::Other("Unknown"));
			ensure!(Owner::<T, I>::get(asset).as_ref() == Some(from), DispatchError::Other("NoPermission"));
			Metadata::<T, I>::insert(asset, (name, symbol, decimals));
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::metadata::MetadataDeposit<u128> for Pallet<T, I> {
		fn calc_metadata_deposit(_: &[u8], _: &[u8]) -> u128 {
			0
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::roles::Inspect<T::AccountId> for Pallet<T, I> {
		fn owner(asset: u32) -> Option<T::AccountId> {
			Owner::<T, I>::get(asset)
		}
		fn issuer(asset: u32) -> Option<T::AccountId> {
			Owner::<T, I>::get(asset)
		}
		fn admin(asset: u32) -> Option<T::AccountId> {
			Owner::<T, I>::get(asset)
		}
		fn freezer(asset: u32) -> Option<T::AccountId> {
			Owner::<T, I>::get(asset)
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Create<T::AccountId> for Pallet<T, I> {
		fn create(id: u32, admin: T::AccountId, sufficient: bool, min_balance: u128) -> DispatchResult {
			ensure!(!Asset::<T, I>::contains_key(id), DispatchError::Other("InUse"));
			ensure!(!min_balance.is_zero(), DispatchError::Other("MinBalanceZero"));
			Asset::<T, I>::insert(id, Details { min_balance, sufficient, ..Default::default() });
			Owner::<T, I>::insert(id, admin);
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::Destroy<T::AccountId> for Pallet<T, I> {
		fn start_destroy(id: u32, _: Option<T::AccountId>) -> DispatchResult {
			Asset::<T, I>::mutate(id, |d| {
				if let Some(d) = d {
					d.destroying = true
				}
			});
			Ok(())
		}
		fn destroy_accounts(id: u32, max: u32) -> Result<u32, DispatchError> {
			Ok(Account::<T, I>::clear_prefix(id, max, None).unique)
		}
		fn destroy_approvals(_: u32, _: u32) -> Result<u32, DispatchError> {
			Ok(0)
		}
		fn finish_destroy(id: u32) -> DispatchResult {
			Asset::<T, I>::remove(id);
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> fungibles::InspectEnumerable<T::AccountId> for Pallet<T, I> {
		type AssetsIterator = KeyPrefixIterator<u32>;
		fn asset_ids() -> Self::AssetsIterator {
			Asset::<T, I>::iter_keys()
		}
	}
	impl<T: Config<I>, I: 'static> AccountTouch<u32, T::AccountId> for Pallet<T, I> {
		type Balance = u128;
		fn deposit_required(_: u32) -> u128 {
			0
		}
		fn should_touch(asset: u32, who: &T::AccountId) -> bool {
			!Account::<T, I>::contains_key(asset, who)
		}
		fn touch(asset: u32, who: &T::AccountId, _: &T::AccountId) -> DispatchResult {
			ensure!(Asset::<T, I>::contains_key(asset), DispatchError::Other("Unknown"));
			ensure!(!Account::<T, I>::contains_key(asset, who), DispatchError::Other("AlreadyExists"));
			Account::<T, I>::insert(asset, who, Holding { balance: 0, touched: true, sufficient: false });
			Ok(())
		}
	}
	impl<T: Config<I>, I: 'static> ContainsPair<u32, T::AccountId> for Pallet<T, I> {
		fn contains(asset: &u32, who: &T::AccountId) -> bool {
			Account::<T, I>::contains_key(asset, who)
		}
	}
}
