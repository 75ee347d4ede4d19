//! `I64F64` and `pow`, over f64: as precise as the pallet's use of them can tell.
pub mod types {
	pub use crate::u100f28::U100F28;
	use std::ops::{Add, Div, Mul, Sub};
	#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
	pub struct I64F64(pub f64);
	pub trait ToF64 {
		fn f(self) -> f64;
	}
	pub trait FromF64 {
		fn from_f(x: f64) -> Self;
	}
	macro_rules! num { ($($t:ty),*) => { $(
		impl ToF64 for $t { fn f(self) -> f64 { self as f64 } }
		impl FromF64 for $t { fn from_f(x: f64) -> Self { x as $t } }
	)* } }
	num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, f64);
	impl I64F64 {
		pub fn from_num<T: ToF64>(x: T) -> Self {
			I64F64(x.f())
		}
		pub fn to_num<T: FromF64>(self) -> T {
			T::from_f(self.0)
		}
		pub fn ceil(self) -> Self {
			// the real type's resolution is 2^-64; what is closer than 1e-7 to an integer is one
			let r = self.0.round();
			I64F64(if (self.0 - r).abs() < 1e-7 { r } else { self.0.ceil() })
		}
	}
	impl Add for I64F64 { type Output = Self; fn add(self, o: Self) -> Self { I64F64(self.0 + o.0) } }
	impl Sub for I64F64 { type Output = Self; fn sub(self, o: Self) -> Self { I64F64(self.0 - o.0) } }
	impl Mul for I64F64 { type Output = Self; fn mul(self, o: Self) -> Self { I64F64(self.0 * o.0) } }
	impl Div for I64F64 {
		type Output = Self;
		fn div(self, o: Self) -> Self {
			assert!(o.0 != 0.0, "attempt to divide by zero");
			I64F64(self.0 / o.0)
		}
	}
}
pub mod transcendental {
	use super::types::I64F64;
	pub fn pow(x: I64F64, y: I64F64) -> Result<I64F64, ()> {
		let z = x.0.powf(y.0);
		if z.is_finite() && z.abs() < 9.2e18 { Ok(I64F64(z)) } else { Err(()) }
	}
}

mod u100f28 {
	use std::{ops::Mul, str::FromStr};
	/// 100 bits, and 28 after the binary point.
	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
	pub struct U100F28(pub u128);
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct ParseFixedError;
	impl U100F28 {
		pub fn from_num(x: u128) -> Self {
			assert!(x < 1 << 100, "overflow");
			U100F28(x << 28)
		}
		pub fn to_num<T: From<u128>>(self) -> T {
			T::from(self.0 >> 28)
		}
	}
	impl Mul for U100F28 {
		type Output = Self;
		/// Wraps, as in a build without overflow checks.
		fn mul(self, o: Self) -> Self {
			let (a1, a0) = (self.0 >> 64, self.0 & u64::MAX as u128);
			let (b1, b0) = (o.0 >> 64, o.0 & u64::MAX as u128);
			let lo = a0 * b0;
			let (mid, c1) = (a1 * b0).overflowing_add(a0 * b1);
			let (lo, c2) = lo.overflowing_add(mid << 64);
			let hi = (a1 * b1).wrapping_add(mid >> 64).wrapping_add((c1 as u128) << 64).wrapping_add(c2 as u128);
			U100F28((lo >> 28) | (hi << 100))
		}
	}
	impl FromStr for U100F28 {
		type Err = ParseFixedError;
		fn from_str(s: &str) -> Result<Self, ParseFixedError> {
			let s = s.strip_prefix('+').unwrap_or(s);
			let (i, f) = s.split_once('.').unwrap_or((s, ""));
			if i.is_empty() && f.is_empty() || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
				return Err(ParseFixedError);
			}
			let whole: u128 = if i.is_empty() { 0 } else { i.parse().map_err(|_| ParseFixedError)? };
			if whole >= 1 << 100 {
				return Err(ParseFixedError);
			}
			// 28 bits of the fraction, to the nearest
			let f = &f[..f.len().min(26)];
			let den = 10u128.pow(f.len() as u32);
			let num: u128 = if f.is_empty() { 0 } else { f.parse().map_err(|_| ParseFixedError)? };
			let (mut bits, mut rest) = (0u128, num);
			for _ in 0..28 {
				rest *= 2;
				bits = bits * 2 + (rest >= den) as u128;
				if rest >= den {
					rest -= den;
				}
			}
			if rest * 2 > den || rest * 2 == den && bits % 2 == 1 {
				bits += 1;
			}
			(whole << 28).checked_add(bits).map(U100F28).ok_or(ParseFixedError)
		}
	}
	pub trait ToFixed {
		fn checked_to_fixed<F: FromFloat>(self) -> Option<F>;
	}
	pub trait FromFloat: Sized {
		fn from_float(x: f64) -> Option<Self>;
	}
	impl FromFloat for U100F28 {
		fn from_float(x: f64) -> Option<Self> {
			let y = (x * (1u64 << 28) as f64).round_ties_even();
			(y >= 0.0 && y < 3.402_823_669_209_384_6e38).then(|| U100F28(y as u128))
		}
	}
	impl ToFixed for f64 {
		fn checked_to_fixed<F: FromFloat>(self) -> Option<F> {
			F::from_float(self)
		}
	}
}
pub mod traits {
	pub use crate::u100f28::ToFixed;
}
