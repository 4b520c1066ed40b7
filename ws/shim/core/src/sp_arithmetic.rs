//! sp-arithmetic stand-in.
use crate::codec::*;
use core::fmt;
pub mod traits {
	pub use num_traits::{
		checked_pow, ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub},
		Bounded, FromPrimitive, One, Signed, Unsigned, Zero,
	};
	use core::ops::*;
	pub trait IntegerSquareRoot: Sized {
		fn integer_sqrt(&self) -> Self {
			self.integer_sqrt_checked().unwrap()
		}
		fn integer_sqrt_checked(&self) -> Option<Self>;
	}
	macro_rules! isq { ($($t:ty),*) => {$( impl IntegerSquareRoot for $t { fn integer_sqrt_checked(&self) -> Option<Self> {
		let n = *self;
		if n < 2 { return Some(n); }
		let mut x: $t = 1 << (((<$t>::BITS - n.leading_zeros()) + 1) / 2).min(<$t>::BITS - 1);
		loop { let y = (x + n / x) >> 1; if y >= x { return Some(x); } x = y; }
	} } )*}}
	isq!(u8, u16, u32, u64, u128, usize);
	impl<const N: usize> IntegerSquareRoot for crate::num::Uint<N> {
		fn integer_sqrt_checked(&self) -> Option<Self> {
			Some(crate::num::Uint::integer_sqrt(self))
		}
	}
	pub trait UniqueSaturatedFrom<T: Sized>: Sized {
		fn unique_saturated_from(t: T) -> Self;
	}
	pub trait UniqueSaturatedInto<T: Sized>: Sized {
		fn unique_saturated_into(self) -> T;
	}
	impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
		fn unique_saturated_from(t: T) -> Self {
			S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
		}
	}
	impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
		fn unique_saturated_into(self) -> T {
			self.try_into().unwrap_or_else(|_| Bounded::max_value())
		}
	}
	pub trait SaturatedConversion {
		fn saturated_from<T>(t: T) -> Self
		where
			Self: UniqueSaturatedFrom<T>,
		{
			<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
		}
		fn saturated_into<T>(self) -> T
		where
			Self: UniqueSaturatedInto<T>,
		{
			<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
		}
	}
	impl<T: Sized> SaturatedConversion for T {}
	pub trait CheckedConversion {
		fn checked_from<T>(t: T) -> Option<Self>
		where
			Self: TryFrom<T>,
		{
			<Self as TryFrom<T>>::try_from(t).ok()
		}
		fn checked_into<T>(self) -> Option<T>
		where
			Self: TryInto<T>,
		{
			<Self as TryInto<T>>::try_into(self).ok()
		}
	}
	impl<T: Sized> CheckedConversion for T {}
	/// Saturating arithmetic with the sp-arithmetic method set.
	pub trait Saturating: Sized {
		fn saturating_add(self, rhs: Self) -> Self;
		fn saturating_sub(self, rhs: Self) -> Self;
		fn saturating_mul(self, rhs: Self) -> Self;
		fn saturating_pow(self, exp: usize) -> Self;
		fn saturating_less_one(self) -> Self
		where
			Self: One,
		{
			self.saturating_sub(One::one())
		}
		fn saturating_plus_one(self) -> Self
		where
			Self: One,
		{
			self.saturating_add(One::one())
		}
		fn saturating_inc(&mut self)
		where
			Self: One + Default,
		{
			let o = core::mem::take(self);
			*self = o.saturating_add(One::one());
		}
		fn saturating_dec(&mut self)
		where
			Self: One + Default,
		{
			let o = core::mem::take(self);
			*self = o.saturating_sub(One::one());
		}
		fn saturating_accrue(&mut self, amount: Self)
		where
			Self: Default,
		{
			let o = core::mem::take(self);
			*self = o.saturating_add(amount);
		}
		fn saturating_reduce(&mut self, amount: Self)
		where
			Self: Default,
		{
			let o = core::mem::take(self);
			*self = o.saturating_sub(amount);
		}
	}
	impl<T: Clone + Zero + One + PartialOrd + CheckedMul + Bounded + num_traits::Saturating> Saturating for T {
		fn saturating_add(self, o: Self) -> Self {
			<Self as num_traits::Saturating>::saturating_add(self, o)
		}
		fn saturating_sub(self, o: Self) -> Self {
			<Self as num_traits::Saturating>::saturating_sub(self, o)
		}
		fn saturating_mul(self, o: Self) -> Self {
			self.checked_mul(&o).unwrap_or_else(|| {
				if (self < T::zero()) != (o < T::zero()) {
					Bounded::min_value()
				} else {
					Bounded::max_value()
				}
			})
		}
		fn saturating_pow(self, exp: usize) -> Self {
			let neg = self < T::zero() && exp % 2 != 0;
			checked_pow(self, exp).unwrap_or_else(|| if neg { Bounded::min_value() } else { Bounded::max_value() })
		}
	}
	pub trait BaseArithmetic:
		From<u8>
		+ Zero
		+ One
		+ IntegerSquareRoot
		+ Add<Self, Output = Self>
		+ AddAssign<Self>
		+ Sub<Self, Output = Self>
		+ SubAssign<Self>
		+ Mul<Self, Output = Self>
		+ MulAssign<Self>
		+ Div<Self, Output = Self>
		+ DivAssign<Self>
		+ Rem<Self, Output = Self>
		+ RemAssign<Self>
		+ Shl<u32, Output = Self>
		+ Shr<u32, Output = Self>
		+ CheckedAdd
		+ CheckedSub
		+ CheckedMul
		+ CheckedDiv
		+ Saturating
		+ PartialOrd<Self>
		+ Ord
		+ Bounded
		+ Sized
		+ Clone
		+ TryFrom<u16>
		+ TryFrom<u32>
		+ TryFrom<u64>
		+ TryFrom<u128>
		+ TryFrom<usize>
		+ TryInto<u8>
		+ TryInto<u16>
		+ TryInto<u32>
		+ TryInto<u64>
		+ TryInto<u128>
		+ TryInto<usize>
		+ UniqueSaturatedFrom<u8>
		+ UniqueSaturatedFrom<u16>
		+ UniqueSaturatedFrom<u32>
		+ UniqueSaturatedFrom<u64>
		+ UniqueSaturatedFrom<u128>
		+ UniqueSaturatedFrom<usize>
		+ UniqueSaturatedInto<u8>
		+ UniqueSaturatedInto<u16>
		+ UniqueSaturatedInto<u32>
		+ UniqueSaturatedInto<u64>
		+ UniqueSaturatedInto<u128>
		+ UniqueSaturatedInto<usize>
	{
	}
	impl<T> BaseArithmetic for T where
		T: From<u8>
			+ Zero
			+ One
			+ IntegerSquareRoot
			+ Add<Self, Output = Self>
			+ AddAssign<Self>
			+ Sub<Self, Output = Self>
			+ SubAssign<Self>
			+ Mul<Self, Output = Self>
			+ MulAssign<Self>
			+ Div<Self, Output = Self>
			+ DivAssign<Self>
			+ Rem<Self, Output = Self>
			+ RemAssign<Self>
			+ Shl<u32, Output = Self>
			+ Shr<u32, Output = Self>
			+ CheckedAdd
			+ CheckedSub
			+ CheckedMul
			+ CheckedDiv
			+ Saturating
			+ PartialOrd<Self>
			+ Ord
			+ Bounded
			+ Sized
			+ Clone
			+ TryFrom<u16>
			+ TryFrom<u32>
			+ TryFrom<u64>
			+ TryFrom<u128>
			+ TryFrom<usize>
			+ TryInto<u8>
			+ TryInto<u16>
			+ TryInto<u32>
			+ TryInto<u64>
			+ TryInto<u128>
			+ TryInto<usize>
	{
	}
	pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
	impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
	pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
	impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
	pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
	impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
	pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
	impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
	pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
	impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
	pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
	impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}

	use crate::sp_arithmetic::ArithmeticError as AE;
	macro_rules! ens { ($tr:ident, $f:ident, $tra:ident, $fa:ident, $b:ident, $c:ident, $e:expr) => {
		pub trait $tr: $b + Sized { fn $f(self, v: Self) -> Result<Self, AE> { self.$c(&v).ok_or($e) } }
		impl<T: $b> $tr for T {}
		pub trait $tra: $tr + Copy { fn $fa(&mut self, v: Self) -> Result<(), AE> { *self = (*self).$f(v)?; Ok(()) } }
		impl<T: $tr + Copy> $tra for T {}
	}}
	ens!(EnsureAdd, ensure_add, EnsureAddAssign, ensure_add_assign, CheckedAdd, checked_add, AE::Overflow);
	ens!(EnsureSub, ensure_sub, EnsureSubAssign, ensure_sub_assign, CheckedSub, checked_sub, AE::Underflow);
	ens!(EnsureMul, ensure_mul, EnsureMulAssign, ensure_mul_assign, CheckedMul, checked_mul, AE::Overflow);
	ens!(EnsureDiv, ensure_div, EnsureDivAssign, ensure_div_assign, CheckedDiv, checked_div, AE::DivisionByZero);
}
use num_traits as nt;
macro_rules! num_for_uint { ($($n:expr),*) => {$(
	impl nt::Zero for Uint<$n> { fn zero() -> Self { Uint::zero() } fn is_zero(&self) -> bool { Uint::is_zero(self) } }
	impl nt::One for Uint<$n> { fn one() -> Self { Uint::one() } }
	impl nt::Bounded for Uint<$n> { fn min_value() -> Self { Uint::zero() } fn max_value() -> Self { Uint::MAX } }
	impl nt::CheckedAdd for Uint<$n> { fn checked_add(&self, o: &Self) -> Option<Self> { Uint::checked_add(*self, *o) } }
	impl nt::CheckedSub for Uint<$n> { fn checked_sub(&self, o: &Self) -> Option<Self> { Uint::checked_sub(*self, *o) } }
	impl nt::CheckedMul for Uint<$n> { fn checked_mul(&self, o: &Self) -> Option<Self> { Uint::checked_mul(*self, *o) } }
	impl nt::CheckedDiv for Uint<$n> { fn checked_div(&self, o: &Self) -> Option<Self> { Uint::checked_div(*self, *o) } }
	impl nt::Saturating for Uint<$n> { fn saturating_add(self, o: Self) -> Self { Uint::saturating_add(self, o) } fn saturating_sub(self, o: Self) -> Self { Uint::saturating_sub(self, o) } }
	impl nt::Num for Uint<$n> { type FromStrRadixErr = crate::num::FromStrRadixErr; fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> { Uint::from_str_radix(s, r) } }
	impl nt::Unsigned for Uint<$n> {}
)*}}
use crate::num::Uint;
num_for_uint!(2, 4, 8);

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
	fn from(e: ArithmeticError) -> &'static str {
		match e {
			ArithmeticError::Underflow => "An underflow would occur",
			ArithmeticError::Overflow => "An overflow would occur",
			ArithmeticError::DivisionByZero => "Division by zero",
		}
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
pub use Rounding as SignedRoundingStub;
pub mod helpers_128bit {
	use super::*;
	use crate::num::U256;
	pub fn gcd(a: u128, b: u128) -> u128 {
		if b == 0 {
			a
		} else {
			gcd(b, a % b)
		}
	}
	pub fn to_big_uint(x: u128) -> U256 {
		U256::from(x)
	}
	pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
		if c == 0 {
			return None;
		}
		let p = U256::from(a) * U256::from(b);
		let (mut q, m) = p.div_mod(U256::from(c));
		let up = match r {
			Rounding::Up => !m.is_zero(),
			Rounding::Down => false,
			Rounding::NearestPrefUp => m >= U256::from(c / 2 + c % 2),
			Rounding::NearestPrefDown => m > U256::from(c / 2),
		};
		if up {
			q = q + U256::one();
		}
		u128::try_from(q).ok()
	}
	/// Integer square root, rounded down (as in sp-arithmetic).
	pub fn sqrt(n: u128) -> u128 {
		crate::sp_arithmetic::traits::IntegerSquareRoot::integer_sqrt(&n)
	}
}
pub use helpers_128bit::multiply_by_rational_with_rounding;
pub mod per_things {
	pub use super::*;
}
pub mod fixed_point {
	pub use super::{FixedPointNumber, FixedPointOperand, FixedU128};
}
pub mod biguint {}

fn round_div(n: u128, d: u128, r: Rounding) -> u128 {
	let (q, m) = (n / d, n % d);
	match r {
		Rounding::Up => q + (m > 0) as u128,
		Rounding::Down => q,
		Rounding::NearestPrefUp => q + (m >= d / 2 + d % 2) as u128,
		Rounding::NearestPrefDown => q + (m > d / 2) as u128,
	}
}
pub trait PerThing:
	Sized + Copy + Default + fmt::Debug + Ord + Encode + Decode + MaxEncodedLen + nt::Bounded + Send + Sync
{
	type Inner: Copy + Into<u128> + TryFrom<u128> + fmt::Debug;
	type Upper;
	const ACCURACY: Self::Inner;
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(parts: Self::Inner) -> Self;
	fn zero() -> Self {
		Self::default()
	}
	fn one() -> Self {
		Self::from_parts(Self::ACCURACY)
	}
	fn is_zero(&self) -> bool {
		self.deconstruct().into() == 0
	}
	fn is_one(&self) -> bool {
		self.deconstruct().into() == Self::ACCURACY.into()
	}
	fn from_percent(x: Self::Inner) -> Self;
	fn mul_floor<N: PerArg>(self, b: N) -> N {
		mul_n(b, self.deconstruct().into(), Self::ACCURACY.into(), Rounding::Down)
	}
	fn mul_ceil<N: PerArg>(self, b: N) -> N {
		mul_n(b, self.deconstruct().into(), Self::ACCURACY.into(), Rounding::Up)
	}
	fn from_rational<N: PerRat>(p: N, q: N) -> Self;
}
pub trait PerArg: Clone + traits::UniqueSaturatedInto<u128> + TryFrom<u128> + nt::Bounded + nt::Zero + nt::Unsigned {}
impl<N: Clone + traits::UniqueSaturatedInto<u128> + TryFrom<u128> + nt::Bounded + nt::Zero + nt::Unsigned> PerArg for N {}
pub trait PerRat: Clone + Ord + TryInto<u128> + nt::Zero {}
impl<N: Clone + Ord + TryInto<u128> + nt::Zero> PerRat for N {}
fn mul_n<N: PerArg>(x: N, part: u128, acc: u128, r: Rounding) -> N {
	let v: u128 = x.unique_saturated_into();
	let out = (v / acc) * part + round_div((v % acc) * part, acc, r);
	N::try_from(out).unwrap_or_else(|_| N::max_value())
}
use traits::UniqueSaturatedInto;
fn recip_n<N: PerArg>(x: N, part: u128, acc: u128, r: Rounding) -> N {
	let v: u128 = x.unique_saturated_into();
	if part == 0 {
		return N::max_value();
	}
	match helpers_128bit::multiply_by_rational_with_rounding(v, acc, part, r) {
		Some(o) => N::try_from(o).unwrap_or_else(|_| N::max_value()),
		None => N::max_value(),
	}
}
macro_rules! per_thing { ($name:ident, $max:expr, $ty:ty, $up:ty) => {
	#[derive(Encode, Decode, Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
	pub struct $name($ty);
	impl CompactAs for $name {
		type As = $ty;
		fn encode_as(&self) -> &$ty { &self.0 }
		fn decode_from(x: $ty) -> Result<Self, Error> { Ok(Self::from_parts(x)) }
	}
	impl From<Compact<$name>> for $name { fn from(x: Compact<$name>) -> $name { x.0 } }
	impl PerThing for $name {
		type Inner = $ty;
		type Upper = $up;
		const ACCURACY: $ty = $max;
		fn deconstruct(self) -> $ty { self.0 }
		fn from_parts(p: $ty) -> Self { Self(p.min($max)) }
		fn from_percent(x: $ty) -> Self { $name::from_percent(x) }
		fn from_rational<N: PerRat>(p: N, q: N) -> Self { $name::from_rational(p, q) }
	}
	impl $name {
		pub const fn from_parts(p: $ty) -> Self { Self(if p > $max { $max } else { p }) }
		pub const fn deconstruct(&self) -> $ty { self.0 }
		pub const fn one() -> Self { Self($max) }
		pub const fn zero() -> Self { Self(0) }
		pub const fn is_one(&self) -> bool { self.0 == $max }
		pub const fn is_zero(&self) -> bool { self.0 == 0 }
		pub const fn from_percent(x: $ty) -> Self { Self((if x > 100 { 100 } else { x }) * (($max / 100) as $ty)) }
		pub const fn from_perthousand(x: $ty) -> Self { Self(((if x as u128 > 1000 { 1000u128 } else { x as u128 }) * ($max as u128) / 1000) as $ty) }
		pub const fn from_rational_const(p: u128, q: u128) -> Self { Self((p * ($max as u128) / q) as $ty) }
		pub const fn left_from_one(self) -> Self { Self($max - self.0) }
		pub fn from_float(x: f64) -> Self { Self((x.max(0.).min(1.) * $max as f64) as $ty) }
		pub fn from_fraction(x: f64) -> Self { Self::from_float(x) }
		pub fn to_float(self) -> f64 { self.0 as f64 / $max as f64 }
		pub fn from_rational_with_rounding<N: PerRat>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
			if q.is_zero() || p > q { return Err(()); }
			let (p, q): (u128, u128) = (p.try_into().map_err(|_| ())?, q.try_into().map_err(|_| ())?);
			helpers_128bit::multiply_by_rational_with_rounding(p, $max as u128, q, r).map(|v| Self(v as $ty)).ok_or(())
		}
		pub fn from_rational<N: PerRat>(p: N, q: N) -> Self { Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or(Self::one()) }
		pub fn from_rational_approximation<N: PerRat>(p: N, q: N) -> Self { Self::from_rational(p, q) }
		pub fn mul_floor<N: PerArg>(self, b: N) -> N { mul_n(b, self.0 as u128, $max as u128, Rounding::Down) }
		pub fn mul_ceil<N: PerArg>(self, b: N) -> N { mul_n(b, self.0 as u128, $max as u128, Rounding::Up) }
		pub fn saturating_reciprocal_mul<N: PerArg>(self, b: N) -> N { recip_n(b, self.0 as u128, $max as u128, Rounding::NearestPrefUp) }
		pub fn saturating_reciprocal_mul_floor<N: PerArg>(self, b: N) -> N { recip_n(b, self.0 as u128, $max as u128, Rounding::Down) }
		pub fn saturating_reciprocal_mul_ceil<N: PerArg>(self, b: N) -> N { recip_n(b, self.0 as u128, $max as u128, Rounding::Up) }
		pub fn square(self) -> Self { Self(((self.0 as u128 * self.0 as u128) / $max as u128) as $ty) }
		pub fn int_div(self, d: Self) -> $ty { self.0 / d.0 }
		pub fn saturating_div(self, d: Self, r: Rounding) -> Self { Self::from_rational_with_rounding(self.0, d.0, r).unwrap_or(Self::one()) }
		pub fn saturating_add(self, o: Self) -> Self { Self::from_parts(self.0.saturating_add(o.0)) }
		pub fn saturating_sub(self, o: Self) -> Self { Self(self.0.saturating_sub(o.0)) }
		pub fn saturating_mul(self, o: Self) -> Self { self * o }
		pub fn saturating_pow(self, e: usize) -> Self { let mut r = Self::one(); for _ in 0..e { r = r * self; } r }
		pub fn checked_add(&self, o: &Self) -> Option<Self> { self.0.checked_add(o.0).filter(|x| *x <= $max).map(Self) }
		pub fn checked_sub(&self, o: &Self) -> Option<Self> { self.0.checked_sub(o.0).map(Self) }
	}
	impl traits::Saturating for $name {
		fn saturating_add(self, o: Self) -> Self { $name::saturating_add(self, o) }
		fn saturating_sub(self, o: Self) -> Self { $name::saturating_sub(self, o) }
		fn saturating_mul(self, o: Self) -> Self { self * o }
		fn saturating_pow(self, e: usize) -> Self { $name::saturating_pow(self, e) }
	}
	impl nt::Bounded for $name { fn min_value() -> Self { Self(0) } fn max_value() -> Self { Self($max) } }
	impl nt::Zero for $name { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
	impl nt::One for $name { fn one() -> Self { Self($max) } }
	impl nt::CheckedAdd for $name { fn checked_add(&self, o: &Self) -> Option<Self> { $name::checked_add(self, o) } }
	impl nt::CheckedSub for $name { fn checked_sub(&self, o: &Self) -> Option<Self> { $name::checked_sub(self, o) } }
	impl core::ops::Add for $name { type Output = Self; fn add(self, o: Self) -> Self { Self(self.0 + o.0) } }
	impl core::ops::Sub for $name { type Output = Self; fn sub(self, o: Self) -> Self { Self(self.0 - o.0) } }
	impl core::ops::AddAssign for $name { fn add_assign(&mut self, o: Self) { self.0 += o.0 } }
	impl core::ops::SubAssign for $name { fn sub_assign(&mut self, o: Self) { self.0 -= o.0 } }
	impl core::ops::Div for $name { type Output = Self; fn div(self, o: Self) -> Self { Self::from_rational(self.0, o.0) } }
	impl core::ops::Mul for $name { type Output = Self; fn mul(self, o: Self) -> Self { Self((self.0 as u128 * o.0 as u128 / $max as u128) as $ty) } }
	impl<N: PerArg> core::ops::Mul<N> for $name { type Output = N; fn mul(self, o: N) -> N { mul_n(o, self.0 as u128, $max as u128, Rounding::NearestPrefDown) } }
	impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}({}/{})", stringify!($name), self.0, $max) } }
	impl fmt::Display for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}/{}", self.0, $max) } }
	impl core::iter::Sum for $name { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a.saturating_add(b)) } }
}}
per_thing!(Percent, 100u8, u8, u16);
per_thing!(PerU16, 65535u16, u16, u32);
per_thing!(Permill, 1_000_000u32, u32, u64);
per_thing!(Perbill, 1_000_000_000u32, u32, u64);
per_thing!(Perquintill, 1_000_000_000_000_000_000u64, u64, u128);

pub trait FixedPointOperand: Copy + Clone + nt::Bounded + nt::Zero + traits::Saturating + PartialOrd + traits::UniqueSaturatedInto<u128> + TryFrom<u128> + TryInto<u128> {}
impl FixedPointOperand for u128 {}
impl FixedPointOperand for u64 {}
impl FixedPointOperand for u32 {}
impl FixedPointOperand for u16 {}
impl FixedPointOperand for u8 {}
pub trait FixedPointNumber: Sized + Copy + Default + fmt::Debug + Ord {
	type Inner;
	const DIV: Self::Inner;
	fn from_inner(i: Self::Inner) -> Self;
	fn into_inner(self) -> Self::Inner;
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N;
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N>;
}
#[derive(Encode, Decode, Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, MaxEncodedLen, CompactAs, serde::Serialize, serde::Deserialize)]
pub struct FixedU128(u128);
impl FixedU128 {
	pub const DIV: u128 = 1_000_000_000_000_000_000;
	pub const fn from_inner(i: u128) -> Self {
		Self(i)
	}
	pub const fn into_inner(self) -> u128 {
		self.0
	}
	pub const fn from_u32(n: u32) -> Self {
		Self(n as u128 * Self::DIV)
	}
	pub const fn one() -> Self {
		Self(Self::DIV)
	}
	pub const fn zero() -> Self {
		Self(0)
	}
	pub const fn is_zero(&self) -> bool {
		self.0 == 0
	}
	pub const fn accuracy() -> u128 {
		Self::DIV
	}
	pub fn saturating_from_integer<N: Into<u128>>(n: N) -> Self {
		Self(n.into().saturating_mul(Self::DIV))
	}
	pub fn checked_from_integer<N: Into<u128>>(n: N) -> Option<Self> {
		n.into().checked_mul(Self::DIV).map(Self)
	}
	pub fn saturating_from_rational<N: Into<u128>, D: Into<u128>>(n: N, d: D) -> Self {
		let d = d.into();
		if d == 0 {
			panic!("attempt to divide by zero")
		}
		Self(multiply_by_rational_with_rounding(n.into(), Self::DIV, d, Rounding::Down).unwrap_or(u128::MAX))
	}
	pub fn checked_from_rational<N: Into<u128>, D: Into<u128>>(n: N, d: D) -> Option<Self> {
		multiply_by_rational_with_rounding(n.into(), Self::DIV, d.into(), Rounding::Down).map(Self)
	}
	pub fn from_rational(n: u128, d: u128) -> Self {
		Self(multiply_by_rational_with_rounding(n, Self::DIV, d, Rounding::Down).expect("overflow"))
	}
	pub fn from_perbill(p: Perbill) -> Self {
		Self(p.deconstruct() as u128 * 1_000_000_000)
	}
	pub fn from_float(x: f64) -> Self {
		Self((x * Self::DIV as f64) as u128)
	}
	pub fn to_float(self) -> f64 {
		self.0 as f64 / Self::DIV as f64
	}
	pub fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
		self.checked_mul_int(n).unwrap_or(N::max_value())
	}
	pub fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		let v: u128 = n.unique_saturated_into();
		multiply_by_rational_with_rounding(self.0, v, Self::DIV, Rounding::Down).and_then(|x| N::try_from(x).ok())
	}
	pub fn checked_div_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		let v: u128 = n.unique_saturated_into();
		self.0.checked_div(v).map(|x| x / Self::DIV).and_then(|x| N::try_from(x).ok())
	}
	pub fn saturating_mul_acc_int<N: FixedPointOperand>(self, n: N) -> N {
		self.saturating_mul_int(n).saturating_add(n)
	}
	pub fn saturating_mul(self, o: Self) -> Self {
		Self(multiply_by_rational_with_rounding(self.0, o.0, Self::DIV, Rounding::NearestPrefDown).unwrap_or(u128::MAX))
	}
	pub fn saturating_add(self, o: Self) -> Self {
		Self(self.0.saturating_add(o.0))
	}
	pub fn saturating_sub(self, o: Self) -> Self {
		Self(self.0.saturating_sub(o.0))
	}
	pub fn checked_mul(&self, o: &Self) -> Option<Self> {
		multiply_by_rational_with_rounding(self.0, o.0, Self::DIV, Rounding::NearestPrefDown).map(Self)
	}
	pub fn checked_div(&self, o: &Self) -> Option<Self> {
		multiply_by_rational_with_rounding(self.0, Self::DIV, o.0, Rounding::NearestPrefDown).map(Self)
	}
	pub fn trunc(self) -> Self {
		Self(self.0 / Self::DIV * Self::DIV)
	}
	pub fn frac(self) -> Self {
		Self(self.0 % Self::DIV)
	}
	pub fn reciprocal(self) -> Option<Self> {
		Self::one().checked_div(&self)
	}
	pub fn saturating_pow(self, e: usize) -> Self {
		let mut r = Self::one();
		for _ in 0..e {
			r = r.saturating_mul(self);
		}
		r
	}
}
impl FixedPointNumber for FixedU128 {
	type Inner = u128;
	const DIV: u128 = FixedU128::DIV;
	fn from_inner(i: u128) -> Self {
		Self(i)
	}
	fn into_inner(self) -> u128 {
		self.0
	}
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
		FixedU128::saturating_mul_int(self, n)
	}
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		FixedU128::checked_mul_int(self, n)
	}
}
impl fmt::Debug for FixedU128 {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "FixedU128({}.{:018})", self.0 / Self::DIV, self.0 % Self::DIV)
	}
}
impl core::ops::Mul for FixedU128 {
	type Output = Self;
	fn mul(self, o: Self) -> Self {
		self.checked_mul(&o).expect("overflow")
	}
}
impl core::ops::Add for FixedU128 {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self(self.0 + o.0)
	}
}
impl core::ops::Sub for FixedU128 {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self(self.0 - o.0)
	}
}
impl core::ops::Div for FixedU128 {
	type Output = Self;
	fn div(self, o: Self) -> Self {
		self.checked_div(&o).expect("overflow")
	}
}
impl<N: FixedPointOperand, D: FixedPointOperand> From<(N, D)> for FixedU128 {
	fn from((n, d): (N, D)) -> Self {
		let (n, d): (u128, u128) = (n.unique_saturated_into(), d.unique_saturated_into());
		Self::saturating_from_rational(n, d)
	}
}
impl From<u128> for FixedU128 {
	fn from(n: u128) -> Self {
		Self::saturating_from_integer(n)
	}
}
