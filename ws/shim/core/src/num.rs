//! primitive-types stand-in: fixed width unsigned integers and fixed hashes.
use crate::codec::{self, Decode, Encode, EncodeLike, Input, MaxEncodedLen, Output};
use core::fmt;
use core::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Uint<const N: usize>(pub [u64; N]);
pub type U256 = Uint<4>;
pub type U512 = Uint<8>;
pub type U128 = Uint<2>;
pub type U64 = Uint<1>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FromDecStrErr {
	InvalidCharacter,
	InvalidLength,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FromHexError;
impl fmt::Display for FromHexError {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str("invalid hex")
	}
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FromStrRadixErr;

impl<const N: usize> Uint<N> {
	pub const MAX: Self = Self([u64::MAX; N]);
	pub const fn zero() -> Self {
		Self([0; N])
	}
	pub const fn one() -> Self {
		let mut r = [0; N];
		r[0] = 1;
		Self(r)
	}
	pub const fn max_value() -> Self {
		Self([u64::MAX; N])
	}
	pub const fn is_zero(&self) -> bool {
		let mut i = 0;
		while i < N {
			if self.0[i] != 0 {
				return false;
			}
			i += 1;
		}
		true
	}
	pub const fn low_u32(&self) -> u32 {
		self.0[0] as u32
	}
	pub const fn low_u64(&self) -> u64 {
		self.0[0]
	}
	pub const fn low_u128(&self) -> u128 {
		if N == 1 {
			self.0[0] as u128
		} else {
			((self.0[1] as u128) << 64) | self.0[0] as u128
		}
	}
	fn fits(&self, limbs: usize) -> bool {
		self.0.iter().skip(limbs).all(|x| *x == 0)
	}
	pub fn as_u32(&self) -> u32 {
		if !self.fits(1) || self.0[0] > u32::MAX as u64 {
			panic!("Integer overflow when casting to u32")
		}
		self.0[0] as u32
	}
	pub fn as_u64(&self) -> u64 {
		if !self.fits(1) {
			panic!("Integer overflow when casting to u64")
		}
		self.0[0]
	}
	pub fn as_usize(&self) -> usize {
		self.as_u64() as usize
	}
	pub fn as_u128(&self) -> u128 {
		if !self.fits(2) {
			panic!("Integer overflow when casting to u128")
		}
		self.low_u128()
	}
	pub fn bits(&self) -> usize {
		for i in (0..N).rev() {
			if self.0[i] != 0 {
				return i * 64 + 64 - self.0[i].leading_zeros() as usize;
			}
		}
		0
	}
	pub fn bit(&self, i: usize) -> bool {
		i < N * 64 && (self.0[i / 64] >> (i % 64)) & 1 == 1
	}
	pub fn byte(&self, i: usize) -> u8 {
		(self.0[i / 8] >> ((i % 8) * 8)) as u8
	}
	pub fn leading_zeros(&self) -> u32 {
		(N * 64 - self.bits()) as u32
	}
	pub fn trailing_zeros(&self) -> u32 {
		for i in 0..N {
			if self.0[i] != 0 {
				return i as u32 * 64 + self.0[i].trailing_zeros();
			}
		}
		N as u32 * 64
	}
	pub fn overflowing_add(self, o: Self) -> (Self, bool) {
		let mut r = [0; N];
		let mut c = false;
		for i in 0..N {
			let (a, b) = self.0[i].overflowing_add(o.0[i]);
			let (a2, b2) = a.overflowing_add(c as u64);
			r[i] = a2;
			c = b | b2;
		}
		(Self(r), c)
	}
	pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
		let mut r = [0; N];
		let mut c = false;
		for i in 0..N {
			let (a, b) = self.0[i].overflowing_sub(o.0[i]);
			let (a2, b2) = a.overflowing_sub(c as u64);
			r[i] = a2;
			c = b | b2;
		}
		(Self(r), c)
	}
	pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
		let mut r = [0u64; N];
		let mut of = false;
		for i in 0..N {
			if self.0[i] == 0 {
				continue;
			}
			let mut carry: u128 = 0;
			for j in 0..N {
				let p = self.0[i] as u128 * o.0[j] as u128 + carry;
				if i + j < N {
					let s = p + r[i + j] as u128;
					r[i + j] = s as u64;
					carry = s >> 64;
				} else {
					if p != 0 {
						of = true;
					}
					carry = 0;
				}
			}
			if carry != 0 {
				of = true;
			}
		}
		(Self(r), of)
	}
	pub fn wrapping_add(self, o: Self) -> Self {
		self.overflowing_add(o).0
	}
	pub fn wrapping_sub(self, o: Self) -> Self {
		self.overflowing_sub(o).0
	}
	pub fn wrapping_mul(self, o: Self) -> Self {
		self.overflowing_mul(o).0
	}
	pub fn checked_add(self, o: Self) -> Option<Self> {
		let (r, f) = self.overflowing_add(o);
		(!f).then_some(r)
	}
	pub fn checked_sub(self, o: Self) -> Option<Self> {
		let (r, f) = self.overflowing_sub(o);
		(!f).then_some(r)
	}
	pub fn checked_mul(self, o: Self) -> Option<Self> {
		let (r, f) = self.overflowing_mul(o);
		(!f).then_some(r)
	}
	pub fn checked_div(self, o: Self) -> Option<Self> {
		(!o.is_zero()).then(|| self.div_mod(o).0)
	}
	pub fn checked_rem(self, o: Self) -> Option<Self> {
		(!o.is_zero()).then(|| self.div_mod(o).1)
	}
	pub fn saturating_add(self, o: Self) -> Self {
		self.checked_add(o).unwrap_or(Self::MAX)
	}
	pub fn saturating_sub(self, o: Self) -> Self {
		self.checked_sub(o).unwrap_or(Self::zero())
	}
	pub fn saturating_mul(self, o: Self) -> Self {
		self.checked_mul(o).unwrap_or(Self::MAX)
	}
	pub fn abs_diff(self, o: Self) -> Self {
		if self > o {
			self.wrapping_sub(o)
		} else {
			o.wrapping_sub(self)
		}
	}
	pub fn div_mod(self, o: Self) -> (Self, Self) {
		assert!(!o.is_zero(), "division by zero");
		if self < o {
			return (Self::zero(), self);
		}
		if self.fits(2) && o.fits(2) {
			let (a, b) = (self.low_u128(), o.low_u128());
			return (Self::from(a / b), Self::from(a % b));
		}
		if o.fits(1) {
			let d = o.0[0] as u128;
			let mut rem = 0u128;
			let mut q = [0; N];
			for i in (0..N).rev() {
				let cur = (rem << 64) | self.0[i] as u128;
				q[i] = (cur / d) as u64;
				rem = cur % d;
			}
			return (Self(q), Self::from(rem as u64));
		}
		// Knuth D with 64-bit limbs
		let n = (o.bits() + 63) / 64;
		let m = (self.bits() + 63) / 64 - n;
		let s = o.0[n - 1].leading_zeros();
		let v = o << s as usize;
		let mut u = [0u64; 17];
		for i in 0..N {
			u[i] |= if s == 0 { self.0[i] } else { self.0[i] << s };
			if s != 0 {
				u[i + 1] |= self.0[i] >> (64 - s);
			}
		}
		let mut q = [0u64; N];
		for j in (0..=m).rev() {
			let top = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
			let vn = v.0[n - 1] as u128;
			let (mut qhat, mut rhat) = if (u[j + n] as u128) >= vn {
				(u64::MAX as u128, top - u64::MAX as u128 * vn)
			} else {
				(top / vn, top % vn)
			};
			while rhat <= u64::MAX as u128 && qhat * (v.0[n - 2] as u128) > ((rhat << 64) | u[j + n - 2] as u128) {
				qhat -= 1;
				rhat += vn;
			}
			let mut borrow: i128 = 0;
			let mut carry: u128 = 0;
			for i in 0..n {
				let p = qhat * v.0[i] as u128 + carry;
				carry = p >> 64;
				let t = u[i + j] as i128 - borrow - (p as u64) as i128;
				u[i + j] = t as u64;
				borrow = if t < 0 { 1 } else { 0 };
			}
			let t = u[j + n] as i128 - borrow - carry as i128;
			u[j + n] = t as u64;
			if t < 0 {
				qhat -= 1;
				let mut c = 0u128;
				for i in 0..n {
					let x = u[i + j] as u128 + v.0[i] as u128 + c;
					u[i + j] = x as u64;
					c = x >> 64;
				}
				u[j + n] = (u[j + n] as u128 + c) as u64;
			}
			q[j] = qhat as u64;
		}
		let mut r = [0u64; N];
		for i in 0..n {
			r[i] = if s == 0 { u[i] } else { (u[i] >> s) | (u[i + 1] << (64 - s)) };
		}
		(Self(q), Self(r))
	}
	pub fn pow(self, e: Self) -> Self {
		self.checked_pow(e).expect("arithmetic operation overflow")
	}
	pub fn overflowing_pow(self, e: Self) -> (Self, bool) {
		let mut r = Self::one();
		let mut of = false;
		for i in (0..e.bits()).rev() {
			let (x, f) = r.overflowing_mul(r);
			r = x;
			of |= f;
			if e.bit(i) {
				let (x, f) = r.overflowing_mul(self);
				r = x;
				of |= f;
			}
		}
		(r, of)
	}
	pub fn checked_pow(self, e: Self) -> Option<Self> {
		let (r, f) = self.overflowing_pow(e);
		(!f).then_some(r)
	}
	pub fn exp10(n: usize) -> Self {
		let mut r = Self::one();
		for _ in 0..n {
			r = r * Self::from(10u64);
		}
		r
	}
	pub fn integer_sqrt(&self) -> Self {
		if *self <= Self::one() {
			return *self;
		}
		let mut x = Self::one() << ((self.bits() + 1) / 2);
		loop {
			let y = (x + *self / x) >> 1;
			if y >= x {
				return x;
			}
			x = y;
		}
	}
	pub fn from_big_endian(b: &[u8]) -> Self {
		assert!(b.len() <= N * 8);
		let mut r = [0u64; N];
		for (i, x) in b.iter().rev().enumerate() {
			r[i / 8] |= (*x as u64) << ((i % 8) * 8);
		}
		Self(r)
	}
	pub fn from_little_endian(b: &[u8]) -> Self {
		assert!(b.len() <= N * 8);
		let mut r = [0u64; N];
		for (i, x) in b.iter().enumerate() {
			r[i / 8] |= (*x as u64) << ((i % 8) * 8);
		}
		Self(r)
	}
	pub fn to_big_endian(&self, b: &mut [u8]) {
		for (i, x) in b.iter_mut().rev().enumerate() {
			*x = if i < N * 8 { self.byte(i) } else { 0 };
		}
	}
	pub fn to_little_endian(&self, b: &mut [u8]) {
		for (i, x) in b.iter_mut().enumerate() {
			*x = if i < N * 8 { self.byte(i) } else { 0 };
		}
	}
	pub fn from_dec_str(s: &str) -> Result<Self, FromDecStrErr> {
		let mut r = Self::zero();
		for c in s.bytes() {
			if !c.is_ascii_digit() {
				return Err(FromDecStrErr::InvalidCharacter);
			}
			r = r
				.checked_mul(Self::from(10u64))
				.and_then(|x| x.checked_add(Self::from((c - b'0') as u64)))
				.ok_or(FromDecStrErr::InvalidLength)?;
		}
		Ok(r)
	}
	pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, FromStrRadixErr> {
		match radix {
			10 => Self::from_dec_str(s).map_err(|_| FromStrRadixErr),
			16 => s.parse().map_err(|_| FromStrRadixErr),
			_ => Err(FromStrRadixErr),
		}
	}
}
impl U256 {
	pub fn full_mul(self, o: Self) -> U512 {
		U512::from(self).wrapping_mul(U512::from(o))
	}
}
impl<const N: usize> Default for Uint<N> {
	fn default() -> Self {
		Self::zero()
	}
}
impl<const N: usize> PartialOrd for Uint<N> {
	fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl<const N: usize> Ord for Uint<N> {
	fn cmp(&self, o: &Self) -> core::cmp::Ordering {
		for i in (0..N).rev() {
			match self.0[i].cmp(&o.0[i]) {
				core::cmp::Ordering::Equal => {},
				x => return x,
			}
		}
		core::cmp::Ordering::Equal
	}
}
impl<const N: usize> fmt::Display for Uint<N> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		let mut v = *self;
		let mut s = vec![];
		loop {
			let (q, r) = v.div_mod(Self::from(10u64));
			s.push(b'0' + r.0[0] as u8);
			v = q;
			if v.is_zero() {
				break;
			}
		}
		s.reverse();
		f.pad_integral(true, "", core::str::from_utf8(&s).unwrap())
	}
}
impl<const N: usize> fmt::Debug for Uint<N> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		fmt::Display::fmt(self, f)
	}
}
impl<const N: usize> fmt::LowerHex for Uint<N> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		let mut b = vec![0; N * 8];
		self.to_big_endian(&mut b);
		let h = hex::encode(b);
		let t = h.trim_start_matches('0');
		f.pad_integral(true, "0x", if t.is_empty() { "0" } else { t })
	}
}
impl<const N: usize> core::str::FromStr for Uint<N> {
	type Err = FromHexError;
	fn from_str(s: &str) -> Result<Self, FromHexError> {
		let s = s.strip_prefix("0x").unwrap_or(s);
		let s = if s.len() % 2 == 1 { format!("0{s}") } else { s.to_string() };
		let b = hex::decode(&s).map_err(|_| FromHexError)?;
		if b.len() > N * 8 {
			return Err(FromHexError);
		}
		Ok(Self::from_big_endian(&b))
	}
}
macro_rules! from_u { ($($t:ty),*) => {$(
	impl<const N: usize> From<$t> for Uint<N> { fn from(x: $t) -> Self { let mut r = [0; N]; r[0] = x as u64; Self(r) } }
	impl<const N: usize> TryFrom<Uint<N>> for $t { type Error = &'static str; fn try_from(x: Uint<N>) -> Result<Self, Self::Error> {
		if !x.fits(1) || x.0[0] > <$t>::MAX as u64 { Err("integer overflow when casting to") } else { Ok(x.0[0] as $t) } } }
)*}}
from_u!(u8, u16, u32, u64, usize);
macro_rules! from_i { ($($t:ty),*) => {$(
	impl<const N: usize> From<$t> for Uint<N> { fn from(x: $t) -> Self { assert!(x >= 0, "Unsigned integer can't be created from negative value"); let mut r = [0; N]; r[0] = x as u64; Self(r) } }
)*}}
from_i!(i8, i16, i32, i64, isize);
impl<const N: usize> From<bool> for Uint<N> {
	fn from(x: bool) -> Self {
		Self::from(x as u64)
	}
}
impl<const N: usize> From<u128> for Uint<N> {
	fn from(x: u128) -> Self {
		let mut r = [0; N];
		r[0] = x as u64;
		if N > 1 {
			r[1] = (x >> 64) as u64;
		} else {
			assert!(x >> 64 == 0);
		}
		Self(r)
	}
}
impl<const N: usize> TryFrom<Uint<N>> for u128 {
	type Error = &'static str;
	fn try_from(x: Uint<N>) -> Result<Self, Self::Error> {
		if !x.fits(2) {
			Err("integer overflow when casting to u128")
		} else {
			Ok(x.low_u128())
		}
	}
}
impl From<U256> for U512 {
	fn from(x: U256) -> Self {
		let mut r = [0; 8];
		r[..4].copy_from_slice(&x.0);
		Self(r)
	}
}
impl TryFrom<U512> for U256 {
	type Error = &'static str;
	fn try_from(x: U512) -> Result<Self, Self::Error> {
		if x.0[4..].iter().any(|l| *l != 0) {
			return Err("integer overflow");
		}
		let mut r = [0; 4];
		r.copy_from_slice(&x.0[..4]);
		Ok(Self(r))
	}
}
impl From<&[u8]> for U256 {
	fn from(b: &[u8]) -> Self {
		U256::from_big_endian(b)
	}
}
impl From<[u8; 32]> for U256 {
	fn from(b: [u8; 32]) -> Self {
		U256::from_big_endian(&b)
	}
}
impl From<&[u8; 32]> for U256 {
	fn from(b: &[u8; 32]) -> Self {
		U256::from_big_endian(b)
	}
}
impl From<U256> for [u8; 32] {
	fn from(x: U256) -> Self {
		let mut b = [0; 32];
		x.to_big_endian(&mut b);
		b
	}
}
impl From<&'static str> for U256 {
	fn from(s: &'static str) -> Self {
		s.parse().unwrap()
	}
}
macro_rules! op { ($tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
	impl<const N: usize, T: Into<Uint<N>>> $tr<T> for Uint<N> { type Output = Self; fn $f(self, o: T) -> Self { let g: fn(Uint<N>, Uint<N>) -> Uint<N> = $e; g(self, o.into()) } }
	impl<'a, const N: usize, T: Into<Uint<N>>> $tr<T> for &'a Uint<N> { type Output = Uint<N>; fn $f(self, o: T) -> Uint<N> { let g: fn(Uint<N>, Uint<N>) -> Uint<N> = $e; g(*self, o.into()) } }
	impl<const N: usize, T: Into<Uint<N>>> $tra<T> for Uint<N> { fn $fa(&mut self, o: T) { let g: fn(Uint<N>, Uint<N>) -> Uint<N> = $e; *self = g(*self, o.into()) } }
}}
op!(Add, add, AddAssign, add_assign, |a, b| a.checked_add(b).expect("arithmetic operation overflow"));
op!(Sub, sub, SubAssign, sub_assign, |a, b| a.checked_sub(b).expect("arithmetic operation overflow"));
op!(Mul, mul, MulAssign, mul_assign, |a, b| a.checked_mul(b).expect("arithmetic operation overflow"));
op!(Div, div, DivAssign, div_assign, |a, b| a.div_mod(b).0);
op!(Rem, rem, RemAssign, rem_assign, |a, b| a.div_mod(b).1);
impl<'a, const N: usize> From<&'a Uint<N>> for Uint<N> {
	fn from(x: &'a Uint<N>) -> Self {
		*x
	}
}
macro_rules! bitop { ($tr:ident, $f:ident, $tra:ident, $fa:ident, $o:tt) => {
	impl<const N: usize> $tr for Uint<N> { type Output = Self; fn $f(self, o: Self) -> Self { let mut r = self.0; for i in 0..N { r[i] = r[i] $o o.0[i]; } Self(r) } }
	impl<const N: usize> $tra for Uint<N> { fn $fa(&mut self, o: Self) { for i in 0..N { self.0[i] = self.0[i] $o o.0[i]; } } }
}}
bitop!(BitAnd, bitand, BitAndAssign, bitand_assign, &);
bitop!(BitOr, bitor, BitOrAssign, bitor_assign, |);
bitop!(BitXor, bitxor, BitXorAssign, bitxor_assign, ^);
impl<const N: usize> Not for Uint<N> {
	type Output = Self;
	fn not(self) -> Self {
		let mut r = self.0;
		for x in r.iter_mut() {
			*x = !*x;
		}
		Self(r)
	}
}
fn shl_raw<const N: usize>(a: Uint<N>, s: usize) -> Uint<N> {
	let mut r = [0; N];
	if s >= N * 64 {
		return Uint(r);
	}
	let (w, b) = (s / 64, s % 64);
	for i in (w..N).rev() {
		r[i] = a.0[i - w] << b;
		if b > 0 && i > w {
			r[i] |= a.0[i - w - 1] >> (64 - b);
		}
	}
	Uint(r)
}
fn shr_raw<const N: usize>(a: Uint<N>, s: usize) -> Uint<N> {
	let mut r = [0; N];
	if s >= N * 64 {
		return Uint(r);
	}
	let (w, b) = (s / 64, s % 64);
	for i in 0..N - w {
		r[i] = a.0[i + w] >> b;
		if b > 0 && i + w + 1 < N {
			r[i] |= a.0[i + w + 1] << (64 - b);
		}
	}
	Uint(r)
}
macro_rules! shifts { ($($t:ty),*) => {$(
	impl<const N: usize> Shl<$t> for Uint<N> { type Output = Self; fn shl(self, s: $t) -> Self { shl_raw(self, s as usize) } }
	impl<const N: usize> Shr<$t> for Uint<N> { type Output = Self; fn shr(self, s: $t) -> Self { shr_raw(self, s as usize) } }
	impl<const N: usize> ShlAssign<$t> for Uint<N> { fn shl_assign(&mut self, s: $t) { *self = shl_raw(*self, s as usize) } }
	impl<const N: usize> ShrAssign<$t> for Uint<N> { fn shr_assign(&mut self, s: $t) { *self = shr_raw(*self, s as usize) } }
)*}}
shifts!(u8, u16, u32, u64, usize, i32, i64);
impl<const N: usize> Shl<Uint<N>> for Uint<N> {
	type Output = Self;
	fn shl(self, s: Self) -> Self {
		if s.fits(1) {
			shl_raw(self, s.0[0].min(1 << 20) as usize)
		} else {
			Self::zero()
		}
	}
}
impl<const N: usize> Shr<Uint<N>> for Uint<N> {
	type Output = Self;
	fn shr(self, s: Self) -> Self {
		if s.fits(1) {
			shr_raw(self, s.0[0].min(1 << 20) as usize)
		} else {
			Self::zero()
		}
	}
}
impl<const N: usize> core::iter::Sum for Uint<N> {
	fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
		i.fold(Self::zero(), |a, b| a + b)
	}
}
impl<const N: usize> Encode for Uint<N> {
	fn encode_to<W: Output + ?Sized>(&self, w: &mut W) {
		for l in &self.0 {
			w.write(&l.to_le_bytes());
		}
	}
}
impl<const N: usize> EncodeLike for Uint<N> {}
impl<const N: usize> Decode for Uint<N> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		let mut r = [0; N];
		for l in r.iter_mut() {
			*l = u64::decode(i)?;
		}
		Ok(Self(r))
	}
}
impl<const N: usize> MaxEncodedLen for Uint<N> {
	fn max_encoded_len() -> usize {
		N * 8
	}
}
impl<const N: usize> serde::Serialize for Uint<N> {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&format!("{:#x}", self))
	}
}
impl<'de, const N: usize> serde::Deserialize<'de> for Uint<N> {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?;
		s.parse().map_err(|_| serde::de::Error::custom("invalid hex"))
	}
}

macro_rules! fixed_hash { ($name:ident, $n:expr) => {
	#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
	#[repr(transparent)]
	pub struct $name(pub [u8; $n]);
	impl $name {
		pub const fn repeat_byte(b: u8) -> Self { Self([b; $n]) }
		pub const fn zero() -> Self { Self([0; $n]) }
		pub const fn len_bytes() -> usize { $n }
		pub fn as_bytes(&self) -> &[u8] { &self.0 }
		pub fn as_bytes_mut(&mut self) -> &mut [u8] { &mut self.0 }
		pub const fn as_fixed_bytes(&self) -> &[u8; $n] { &self.0 }
		pub fn as_fixed_bytes_mut(&mut self) -> &mut [u8; $n] { &mut self.0 }
		pub const fn to_fixed_bytes(self) -> [u8; $n] { self.0 }
		pub fn as_ptr(&self) -> *const u8 { self.0.as_ptr() }
		pub fn assign_from_slice(&mut self, s: &[u8]) { assert_eq!(s.len(), $n); self.0.copy_from_slice(s) }
		pub fn from_slice(s: &[u8]) -> Self { assert_eq!(s.len(), $n); let mut r = [0; $n]; r.copy_from_slice(s); Self(r) }
		pub fn is_zero(&self) -> bool { self.0.iter().all(|x| *x == 0) }
		pub fn covers(&self, b: &Self) -> bool { &(*b & *self) == b }
		fn low_be(v: &[u8]) -> Self { let mut r = [0; $n]; let n = v.len().min($n); r[$n - n..].copy_from_slice(&v[v.len() - n..]); Self(r) }
		pub fn from_low_u64_be(v: u64) -> Self { Self::low_be(&v.to_be_bytes()) }
		pub fn from_low_u64_le(v: u64) -> Self { Self::low_be(&v.to_le_bytes()) }
		pub fn from_low_u64_ne(v: u64) -> Self { Self::low_be(&v.to_ne_bytes()) }
		pub fn to_low_u64_be(&self) -> u64 { let mut b = [0; 8]; b.copy_from_slice(&self.0[$n - 8..]); u64::from_be_bytes(b) }
		pub fn to_low_u64_le(&self) -> u64 { let mut b = [0; 8]; b.copy_from_slice(&self.0[$n - 8..]); u64::from_le_bytes(b) }
		/// Deterministic stand-in for the randomised constructor (tests only).
		pub fn random() -> Self {
			let mut r = [0u8; $n];
			let seed = crate::next_random();
			let mut o = 0;
			let mut k = 0u64;
			while o < $n {
				let h = crate::hashing::blake2_256(&[seed.to_le_bytes(), k.to_le_bytes()].concat());
				let m = ($n - o).min(32);
				r[o..o + m].copy_from_slice(&h[..m]);
				o += m; k += 1;
			}
			Self(r)
		}
	}
	impl Default for $name { fn default() -> Self { Self::zero() } }
	impl AsRef<[u8]> for $name { fn as_ref(&self) -> &[u8] { &self.0 } }
	impl AsMut<[u8]> for $name { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
	impl AsRef<[u8; $n]> for $name { fn as_ref(&self) -> &[u8; $n] { &self.0 } }
	impl core::borrow::Borrow<[u8]> for $name { fn borrow(&self) -> &[u8] { &self.0 } }
	impl From<[u8; $n]> for $name { fn from(b: [u8; $n]) -> Self { Self(b) } }
	impl<'a> From<&'a [u8; $n]> for $name { fn from(b: &'a [u8; $n]) -> Self { Self(*b) } }
	impl From<$name> for [u8; $n] { fn from(b: $name) -> Self { b.0 } }
	impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:#x}", self) } }
	impl fmt::Display for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { let h = hex::encode(self.0); if $n > 4 { write!(f, "0x{}…{}", &h[..4], &h[h.len() - 4..]) } else { write!(f, "0x{}", h) } } }
	impl fmt::LowerHex for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if f.alternate() { f.write_str("0x")?; } f.write_str(&hex::encode(self.0)) } }
	impl core::str::FromStr for $name {
		type Err = FromHexError;
		fn from_str(s: &str) -> Result<Self, FromHexError> {
			let b = hex::decode(s.strip_prefix("0x").unwrap_or(s)).map_err(|_| FromHexError)?;
			if b.len() != $n { return Err(FromHexError); }
			Ok(Self::from_slice(&b))
		}
	}
	impl BitAnd for $name { type Output = Self; fn bitand(self, o: Self) -> Self { let mut r = self.0; for i in 0..$n { r[i] &= o.0[i]; } Self(r) } }
	impl BitOr for $name { type Output = Self; fn bitor(self, o: Self) -> Self { let mut r = self.0; for i in 0..$n { r[i] |= o.0[i]; } Self(r) } }
	impl BitXor for $name { type Output = Self; fn bitxor(self, o: Self) -> Self { let mut r = self.0; for i in 0..$n { r[i] ^= o.0[i]; } Self(r) } }
	impl<I: core::slice::SliceIndex<[u8]>> Index<I> for $name { type Output = I::Output; fn index(&self, i: I) -> &I::Output { &self.0[i] } }
	impl<I: core::slice::SliceIndex<[u8]>> IndexMut<I> for $name { fn index_mut(&mut self, i: I) -> &mut I::Output { &mut self.0[i] } }
	impl Encode for $name { fn encode_to<W: Output + ?Sized>(&self, w: &mut W) { w.write(&self.0) } }
	impl EncodeLike for $name {}
	impl Decode for $name { fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> { Ok(Self(<[u8; $n]>::decode(i)?)) } }
	impl MaxEncodedLen for $name { fn max_encoded_len() -> usize { $n } }
	impl serde::Serialize for $name { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("{:#x}", self)) } }
	impl<'de> serde::Deserialize<'de> for $name { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?; s.parse().map_err(|_| serde::de::Error::custom("invalid hex")) } }
	impl crate::sp_core::crypto::UncheckedFrom<[u8; $n]> for $name { fn unchecked_from(b: [u8; $n]) -> Self { Self(b) } }
}}
fixed_hash!(H128, 16);
fixed_hash!(H160, 20);
fixed_hash!(H256, 32);
fixed_hash!(H264, 33);
fixed_hash!(H512, 64);
fixed_hash!(H520, 65);
fixed_hash!(Bloom, 256);
impl From<H160> for H256 {
	fn from(x: H160) -> Self {
		let mut r = [0; 32];
		r[12..].copy_from_slice(&x.0);
		Self(r)
	}
}
impl From<H256> for H160 {
	fn from(x: H256) -> Self {
		let mut r = [0; 20];
		r.copy_from_slice(&x.0[12..]);
		Self(r)
	}
}
#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn div() {
		let mut x = 0x9E3779B97F4A7C15u64;
		let mut r = || {
			x ^= x << 13;
			x ^= x >> 7;
			x ^= x << 17;
			x
		};
		for k in 0..20000 {
			let mut a = U512([r(), r(), r(), r(), r(), r(), r(), r()]);
			let mut b = U512([r(), r(), r(), r(), 0, 0, 0, 0]);
			a = a >> ((k * 7) % 500) as u32;
			b = b >> ((k * 13) % 250) as u32;
			if k % 5 == 0 {
				b.0[3] = u64::MAX;
				a.0[7] = u64::MAX;
			}
			if b.is_zero() {
				continue;
			}
			let (q, m) = a.div_mod(b);
			assert!(m < b);
			assert_eq!(q * b + m, a);
		}
		assert_eq!(U256::MAX.to_string(), "115792089237316195423570985008687907853269984665640564039457584007913129639935");
		assert_eq!(U256::from_dec_str("123456789012345678901234567890").unwrap().as_u128(), 123456789012345678901234567890u128);
	}
}
pub fn fmt_0x(b: &[u8]) -> String {
	format!("0x{}", hex::encode(b))
}
pub fn parse_0x(s: &str) -> Option<Vec<u8>> {
	hex::decode(s.strip_prefix("0x").unwrap_or(s)).ok()
}
