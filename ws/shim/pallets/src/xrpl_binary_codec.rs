//! Stand-in for the XRPL binary codec: the fields pallet-xrpl reads and writes.
pub mod serializer {
	pub mod field_id {
		#[derive(Clone, Copy, Debug, PartialEq)]
		pub enum TypeCode {
			Object,
		}
	}
	pub mod field_info {
		pub struct FieldInfo;
		pub fn field_info_lookup() -> FieldInfo {
			FieldInfo
		}
	}
	#[derive(Default)]
	pub struct Serializer(Vec<u8>);
	#[derive(Debug)]
	pub struct Error;
	impl Serializer {
		pub fn new() -> Self {
			Self::default()
		}
		pub fn into_bytes(self) -> Result<Vec<u8>, Error> {
			Ok(self.0)
		}
		pub(crate) fn raw(&mut self, b: &[u8]) {
			self.0.extend_from_slice(b)
		}
		pub(crate) fn push(&mut self, field: u8, b: &[u8]) {
			self.0.push(field);
			self.raw(b)
		}
		pub(crate) fn push_vl(&mut self, field: u8, b: &[u8]) {
			self.0.push(field);
			let n = b.len();
			if n <= 192 {
				self.0.push(n as u8)
			} else if n <= 12480 {
				let x = n - 193;
				self.0.push(193 + (x >> 8) as u8);
				self.0.push(x as u8)
			} else {
				let x = n - 12481;
				self.0.push(241 + (x >> 16) as u8);
				self.0.push((x >> 8) as u8);
				self.0.push(x as u8)
			}
			self.raw(b)
		}
	}
}
pub mod deserializer {
	use super::serializer::{field_id::TypeCode, field_info::FieldInfo};
	use serde_json::{json, Map, Value};
	pub struct Deserializer;
	#[derive(Debug)]
	pub struct Error;
	fn vl<'a>(b: &mut &'a [u8]) -> Result<&'a [u8], Error> {
		let x = *take(b, 1)?.first().unwrap() as usize;
		let n = if x <= 192 {
			x
		} else if x <= 240 {
			193 + ((x - 193) << 8) + take(b, 1)?[0] as usize
		} else if x <= 254 {
			let r = take(b, 2)?;
			12481 + ((x - 241) << 16) + ((r[0] as usize) << 8) + r[1] as usize
		} else {
			return Err(Error);
		};
		take(b, n)
	}
	fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], Error> {
		if b.len() < n {
			return Err(Error);
		}
		let (x, r) = b.split_at(n);
		*b = r;
		Ok(x)
	}
	fn up(b: &[u8]) -> Value {
		json!(hex::encode_upper(b))
	}
	fn object(b: &mut &[u8]) -> Result<Value, Error> {
		let mut m = Map::new();
		while !b.is_empty() {
			let f = take(b, 1)?[0];
			match f {
				0xE1 | 0xF1 => break,
				0x59 => {
					m.insert("AccountTxnID".into(), up(take(b, 32)?));
				},
				0x12 => {
					m.insert("TransactionType".into(), up(take(b, 2)?));
				},
				0x22 => {
					m.insert("Flags".into(), up(take(b, 4)?));
				},
				0x24 => {
					m.insert("Sequence".into(), up(take(b, 4)?));
				},
				0x68 => {
					m.insert("Fee".into(), up(take(b, 8)?));
				},
				0x73 => {
					m.insert("SigningPubKey".into(), up(vl(b)?));
				},
				0x74 => {
					m.insert("TxnSignature".into(), up(vl(b)?));
				},
				0x7C => {
					m.insert("MemoType".into(), up(vl(b)?));
				},
				0x7D => {
					m.insert("MemoData".into(), up(vl(b)?));
				},
				0x7E => {
					m.insert("MemoFormat".into(), up(vl(b)?));
				},
				0x81 => {
					m.insert("Account".into(), json!(crate::xrpl_types::base58check_encode(0, vl(b)?)));
				},
				0xF9 => {
					let mut a = vec![];
					loop {
						match take(b, 1)?[0] {
							0xF1 => break,
							0xEA => a.push(json!({ "Memo": object(b)? })),
							_ => return Err(Error),
						}
					}
					m.insert("Memos".into(), Value::Array(a));
				},
				_ => return Err(Error),
			}
		}
		Ok(Value::Object(m))
	}
	impl Deserializer {
		pub fn new(_b: Vec<u8>, _i: FieldInfo) -> Self {
			Deserializer
		}
		pub fn to_json(&mut self, _t: &TypeCode, b: &[u8]) -> Result<Value, Error> {
			object(&mut &b[..])
		}
	}
}
