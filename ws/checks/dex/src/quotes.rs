//! Exhaustive grid for the pricing functions, over the full 128-bit range.
use super::*;
fn grid(rich: bool) -> Vec<u128> {
	let mut v: Vec<u128> = vec![0, 1, 2, 3, 10, 996, 997, 998, 999, 1000, 1001, 1003, 123_456_789, 1 << 32, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 1_000_000_000_000_000_000, 1 << 96, 1 << 120, u128::MAX / 1000, u128::MAX / 997, u128::MAX / 3, u128::MAX / 2, u128::MAX - 1, u128::MAX];
	if rich {
		for s in 1..128 {
			for d in [0u128, 1] {
				v.push((1u128 << s) - d);
			}
		}
		for k in 4..40 {
			v.push(k);
		}
		v.sort();
		v.dedup();
	}
	v
}
fn fits(x: U256) -> u128 {
	if x > u(u128::MAX) {
		u128::MAX
	} else {
		x.as_u128()
	}
}
pub fn run(c: &mut Ctx) {
	let g = grid(c.thorough());
	let small: Vec<u128> = (0..c.pick(28, 60)).collect();
	let mut dom: Vec<(u128, u128, u128)> = vec![];
	for s in [&g, &small] {
		for a in s {
			for b in s {
				for d in s {
					dom.push((*a, *b, *d));
				}
			}
		}
	}
	c.enumerate("price functions", dom.into_iter(), |(amt, ri, ro)| {
		let (amt, ri, ro) = (*amt, *ri, *ro);
		let out = Dex::get_amount_out(amt, ri, ro);
		if amt == 0 || ri == 0 || ro == 0 {
			req!(out.is_err(), "out: a quote was given for empty input or reserves ({amt},{ri},{ro})");
		} else {
			// 128+128+10 bits exceed 256 only for operands near the top; there the call must fail, not wrap
			let exact = u(amt).checked_mul(u(997)).and_then(|x| x.checked_mul(u(ro)));
			match (exact, &out) {
				(Some(n), Ok(o)) => {
					let d = u(ri) * u(1000) + u(amt) * u(997);
					req!(u(*o) == n / d, "out: ({amt},{ri},{ro}) quoted {o}, exact {}", n / d);
					req!(*o < ro, "out: ({amt},{ri},{ro}) pays out the whole reserve");
				},
				(Some(_), Err(e)) => return Err(format!("out: ({amt},{ri},{ro}) refused with {e:?}")),
				(None, Ok(o)) => return Err(format!("out: ({amt},{ri},{ro}) overflowed to {o}")),
				(None, Err(_)) => {},
			}
		}
		let inn = Dex::get_amount_in(amt, ri, ro);
		if amt == 0 || ri == 0 || ro == 0 || amt >= ro {
			req!(inn.is_err(), "in: a quote was given for an impossible request ({amt},{ri},{ro}): {inn:?}");
		} else {
			let exact = u(ri).checked_mul(u(amt)).and_then(|x| x.checked_mul(u(1000)));
			match (exact, &inn) {
				(Some(n), Ok(i)) => {
					let d = u(ro - amt) * u(997);
					req!(*i == fits(n / d + u(1)), "in: ({amt},{ri},{ro}) quoted {i}, exact {}", n / d + u(1));
					// paying the quote buys at least the requested amount
					if *i < u128::MAX {
						if let Ok(o) = Dex::get_amount_out(*i, ri, ro) {
							req!(o >= amt, "in: paying the quoted {i} for {amt} yields only {o} ({ri},{ro})");
						}
					}
				},
				(Some(_), Err(e)) => return Err(format!("in: ({amt},{ri},{ro}) refused with {e:?}")),
				(None, Ok(i)) => return Err(format!("in: ({amt},{ri},{ro}) overflowed to {i}")),
				(None, Err(_)) => {},
			}
		}
		// proportional quote
		let q = Dex::quote(u(amt), ri, ro);
		if amt == 0 || ri == 0 || ro == 0 {
			req!(q.is_err(), "quote: given for empty input or reserves");
		} else {
			req!(q.map_err(|e| format!("quote: refused {e:?}"))? == u(amt) * u(ro) / u(ri), "quote: ({amt},{ri},{ro}) is not proportional");
		}
		Ok(format!("out {} in {}", out.is_ok(), inn.is_ok()))
	});
	c.enumerate("pair addresses", (0u32..c.pick(60, 400)).flat_map(|a| (0u32..400).map(move |b| (a.wrapping_mul(0x01000193), b.wrapping_mul(0x9e3779b1)))), |(a, b)| {
		let (p, q) = (TradingPair::new(*a, *b), TradingPair::new(*b, *a));
		req!(p == q, "pair: ({a},{b}) depends on the order of its assets");
		let w: AccountId = p.pool_address();
		let bytes: [u8; 20] = w.into();
		let mut e = vec![0xdd; 4];
		e.extend(a.min(b).to_be_bytes());
		e.extend(a.max(b).to_be_bytes());
		e.extend([0; 8]);
		req!(bytes[..] == e[..], "pair: ({a},{b}) pool address {bytes:?}");
		Ok("ok".into())
	});
}
#[allow(unused)]
type Unused = BTreeMap<u8, u8>;
