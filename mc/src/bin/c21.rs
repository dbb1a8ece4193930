//! C21: QueryBuf against a byte vector, over all operation sequences.
use dnssec_prover::query::QueryBuf;
use model::*;

const NEW: [u16; 15] = [0, 1, 2, 31, 32, 33, 2046, 2047, 2048, 2049, 2050, 4096, 65533, 65534, 65535];
const EXT: [usize; 16] = [0, 1, 2, 3, 31, 32, 33, 2046, 2047, 2048, 2049, 4096, 32768, 63487, 63488, 65535];
const OVER: [usize; 6] = [65535, 65536, 65537, 70_000, 131_072, 200_000];

fn pat(seed: u32, n: usize) -> Vec<u8> { (0..n).map(|i| ((i as u32).wrapping_mul(167).wrapping_add(seed * 59 + 1) >> 1) as u8 | 1).collect() }

/// Everything observable about a buffer, against the vector.
fn same(b: &QueryBuf, v: &[u8]) -> Result<(), Bad> {
	if b.len() != v.len() { return bad("len", format!("len {} instead of {}", b.len(), v.len())); }
	if &b[..] != v { let i = (0..v.len()).find(|i| b[*i] != v[*i]).unwrap(); return bad("content", format!("byte {} of {} is {} instead of {}", i, v.len(), b[i], v[i])); }
	Ok(())
}
fn deep(b: &QueryBuf, v: &[u8]) -> Result<(), Bad> {
	same(b, v)?;
	let c = b.clone();
	same(&c, v)?;
	if *b != c || c != *b { return bad("clone-eq", "a clone differs from the original"); }
	// A buffer with equal contents, made another way, is equal; any other contents are not.
	let mut other = QueryBuf::new_zeroed(v.len() as u16);
	other.copy_from_slice(v);
	if *b != other || other != *b { return bad("eq", format!("buffers with equal contents ({} bytes) are not equal", v.len())); }
	let mut grown = QueryBuf::new_zeroed(0);
	for ch in v.chunks(1500) { grown.extend_from_slice(ch); }
	same(&grown, v)?;
	if *b != grown || grown != *b { return bad("eq", format!("buffers with equal contents ({} bytes) are not equal", v.len())); }
	for i in [0, v.len() / 2, v.len().wrapping_sub(1)] {
		if i >= v.len() { continue; }
		other[i] ^= 0x80;
		if *b == other || other == *b { return bad("ne", format!("buffers that differ in byte {} of {} are equal", i, v.len())); }
		other[i] ^= 0x80;
	}
	if v.len() < 65535 {
		let mut longer = other.clone();
		longer.extend_from_slice(&[0]);
		if *b == longer || longer == *b { return bad("ne", "buffers of different lengths are equal"); }
	}
	let iv = c.into_vec();
	if iv != v { return bad("into_vec", format!("into_vec gives {} bytes, or other contents, for {}", iv.len(), v.len())); }
	Ok(())
}

fn main() {
	let mc = Mc::new("C21");
	let depth = mc.tier(3, 4);
	mc.explore("operation sequences", usize::MAX, |ch| {
		let n = *ch.pick(&NEW);
		ch.note(|| format!("new_zeroed({})", n));
		let mut b = QueryBuf::new_zeroed(n);
		let mut v = vec![0u8; n as usize];
		deep(&b, &v)?;
		for step in 0..depth {
			match ch.choose(if step == 0 { 4 } else { 5 }) {
				0 => {
					let k = *ch.pick(&EXT);
					let s = pat(step, k);
					ch.note(|| format!("extend {} bytes", k));
					if v.len() + k > 65535 {
						// Beyond the limit only absence of panics is promised.
						b.extend_from_slice(&s);
						let k2 = *ch.pick(&[1usize, 2048, 65535]);
						b.extend_from_slice(&pat(9, k2));
						return Ok("beyond the limit");
					}
					b.extend_from_slice(&s);
					v.extend_from_slice(&s);
				},
				1 => {
					// Writes through DerefMut.
					if v.is_empty() { b.copy_from_slice(&[]); } else {
						let i = *ch.pick(&[0, v.len() / 2, v.len() - 1]);
						ch.note(|| format!("write byte {}", i));
						b[i] = 0xa5 ^ step as u8; v[i] = 0xa5 ^ step as u8;
					}
				},
				2 => {
					ch.note(|| "fill".into());
					let s = pat(step + 7, v.len());
					b.copy_from_slice(&s); v.copy_from_slice(&s);
				},
				3 => {
					// Carry on with the clone; changing it leaves the original alone.
					ch.note(|| "clone".into());
					let mut c = b.clone();
					if !v.is_empty() { c[0] ^= 0xff; same(&b, &v)?; c[0] ^= 0xff; }
					if v.len() < 65535 { let mut d = b.clone(); d.extend_from_slice(&[7]); same(&b, &v)?; }
					b = c;
				},
				_ => { return Ok("ok"); },
			}
			deep(&b, &v)?;
		}
		Ok("ok")
	});
	mc.explore("beyond 65535 bytes", usize::MAX, |ch| {
		let n = *ch.pick(&NEW);
		let mut b = QueryBuf::new_zeroed(n);
		for _ in 0..3 {
			let k = *ch.pick(&OVER);
			ch.note(|| format!("extend a buffer of {} by {}", b.len(), k));
			b.extend_from_slice(&pat(1, k));
		}
		Ok("no panic")
	});
	// Every length, by construction and by growth one byte at a time.
	mc.range("every length", 65536, |i, ch| {
		let i = i as usize;
		ch.note(|| format!("length {}", i));
		let v = pat(3, i);
		let mut b = QueryBuf::new_zeroed(i as u16);
		if b.iter().any(|x| *x != 0) || b.len() != i { return bad("zeroed", format!("new_zeroed({}) is not {} zero bytes", i, i)); }
		b.copy_from_slice(&v);
		same(&b, &v)?;
		let mut g = QueryBuf::new_zeroed(0);
		let cut = i / 2;
		g.extend_from_slice(&v[..cut]);
		g.extend_from_slice(&v[cut..]);
		same(&g, &v)?;
		if g != b { return bad("eq", format!("equal contents of {} bytes compare unequal", i)); }
		if g.into_vec() != v { return bad("into_vec", format!("{} bytes", i)); }
		Ok("ok")
	});
	mc.single("byte by byte", |_| {
		let mut b = QueryBuf::new_zeroed(0);
		let mut v = Vec::new();
		for i in 0..5000u32 { b.extend_from_slice(&[i as u8 | 1]); v.push(i as u8 | 1); same(&b, &v)?; }
		Ok("ok")
	});
	mc.finish()
}
