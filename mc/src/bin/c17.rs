//! C17: JSON of records, read back with our own strict parser.
use dnssec_prover::rr::*;
use glue::jsoncheck::check;
use glue::samples::*;
use model::wire;
use model::*;

fn txt(d: Vec<u8>) -> RR { Txt { name: name("t."), data: d }.into() }
/// The same names and bytes through a record of every type.
fn everywhere(nm: &Name, d: &[u8], x: u32) -> Vec<RR> {
	let (a, b, c) = (x as u16, x as u8, (x >> 8) as u8);
	let m = NSecTypeMask::from_types(&[a]);
	vec![
		A { name: nm.clone(), address: x.to_be_bytes() }.into(),
		AAAA { name: nm.clone(), address: [b, c, b, c, 0, 1, 2, 3, b, b, b, b, c, c, c, c] }.into(),
		NS { name: nm.clone(), name_server: nm.clone() }.into(), CName { name: nm.clone(), canonical_name: nm.clone() }.into(), DName { name: nm.clone(), delegation_name: nm.clone() }.into(),
		Txt { name: nm.clone(), data: d.to_vec() }.into(), TLSA { name: nm.clone(), cert_usage: b, selector: c, data_ty: b ^ c, data: d.to_vec() }.into(),
		DnsKey { name: nm.clone(), flags: a, protocol: b, alg: c, pubkey: d.to_vec() }.into(), DS { name: nm.clone(), key_tag: a, alg: b, digest_type: c, digest: d.to_vec() }.into(),
		RRSig { name: nm.clone(), ty: a, alg: b, labels: c, orig_ttl: x, expiration: !x, inception: x.rotate_left(9), key_tag: !a, key_name: nm.clone(), signature: d.to_vec() }.into(),
		NSec { name: nm.clone(), next_name: nm.clone(), types: m.clone() }.into(),
		NSec3 { name: nm.clone(), hash_algo: b, flags: c, hash_iterations: a, salt: d[..d.len().min(255)].to_vec(), next_name_hash: d[..d.len().min(255)].to_vec(), types: m }.into(),
	]
}

fn main() {
	let mc = Mc::new("C17");
	let all = records(true);
	mc.range("samples of every type", all.len() as u64, |i, ch| { ch.note(|| format!("{:?}", glue::rec_of(&all[i as usize]))); check(&all[i as usize])?; Ok("agrees") });
	mc.range("TXT of one or two bytes", 256 + 65536, |i, ch| {
		let d = if i < 256 { vec![i as u8] } else { ((i - 256) as u16).to_be_bytes().to_vec() };
		ch.note(|| wire::hex(&d));
		check(&txt(d.clone()))?;
		let mut e = b"x".to_vec(); e.extend_from_slice(&d); e.push(b'y');
		check(&txt(e))?;
		Ok("agrees")
	});
	mc.range("TXT of every character", 0x110000, |i, ch| {
		let c = match char::from_u32(i as u32) { Some(c) => c, None => return Ok("not a character") };
		ch.note(|| format!("{:?}", c));
		check(&txt(c.to_string().into_bytes()))?;
		check(&txt(format!("a{}\u{e9}", c).into_bytes()))?;
		Ok("agrees")
	});
	let crit = [0u8, 9, 10, 0x1f, 0x20, b'"', b'\\', b'/', b'u', b'0', b'n', 0x7f, 0x80, 0xc2, 0xa0, 0xe2, 0xf0, 0xff, b'{', b'}'];
	let k = crit.len() as u64;
	for len in 3..=mc.tier(4u32, 5) {
		mc.range(&format!("TXT of {} critical bytes", len), k.pow(len), |i, ch| {
			let d: Vec<u8> = (0..len).map(|j| crit[(i / k.pow(j) % k) as usize]).collect();
			ch.note(|| wire::hex(&d));
			check(&txt(d))?;
			Ok("agrees")
		});
	}
	mc.range("every byte in names, everywhere", 256 * 6, |i, ch| {
		let (b, p) = ((i & 255) as u8 as char, i >> 8);
		let s = match p { 0 => format!("{}.", b), 1 => format!("a{}.", b), 2 => format!("{}n.b.", b), 3 => format!("x.u{}0041.", b), 4 => format!("x.{}{}.", b, b), _ => format!("a.b{}c.{}.", b, b) };
		ch.note(|| s.clone());
		let n = match Name::try_from(s.as_str()) { Ok(n) => n, Err(()) => return Ok("not a name") };
		for r in everywhere(&n, &[1, 0xab], 0x01020304) { check(&r)?; }
		Ok("agrees")
	});
	let na = ['a', '\\', '/', '\'', '.'];
	mc.range("names of six critical characters", 5u64.pow(6), |i, ch| {
		let s: String = (0..6).map(|j| na[(i / 5u64.pow(j) % 5) as usize]).collect::<String>() + ".";
		ch.note(|| s.clone());
		let n = match Name::try_from(s.as_str()) { Ok(n) => n, Err(()) => return Ok("not a name") };
		for r in everywhere(&n, &[0xfe], 7) { check(&r)?; }
		Ok("agrees")
	});
	mc.range("every field value", 65536, |i, ch| {
		ch.note(|| format!("value {}", i));
		let n = name("v.");
		for r in everywhere(&n, &[i as u8, (i >> 8) as u8], (i as u32) << 16 | i as u32 ^ 0x5a5a) { check(&r)?; }
		Ok("agrees")
	});
	mc.range("every data length", 700, |i, ch| {
		ch.note(|| format!("{} bytes", i));
		let d: Vec<u8> = (0..i).map(|j| (j * 37 + i) as u8).collect();
		for r in everywhere(&name("."), &d, i as u32) { check(&r)?; }
		Ok("agrees")
	});
	mc.range("pairs of types", 65536, |i, ch| {
		let (a, b) = ((i & 255) as u16, (i >> 8) as u16);
		ch.note(|| format!("types {} and {}", a, b));
		check(&NSec { name: name("n."), next_name: name("."), types: NSecTypeMask::from_types(&[a, b, b << 8 | 0xff]) }.into())?;
		Ok("agrees")
	});
	mc.finish()
}
