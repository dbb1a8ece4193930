//! Real records covering every type and the boundaries of their fields.
use dnssec_prover::rr::*;

pub fn name(s: &str) -> Name { s.try_into().unwrap() }
fn long(ls: &[usize]) -> String { ls.iter().map(|l| "abcdefghij".repeat(7)[..*l].to_string() + ".").collect() }
pub fn names() -> Vec<Name> {
	let mut v: Vec<String> = vec![".".into(), "a.".into(), "ExAmple.COM.".into(), "*.a.b.".into(), "_443._tcp.X-1.z.".into(), "a\\b.!#$%&'.()+,.".into()];
	v.push(long(&[63])); v.push(long(&[63, 63, 63, 61])); v.push(long(&[1; 127])); v.push(long(&[62, 1, 63, 2, 60]));
	v.into_iter().map(|s| name(&s)).collect()
}
fn bytes(n: usize, seed: usize) -> Vec<u8> { (0..n).map(|i| (i * 7 + seed * 31 + (i >> 8)) as u8).collect() }

/// `big`: also records of the largest sizes.
pub fn records(big: bool) -> Vec<RR> {
	let mut v: Vec<RR> = Vec::new();
	let ns = names();
	let n0 = name("Host.Example.");
	for n in &ns { v.push(A { name: n.clone(), address: [1, 2, 3, 4] }.into()); }
	for b in [[0u8; 4], [255; 4], [0, 255, 1, 128]] { v.push(A { name: n0.clone(), address: b }.into()); }
	for b in [[0u8; 16], [255; 16], *b"0123456789abcdef"] { v.push(AAAA { name: n0.clone(), address: b }.into()); }
	for n in &ns {
		v.push(NS { name: n0.clone(), name_server: n.clone() }.into());
		v.push(CName { name: n0.clone(), canonical_name: n.clone() }.into());
		v.push(DName { name: n.clone(), delegation_name: n.clone() }.into());
		v.push(NSec { name: n0.clone(), next_name: n.clone(), types: NSecTypeMask::from_types(&[1, 46, 47, 65535]) }.into());
		v.push(RRSig { name: n.clone(), ty: 16, alg: 13, labels: n.labels(), orig_ttl: 3600, expiration: 2, inception: 1, key_tag: 77, key_name: n.clone(), signature: bytes(64, 1) }.into());
	}
	for l in [0usize, 1, 2, 3, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1000] { v.push(Txt { name: n0.clone(), data: bytes(l, l) }.into()); }
	v.push(Txt { name: n0.clone(), data: vec![0; 10] }.into());
	v.push(Txt { name: n0.clone(), data: b"quotes \" and \\ and \x7f\xff".to_vec() }.into());
	for l in [0usize, 1, 32, 48, 64, 255, 256, 600] {
		v.push(TLSA { name: n0.clone(), cert_usage: l as u8, selector: 255, data_ty: 0, data: bytes(l, 2) }.into());
		v.push(DnsKey { name: n0.clone(), flags: 257 + l as u16 * 100, protocol: 3, alg: 255, pubkey: bytes(l, 3) }.into());
		v.push(DS { name: n0.clone(), key_tag: 65535 - l as u16, alg: 0, digest_type: 255, digest: bytes(l, 4) }.into());
		v.push(RRSig { name: n0.clone(), ty: 65535, alg: 255, labels: 0, orig_ttl: u32::MAX, expiration: 0, inception: u32::MAX, key_tag: 0, key_name: name("."), signature: bytes(l, 5) }.into());
	}
	let all: Vec<u16> = (0..=65535).collect();
	let masks: Vec<Vec<u16>> = vec![vec![], vec![0], vec![1, 15, 46, 47], vec![255], vec![256], vec![1, 257, 65535], (0..256).collect(), (0..2000).map(|i| i * 32).collect(), all];
	for m in &masks {
		v.push(NSec { name: n0.clone(), next_name: name("z."), types: NSecTypeMask::from_types(m) }.into());
		v.push(NSec3 { name: n0.clone(), hash_algo: 1, flags: 1, hash_iterations: 65535, salt: bytes(8, 1), next_name_hash: bytes(20, 1), types: NSecTypeMask::from_types(m) }.into());
	}
	for (s, h) in [(0usize, 20usize), (1, 0), (255, 255), (0, 1), (128, 32)] {
		v.push(NSec3 { name: n0.clone(), hash_algo: s as u8, flags: h as u8, hash_iterations: 256 + s as u16, salt: bytes(s, 6), next_name_hash: bytes(h, 7), types: NSecTypeMask::from_types(&[2, 43]) }.into());
	}
	if big {
		for l in [65535 - 257usize, 65535 - 258, 65280 - 256, 32768, 65025] { v.push(Txt { name: n0.clone(), data: bytes(l, 8) }.into()); }
		for l in [65535 - 4usize, 65534 - 4, 32764] {
			v.push(DnsKey { name: n0.clone(), flags: 0, protocol: 0, alg: 0, pubkey: bytes(l, 9) }.into());
			v.push(DS { name: n0.clone(), key_tag: 0, alg: 1, digest_type: 2, digest: bytes(l, 9) }.into());
			v.push(TLSA { name: n0.clone(), cert_usage: 0, selector: 0, data_ty: 0, data: bytes(l + 1, 9) }.into());
		}
		v.push(RRSig { name: n0.clone(), ty: 1, alg: 1, labels: 1, orig_ttl: 1, expiration: 1, inception: 1, key_tag: 1, key_name: name("x."), signature: bytes(65535 - 21, 1) }.into());
		let lx = ns[7].clone();
		let n = 65535 - 18 - lx.as_str().len() - 1;
		v.push(RRSig { name: lx.clone(), ty: 1, alg: 1, labels: 1, orig_ttl: 1, expiration: 1, inception: 1, key_tag: 1, key_name: lx, signature: bytes(n, 1) }.into());
	}
	v
}
