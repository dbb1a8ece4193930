//! C16: comparison of names and records over all pairs and triples of a universe.
use dnssec_prover::rr::*;
use dnssec_prover::ser::write_rr;
use model::wire::*;
use model::*;
use std::cmp::Ordering::{self, *};

fn name(s: &str) -> Name { s.try_into().unwrap() }
/// Comparison through every interface of a pair of one type.
fn ifaces<T: Ord>(a: &T, b: &T, what: &dyn Fn() -> String) -> Result<Ordering, Bad> {
	let c = a.cmp(b);
	let same = [a.partial_cmp(b) == Some(c), (a < b) == (c == Less), (a <= b) == (c != Greater), (a > b) == (c == Greater), (a >= b) == (c != Less),
		(a == b) == (c == Equal), (a != b) == (c != Equal), b.cmp(a) == c.reverse(),
		std::ptr::eq(a.max(b), if c == Greater { a } else { b }), std::ptr::eq(a.min(b), if c == Greater { b } else { a })];
	if let Some(i) = same.iter().position(|x| !*x) {
		return bad("interfaces", format!("{}: cmp gives {:?}; {} says otherwise", what(), c, ["partial_cmp", "<", "<=", ">", ">=", "==", "!=", "the reverse cmp", "max", "min"][i]));
	}
	Ok(c)
}
fn txt(n: &str, d: &[u8]) -> RR { Txt { name: name(n), data: d.to_vec() }.into() }
fn inner(a: &RR, b: &RR, what: &dyn Fn() -> String) -> Option<Result<Ordering, Bad>> {
	Some(match (a, b) {
		(RR::A(a), RR::A(b)) => ifaces(a, b, what), (RR::AAAA(a), RR::AAAA(b)) => ifaces(a, b, what), (RR::NS(a), RR::NS(b)) => ifaces(a, b, what),
		(RR::Txt(a), RR::Txt(b)) => ifaces(a, b, what), (RR::TLSA(a), RR::TLSA(b)) => ifaces(a, b, what), (RR::CName(a), RR::CName(b)) => ifaces(a, b, what),
		(RR::DName(a), RR::DName(b)) => ifaces(a, b, what), (RR::DnsKey(a), RR::DnsKey(b)) => ifaces(a, b, what), (RR::DS(a), RR::DS(b)) => ifaces(a, b, what),
		(RR::RRSig(a), RR::RRSig(b)) => ifaces(a, b, what), (RR::NSec(a), RR::NSec(b)) => ifaces(a, b, what), (RR::NSec3(a), RR::NSec3(b)) => ifaces(a, b, what),
		_ => return None,
	})
}
fn universe(thorough: bool) -> Vec<RR> {
	let mut v: Vec<RR> = Vec::new();
	let names = ["a.", "b.", "a.a.", "*.a.", "aa."];
	let mut lens: Vec<usize> = vec![0, 1, 2, 254, 255, 256, 257, 509, 510, 511, 512];
	if thorough { lens.extend([3, 253, 765, 766, 1020]); }
	for n in ["a.", "b."] {
		for l in &lens { for f in [0u8, b'b', 255] {
			let mut d = vec![f; *l];
			v.push(txt(n, &d));
			if *l > 0 { d[l - 1] ^= 1; v.push(txt(n, &d)); }
			if *l > 255 { d[l - 1] ^= 1; d[254] ^= 1; v.push(txt(n, &d)); }
		} }
	}
	for n in names {
		for x in [0u8, 1, 255] {
			v.push(A { name: name(n), address: [x, 1, 1, x] }.into());
			v.push(AAAA { name: name(n), address: [x; 16] }.into());
			v.push(TLSA { name: name(n), cert_usage: x, selector: 1, data_ty: 1, data: vec![x; 2] }.into());
			v.push(DnsKey { name: name(n), flags: 256 + x as u16, protocol: 3, alg: 13, pubkey: vec![x, 2] }.into());
			v.push(DS { name: name(n), key_tag: 7, alg: 13, digest_type: x, digest: vec![x; 2] }.into());
		}
		for t in ["a.", "aa.", "b.a."] {
			v.push(NS { name: name(n), name_server: name(t) }.into());
			v.push(CName { name: name(n), canonical_name: name(t) }.into());
			v.push(DName { name: name(n), delegation_name: name(t) }.into());
			v.push(NSec { name: name(n), next_name: name(t), types: NSecTypeMask::from_types(&[1, 46]) }.into());
			v.push(NSec3 { name: name(n), hash_algo: 1, flags: 0, hash_iterations: 1, salt: vec![1], next_name_hash: name(t).as_bytes().to_vec(), types: NSecTypeMask::new() }.into());
			v.push(RRSig { name: name(n), ty: 16, alg: 13, labels: 1, orig_ttl: 5, expiration: 9, inception: 3, key_tag: 4, key_name: name(t), signature: vec![1] }.into());
		}
	}
	// One field apart each.
	let n = name("f.");
	let k = DnsKey { name: n.clone(), flags: 256, protocol: 3, alg: 13, pubkey: vec![1] };
	v.push(k.clone().into());
	for i in 0..5 { let mut x = k.clone(); match i { 0 => x.flags = 257, 1 => x.protocol = 2, 2 => x.alg = 8, 3 => x.pubkey = vec![1, 0], _ => x.pubkey = vec![] } v.push(x.into()); }
	let k = DS { name: n.clone(), key_tag: 7, alg: 13, digest_type: 2, digest: vec![1] };
	v.push(k.clone().into());
	for i in 0..5 { let mut x = k.clone(); match i { 0 => x.key_tag = 8, 1 => x.alg = 8, 2 => x.digest_type = 1, 3 => x.digest = vec![1, 0], _ => x.digest = vec![] } v.push(x.into()); }
	let k = TLSA { name: n.clone(), cert_usage: 3, selector: 1, data_ty: 1, data: vec![1] };
	v.push(k.clone().into());
	for i in 0..5 { let mut x = k.clone(); match i { 0 => x.cert_usage = 2, 1 => x.selector = 0, 2 => x.data_ty = 0, 3 => x.data = vec![], _ => x.data = vec![1, 0] } v.push(x.into()); }
	let k = RRSig { name: n.clone(), ty: 16, alg: 13, labels: 1, orig_ttl: 5, expiration: 9, inception: 3, key_tag: 4, key_name: n.clone(), signature: vec![1] };
	v.push(k.clone().into());
	for i in 0..9 { let mut x = k.clone(); match i { 0 => x.ty = 1, 1 => x.alg = 8, 2 => x.labels = 0, 3 => x.orig_ttl = 4, 4 => x.expiration = 10, 5 => x.inception = 2, 6 => x.key_tag = 5, 7 => x.key_name = name("."), _ => x.signature = vec![1, 0] } v.push(x.into()); }
	let k = NSec { name: n.clone(), next_name: n.clone(), types: NSecTypeMask::from_types(&[1]) };
	v.push(k.clone().into());
	for t in [&[][..], &[0], &[2], &[65535], &[1, 65535], &[255], &[256]] { let mut x = k.clone(); x.types = NSecTypeMask::from_types(t); v.push(x.into()); }
	let k = NSec3 { name: n.clone(), hash_algo: 1, flags: 0, hash_iterations: 1, salt: vec![1], next_name_hash: vec![1], types: NSecTypeMask::new() };
	v.push(k.clone().into());
	for i in 0..7 { let mut x = k.clone(); match i { 0 => x.hash_algo = 2, 1 => x.flags = 1, 2 => x.hash_iterations = 256, 3 => x.salt = vec![], 4 => x.salt = vec![1, 0], 5 => x.next_name_hash = vec![], _ => x.types = NSecTypeMask::from_types(&[46]) } v.push(x.into()); }
	v.dedup();
	v
}

fn main() {
	let mc = Mc::new("C16");
	let u = universe(mc.tier(false, true));
	let n = u.len();
	let models: Vec<Rec> = u.iter().map(glue::rec_of).collect();
	let rdata: Vec<Vec<u8>> = u.iter().map(|r| { let mut o = Vec::new(); r.write_u16_len_prefixed_data(&mut o); o[2..].to_vec() }).collect();
	mc.measured("records in the universe", n);
	mc.range("all pairs", (n * n) as u64, |i, ch| {
		let (x, y) = (i as usize / n, i as usize % n);
		let (a, b) = (&u[x], &u[y]);
		let what = || format!("{:?} and {:?}", models[x], models[y]);
		ch.note(what);
		let c = ifaces(a, b, &what)?;
		if (c == Equal) != (models[x] == models[y]) { return bad("equality", format!("{} compare {:?}", what(), c)); }
		if let Some(r) = inner(a, b, &what) { if r? != c { return bad("enum", format!("{} compare differently as RR and as their own type", what())); } }
		if let (RR::Txt(a), RR::Txt(b)) = (a, b) {
			let (mut wa, mut wb) = (Vec::new(), Vec::new());
			write_rr(a, 0, &mut wa); write_rr(b, 0, &mut wb);
			if a.name == b.name && c != models[x].rdata.cmp(&models[y].rdata) { return bad("txt", format!("{} ({} and {} bytes) compare {:?}, their wire data {:?}", what(), a.data.len(), b.data.len(), c, models[x].rdata.cmp(&models[y].rdata))); }
			if a.name == b.name && c != rdata[x].cmp(&rdata[y]) { return bad("txt", format!("{} compare {:?}, their written data {:?}", what(), c, rdata[x].cmp(&rdata[y]))); }
			let as_dyn = (RR::from(a.clone())).cmp(&RR::from(b.clone()));
			if as_dyn != c { return bad("enum", "cloned records compare differently"); }
		}
		Ok(match c { Less => "less", Equal => "equal", Greater => "greater" })
	});
	let cmp: Vec<Ordering> = (0..n * n).map(|i| std::panic::catch_unwind(|| u[i / n].cmp(&u[i % n])).unwrap_or(Equal)).collect();
	mc.range("all triples", (n * n) as u64, |i, ch| {
		let (x, y) = (i as usize / n, i as usize % n);
		for z in 0..n {
			if cmp[x * n + y] != Greater && cmp[y * n + z] != Greater {
				let want = if cmp[x * n + y] == Equal && cmp[y * n + z] == Equal { Equal } else { Less };
				if cmp[x * n + z] != want {
					ch.note(|| format!("{:?}, {:?}, {:?}", models[x], models[y], models[z]));
					return bad("transitivity", format!("{:?} <= {:?} <= {:?}, but the first and last compare {:?}", models[x], models[y], models[z], cmp[x * n + z]));
				}
			}
		}
		Ok("transitive")
	});
	mc.add_counts(0, (n * n * n) as u64, 0);
	// TXT pairs densely around the chunk boundaries: every pair of lengths, differing in every critical place.
	mc.range("TXT lengths", 520 * 520, |i, ch| {
		let (la, lb) = ((i / 520) as usize, (i % 520) as usize);
		ch.note(|| format!("TXT of {} and {} bytes", la, lb));
		for (f, g) in [(b'm', b'm'), (b'a', b'z'), (0, 255), (255, 0)] {
			let (a, b) = (vec![f; la], vec![g; lb]);
			let want = txt_rdata(&a).cmp(&txt_rdata(&b));
			let (a, b) = (Txt { name: name("a."), data: a }, Txt { name: name("a."), data: b });
			let c = ifaces(&a, &b, &|| format!("TXT of {} and {} bytes ({} and {})", la, lb, f, g))?;
			if c != want { return bad("txt", format!("TXT of {} bytes {} and {} bytes {} compare {:?} instead of {:?}", la, f, lb, g, c, want)); }
		}
		Ok("ok")
	});
	mc.range("TXT differing in one byte", 520, |i, ch| {
		let l = i as usize;
		ch.note(|| format!("TXT of {} bytes", l));
		for p in 0..l {
			let a = vec![7u8; l];
			let mut b = a.clone();
			b[p] = 8;
			for (x, y) in [(&a, &b), (&b, &a)] {
				let c = ifaces(&Txt { name: name("a."), data: x.clone() }, &Txt { name: name("a."), data: y.clone() }, &|| format!("TXT of {} bytes differing at {}", l, p))?;
				if c != txt_rdata(x).cmp(&txt_rdata(y)) { return bad("txt", format!("TXT of {} bytes differing at {} compare {:?}", l, p, c)); }
			}
			if p % 16 == 0 { let mut c = b.clone(); c.push(0); if l >= 1 { let o = Txt { name: name("a."), data: b.clone() }.cmp(&Txt { name: name("a."), data: c.clone() }); if o != txt_rdata(&b).cmp(&txt_rdata(&c)) { return bad("txt", "prefix order"); } } }
		}
		Ok("ok")
	});
	// Long TXTs: equal up to a byte at or beside every chunk boundary, and one ending there.
	for (label, long, starts) in [("long TXT", mc.tier(5_200, 65_279), (0..=mc.tier(5_200, 65_279) / 255).collect::<Vec<usize>>()), ("the longest TXT", 65_279usize, vec![1, 8, 16, 64, 127, 128, 129, 200, 253, 254, 255, 256])] {
	mc.range(label, starts.len() as u64, |i, ch| {
		let at = starts[i as usize] * 255;
		ch.note(|| format!("TXT differing around byte {}", at));
		let base: Vec<u8> = (0..long).map(|j| (j % 251) as u8).collect();
		let mut all: Vec<Vec<u8>> = vec![base.clone()];
		for p in [at.wrapping_sub(2), at.wrapping_sub(1), at, at + 1, at + 100] {
			if p >= long { continue; }
			let mut d = base.clone();
			d[p] ^= 0x80;
			all.push(d.clone());
			d.truncate(p + 1);
			all.push(d);
			all.push(base[..p].to_vec());
			all.push(base[..p + 1].to_vec());
		}
		let rrs: Vec<Txt> = all.iter().map(|d| Txt { name: name("a."), data: d.clone() }).collect();
		let wires: Vec<Vec<u8>> = all.iter().map(|d| txt_rdata(d)).collect();
		for x in 0..all.len() { for y in 0..all.len() {
			let c = ifaces(&rrs[x], &rrs[y], &|| format!("TXT of {} and {} bytes around byte {}", all[x].len(), all[y].len(), at))?;
			if c != wires[x].cmp(&wires[y]) { return bad("txt", format!("TXT of {} and {} bytes which differ around byte {} compare {:?}", all[x].len(), all[y].len(), at, c)); }
		} }
		Ok("ok")
	});
	}
	// Long fields of the other types: records that differ in one byte of them are not equal.
	mc.range("long fields", 9, |i, ch| {
		let f = i as usize;
		let make = |d: Vec<u8>| -> RR { let n = name("f."); match f {
			0 => DnsKey { name: n, flags: 256, protocol: 3, alg: 13, pubkey: d }.into(),
			1 => dnssec_prover::rr::DS { name: n, key_tag: 7, alg: 13, digest_type: 2, digest: d }.into(),
			2 => dnssec_prover::rr::TLSA { name: n, cert_usage: 3, selector: 1, data_ty: 1, data: d }.into(),
			3 => RRSig { name: n.clone(), ty: 16, alg: 13, labels: 1, orig_ttl: 5, expiration: 9, inception: 3, key_tag: 4, key_name: n, signature: d }.into(),
			4 => NSec3 { name: n, hash_algo: 1, flags: 0, hash_iterations: 1, salt: d, next_name_hash: vec![1], types: NSecTypeMask::new() }.into(),
			5 => NSec3 { name: n, hash_algo: 1, flags: 0, hash_iterations: 1, salt: vec![], next_name_hash: d, types: NSecTypeMask::new() }.into(),
			6 => dnssec_prover::rr::AAAA { name: n, address: d[..16].try_into().unwrap() }.into(),
			7 => dnssec_prover::rr::A { name: n, address: d[..4].try_into().unwrap() }.into(),
			_ => Txt { name: n, data: d }.into(),
		} };
		let len = match f { 4 | 5 => 255, 6 => 16, 7 => 4, _ => 2100 };
		ch.note(|| format!("field {}", f));
		let a = make(vec![7; len]);
		for p in 0..len {
			let mut d = vec![7; len];
			d[p] = 8;
			let b = make(d.clone());
			if ifaces(&a, &b, &|| format!("field {} differing at {}", f, p))? == Equal { return bad("equality", format!("records whose field differs at byte {} compare as equal", p)); }
			d[p] = 6;
			let c = make(d);
			if c.cmp(&b) == Equal || (c.cmp(&a) == Greater && a.cmp(&b) == Greater && c.cmp(&b) != Greater) || (c.cmp(&a) == Less && a.cmp(&b) == Less && c.cmp(&b) != Less) { return bad("transitivity", format!("records whose field differs at byte {}", p)); }
		}
		Ok("ok")
	});
	// Every type of a mask counts.
	mc.range("type masks", 65_536, |i, ch| {
		ch.note(|| format!("type {}", i));
		let with = NSecTypeMask::from_types(&[1, i as u16]);
		let without = NSecTypeMask::from_types(&[1]);
		let c = ifaces(&with, &without, &|| format!("masks with and without type {}", i))?;
		if (c == Equal) != (i == 1) { return bad("equality", format!("masks with and without type {} compare {:?}", i, c)); }
		Ok("ok")
	});
	// Sorting does not depend on the order of the input.
	mc.explore("sorting every permutation", usize::MAX, |ch| {
		let pool = ch.choose(n / 5);
		let set: Vec<RR> = (0..5).map(|k| u[(pool + k * (n / 5)) % n].clone()).collect();
		let mut want = set.clone();
		want.sort();
		let p = ch.permutation(5);
		let mut v: Vec<RR> = p.iter().map(|k| set[*k].clone()).collect();
		let b: std::collections::BTreeSet<RR> = v.iter().cloned().collect();
		v.sort_unstable();
		if v != want { return bad("sorting", "the sorted order depends on the input order"); }
		want.dedup();
		if b.into_iter().collect::<Vec<_>>() != want { return bad("sorting", "a BTreeSet orders differently"); }
		Ok("ok")
	});
	let mut names: Vec<Name> = Vec::new();
	for l in 1..=4u32 { for i in 0..4u64.pow(l) { let s: String = (0..l).map(|j| ['a', 'b', '.', '*'][(i / 4u64.pow(j) % 4) as usize]).collect::<String>(); if let Ok(n) = Name::try_from(s) { names.push(n); } } }
	for s in ["A.", "B.a.", "Ab.", "z.Z."] { names.push(name(s)); }
	let m = names.len();
	mc.range("names", (m * m) as u64, |i, ch| {
		let (a, b) = (&names[i as usize / m], &names[i as usize % m]);
		ch.note(|| format!("{} and {}", a, b));
		let c = ifaces(a, b, &|| format!("{} and {}", a, b))?;
		if (c == Equal) != (a.as_str() == b.as_str()) { return bad("equality", format!("{} and {} compare {:?}", a, b, c)); }
		for z in &names { if c == Less && b.cmp(z) != Greater && a.cmp(z) != Less { return bad("transitivity", format!("{} < {} <= {}", a, b, z)); } }
		Ok("ok")
	});
	// Long names that differ in one character, anywhere, or in length.
	let longs: Vec<Vec<u8>> = vec![(0..250).map(|i| if i % 2 == 1 { b'.' } else { b'm' }).collect(), (0..252).map(|i| if i % 63 == 62 { b'.' } else { b'm' }).collect(), { let mut v = vec![b'm'; 61]; v.push(b'.'); v.extend(b"m."); v }];
	mc.range("long names", longs.len() as u64 * 126, |i, ch| {
		let base = &longs[i as usize / 126];
		let at = 2 * (i as usize % 126);
		if at >= base.len() || base[at] == b'.' { return Ok("no such place"); }
		let with = |f: &dyn Fn(&mut Vec<u8>)| { let mut b = base.clone(); f(&mut b); Name::try_from(String::from_utf8(b).unwrap()) };
		let mut all: Vec<Name> = Vec::new();
		for c in [b'a', b'l', b'm', b'n', b'-', b'*', b'0', b'~'] { all.extend(with(&|b| b[at] = c)); }
		for e in [1, 2] { all.extend(with(&|b| { b.drain(0..e.min(at)); })); all.extend(with(&|b| { b.drain(at..at + 1); })); }
		all.extend(with(&|b| b.insert(at, b'm')));
		all.extend(with(&|b| b[at] = b'M'));
		ch.note(|| format!("{:?}", all));
		for a in &all { for b in &all {
			let c = ifaces(a, b, &|| format!("{} and {}", a, b))?;
			if (c == Equal) != (a.as_str() == b.as_str()) { return bad("equality", format!("{} and {} compare {:?}", a, b, c)); }
			for z in &all { if c == Less && b.cmp(z) != Greater && a.cmp(z) != Less { return bad("transitivity", format!("{} < {} <= {}", a, b, z)); } }
			// Records that hold them, as owner or as target.
			let (x, y): (Vec<RR>, Vec<RR>) = { let f = |n: &Name| -> Vec<RR> { vec![dnssec_prover::rr::A { name: n.clone(), address: [1; 4] }.into(), CName { name: name("f."), canonical_name: n.clone() }.into(), RRSig { name: name("f."), ty: 16, alg: 13, labels: 1, orig_ttl: 5, expiration: 9, inception: 3, key_tag: 4, key_name: n.clone(), signature: vec![1] }.into()] }; (f(a), f(b)) };
			for (x, y) in x.iter().zip(&y) { let d = ifaces(x, y, &|| format!("{:?} and {:?}", x, y))?; if (d == Equal) != (c == Equal) { return bad("equality", format!("{:?} and {:?} compare {:?}", x, y, d)); } }
		} }
		Ok("ok")
	});
	mc.finish()
}
