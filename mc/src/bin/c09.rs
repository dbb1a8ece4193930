//! C09: weak or unknown algorithms never downgrade a validation.
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

const SUPPORTED: [u8; 5] = [8, 10, 13, 14, 15];
struct Ds { tag: u16, alg: u8, dt: u8, digest: Vec<u8> }
fn ds_of(r: &Rec) -> Ds { let d = &r.rdata; Ds { tag: (d[0] as u16) << 8 | d[1] as u16, alg: d[2], dt: d[3], digest: d[4..].to_vec() } }
/// Whether the DS set vouches for the key (a correct SHA-384 digest may be used or not).
fn vouched(set: &[Ds], k: &Key, zone: &Nm, sha384: bool) -> bool {
	let strong = set.iter().any(|d| d.dt == 2 || d.dt == 4);
	set.iter().any(|d| d.tag == k.tag() && d.alg == k.alg && match d.dt {
		1 => !strong && d.digest == k.digest(zone, 1),
		2 => d.digest == k.digest(zone, 2),
		4 => sha384 && d.digest == k.digest(zone, 4),
		_ => false,
	})
}
fn zone_key(k: &Key) -> bool { k.flags & ZONE != 0 && k.proto == 3 && SUPPORTED.contains(&k.alg) }

/// A zone `z.` with the given DS records and keys, of which some sign its DNSKEY set and one or more the target.
struct Case<'a> { zone: &'a Nm, ds: Vec<Rec>, keys: Vec<&'a Key>, apex: Vec<usize>, leaf: Vec<usize> }
fn proof(c: &Case) -> (Vec<Rec>, Rec) {
	let mut root = Zone::single_key(&Nm::root(), root_ksk());
	let mut z = Zone::single_key(c.zone, c.keys[0].clone());
	z.keys = c.keys.iter().map(|k| (*k).clone()).collect();
	z.ksks = c.apex.clone();
	z.zsks = c.leaf.clone();
	root.delegate(&z.name, &c.ds);
	let t = c.zone.child("t");
	z.add(&t, TXT, txt_rdata(b"data"));
	let mut p = root.apex();
	p.extend(root.signed(&z.name, DS, &z.name));
	p.extend(z.apex());
	p.extend(z.signed(&t, TXT, &t));
	(p, z.recs(&t, TXT, &t).remove(0))
}
fn judge(c: &Case, ch: &mut Chooser) -> Res {
	let (p, target) = proof(c);
	let v = glue::verify(&p);
	let name = c.zone.clone();
	let set: Vec<Ds> = c.ds.iter().map(ds_of).collect();
	ch.note(|| format!("keys {:?}, signing DNSKEYs {:?}, signing data {:?}\n{:#?}\n{:?}", c.keys, c.apex, c.leaf, p, v));
	match v {
		glue::Verdict::Ok { ref idx, .. } => {
			if idx.iter().any(|i| !p[*i].same(&target)) { return bad("foreign", "something else is returned"); }
			if !c.apex.iter().any(|k| zone_key(c.keys[*k]) && vouched(&set, c.keys[*k], &name, true)) { return bad("trusted", format!("keys {:?} trusted although none of those which signed them is vouched for", c.keys)); }
			if !c.leaf.iter().any(|k| zone_key(c.keys[*k])) { return bad("trusted", "data trusted though no proper key signed it"); }
			Ok("accepted")
		},
		glue::Verdict::Unsupported => {
			let known = set.iter().any(|d| matches!(d.dt, 1 | 2 | 4));
			let strong = set.iter().any(|d| matches!(d.dt, 2 | 4));
			if !known { return Ok("unsupported: digest types"); }
			// A usable DS of a supported algorithm: the zone has a key of it, shown or not.
			if set.iter().any(|d| SUPPORTED.contains(&d.alg) && (d.dt == 2 || (d.dt == 1 && !strong))) { return bad("unsupported", "reported as unsupported although the DS set has a key of a supported algorithm"); }
			if !set.iter().any(|d| !SUPPORTED.contains(&d.alg)) { return bad("unsupported", "reported as unsupported although no unsupported algorithm is involved"); }
			Ok("unsupported: algorithms")
		},
		v => Ok(v.class()),
	}
}
/// DS records for a key: right and wrong ones.
fn ds_forms(k: &Key, zone: &Nm, dts: &[u8], wide: bool) -> Vec<Rec> {
	let mut out = Vec::new();
	let mk = |tag: u16, alg: u8, dt: u8, d: Vec<u8>| Rec::new(zone, DS, 3600, ds_rdata(tag, alg, dt, &d));
	for dt in dts {
		let right = k.digest(zone, *dt);
		out.push(mk(k.tag(), k.alg, *dt, right.clone()));
		let mut flip = right.clone();
		flip[0] ^= 1;
		out.push(mk(k.tag(), k.alg, *dt, flip));
		if wide {
			let mut flip = right.clone();
			*flip.last_mut().unwrap() ^= 0x80;
			out.push(mk(k.tag(), k.alg, *dt, flip));
			out.push(mk(k.tag(), k.alg, *dt, right[..right.len() - 1].to_vec()));
			out.push(mk(k.tag(), k.alg, *dt, [&right[..], &[0]].concat()));
			out.push(mk(k.tag(), k.alg, *dt, vec![]));
			out.push(mk(k.tag(), k.alg, *dt, right[..1].to_vec()));
			for other in [1, 2, 4] { if other != *dt { out.push(mk(k.tag(), k.alg, *dt, k.digest(zone, other))); } }
			// The digest of the same key under another name, or of its public part alone.
			out.push(mk(k.tag(), k.alg, *dt, k.digest(&Nm::root(), *dt)));
			out.push(mk(k.tag(), k.alg, *dt, if *dt == 1 { sha1(&k.rdata()) } else { sha256(&k.rdata()) }));
			out.push(mk(k.tag() ^ 1, k.alg, *dt, right.clone()));
			out.push(mk(k.tag().swap_bytes(), k.alg, *dt, right.clone()));
			for a in [8, 13, 253, k.alg ^ 1] { if a != k.alg { out.push(mk(k.tag(), a, *dt, right.clone())); } }
		}
	}
	out
}

fn main() {
	let mc = Mc::new("C09");
	let z = Nm::new("z.");
	let a = Key::ed(1000, ZONE | SEP);
	let b = Key::of_alg(13, 0, ZONE | SEP);
	let r = Key::of_alg(8, 0, ZONE | SEP);
	let u = Key::of_alg(253, 0, ZONE | SEP);
	let evil = Key::ed(1001, ZONE | SEP);
	// One DS, in every right and wrong form.
	let all_dt: Vec<u8> = (0..=255).collect();
	for (label, k) in [("Ed25519", &a), ("ECDSA", &b), ("RSA", &r), ("an unsupported algorithm", &u)] {
		let forms = ds_forms(k, &z, &all_dt, true);
		mc.explore(&format!("one DS, {}", label), 0, |ch| {
			let d = ch.pick(&forms).clone();
			judge(&Case { zone: &z, ds: vec![d], keys: vec![k], apex: vec![0], leaf: vec![0] }, ch)
		});
	}
	// Each digest bit and each length.
	mc.explore("digest bits and lengths", 0, |ch| {
		let dt = *ch.pick(&[1u8, 2]);
		let right = a.digest(&z, dt);
		let n = right.len();
		let i = ch.choose(n * 8 + n + 3);
		let mut d = right.clone();
		if i < n * 8 { d[i / 8] ^= 1 << (i % 8); } else { let l = i - n * 8; if l <= n { d.truncate(l); } else { d.extend(vec![0; l - n]); } }
		let also = ch.choose(3);
		let mut ds = vec![Rec::new(&z, DS, 3600, ds_rdata(a.tag(), a.alg, dt, &d))];
		match also { 0 => {}, 1 => ds.push(evil.ds(&z, 2, 3600)), _ => ds.insert(0, evil.ds(&z, 1, 3600)) }
		judge(&Case { zone: &z, ds, keys: vec![&a], apex: vec![0], leaf: vec![0] }, ch)
	});
	// Each bit of a key: the digest of the key as it was vouches for no other.
	mc.explore("key bits", 0, |ch| {
		let (dt, k) = (*ch.pick(&[1u8, 2]), *ch.pick(&[&a, &b, &r, &u]));
		let mut m = k.clone();
		let i = ch.choose(32 + 8 * k.public.len());
		match i {
			0..=15 => m.flags ^= 1 << i,
			16..=23 => m.proto ^= 1 << (i - 16),
			24..=31 => m.alg ^= 1 << (i - 24),
			_ => m.public[(i - 32) / 8] ^= 1 << (i % 8),
		}
		// The DS record says the digest of the one and the tag and algorithm of the other.
		let (x, y) = if ch.flag() { (k, &m) } else { (&m, k) };
		let ds = Rec::new(&z, DS, 3600, ds_rdata(y.tag(), y.alg, dt, &x.digest(&z, dt)));
		judge(&Case { zone: &z, ds: vec![ds], keys: vec![y], apex: vec![0], leaf: vec![0] }, ch)
	});
	// Sets of up to three DS records over two or three keys, keys and signatures shown or stripped.
	let mut pool = Vec::new();
	for k in [&a, &b, &u] { pool.extend(ds_forms(k, &z, &[1, 2, 4, 3], false)); }
	pool.push(a.with_alg(13).ds(&z, 2, 3600));
	pool.push(Rec::new(&z, DS, 3600, ds_rdata(a.tag(), 13, 2, &a.digest(&z, 2))));
	pool.push(Rec::new(&z, DS, 3600, ds_rdata(u.tag(), 15, 2, &u.digest(&z, 2))));
	pool.push(Rec::new(&z, DS, 3600, ds_rdata(b.tag(), b.alg, 0, &b.digest(&z, 2))));
	// A digest of a known kind under an unknown number.
	for dt in [0, 3, 255] { pool.push(Rec::new(&z, DS, 3600, ds_rdata(a.tag(), a.alg, dt, &a.digest(&z, 1)))); }
	let triples = mc.tier(3, 4);
	mc.explore("DS sets", 0, |ch| {
		let mut ds: Vec<Rec> = Vec::new();
		let mut from = 0;
		for i in 0..triples {
			let c = ch.choose(pool.len() - from + if i > 0 { 1 } else { 0 });
			if i > 0 { if c == 0 { break; } ds.push(pool[from + c - 1].clone()); from += c; } else { ds.push(pool[from + c].clone()); from += c + 1; }
			if from >= pool.len() { break; }
		}
		let keys = [&a, &b, &u];
		let shown: Vec<&Key> = match ch.choose(7) { 0 => vec![keys[0], keys[1], keys[2]], 1 => vec![keys[0]], 2 => vec![keys[1]], 3 => vec![keys[2]], 4 => vec![keys[0], keys[1]], 5 => vec![keys[0], keys[2]], _ => vec![keys[1], keys[2]] };
		let n = shown.len();
		let apex: Vec<usize> = (0..n).filter(|_| ch.flag()).collect();
		if apex.is_empty() { return Ok("unsigned"); }
		let leaf = vec![ch.choose(n)];
		judge(&Case { zone: &z, ds, keys: shown, apex, leaf }, ch)
	});
	// A right digest under each number, beside a DS of a key that is not there.
	mc.explore("digest numbers beside others", 0, |ch| {
		let dt = ch.choose(256) as u8;
		let of = *ch.pick(&[1u8, 2, 4]);
		let d = Rec::new(&z, DS, 3600, ds_rdata(a.tag(), a.alg, dt, &a.digest(&z, of)));
		let others: [Rec; 6] = [evil.ds(&z, 1, 3600), evil.ds(&z, 2, 3600), evil.ds(&z, 4, 3600), u.ds(&z, 1, 3600), u.ds(&z, 2, 3600), b.ds(&z, 1, 3600)];
		let o = ch.pick(&others).clone();
		let ds = if ch.flag() { vec![d, o] } else { vec![o, d] };
		judge(&Case { zone: &z, ds, keys: if ch.flag() { vec![&a] } else { vec![&u, &a] }, apex: vec![0], leaf: vec![0] }, ch)
	});
	// All sets of up to four DS records of a smaller pool, in each order.
	let mut small = vec![a.ds(&z, 1, 3600), a.ds(&z, 2, 3600), evil.ds(&z, 1, 3600), evil.ds(&z, 2, 3600), evil.ds(&z, 4, 3600), a.ds(&z, 4, 3600), a.ds(&z, 3, 3600), u.ds(&z, 1, 3600), u.ds(&z, 2, 3600)];
	small.push(Rec::new(&z, DS, 3600, ds_rdata(a.tag(), a.alg, 2, &[0; 32])));
	mc.explore("DS orders", 0, |ch| {
		let mut left: Vec<Rec> = small.clone();
		let mut ds = Vec::new();
		for i in 0..mc.tier(4, 5) {
			let c = ch.choose(left.len() + if i > 0 { 1 } else { 0 });
			if i > 0 && c == 0 { break; }
			ds.push(left.remove(c - if i > 0 { 1 } else { 0 }));
		}
		let keys: Vec<&Key> = match ch.choose(4) { 0 => vec![&a], 1 => vec![&a, &u], 2 => vec![&u, &a], _ => vec![&u] };
		let leaf = vec![0];
		let apex = if keys.len() == 2 && ch.flag() { vec![1] } else { (0..keys.len()).collect() };
		judge(&Case { zone: &z, ds, keys, apex, leaf }, ch)
	});
	// Algorithm numbers: each of 256 under each kind of real key and signature.
	let kinds: Vec<(&str, Key)> = vec![("Ed25519", a.clone()), ("P-256", b.clone()), ("P-384", Key::of_alg(14, 0, ZONE | SEP)), ("RSA/SHA-256", r.clone()), ("RSA/SHA-512", Key::of_alg(10, 0, ZONE | SEP)),
		("RSA/SHA-1", Key::raw_rsa(5, 2, ZONE | SEP)), ("nothing", u.clone())];
	mc.explore("algorithm numbers", 0, |ch| {
		let (kind, base) = ch.pick(&kinds);
		let alg = ch.choose(256) as u8;
		let k = base.with_alg(alg);
		let own = match *kind { "Ed25519" => vec![15], "P-256" => vec![13], "P-384" => vec![14], "RSA/SHA-256" => vec![8], "RSA/SHA-512" => vec![10], _ => vec![] };
		// On all links, or on the data alone, beside a key of a supported algorithm.
		let place = ch.choose(3);
		let c = match place {
			0 => Case { zone: &z, ds: vec![k.ds(&z, 2, 3600)], keys: vec![&k], apex: vec![0], leaf: vec![0] },
			1 => Case { zone: &z, ds: vec![evil.ds(&z, 2, 3600)], keys: vec![&evil, &k], apex: vec![0], leaf: vec![1] },
			_ => Case { zone: &z, ds: vec![k.ds(&z, 2, 3600)], keys: vec![&k, &evil], apex: vec![0], leaf: vec![1] },
		};
		let (p, _) = proof(&c);
		let v = glue::verify(&p);
		ch.note(|| format!("{} as algorithm {}\n{:#?}\n{:?}", kind, alg, p, v));
		if v.ok() && !own.contains(&alg) { return bad("algorithm", format!("a {} signature verified as algorithm {}", kind, alg)); }
		if v == glue::Verdict::Unsupported && SUPPORTED.contains(&alg) { return bad("unsupported", format!("algorithm {} reported as unsupported", alg)); }
		if v == glue::Verdict::Unsupported && place == 1 { return bad("unsupported", "reported as unsupported although the vouched-for key is supported"); }
		Ok(v.class())
	});
	// The signature's algorithm differs from the key's.
	mc.explore("signature algorithm differs", 0, |ch| {
		let (_, base) = ch.pick(&kinds);
		let alg = ch.choose(256) as u8;
		if alg == base.alg { return Ok("same"); }
		let on_leaf = ch.flag();
		let c = Case { zone: &z, ds: vec![base.ds(&z, 2, 3600)], keys: vec![base], apex: vec![0], leaf: vec![0] };
		let (mut p, _) = proof(&c);
		let i = p.iter().rposition(|r| r.ty == RRSIG && (r.name.labels() == 2) == on_leaf && r.name.labels() > 0 && r.rrsig().unwrap().covered != DS).unwrap();
		// Signed as such by the very key, so only the mismatch speaks against it.
		let mut s = p[i].rrsig().unwrap();
		s.alg = alg;
		let rd: Vec<Vec<u8>> = p.iter().filter(|r| r.name == p[i].name && r.ty == s.covered).map(|r| r.rdata.clone()).collect();
		s.sig = base.sign(&signed_bytes(&s, &p[i].name, &rd));
		p[i].rdata = s.rdata();
		let v = glue::verify(&p);
		ch.note(|| format!("{:?} signing as {}\n{:#?}\n{:?}", base, alg, p, v));
		if v.ok() { return bad("algorithm", format!("a signature of algorithm {} verified with a key of algorithm {}", alg, base.alg)); }
		if v == glue::Verdict::Unsupported && SUPPORTED.contains(&base.alg) { return bad("unsupported", "reported as unsupported although the vouched-for key is supported"); }
		Ok(v.class())
	});
	// A key of each supported algorithm, shown or stripped, beside one of each number that is not.
	let able: Vec<Key> = SUPPORTED.iter().map(|alg| if *alg == 15 { a.clone() } else { Key::of_alg(*alg, 0, ZONE | SEP) }).collect();
	mc.explore("each supported algorithm beside others", 0, |ch| {
		let s = ch.pick(&able);
		let n = ch.choose(251);
		let alg = (0..=255u8).filter(|x| !SUPPORTED.contains(x)).nth(n).unwrap();
		let wide = [0, 5, 253].contains(&alg) || mc.thorough;
		let o = u.with_alg(alg);
		let (x, y) = (s.ds(&z, *ch.pick(&[1u8, 2, 4]), 3600), o.ds(&z, *ch.pick(if wide { &[1u8, 2, 4, 77][..] } else { &[2] }), 3600));
		let ds = if wide && ch.flag() { vec![x, y] } else { vec![y, x] };
		let (keys, apex, leaf): (Vec<&Key>, Vec<usize>, Vec<usize>) = match ch.choose(if wide { 5 } else { 2 }) {
			0 => (vec![s, &o], vec![1], vec![1]),
			1 => (vec![&o], vec![0], vec![0]),
			2 => (vec![&o, s], vec![0, 1], vec![0]),
			3 => (vec![&o, s], vec![0], vec![1]),
			_ => (vec![s, &o], vec![0, 1], vec![0, 1]),
		};
		judge(&Case { zone: &z, ds, keys, apex, leaf }, ch)
	});
	// Each key tag in a DS with the right digest: only the key's own refers to it.
	mc.range("key tags", 65536 * 2, |i, ch| {
		let (tag, k) = (i as u16, if i >> 16 == 0 { &a } else { &b });
		judge(&Case { zone: &z, ds: vec![Rec::new(&z, DS, 3600, ds_rdata(tag, k.alg, 2, &k.digest(&z, 2)))], keys: vec![k], apex: vec![0], leaf: vec![0] }, ch)
	});
	// What an attacker adds to or strips from a proof of a zone with a supported key never makes it look unsupported.
	mc.explore("stripping and adding", 0, |ch| {
		let ds = match ch.choose(4) { 0 => vec![a.ds(&z, 2, 3600)], 1 => vec![a.ds(&z, 1, 3600)], 2 => vec![u.ds(&z, 2, 3600), a.ds(&z, 2, 3600)], _ => vec![a.ds(&z, 2, 3600), b.ds(&z, 2, 3600), u.ds(&z, 2, 3600)] };
		let nk = ds.len();
		let keys: Vec<&Key> = match nk { 1 => vec![&a, &u], 2 => vec![&a, &u], _ => vec![&a, &b, &u] };
		let c = Case { zone: &z, ds, keys: keys.clone(), apex: (0..keys.len()).collect(), leaf: vec![0, keys.len() - 1] };
		let (p, target) = proof(&c);
		let n = p.len();
		// Drop up to two (thorough: three) records.
		let mut keep = vec![true; n];
		let k = mc.tier(2, 3);
		let mut from = 0;
		for _ in 0..k { let c = ch.choose(n - from + 1); if c == 0 { break; } keep[from + c - 1] = false; from += c; if from >= n { break; } }
		let mut q: Vec<Rec> = p.iter().enumerate().filter(|(i, _)| keep[*i]).map(|(_, r)| r.clone()).collect();
		let unk = Rec::new(&z, DS, 3600, ds_rdata(a.tag(), a.alg, 77, &[1; 32]));
		let fake = u.ds(&z, 2, 3600);
		let root_u = Key::of_alg(253, 3, ZONE | SEP).rec(&Nm::root(), 3600);
		match ch.choose(8) {
			0 => {},
			1 => q.push(unk.clone()),
			2 => { q.retain(|r| r.ty != DS); q.push(unk.clone()); },
			3 => q.push(u.rec(&z, 3600)),
			4 => { q.retain(|r| r.ty != DS); q.push(fake); },
			// The DS set signed by the child itself, not its parent.
			5 => { q.retain(|r| r.ty != DS && !(r.ty == RRSIG && r.rrsig().unwrap().covered == DS)); q.push(sign_recs(&evil, &Nm::root(), &[unk.clone()], WIN)); q.push(unk); },
			6 => q.push(root_u),
			_ => { let s = sign_set(&u, &z, &z, &z, DNSKEY, &[a.rdata()], WIN); q.insert(0, s) },
		}
		let v = glue::verify(&q);
		ch.note(|| format!("{:#?}\n{:?}", q, v));
		if v == glue::Verdict::Unsupported { return bad("unsupported", "a proof of a zone with a supported, vouched-for key is reported as unsupported"); }
		for i in v.idx() { if !q[*i].same(&target) { return bad("foreign", "something else is returned"); } }
		Ok(v.class())
	});
	// Many DS records of one sort, one or two of another anywhere among them, and the key behind any of them.
	let sizes: Vec<usize> = mc.tier((1..=9).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect(), (1..=130).chain([255, 256, 257, 511, 512, 513, 1000]).collect());
	mc.explore("large DS sets", 0, |ch| {
		let n = *ch.pick(&sizes);
		let fill = ch.choose(6);
		let mut ds: Vec<Rec> = (0..n).map(|i| {
			let tag = 1000 + i as u16;
			let (alg, dt) = [(15, 1), (15, 2), (253, 2), (15, 77), (253, 1), (15, 4)][fill];
			Rec::new(&z, DS, 3600, ds_rdata(tag, alg, dt, &vec![i as u8; match dt { 1 => 20, 2 => 32, _ => 48 }]))
		}).collect();
		let places = [0, n / 2, n];
		let special = [a.ds(&z, 1, 3600), a.ds(&z, 2, 3600), u.ds(&z, 2, 3600), evil.ds(&z, 1, 3600), evil.ds(&z, 2, 3600), a.ds(&z, 3, 3600), evil.ds(&z, 4, 3600)];
		for _ in 0..2 {
			let k = ch.choose(special.len() + 1);
			let at = *ch.pick(&places);
			if k == 0 || ds.contains(&special[k - 1]) { continue; }
			ds.insert(at, special[k - 1].clone());
		}
		let keys: Vec<&Key> = match ch.choose(3) { 0 => vec![&a], 1 => vec![&u, &a], _ => vec![&u] };
		judge(&Case { zone: &z, apex: (0..keys.len()).collect(), leaf: vec![keys.len() - 1], ds, keys }, ch)
	});
	// Many keys, of which those of a supported algorithm are anywhere.
	let others: Vec<Key> = { let mut v: Vec<Key> = Vec::new(); let mut i = 0; while v.len() < mc.tier(130, 260) { let k = Key::of_alg(253, 100 + i, ZONE | SEP); i += 1; if !v.iter().any(|o| o.tag() == k.tag()) { v.push(k); } } v };
	mc.explore("large key sets", 0, |ch| {
		let n = *ch.pick(&sizes);
		if n > others.len() { return Ok("left to the thorough run"); }
		let mut keys: Vec<&Key> = others[..n].iter().collect();
		let at = *ch.pick(&[0, n / 2, n]);
		keys.insert(at, &a);
		let all: Vec<usize> = (0..keys.len()).collect();
		let ds = match ch.choose(5) { 0 => vec![a.ds(&z, 2, 3600)], 1 => vec![others[0].ds(&z, 2, 3600)], 2 => vec![others[0].ds(&z, 2, 3600), a.ds(&z, 2, 3600)], 3 => others[..n].iter().map(|k| k.ds(&z, 2, 3600)).chain([a.ds(&z, 2, 3600)]).collect(), _ => others[..n].iter().map(|k| k.ds(&z, 2, 3600)).chain([a.ds(&z, 1, 3600)]).collect() };
		let apex = match ch.choose(3) { 0 => all.clone(), 1 => vec![at], _ => all.iter().cloned().filter(|i| *i != at).collect() };
		let leaf = if ch.flag() { vec![at] } else { all };
		judge(&Case { zone: &z, ds, keys, apex, leaf }, ch)
	});
	// Zones of every number of labels and every length of a label.
	let zones: Vec<Nm> = (1..=100).map(|k| Nm((0..k).map(|i| vec![b"ab0"[i % 3]]).collect())).chain((1..=63).map(|l| Nm(vec![vec![b'l'; l]]))).chain((1..=60).map(|l| Nm(vec![vec![b'k'; 60], vec![b'l'; 60], vec![b'm'; l]]))).collect();
	mc.explore("zone names", 0, |ch| {
		let z = ch.pick(&zones).clone();
		let sets: [&[(usize, u8)]; 10] = [&[(0, 1)], &[(0, 2)], &[(0, 1), (1, 2)], &[(0, 1), (0, 2)], &[(1, 2), (0, 2)], &[(0, 3)], &[(0, 1), (1, 4)], &[(2, 2)], &[(2, 2), (0, 1)], &[(2, 1), (1, 2)]];
		let ks = [&a, &evil, &u];
		let ds = ch.pick(&sets).iter().map(|(k, dt)| ks[*k].ds(&z, *dt, 3600)).collect();
		let keys: Vec<&Key> = match ch.choose(3) { 0 => vec![&a], 1 => vec![&u, &a], _ => vec![&u] };
		judge(&Case { zone: &z, apex: (0..keys.len()).collect(), leaf: vec![keys.len() - 1], ds, keys }, ch)
	});
	mc.finish()
}
