//! C07: false wildcard answers are never returned.
#[path = "../wild.rs"]
mod wild;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;
use wild::*;

/// Runs one attack: the expansion of `w` at `q` with some denial records. A returned record must be
/// a true answer, and a returned expansion must have been denied by the records shown.
fn attack(world: &World, z: &Zone, base: &[Rec], w: &Nm, ty: u16, q: &Nm, pool: &[(Rec, Rec)], pick: &[usize], shown: bool, ch: &mut Chooser) -> Res {
	let mut p = base.to_vec();
	p.extend(z.signed(w, ty, q));
	for i in pick { p.push(pool[*i].0.clone()); p.push(pool[*i].1.clone()); }
	let v = glue::verify(&p);
	ch.note(|| format!("{} {} expanded at {} in zone\n{:#?}\n{:#?}\n{:?}", w.text(), type_name(ty), q.text(), z.sets, p, v));
	for i in v.idx() {
		let r = p.get(*i).ok_or_else(|| Bad { key: "foreign".into(), msg: "a returned record is not one of the input's".into() })?;
		if !world.genuine(r) && r.ty != CNAME { return bad("false", format!("false answer {:?} returned", r)); }
		if r.ty == CNAME && !matches!(z.truth(&r.name, A), Truth::Cname | Truth::Wild { cname: true, .. }) && !(r.name.is_wild() && z.sets.contains_key(&(r.name.clone(), CNAME))) { return bad("false", format!("false answer {:?} returned", r)); }
		if r.name == *q && r.ty == ty && !z.sets.contains_key(&(q.clone(), ty)) && !shown { return bad("unproven", format!("{:?} returned without a proof that nothing closer exists", r)); }
	}
	Ok(if v.ok() { "expansion proven" } else { "refused" })
}
/// Picks a subset of the denial records: all subsets of few, else all of size up to two and their complements.
fn subset(n: usize, ch: &mut Chooser) -> Vec<usize> {
	if n <= 4 { return ch.subset(n); }
	let k = 2 * (1 + n + n * (n - 1) / 2);
	let mut i = ch.choose(k);
	let neg = i >= k / 2;
	if neg { i -= k / 2; }
	let mut s = Vec::new();
	if i > 0 { i -= 1; if i < n { s.push(i); } else {
		i -= n;
		'l: for a in 0..n { for b in a + 1..n { if i == 0 { s = vec![a, b]; break 'l; } i -= 1; } }
	} }
	if neg { (0..n).filter(|x| !s.contains(x)).collect() } else { s }
}

fn main() {
	let mc = Mc::new("C07");
	use Kind::*;
	let nsec3 = Denial::Nsec3 { iters: 1, salt: vec![0xab], flags: 0, algo: 1 };
	// Small zones.
	let q1 = names(&["a.z.", "b.z.", "m.z.", "*.z.", "a.a.z.", "m.a.z.", "a.b.z.", "m.b.z.", "m.m.z.", "a.m.z.", "*.a.z.", "a.a.a.z.", "m.a.a.z.", "m.m.a.z.", "a.m.a.z.", "a.*.z."]);
	let u1 = ["*.z.", "a.z.", "b.z.", "*.a.z.", "a.a.z.", "b.a.z.", "a.b.z.", "a.a.a.z.", "*.a.a.z.", "a.*.z."];
	let cfgs: Vec<(&str, Vec<Spec>)> = vec![
		("up to two names, all kinds", specs(&u1, &[Txt, Addr, Both, Cname, Insecure, Secure], 2)),
		("three names", specs(&u1, mc.tier(&[Txt, Addr, Insecure], &[Txt, Addr, Both, Cname, Insecure, Secure]), 3)),
	];
	for (label, list) in &cfgs {
		for d in [&Denial::Nsec, &nsec3] {
			mc.explore(&format!("{}, {}", label, if *d == Denial::Nsec { "NSEC" } else { "NSEC3" }), 0, |ch| {
				let spec = ch.pick(list).clone();
				let world = world(vec![zone_of("z.", 901, &spec, d)]);
				let z = &world.zones[1];
				let ex = expansions(z, &q1);
				if ex.is_empty() { return Ok("nothing to expand"); }
				let (w, ty, q) = ch.pick(&ex).clone();
				let pool: Vec<(Rec, Rec)> = denials(z).into_iter().map(|r| { let s = z.sign_rec(&r); (r, s) }).collect();
				let pick = subset(pool.len(), ch);
				let nc = q.trailing(w.labels());
				let shown = !z.exists(&nc) && { let c = z.cover(&nc); pick.iter().any(|i| pool[*i].0 == c[0]) };
				attack(&world, z, &world.chain(&z.name), &w, ty, &q, &pool, &pick, shown, ch)
			});
		}
	}
	if mc.tier(false, true) {
		let list = specs(&u1, &[Txt, Addr, Secure], 4);
		for d in [&Denial::Nsec, &nsec3] {
			mc.explore(&format!("four names, {}", if *d == Denial::Nsec { "NSEC" } else { "NSEC3" }), 0, |ch| {
				let spec = ch.pick(&list).clone();
				let world = world(vec![zone_of("z.", 901, &spec, d)]);
				let z = &world.zones[1];
				let ex = expansions(z, &q1);
				if ex.is_empty() { return Ok("nothing to expand"); }
				let (w, ty, q) = ch.pick(&ex).clone();
				let pool: Vec<(Rec, Rec)> = denials(z).into_iter().map(|r| { let s = z.sign_rec(&r); (r, s) }).collect();
				let nc = q.trailing(w.labels());
				let cover = if z.exists(&nc) { None } else { pool.iter().position(|p| p.0 == z.cover(&nc)[0]) };
				let pick: Vec<usize> = match ch.choose(2) { 0 => (0..pool.len()).collect(), _ => (0..pool.len()).filter(|i| Some(*i) != cover).collect() };
				attack(&world, z, &world.chain(&z.name), &w, ty, &q, &pool, &pick, cover.map(|c| pick.contains(&c)).unwrap_or(false), ch)
			});
		}
	}
	// Wildcards directly below the root, whose signatures say zero labels.
	let qr = names(&["a.", "b.", "m.", "*.", "a.a.", "m.a.", "a.b.", "m.b.", "m.m.", "a.m.", "a.a.a.", "m.a.a.", "m.m.a.", "a.a.m."]);
	let root_list = specs(&["*.", "a.", "b.", "*.a.", "a.a.", "a.b.", "a.a.a."], mc.tier(&[Txt, Addr, Cname], &[Txt, Addr, Both, Cname, Insecure, Secure]), mc.tier(2, 3));
	for d in [&Denial::Nsec, &nsec3] {
		mc.explore(&format!("wildcards of the root, {}", if *d == Denial::Nsec { "NSEC" } else { "NSEC3" }), 0, |ch| {
			let mut root = zone_of(".", 902, ch.pick(&root_list), d);
			root.keys = vec![root_ksk()];
			let world = World { zones: vec![root] };
			let z = &world.zones[0];
			let ex = expansions(z, &qr);
			if ex.is_empty() { return Ok("nothing to expand"); }
			let (w, ty, q) = ch.pick(&ex).clone();
			let pool: Vec<(Rec, Rec)> = denials(z).into_iter().map(|r| { let s = z.sign_rec(&r); (r, s) }).collect();
			let pick = subset(pool.len(), ch);
			let nc = q.trailing(w.labels());
			let shown = !z.exists(&nc) && { let c = z.cover(&nc); pick.iter().any(|i| pool[*i].0 == c[0]) };
			attack(&world, z, &world.chain(&z.name), &w, ty, &q, &pool, &pick, shown, ch)
		});
	}
	// Asterisks that make no wildcard: within a label, or in a later one.
	let stars = ["*.z.", "*x.z.", "x*.z.", "**.z.", "*.*.z.", "x.*.z.", "*.x*.z.", "*.*x.z.", "*.**.z.", "*x.*.z.", "*.*.*.z."];
	let star_list = specs(&stars, mc.tier(&[Txt, Addr], &[Txt, Addr, Both, Cname, Insecure, Secure]), mc.tier(2, 3));
	let mut qs: Vec<Nm> = names(&["z.", "*.z.", "*x.z.", "x*.z.", "**.z.", "a.z.", "*.*.z.", "*.*x.z.", "*.x*.z.", "*.**.z."]);
	for up in qs.clone() { for l in ["*x", "x*", "**", "a", "*-", "+*"] { let n = up.child(l); if !qs.contains(&n) { qs.push(n); } } }
	for d in [&Denial::Nsec, &nsec3] {
		mc.explore(&format!("names with asterisks, {}", if *d == Denial::Nsec { "NSEC" } else { "NSEC3" }), 0, |ch| {
			let world = world(vec![zone_of("z.", 901, ch.pick(&star_list), d)]);
			let z = &world.zones[1];
			let ex = expansions(z, &qs);
			if ex.is_empty() { return Ok("nothing to expand"); }
			let (w, ty, q) = ch.pick(&ex).clone();
			let pool: Vec<(Rec, Rec)> = denials(z).into_iter().map(|r| { let s = z.sign_rec(&r); (r, s) }).collect();
			let pick = subset(pool.len(), ch);
			let nc = q.trailing(w.labels());
			let shown = !z.exists(&nc) && { let c = z.cover(&nc); pick.iter().any(|i| pool[*i].0 == c[0]) };
			attack(&world, z, &world.chain(&z.name), &w, ty, &q, &pool, &pick, shown, ch)
		});
	}
	// Wildcards of each type, and names of the sorts that applications use.
	let mut qs: Vec<Nm> = names(&["a.z.", "b.z.", "m.z.", "_tcp.z.", "_.z."]);
	for up in ["b.z.", "m.z.", "_tcp.z.", "xn--a.z.", "a.b.z."] { for l in ["m", "_443._tcp", "_25._tcp.mx", "_dmarc", "x.y.z", "_1._2._3._4", "a._user._bitcoin-payment", "-", "0.0"] { qs.push(Nm::new(&format!("{}.{}", l, up))); } }
	for d in [&Denial::Nsec, &nsec3] {
		mc.explore(&format!("wildcards of every type, {}", if *d == Denial::Nsec { "NSEC" } else { "NSEC3" }), 0, |ch| {
			let ty = *ch.pick(&DATA);
			let mut z = zone_of("z.", 907, &vec![("b.z.", Addr), ("a.b.z.", Addr), ("m.m.z.", Addr)], d);
			let w = Nm::new(*ch.pick(&["*.z.", "*.b.z.", "*._tcp.z.", "*.m.z."]));
			for i in 0..1 + ch.choose(2) { if i == 0 || ty != CNAME && ty != DNAME { z.add(&w, ty, sample(ty, i as u8)); } }
			// Another type beside.
			match ch.choose(3) { 1 if ty != CNAME => z.add(&w, if ty == TXT { A } else { TXT }, sample(if ty == TXT { A } else { TXT }, 9)), 2 if ty != DNAME => z.add(&Nm::new("_tcp.z."), ty, sample(ty, 3)), _ => {} }
			let world = world(vec![z]);
			let z = &world.zones[1];
			let ex = expansions(z, &qs);
			let (w, ty, q) = ch.pick(&ex).clone();
			let pool: Vec<(Rec, Rec)> = denials(z).into_iter().map(|r| { let s = z.sign_rec(&r); (r, s) }).collect();
			let nc = q.trailing(w.labels());
			let cover = if z.exists(&nc) { None } else { pool.iter().position(|p| p.0 == z.cover(&nc)[0]) };
			let pick: Vec<usize> = match ch.choose(3) { 0 => (0..pool.len()).collect(), 1 => vec![], _ => (0..pool.len()).filter(|i| Some(*i) != cover).collect() };
			attack(&world, z, &world.chain(&z.name), &w, ty, &q, &pool, &pick, cover.map(|c| pick.contains(&c)).unwrap_or(false), ch)
		});
	}
	// A parent, its children and a grandchild, each with wildcards; the denial records of all may be shown.
	let zsets: Vec<Vec<(&str, &str, Spec)>> = vec![
		vec![("z.", "", vec![("*.z.", Txt), ("a.z.", Addr)]), ("b.z.", "", vec![("*.b.z.", Txt), ("a.b.z.", Addr)])],
		vec![("z.", "", vec![("*.z.", Txt)]), ("a.z.", "", vec![("a.a.z.", Txt)]), ("c.z.", "", vec![("*.c.z.", Cname), ("m.c.z.", Addr)])],
		vec![("z.", "", vec![("*.z.", Cname), ("*.c.z.", Txt)]), ("b.z.", "", vec![("*.a.b.z.", Txt)]), ("a.b.z.", "", vec![("*.a.b.z.", Txt), ("c.a.b.z.", Addr)])],
		vec![("z.", "", vec![("*.z.", Txt)]), ("m.b.z.", "", vec![("*.m.b.z.", Txt)]), ("b.a.z.", "", vec![("x.b.a.z.", Addr)])],
	];
	let q2 = names(&["a.z.", "b.z.", "c.z.", "m.z.", "x.z.", "a.b.z.", "m.b.z.", "x.b.z.", "a.c.z.", "m.c.z.", "x.a.b.z.", "c.a.b.z.", "m.a.b.z.", "m.m.b.z.", "x.m.b.z.", "b.a.z.", "m.a.z.", "x.b.a.z.", "m.b.a.z."]);
	mc.explore("denial records of other zones", 0, |ch| {
		let set = ch.pick(&zsets);
		let mut zs = Vec::new();
		for (i, (n, _, spec)) in set.iter().enumerate() {
			let d = if ch.flag() { nsec3.clone() } else { Denial::Nsec };
			let mut z = zone_of(n, 910 + i as u32, spec, &d);
			// Nothing of a parent lives below its cuts.
			for (c, ..) in &set[i + 1..] { let c = Nm::new(c); if c.below(&z.name) { z.sets.retain(|(n, _), _| !n.within(&c)); } }
			zs.push(z);
		}
		let world = world(zs);
		let z = &world.zones[1 + ch.choose(set.len())];
		let ex = expansions(z, &q2);
		if ex.is_empty() { return Ok("nothing to expand"); }
		let (w, ty, q) = ch.pick(&ex).clone();
		let mut pool: Vec<(Rec, Rec)> = Vec::new();
		for zz in &world.zones[1..] { for r in denials(zz) { let s = zz.sign_rec(&r); pool.push((r, s)); } }
		// What other zones could sign to deny the name, were they asked.
		for zz in &world.zones[1..] {
			if zz.name == z.name { continue; }
			let nc = q.trailing(w.labels());
			let evil = match zz.denial {
				Denial::Nsec => Rec::new(&zz.name.child("0"), NSEC, 3600, nsec_rdata(&Nm::new("~.~."), &[A, RRSIG, NSEC])),
				_ => { let h = nsec3_hash(&nc, 1, &[0xab]); Rec::new(&zz.name.child(&base32hex(&bump(&h, false))), NSEC3, 3600, nsec3_rdata(1, 0, 1, &[0xab], &bump(&h, true), &[A])) },
			};
			let s = zz.sign_rec(&evil);
			if !pool.iter().any(|p| p.0.name == evil.name && p.0.ty == evil.ty) { pool.push((evil, s)); }
		}
		// Only zones that enclose the signer are sure to be reached, but all are offered.
		let mut base = world.chain(&Nm::root());
		for zz in &world.zones[1..] { for r in world.chain(&zz.name) { if !base.contains(&r) { base.push(r); } } }
		let nc = q.trailing(w.labels());
		let truly = matches!(world.auth(&q, ty).truth(&q, ty), Truth::Wild { ref source, .. } if *source == w) && world.auth(&q, ty).name == z.name;
		let cover = if z.exists(&nc) { None } else { let c = z.cover(&nc); pool.iter().position(|p| p.0 == c[0] && p.1 == c[1]) };
		// All, each one alone, all but one.
		let n = pool.len();
		let pick: Vec<usize> = match ch.choose(2 * n + 1) { 0 => (0..n).collect(), i if i <= n => vec![i - 1], i => (0..n).filter(|x| *x != i - n - 1).collect() };
		let shown = truly && cover.map(|c| pick.contains(&c)).unwrap_or(false);
		let mut p = base.clone();
		p.extend(z.signed(&w, ty, &q));
		// Zones below the same next closer name may have expansions of their own, which need (and,
		// with the denial above, have) a proof about the same name.
		let theirs: Vec<&Zone> = world.zones[1..].iter().filter(|zz| zz.name != z.name && zz.name.within(&nc)).collect();
		if !theirs.is_empty() && ch.flag() {
			let first = ch.flag();
			for zz in theirs {
				let at = zz.name.child("0w");
				let rd = txt_rdata(b"own");
				let mut both = vec![Rec::new(&at, TXT, 3600, rd.clone()), sign_set(&zz.keys[zz.zsks[0]], &zz.name, &nc.parent().unwrap().wild(), &at, TXT, &[rd], zz.win)];
				if first { both.extend(std::mem::take(&mut p)); p = both; } else { p.extend(both); }
			}
		}
		for i in &pick { p.push(pool[*i].0.clone()); p.push(pool[*i].1.clone()); }
		let v = glue::verify(&p);
		ch.note(|| format!("{} {} of {} expanded at {}\n{:#?}\n{:?}", w.text(), type_name(ty), z.name.text(), q.text(), p, v));
		for i in v.idx() { if p[*i].name == q && p[*i].ty == ty && !shown { return bad("other zone", format!("{:?} of {} returned: {}", p[*i], z.name.text(), if truly { "not proven" } else { "not true" })); } }
		Ok(if v.ok() { "expansion proven" } else { "refused" })
	});
	// NSEC records over awkward names: exactly those that deny the next closer name count.
	let (world1, z1, chain1) = synth();
	let ord = order_names(mc.tier(false, true));
	let n = ord.len();
	mc.range("NSEC order", (n * n * n) as u64, |i, ch| {
		let (o, nx, q) = (&ord[i as usize / (n * n)], &ord[i as usize / n % n], &ord[i as usize % n]);
		if q.labels() < 2 { return Ok("apex"); }
		let nc = q.trailing(2);
		let rec = Rec::new(o, NSEC, 3600, nsec_rdata(nx, &[A, RRSIG, NSEC]));
		let pool = [(rec.clone(), z1.sign_rec(&rec))];
		let mut p = chain1.clone();
		p.extend(z1.signed(&Nm::new("*.z."), TXT, q));
		p.push(pool[0].0.clone()); p.push(pool[0].1.clone());
		let v = glue::verify(&p);
		let denies = nsec_denies(o, nx, &z1.name, &nc);
		ch.note(|| format!("{} NSEC {} for {} ({}): {:?}", o.text(), nx.text(), nc.text(), denies, v));
		if v.ok() && !denies { return bad("nsec order", format!("{} NSEC {} was taken to deny {}", o.text(), nx.text(), nc.text())); }
		Ok(if v.ok() { "proven" } else { "refused" })
	});
	// Deeper next closer names: the closest encloser is deep inside the zone.
	mc.range("NSEC order, deep", (n * n * n) as u64, |i, ch| {
		let (o, nx, q) = (&ord[i as usize / (n * n)], &ord[i as usize / n % n], &ord[i as usize % n]);
		if q.labels() < 3 { return Ok("apex"); }
		let w = q.trailing(2).wild();
		if w == *q { return Ok("itself"); }
		let nc = q.trailing(3);
		let mut zz = z1.clone();
		zz.add(&w, TXT, txt_rdata(b"deep"));
		let rec = Rec::new(o, NSEC, 3600, nsec_rdata(nx, &[A, RRSIG, NSEC]));
		let mut p = chain1.clone();
		p.extend(zz.signed(&w, TXT, q));
		p.push(rec.clone()); p.push(zz.sign_rec(&rec));
		let v = glue::verify(&p);
		let denies = nsec_denies(o, nx, &zz.name, &nc);
		ch.note(|| format!("{} NSEC {} for {} ({}): {:?}", o.text(), nx.text(), nc.text(), denies, v));
		if v.ok() && !denies { return bad("nsec order", format!("{} NSEC {} was taken to deny {}", o.text(), nx.text(), nc.text())); }
		Ok(if v.ok() { "proven" } else { "refused" })
	});
	// NSEC3 records around the hash, each owner character and bit varied.
	let salts: [&[u8]; 2] = [&[], &[1, 2, 3]];
	mc.explore("NSEC3 ranges", 0, |ch| {
		let q = Nm::new(["q.z.", "a.z."][ch.choose(2)]);
		let iters = *ch.pick(&[0u16, 1, 5]);
		let salt = ch.pick(&salts).to_vec();
		let h = nsec3_hash(&q, iters, &salt);
		let text = base32hex(&h);
		let (start, next): (Vec<u8>, Vec<u8>) = match ch.choose(3) {
			// Each character of the owner replaced by each other.
			0 => {
				let (p, c) = (ch.choose(32), ch.choose(32));
				let mut t = text.clone().into_bytes();
				t[p] = HEX32[c];
				let s = unbase32(&t);
				let n = match ch.choose(4) { 0 => vec![0xff; 20], 1 => bump(&h, true), 2 => vec![0; 20], _ => bump(&s, false) };
				(s, n)
			},
			// Each bit of the next hash flipped.
			1 => { let b = ch.choose(160); let mut n = h.clone(); n[b / 8] ^= 0x80 >> (b % 8); let s = match ch.choose(4) { 0 => vec![0; 20], 1 => bump(&h, false), 2 => vec![0xff; 20], _ => bump(&n, true) }; (s, n) },
			// Boundary pairs.
			_ => {
				let bs = [h.clone(), bump(&h, true), bump(&h, false), vec![0; 20], vec![0xff; 20], bump(&bump(&h, true), true), bump(&bump(&h, false), false)];
				(ch.pick(&bs).clone(), ch.pick(&bs).clone())
			},
		};
		let rec = Rec::new(&z1.name.child(&base32hex(&start)), NSEC3, 3600, nsec3_rdata(1, 0, iters, &salt, &next, &[A, RRSIG]));
		let mut p = chain1.clone();
		p.extend(z1.signed(&Nm::new("*.z."), TXT, &q));
		p.push(rec.clone()); p.push(z1.sign_rec(&rec));
		let v = glue::verify(&p);
		let denies = hash_between(&start, &next, &h);
		ch.note(|| format!("hash {} NSEC3 {}..{} ({}): {:?}", hex(&h), hex(&start), hex(&next), denies, v));
		if v.ok() && !denies { return bad("nsec3 range", format!("NSEC3 {}..{} was taken to deny hash {}", hex(&start), hex(&next), hex(&h))); }
		Ok(if v.ok() { "proven" } else { "refused" })
	});
	// NSEC3 fields that disqualify, or do not belong to the hash.
	mc.explore("NSEC3 parameters", 0, |ch| {
		let q = Nm::new("q.z.");
		let (algo, flags, iters, salt): (u8, u8, u16, Vec<u8>) = match ch.choose(4) {
			0 => (ch.choose(256) as u8, 0, 0, vec![]),
			1 => (1, ch.choose(256) as u8, 1, vec![]),
			2 => (1, 0, *ch.pick(&[0, 1, 255, 256, 2499, 2500, 2501, 2502, 5000, 32768, 65535]), vec![5]),
			_ => (1, 0, 3, ch.pick(&[vec![], vec![0], vec![0, 0], vec![9; 255]]).clone()),
		};
		// The range is right for these parameters, or for other ones.
		let (i2, s2): (u16, Vec<u8>) = match ch.choose(4) { 0 => (iters, salt.clone()), 1 => (iters ^ 1, salt.clone()), 2 => (iters, [&salt[..], &[0]].concat()), _ => (0, vec![]) };
		let h = nsec3_hash(&q, if iters > 3000 { 0 } else { iters }, &salt);
		let around = nsec3_hash(&q, if i2 > 3000 { 0 } else { i2 }, &s2);
		let (start, next) = (bump(&around, false), bump(&around, true));
		let own = match ch.choose(8) {
			0..=2 => base32hex(&start),
			3 => base32hex(&start).to_uppercase(),
			4 => base32hex(&start)[..31].to_string(),
			5 => base32hex(&start) + "0",
			6 => base32hex(&start).replace(|c: char| c.is_ascii_digit(), "w"),
			_ => "-".to_string(),
		};
		let bad_owner = !own.eq_ignore_ascii_case(&base32hex(&start));
		let next = match ch.choose(5) { 0 => next, 1 => next[..19].to_vec(), 2 => [&next[..], &[0]].concat(), 3 => vec![], _ => vec![0xff] };
		let bad_next = next.len() != 20;
		let rec = Rec::new(&z1.name.child(&own).lower(), NSEC3, 3600, nsec3_rdata(algo, flags, iters, &salt, &next, &[A, RRSIG]));
		let mut p = chain1.clone();
		p.extend(z1.signed(&Nm::new("*.z."), TXT, &q));
		p.push(rec.clone()); p.push(z1.sign_rec(&rec));
		let v = glue::verify(&p);
		let denies = algo == 1 && flags == 0 && iters <= 2500 && !bad_owner && !bad_next && hash_between(&start, &next, &h);
		ch.note(|| format!("algo {} flags {} iters {} salt {} owner {} next {} ({}): {:?}", algo, flags, iters, hex(&salt), own, hex(&next), denies, v));
		if v.ok() && !denies { return bad("nsec3 parameters", format!("NSEC3 with algo {} flags {} iters {} salt {} owner {} next {} was taken as a proof", algo, flags, iters, hex(&salt), own, hex(&next))); }
		Ok(if v.ok() { "proven" } else { "refused" })
	});
	// Opt-out chains of zones with delegations prove nothing, even with a proper record of other parameters beside.
	mc.explore("opt-out spans", 0, |ch| {
		let flags = *ch.pick(&[1u8, 2, 3, 0x80, 0x81, 0xff]);
		let spec: Spec = vec![("*.z.", Txt), ("a.z.", Insecure), ("b.z.", Addr), ("c.b.z.", Insecure)];
		let world = world(vec![zone_of("z.", 905, &spec, &Denial::Nsec3 { iters: 0, salt: vec![], flags, algo: 1 })]);
		let z = &world.zones[1];
		let ex = expansions(z, &q1);
		let (w, ty, q) = ch.pick(&ex).clone();
		let mut pool: Vec<(Rec, Rec)> = denials(z).into_iter().map(|r| { let s = z.sign_rec(&r); (r, s) }).collect();
		// A record of flags 0 elsewhere in the hash order.
		let h = nsec3_hash(&q.trailing(w.labels()), 0, &[]);
		let r = Rec::new(&z.name.child(&base32hex(&bump(&h, true))), NSEC3, 3600, nsec3_rdata(1, 0, 0, &[], &bump(&h, false), &[A]));
		if ch.flag() { pool.push((r.clone(), z.sign_rec(&r))); }
		let pick: Vec<usize> = if ch.flag() { (0..pool.len()).rev().collect() } else { (0..pool.len()).collect() };
		let shown = hash_between(&bump(&h, true), &bump(&h, false), &h);
		attack(&world, z, &world.chain(&z.name), &w, ty, &q, &pool, &pick, shown, ch)
	});
	// Several answers in one proof, of which only some are denied.
	mc.explore("several answers", 0, |ch| {
		let spec: Spec = vec![("*.z.", Txt), ("*.a.z.", Txt), ("b.z.", Addr), ("xm.z.", Addr), ("m.a.z.", Addr), ("d.b.z.", Txt), ("*.b.z.", Cname)];
		let d = if ch.flag() { nsec3.clone() } else { Denial::Nsec };
		let world = world(vec![zone_of("z.", 906, &spec, &d)]);
		let z = &world.zones[1];
		let qs = names(&["c.z.", "am.z.", "m.z.", "xm.z.", "xc.z.", "x.a.z.", "n.a.z.", "m.a.z.", "x.b.z.", "d.b.z.", "e.x.b.z.", "c.c.z."]);
		let ex = expansions(z, &qs);
		let mut p = world.chain(&z.name);
		let k = mc.tier(2, 3);
		let mut from = 0;
		let mut asked = Vec::new();
		for _ in 0..k {
			let i = from + ch.choose(ex.len() - from);
			let (w, ty, q) = &ex[i];
			if !asked.iter().any(|(_, t, r): &(Nm, u16, Nm)| t == ty && r == q) { asked.push(ex[i].clone()); p.extend(z.signed(w, *ty, q)); }
			from = i;
		}
		let pool = denials(z);
		let n = pool.len();
		let pick: Vec<usize> = match ch.choose(2 * n + 2) { 0 => (0..n).collect(), i if i <= n => vec![i - 1], i if i <= 2 * n => (0..n).filter(|x| *x != i - n - 1).collect(), _ => vec![] };
		for i in &pick { p.push(pool[*i].clone()); p.push(z.sign_rec(&pool[*i])); }
		let v = glue::verify(&p);
		ch.note(|| format!("{:#?}\n{:?}", p, v));
		if v.ok() { for (w, ty, q) in &asked {
			let nc = q.trailing(w.labels());
			let shown = !z.exists(&nc) && { let c = z.cover(&nc); pick.iter().any(|i| pool[*i] == c[0]) };
			if !shown { return bad("several", format!("{} {} from {} returned unproven with {} others", q.text(), type_name(*ty), w.text(), asked.len() - 1)); }
		} }
		Ok(if v.ok() { "all proven" } else { "refused" })
	});
	// Many answers in one proof, all or all but one denied.
	mc.explore("many answers", 0, |ch| {
		let spec: Spec = vec![("*.z.", Txt), ("b.z.", Addr), ("d.z.", Addr), ("f.z.", Addr), ("h.z.", Addr), ("j.z.", Addr), ("l.z.", Addr), ("*.a.z.", Txt), ("b.a.z.", Addr), ("d.a.z.", Addr)];
		let d = if ch.flag() { nsec3.clone() } else { Denial::Nsec };
		let world = world(vec![zone_of("z.", 909, &spec, &d)]);
		let z = &world.zones[1];
		let all = names(&["c.z.", "e.z.", "g.z.", "i.z.", "k.z.", "m.z.", "x.e.z.", "c.a.z.", "e.a.z.", "ac.z.", "x.c.a.z.", "xm.z."]);
		let n = 3 + ch.choose(all.len() - 2);
		let (rev, from) = (ch.flag(), ch.choose(all.len()));
		let mut qs: Vec<Nm> = (0..n).map(|i| all[(from + i) % all.len()].clone()).collect();
		if rev { qs.reverse(); }
		let ex = expansions(z, &qs);
		let mut p = world.chain(&z.name);
		for (w, ty, q) in &ex { p.extend(z.signed(w, *ty, q)); }
		let pool = denials(z);
		let left = ch.choose(pool.len() + 1);
		for (i, r) in pool.iter().enumerate() { if i + 1 != left { p.push(r.clone()); p.push(z.sign_rec(r)); } }
		let v = glue::verify(&p);
		ch.note(|| format!("{:#?}\n{:?}", p, v));
		if v.ok() { for (w, ty, q) in &ex {
			let nc = q.trailing(w.labels());
			let c = z.cover(&nc);
			if z.exists(&nc) || (left > 0 && c[0] == pool[left - 1]) { return bad("many", format!("{} {} from {} returned unproven with {} others", q.text(), type_name(*ty), w.text(), ex.len() - 1)); }
		} }
		Ok(if v.ok() { "all proven" } else { "refused" })
	});
	// Answers of every size, each with all its denial records but one.
	mc.explore("one of many denials is missing", 0, |ch| {
		let dim = ch.choose(GROWTH.len());
		let d = if ch.flag() { nsec3.clone() } else { Denial::Nsec };
		let many = matches!(dim, 2 | 3 | 4 | 10);
		let n = 1 + ch.choose(if many { mc.tier(40, 110) } else { mc.tier(126, 300) });
		let Some((world, answers)) = grown(dim, n, &d) else { return Ok("no such answer") };
		let (mut p, mut pool): (Vec<Rec>, Vec<(Rec, Rec)>) = (Vec::new(), Vec::new());
		let mut zones = std::collections::BTreeSet::new();
		for a in &answers {
			let z = &world.zones[a.zone];
			if zones.insert(a.zone) {
				for r in world.chain(&z.name) { if !p.contains(&r) { p.push(r); } }
				// Of a zone with many names, all records; of others what is needed.
				if dim == 4 { pool.extend(denials(z).into_iter().map(|r| { let s = z.sign_rec(&r); (r, s) })); }
			}
			let c = z.cover(&a.nc);
			if !pool.iter().any(|x| x.0 == c[0]) { pool.push((c[0].clone(), c[1].clone())); }
		}
		for a in &answers { p.extend(world.zones[a.zone].signed(&a.source, a.ty, &a.at)); }
		// One record is left out, or just its signature is.
		let left = ch.choose(pool.len());
		let keep = ch.flag();
		for (i, (r, s)) in pool.iter().enumerate() { if i != left || keep { p.push(r.clone()); } if i != left { p.push(s.clone()); } }
		let v = glue::verify(&p);
		ch.note(|| format!("{}: {}, without {:?}\n{:#?}\n{:?}", GROWTH[dim], n, pool[left], p, v));
		for a in &answers {
			if world.zones[a.zone].cover(&a.nc)[0] != pool[left].0 { continue; }
			for i in v.idx() { if p[*i].name == a.at && p[*i].ty == a.ty { return bad("one missing", format!("{} of {}: {:?} returned without {:?}", GROWTH[dim], n, p[*i], pool[left].0)); } }
		}
		Ok(if v.ok() { "another denial left out" } else { "refused" })
	});
	// A closer name, however deep below the wildcard, or an empty non-terminal there.
	mc.explore("closer names at any depth", 0, |ch| {
		let n = 1 + ch.choose(mc.tier(50, 126));
		let k = 1 + ch.choose(n);
		let apex = Nm::new("z.");
		let mut q = apex.clone();
		for i in 0..n { q = q.child(["a", "b", "0"][i % 3]); }
		if q.text().len() > 255 { return Ok("no such name"); }
		let at = q.trailing(1 + k);
		let mut z = zone_of("z.", 912, &vec![("*.z.", Txt), ("zzz.z.", Addr)], &Denial::Nsec);
		match ch.choose(4) { 0 => z.add(&at, A, vec![1; 4]), 1 => z.add(&at.child("x"), A, vec![1; 4]), 2 => z.add(&at.wild(), TXT, txt_rdata(b"closer")), _ => z.delegate(&at, &[]) }
		if ch.flag() { z.denial = nsec3.clone(); }
		let world = world(vec![z]);
		let z = &world.zones[1];
		let pool: Vec<(Rec, Rec)> = denials(z).into_iter().map(|r| { let s = z.sign_rec(&r); (r, s) }).collect();
		let pick: Vec<usize> = (0..pool.len()).collect();
		attack(&world, z, &world.chain(&z.name), &apex.wild(), TXT, &q, &pool, &pick, false, ch)
	});
	// Two chains of records, which differ in one or more of their parameters: each only speaks of its own hashes.
	mc.explore("two NSEC3 chains", 0, |ch| {
		let params: [(u8, u16, &[u8]); 13] = [(1, 0, &[]), (1, 3, &[]), (1, 0, &[7]), (1, 3, &[7]), (2, 0, &[]), (1, 0, &[8]), (1, 3, &[0]), (1, 0, &[7, 8]), (1, 0, &[8, 7]), (1, 0, &[7, 0]), (1, 259, &[7]), (1, 0, &[5; 255]), (1, 0, &{ let mut s = [5; 255]; s[254] = 6; s })];
		let (i, j) = (ch.choose(params.len()), ch.choose(params.len()));
		if i == j { return Ok("one chain"); }
		let spec: Spec = vec![("*.z.", Txt), ("a.z.", Addr), ("b.z.", Addr), ("*.a.z.", Txt), ("c.a.z.", Addr)];
		let world = world(vec![zone_of("z.", 907, &spec, &nsec3)]);
		let z = &world.zones[1];
		let ex = expansions(z, &names(&["a.z.", "b.z.", "c.z.", "m.z.", "c.a.z.", "d.a.z."]));
		let (w, ty, q) = ch.pick(&ex).clone();
		let nc = q.trailing(w.labels());
		let mut pools: Vec<Vec<Rec>> = Vec::new();
		for (algo, iters, salt) in [params[i], params[j]] {
			// Nothing is known of the order of another algorithm's hashes.
			let mut zz = z.clone();
			zz.denial = Denial::Nsec3 { iters, salt: if algo == 1 { salt.to_vec() } else { vec![1, 2, 3] }, flags: 0, algo: 1 };
			pools.push(zz.nsec3_chain().into_iter().map(|c| {
				let (mut r, mut f) = (c.1, Vec::new());
				if algo != 1 { f.extend(&r.rdata[..4]); f[0] = algo; f.push(0); f.extend(&r.rdata[8..]); r.rdata = f; }
				r
			}).collect());
		}
		let denies = |r: &Rec, (algo, iters, salt): (u8, u16, &[u8])| {
			let l = r.rdata[4] as usize;
			let start = unbase32(r.name.0[0].to_ascii_lowercase().as_slice());
			algo == 1 && !z.exists(&nc) && hash_between(&start, &r.rdata[6 + l..26 + l], &nsec3_hash(&nc, iters, salt))
		};
		let (a, b) = (ch.choose(pools[0].len() + 1), ch.choose(pools[1].len() + 1));
		let mut pick: Vec<Rec> = Vec::new();
		let mut shown = false;
		for (k, x, pr) in [(0, a, params[i]), (1, b, params[j])] {
			// One, or all that do not deny.
			let own: Vec<Rec> = if x > 0 { vec![pools[k][x - 1].clone()] } else { pools[k].iter().filter(|r| !denies(r, pr)).cloned().collect() };
			for r in own { if pick.iter().any(|p| p.name == r.name) { continue; } shown |= denies(&r, pr); pick.push(r); }
		}
		let mut p = world.chain(&z.name);
		p.extend(z.signed(&w, ty, &q));
		for r in &pick { p.push(r.clone()); p.push(z.sign_rec(r)); }
		let v = glue::verify(&p);
		ch.note(|| format!("{} expanded at {}\n{:#?}\n{:?}", w.text(), q.text(), p, v));
		if v.ok() && !shown { return bad("two chains", format!("{} from {} returned, which no record of the chains {:?} and {:?} shown denies", q.text(), w.text(), params[i], params[j])); }
		Ok(if v.ok() { "proven" } else { "refused" })
	});
	// The NSEC of a wildcard shown at other names, as if it were expanded from the wildcard.
	mc.explore("wildcard NSEC at other names", 0, |ch| {
		let u: Spec = vec![("!.z.", Txt), ("a.z.", Addr), ("!.a.z.", Addr), ("*.a.z.", Txt), ("%.a.z.", Addr), ("%.z.", Txt), ("b.a.z.", Txt)];
		let mut spec: Spec = vec![("*.z.", Txt)];
		spec.extend(ch.subset(u.len()).into_iter().map(|i| u[i]));
		let world = world(vec![zone_of("z.", 908, &spec, &Denial::Nsec)]);
		let z = &world.zones[1];
		let ats = names(&["!.z.", "#.z.", "!.a.z.", "#.a.z.", "a.z.", "!.b.z.", "!.!.z.", "!.!.a.z.", "~.z."]);
		let ex = expansions(z, &names(&["!.z.", "$.z.", "%.z.", "a.z.", "*.a.z.", "!.a.z.", "%.a.z.", "$.a.z.", "b.a.z.", "b.z.", "!.!.z."]));
		if ex.is_empty() { return Ok("nothing to expand"); }
		let (w, ty, q) = ch.pick(&ex).clone();
		let nc = q.trailing(w.labels());
		let wild: Vec<Rec> = denials(z).into_iter().filter(|r| r.name.is_wild()).collect();
		let r = ch.pick(&wild).clone();
		let at = ch.pick(&ats).clone();
		if !at.below(&r.name.parent().unwrap()) { return Ok("not below the wildcard"); }
		let (mut r2, mut s2) = (r.clone(), z.sign_rec(&r));
		r2.name = at.clone(); s2.name = at.clone();
		let mut p = world.chain(&z.name);
		p.extend(z.signed(&w, ty, &q));
		p.push(r2); p.push(s2);
		let v = glue::verify(&p);
		ch.note(|| format!("{} expanded at {}\n{:#?}\n{:?}", w.text(), q.text(), p, v));
		let shown = !z.exists(&nc) && z.cover(&nc)[0] == r;
		if v.ok() && !shown { return bad("moved nsec", format!("{} from {} was taken as proven by the NSEC of {} shown at {}", q.text(), w.text(), r.name.text(), at.text())); }
		Ok(if v.ok() { "proven" } else { "refused" })
	});
	// A DS at a wildcard makes no delegation, whatever the child then signs; nor does a wildcard NSEC3 deny.
	mc.explore("wildcard DS and NSEC3", 0, |ch| {
		let k = Key::ed(920, ZONE | SEP);
		let q = Nm::new(*ch.pick(&["q.z.", "a.q.z.", "*.z."]));
		let mut z = Zone::single_key(&Nm::new("z."), Key::ed(921, ZONE | SEP));
		let w = Nm::new("*.z.");
		z.add(&Nm::new("x.z."), A, vec![1; 4]);
		let what = ch.choose(2);
		let at = if what == 0 { q.clone() } else { Nm::new("*.z.") };
		z.add(&w, DS, k.ds(&at, 2, 3600).rdata.clone());
		z.add(&w, TXT, txt_rdata(b"w"));
		let world = world(vec![z]);
		let z = &world.zones[1];
		let mut p = world.chain(&z.name);
		let mut evil = Zone::single_key(&q, k);
		evil.add(&q, TXT, txt_rdata(b"evil"));
		let sub = q.child("s");
		evil.add(&sub, TXT, txt_rdata(b"evil"));
		p.extend(z.signed(&w, DS, &q));
		p.extend(evil.apex());
		if ch.flag() { p.extend(evil.signed(&sub, TXT, &sub)); }
		if ch.flag() { p.extend(evil.signed(&q, TXT, &q)); }
		if ch.flag() { for r in denials(z) { p.push(z.sign_rec(&r)); p.push(r); } }
		let v = glue::verify(&p);
		ch.note(|| format!("{:#?}\n{:?}", p, v));
		for i in v.idx() { if p[*i].rdata == txt_rdata(b"evil") && q != w { return bad("wildcard ds", format!("{:?} returned through a wildcard DS", p[*i])); } }
		Ok(if v.ok() { "accepted" } else { "refused" })
	});
	mc.explore("wildcard NSEC3", 0, |ch| {
		let (w, q) = (Nm::new("*.z."), Nm::new("q.z."));
		let mut z = z1.clone();
		let h = nsec3_hash(&q, 0, &[]);
		let next = match ch.choose(3) { 0 => vec![0xff; 20], 1 => bump(&h, true), _ => vec![0; 20] };
		z.add(&w, NSEC3, nsec3_rdata(1, 0, 0, &[], &next, &[A]));
		let at = z.name.child(&base32hex(&match ch.choose(3) { 0 => bump(&h, false), 1 => vec![0; 20], _ => vec![0xff; 20] }));
		let mut p = chain1.clone();
		p.extend(z.signed(&w, TXT, &q));
		p.extend(z.signed(&w, NSEC3, &at));
		let _ = &world1;
		let v = glue::verify(&p);
		ch.note(|| format!("{:#?}\n{:?}", p, v));
		if v.ok() { return bad("wildcard nsec3", "an NSEC3 expanded from a wildcard was accepted"); }
		Ok("refused")
	});
	mc.finish()
}
