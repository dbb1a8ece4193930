//! C08: true wildcard answers with their denial records are accepted.
#[path = "../wild.rs"]
mod wild;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;
use wild::*;

/// The proof must be accepted and return exactly the wanted records.
fn expect(p: &[Rec], want: &[Rec], last: bool, what: &str, ch: &mut Chooser) -> Res {
	let v = glue::verify(p);
	ch.note(|| format!("{}\n{:#?}\nwanted {:#?}\n{:?}", what, p, want, v));
	if !v.ok() { return bad(if last { "nsec-last" } else { "rejected" }, format!("{}: true answer is {}", what, v.class())); }
	let got: Vec<&Rec> = v.idx().iter().filter_map(|i| p.get(*i)).collect();
	for w in want { if !got.iter().any(|g| g.same(w)) { return bad("missing", format!("{}: {:?} is not returned", what, w)); } }
	for g in &got { if !want.iter().any(|w| g.same(w)) { return bad("extra", format!("{}: {:?} is returned", what, g)); } }
	Ok("accepted")
}
/// All queries a wildcard truly answers.
fn answers(z: &Zone, queries: &[Nm]) -> Vec<(Nm, u16, Nm, Nm)> {
	let mut out = Vec::new();
	for q in queries { for ty in [TXT, A, CNAME, AAAA, TLSA] {
		if let Truth::Wild { source, next_closer, cname } = z.truth(q, ty) { if !cname || ty == CNAME { out.push((source, ty, q.clone(), next_closer)); } }
	} }
	out
}

fn main() {
	let mc = Mc::new("C08");
	use Kind::*;
	let nsec3 = |iters, salt: &[u8]| Denial::Nsec3 { iters, salt: salt.to_vec(), flags: 0, algo: 1 };
	let qs = names(&["a.z.", "b.z.", "m.z.", "0.z.", "a.a.z.", "m.a.z.", "0.a.z.", "a.b.z.", "m.b.z.", "m.m.z.", "a.m.z.", "m.a.a.z.", "m.m.a.z.", "a.m.a.z.", "m.m.m.m.z.", "m.*.z.", "*.m.z."]);
	let u = ["*.z.", "a.z.", "b.z.", "*.a.z.", "a.a.z.", "b.a.z.", "a.b.z.", "a.a.a.z.", "*.a.a.z.", "n.z."];
	let cfgs: Vec<(&str, Vec<Spec>)> = vec![
		("up to two names", specs(&u, &[Txt, Addr, Both, Cname, Insecure, Secure], 2)),
		("up to three names", specs(&u, mc.tier(&[Txt, Addr, Insecure], &[Txt, Addr, Both, Cname, Insecure, Secure]), 3)),
		("up to four names", if mc.tier(false, true) { specs(&u, &[Txt, Addr], 4) } else { vec![] }),
	];
	for (label, list) in &cfgs {
		if list.is_empty() { continue; }
		for d in [Denial::Nsec, nsec3(1, &[7])] {
			mc.explore(&format!("{}, {}", label, if d == Denial::Nsec { "NSEC" } else { "NSEC3" }), 0, |ch| {
				let spec = ch.pick(list);
				let mut z = zone_of("z.", 950, spec, &d);
				// With a last name the last NSEC covers no query.
				if d == Denial::Nsec && !ch.flag() { z.add(&Nm::new("zz.z."), A, vec![1; 4]); }
				let world = world(vec![z]);
				let z = &world.zones[1];
				let all = answers(z, &qs);
				if all.is_empty() { return Ok("no wildcard answers"); }
				let (w, ty, q, nc) = ch.pick(&all);
				let mut p = world.chain(&z.name);
				let (ans, cover) = (z.signed(w, *ty, q), z.cover(nc));
				match ch.choose(4) {
					0 => { p.extend(ans); p.extend(cover); },
					// The whole chain of denial records.
					1 => { p.extend(ans); for r in denials(z) { p.push(r.clone()); p.push(z.sign_rec(&r)); } },
					2 => { for r in denials(z).into_iter().rev() { p.insert(0, r.clone()); p.push(z.sign_rec(&r)); } p.extend(ans); },
					// The denial first, the answer first of all.
					_ => { let c = p; p = ans.into_iter().rev().collect(); p.extend(cover.into_iter().rev()); p.extend(c); },
				}
				let want = z.recs(w, *ty, q);
				expect(&p, &want, z.cover_is_last_nsec(nc), &format!("{} {} from {}", q.text(), type_name(*ty), w.text()), ch)
			});
		}
	}
	// Wildcards of each type, and names of the sorts that applications use.
	let mut aq: Vec<Nm> = names(&["a.z.", "m.z.", "_tcp.z.", "_.z."]);
	for up in ["b.z.", "m.z.", "_tcp.z.", "xn--a.z.", "a.b.z."] { for l in ["m", "_443._tcp", "_25._tcp.mx", "_dmarc", "x.y.z", "_1._2._3._4", "a._user._bitcoin-payment", "-", "0.0"] { aq.push(Nm::new(&format!("{}.{}", l, up))); } }
	mc.explore("wildcards of every type", 0, |ch| {
		let ty = *ch.pick(&[A, AAAA, TXT, TLSA, CNAME]);
		let d = if ch.flag() { nsec3(1, &[7]) } else { Denial::Nsec };
		let mut z = zone_of("z.", 964, &vec![("b.z.", Addr), ("a.b.z.", Addr), ("m.m.z.", Addr), ("zz.z.", Addr)], &d);
		let w = Nm::new(*ch.pick(&["*.z.", "*.b.z.", "*._tcp.z.", "*.m.z."]));
		for i in 0..1 + ch.choose(2) { if i == 0 || ty != CNAME { z.add(&w, ty, sample(ty, i as u8)); } }
		// Another type beside.
		match ch.choose(3) { 1 if ty != CNAME => z.add(&w, if ty == TXT { A } else { TXT }, sample(if ty == TXT { A } else { TXT }, 9)), 2 => z.add(&Nm::new("_tcp.z."), ty, sample(ty, 3)), _ => {} }
		let world = world(vec![z]);
		let z = &world.zones[1];
		let all = answers(z, &aq);
		let (w, ty, q, nc) = ch.pick(&all);
		let mut p = world.chain(&z.name);
		p.extend(z.signed(w, *ty, q));
		p.extend(z.cover(nc));
		// All the types of the name, or its only answer.
		let mut want = z.recs(w, *ty, q);
		if ch.flag() { for (w2, t2, q2, _) in &all { if q2 == q && t2 != ty { p.extend(z.signed(w2, *t2, q)); want.extend(z.recs(w2, *t2, q)); } } }
		expect(&p, &want, z.cover_is_last_nsec(nc), &format!("{} {} from {}", q.text(), type_name(*ty), w.text()), ch)
	});
	// The zone is the root, or is deep, or its name sorts around the wildcard.
	mc.explore("zone depths", 0, |ch| {
		let zn = Nm::new(*ch.pick(&[".", "z.", "b.z.", "c.b.z.", "a-b.0.z.", "longlabel-longlabel-longlabel-longlabel-longlabel-longlabel-lon.z."]));
		let sub = |n: &str| { let mut m = Nm::new(n); m.0.extend(zn.0.iter().cloned()); m };
		let d = if ch.flag() { nsec3(ch.choose(3) as u16, &[1]) } else { Denial::Nsec };
		let root = zn.labels() == 0;
		let mut z = if root { Zone::single_key(&zn, root_ksk()) } else { Zone::single_key(&zn, Key::ed(951, ZONE | SEP)) };
		z.denial = d;
		let w = sub(*ch.pick(&["*.", "*.s.", "*.t.s."]));
		z.add(&w, TXT, txt_rdata(b"w"));
		z.add(&sub("zz."), A, vec![1; 4]);
		let world = if root { World { zones: vec![z] } } else {
			let mut zs: Vec<Zone> = Vec::new();
			for i in 1..zn.labels() { zs.push(Zone::single_key(&zn.trailing(i), Key::ed(952 + i as u32, ZONE | SEP))); }
			zs.push(z);
			world(zs)
		};
		let z = world.zones.last().unwrap();
		let under = w.parent().unwrap();
		let mut q = under.clone();
		for l in [&["q"][..], &["r", "q"], &["*", "q"], &["q", "q", "q", "q", "q"], &["q", "*"]][ch.choose(5)].iter().rev() { q = q.child(l); }
		let Truth::Wild { source, next_closer, .. } = z.truth(&q, TXT) else { return Ok("no wildcard answers") };
		let mut p = world.chain(&z.name);
		p.extend(z.signed(&source, TXT, &q));
		p.extend(z.cover(&next_closer));
		expect(&p, &z.recs(&source, TXT, &q), z.cover_is_last_nsec(&next_closer), &format!("{} from {}", q.text(), source.text()), ch)
	});
	// NSEC over awkward names.
	let (_, z1, chain1) = synth();
	let ord = order_names(mc.tier(false, true));
	let n = ord.len();
	mc.range("NSEC order", (n * n * n) as u64, |i, ch| {
		let (o, nx, q) = (&ord[i as usize / (n * n)], &ord[i as usize / n % n], &ord[i as usize % n]);
		if q.labels() < 2 { return Ok("apex"); }
		let nc = q.trailing(2);
		if !nsec_denies(o, nx, &z1.name, &nc) { return Ok("no denial"); }
		let rec = Rec::new(o, NSEC, 3600, nsec_rdata(nx, &[A, RRSIG, NSEC]));
		let mut p = chain1.clone();
		let w = Nm::new("*.z.");
		p.extend(z1.signed(&w, TXT, q));
		p.push(rec.clone()); p.push(z1.sign_rec(&rec));
		expect(&p, &z1.recs(&w, TXT, q), *nx == z1.name, &format!("{} NSEC {} for {}", o.text(), nx.text(), nc.text()), ch)
	});
	mc.range("NSEC order, deep", (n * n * n) as u64, |i, ch| {
		let (o, nx, q) = (&ord[i as usize / (n * n)], &ord[i as usize / n % n], &ord[i as usize % n]);
		if q.labels() < 3 { return Ok("apex"); }
		let w = q.trailing(2).wild();
		if w == *q { return Ok("itself"); }
		let nc = q.trailing(3);
		if !nsec_denies(o, nx, &z1.name, &nc) { return Ok("no denial"); }
		let mut zz = z1.clone();
		zz.add(&w, TXT, txt_rdata(b"deep"));
		let rec = Rec::new(o, NSEC, 3600, nsec_rdata(nx, &[A, RRSIG, NSEC]));
		let mut p = chain1.clone();
		p.extend(zz.signed(&w, TXT, q));
		p.push(rec.clone()); p.push(zz.sign_rec(&rec));
		expect(&p, &zz.recs(&w, TXT, q), *nx == z1.name, &format!("{} NSEC {} for {}", o.text(), nx.text(), nc.text()), ch)
	});
	// NSEC3: ranges around the hash, all characters of the owner.
	mc.explore("NSEC3 ranges", 0, |ch| {
		let q = Nm::new(["q.z.", "a.z."][ch.choose(2)]);
		let iters = *ch.pick(&[0u16, 1, 5]);
		let salt = ch.pick(&[vec![], vec![1u8, 2, 3]]).clone();
		let h = nsec3_hash(&q, iters, &salt);
		let text = base32hex(&h);
		let (start, next): (Vec<u8>, Vec<u8>) = match ch.choose(3) {
			0 => {
				let (p, c) = (ch.choose(32), ch.choose(32));
				let mut t = text.clone().into_bytes();
				t[p] = HEX32[c];
				let s = unbase32(&t);
				let n = match ch.choose(4) { 0 => vec![0xff; 20], 1 => bump(&h, true), 2 => vec![0; 20], _ => bump(&s, false) };
				(s, n)
			},
			1 => { let b = ch.choose(160); let mut n = h.clone(); n[b / 8] ^= 0x80 >> (b % 8); let s = match ch.choose(4) { 0 => vec![0; 20], 1 => bump(&h, false), 2 => vec![0xff; 20], _ => bump(&n, true) }; (s, n) },
			_ => {
				let bs = [h.clone(), bump(&h, true), bump(&h, false), vec![0; 20], vec![0xff; 20], bump(&bump(&h, true), true), bump(&bump(&h, false), false)];
				(ch.pick(&bs).clone(), ch.pick(&bs).clone())
			},
		};
		// A zone of a single NSEC3 covers all but its own hash; otherwise start and next differ.
		if !hash_between(&start, &next, &h) { return Ok("no denial"); }
		let rec = Rec::new(&z1.name.child(&base32hex(&start)), NSEC3, 3600, nsec3_rdata(1, 0, iters, &salt, &next, &[A, RRSIG]));
		let mut p = chain1.clone();
		let w = Nm::new("*.z.");
		p.extend(z1.signed(&w, TXT, &q));
		p.push(rec.clone()); p.push(z1.sign_rec(&rec));
		expect(&p, &z1.recs(&w, TXT, &q), false, &format!("hash {} in {}..{}", hex(&h), hex(&start), hex(&next)), ch)
	});
	// Parameters of the hash.
	mc.explore("NSEC3 iterations and salts", 0, |ch| {
		let iters: Vec<u16> = mc.tier(vec![0, 1, 2, 10, 100, 150, 255, 256, 1000, 2499, 2500], (0..=2500).step_by(20).chain([1, 255, 256, 2499]).collect());
		let iters = *ch.pick(&iters);
		let salt: Vec<u8> = match ch.choose(12) { i @ 0..=4 => vec![i as u8; i], 5 => vec![0; 1], 6 => vec![0xff; 8], 7 => (0..44).collect(), 8 => vec![1; 63], 9 => vec![2; 64], 10 => vec![3; 128], _ => vec![4; 255] };
		let mut z = zone_of("z.", 955, &vec![("*.z.", Txt), ("a.z.", Addr), ("*.a.z.", Cname)], &nsec3(iters, &salt));
		z.add(&Nm::new("zz.z."), A, vec![1; 4]);
		let world = world(vec![z]);
		let z = &world.zones[1];
		let all = answers(z, &names(&["m.z.", "x.y.z.", "m.a.z.", "averyveryveryveryveryverylonglabelwhosehashtakesseveralblocks.averyveryveryveryveryverylonglabelwhosehashtakesseveralblocks.z."]));
		let (w, ty, q, nc) = ch.pick(&all);
		let mut p = world.chain(&z.name);
		p.extend(z.signed(w, *ty, q));
		p.extend(z.cover(nc));
		expect(&p, &z.recs(w, *ty, q), false, &format!("{} iterations, {} bytes of salt", iters, salt.len()), ch)
	});
	// A zone in transition: two parameter sets, or NSEC and NSEC3 together; also records which prove nothing beside.
	mc.explore("several chains", 0, |ch| {
		let chains = [Denial::Nsec, nsec3(0, &[]), nsec3(1, &[]), nsec3(1, &[1]), nsec3(2, &[1]), nsec3(1, &[2]), nsec3(1, &[1, 0]), nsec3(257, &[1]), nsec3(0, &[9; 255]), nsec3(0, &{ let mut s = [9; 255]; s[254] = 8; s }), Denial::Nsec3 { iters: 2600, salt: vec![], flags: 0, algo: 1 },
			Denial::Nsec3 { iters: 0, salt: vec![], flags: 1, algo: 1 }, Denial::Nsec3 { iters: 0, salt: vec![], flags: 0, algo: 2 }];
		let (c1, c2) = (&chains[ch.choose(chains.len() - 3)], &chains[ch.choose(chains.len())]);
		let spec: Spec = vec![("*.z.", Txt), ("a.z.", Addr), ("*.a.z.", Cname), ("zz.z.", Addr)];
		let world = world(vec![zone_of("z.", 956, &spec, c1)]);
		let z = &world.zones[1];
		let all = answers(z, &qs);
		let (w, ty, q, nc) = ch.pick(&all);
		let mut p = world.chain(&z.name);
		p.extend(z.signed(w, *ty, q));
		let mut extra: Vec<Rec> = Vec::new();
		let mut z2 = z.clone();
		z2.denial = c2.clone();
		for r in denials(&z2) { extra.push(r.clone()); extra.push(z2.sign_rec(&r)); }
		// The other chain may or may not deny the name as well.
		if ch.flag() { let own = z2.cover(nc); extra.retain(|e| !own.contains(e)); }
		// One owner name holds one NSEC3 RRset: chains of equal parameters would be the same records.
		let cover = z.cover(nc);
		if extra.iter().any(|e| e.name == cover[0].name && e.ty == cover[0].ty && *e != cover[0]) { return Ok("one RRset"); }
		extra.retain(|e| !cover.contains(e));
		if ch.flag() { p.extend(cover); p.extend(extra); } else { p.extend(extra); p.extend(cover); }
		expect(&p, &z.recs(w, *ty, q), z.cover_is_last_nsec(nc), &format!("{:?} beside {:?}, {}", c1, c2, q.text()), ch)
	});
	// Several answers in one proof.
	mc.explore("several answers", 0, |ch| {
		let spec: Spec = vec![("*.z.", Both), ("*.a.z.", Txt), ("b.z.", Addr), ("m.a.z.", Addr), ("d.b.z.", Txt), ("*.b.z.", Cname), ("zz.z.", Addr)];
		let d = if ch.flag() { nsec3(1, &[5]) } else { Denial::Nsec };
		let world = world(vec![zone_of("z.", 957, &spec, &d)]);
		let z = &world.zones[1];
		let all = answers(z, &names(&["c.z.", "m.z.", "x.c.z.", "x.a.z.", "n.a.z.", "x.b.z.", "e.x.b.z.", "c.c.z."]));
		let k = mc.tier(3, 4);
		let mut p = world.chain(&z.name);
		let (mut want, mut denial): (Vec<Rec>, Vec<Rec>) = (vec![], vec![]);
		let mut from = 0;
		for _ in 0..k {
			if from >= all.len() { break; }
			let i = from + ch.choose(all.len() - from);
			let (w, ty, q, nc) = &all[i];
			if z.cover_is_last_nsec(nc) { return Ok("last NSEC"); }
			p.extend(z.signed(w, *ty, q));
			want.extend(z.recs(w, *ty, q));
			for r in z.cover(nc) { if !denial.contains(&r) { denial.push(r); } }
			from = i + 1;
		}
		if ch.flag() { denial.reverse(); }
		// Real data beside them.
		if ch.flag() { let n = Nm::new("b.z."); p.extend(z.signed(&n, A, &n)); want.extend(z.recs(&n, A, &n)); }
		p.extend(denial);
		expect(&p, &want, false, "several answers", ch)
	});
	// Answers from several zones in one proof, each with its own way of denial.
	mc.explore("several zones", 0, |ch| {
		let ds = [Denial::Nsec, nsec3(0, &[]), nsec3(3, &[1, 2])];
		let (d1, d2) = (ch.pick(&ds).clone(), ch.pick(&ds).clone());
		let child = *ch.pick(&["b.z.", "a.b.z.", "y."]);
		let mut zc = zone_of(child, 959, &vec![], &d2);
		let c = Nm::new(child);
		zc.add(&c.wild(), TXT, txt_rdata(b"child"));
		zc.add(&c.child("zz"), A, vec![1; 4]);
		zc.add(&c.child("m"), A, vec![1; 4]);
		let world = world(vec![zone_of("z.", 958, &vec![("*.z.", Txt), ("zz.z.", Addr)], &d1), zc]);
		let mut p = world.chain(&Nm::new("z."));
		for r in world.chain(&c) { if !p.contains(&r) { p.push(r); } }
		let mut want = vec![];
		let mut parts = Vec::new();
		for (z, q) in [(&world.zones[1], Nm::new("q.z.")), (&world.zones[2], c.child("q"))] {
			let Truth::Wild { source, next_closer, .. } = z.truth(&q, TXT) else { return Ok("no wildcard answers") };
			let mut part = z.signed(&source, TXT, &q);
			part.extend(z.cover(&next_closer));
			want.extend(z.recs(&source, TXT, &q));
			parts.push(part);
		}
		if ch.flag() { parts.reverse(); }
		for x in parts { p.extend(x); }
		expect(&p, &want, false, child, ch)
	});
	// Answers of every size.
	const LARGE: [usize; 5] = [65, 129, 256, 257, 300];
	mc.explore("more and more", 0, |ch| {
		let dim = ch.choose(GROWTH.len());
		let d = if ch.flag() { nsec3(1, &[5]) } else { Denial::Nsec };
		let many = matches!(dim, 2 | 3 | 4 | 10);
		let n = 1 + ch.choose(if many { mc.tier(40, 160) } else { mc.tier(126, 250) } + LARGE.len());
		let n = n.checked_sub(if many { mc.tier(41, 161) } else { mc.tier(127, 251) }).map(|i| LARGE[i]).unwrap_or(n);
		let Some((world, answers)) = grown(dim, n, &d) else { return Ok("no such answer") };
		let (mut chain, mut ans, mut denial, mut want): (Vec<Rec>, Vec<Rec>, Vec<Rec>, Vec<Rec>) = Default::default();
		let whole = ch.flag();
		let mut zones = std::collections::BTreeSet::new();
		let mut last = false;
		for a in &answers {
			let z = &world.zones[a.zone];
			if zones.insert(a.zone) {
				for r in world.chain(&z.name) { if !chain.contains(&r) { chain.push(r); } }
				if whole { for r in denials(z) { let s = z.sign_rec(&r); denial.extend([r, s]); } }
			}
			if !whole { for r in z.cover(&a.nc) { if !denial.contains(&r) { denial.push(r); } } }
			last |= z.cover_is_last_nsec(&a.nc);
			ans.extend(z.signed(&a.source, a.ty, &a.at));
			want.extend(z.recs(&a.source, a.ty, &a.at));
		}
		let mut p: Vec<Rec> = if ch.flag() { [denial, ans, chain].concat() } else { [chain, ans, denial].concat() };
		if ch.flag() { p.reverse(); }
		expect(&p, &want, last, &format!("{} of {}", GROWTH[dim], n), ch)
	});
	// The literal wildcard name.
	mc.explore("literal wildcard, every type", 0, |ch| {
		let ty = *ch.pick(&DATA);
		let d = if ch.flag() { nsec3(1, &[5]) } else { Denial::Nsec };
		let mut z = zone_of("z.", 961, &vec![("zz.z.", Addr), ("b.z.", Addr)], &d);
		let names: Vec<Nm> = (if matches!(ty, DNAME | NS) { &["*.a.z.", "*._u.z."][..] } else { &["*.z.", "*.a.z.", "*.*.z.", "a.*.z.", "*._u.z."][..] }).iter().map(|n| Nm::new(n)).collect();
		for (i, n) in names.iter().enumerate() { for j in 0..if ty == CNAME || ty == DNAME { 1 } else { 2 } { z.add(n, ty, sample(ty, (i * 2 + j) as u8)); } }
		let world = world(vec![z]);
		let z = &world.zones[1];
		let mut p = world.chain(&z.name);
		let mut want = vec![];
		for i in ch.subset(names.len()) { p.extend(z.signed(&names[i], ty, &names[i])); want.extend(z.recs(&names[i], ty, &names[i])); }
		if want.is_empty() { return Ok("nothing asked"); }
		if ch.flag() { for r in denials(z) { p.push(r.clone()); p.push(z.sign_rec(&r)); } }
		expect(&p, &want, false, "literal wildcards", ch)
	});
	mc.explore("literal wildcard", 0, |ch| {
		let d = if ch.flag() { nsec3(1, &[5]) } else { Denial::Nsec };
		let world = world(vec![zone_of("z.", 960, &vec![("*.z.", Both), ("*.a.z.", Txt), ("a.*.z.", Txt), ("*.*.z.", Txt), ("*.c.z.", Cname), ("*.*.c.z.", Cname), ("zz.z.", Addr)], &d)]);
		let z = &world.zones[1];
		let mut p = world.chain(&z.name);
		let mut want = vec![];
		let qs = [("*.z.", TXT), ("*.z.", A), ("*.a.z.", TXT), ("a.*.z.", TXT), ("*.*.z.", TXT), ("*.c.z.", CNAME), ("*.*.c.z.", CNAME)];
		for i in ch.subset(qs.len()) { let (n, t) = (Nm::new(qs[i].0), qs[i].1); p.extend(z.signed(&n, t, &n)); want.extend(z.recs(&n, t, &n)); }
		if want.is_empty() { return Ok("nothing asked"); }
		if ch.flag() { for r in denials(z) { p.push(r.clone()); p.push(z.sign_rec(&r)); } }
		expect(&p, &want, false, "literal wildcards", ch)
	});
	mc.finish()
}
