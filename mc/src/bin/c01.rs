//! C01: only records signed through an unbroken chain of zone keys from the trust anchor are returned.
#[path = "../sweep.rs"]
mod sweep;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

const ZONES: [&str; 3] = [".", "z.", "s.z."];
/// One level's honest keys, and keys that are in the zone's signed DNSKEY set without being zone keys
/// of their algorithm; whoever holds the latter must not be able to make up records.
struct Level { zone: Zone, weird: Vec<Key>, evil: Key, evil_ksk: Key, evil_zsk: Key }
/// What one record set of the proof is, and who signed it.
fn level(i: usize) -> Level {
	let name = Nm::new(ZONES[i]);
	let (ksk, zsk) = if i == 0 { (root_ksk(), Key::ed(1, ZONE)) } else { (Key::ed(10 * i as u32, ZONE | SEP), Key::ed(10 * i as u32 + 1, ZONE)) };
	let b = 1000 + 100 * i as u32;
	let weird = vec![Key::ed(b, SEP), Key::ed(b + 1, ZONE | SEP).with_proto(2), Key::ed(b + 2, ZONE | SEP).with_alg(253)];
	let evil = Key::ed(b + 3, ZONE | SEP);
	let (evil_ksk, evil_zsk) = (Key::colliding(b + 4, ksk.tag()), Key::colliding(b + 5, zsk.tag()));
	let mut zone = Zone::new(&name, ksk, zsk);
	zone.keys.extend(weird.iter().cloned());
	Level { zone, weird, evil, evil_ksk, evil_zsk }
}
/// A signature claiming the algorithm 15 whatever the key is announced as.
fn forge(k: &Key, signer: &Nm, recs: &[Rec]) -> Rec {
	let mut s = sign_recs(&k.with_alg(15), signer, recs, WIN).rrsig().unwrap();
	s.tag = k.tag();
	s.sig = Vec::new();
	let rd: Vec<Vec<u8>> = recs.iter().map(|r| r.rdata.clone()).collect();
	s.sig = k.sign(&signed_bytes(&s, &recs[0].name, &rd));
	Rec::new(&recs[0].name, RRSIG, WIN.ttl, s.rdata())
}
struct Tree { levels: Vec<Level>, world: World }
fn tree() -> Tree {
	let mut levels: Vec<Level> = (0..3).map(level).collect();
	for i in 0..2 {
		// The parent's genuine DS set also has the child's keys that must not sign.
		let child = Nm::new(ZONES[i + 1]);
		let mut ds = levels[i + 1].zone.ds(2);
		ds.extend(levels[i + 1].weird.iter().map(|k| k.ds(&child, 2, 3600)));
		levels[i].zone.delegate(&child, &ds);
	}
	for i in 0..3 {
		let t = Nm::new(ZONES[i]).child("t");
		levels[i].zone.add(&t, TXT, txt_rdata(b"genuine"));
		levels[i].zone.add(&t, TXT, txt_rdata(b"genuine too"));
		levels[i].zone.add(&t, A, vec![1, 2, 3, 4]);
		levels[i].zone.add(&Nm::new(ZONES[i]).child("u"), TXT, txt_rdata(b"other"));
		levels[i].zone.add(&Nm::new(ZONES[i]).child("w").wild(), TXT, txt_rdata(b"wild"));
	}
	let world = World { zones: levels.iter().map(|l| l.zone.clone()).collect() };
	Tree { levels, world }
}
/// Picks who signed `recs` (altered or not): only honest signatures over honest data, or attackers'.
fn signature(l: &Level, honest: Rec, recs: &[Rec], zsk: bool, others: &[&Key], pick: usize) -> Vec<Rec> {
	let z = &l.zone.name;
	match pick {
		0 => vec![honest],
		1 => vec![forge(&l.evil, z, recs)],
		2 => vec![forge(if zsk { &l.evil_zsk } else { &l.evil_ksk }, z, recs)],
		3..=5 => vec![forge(&l.weird[pick - 3], z, recs)],
		6 => vec![forge(&l.evil, z, recs), honest],
		7 => vec![],
		// The honest signature with forged parameters, or the honest key's tag on a forged signature.
		8 => { let mut s = forge(&l.evil, z, recs).rrsig().unwrap(); s.tag = l.zone.keys[zsk as usize].tag(); vec![Rec::new(&recs[0].name, RRSIG, 1, s.rdata())] },
		n => { let k = others[n - 9]; vec![forge(k, z, recs)] },
	}
}
const OTHERS: &[&str] = &["k", "..", "t", "xz.", "z.s."];
fn keyset(l: &Level, pick: usize) -> Vec<Rec> {
	let g = l.zone.recs(&l.zone.name, DNSKEY, &l.zone.name);
	let e = |k: &Key| k.rec(&l.zone.name, 3600);
	match pick {
		0 => g,
		1 => { let mut v = g; v.insert(0, e(&l.evil)); v },
		2 => { let mut v = vec![e(&l.evil_ksk), e(&l.evil_zsk)]; v.extend(g); v },
		3 => { let mut v = g; v.push(e(&l.evil_ksk)); v.push(e(&l.evil_zsk)); v },
		4 => vec![e(&l.evil), e(&l.evil_ksk), e(&l.evil_zsk)],
		// Keys of other names beside the zone's own.
		_ => { let mut v = vec![]; for n in OTHERS { let n = if *n == ".." { l.zone.name.parent().unwrap_or(Nm::new("x.")) } else if n.ends_with('.') { Nm::new(n) } else { l.zone.name.child(n) }; v.push(l.evil.rec(&n, 3600)); v.push(l.evil_zsk.rec(&n, 3600)); } v.extend(g); v },
	}
}
fn judge(t: &Tree, recs: &[Rec], ch: &mut Chooser) -> Res {
	let v = glue::verify(recs);
	ch.note(|| format!("{:#?}\n{:?}", recs, v));
	for i in v.idx() {
		if *i == usize::MAX { return bad("foreign", "a returned record is not one of the input's"); }
		if !t.world.genuine(&recs[*i]) { return bad("forged", format!("returned although no trusted key of its zone signed it: {:?}", recs[*i])); }
	}
	Ok(v.class())
}
/// One proof of `depth` levels; `d` picks among n alternatives of which 0 is honest.
fn attack(t: &Tree, depth: usize, ch: &mut Chooser, d: &dyn Fn(&mut Chooser, usize) -> usize) -> Res {
	let mut p = Vec::new();
	let reverse = d(ch, 2) == 1;
	for i in 0..depth {
		let l = &t.levels[i];
		let keys = keyset(l, d(ch, 6));
		let hs = l.zone.sigs(&l.zone.name, DNSKEY, &l.zone.name).remove(0);
		let other: Vec<&Key> = if i > 0 { vec![&t.levels[i - 1].evil] } else { vec![] };
		let s = signature(l, hs, &keys, false, &other, { let n = d(ch, 9 + other.len()); n });
		p.extend(keys);
		p.extend(s);
		if i + 1 < depth {
			let c = &t.levels[i + 1];
			let g = l.zone.recs(&c.zone.name, DS, &c.zone.name);
			let e = vec![c.evil.ds(&c.zone.name, 2, 3600), c.evil_ksk.ds(&c.zone.name, 2, 3600)];
			let set = match d(ch, 3) { 0 => g, 1 => { let mut v = e; v.extend(g); v }, _ => e };
			let hs = l.zone.sigs(&c.zone.name, DS, &c.zone.name).remove(0);
			let other = [&c.evil, &c.weird[0]];
			let n = d(ch, 12);
			let s = if n == 11 { vec![forge(&c.evil, &c.zone.name, &set)] } else { signature(l, hs, &set, true, &other, n) };
			p.extend(set);
			p.extend(s);
		}
	}
	let l = &t.levels[depth - 1];
	let z = &l.zone;
	let tn = z.name.child("t");
	let (mut honest, g) = (z.sigs(&tn, TXT, &tn).remove(0), z.recs(&tn, TXT, &tn));
	let forged = Rec::new(&tn, TXT, 3600, txt_rdata(b"forged"));
	let set = match d(ch, 8) {
		0 => g,
		1 => vec![forged],
		2 => { let mut v = g; v.push(forged); v },
		3 => g[..1].to_vec(),
		// Genuine data under another name, with its signature.
		4 => { let n = z.name.child("v"); honest.name = n.clone(); g.iter().map(|r| Rec { name: n.clone(), ..r.clone() }).collect() },
		// Genuine data under another type.
		5 => g.iter().map(|r| Rec { ty: TLSA, ..r.clone() }).collect(),
		// Genuine data of another name, replacing this one's.
		6 => { let u = z.name.child("u"); honest = Rec { name: tn.clone(), ..z.sigs(&u, TXT, &u).remove(0) }; z.recs(&u, TXT, &tn) },
		// A wildcard's data for a name it does not apply to.
		_ => { let w = z.name.child("w").wild(); honest = z.sigs(&w, TXT, &tn).remove(0); z.recs(&w, TXT, &tn) },
	};
	let parents: Vec<&Key> = if depth > 1 { vec![&t.levels[depth - 2].evil, &t.levels[depth - 2].weird[0], &t.levels[depth - 2].weird[2]] } else { vec![] };
	let n = d(ch, 14 + parents.len());
	let s = match n {
		0..=8 => signature(l, honest, &set, true, &[], n),
		9..=13 => {
			let mut s = honest.rrsig().unwrap();
			match n {
				9 => s.covered = set[0].ty,
				10 => { s.covered = set[0].ty; s.labels = s.labels.saturating_sub(1); },
				11 => s.labels = 0,
				12 => s.alg = 253,
				_ => { s.alg = 253; s.tag = l.weird[2].tag(); },
			}
			vec![Rec { rdata: s.rdata(), ..honest }]
		},
		_ => signature(l, honest, &set, true, &parents, n - 5),
	};
	p.extend(set);
	p.extend(s);
	// Without further genuine records, keys of colliding tags have the place to themselves.
	if d(ch, 2) == 0 { p.extend(z.signed(&tn, A, &tn)); }
	// Unsigned records beside the signed ones.
	let more = |n: &Nm, ty, rd: Vec<u8>| Rec::new(n, ty, 3600, rd);
	match d(ch, 5) {
		0 => {},
		1 => { p.push(more(&tn, NS, Nm::new("ns.evil.").wire())); p.push(more(&tn, AAAA, vec![6; 16])); p.insert(0, more(&tn, TLSA, tlsa_rdata(3, 1, 1, &[6; 32]))); },
		2 => { p.push(more(&tn, CNAME, Nm::new("evil.").wire())); p.push(more(&z.name, DNAME, Nm::new("evil.").wire())); },
		3 => for n in [tn.child("a"), z.name.clone(), z.name.child("xt"), z.name.child("w").child("b"), Nm::new("t.")] { for ty in [TXT, A] { let r = more(&n, ty, if ty == A { vec![6; 4] } else { txt_rdata(b"unsigned") }); if !p.iter().any(|x| x.name == n && x.ty == ty) { p.push(r.clone()); p.insert(0, r); } } },
		_ => { p.push(more(&tn, NSEC, nsec_rdata(&tn, &[A]))); p.push(more(&tn, DS, ds_rdata(1, 15, 2, &[1; 32]))); },
	}
	if reverse { p.reverse(); }
	judge(t, &p, ch)
}

fn main() {
	let mc = Mc::new("C01");
	mc.assume("signatures are unforgeable: the attacker signs only with keys that are not honest zone keys");
	let t = tree();
	mc.single("anchors", |_| {
		let iana: [(u16, &str); 3] = [(19036, "49aac11d7b6f6446702e54a1607371607a1a41855200fd2ce1cdde32f24e8fb5"), (20326, "e06d44b80b8f1d39a95c0b0d7c65d08458e880409bbc683457104237c7f8ec8d"), (38696, "683d2d0acb8c9b712a1948b27f741219298d0a450d612c483af444a4c0fb2b16")];
		let mut seen = Vec::new();
		let mut hook = 0;
		for ds in dnssec_prover::validation::root_hints() {
			if ds.name.as_str() != "." { return bad("anchor", format!("trust anchor for {}", ds.name)); }
			if ds.digest == root_ksk().digest(&Nm::root(), 2) { hook += 1; continue; }
			if !iana.iter().any(|(tag, d)| *tag == ds.key_tag && ds.alg == 8 && ds.digest_type == 2 && hex(&ds.digest) == *d) { return bad("anchor", format!("not an IANA root anchor: {:?}", ds)); }
			seen.push(ds.key_tag);
		}
		if hook != 1 { return bad("anchor", "harness anchor missing"); }
		if !seen.contains(&20326) { return bad("anchor", "the root key in use is not trusted"); }
		Ok("anchors")
	});
	mc.explore("two levels, every attack", 0, |ch| attack(&t, 1, ch, &|ch, n| ch.choose(n)));
	mc.explore("three levels, few attacks", mc.tier(5, 7), |ch| attack(&t, 2, ch, &|ch, n| ch.dev(n)));
	mc.explore("four levels, few attacks", mc.tier(3, 5), |ch| attack(&t, 3, ch, &|ch, n| ch.dev(n)));
	// Every algorithm number, on a key of the zone, a key that is not in it, or none.
	mc.range("every algorithm number", 256 * 6 * 4 * 7, |i, ch| {
		let ty = DATA[(i / (256 * 6 * 4)) as usize];
		let i = i % (256 * 6 * 4);
		let (alg, k, s) = ((i & 255) as u8, (i >> 8) % 6, (i >> 8) / 6);
		let key = if [8, 10, 13, 14, 15].contains(&alg) && k < 3 { Key::of_alg(alg, 1, ZONE) } else { Key::ed(77, if k & 1 == 0 { ZONE } else { ZONE | SEP }).with_alg(alg) };
		let honest = [8u8, 10, 13, 14, 15].contains(&alg) && k < 3;
		let mut z = Zone::new(&Nm::new("z."), Key::ed(70, ZONE | SEP), Key::ed(71, ZONE));
		if k != 5 { z.keys.push(key.clone()); }
		let mut root = root_zone();
		root.delegate(&z.name, &z.ds(2));
		let mut w = World { zones: vec![root, z.clone()] };
		let n = Nm::new("t.z.");
		w.zones[1].add(&n, ty, sample(ty, 1));
		let forged = Rec::new(&n, ty, 3600, sample(ty, 9));
		let g = w.zones[1].sigs(&n, ty, &n)[0].rrsig().unwrap().sig;
		let info = SigInfo { covered: ty, alg, labels: 2, orig_ttl: 1, expiration: WIN.expiration, inception: WIN.inception, tag: key.tag(), signer: z.name.clone(),
			sig: match s { 0 => g, 1 => vec![], 2 => vec![1; 64], _ => if honest { vec![0; key.public.len()] } else {
				let i = SigInfo { covered: ty, alg, labels: 2, orig_ttl: 1, expiration: WIN.expiration, inception: WIN.inception, tag: key.tag(), signer: z.name.clone(), sig: vec![] };
				Key::ed(77, ZONE).sign(&signed_bytes(&i, &n, &[forged.rdata.clone()])) } } };
		// The key really is one of the zone's if announced with algorithm 15.
		if alg == 15 && s == 3 && k >= 3 && k != 5 { return Ok("skipped: honest key"); }
		let mut p = w.chain(&z.name);
		p.push(forged);
		p.push(Rec::new(&n, RRSIG, 1, info.rdata()));
		let n2 = Nm::new("u.z.");
		w.zones[1].add(&n2, TXT, txt_rdata(b"anchor"));
		p.extend(w.zones[1].signed(&n2, TXT, &n2));
		let v = glue::verify(&p);
		ch.note(|| format!("{:#?}\n{:?}", p, v));
		for i in v.idx() { if !w.genuine(&p[*i]) { return bad("forged", format!("forged record returned: {:?}", p[*i])); } }
		Ok(v.class())
	});
	// Every protocol number and every flags value of a key in the zone's authentic key set, which
	// signs data or the key set: only a zone key of DNSSEC's protocol counts.
	mc.range("every protocol number and flags value", (256 + 65536) * 2, |i, ch| {
		let (j, top) = (i / 2, i & 1 == 1);
		let mut key = Key::ed(78, ZONE | SEP);
		if j < 256 { key.proto = j as u8; } else { key.flags = (j - 256) as u16; }
		let proper = key.proto == 3 && key.flags & ZONE != 0;
		let mut z = Zone::new(&Nm::new("z."), if top { key.clone() } else { Key::ed(70, ZONE | SEP) }, if top { Key::ed(71, ZONE) } else { key.clone() });
		let mut root = root_zone();
		root.delegate(&z.name, &z.ds(2));
		let n = Nm::new("t.z.");
		z.add(&n, TXT, txt_rdata(b"data"));
		let w = World { zones: vec![root, z] };
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&n, TXT, &n));
		let v = glue::verify(&p);
		ch.note(|| format!("{:#?}\n{:?}", p, v));
		if v.ok() && !proper { return bad("key", format!("a key of flags {} and protocol {} signed what is returned", key.flags, key.proto)); }
		Ok(if proper { "zone key" } else { "no zone key" })
	});
	// Every way to make up a record of each type, at each sort of name.
	mc.explore("records of every type", 0, |ch| {
		let ty = *ch.pick(&DATA);
		let zn = Nm::new(*ch.pick(&["z.", "s.z."]));
		let k = if ty == CNAME || ty == DNAME { 1 } else { 1 + ch.choose(3) };
		let evil = Key::ed(1300, ZONE);
		let mut z = Zone::new(&zn, Key::ed(80, ZONE | SEP), Key::ed(81, ZONE));
		let weird = [Key::ed(1301, SEP), Key::ed(1302, ZONE).with_proto(2), Key::ed(1303, ZONE).with_alg(253), Key::ed(1304, ZONE).with_alg(16), Key::ed(1305, ZONE).with_alg(5)];
		z.keys.extend(weird.iter().cloned());
		let sort = ch.choose(5);
		let owner = match sort { 0 => zn.clone(), 1 => zn.child("t"), 2 => zn.child("d").child("_c").child("b"), _ => zn.child("w").wild() };
		let at = if sort == 4 { zn.child("w").child("q") } else { owner.clone() };
		for i in 0..k { z.add(&owner, ty, sample(ty, i as u8)); }
		z.add(&zn.child("w").child("x"), A, vec![8; 4]);
		z.add(&zn.child("v"), ty, sample(ty, 7));
		let mut zones = vec![root_zone()];
		if zn.labels() == 2 { let y = Zone::single_key(&zn.parent().unwrap(), Key::ed(84, ZONE | SEP)); zones[0].delegate(&y.name, &y.ds(2)); zones.push(y); }
		let (n, ds) = (z.name.clone(), z.ds(2));
		zones.last_mut().unwrap().delegate(&n, &ds);
		zones.push(z);
		let w = World { zones };
		let z = w.zones.last().unwrap();
		let (g, honest) = (z.recs(&owner, ty, &at), z.sigs(&owner, ty, &at).remove(0));
		let spare = |i: u8| Rec::new(&at, ty, 3600, sample(ty, i));
		let by = |key: &Key, recs: &[Rec]| { let mut s = forge(key, &zn, recs).rrsig().unwrap(); s.alg = key.alg; Rec::new(&recs[0].name, RRSIG, 3600, s.rdata()) };
		let way = ch.choose(17);
		let (set, sigs): (Vec<Rec>, Vec<Rec>) = match way {
			0 => (g.clone(), vec![honest]),
			1 => { let mut v = g.clone(); let l = v.last_mut().unwrap(); l.rdata = sample(ty, 9); (v, vec![honest]) },
			2 => { let mut v = g.clone(); v.push(spare(9)); (v, vec![honest]) },
			3 => { let mut v = g.clone(); v.insert(0, spare(0xff)); (v, vec![honest]) },
			4 => { let mut v = g.clone(); v.pop(); (v, vec![honest]) },
			5 => (vec![spare(9)], vec![by(&evil, &[spare(9)])]),
			6 => { let mut s = by(&evil, &[spare(9)]).rrsig().unwrap(); s.tag = z.keys[1].tag(); (vec![spare(9)], vec![Rec::new(&at, RRSIG, 1, s.rdata())]) },
			7..=11 => (vec![spare(9)], vec![by(&weird[way - 7], &[spare(9)])]),
			12 => (g.clone(), vec![]),
			// Another name's or type's, with its signature.
			13 => { let v = zn.child("v"); let mut s = z.sigs(&v, ty, &v).remove(0); s.name = at.clone(); (z.recs(&v, ty, &at), vec![s]) },
			14 => { let n = zn.child("u"); let mut s = honest; s.name = n.clone(); (g.iter().map(|r| Rec { name: n.clone(), ..r.clone() }).collect(), vec![s]) },
			15 => { let t2 = match ty { A => TXT, AAAA => TLSA, NS => CNAME, TXT => TLSA, TLSA => AAAA, CNAME => DNAME, _ => NS }; let mut i = honest.rrsig().unwrap(); if ch.flag() { i.covered = t2; } (g.iter().map(|r| Rec { ty: t2, ..r.clone() }).collect(), vec![Rec { rdata: i.rdata(), ..honest }]) },
			_ => (vec![spare(9)], vec![by(&weird[2], &[spare(9)]), honest]),
		};
		let mut p = w.chain(&zn);
		// The honest set first or not at all, the proper key's other signature beside.
		let x = zn.child("w").child("x");
		let beside = z.signed(&x, A, &x);
		if ch.flag() { p.extend(beside.clone()); }
		if ch.flag() { p.extend(sigs); p.extend(set); } else { p.extend(set); p.extend(sigs); }
		if sort == 4 { p.extend(z.cover(&at)); }
		let s = forge(&evil, &zn, &p[p.len() - 1..]);
		if ch.flag() { p.push(s); }
		let v = glue::verify(&p);
		ch.note(|| format!("{} at {}, way {}\n{:#?}\n{:?}", type_name(ty), at.text(), way, p, v));
		for i in v.idx() {
			if *i == usize::MAX { return bad("foreign", "a returned record is not one of the input's"); }
			let r = &p[*i];
			if !w.genuine(r) && !g.contains(r) && !beside.contains(r) { return bad("forged", format!("forged record returned: {:?}", r)); }
			// What is returned of a set must be the whole of it.
			if r.name == at && r.ty == ty && v.idx().iter().filter(|j| p[**j].name == at && p[**j].ty == ty).count() != g.len() { return bad("partial", format!("only some of the records {:?} returned", g)); }
		}
		Ok(v.class())
	});
	// Signatures which have served for something else in the same proof, or seem to.
	mc.explore("replays beside the original", 0, |ch| {
		let evil = Key::ed(1400, ZONE | SEP);
		let mut zones = vec![root_zone(), Zone::new(&Nm::new("z."), Key::ed(85, ZONE | SEP), Key::ed(86, ZONE)), Zone::new(&Nm::new("s.z."), Key::ed(87, ZONE | SEP), Key::ed(88, ZONE))];
		for i in 1..3 {
			let (c, ds) = (zones[i].name.clone(), zones[i].ds(2));
			zones[i - 1].delegate(&c, &ds);
			let n = c.child("t");
			zones[i].add(&n, TXT, txt_rdata(b"data"));
			zones[i].add(&n, A, vec![1; 4]);
			zones[i].add(&c.child("u"), TXT, txt_rdata(b"data"));
			zones[i].add(&c.child("w").wild(), TXT, txt_rdata(b"data"));
		}
		let w = World { zones };
		let q = Nm::new("q.w.z.");
		let mut p = w.chain(&Nm::new("s.z."));
		for z in &w.zones[1..] { let n = z.name.child("t"); p.extend(z.signed(&n, TXT, &n)); p.extend(z.signed(&n, A, &n)); }
		let expansion = ch.flag();
		if expansion { p.extend(w.zones[1].signed(&q.parent().unwrap().wild(), TXT, &q)); p.extend(w.zones[1].cover(&q)); }
		let sigs: Vec<Rec> = p.iter().filter(|r| r.ty == RRSIG).cloned().collect();
		let from = ch.pick(&sigs);
		let orig = from.rrsig().unwrap();
		let e = Zone::single_key(&Nm::new("e.z."), evil.clone());
		let (zn, sn) = (Nm::new("z."), Nm::new("s.z."));
		let txt = |n: &str| vec![Rec::new(&Nm::new(n), TXT, 3600, txt_rdata(b"forged"))];
		let set: Vec<Rec> = match ch.choose(12) {
			0 => txt("f.z."), 1 => txt("t.z."), 2 => txt("u.z."), 3 => txt("f.s.z."), 4 => txt("a.b.z."), 5 => txt("r.w.z."), 6 => txt("f."),
			7 => vec![Rec::new(&zn.child("t"), AAAA, 3600, vec![6; 16])],
			8 => vec![Rec::new(&zn.child("t"), A, 3600, vec![6; 4])],
			9 => e.ds(2),
			10 => vec![evil.ds(&sn, 2, 3600)],
			_ => vec![evil.rec(&sn, 3600)],
		};
		let mut i = orig.clone();
		i.covered = set[0].ty;
		// All else is the original's, or what it should be for the forged set; the signature's bytes are the original's or the attacker's.
		if ch.flag() { i.labels = set[0].name.labels() as u8; }
		if ch.flag() { let z = if set[0].name.below(&sn) || set[0].ty == DNSKEY { 2 } else { 1 }; i.signer = w.zones[z].name.clone(); i.tag = w.zones[z].keys[(set[0].ty != DNSKEY) as usize].tag(); }
		if ch.flag() { let rd: Vec<Vec<u8>> = set.iter().map(|r| r.rdata.clone()).collect(); i.sig = evil.sign(&signed_bytes(&i, &set[0].name, &rd)); }
		if ch.flag() { i.orig_ttl ^= 1; i.inception -= 1; }
		let mut f = set.clone();
		f.push(Rec::new(&set[0].name, RRSIG, 3600, i.rdata()));
		// What the forged delegation or keys are good for.
		let ez = if set[0].ty == DS { let mut v = Zone::single_key(&set[0].name, evil.clone()).apex(); v.push(Rec::new(&set[0].name.child("g"), TXT, 3600, txt_rdata(b"forged"))); let s = forge(&evil, &set[0].name, &v[v.len() - 1..]); v.push(s); v }
			else if set[0].ty == DNSKEY { let r = Rec::new(&sn.child("g"), TXT, 3600, txt_rdata(b"forged")); let s = forge(&evil, &sn, &[r.clone()]); vec![r, s] } else { vec![] };
		f.extend(ez);
		// The set the name already has is replaced.
		if ch.flag() { p.retain(|r| !(r.name == set[0].name && (r.ty == set[0].ty || r.ty == RRSIG && r.rrsig().map(|i| i.covered == set[0].ty).unwrap_or(false) && r != from))); }
		let p = if ch.flag() { f.extend(p); f } else { p.extend(f); p };
		let p = if ch.flag() { p.into_iter().rev().collect() } else { p };
		let v = glue::verify(&p);
		ch.note(|| format!("{:#?}\n{:?}", p, v));
		for i in v.idx() {
			if *i == usize::MAX { return bad("foreign", "a returned record is not one of the input's"); }
			if !w.genuine(&p[*i]) { return bad("forged", format!("forged record returned: {:?}", p[*i])); }
		}
		Ok(v.class())
	});
	// Proofs of which one dimension is large, with one record tampered with: the ones at the start,
	// the middle and the end, next to a change of type.
	let sizes: Vec<usize> = if mc.tier(false, true) { (1..=130).chain([254, 255, 256, 257, 300]).collect() } else { (1..=12).chain([16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect() };
	for (d, label) in sweep::DIMS.iter().enumerate() {
		mc.explore(&format!("tampering with many {}", label), usize::MAX, |ch| {
			let n = *ch.pick(&sizes);
			let Some(s) = sweep::build(d, n) else { return Ok("too long") };
			let p = &s.proof;
			let at: Vec<usize> = (0..p.len()).filter(|i| *i < 2 || i + 2 >= p.len() || p[i - 1].ty != p[*i].ty || p[i + 1].ty != p[*i].ty || p.len() / 2 == *i).collect();
			// Of many alike stretches the first and last.
			let at: Vec<usize> = if at.len() > 24 { at[..12].iter().chain(&at[at.len() - 12..]).cloned().collect() } else { at };
			let (i, way) = (*ch.pick(&at), ch.choose(sweep::WAYS));
			let Some(mut q) = sweep::tamper(&s, i, way) else { return Ok("no such way") };
			if ch.flag() { q.reverse(); }
			let v = glue::verify(&q);
			ch.note(|| format!("{} {}, record {} ({:?}), way {}\n{:#?}\n{:?}", n, label, i, p[i], way, q, v));
			for i in v.idx() {
				if *i == usize::MAX { return bad("foreign", "a returned record is not one of the input's"); }
				if !s.world.genuine(&q[*i]) && !(q[*i].ty == CNAME && s.want.contains(&q[*i])) { return bad("forged", format!("forged record returned: {:?}", q[*i])); }
			}
			Ok(v.class())
		});
	}
	mc.finish()
}
