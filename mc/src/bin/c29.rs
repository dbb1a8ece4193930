//! C29: one thing wrong in what a proof's zones say fails the whole proof; what no zone of the
//! proof says, or says with an unsupported algorithm, changes nothing.
#[path = "../sweep.rs"]
mod sweep;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

fn must_fail(p: &[Rec], what: &str, ch: &mut Chooser) -> Res {
	let v = glue::verify(p);
	ch.note(|| format!("{}\n{:#?}\n{:?}", what, p, v));
	if matches!(v, glue::Verdict::Ok { .. }) { return bad("partial", format!("with {} the rest is returned: {:?}", what, v)); }
	Ok(v.class())
}
fn must_return(p: &[Rec], want: &[Rec], what: &str, ch: &mut Chooser) -> Res {
	let v = glue::verify(p);
	ch.note(|| format!("{}\n{:#?}\n{:?}", what, p, v));
	if !matches!(v, glue::Verdict::Ok { .. }) { return bad("harmless", format!("{} makes the proof {}", what, v.class())); }
	let mut got: Vec<Rec> = Vec::new();
	for i in v.idx() { if *i == usize::MAX { return bad("foreign", "a returned record is not one of the input's"); } got.push(p[*i].clone()); }
	let mut w = want.to_vec();
	got.sort();
	w.sort();
	if got != w { return bad("harmless-records", format!("{} makes the proof return {:?} instead of {:?}", what, got, w)); }
	Ok("all returned")
}
/// A proof, the names of its zones and what it proves.
struct Proof { recs: Vec<Rec>, zones: Vec<Nm>, want: Vec<Rec> }
/// Tries the ways to spoil the signature `s`.
fn spoil_sig(p: &Proof, s: &Rec, ch: &mut Chooser) -> Option<Rec> {
	let i = s.rrsig().unwrap();
	let mut x = i.clone();
	let mut r = s.clone();
	let n = i.sig.len();
	if n == 0 { return None; }
	match ch.choose(16) {
		0 => x.sig[0] ^= 1,
		1 => x.sig[n / 2] ^= 0x80,
		2 => x.sig[n - 1] ^= 1,
		3 => { x.sig.pop(); },
		4 => x.sig.push(0),
		5 => x.sig.clear(),
		6 => { let o = p.recs.iter().filter_map(|r| r.rrsig()).find(|o| o.alg == i.alg && o.sig != i.sig)?; x.sig = o.sig; },
		7 => x.inception = i.inception.wrapping_add(1),
		8 => x.expiration = i.expiration.wrapping_sub(1),
		9 => x.orig_ttl ^= 1,
		10 => x.labels = *ch.pick(&[i.labels.wrapping_sub(1), i.labels.wrapping_add(1), 0, 255]),
		11 => x.tag = *ch.pick(&[i.tag ^ 1, 0, !i.tag]),
		12 => x.alg = *ch.pick(&[8, 10, 13, 14, 15]),
		13 => x.covered = *ch.pick(&[A, TXT, TLSA, NS, DS, NSEC, CNAME]),
		14 => { let names: Vec<&Nm> = p.recs.iter().map(|r| &r.name).collect::<std::collections::BTreeSet<_>>().into_iter().collect(); r.name = match ch.choose(3) { 0 => s.name.child("a"), 1 => (*ch.pick(&names)).clone(), _ => s.name.parent()? }; },
		_ => { x.signer = ch.pick(&p.zones).clone(); },
	}
	r.rdata = x.rdata();
	if r == *s { None } else { Some(r) }
}
/// One thing wrong in a proof.
fn spoil(p: &Proof, at: usize, ch: &mut Chooser) -> Option<(Vec<Rec>, String)> {
	let mut q = p.recs.clone();
	let r = q[at].clone();
	// Only what is signed by a zone of the proof.
	if !p.recs.iter().any(|s| s.name == r.name && s.rrsig().map_or(false, |i| i.covered == if r.ty == RRSIG { i.covered } else { r.ty })) { return None; }
	if let Some(i) = r.rrsig() {
		if i.covered == DNSKEY {
			// Without this signature the key set has none left (or it is spoilt).
			if q.iter().filter(|o| o.name == r.name && o.rrsig().map_or(false, |o| o.covered == DNSKEY)).count() != 1 { return None; }
			if ch.flag() { q.remove(at); return Some((q, format!("no DNSKEY signature of {}", r.name.text()))); }
			q[at] = spoil_sig(p, &r, ch)?;
			return Some((q, format!("a spoilt DNSKEY signature of {}", r.name.text())));
		}
		let x = spoil_sig(p, &r, ch)?;
		match ch.choose(4) {
			// The delegation to a zone must not come to depend on that zone itself.
			0 if i.covered == DS && x.rrsig().unwrap().signer.within(&r.name) => return None,
			0 => q[at] = x, 1 => q.insert(at, x), 2 => q.insert(0, x), _ => q.push(x),
		}
		return Some((q, format!("a spoilt signature of {} {}", r.name.text(), type_name(i.covered))));
	}
	let mut x = r.clone();
	*x.rdata.last_mut()? ^= 1;
	let what = match ch.choose(6) {
		0 => { q[at] = x; "a changed" },
		1 => { q.insert(at, x); "an additional" },
		2 => { q.push(x); "an additional last" },
		3 => { q.remove(at); "a missing" },
		4 => { q.retain(|o| o.name != r.name || o.ty != r.ty); "no record at all, but a signature, of" },
		_ => {
			if r.ty == DNSKEY || r.ty == NSEC || r.ty == NSEC3 { return None; }
			q[at].name = r.name.child("moved");
			"a moved"
		},
	};
	Some((q, format!("{} {} {}", what, r.name.text(), type_name(r.ty))))
}
fn of_sweep(d: usize, n: usize) -> Option<Proof> {
	let s = sweep::build(d, n)?;
	Some(Proof { recs: s.proof, zones: s.world.zones.iter().map(|z| z.name.clone()).collect(), want: s.want })
}
/// Two zones, a set of a type at an owner, wildcard or not, and one or more at other names.
fn typed(ty: u16, sort: usize, depth: usize, alg: u8, nsec3: bool) -> Proof {
	let zn = [".", "z.", "s.z."][depth];
	let zn = Nm::new(zn);
	let mut zones = vec![root_zone()];
	for i in (0..depth).rev() {
		let name = Nm(zn.0[i..].to_vec());
		let mut z = Zone::new(&name, Key::of_alg(alg, i, ZONE | SEP), Key::of_alg(alg, i + 2, ZONE));
		if sort % 2 == 1 { z = Zone::single_key(&name, Key::of_alg(alg, i, ZONE | SEP)); }
		let ds = z.ds(2);
		zones.last_mut().unwrap().delegate(&name, &ds);
		zones.push(z);
	}
	let z = zones.last_mut().unwrap();
	if nsec3 { z.denial = Denial::Nsec3 { iters: 1, salt: vec![3], flags: 0, algo: 1 }; }
	let owner = match sort { 0 => zn.clone(), 1 => zn.child("t"), 2 => zn.child("d").child("_c").child("b"), _ => zn.child("w").wild() };
	let at = if sort == 4 { zn.child("w").child("q") } else { owner.clone() };
	for i in 0..if matches!(ty, CNAME | DNAME) { 1 } else { 2 } { z.add(&owner, ty, sample(ty, i)); }
	let o = zn.child("zz");
	z.add(&o, A, vec![8; 4]);
	let w = World { zones };
	let z = w.zones.last().unwrap();
	let mut recs = w.chain(&zn);
	let mut want = z.recs(&owner, ty, &at);
	recs.extend(z.signed(&owner, ty, &at));
	if sort == 4 { recs.extend(z.cover(&at)); }
	recs.extend(z.signed(&o, A, &o));
	want.extend(z.recs(&o, A, &o));
	Proof { recs, zones: w.zones.iter().map(|z| z.name.clone()).collect(), want }
}
/// The root, a zone with an answer, and another whose delegation or contents have something wrong.
fn deep(n: usize, deep: bool, f: impl FnOnce(&mut Vec<Zone>, usize)) -> (World, Vec<Rec>) {
	let mut zones = vec![root_zone()];
	for i in 0..n {
		let name = if deep && i > 0 { zones[i].name.child("y") } else { Nm::new(&format!("z{}.", i)) };
		let mut z = Zone::new(&name, Key::ed(6000 + i as u32, ZONE | SEP), Key::ed(6100 + i as u32, ZONE));
		let o = name.child("t");
		z.add(&o, TXT, txt_rdata(b"t"));
		z.add(&name.child("w").wild(), TXT, txt_rdata(b"w"));
		z.add(&name.child("zz"), A, vec![7; 4]);
		zones.push(z);
	}
	let up = |i: usize| if deep { i - 1 } else { 0 };
	for i in 1..zones.len() { let (m, d) = (zones[i].name.clone(), zones[i].ds(2)); zones[up(i)].delegate(&m, &d); }
	f(&mut zones, n);
	let w = World { zones };
	let mut p = w.zones[0].apex();
	for i in 1..w.zones.len() {
		let z = &w.zones[i];
		p.extend(w.zones[up(i)].signed(&z.name, DS, &z.name));
		p.extend(z.apex());
		let o = z.name.child("t");
		p.extend(z.signed(&o, TXT, &o));
	}
	(w, p)
}

fn main() {
	let mc = Mc::new("C29");
	mc.assume("key tags of different keys of the generated zones differ");
	mc.explore("every type at every sort of name", 0, |ch| {
		let ty = *ch.pick(&DATA);
		let sort = ch.choose(5);
		if sort == 4 && matches!(ty, NS | DNAME) { return Ok("no such wildcard"); }
		let depth = ch.choose(3);
		if ty == NS && sort == 0 && depth == 0 { return Ok("the root's own NS"); }
		let alg = *ch.pick(&[15, 13, 8, 10, 14]);
		let p = typed(ty, sort, depth, alg, sort == 4 && ch.flag());
		if alg != 15 && mc.tier(true, false) && sort != 1 { return Ok("left to the thorough tier"); }
		let at = ch.choose(p.recs.len() + 1);
		if at == p.recs.len() { return must_return(&p.recs, &p.want, "nothing", ch); }
		let Some((mut q, what)) = spoil(&p, at, ch) else { return Ok("no such way") };
		if ch.flag() { q.reverse(); }
		must_fail(&q, &what, ch)
	});
	let sizes = mc.tier(vec![1, 2, 3, 5, 9], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33, 65]);
	for (d, label) in sweep::DIMS.iter().enumerate() {
		mc.explore(&format!("many {}", label), 0, |ch| {
			let n = *ch.pick(&sizes);
			let Some(p) = of_sweep(d, n) else { return Ok("too long") };
			let at = ch.choose(p.recs.len());
			let Some((mut q, what)) = spoil(&p, at, ch) else { return Ok("no such way") };
			if ch.flag() { q.reverse(); }
			must_fail(&q, &what, ch)
		});
	}
	// A delegation that the parent has signed but that leads nowhere.
	mc.explore("delegations that lead nowhere", 0, |ch| {
		let n = 1 + ch.choose(4);
		let (dp, bad_at, way) = (ch.flag(), 1 + ch.choose(n), ch.choose(14));
		let evil = Key::ed(6500, ZONE | SEP);
		let (w, mut p) = deep(n, dp, |zs, _| {
			let (name, key) = (zs[bad_at].name.clone(), zs[bad_at].keys[0].clone());
			let up = if dp { bad_at - 1 } else { 0 };
			let good = key.ds(&name, 2, 3600);
			let ds = match way {
				0 => evil.ds(&name, 2, 3600),
				1 => { let mut d = good; *d.rdata.last_mut().unwrap() ^= 1; d },
				2 => { let mut d = good; d.rdata.pop(); d },
				3 => Rec { rdata: ds_rdata(key.tag() ^ 1, 15, 2, &key.digest(&name, 2)), ..good },
				4 => Rec { rdata: ds_rdata(key.tag(), 13, 2, &key.digest(&name, 2)), ..good },
				5 => Rec { rdata: ds_rdata(key.tag(), 15, 1, &key.digest(&name, 2)), ..good },
				6 => Rec { rdata: ds_rdata(key.tag(), 15, 3, &key.digest(&name, 2)), ..good },
				7 => Rec { rdata: ds_rdata(key.tag(), 15, 2, &key.digest(&name.child("x"), 2)), ..good },
				// Only a key which does not sign the key set is vouched for.
				8 => zs[bad_at].keys[1].ds(&name, 2, 3600),
				_ => good,
			};
			zs[up].sets.insert((name.clone(), DS), vec![ds.rdata]);
		});
		let name = w.zones[bad_at].name.clone();
		match way {
			9 => p.retain(|r| r.name != name || r.ty != DNSKEY),
			10 => p.retain(|r| r.name != name || r.rrsig().map_or(true, |i| i.covered != DNSKEY)),
			11 => p.retain(|r| r.name != name || (r.ty != DNSKEY && r.rrsig().map_or(true, |i| i.covered != DNSKEY))),
			// Nothing at all of the zone besides its DS records.
			12 => p.retain(|r| !r.name.within(&name) || r.ty == DS || r.rrsig().map_or(false, |i| i.covered == DS)),
			// Signed by another key in the set's name.
			13 => for r in p.iter_mut() { if let Some(mut i) = r.rrsig() { if r.name == name && i.covered == DNSKEY { let f = sign_recs(&evil, &name, &[evil.rec(&name, 3600)], WIN).rrsig().unwrap(); i.sig = f.sig; r.rdata = i.rdata(); } } },
			_ => {},
		}
		if ch.flag() { p.reverse(); }
		must_fail(&p, &format!("delegation to {}, way {}", name.text(), way), ch)
	});
	// A wildcard expanded without its denial, next to all else.
	mc.explore("expansions without denial", 0, |ch| {
		let n = 1 + ch.choose(3);
		let (dp, nsec3) = (ch.flag(), ch.flag());
		let (w, mut p) = deep(n, dp, |zs, _| for z in zs.iter_mut() { if nsec3 { z.denial = Denial::Nsec3 { iters: 2, salt: vec![9], flags: 0, algo: 1 }; } });
		// For each zone: no expansion, with its denial, or without.
		let mut want: Vec<Rec> = w.zones[1..].iter().flat_map(|z| { let o = z.name.child("t"); z.recs(&o, TXT, &o) }).collect();
		for z in &w.zones[1..] {
			for l in ["p", "q"] {
				let (o, q) = (z.name.child("w").wild(), z.name.child("w").child(l));
				match ch.choose(3) {
					0 => continue,
					1 => for r in z.cover(&q) { if !p.contains(&r) { p.push(r); } },
					_ => {},
				}
				p.extend(z.signed(&o, TXT, &q));
				want.extend(z.recs(&o, TXT, &q));
			}
		}
		// The denial of one may do for another: only the zones where none is shown.
		let denied = |z: &Zone, q: &Nm| z.cover(q).iter().all(|r| p.contains(r));
		let open = w.zones[1..].iter().any(|z| ["p", "q"].iter().any(|l| { let q = z.name.child("w").child(l); p.iter().any(|r| r.name == q) && !denied(z, &q) }));
		if ch.flag() { p.reverse(); }
		if open { must_fail(&p, "an expansion without denial", ch) } else { must_return(&p, &want, "nothing", ch) }
	});
	// What is no zone's of the proof, and what is of an unsupported algorithm, is harmless.
	mc.explore("harmless additions", 0, |ch| {
		let n = 1 + ch.choose(2);
		let (dp, which) = (ch.flag(), 1 + ch.choose(n));
		let odd = Key::ed(6600, ZONE).with_alg(*ch.pick(&[253, 16, 5, 0, 12, 255]));
		let evil = Key::ed(6500, ZONE | SEP);
		let (w, mut p) = deep(n, dp, |zs, _| zs[which].keys.push(odd.clone()));
		let want: Vec<Rec> = w.zones[1..].iter().flat_map(|z| { let o = z.name.child("t"); z.recs(&o, TXT, &o) }).collect();
		let z = &w.zones[which];
		let o = z.name.child("t");
		let by = |key: &Key, signer: &Nm, r: &[Rec]| { let mut i = sign_recs(key, signer, r, WIN).rrsig().unwrap(); i.alg = key.alg; i.tag = key.tag(); Rec::new(&r[0].name, RRSIG, 3600, i.rdata()) };
		let ty = *ch.pick(&DATA);
		let extra = Rec::new(&z.name.child("e"), ty, 3600, sample(ty, 1));
		let un = Nm::new("unseen.");
		let (add, what): (Vec<Rec>, &str) = match ch.choose(12) {
			0 => (vec![extra.clone()], "an unsigned record"),
			1 => (vec![by(&odd, &z.name, &[extra.clone()])], "an unsupported signature of nothing"),
			2 => (vec![by(&odd, &z.name, &[extra.clone()]), extra.clone()], "an unsupported signature"),
			3 => (vec![by(&odd, &z.name, &z.recs(&o, TXT, &o))], "another, unsupported, signature"),
			4 => (vec![by(&evil, &un, &[extra.clone()]), extra.clone()], "a signature of no zone of the proof"),
			5 => (vec![by(&evil, &un, &z.recs(&o, TXT, &o))], "another signature, of no zone of the proof"),
			6 => (vec![evil.rec(&un, 1), by(&evil, &un, &[evil.rec(&un, 1)]), Rec::new(&un, ty, 1, sample(ty, 1))], "an island of its own"),
			7 => (vec![Rec::new(&un, DS, 1, ds_rdata(evil.tag(), 15, 2, &evil.digest(&un, 2))), evil.rec(&un, 1), by(&evil, &un, &[evil.rec(&un, 1)])], "an island with an unsigned DS"),
			8 => (vec![by(&evil, &z.name, &z.recs(&z.name, DNSKEY, &z.name))], "a DNSKEY signature by a key without DS"),
			9 => (vec![by(&z.keys[1], &z.name, &z.recs(&z.name, DNSKEY, &z.name))], "a DNSKEY signature by the zone-signing key"),
			10 => { let mut s = by(&z.keys[1], &z.name, &z.recs(&z.name, DNSKEY, &z.name)); *s.rdata.last_mut().unwrap() ^= 1; (vec![s], "a spoilt DNSKEY signature by the zone-signing key") },
			_ => (vec![by(&odd, &z.name, &z.recs(&z.name, DNSKEY, &z.name))], "an unsupported DNSKEY signature"),
		};
		match ch.choose(3) { 0 => p.extend(add), 1 => { let mut a = add; a.extend(p); p = a; }, _ => { let m = p.len() / 2; for (i, r) in add.into_iter().enumerate() { p.insert(m + i, r); } } }
		if ch.flag() { p.reverse(); }
		must_return(&p, &want, what, ch)
	});
	// The same spoils, two at once, of a small proof: never a partial result either.
	mc.explore("two things wrong", 0, |ch| {
		let ty = if mc.tier(false, true) { *ch.pick(&[TXT, NS, CNAME]) } else { TXT };
		let sort = *ch.pick(&[1, 4]);
		let p = typed(ty, sort, 1, 15, sort == 4 && ch.flag());
		let a = ch.choose(p.recs.len());
		let Some((q, w1)) = spoil(&p, a, ch) else { return Ok("no such way") };
		let p2 = Proof { recs: q, zones: p.zones, want: p.want };
		// The second is a signature besides, of one there is by now, that does not undo the first.
		let sigs: Vec<&Rec> = p2.recs.iter().filter(|r| r.rrsig().map_or(false, |i| i.covered != DNSKEY)).collect();
		if sigs.is_empty() { return Ok("no such way"); }
		let s = (*ch.pick(&sigs)).clone();
		let Some(x) = spoil_sig(&p2, &s, ch) else { return Ok("no such way") };
		if p.recs.contains(&x) { return Ok("no such way"); }
		let mut q = p2.recs.clone();
		let w2 = if ch.flag() { q.push(x); "another spoilt signature" } else { q.insert(0, x); "another spoilt signature first" };
		must_fail(&q, &format!("{} and {}", w1, w2), ch)
	});
	mc.finish()
}
