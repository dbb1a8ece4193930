//! C02: whatever a delegated zone signs, it gets only records at or below its own name returned.
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

/// (malicious zone, victim zone); parents other than the root are honest zones too.
const PAIRS: [(&str, &str); 12] = [
	("z.", "."), ("z.", "y."), ("z.", "yz."), ("z.", "a.yz."), ("b.z.", "z."), ("b.z.", "c.z."), ("b.z.", "ab.z."), ("b.z.", "bz."), ("b.z.", "b.y."), ("a.b.z.", "z."), ("a.b.z.", "b.z."), ("z.", "xz.yz."),
];
struct Scene { evil: Nm, victim: Nm, ksk: Key, zsk: Key, world: World, base: Vec<Rec>, forged: Vec<Vec<Rec>>, between: bool, beside: Vec<Nm> }
fn forged_rec(n: &Nm, ty: u16) -> Rec {
	let d = match ty { TXT => txt_rdata(b"forged"), A => vec![6, 6, 6, 6], AAAA => vec![6; 16], CNAME | DNAME | NS => Nm::new("forged.z.").wire(), _ => tlsa_rdata(1, 1, 1, b"forged") };
	Rec::new(n, ty, 3600, d)
}
fn scene(evil: &str, victim: &str) -> Scene { scene_of(Nm::new(evil), Nm::new(victim), true, &[]) }
/// With or without zones at every label between the root and both, and with others beside.
fn scene_of(evil: Nm, victim: Nm, between: bool, beside: &[Nm]) -> Scene {
	let mut names: Vec<Nm> = Vec::new();
	for z in [&evil, &victim] {
		for k in (0..=z.labels()).rev() { let n = z.trailing(k); if !names.contains(&n) && (between || k == 0 || k == z.labels()) { names.push(n); } }
	}
	names.extend(beside.iter().cloned());
	names.sort_by_key(|n| n.labels());
	let mut zones: Vec<Zone> = Vec::new();
	for (i, n) in names.iter().enumerate() {
		zones.push(if n.labels() == 0 { root_zone() } else { Zone::new(n, Key::ed(300 + 2 * i as u32, ZONE | SEP), Key::ed(301 + 2 * i as u32, ZONE)) });
	}
	for i in 1..zones.len() {
		let (n, ds) = (zones[i].name.clone(), zones[i].ds(2));
		zones.iter_mut().rev().find(|z| n.below(&z.name)).unwrap().delegate(&n, &ds);
	}
	let ev = zones.iter().position(|z| z.name == evil).unwrap();
	let (ksk, zsk) = (zones[ev].keys[0].clone(), zones[ev].keys[1].clone());
	let vi = zones.iter().position(|z| z.name == victim).unwrap();
	{
		let v = &mut zones[vi];
		let (w, t, o) = (victim.child("w"), victim.child("t"), victim.child("w").child("q"));
		v.add(&w.wild(), TXT, txt_rdata(b"wild"));
		v.add(&t, TXT, txt_rdata(b"genuine"));
		v.add(&o, A, vec![9, 9, 9, 9]);
	}
	let all = World { zones: zones.clone() };
	let mut base = all.chain(&evil);
	for z in [&victim].into_iter().chain(beside) { for r in all.chain(z) { if !base.contains(&r) { base.push(r); } } }
	let v = &zones[vi];
	base.extend(v.signed(&victim.child("t"), TXT, &victim.child("t")));
	let world = World { zones: zones.iter().filter(|z| !z.name.within(&evil)).cloned().collect() };

	// What the malicious zone puts in: groups of records.
	let mut g: Vec<Vec<Rec>> = Vec::new();
	let s1 = |k: &Key, signer: &Nm, recs: &[Rec]| { let mut v = recs.to_vec(); v.push(sign_recs(k, signer, recs, WIN)); v };
	let mut targets = vec![victim.clone(), victim.child("f"), victim.child("g").child("f")];
	// Names that share the malicious zone's text but not its labels, and the names above it.
	if evil.labels() > 0 {
		let mut l = evil.0.clone();
		l[0].insert(0, b'x');
		let x = Nm(l);
		targets.extend([x.clone(), x.child("f")]);
		if let Some(p) = evil.parent() { targets.extend([p.clone(), p.child("f")]); }
		targets.push(evil.child("ok"));
	}
	targets.sort();
	targets.dedup();
	for t in &targets {
		for ty in DATA {
			if (ty == TLSA || ty == AAAA) && t.within(&evil) { continue; }
			g.push(s1(&zsk, &evil, &[forged_rec(t, ty)]));
			if ty == TXT { g.push(s1(&zsk, &victim, &[forged_rec(t, ty)])); g.push(s1(&ksk, &Nm::root(), &[forged_rec(t, ty)])); }
		}
		// Its wildcards, from every enclosing name, for the target.
		for k in 0..t.labels() {
			let owner = t.trailing(k).wild();
			let r = forged_rec(t, TXT);
			g.push(vec![r.clone(), sign_set(&zsk, &evil, &owner, t, TXT, &[r.rdata.clone()], WIN)]);
		}
		// Delegations of the target to its own keys.
		if t.labels() > 0 {
			let (nk, nz) = (Key::ed(900, ZONE | SEP), Key::ed(901, ZONE));
			let fz = Zone::new(t, nk.clone(), nz.clone());
			let mut dl = s1(&zsk, &evil, &fz.ds(2));
			dl.extend(fz.apex());
			let mut with = dl.clone();
			with.extend(s1(&nz, t, &[forged_rec(&t.child("d"), TXT)]));
			g.push(with.clone());
			// The same with the DNSKEY set signed by the delegating zone, or the DS by the child itself.
			let mut own = s1(&nk, t, &fz.ds(2));
			own.extend(fz.apex());
			own.extend(s1(&nz, t, &[forged_rec(&t.child("d"), TXT)]));
			g.push(own);
			let mut by = s1(&zsk, &evil, &fz.ds(2));
			by.extend(fz.recs(t, DNSKEY, t));
			by.push(sign_recs(&zsk, &evil, &fz.recs(t, DNSKEY, t), WIN));
			by.extend(s1(&nz, t, &[forged_rec(&t.child("d"), A)]));
			g.push(by);
		}
		// Its keys in the target's key set.
		let ks = vec![ksk.rec(t, 3600), zsk.rec(t, 3600)];
		g.push(s1(&ksk, t, &ks));
		// The same, used at once; also as if they had always been there.
		let mut use_ = s1(&ksk, t, &ks);
		use_.extend(s1(&zsk, t, &[forged_rec(&t.child("f"), TXT)]));
		g.push(use_);
		let mut both: Vec<Rec> = all.zones.iter().find(|z| z.name == *t).map(|z| z.recs(t, DNSKEY, t)).unwrap_or_default();
		both.extend(ks.clone());
		for (k, signer) in [(&ksk, t), (&zsk, t), (&ksk, &evil)] {
			let mut v = s1(k, signer, &both);
			v.extend(s1(&zsk, t, &[forged_rec(&t.child("f"), TXT)]));
			g.push(v);
		}
		g.push(s1(&ksk, &evil, &ks));
	}
	// A false expansion of the victim's wildcard, and denials that would support it.
	let q = victim.child("w").child("q");
	let w = victim.child("w").wild();
	let mut ex = v.recs(&w, TXT, &q);
	ex.extend(v.sigs(&w, TXT, &q));
	g.push(ex.clone());
	let nsec = |owner: &Nm, next: &Nm| Rec::new(owner, NSEC, 3600, nsec_rdata(next, &[TXT, RRSIG, NSEC]));
	let mut owners = vec![(w.clone(), victim.child("w").child("r")), (q.parent().unwrap(), victim.child("x")), (evil.clone(), evil.child("zz")), (evil.clone(), evil.clone())];
	if let Some(p) = evil.parent() { owners.push((p.clone(), p.child("zzz"))); }
	for o in [evil.clone(), evil.child("a")] { for n in [victim.child("w").child("r"), victim.child("x"), Nm::new("zzz.")] { owners.push((o.clone(), n)); } }
	for (o, n) in owners {
		for signer in [&evil, &victim] {
			let r = nsec(&o, &n);
			g.push(vec![r.clone(), sign_recs(&zsk, signer, &[r], WIN)]);
			let mut with = ex.clone();
			let r = nsec(&o, &n);
			with.push(r.clone());
			with.push(sign_recs(&zsk, signer, &[r], WIN));
			g.push(with);
		}
	}
	let h = nsec3_hash(&q, 0, &[]);
	for at in [&victim, &evil, &evil.parent().unwrap()] {
		for signer in [&evil, &victim] {
			let mut lo = h.clone(); lo[0] = lo[0].wrapping_sub(1);
			let mut hi = h.clone(); hi[0] = hi[0].wrapping_add(1);
			let r = Rec::new(&at.child(&base32hex(&lo)), NSEC3, 3600, nsec3_rdata(1, 0, 0, &[], &hi, &[TXT]));
			let mut with = ex.clone();
			with.push(r.clone());
			with.push(sign_recs(&zsk, signer, &[r], WIN));
			g.push(with);
		}
	}
	// Expansions of the malicious zone's and the victim's wildcards outside their zone.
	for owner in [evil.wild(), victim.child("w").wild()] {
		let own = owner.within(&evil);
		for at in &targets {
			let r = Rec::new(at, TXT, 3600, txt_rdata(if own { b"forged" } else { b"wild" }));
			let s = if own { sign_set(&zsk, &evil, &owner, at, TXT, &[r.rdata.clone()], WIN) } else { v.sigs(&owner, TXT, at).remove(0) };
			g.push(vec![r, s]);
		}
	}
	Scene { evil, victim, ksk, zsk, world, base, forged: g, between, beside: beside.to_vec() }
}
fn run(s: &Scene, picks: &[usize], order: usize, ch: &mut Chooser) -> Res { run_without(s, picks, order, ch, 0) }
/// Parts of the honest records the attacker may leave out.
const OMIT: usize = 7;
fn omitted(s: &Scene, omit: usize, r: &Rec) -> bool {
	let sig = |ty: u16| r.ty == RRSIG && r.rrsig().map(|i| i.covered == ty).unwrap_or(false);
	let at = r.name == s.victim;
	match omit {
		0 => false,
		1 => at && (r.ty == DNSKEY || sig(DNSKEY)),
		2 => at && sig(DNSKEY),
		3 => at && r.ty == DNSKEY,
		4 => at && (r.ty == DS || sig(DS)),
		5 => at,
		_ => at && sig(DNSKEY) || r.name.within(&s.victim) && r.name != s.victim,
	}
}
fn run_without(s: &Scene, picks: &[usize], order: usize, ch: &mut Chooser, omit: usize) -> Res {
	let mut p: Vec<Rec> = Vec::new();
	let base: Vec<Rec> = s.base.iter().filter(|r| !omitted(s, omit, r)).cloned().collect();
	let mut push = |rs: &[Rec]| for r in rs { if !p.contains(r) { p.push(r.clone()); } };
	if order & 1 == 0 { push(&base); }
	for i in picks { push(&s.forged[*i]); }
	push(&base);
	if order & 2 != 0 { p.reverse(); }
	let v = glue::verify(&p);
	ch.note(|| format!("malicious zone {}, victim {}\n{:#?}\n{:?}", s.evil, s.victim, p, v));
	for i in v.idx() {
		if *i == usize::MAX { return bad("foreign", "a returned record is not one of the input's"); }
		let r = &p[*i];
		if !r.name.within(&s.evil) && !s.world.genuine(r) { return bad("outside", format!("zone {} got this returned: {:?}", s.evil, r)); }
	}
	Ok(v.class())
}

fn main() {
	let mc = Mc::new("C02");
	mc.assume("the malicious zone has its own keys only");
	let scenes: Vec<Scene> = PAIRS.iter().map(|(e, v)| scene(e, v)).collect();
	for s in &scenes { let _ = (&s.ksk, &s.zsk); }
	mc.measured("additions per pair of zones", format!("{:?}", scenes.iter().map(|s| s.forged.len()).collect::<Vec<_>>()));
	mc.single("honest proofs are accepted", |ch| {
		for s in &scenes { if run(s, &[], 0, ch)? != "accepted" { return bad("honest", format!("honest proof for {} rejected", s.victim)); } }
		Ok("accepted")
	});
	mc.explore("one addition", 0, |ch| {
		let s = ch.pick(&scenes);
		let (i, o) = (ch.choose(s.forged.len()), ch.choose(4));
		run(s, &[i], o, ch)
	});
	mc.explore("one addition, something left out", 0, |ch| {
		let s = ch.pick(&scenes);
		let (i, o, x) = (ch.choose(s.forged.len()), ch.choose(4), 1 + ch.choose(OMIT - 1));
		run_without(s, &[i], o, ch, x)
	});
	mc.explore("two additions", 0, |ch| {
		let s = ch.pick(&scenes);
		let n = s.forged.len();
		let (i, j, o) = (ch.choose(n), ch.choose(n), ch.choose(mc.tier(2, 4)));
		if i <= j { return Ok("same set"); }
		run(s, &[i, j], o * mc.tier(2, 1), ch)
	});
	if mc.tier(false, true) {
		mc.explore("three additions", 0, |ch| {
			let s = ch.pick(&scenes);
			let n = s.forged.len();
			let (i, j, k) = (ch.choose(n), ch.choose(n), ch.choose(n));
			if i <= j || j <= k { return Ok("same set"); }
			run(s, &[i, j, k], 0, ch)
		});
	}
	// Zones of every number of labels and every length of a label, whose names differ from the victim's in one place.
	let deep = |k: usize, at: usize, with: &str| Nm((0..k).map(|i| if i == at { with.as_bytes().to_vec() } else { vec![b"ab0"[i % 3]] }).collect());
	let mut pairs: Vec<(Nm, Nm, bool, Vec<Nm>)> = Vec::new();
	let depths: Vec<usize> = mc.tier((2..=10).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 110]).collect(), (2..=112).collect());
	for k in depths {
		let evil = deep(k, k, "");
		for at in [0, k / 2, k - 1] { for with in ["x", "xa", "a"] { let v = deep(k, at, with); if v != evil { pairs.push((evil.clone(), v, false, vec![])); } } }
		pairs.push((evil.clone(), evil.parent().unwrap(), false, vec![]));
		pairs.push((evil.clone(), evil.trailing(1), false, vec![]));
		pairs.push((evil.clone(), evil.trailing(k / 2), k <= mc.tier(9, 20), vec![]));
		// One with labels less or more, of the same text at the front.
		pairs.push((evil.clone(), deep(k - 1, k, ""), false, vec![]));
		pairs.push((evil.clone(), deep(k + 1, k + 1, ""), false, vec![]));
	}
	for l in (1..=63).filter(|l| mc.tier(*l < 9 || l % 8 > 5 || l % 8 == 0, true)) {
		let label = |edit: usize| -> Nm { let mut b: Vec<u8> = (0..l).map(|i| b'a' + (i % 26) as u8).collect(); match edit { 0 => {}, 1 => b[0] = b'-', 2 => b[l - 1] = b'-', 3 => b[l / 2] = b'-', 4 => { b.pop(); }, 5 => { b.remove(0); }, _ => b.insert(0, b'z') } Nm(vec![b, b"z".to_vec()]) };
		for e in 1..7 { let v = label(e); if v.0[0].is_empty() || v.0[0].len() > 63 { continue; } pairs.push((label(0), v, false, vec![])); }
	}
	// Every character that a name can have before the malicious zone's name, but the dot.
	for c in (33u8..127).map(|c| c as char).filter(|c| *c != '.' && !c.is_ascii_uppercase()) {
		for (e, v) in [("b.", format!("{}b.", c)), ("b.a.", format!("x{}b.a.", c)), ("b.", format!("b{}.", c))] {
			if valid_text(&v) { pairs.push((Nm::new(e), Nm::new(&v), false, vec![])); }
		}
	}
	// Many honest zones beside.
	for k in mc.tier(vec![1usize, 5, 12, 20], (1..=60).collect()) {
		let beside: Vec<Nm> = (0..k).map(|i| Nm::new(&format!("n{}.", i))).collect();
		for (e, v) in [("n.", "n00."), ("n3n.", "n3."), ("zz.", "n0."), ("n.", "n0.")] {
			let v = Nm::new(v);
			let b = beside.iter().filter(|n| **n != v).cloned().collect();
			pairs.push((Nm::new(e), v, false, b));
		}
	}
	mc.measured("pairs of long or many zones", pairs.len());
	mc.explore("long names and many zones", 0, |ch| {
		let (e, v, between, beside) = ch.pick(&pairs);
		thread_local!(static LAST: std::cell::RefCell<Option<std::rc::Rc<Scene>>> = const { std::cell::RefCell::new(None) });
		let s = LAST.with(|l| {
			let mut l = l.borrow_mut();
			let same = l.as_ref().map(|s| s.evil == *e && s.victim == *v && s.beside == *beside && s.between == *between).unwrap_or(false);
			if !same { *l = Some(std::rc::Rc::new(scene_of(e.clone(), v.clone(), *between, beside))); }
			l.clone().unwrap()
		});
		let (i, o) = (ch.choose(s.forged.len() + 1), ch.choose(mc.tier(2, 4)));
		if i == s.forged.len() { return if run(&s, &[], o, ch)? != "accepted" { bad("honest", format!("honest proof for {} rejected", s.victim)) } else { Ok("accepted") }; }
		run(&s, &[i], o * mc.tier(2, 1), ch)
	});
	mc.finish()
}
