//! C06: the window and cache time are the tightest of the signatures used.
#[path = "../sweep.rs"]
mod sweep;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

const CUT: u32 = 60 * 60 * 24 * 365 * 27;
fn era(t: u32) -> u64 { if t < CUT { t as u64 + (1 << 32) } else { t as u64 } }
fn times() -> Vec<u32> { vec![0, 1, CUT - 1, CUT, CUT + 1, 1_600_000_000, 1_700_000_000, i32::MAX as u32, i32::MAX as u32 + 1, 4_000_000_000, u32::MAX - 1, u32::MAX] }
const BASE: Win = Win { inception: 1_650_000_000, expiration: 1_750_000_000, ttl: 3600 };
fn zone(n: &str, seed: u32) -> Zone { Zone::new(&Nm::new(n), Key::ed(seed, ZONE | SEP), Key::ed(seed + 1, ZONE)) }
fn sign(z: &Zone, owner: &Nm, at: &Nm, ty: u16, key: usize, win: Win, recs: Option<&Rec>) -> Vec<Rec> {
	let rd: Vec<Vec<u8>> = recs.map(|r| vec![r.rdata.clone()]).unwrap_or_else(|| z.recs(owner, ty, owner).into_iter().map(|r| r.rdata).collect());
	let mut r: Vec<Rec> = recs.map(|r| vec![r.clone()]).unwrap_or_else(|| z.recs(owner, ty, at));
	r.push(sign_set(&z.keys[key], &z.name, owner, at, ty, &rd, win));
	r
}
struct Tree { root: Zone, z: Zone, y: Zone }
fn tree(nsec3: bool) -> Tree {
	let (mut root, mut z, mut y) = (root_zone(), zone("z.", 700), zone("y.z.", 710));
	if nsec3 { y.denial = Denial::Nsec3 { iters: 0, salt: vec![], flags: 0, algo: 1 }; }
	y.add(&Nm::new("*.y.z."), TXT, txt_rdata(b"w"));
	y.add(&Nm::new("zz.y.z."), A, vec![1; 4]);
	let d = y.ds(2);
	z.delegate(&y.name, &d);
	z.add(&Nm::new("t.z."), A, vec![2; 4]);
	let d = z.ds(2);
	root.delegate(&z.name, &d);
	Tree { root, z, y }
}
/// Number of signatures in the proof of each shape.
const SIGS: [usize; 3] = [4, 7, 7];
fn proof(t: &Tree, shape: usize, w: &[Win]) -> Vec<Rec> {
	let (root, z, y) = (&t.root, &t.z, &t.y);
	let mut p = sign(root, &root.name, &root.name, DNSKEY, 0, w[0], None);
	p.extend(sign(root, &z.name, &z.name, DS, 1, w[1], None));
	p.extend(sign(z, &z.name, &z.name, DNSKEY, 0, w[2], None));
	if shape == 0 { let n = Nm::new("t.z."); p.extend(sign(z, &n, &n, A, 1, w[3], None)); return p; }
	p.extend(sign(z, &y.name, &y.name, DS, 1, w[3], None));
	p.extend(sign(y, &y.name, &y.name, DNSKEY, 0, w[4], None));
	let q = Nm::new("q.y.z.");
	p.extend(sign(y, &Nm::new("*.y.z."), &q, TXT, 1, w[5], None));
	let c = y.cover(&q)[0].clone();
	p.extend(sign(y, &c.name, &c.name, c.ty, 1, w[6], Some(&c)));
	p
}
fn judge(p: &[Rec], w: &[Win], ch: &mut Chooser) -> Res {
	let v = glue::verify(p);
	ch.note(|| format!("{:#?}\n{:?}", p, v));
	let from = w.iter().map(|w| era(w.inception)).max().unwrap();
	let to = w.iter().map(|w| era(w.expiration)).min().unwrap();
	let t = w.iter().map(|w| w.ttl).min().unwrap();
	match v {
		glue::Verdict::Ok { from: f, expires: e, ttl, .. } => {
			if from >= to { return bad("empty", format!("accepted although valid from {} only until {}: {:?}", from, to, w)); }
			if f != from || e != to { return bad("window", format!("window {}..{} instead of {}..{}: {:?}", f, e, from, to, w)); }
			if ttl != t { return bad("ttl", format!("cache time {} instead of {}: {:?}", ttl, t, w)); }
			Ok("window")
		},
		v => if from < to { bad("rejected", format!("{} although valid {}..{}: {:?}", v.class(), from, to, w)) } else { Ok("empty window") },
	}
}

fn main() {
	let mc = Mc::new("C06");
	let (a, b) = (tree(false), tree(true));
	let ts = times();
	for shape in 0..3 {
		let t = if shape == 2 { &b } else { &a };
		let n = SIGS[shape];
		mc.explore(&format!("signature times, shape {}", shape), mc.tier(2, 3), |ch| {
			let mut w = vec![BASE; n];
			for x in w.iter_mut() {
				match ch.dev(1 + ts.len() * 2) { 0 => {}, i if i <= ts.len() => x.inception = ts[i - 1], i => x.expiration = ts[i - 1 - ts.len()] }
			}
			judge(&proof(t, shape, &w), &w, ch)
		});
		mc.explore(&format!("times of one signature, shape {}", shape), 0, |ch| {
			let mut w = vec![BASE; n];
			// The others leave room on all sides.
			for x in w.iter_mut() { x.inception = CUT; x.expiration = CUT - 1; }
			let i = ch.choose(n);
			w[i].inception = *ch.pick(&ts);
			w[i].expiration = *ch.pick(&ts);
			let j = ch.choose(n);
			if j != i && ch.flag() { w[j].inception = *ch.pick(&ts); w[j].expiration = *ch.pick(&ts); }
			judge(&proof(t, shape, &w), &w, ch)
		});
		mc.explore(&format!("cache times, shape {}", shape), mc.tier(3, 4), |ch| {
			let mut w = vec![BASE; n];
			for x in w.iter_mut() { x.ttl = *[3600, 0, 1, 3599, 3601, u32::MAX].get(ch.dev(6)).unwrap(); }
			judge(&proof(t, shape, &w), &w, ch)
		});
		mc.explore(&format!("large cache times, shape {}", shape), 0, |ch| {
			let big = [0x7fff_fffeu32, 0x7fff_ffff, 0x8000_0000, 0x8000_0005, 0xffff_0000, 0xffff_fffe, u32::MAX, 0x1_0000, 0xffff, 0x100_0000];
			let rest = *ch.pick(&big);
			let mut w = vec![Win { ttl: rest, ..BASE }; n];
			for _ in 0..2 { let i = ch.choose(n); w[i].ttl = *ch.pick(&big); }
			judge(&proof(t, shape, &w), &w, ch)
		});
		// TTLs and windows in the order of the signatures, rising and falling.
		mc.single(&format!("ranked, shape {}", shape), |ch| {
			for perm in 0..n { for dir in 0..4u32 {
				let w: Vec<Win> = (0..n).map(|i| { let k = ((i + perm) % n) as u32; Win {
					inception: BASE.inception + if dir & 1 == 0 { k } else { 100 - k }, expiration: BASE.expiration + if dir & 2 == 0 { k } else { 100 - k }, ttl: 300 + if dir == 1 || dir == 2 { k } else { 100 - k } } }).collect();
				judge(&proof(t, shape, &w), &w, ch)?;
			} }
			Ok("window")
		});
	}
	// Which signature of several counts is not laid down, but one over each set used must bound the result.
	mc.explore("several signatures over one set", 0, |ch| {
		let (x, y) = (Win { inception: 1_660_000_000, expiration: 1_740_000_000, ttl: 300 }, Win { inception: 1_670_000_000, expiration: 1_730_000_000, ttl: 200 });
		let ws = [BASE, x, y];
		let on = ch.choose(4);
		let (w1, w2) = (*ch.pick(&ws), *ch.pick(&ws));
		let mut root = root_zone();
		let mut z = zone("z.", 720);
		z.keys.push(Key::ed(730, ZONE | SEP));
		z.ksks = vec![0, 2];
		root.delegate(&z.name, &z.ds(2));
		root.keys.push(Key::ed(731, ZONE));
		let t = Nm::new("t.z.");
		z.add(&t, TXT, txt_rdata(b"x"));
		let two = |zn: &Zone, o: &Nm, ty: u16, ks: [usize; 2], both: bool, rev: bool| {
			let mut r = sign(zn, o, o, ty, ks[0], if both { w1 } else { BASE }, None);
			if both { let s = sign(zn, o, o, ty, ks[1], w2, None).pop().unwrap(); if rev { let n = r.len() - 1; r.insert(n, s) } else { r.push(s) } }
			r
		};
		let rev = ch.flag();
		let mut p = two(&root, &root.name, DNSKEY, [0, 0], on == 3, rev);
		p.extend(two(&root, &z.name, DS, [1, 2], on == 0, rev));
		p.extend(two(&z, &z.name, DNSKEY, [0, 2], on == 1, rev));
		p.extend(two(&z, &t, TXT, [1, 0], on == 2, rev));
		let v = glue::verify(&p);
		ch.note(|| format!("{:#?}\n{:?}", p, v));
		let glue::Verdict::Ok { from, expires, ttl, .. } = v else { return bad("rejected", format!("two signatures over one set: {}", v.class())) };
		let fits = |w: &Win| from >= w.inception as u64 && expires <= w.expiration as u64 && ttl <= w.ttl;
		if !fits(&BASE) || !(fits(&w1) || fits(&w2)) { return bad("bounds", format!("{}..{} TTL {} is beyond both {:?} and {:?}", from, expires, ttl, w1, w2)); }
		// Nor may it be tighter than all signatures there are.
		if from > w1.inception.max(w2.inception).max(BASE.inception) as u64 || expires < w1.expiration.min(w2.expiration).min(BASE.expiration) as u64 || ttl < w1.ttl.min(w2.ttl).min(BASE.ttl) { return bad("bounds", format!("{}..{} TTL {} comes from no signature", from, expires, ttl)); }
		Ok("bounded")
	});
	// The tightest signature is over a set of any type, at any sort of name.
	mc.explore("every type at every sort of name", 0, |ch| {
		let ty = *ch.pick(&DATA);
		let sort = ch.choose(5);
		if sort == 4 && matches!(ty, NS | DNAME) { return Ok("no such wildcard"); }
		let nsec3 = sort == 4 && ch.flag();
		let zn = Nm::new(*ch.pick(&["z.", "s.z."]));
		let mut z = zone(&zn.text(), 720);
		if nsec3 { z.denial = Denial::Nsec3 { iters: 0, salt: vec![], flags: 0, algo: 1 }; }
		let owner = match sort { 0 => zn.clone(), 1 => zn.child("t"), 2 => zn.child("d").child("_c").child("b"), _ => zn.child("w").wild() };
		let at = if sort == 4 { zn.child("w").child("q") } else { owner.clone() };
		for i in 0..if matches!(ty, CNAME | DNAME) { 1 } else { 2 } { z.add(&owner, ty, sample(ty, i)); }
		let o = zn.child("zz");
		z.add(&o, A, vec![8; 4]);
		let mut zones = vec![root_zone()];
		if zn.labels() == 2 { let y = zone("z.", 730); let d = y.ds(2); zones[0].delegate(&y.name, &d); zones.push(y); }
		let d = z.ds(2);
		zones.last_mut().unwrap().delegate(&zn, &d);
		// Which signature is the tightest, and how.
		let sigs = 2 * zones.len() + 3 + (sort == 4) as usize;
		let mut w = vec![BASE; sigs];
		let (i, how) = (ch.choose(sigs), ch.choose(3));
		match how { 0 => w[i].inception += 7, 1 => w[i].expiration -= 9, _ => w[i].ttl = 5 }
		let mut k = 0;
		let mut next = || { k += 1; w[k - 1] };
		let mut p = Vec::new();
		p.extend(sign(&zones[0], &zones[0].name, &zones[0].name, DNSKEY, 0, next(), None));
		for i in 1..=zones.len() {
			let c = if i < zones.len() { &zones[i] } else { &z };
			p.extend(sign(&zones[i - 1], &c.name, &c.name, DS, 1, next(), None));
			p.extend(sign(c, &c.name, &c.name, DNSKEY, 0, next(), None));
		}
		p.extend(sign(&z, &owner, &at, ty, 1, next(), None));
		p.extend(sign(&z, &o, &o, A, 1, next(), None));
		if sort == 4 { let c = z.cover(&at)[0].clone(); p.extend(sign(&z, &c.name, &c.name, c.ty, 1, next(), Some(&c))); }
		assert_eq!(k, sigs);
		if ch.flag() { p.reverse(); }
		judge(&p, &w, ch)
	});
	// Signatures that verify nothing have no say.
	mc.explore("signatures not used", 0, |ch| {
		let n = ch.choose(ts.len());
		let w = Win { inception: ts[n], expiration: *ch.pick(&ts), ttl: *ch.pick(&[0u32, 7, u32::MAX]) };
		let mut root = root_zone();
		let mut z = zone("z.", 740);
		z.keys.push(Key::of_alg(253, 0, ZONE));
		let d = z.ds(2);
		root.delegate(&z.name, &d);
		let t = Nm::new("t.z.");
		z.add(&t, TXT, txt_rdata(b"x"));
		let all = vec![BASE; 4];
		let mut p = sign(&root, &root.name, &root.name, DNSKEY, 0, BASE, None);
		p.extend(sign(&root, &z.name, &z.name, DS, 1, BASE, None));
		p.extend(sign(&z, &z.name, &z.name, DNSKEY, 0, BASE, None));
		p.extend(sign(&z, &t, &t, TXT, 1, BASE, None));
		let at = ch.choose(p.len() + 1);
		let s = match ch.choose(3) {
			0 => sign(&z, &t, &t, TXT, 2, w, None).pop().unwrap(),
			1 => sign(&z, &z.name, &z.name, DNSKEY, 2, w, None).pop().unwrap(),
			_ => { let mut s = sign(&z, &t, &t, TXT, 1, w, None).pop().unwrap(); let mut i = s.rrsig().unwrap(); i.signer = Nm::new("elsewhere."); s.rdata = i.rdata(); s },
		};
		p.insert(at, s);
		judge(&p, &all, ch)
	});
	// One signature that differs in a proof of which one dimension is large.
	let sizes: Vec<usize> = if mc.tier(false, true) { (1..=130).chain([255, 256, 257]).collect() } else { (1..=12).chain([16, 17, 31, 32, 33, 64, 65, 127, 128, 129]).collect() };
	for d in [0, 1, 2, 3, 4, 7, 8, 9, 11, 13, 15, 16] {
		mc.explore(&format!("one of many {}", sweep::DIMS[d]), usize::MAX, |ch| {
			let n = *ch.pick(&sizes);
			let Some(s) = sweep::build(d, n) else { return Ok("too long") };
			let mut p = s.proof.clone();
			let at: Vec<usize> = (0..p.len()).filter(|i| p[*i].ty == RRSIG).collect();
			let at: Vec<usize> = if at.len() > 40 { at[..20].iter().chain(&at[at.len() - 20..]).cloned().collect() } else { at };
			let i = *ch.pick(&at);
			let mut w = vec![WIN; 2];
			match ch.choose(4) { 0 => w[1].inception += 1, 1 => w[1].expiration -= 1, 2 => w[1].ttl -= 1, _ => w[1].expiration = WIN.inception }
			let mut g = p[i].rrsig().unwrap();
			(g.inception, g.expiration, g.orig_ttl) = (w[1].inception, w[1].expiration, w[1].ttl);
			let rd: Vec<Vec<u8>> = p.iter().filter(|r| r.name == p[i].name && r.ty == g.covered).map(|r| r.rdata.clone()).collect();
			let key = s.world.zone(&g.signer).unwrap().keys.iter().find(|k| k.tag() == g.tag).unwrap();
			g.sig = key.sign(&signed_bytes(&g, &p[i].name, &rd));
			p[i].rdata = g.rdata();
			if ch.flag() { p.reverse(); }
			judge(&p, &w, ch)
		});
	}
	mc.finish()
}
