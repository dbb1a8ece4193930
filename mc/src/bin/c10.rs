//! C10: validation terminates, with work bounded by the proof's size.
#[path = "../sweep.rs"]
mod sweep;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

/// Blocks the compression function runs for a message of so many bytes.
fn blocks(len: usize) -> u64 { ((len + 9 + 63) / 64) as u64 }
/// Upper bounds for one proof: signature checks, SHA-1 and SHA-256 blocks.
fn bounds(p: &[Rec]) -> (u64, u64, u64) {
	let sigs = p.iter().filter(|r| r.ty == RRSIG).count() as u64;
	// Each key is digested at most once per DS of its name (the root's anchors are three).
	let (mut s1, mut s256) = (0, 0);
	for k in p.iter().filter(|r| r.ty == DNSKEY) {
		let b = blocks(k.name.wire().len() + k.rdata.len());
		let dt = |t: u8| p.iter().filter(|d| d.ty == DS && d.name == k.name && d.rdata.len() > 4 && d.rdata[3] == t).count() as u64;
		s1 += b * dt(1);
		s256 += b * (dt(2) + if k.name.labels() == 0 { 3 } else { 0 });
	}
	// Names to deny: at most one per signature with fewer labels than its name. Two parameter sets each.
	let n3: Vec<(u64, u64)> = p.iter().filter(|r| r.ty == NSEC3 && r.rdata.len() > 5).map(|r| ((r.rdata[2] as u64) << 8 | r.rdata[3] as u64, r.rdata[4] as u64)).filter(|x| x.0 <= 2500).collect();
	let worst = n3.iter().map(|(it, salt)| blocks(255 + *salt as usize) + it * blocks(20 + *salt as usize)).max().unwrap_or(0);
	let denied = p.iter().filter_map(|r| r.rrsig().map(|s| (r, s))).filter(|(r, s)| (s.labels as usize) < r.name.labels()).count() as u64;
	(sigs, s1 + denied * 2 * worst, s256)
}
fn run(p: &[Rec], ch: &mut Chooser) -> Res {
	let Some(rrs) = glue::parse(p) else { ch.note(|| format!("{:#?}", p)); return Ok("unparsable") };
	let b = bounds(p);
	// Stop well beyond the bounds.
	glue::budget(b.0 * 4 + 100, b.1 * 4 + b.2 * 4 + 400_000);
	let v = glue::verify_parsed(&rrs);
	let n = (glue::sigs::count(), glue::hashes::sha1_blocks(), glue::hashes::sha256_blocks());
	ch.note(|| format!("{:#?}\n{:?}: (signatures, SHA-1, SHA-256) {:?} of at most {:?}", p, v, n, b));
	if n.0 > b.0 { return bad("signatures", format!("{} signature checks for {} signatures", n.0, b.0)); }
	if n.1 > b.1 { return bad("sha1", format!("{} SHA-1 blocks, expected at most {}", n.1, b.1)); }
	if n.2 > b.2 { return bad("sha256", format!("{} SHA-256 blocks, expected at most {}", n.2, b.2)); }
	Ok(v.class())
}
fn csk(n: &str, seed: u32) -> Zone { Zone::single_key(&Nm::new(n), Key::ed(seed, ZONE | SEP)) }

fn main() {
	let mc = Mc::new("C10");
	// Delegation graphs: the zones below z. are all the attacker's and sign any DS sets.
	let names = ["z.", "a.z.", "b.a.z.", "c.z."];
	let zs: Vec<Zone> = names.iter().enumerate().map(|(i, n)| csk(n, 1100 + i as u32)).collect();
	let mut root = Zone::single_key(&Nm::root(), root_ksk());
	root.delegate(&zs[0].name, &zs[0].ds(2));
	let down: Vec<(usize, usize)> = (0..4).flat_map(|f| (0..4).map(move |t| (f, t))).filter(|(f, t)| zs[*t].name.within(&zs[*f].name)).collect();
	let up: Vec<(usize, usize)> = (0..4).flat_map(|f| (0..4).map(move |t| (f, t))).filter(|(f, t)| !zs[*t].name.within(&zs[*f].name)).collect();
	let graph = |edges: &[(usize, usize)], order: usize, dup: bool| -> Vec<Rec> {
		let mut p = root.apex();
		p.extend(root.signed(&zs[0].name, DS, &zs[0].name));
		for z in &zs { p.extend(z.apex()); }
		let mut dsets: Vec<usize> = edges.iter().map(|e| e.1).filter(|t| *t != 0).collect();
		dsets.sort(); dsets.dedup();
		for t in &dsets { p.extend(zs[*t].ds(2)); }
		for (f, t) in edges {
			let set: Vec<Vec<u8>> = zs[*t].ds(2).into_iter().map(|r| r.rdata).collect();
			let s = sign_set(&zs[*f].keys[0], &zs[*f].name, &zs[*t].name, &zs[*t].name, DS, &set, WIN);
			p.push(s.clone());
			if dup { p.push(s); }
		}
		for z in &zs { let n = z.name.child("t"); let mut zz = z.clone(); zz.add(&n, A, vec![1; 4]); p.extend(zz.signed(&n, A, &n)); }
		match order { 1 => p.reverse(), 2 => { let k = p.len() / 2; p.rotate_left(k) }, _ => {} }
		p
	};
	mc.explore("delegations downwards and to oneself", 0, |ch| {
		let edges: Vec<(usize, usize)> = ch.subset(down.len()).into_iter().map(|i| down[i]).collect();
		run(&graph(&edges, ch.choose(3), ch.flag()), ch)
	});
	mc.explore("delegations in all directions", mc.tier(3, 6), |ch| {
		let mut edges: Vec<(usize, usize)> = Vec::new();
		for e in down.iter().chain(up.iter()) { if ch.dev(2) == 1 { edges.push(*e); } }
		run(&graph(&edges, ch.choose(3), false), ch)
	});
	// Lattices: zones x.z., x.x.z., ... each delegating to every deeper one, and back.
	mc.explore("lattices", 0, |ch| {
		let depth = 1 + ch.choose(mc.tier(10, 20));
		let back = ch.flag();
		let rev = ch.flag();
		let own = ch.flag();
		let mut z: Vec<Zone> = Vec::new();
		let mut n = Nm::new("z.");
		for i in 0..depth { z.push(Zone::single_key(&n, Key::ed(1120 + i as u32, ZONE | SEP))); n = n.child("x"); }
		let mut root = Zone::single_key(&Nm::root(), root_ksk());
		root.delegate(&z[0].name, &z[0].ds(2));
		let mut p = root.apex();
		p.extend(root.signed(&z[0].name, DS, &z[0].name));
		for k in &z { p.extend(k.apex()); }
		for t in 1..depth {
			p.extend(z[t].ds(2));
			let set: Vec<Vec<u8>> = z[t].ds(2).into_iter().map(|r| r.rdata).collect();
			for f in 0..depth { if f < t || (own && f == t) || (back && f > t) { p.push(sign_set(&z[f].keys[0], &z[f].name, &z[t].name, &z[t].name, DS, &set, WIN)); } }
		}
		let t = n.child("t");
		let mut last = z[depth - 1].clone();
		last.add(&t, A, vec![1; 4]);
		p.extend(last.signed(&t, A, &t));
		if rev { p.reverse(); }
		run(&p, ch)
	});
	// KeyTrap: keys of one tag, signatures by none or some of them.
	mc.explore("colliding key tags and bad signatures", 0, |ch| {
		let mut z = csk("z.", 1150);
		let base = z.keys[0].clone();
		let n = ch.choose(mc.tier(6, 12));
		for i in 0..n { z.keys.push(Key::colliding(2000 + i as u32, base.tag())); }
		let pos = ch.choose(n + 1);
		let k = z.keys.remove(0);
		z.keys.insert(pos, k);
		z.ksks = vec![pos];
		z.zsks = vec![pos];
		let t = Nm::new("t.z.");
		z.add(&t, TXT, txt_rdata(b"x"));
		let mut root = Zone::single_key(&Nm::root(), root_ksk());
		// DS records for one or for all of the keys.
		let all = ch.flag();
		let ds: Vec<Rec> = if all { z.keys.iter().map(|k| k.ds(&z.name, 2, 3600)).collect() } else { z.ds(2) };
		root.delegate(&z.name, &ds);
		let mut p = root.apex();
		p.extend(root.signed(&z.name, DS, &z.name));
		let on_apex = ch.flag();
		let (mut apex, mut leaf) = (z.apex(), z.signed(&t, TXT, &t));
		let bads = ch.choose(mc.tier(6, 12));
		let front = ch.flag();
		for i in 0..bads {
			let set = if on_apex { &mut apex } else { &mut leaf };
			let mut s = set.iter().find(|r| r.ty == RRSIG).unwrap().clone();
			let n = s.rdata.len();
			s.rdata[n - 1 - i] ^= 1;
			if front { set.insert(0, s) } else { set.push(s) }
		}
		p.extend(apex);
		p.extend(leaf);
		run(&p, ch)
	});
	// Repeated records and signatures.
	mc.explore("repetitions", mc.tier(2, 3), |ch| {
		let mut z = csk("z.", 1160);
		z.add(&Nm::new("*.z."), TXT, txt_rdata(b"w"));
		z.add(&Nm::new("zz.z."), A, vec![1; 4]);
		z.denial = if ch.flag() { Denial::Nsec3 { iters: 2, salt: vec![1], flags: 0, algo: 1 } } else { Denial::Nsec };
		let mut root = Zone::single_key(&Nm::root(), root_ksk());
		root.delegate(&z.name, &z.ds(2));
		let w = World { zones: vec![root, z] };
		let mut p = w.chain(&Nm::new("z."));
		let q = Nm::new("q.z.");
		p.extend(w.zones[1].signed(&Nm::new("*.z."), TXT, &q));
		p.extend(w.zones[1].cover(&q));
		let mut out = Vec::new();
		for r in &p { for _ in 0..[1, 2, 3, 0, 20][ch.dev(5)] { out.push(r.clone()); } }
		run(&out, ch)
	});
	// NSEC3 parameters: iterations, salts, numbers of different sets, names to deny.
	mc.explore("NSEC3 work", 0, |ch| {
		let mut z = csk("z.", 1170);
		z.add(&Nm::new("*.z."), TXT, txt_rdata(b"w"));
		z.add(&Nm::new("*.a.z."), TXT, txt_rdata(b"w"));
		let mut root = Zone::single_key(&Nm::root(), root_ksk());
		root.delegate(&z.name, &z.ds(2));
		let w = World { zones: vec![root, z] };
		let z = &w.zones[1];
		let mut p = w.chain(&Nm::new("z."));
		let iters = *ch.pick(&[0u16, 1, 2499, 2500, 2501, 10_000, 65_535]);
		let salt_len = *ch.pick(&[0usize, 8, 35, 36, 255]);
		let sets = *ch.pick(&[1usize, 2, 3, 4, 8]);
		let denied = 1 + ch.choose(mc.tier(3, 6));
		// Whether each record is useless, or the last one is right.
		let useful = ch.choose(3);
		for i in 0..denied {
			let q = Nm::new(&format!("q{}.{}z.", i, if i % 2 == 0 { "" } else { "a." }));
			p.extend(z.signed(&q.parent().unwrap().wild(), TXT, &q));
		}
		for s in 0..sets {
			let mut salt = vec![7u8; salt_len];
			let mut it = iters;
			if let Some(l) = salt.last_mut() { *l = s as u8; } else { it = it.saturating_sub(s as u16); }
			let (owner, next) = match useful { 0 => (vec![0; 20], vec![0; 20]), 1 => (vec![0; 20], bump0()), _ => if s + 1 == sets { (vec![0; 20], vec![0xff; 20]) } else { (vec![0; 20], bump0()) } };
			let mut ob = base32hex(&owner);
			if useful != 2 || s + 1 != sets { ob.pop(); ob.push(b"0123456789"[s % 10] as char); }
			let r = Rec::new(&z.name.child(&ob), NSEC3, 3600, nsec3_rdata(1, if useful == 1 { 1 } else { 0 }, it, &salt, &next, &[A]));
			p.push(z.sign_rec(&r));
			p.push(r);
		}
		// All records of one owner form one set: sign them together where owners coincide.
		run(&p, ch)
	});
	// Signatures with odd fields, truly made by a zone's key, with and without records to cover.
	let mut z = csk("z.", 1180);
	let t = Nm::new("t.a.z.");
	z.add(&t, TXT, txt_rdata(b"x"));
	let mut root2 = Zone::single_key(&Nm::root(), root_ksk());
	root2.delegate(&z.name, &z.ds(2));
	let w2 = World { zones: vec![root2, z] };
	let base2 = w2.chain(&Nm::new("z."));
	let odd_names = ["t.a.z.", "z.", "*.z.", "a.z.", ".", "*.", "y.", "az.", "t.t.t.t.t.t.t.t.z."];
	let odd_types = [TXT, A, NS, CNAME, DNAME, DS, DNSKEY, RRSIG, NSEC, NSEC3, TLSA, 0, 255, 65535];
	mc.explore("odd signatures", 0, |ch| {
		let z = &w2.zones[1];
		let n = Nm::new(*ch.pick(&odd_names));
		let ty = *ch.pick(&odd_types);
		let labels = ch.choose(256) as u8;
		if mc.tier(true, false) && labels > 10 && labels < 126 && labels % 16 != 0 { return Ok("left to the thorough run"); }
		let count = ch.choose(3);
		let rdatas: Vec<Vec<u8>> = (0..count as u8).map(|i| match ty {
			TXT => txt_rdata(&[i]), A => vec![i; 4], NS | CNAME | DNAME => Nm::new(["x.", "z."][i as usize]).wire(), DS => ds_rdata(i as u16, 15, 2, &[i; 32]),
			DNSKEY => dnskey_rdata(257, 3, 15, &[i; 32]), NSEC => nsec_rdata(&Nm::new(["zz.z.", "a.z."][i as usize]), &[A]), NSEC3 => nsec3_rdata(1, 0, i as u16, &[], &[0xff; 20], &[A]),
			TLSA => tlsa_rdata(i, 1, 1, &[1]), RRSIG => SigInfo { covered: A, alg: 15, labels: i, orig_ttl: 1, expiration: 1, inception: 1, tag: 1, signer: Nm::new("z."), sig: vec![i; 64] }.rdata(), _ => vec![i] }).collect();
		if ![TXT, A, NS, CNAME, DNAME, DS, DNSKEY, NSEC, NSEC3, TLSA, RRSIG].contains(&ty) && count > 0 { return Ok("type unknown"); }
		let signer = Nm::new(*ch.pick(&["z.", "."]));
		let k = if signer.labels() == 0 { &w2.zones[0].keys[0] } else { &z.keys[0] };
		let mut s = SigInfo { covered: ty, alg: 15, labels, orig_ttl: 3600, expiration: WIN.expiration, inception: WIN.inception, tag: k.tag(), signer, sig: vec![] };
		// The owner that the labels stand for.
		let owner = if (labels as usize) < n.labels() && ty != NSEC { n.trailing(labels as usize).wild() } else { n.clone() };
		s.sig = k.sign(&signed_bytes(&s, &owner, &rdatas));
		let mut p = base2.clone();
		p.extend(z.signed(&t, TXT, &t));
		for r in &rdatas { p.push(Rec::new(&n, ty, 3600, r.clone())); }
		p.push(Rec::new(&n, RRSIG, 3600, s.rdata()));
		run(&p, ch)
	});
	// Keys and signatures of every length and of odd contents, for every algorithm.
	mc.explore("odd keys and signatures", 0, |ch| {
		let alg = *ch.pick(&[8u8, 10, 13, 14, 15, 253]);
		let len = ch.choose(mc.tier(100, 300));
		let mut key = vec![3u8; len];
		match ch.choose(6) {
			0 => {},
			1 => if len > 0 { key[0] = 0 },
			2 => if len > 2 { key[0] = 0; key[1] = 0; key[2] = (len - 3) as u8; },
			3 => if len > 0 { key[0] = len as u8 - 1; },
			4 => if len > 2 { key[0] = 0; key[1] = 255; key[2] = 255; },
			_ => key.fill(0),
		}
		let mut k = Key::of_alg(253, 9, ZONE | SEP).with_alg(alg);
		k.public = key;
		let mut z = Zone::single_key(&Nm::new("z."), k);
		z.add(&t, TXT, txt_rdata(b"x"));
		let mut root = Zone::single_key(&Nm::root(), root_ksk());
		root.delegate(&z.name, &z.ds(2));
		let w = World { zones: vec![root, z] };
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, TXT, &t));
		let sl = *ch.pick(&[0usize, 1, 31, 32, 63, 64, 65, 96, 128, 256]);
		for r in p.iter_mut() { if let Some(mut s) = r.rrsig() { if s.signer.labels() > 0 { s.sig = vec![5; sl]; r.rdata = s.rdata(); } } }
		run(&p, ch)
	});
	// NSEC and NSEC3 records of odd owners and contents beside an answer that needs a denial.
	mc.explore("odd denial records", 0, |ch| {
		let mut z = w2.zones[1].clone();
		z.add(&Nm::new("*.z."), TXT, txt_rdata(b"w"));
		let q = Nm::new(*ch.pick(&["q.z.", "q.q.z.", "*.q.z."]));
		let mut p = base2.clone();
		p.extend(z.signed(&Nm::new("*.z."), TXT, &q));
		let owner = *ch.pick(&["z.", "a.z.", "0.z.", "00.z.", "vvvvvvvv.z.", "wwwwwwww.z.", "00000000000000000000000000000000.z.", "vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv.z.", "0000000000000000000000000000000=.z.", "*.z.", "vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv.z.", "0000000000000000000000000000000!.z.", "=.z.", "-.-.z."]);
		let owner = Nm::new(owner);
		let rec = if ch.flag() {
			let next = vec![0xffu8; *ch.pick(&[0usize, 1, 19, 20, 21, 255])];
			Rec::new(&owner, NSEC3, 1, nsec3_rdata(1, 0, 0, &vec![1; *ch.pick(&[0usize, 1, 255])], &next, &[A]))
		} else {
			let next = Nm::new(*ch.pick(&[".", "z.", "zz.z.", "a.z.", "zzz.", "\\.z."]));
			Rec::new(&owner, NSEC, 1, nsec_rdata(&next, &[A]))
		};
		p.push(z.sign_rec(&rec));
		p.push(rec);
		run(&p, ch)
	});
	// A root-signed NSEC3 at the root's own name, which has no label to hash.
	mc.explore("denials by the root", 0, |ch| {
		let mut root = Zone::single_key(&Nm::root(), root_ksk());
		root.add(&Nm::new("*."), TXT, txt_rdata(b"w"));
		let q = Nm::new(*ch.pick(&["q.", "q.q."]));
		let mut p = root.apex();
		p.extend(root.signed(&Nm::new("*."), TXT, &q));
		let owner = Nm::new(*ch.pick(&[".", "a.", "00000000000000000000000000000000."]));
		let rec = match ch.choose(3) { 0 => Rec::new(&owner, NSEC3, 1, nsec3_rdata(1, 0, 0, &[], &[0xff; 20], &[A])), 1 => Rec::new(&owner, NSEC, 1, nsec_rdata(&Nm::new("zz."), &[A])), _ => Rec::new(&owner, NSEC, 1, nsec_rdata(&Nm::root(), &[A])) };
		p.push(root.sign_rec(&rec));
		p.push(rec);
		run(&p, ch)
	});
	// Any few records without a chain, or nothing at all.
	let samples: Vec<Rec> = {
		let mut v = base2.clone();
		v.extend(w2.zones[1].signed(&t, TXT, &t));
		v.extend(w2.zones[1].cover(&Nm::new("q.z.")));
		v.push(Rec::new(&Nm::root(), DS, 1, ds_rdata(1, 15, 2, &[0; 32])));
		v.push(Rec::new(&Nm::root(), DNSKEY, 1, dnskey_rdata(257, 3, 15, &[])));
		v.push(Rec::new(&Nm::root(), CNAME, 1, Nm::root().wire()));
		v.push(sign_set(&root_ksk(), &Nm::root(), &Nm::root(), &Nm::root(), DS, &[ds_rdata(1, 15, 2, &[0; 32])], WIN));
		v.push(sign_set(&root_ksk(), &Nm::root(), &Nm::root(), &Nm::root(), CNAME, &[], WIN));
		v
	};
	mc.explore("any few records", 0, |ch| {
		let n = ch.choose(mc.tier(5, 6) + 1);
		let p: Vec<Rec> = (0..n).map(|_| ch.pick(&samples).clone()).collect();
		run(&p, ch)
	});
	// Proofs of which one dimension is large, as they are or with all signatures bad, missing, or repeated.
	for (d, label) in sweep::DIMS.iter().enumerate() {
		mc.range(&format!("many {}", label), mc.tier(130, 600) * 12, |i, ch| {
			let Some(s) = sweep::build(d, i as usize / 12 + 1) else { return Ok("too long") };
			let mut p = s.proof.clone();
			match i / 2 % 6 {
				0 => {},
				1 => for r in p.iter_mut().filter(|r| r.ty == RRSIG) { *r.rdata.last_mut().unwrap() ^= 1; },
				// Those of data and of delegations only.
				2 => for r in p.iter_mut() { if let Some(mut g) = r.rrsig() { if g.covered != DNSKEY { g.sig[0] ^= 1; r.rdata = g.rdata(); } } },
				3 => { let b: Vec<Rec> = p.iter().filter(|r| r.ty == RRSIG).map(|r| { let mut r = r.clone(); *r.rdata.last_mut().unwrap() ^= 1; r }).collect(); for x in b { p.push(x.clone()); p.insert(0, x); } },
				4 => { let b = p.clone(); p.extend(b.clone()); p.extend(b); },
				_ => p.retain(|r| r.ty != DS),
			}
			if i & 1 == 1 { p.reverse(); }
			run(&p, ch)
		});
	}
	mc.assume("work is counted in calls of ring's signature verification and in compression-function runs of bitcoin_hashes; other work (sorting, searching) is bounded only by the 90 s limit on one execution");
	mc.finish()
}
fn bump0() -> Vec<u8> { let mut v = vec![0; 20]; v[19] = 1; v }
