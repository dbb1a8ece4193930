//! C05: the order of a proof's records does not matter.
#[path = "../sweep.rs"]
mod sweep;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

struct Proof { name: &'static str, recs: Vec<Rec>, single: bool }
/// Gives each signature a window of its own.
fn rewin(z: &mut Zone, n: u32) { z.win = Win { inception: 1_700_000_000 + n * 13, expiration: 1_800_000_000 - n * 17, ttl: 5000 - n }; }
fn root1() -> Zone { let mut z = Zone::single_key(&Nm::root(), root_ksk()); rewin(&mut z, 1); z }
fn csk(n: &str, seed: u32) -> Zone { let mut z = Zone::single_key(&Nm::new(n), Key::ed(seed, ZONE | SEP)); rewin(&mut z, seed); z }
fn link(p: &mut Zone, c: &Zone) { let ds = c.ds(2); p.delegate(&c.name, &ds); }
fn proofs() -> Vec<Proof> {
	let mut out = Vec::new();
	let t = Nm::new("t.z.");
	// 8 records.
	let (mut r, mut z) = (root1(), csk("z.", 20));
	link(&mut r, &z);
	z.add(&t, TXT, txt_rdata(b"a"));
	let w = World { zones: vec![r, z] };
	let mut p = w.chain(&Nm::new("z."));
	p.extend(w.zones[1].signed(&t, TXT, &t));
	out.push(Proof { name: "one record", recs: p, single: true });
	// A zone directly under the root's name with a record of the root itself.
	let (mut r, mut z) = (root1(), csk("z.", 21));
	r.add(&Nm::new("t."), A, vec![1; 4]);
	link(&mut r, &z);
	z.add(&t, A, vec![2; 4]);
	let w = World { zones: vec![r, z] };
	let mut p = w.chain(&Nm::new("z."));
	p.extend(w.zones[0].signed(&Nm::new("t."), A, &Nm::new("t.")));
	out.push(Proof { name: "root record", recs: p, single: true });
	// DNSKEYs signed by the key with DS and by another one.
	let mut r = root1();
	let mut z = csk("z.", 22);
	z.keys.push(Key::ed(23, ZONE));
	z.ksks = vec![0];
	link(&mut r, &z);
	z.ksks = vec![1, 0];
	z.add(&t, NS, Nm::new("b.").wire());
	z.add(&t, NS, Nm::new("a.b.").wire());
	let w = World { zones: vec![r, z] };
	let z = &w.zones[1];
	let mut p = w.chain(&Nm::new("z."))[2..].to_vec();
	p.extend(z.signed(&t, NS, &t));
	let k = w.zones[0].apex();
	p.extend(k);
	out.push(Proof { name: "two DNSKEY signatures", recs: p, single: false });
	// A target with two signatures, one unsupported.
	let (mut r, mut z) = (root1(), csk("z.", 24));
	link(&mut r, &z);
	z.keys.push(Key::of_alg(253, 0, ZONE));
	z.add(&t, TXT, txt_rdata(b"a"));
	z.zsks = vec![0, 1];
	let w = World { zones: vec![r, z] };
	let mut p = w.chain(&Nm::new("z."));
	p.extend(w.zones[1].signed(&t, TXT, &t));
	out.push(Proof { name: "unsupported signature", recs: p, single: true });
	// Wildcards.
	for nsec3 in [false, true] {
		let (mut r, mut z) = (root1(), csk("z.", 25 + nsec3 as u32));
		link(&mut r, &z);
		if nsec3 { z.denial = Denial::Nsec3 { iters: 1, salt: vec![1], flags: 0, algo: 1 }; }
		z.add(&Nm::new("*.z."), TXT, txt_rdata(b"w"));
		z.add(&Nm::new("zz.z."), A, vec![3; 4]);
		let w = World { zones: vec![r, z] };
		let z = &w.zones[1];
		let mut p = w.chain(&Nm::new("z."));
		p.extend(z.signed(&Nm::new("*.z."), TXT, &Nm::new("q.z.")));
		p.extend(z.cover(&Nm::new("q.z.")));
		out.push(Proof { name: if nsec3 { "wildcard, NSEC3" } else { "wildcard, NSEC" }, recs: p, single: true });
	}
	// Three levels.
	let (mut r, mut z, mut y) = (root1(), csk("z.", 27), csk("y.z.", 28));
	link(&mut z, &y);
	link(&mut r, &z);
	y.add(&Nm::new("y.z."), AAAA, vec![9; 16]);
	let w = World { zones: vec![r, z, y] };
	let mut p = w.chain(&Nm::new("y.z."));
	p.extend(w.zones[2].signed(&Nm::new("y.z."), AAAA, &Nm::new("y.z.")));
	out.push(Proof { name: "three levels", recs: p, single: true });
	// Several sibling zones.
	let mut r = root1();
	let mut zs: Vec<Zone> = (0..4u32).map(|i| csk(&format!("{}.", ["d", "b", "a", "c"][i as usize]), 50 + i)).collect();
	for z in zs.iter_mut() { link(&mut r, z); let n = z.name.child("t"); z.add(&n, A, vec![5; 4]); }
	let mut all = vec![r];
	all.extend(zs);
	let w = World { zones: all };
	let mut p = Vec::new();
	for z in &w.zones[1..] {
		for c in w.chain(&z.name) { if !p.contains(&c) { p.push(c); } }
		let n = z.name.child("t");
		p.extend(z.signed(&n, A, &n));
	}
	out.push(Proof { name: "siblings", recs: p, single: true });
	// Record sets that only differ far inside, in length, or in one of their fields.
	for (name, ty, rds) in [
		("long texts", TXT, vec![txt_rdata(&[b'x'; 300]), txt_rdata(&[b'x'; 299]), { let mut v = vec![b'x'; 300]; v[298] = b'y'; txt_rdata(&v) }, txt_rdata(&[b'x'; 255])]),
		("server names", NS, ["b.example.", "example.", "a.example.", "bb.example."].iter().map(|n| Nm::new(n).wire()).collect()),
		("certificates", TLSA, vec![tlsa_rdata(3, 1, 1, &[7; 32]), tlsa_rdata(3, 1, 1, &[7; 31]), tlsa_rdata(3, 1, 2, &[7; 32]), { let mut v = vec![7; 32]; v[31] = 8; tlsa_rdata(3, 1, 1, &v) }]),
		("IPv6 addresses", AAAA, vec![vec![1; 16], { let mut v = vec![1; 16]; v[15] = 0; v }, { let mut v = vec![1; 16]; v[8] = 2; v }]),
	] {
		let (mut r, mut z) = (root1(), csk("z.", 60));
		link(&mut r, &z);
		for d in rds { z.add(&t, ty, d); }
		let w = World { zones: vec![r, z] };
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, ty, &t));
		out.push(Proof { name, recs: p, single: true });
	}
	// A large one: siblings, wildcards of both zones with two expansions each, extra keys.
	let (mut r, mut z, mut y, mut x) = (root_zone(), csk("z.", 29), csk("y.", 30), csk("x.z.", 31));
	y.denial = Denial::Nsec3 { iters: 3, salt: vec![], flags: 0, algo: 1 };
	x.keys.push(Key::ed(32, ZONE));
	x.zsks = vec![1];
	for q in [&mut z, &mut y] {
		let n = q.name.clone();
		q.add(&n.child("*"), TXT, txt_rdata(b"w"));
		q.add(&n.child("*"), A, vec![1; 4]);
		q.add(&n.child("zz"), CNAME, Nm::new("t.x.z.").wire());
	}
	x.add(&Nm::new("t.x.z."), TXT, txt_rdata(b"1"));
	x.add(&Nm::new("t.x.z."), TXT, txt_rdata(b"2"));
	link(&mut z, &x);
	link(&mut r, &z);
	link(&mut r, &y);
	let w = World { zones: vec![r, z, y, x] };
	let mut p = Vec::new();
	for n in ["x.z.", "y."] { for c in w.chain(&Nm::new(n)) { if !p.contains(&c) { p.push(c); } } }
	for i in [1, 2] {
		let q = &w.zones[i];
		let star = q.name.child("*");
		for l in ["b", "c"] {
			let at = q.name.child(l);
			p.extend(q.signed(&star, TXT, &at));
			p.extend(q.signed(&star, A, &at));
			for c in q.cover(&at) { if !p.contains(&c) { p.push(c); } }
		}
		let zz = q.name.child("zz");
		p.extend(q.signed(&zz, CNAME, &zz));
	}
	let t = Nm::new("t.x.z.");
	p.extend(w.zones[3].signed(&t, TXT, &t));
	out.push(Proof { name: "large", recs: p, single: true });
	out
}
type Seen = (&'static str, Vec<Rec>, Option<(u64, u64, u32)>);
fn see(recs: &[Rec]) -> (Seen, glue::Verdict) {
	let v = glue::verify(recs);
	let mut r: Vec<Rec> = v.idx().iter().map(|i| recs[*i].clone()).collect();
	r.sort();
	let w = if let glue::Verdict::Ok { from, expires, ttl, .. } = &v { Some((*from, *expires, *ttl)) } else { None };
	((v.class(), r, w), v)
}
fn compare(p: &Proof, want: &Seen, recs: &[Rec], ch: &mut Chooser) -> Res {
	let (got, v) = see(recs);
	ch.note(|| format!("{}: {:#?}\n{:?}\nexpected {:?}", p.name, recs, v, want));
	if got.0 != want.0 { return bad("verdict", format!("{}: {} in the original order, {} in another: {:?}", p.name, want.0, got.0, recs)); }
	if got.1 != want.1 { return bad("records", format!("{}: {:?} in the original order, {:?} in another", p.name, want.1, got.1)); }
	if p.single && got.2 != want.2 { return bad("window", format!("{}: {:?} in the original order, {:?} in another", p.name, want.2, got.2)); }
	Ok(got.0)
}
fn nth_permutation(mut i: u64, n: usize) -> Vec<usize> {
	let mut left: Vec<usize> = (0..n).collect();
	let mut o = Vec::with_capacity(n);
	for k in (1..=n as u64).rev() { o.push(left.remove((i % k) as usize)); i /= k; }
	o
}

fn main() {
	let mc = Mc::new("C05");
	let ps = proofs();
	for p in &ps {
		let n = p.recs.len();
		let want = see(&p.recs).0;
		mc.single(&format!("accepted: {}", p.name), |ch| {
			ch.note(|| format!("{:#?}", p.recs));
			if want.0 == "accepted" { Ok("accepted") } else { bad("whole", format!("{} is {}", p.name, want.0)) }
		});
		if n <= mc.tier(9, 11) {
			mc.range(&format!("every permutation: {}", p.name), (1..=n as u64).product(), |i, ch| {
				let r: Vec<Rec> = nth_permutation(i, n).into_iter().map(|k| p.recs[k].clone()).collect();
				compare(p, &want, &r, ch)
			});
		}
		// Any order that a few moves of a record to another place, and a reversal, give.
		mc.explore(&format!("a few moves: {}", p.name), if n <= 10 { mc.tier(3, 4) } else { mc.tier(2, 3) - (n > 30) as usize }, |ch| {
			let mut r = p.recs.clone();
			if ch.flag() { r.reverse(); }
			loop {
				let m = ch.dev(1 + n * n);
				if m == 0 { break; }
				let x = r.remove((m - 1) / n);
				r.insert((m - 1) % n, x);
			}
			compare(p, &want, &r, ch)
		});
		if n <= mc.tier(8, 10) {
			// Incomplete proofs have a verdict that does not depend on the order, too.
			mc.explore(&format!("every permutation of every subset: {}", p.name), 0, |ch| {
				let s = ch.subset(n);
				if s.len() < 2 || s.len() > mc.tier(5, 7) { return Ok("size not covered"); }
				let base: Vec<Rec> = s.iter().map(|i| p.recs[*i].clone()).collect();
				let order = ch.permutation(base.len());
				let r: Vec<Rec> = order.iter().map(|i| base[*i].clone()).collect();
				compare(p, &see(&base).0, &r, ch)
			});
		}
	}
	// Every order of the signatures and keys among themselves, in zones with many.
	mc.explore("key and signature orders", 0, |ch| {
		let (mut r, mut z) = (root1(), csk("z.", 40));
		z.keys.push(Key::ed(41, ZONE));
		z.keys.push(Key::ed(42, ZONE | SEP));
		z.keys.push(Key::of_alg(253, 3, ZONE | SEP));
		let who = ch.subset(4);
		if who.is_empty() { return Ok("no DS"); }
		z.ksks = who.clone();
		link(&mut r, &z);
		z.ksks = ch.subset(4);
		z.zsks = vec![0, 1];
		z.add(&Nm::new("t.z."), TXT, txt_rdata(b"x"));
		z.add(&Nm::new("t.z."), TXT, txt_rdata(b"w"));
		let w = World { zones: vec![r, z] };
		let z = &w.zones[1];
		let sigs = z.sigs(&z.name, DNSKEY, &z.name);
		let t = Nm::new("t.z.");
		let make = |ks: &[usize], ss: &[usize], ts: bool| {
			let mut p = w.zones[0].apex();
			p.extend(w.zones[0].signed(&z.name, DS, &z.name));
			let keys = z.recs(&z.name, DNSKEY, &z.name);
			p.extend(ks.iter().map(|i| keys[*i].clone()));
			p.extend(ss.iter().map(|i| sigs[*i].clone()));
			let mut r = z.signed(&t, TXT, &t);
			if ts { r.reverse(); }
			p.extend(r);
			p
		};
		let base = make(&[0, 1, 2, 3], &(0..sigs.len()).collect::<Vec<_>>(), false);
		let p = Proof { name: "keys and signatures", recs: vec![], single: false };
		let (ks, ss) = (ch.permutation(4), ch.permutation(sigs.len()));
		let ts = ch.flag();
		compare(&p, &see(&base).0, &make(&ks, &ss, ts), ch)
	});
	// Keys that share a tag, told apart by algorithm, protocol or zone flag: every order of keys, DSs and signatures.
	let alike = Key::lookalikes();
	mc.explore("keys of one tag", 0, |ch| {
		let (decoy, real) = ch.pick(&alike);
		let (mut r, mut z) = (root1(), Zone::single_key(&Nm::new("z."), real.clone()));
		rewin(&mut z, 70);
		z.keys.push(decoy.clone());
		z.keys.push(Key::ed(43, ZONE));
		let signs = if decoy.alg != real.alg { ch.choose(4) } else { 0 };
		if ch.flag() { z.ksks = vec![0, 1]; }
		link(&mut r, &z);
		z.ksks = if signs & 1 != 0 { vec![0, 1] } else { vec![0] };
		z.zsks = if signs & 2 != 0 { vec![0, 1] } else { vec![0] };
		let t = Nm::new("t.z.");
		z.add(&t, TXT, txt_rdata(b"x"));
		let w = World { zones: vec![r, z] };
		let z = &w.zones[1];
		let name = z.name.clone();
		let (keys, sigs) = (z.recs(&name, DNSKEY, &name), z.sigs(&name, DNSKEY, &name));
		let (dses, data) = (w.zones[0].recs(&name, DS, &name), z.sigs(&t, TXT, &t));
		let mut make = |permute: bool| {
			let mut p = w.zones[0].apex();
			p.extend(w.zones[0].sigs(&name, DS, &name));
			for set in [&dses, &keys, &sigs, &data] {
				let order = if permute { ch.permutation(set.len()) } else { (0..set.len()).collect() };
				p.extend(order.iter().map(|i| set[*i].clone()));
			}
			p.extend(z.recs(&t, TXT, &t));
			p
		};
		let (base, other) = (make(false), make(true));
		let p = Proof { name: "keys of one tag", recs: vec![], single: false };
		let want = see(&base).0;
		if want.0 != "accepted" { return bad("whole", format!("{:?} is {}", base, want.0)); }
		compare(&p, &want, &other, ch)
	});
	// Proofs of which one dimension is large: every rotation and every record moved to either end,
	// interleavings of every stride, and sorted orders.
	let sizes: Vec<usize> = if mc.tier(false, true) { (1..=40).chain([63, 64, 65, 127, 128, 129, 256, 257]).collect() } else { vec![2, 3, 5, 9, 17, 33, 65, 129] };
	for (d, label) in sweep::DIMS.iter().enumerate() {
		let all: Vec<(Proof, Seen)> = sizes.iter().filter(|n| **n < 129 || mc.tier(d != 7 && d != 8, true)).filter_map(|n| sweep::build(d, *n)).map(|s| { let w = see(&s.proof).0; (Proof { name: label, recs: s.proof, single: true }, w) }).collect();
		mc.explore(&format!("orders of many {}", label), usize::MAX, |ch| {
			let (p, want) = ch.pick(&all);
			if want.0 != "accepted" { return bad("whole", format!("{} records of many {} are {}", p.recs.len(), label, want.0)); }
			let mut r = p.recs.clone();
			let n = r.len();
			match ch.choose(7) {
				0 => { let k = ch.choose(n); r.rotate_left(k); },
				1 => { let k = ch.choose(n); let x = r.remove(k); r.insert(0, x); },
				2 => { let k = ch.choose(n); let x = r.remove(k); r.push(x); },
				3 => { let k = ch.choose(n); r = (0..k + 1).flat_map(|a| (a..n).step_by(k + 1)).map(|i| p.recs[i].clone()).collect(); },
				4 => { let k = ch.choose(n - 1); r.swap(k, k + 1); },
				5 => { let k = ch.choose(n); r[..k].reverse(); },
				_ => match ch.choose(5) { 0 => r.sort(), 1 => r.sort_by_key(|r| r.ty), 2 => r.sort_by_key(|r| r.ty != RRSIG), 3 => r.sort_by_key(|r| std::cmp::Reverse(r.name.labels())), _ => r.sort_by_key(|r| r.rdata.clone()) },
			}
			if ch.flag() { r.reverse(); }
			compare(p, want, &r, ch)
		});
	}
	mc.finish()
}
