//! C03: altered proofs verify only to what the unaltered ones contain, for no longer.
#[path = "../sweep.rs"]
mod sweep;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

/// A valid proof: its records, and for each returned one the signatures that it rests on.
struct Proof { name: &'static str, recs: Vec<Rec>, needs: Vec<(Rec, Vec<SigInfo>)>, bytes: Vec<u8>, starts: Vec<usize>, world: World }
/// Signs everything with a window of its own; one of the windows is within all others.
struct Signer { n: u32, tight: u32 }
impl Signer {
	fn win(&mut self) -> Win { self.n += 1; let n = self.n; if n == self.tight { return Win { inception: 1_700_900_000, expiration: 1_799_000_000, ttl: 50_000 }; } Win { inception: 1_700_000_000 + n * 1000, expiration: 1_800_000_000 - n * 1000, ttl: 90_000 - n * 10 } }
	fn sign(&mut self, z: &Zone, owner: &Nm, ty: u16, at: &Nm) -> Vec<Rec> {
		let rd: Vec<Vec<u8>> = z.recs(owner, ty, owner).into_iter().map(|r| r.rdata).collect();
		let k = &z.keys[if ty == DNSKEY { z.ksks[0] } else { z.zsks[0] }];
		let mut r = z.recs(owner, ty, at);
		r.push(sign_set(k, &z.name, owner, at, ty, &rd, self.win()));
		r
	}
	fn one(&mut self, z: &Zone, r: &Rec) -> Vec<Rec> { let s = sign_recs(&z.keys[z.zsks[0]], &z.name, std::slice::from_ref(r), self.win()); vec![r.clone(), s] }
}
fn infos(r: &[Rec]) -> Vec<SigInfo> { r.iter().filter_map(|r| r.rrsig()).collect() }
fn build(tight: u32, name: &'static str, zones: Vec<Zone>, leaf: &str, want: &[(&str, &str, u16, bool)]) -> Proof {
	let mut s = Signer { n: 0, tight };
	let leaf = Nm::new(leaf);
	let mut recs = s.sign(&zones[0], &zones[0].name, DNSKEY, &zones[0].name);
	let mut chain = infos(&recs);
	for (i, z) in zones.iter().enumerate().skip(1) {
		let mut r = s.sign(&zones[i - 1], &z.name, DS, &z.name);
		r.extend(s.sign(z, &z.name, DNSKEY, &z.name));
		chain.extend(infos(&r));
		recs.extend(r);
	}
	let z = zones.iter().find(|z| z.name == leaf).unwrap().clone();
	let mut needs = Vec::new();
	for (owner, at, ty, wild) in want {
		let (owner, at) = (Nm::new(owner), Nm::new(at));
		let r = s.sign(&z, &owner, *ty, &at);
		let mut need = chain.clone();
		need.extend(infos(&r));
		if *wild {
			let d = z.cover(&at.trailing(owner.labels()));
			let d = s.one(&z, &d[0]);
			need.extend(infos(&d));
			recs.extend(d);
		}
		needs.extend(r.iter().filter(|r| r.ty != RRSIG).map(|r| (r.clone(), need.clone())));
		recs.extend(r);
	}
	let mut bytes = Vec::new();
	let mut starts = Vec::new();
	for r in &recs { starts.push(bytes.len()); r.write(&mut bytes); }
	Proof { name, recs, needs, bytes, starts, world: World { zones } }
}
fn zones(names: &[&str], seed: u32) -> Vec<Zone> {
	let mut v = vec![root_zone()];
	for (i, n) in names.iter().enumerate() {
		let z = Zone::new(&Nm::new(n), Key::ed(seed + 2 * i as u32, ZONE | SEP), Key::ed(seed + 2 * i as u32 + 1, ZONE));
		let (n, ds) = (z.name.clone(), z.ds(2));
		v.last_mut().unwrap().delegate(&n, &ds);
		v.push(z);
	}
	v
}
fn proofs(tight: u32) -> Vec<Proof> {
	let mut a = zones(&["z."], 500);
	let t = Nm::new("t.z.");
	for d in [&b"oNe"[..], b"two"] { a[1].add(&t, TXT, txt_rdata(d)); }
	a[1].add(&t, A, vec![1, 2, 3, 4]);
	let a = build(tight, "TXT and A", a, "z.", &[("t.z.", "t.z.", TXT, false), ("t.z.", "t.z.", A, false)]);
	let mut b = zones(&["z."], 520);
	b[1].add(&Nm::new("*.w.z."), TXT, txt_rdata(b"wiLd"));
	b[1].add(&Nm::new("x.w.z."), A, vec![1, 1, 1, 1]);
	let b = build(tight, "wildcard, NSEC", b, "z.", &[("*.w.z.", "a.b.w.z.", TXT, true)]);
	let mut c = zones(&["z."], 540);
	c[1].denial = Denial::Nsec3 { iters: 2, salt: vec![7, 8], flags: 0, algo: 1 };
	c[1].add(&Nm::new("*.z."), CNAME, Nm::new("t.z.").wire());
	c[1].add(&t, TXT, txt_rdata(b"tarGet"));
	let c = build(tight, "wildcard CNAME, NSEC3", c, "z.", &[("*.z.", "q.z.", CNAME, true), ("t.z.", "t.z.", TXT, false)]);
	let mut d = zones(&["z.", "y.z."], 560);
	for n in ["b.ns.", "a.b.ns."] { d[2].add(&Nm::new("y.z."), NS, Nm::new(n).wire()); }
	d[2].add(&Nm::new("s.y.z."), TLSA, tlsa_rdata(3, 1, 1, &[9; 32]));
	d[2].add(&Nm::new("d.y.z."), DNAME, Nm::new("z.").wire());
	d[2].add(&Nm::new("s.y.z."), AAAA, vec![4; 16]);
	let d = build(tight, "three levels, other types", d, "y.z.", &[("y.z.", "y.z.", NS, false), ("s.y.z.", "s.y.z.", TLSA, false), ("d.y.z.", "d.y.z.", DNAME, false), ("s.y.z.", "s.y.z.", AAAA, false)]);
	vec![a, b, c, d]
}
fn judge(p: &Proof, bytes: &[u8], ch: &mut Chooser) -> Res {
	glue::budget(1000, 2_000_000);
	let rrs = match dnssec_prover::ser::parse_rr_stream(bytes) { Ok(r) => r, Err(()) => return Ok("unparsable") };
	let v = glue::verify_parsed(&rrs);
	ch.note(|| format!("{}\n{:#?}\n{:?}", p.name, rrs.iter().map(glue::rec_of).collect::<Vec<_>>(), v));
	if let glue::Verdict::Ok { idx, from, expires, ttl } = &v {
		for i in idx {
			if *i == usize::MAX { return bad("foreign", "a returned record is not one of the input's"); }
			let r = glue::rec_of(&rrs[*i]);
			let mut need: Vec<_> = p.needs.iter().filter(|(n, _)| n.same(&r)).collect();
			// An expanded wildcard can be renamed to what is just as true: another expansion, or itself.
			if need.is_empty() && p.world.genuine(&r) { need = p.needs.iter().filter(|(n, s)| n.ty == r.ty && n.rdata == r.rdata && s.iter().any(|s| s.covered == n.ty && (s.labels as usize) < n.name.labels() && r.name.within(&n.name.trailing(s.labels as usize)))).collect(); }
			let Some((_, need)) = need.first() else { return bad("altered", format!("{}: an altered proof returns {:?}", p.name, r)) };
			for s in need {
				if r.name.is_wild() && (s.covered == NSEC || s.covered == NSEC3) { continue; }
				if *from < s.inception as u64 || *expires > s.expiration as u64 { return bad("window", format!("{}: window {}..{} is beyond that of {:?}", p.name, from, expires, s)); }
				if *ttl > s.orig_ttl { return bad("ttl", format!("{}: TTL {} is above that of {:?}", p.name, ttl, s)); }
			}
		}
		return Ok(if idx.len() == p.needs.len() { "all accepted" } else { "partly accepted" });
	}
	Ok(v.class())
}
fn whole(p: &Proof) -> Res {
	match glue::verify(&p.recs) {
		glue::Verdict::Ok { idx, from, expires, ttl } => {
			let all: Vec<&SigInfo> = p.needs.iter().flat_map(|n| n.1.iter()).collect();
			let w = (all.iter().map(|s| s.inception as u64).max().unwrap(), all.iter().map(|s| s.expiration as u64).min().unwrap(), all.iter().map(|s| s.orig_ttl).min().unwrap());
			if idx.len() != p.needs.len() || (from, expires, ttl) != w { return bad("whole", format!("{}: the unaltered proof gives {:?} {:?}, not {:?}", p.name, idx, (from, expires, ttl), w)); }
			Ok("accepted")
		},
		v => bad("whole", format!("{}: the unaltered proof is {}", p.name, v.class())),
	}
}

fn main() {
	let mc = Mc::new("C03");
	mc.assume("signatures are unforgeable; TTLs outside of signatures are not signed");
	let ps = proofs(0);
	mc.measured("proof bytes", format!("{:?}", ps.iter().map(|p| p.bytes.len()).collect::<Vec<_>>()));
	mc.single("unaltered", |_| { for p in &ps { whole(p)?; } Ok("accepted") });
	for p in &ps {
		mc.range(&format!("every byte value: {}", p.name), p.bytes.len() as u64 * 255, |i, ch| {
			let (at, d) = ((i / 255) as usize, (i % 255 + 1) as u8);
			let mut b = p.bytes.clone();
			b[at] ^= d;
			ch.note(|| format!("byte {} xor {:#04x}", at, d));
			judge(p, &b, ch)
		});
		mc.range(&format!("truncations and extensions: {}", p.name), p.bytes.len() as u64 * 2, |i, ch| {
			let at = (i / 2) as usize;
			let mut b = p.bytes.clone();
			if i & 1 == 0 { b.truncate(at); } else { b.extend_from_slice(&p.bytes[at..]); }
			judge(p, &b, ch)
		});
		mc.range(&format!("bytes removed or inserted: {}", p.name), p.bytes.len() as u64 * 8, |i, ch| {
			let (at, k) = ((i / 8) as usize, i % 8);
			let mut b = p.bytes.clone();
			match k { 0..=2 => { let e = (at + 1 + k as usize).min(b.len()); b.drain(at..e); }, 3 => b.insert(at, 0), 4 => b.insert(at, 1), 5 => b.insert(at, 255), 6 => b.insert(at, p.bytes[at]), _ => { let x = b[at]; if at + 1 < b.len() { b[at] = b[at + 1]; b[at + 1] = x; } } }
			judge(p, &b, ch)
		});
		// A record beside a copy of itself of which a byte is changed, with and without its signature beside it.
		let rec_at = |at: usize| p.starts.iter().rposition(|s| *s <= at).unwrap();
		mc.range(&format!("changed copies beside the original: {}", p.name), p.bytes.len() as u64 * 255, |i, ch| {
			let (at, d) = ((i / 255) as usize, (i % 255 + 1) as u8);
			let k = rec_at(at);
			let end = p.starts.get(k + 1).copied().unwrap_or(p.bytes.len());
			let mut b = p.bytes[..end].to_vec();
			b.extend_from_slice(&p.bytes[p.starts[k]..]);
			b[if d & 2 == 0 { at } else { end + at - p.starts[k] }] ^= d;
			ch.note(|| format!("a copy of record {} with byte {} xor {:#04x}", k, at, d));
			judge(p, &b, ch)
		});
		mc.range(&format!("changed copies and a signature: {}", p.name), p.bytes.len() as u64 * 3 * p.recs.len() as u64, |i, ch| {
			let (i, j) = (i / p.recs.len() as u64, (i % p.recs.len() as u64) as usize);
			let (at, d) = ((i / 3) as usize, [1u8, 0x20, 0x80][(i % 3) as usize]);
			if p.recs[j].ty != RRSIG { return Ok("not a signature"); }
			let k = rec_at(at);
			let end = p.starts.get(k + 1).copied().unwrap_or(p.bytes.len());
			let mut c = p.bytes[p.starts[k]..end].to_vec();
			c[at - p.starts[k]] ^= d;
			let mut s = p.recs[j].clone();
			if let Ok((n, _)) = read_name(&c, 0) { s.name = n; }
			let mut b = p.bytes.clone();
			b.extend_from_slice(&c);
			s.write(&mut b);
			ch.note(|| format!("a copy of record {} with byte {} xor {:#04x}, and signature {} at its name", k, at, d, j));
			judge(p, &b, ch)
		});
		let n = p.recs.len();
		mc.explore(&format!("subsets of records: {}", p.name), if n < 16 { n } else { mc.tier(5, n) }, |ch| {
			let r: Vec<Rec> = (0..n).filter(|_| ch.dev(2) == 0).map(|k| p.recs[k].clone()).collect();
			judge(p, &stream(&r), ch)
		});
		mc.explore(&format!("records edited: {}", p.name), if n < 16 { mc.tier(2, 3) } else { mc.tier(1, 3) }, |ch| {
			let mut r = p.recs.clone();
			for k in 0..n {
				let e = ch.dev(1 + 5 * n + 8);
				if e == 0 { continue; }
				let e = e - 1;
				if e < 5 * n {
					let o = p.recs[e % n].clone();
					match e / n {
						0 => r.push(o),
						1 => r[k] = o,
						2 => { r[k].rdata = o.rdata; if r[k].ty != o.ty { r[k].ty = o.ty; } },
						3 => r[k].name = o.name,
						_ => r[k].ty = o.ty,
					}
				} else {
					match e - 5 * n {
						0 => r[k].ttl = 0,
						1 => r[k].ttl = u32::MAX,
						2 => r[k].name = r[k].name.child("*"),
						3 => r[k].name = r[k].name.child("z"),
						4 => if let Some(p) = r[k].name.parent() { r[k].name = p },
						m => if let Some(mut s) = r[k].rrsig() { match m { 5 => s.labels = s.labels.wrapping_sub(1), 6 => s.signer = s.signer.parent().unwrap_or(Nm::new("z.")), _ => s.expiration += 1_000_000 } r[k].rdata = s.rdata(); },
					}
				}
			}
			judge(p, &stream(&r), ch)
		});
	}
	// Each signature in turn is the one whose window and TTL bound the result; its bytes are changed.
	let mut tight: Vec<(Proof, usize, usize)> = Vec::new();
	for t in 1..=16 { for p in proofs(t) {
		if let Some(k) = p.recs.iter().position(|r| r.rrsig().map(|s| s.orig_ttl == 50_000).unwrap_or(false)) { let (a, b) = (p.starts[k], p.starts.get(k + 1).copied().unwrap_or(p.bytes.len())); tight.push((p, a, b)); }
	} }
	mc.measured("signatures made the tightest", tight.len());
	mc.explore("a byte of the tightest signature", 0, |ch| {
		let (p, a, b) = ch.pick(&tight);
		let at = a + ch.choose(b - a);
		let d = 1 + ch.choose(255);
		let mut x = p.bytes.clone();
		x[at] ^= d as u8;
		ch.note(|| format!("byte {} of {}..{} xor {:#04x}", at, a, b, d));
		judge(p, &x, ch)
	});
	mc.explore("two proofs mixed", 0, |ch| {
		// Records of two valid proofs of different zones under one root; each must keep its own bounds.
		let (i, j) = (ch.choose(ps.len()), ch.choose(ps.len()));
		if i == j { return Ok("same"); }
		let n = ps[i].recs.len();
		let (at, len) = (ch.choose(n), 1 + ch.choose(4));
		let mut r = ps[j].recs.clone();
		let k = ch.choose(r.len() + 1);
		for x in ps[i].recs[at..(at + len).min(n)].iter().rev() { if !r.contains(x) { r.insert(k, x.clone()); } }
		// Judged against the proof mixed into: the other's records rest on keys that are not all there.
		judge(&ps[j], &stream(&r), ch)
	});
	if mc.tier(false, true) {
		for p in &ps {
			let n = p.recs.len();
			mc.range(&format!("a byte, without a record: {}", p.name), p.bytes.len() as u64 * 255 * n as u64, |i, ch| {
				let (i, k) = (i / n as u64, (i % n as u64) as usize);
				let (at, d) = ((i / 255) as usize, (i % 255 + 1) as u8);
				let mut b = p.bytes.clone();
				b[at] ^= d;
				let end = p.starts.get(k + 1).copied().unwrap_or(b.len());
				b.drain(p.starts[k]..end);
				judge(p, &b, ch)
			});
		}
	}
	// Proofs of which one dimension is large: any byte changed, any record moved, doubled, dropped or exchanged.
	let sizes: Vec<usize> = mc.tier(vec![2, 17], vec![2, 5, 17, 33, 64, 65, 128, 257]);
	for (d, label) in sweep::DIMS.iter().enumerate() {
		let all: Vec<(usize, sweep::Sweep, Vec<usize>)> = sizes.iter().filter_map(|n| sweep::build(d, *n).map(|s| {
			let mut o = 0;
			let starts = s.proof.iter().map(|r| { let a = o; o += stream(std::slice::from_ref(r)).len(); a }).chain([usize::MAX]).collect();
			(*n, s, starts)
		})).collect();
		let judge = |n: usize, s: &sweep::Sweep, b: &[u8], what: &str, ch: &mut Chooser| -> Res {
			glue::budget(10_000, 10_000_000);
			let rrs = match dnssec_prover::ser::parse_rr_stream(b) { Ok(r) => r, Err(()) => return Ok("unparsable") };
			let v = glue::verify_parsed(&rrs);
			ch.note(|| format!("{} {}, {}\n{:#?}\n{:?}", n, label, what, rrs.iter().map(glue::rec_of).collect::<Vec<_>>(), v));
			let glue::Verdict::Ok { idx, from, expires, ttl } = &v else { return Ok(v.class()) };
			for i in idx {
				let Some(r) = rrs.get(*i).map(glue::rec_of) else { return bad("foreign", "a returned record is not one of the input's") };
				if !s.want.iter().any(|w| w.same(&r)) { return bad("altered", format!("{} {}: {} returns {:?}", n, label, what, r)); }
			}
			if !idx.is_empty() && (*from < WIN.inception as u64 || *expires > WIN.expiration as u64 || *ttl > WIN.ttl) { return bad("window", format!("{} {}: {} gives the window {}..{} and TTL {}", n, label, what, from, expires, ttl)); }
			Ok(if idx.len() == s.want.len() { "all accepted" } else { "partly accepted" })
		};
		mc.explore(&format!("a byte of many {}", label), usize::MAX, |ch| {
			let (n, s, starts) = ch.pick(&all);
			let mut b = stream(&s.proof);
			// Of many records alike, those at either end.
			let len = b.len();
			let at = if len > 6000 { let k = ch.choose(6000); if k < 3000 { k } else { len - 6000 + k } } else { ch.choose(len) };
			let x = *ch.pick(mc.tier(&[1u8, 0x80][..], &[1, 0x10, 0x20, 0x80, 0xff]));
			b[at] ^= x;
			let rec = starts.iter().position(|s| *s > at).unwrap() - 1;
			judge(*n, s, &b, &format!("byte {} (in record {}, {:?}) xor {:#04x}", at, rec, s.proof[rec], x), ch)
		});
		mc.explore(&format!("a record of many {}", label), usize::MAX, |ch| {
			let (n, s, _) = ch.pick(&all);
			let k = s.proof.len();
			let near = |ch: &mut Chooser| { let c = ch.choose(k.min(40)); if c < 20 { c } else { k - k.min(40) + c } };
			let (i, j) = (near(ch), near(ch));
			let mut p = s.proof.clone();
			let o = p[j].clone();
			let way = ch.choose(8);
			match way {
				0 => { let r = p.remove(i); p.insert(j, r); },
				1 => { p.remove(i); if j < p.len() && j != i { p.remove(j); } },
				2 => { p.insert(i, o); },
				3 => p[i] = o,
				4 => p[i].name = o.name,
				5 => { p[i].rdata = o.rdata; p[i].ty = o.ty; },
				_ => { let mut c = p[i].clone(); let l = c.rdata.len(); if l > 0 { c.rdata[l - 1] ^= if way == 6 { 1 } else { 0x20 }; } p.insert(j, c); },
			}
			judge(*n, s, &stream(&p), &format!("records {} and {} combined in way {}", i, j, way), ch)
		});
	}
	mc.finish()
}
