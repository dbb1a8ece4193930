//! C04: every honestly signed proof with supported algorithms validates to exactly its signed records.
#[path = "../sweep.rs"]
mod sweep;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

const ALGS: [u8; 5] = [8, 10, 13, 14, 15];
/// Validates and compares what is returned with `want`.
fn expect(p: &[Rec], want: &[Rec], key: &str, ch: &mut Chooser) -> Res {
	let v = glue::verify(p);
	ch.note(|| format!("{:#?}\n{:?}", p, v));
	let glue::Verdict::Ok { idx, .. } = &v else { return bad(key, format!("a genuine proof is {}: {:?}", v.class(), p)) };
	let mut got: Vec<&Rec> = Vec::new();
	for i in idx { if *i == usize::MAX { return bad("foreign", "a returned record is not one of the input's"); } got.push(&p[*i]); }
	let mut w: Vec<&Rec> = want.iter().collect();
	got.sort();
	w.sort();
	if got != w { return bad(format!("{}-records", key), format!("a genuine proof returns {:?} instead of {:?}", got, w)); }
	Ok("accepted")
}
/// A zone's keys; the DS digests are over those that sign the DNSKEY set and have an entry point.
fn keyed(name: &Nm, alg: u8, layout: usize, salt: usize) -> (Zone, Vec<usize>) {
	let k = |n: usize, f: u16| Key::of_alg(alg, n + salt, f);
	let old = Key::ed(4000 + salt as u32, ZONE);
	let (keys, ksks, zsks, ds) = match layout {
		0 => (vec![k(0, ZONE | SEP)], vec![0], vec![0], vec![0]),
		1 => (vec![k(0, ZONE | SEP), k(1, ZONE)], vec![0], vec![1], vec![0]),
		// The key-signing key last, with a standby zone-signing key.
		2 => (vec![old, k(1, ZONE), k(0, ZONE | SEP)], vec![2], vec![1], vec![2]),
		// The DNSKEY set signed by both keys, the one without DS first.
		3 => (vec![k(1, ZONE), k(0, ZONE | SEP)], vec![0, 1], vec![0], vec![1]),
		4 => (vec![k(1, ZONE), k(0, ZONE | SEP)], vec![1, 0], vec![0], vec![1]),
		// Two key-signing keys of different algorithms, both with DS; records signed with both.
		5 => (vec![k(0, ZONE | SEP), old.with_flags(ZONE | SEP)], vec![0, 1], vec![0, 1], vec![0, 1]),
		// A key rollover: DS for a future key that is not in use.
		6 => (vec![k(0, ZONE | SEP), old.with_flags(ZONE | SEP), k(1, ZONE)], vec![0], vec![2], vec![1, 0]),
		// A single key without the entry-point flag, and a revoked key.
		7 => (vec![k(0, ZONE), old.with_flags(ZONE | SEP | REVOKE)], vec![0], vec![0], vec![0]),
		// An unsupported algorithm next to the supported one, each with DS and signatures.
		8 => (vec![Key::of_alg(253, salt, ZONE | SEP), k(0, ZONE | SEP)], vec![0, 1], vec![0, 1], vec![0, 1]),
		// As before, the unsupported signature last, and only the supported one with DS.
		_ => (vec![k(0, ZONE | SEP), Key::of_alg(16, salt, ZONE)], vec![0, 1], vec![0, 1], vec![0]),
	};
	let mut z = Zone::new(name, keys[0].clone(), keys[0].clone());
	z.keys = keys; z.ksks = ksks; z.zsks = zsks;
	(z, ds)
}
fn dses(z: &Zone, ds: &[usize], digests: usize) -> Vec<Rec> {
	let of: &[u8] = match digests { 0 => &[2], 1 => &[1], 2 => &[1, 2], 3 => &[2, 4], 4 => &[2, 3, 99], 5 => &[1, 3, 99], _ => &[0, 5, 1] };
	let mut o = Vec::new();
	for d in of { for k in ds { o.push(z.keys[*k].ds(&z.name, *d, 3600)); } }
	o
}
fn rdatas(ty: u16) -> Vec<Vec<u8>> {
	match ty {
		TXT => vec![txt_rdata(b""), txt_rdata(b"a"), txt_rdata(&[0xff; 255]), txt_rdata(&[b'x'; 256]), txt_rdata(b"b \"q\" \\"), txt_rdata(&[0; 510])],
		A => vec![vec![1, 2, 3, 4], vec![1, 2, 3, 3], vec![0; 4], vec![255; 4]],
		AAAA => vec![vec![1; 16], vec![0; 16], { let mut v = vec![1; 16]; v[15] = 0; v }],
		NS => ["b.", "a.b.", "ab.", "a.a.", "aa.b.", ".", "a-.b.", "a.b.c."].iter().map(|n| Nm::new(n).wire()).collect(),
		TLSA => vec![tlsa_rdata(3, 1, 1, &[5; 32]), tlsa_rdata(3, 1, 1, &[5; 31]), tlsa_rdata(0, 0, 0, &[]), tlsa_rdata(3, 1, 2, &[4; 64])],
		CNAME | DNAME => vec![Nm::new("target.example.").wire()],
		_ => unreachable!(),
	}
}
const TYPES: [u16; 7] = [TXT, A, AAAA, NS, TLSA, CNAME, DNAME];
/// The DS of the keys which sign the DNSKEY set.
fn k_ds(z: &Zone) -> Vec<Rec> { z.ksks.iter().map(|k| z.keys[*k].ds(&z.name, 2, 3600)).collect() }
fn one_zone(alg: u8) -> World {
	let (z, ds) = keyed(&Nm::new("z."), alg, 1, 0);
	let mut root = root_zone();
	root.delegate(&z.name, &dses(&z, &ds, 0));
	World { zones: vec![root, z] }
}

fn main() {
	let mc = Mc::new("C04");
	mc.explore("algorithm, keys, digests, depth, type, extras", 0, |ch| {
		let alg = *ch.pick(&ALGS);
		let (layout, digests, depth) = (ch.choose(10), ch.choose(7), ch.choose(3));
		let upper = if depth > 0 { ch.choose(5) } else { 0 };
		let ty = *ch.pick(&TYPES);
		let size = ch.choose(rdatas(ty).len().min(3));
		let extra = ch.choose(4);
		let reverse = ch.flag();
		let mut zones = vec![root_zone()];
		for (i, n) in ["a.", "b.a.", "c.b.a."].iter().take(depth + 1).enumerate() {
			let last = i == depth;
			let (mut z, ds) = if last { keyed(&Nm::new(n), alg, layout, 0) } else { keyed(&Nm::new(n), ALGS[(upper + i) % 5], 1 + upper % 2, 1) };
			z.win.ttl = 100 + i as u32;
			let d = dses(&z, &ds, if last { digests } else { 0 });
			zones[i].delegate(&z.name, &d);
			zones.push(z);
		}
		let z = zones.last_mut().unwrap();
		let n = z.name.child("host").child("sub");
		for r in rdatas(ty).into_iter().take(size + 1) { z.add(&n, ty, r); }
		let w = World { zones };
		let z = w.zones.last().unwrap();
		let want = z.recs(&n, ty, &n);
		let mut p = w.chain(&z.name);
		p.extend(z.signed(&n, ty, &n));
		match extra {
			1 => {
				// Unsigned records, before and after, and a signature of a zone the proof does not reach.
				p.insert(0, Rec::new(&Nm::new("other.a."), TXT, 1, txt_rdata(b"unsigned")));
				p.push(Rec::new(&n.child("below"), A, 1, vec![7; 4]));
				p.push(Rec::new(&Nm::new("unreached."), RRSIG, 1, z.sigs(&n, ty, &n)[0].rrsig().map(|s| SigInfo { signer: Nm::new("unreached."), ..s }).unwrap().rdata()));
				p.push(Rec::new(&Nm::new("unreached."), DNSKEY, 1, Key::ed(1, ZONE).rdata()));
				p.push(Rec::new(&Nm::new("unreached."), DS, 1, ds_rdata(1, 15, 2, &[1; 32])));
				p.push(Rec::new(&z.name.child("nsec"), NSEC, 1, nsec_rdata(&n, &[1])));
			},
			2 => {
				// A further signature by each other key of the zone, announced and signing as zone keys do.
				for (i, k) in z.keys.iter().enumerate() {
					if z.zsks.contains(&i) || k.flags & REVOKE != 0 { continue; }
					let rd: Vec<Vec<u8>> = want.iter().map(|r| r.rdata.clone()).collect();
					let s = sign_set(k, &z.name, &n, &n, ty, &rd, WIN);
					if i & 1 == 0 { p.insert(0, s); } else { p.push(s); }
				}
			},
			3 => for r in p.iter_mut() {
				// Upper case, and remaining TTLs below the original ones.
				r.name = Nm(r.name.0.iter().map(|l| l.to_ascii_uppercase()).collect());
				r.ttl = r.ttl.saturating_sub(7);
			},
			_ => {},
		}
		let want = if extra == 3 { want.iter().map(|r| Rec { name: Nm(r.name.0.iter().map(|l| l.to_ascii_uppercase()).collect()), ttl: r.ttl.saturating_sub(7), ..r.clone() }).collect() } else { want };
		if reverse { p.reverse(); }
		expect(&p, &want, "genuine", ch)
	});
	// Any flags beside the zone one, and the key tags' arithmetic: carries, none, twice, and the extreme tags.
	let kinds = [Key::ed(81, ZONE), Key::of_alg(13, 0, ZONE), Key::of_alg(14, 0, ZONE), Key::of_alg(8, 0, ZONE), Key::of_alg(8, 2, ZONE), Key::of_alg(10, 2, ZONE).rsa_long_exponent(), Key::raw_rsa(8, 0, ZONE), Key::raw_rsa(8, 2, ZONE)];
	let mut tagged: Vec<Key> = Vec::new();
	for k in &kinds {
		for b in 0..16 { if 1 << b != REVOKE { tagged.push(k.with_flags(ZONE | 1 << b)); tagged.push(k.with_flags(!(REVOKE | 1 << b) | ZONE)); } }
		let sum = |k: &Key| k.rdata().chunks(2).fold(0u32, |s, c| s + (c[0] as u32 * 256) + *c.get(1).unwrap_or(&0) as u32);
		let all: Vec<Key> = (0..=u16::MAX).filter(|f| f & ZONE != 0 && f & REVOKE == 0).map(|f| k.with_flags(f)).collect();
		let twice: Vec<&Key> = all.iter().filter(|k| (sum(k) & 0xffff) + (sum(k) >> 16) > 0xffff).collect();
		tagged.extend(twice.iter().take(2).map(|k| (*k).clone()));
		tagged.extend(twice.last().map(|k| (*k).clone()));
		for t in [0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff] { tagged.extend(all.iter().find(|k| k.tag() == t).cloned()); }
	}
	mc.measured("keys of chosen flags and tags", tagged.len());
	mc.range("key flags and tags", tagged.len() as u64 * 4, |i, ch| {
		let (k, how) = (&tagged[i as usize / 4], i % 4);
		let other = Key::ed(82, ZONE | if how & 2 == 0 { SEP } else { 0 });
		// As the only key, as the one with DS, or as the one that signs the data.
		let mut z = match how { 0 => Zone::single_key(&Nm::new("z."), k.clone()), 1 | 2 => Zone::new(&Nm::new("z."), k.clone(), other.clone()), _ => Zone::new(&Nm::new("z."), other.clone(), k.clone()) };
		if k.tag() == other.tag() { return Ok("colliding tags"); }
		if how == 2 { z.keys.reverse(); z.ksks = vec![1]; z.zsks = vec![0]; }
		let t = Nm::new("t.z.");
		z.add(&t, TXT, txt_rdata(b"data"));
		let mut root = root_zone();
		let ds = k_ds(&z);
		root.delegate(&z.name, &ds);
		let w = World { zones: vec![root, z] };
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, TXT, &t));
		expect(&p, &w.zones[1].recs(&t, TXT, &t), "tag", ch)
	});
	// Keys that share a tag but can be told apart by algorithm, protocol or zone flag.
	let alike = Key::lookalikes();
	mc.measured("keys of shared tags", alike.len());
	mc.explore("keys of one tag", 0, |ch| {
		let (decoy, real) = ch.pick(&alike);
		let role = ch.choose(3);
		let other = Key::ed(83, ZONE | SEP);
		let t = Nm::new("t.z.");
		let mut z = match role { 0 => Zone::single_key(&Nm::new("z."), real.clone()), 1 => Zone::new(&Nm::new("z."), real.clone(), other.clone()), _ => Zone::new(&Nm::new("z."), other.clone(), real.clone()) };
		// The decoy first or last, with or without a DS, signing or not.
		let first = ch.flag();
		let at = if first { z.keys.insert(0, decoy.clone()); for k in z.ksks.iter_mut().chain(z.zsks.iter_mut()) { *k += 1; } 0 } else { z.keys.push(decoy.clone()); z.keys.len() - 1 };
		let own = z.ksks.clone();
		if ch.flag() { if ch.flag() { z.ksks.insert(0, at) } else { z.ksks.push(at) } }
		let mut root = root_zone();
		let ds = k_ds(&z);
		root.delegate(&z.name, &ds);
		z.ksks = own;
		if decoy.alg != real.alg {
			if ch.flag() { if ch.flag() { z.ksks.insert(0, at) } else { z.ksks.push(at) } }
			if ch.flag() { if ch.flag() { z.zsks.insert(0, at) } else { z.zsks.push(at) } }
		}
		z.add(&t, TXT, txt_rdata(b"data"));
		let w = World { zones: vec![root, z] };
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, TXT, &t));
		if ch.flag() { p.reverse(); }
		expect(&p, &w.zones[1].recs(&t, TXT, &t), "one tag", ch)
	});
	// Key tags of keys of every length: that of RFC 4034 appendix B, carries included.
	let mut lens: Vec<usize> = (0..mc.tier(1100, 8300)).collect();
	for m in [2048usize, 4096, 8192, 16384, 32768, 65528] { lens.extend(m - 8..(m + 4).min(65532)); }
	mc.range("key tags", lens.len() as u64, |i, ch| {
		let i = lens[i as usize];
		for fill in 0..6u8 {
			let key: Vec<u8> = (0..i).map(|j| match fill { 0 => 0xff, 1 => 0, 2 => 0x80, 3 => j as u8, 4 => if j % 2 == 0 { 0xff } else { 0 }, _ => if j % 2 == 0 { 0 } else { 0xff } }).collect();
			for (flags, proto, alg) in [(256u16, 3u8, 8u8), (257, 3, 13), (0xffff, 0xff, 0xff), (0, 0, 0)] {
				let want = key_tag(&dnskey_rdata(flags, proto, alg, &key));
				let k = dnssec_prover::rr::DnsKey { name: "z.".try_into().unwrap(), flags, protocol: proto, alg, pubkey: key.clone() };
				ch.note(|| format!("{:?}", k));
				let got = k.key_tag();
				if got != want { return bad("key-tag", format!("the tag of a key of {} bytes, flags {}, protocol {}, algorithm {} is {} instead of {}", i, flags, proto, alg, got, want)); }
			}
		}
		Ok("tag")
	});
	mc.range("deep chains", mc.tier(24, 60), |i, ch| {
		// So many zones below each other, and as many siblings at the deepest.
		let (mut zones, mut n) = (vec![root_zone()], Nm::root());
		for l in 0..=i {
			n = n.child(&format!("{}", l % 10));
			if n.text().len() > 200 { break; }
			let z = Zone::single_key(&n, Key::ed(90 + l as u32, ZONE | SEP));
			let d = z.ds(2);
			zones[l as usize].delegate(&n, &d);
			zones.push(z);
		}
		let last = zones.len() - 1;
		for l in 0..=i {
			let n = n.child(&format!("s{}", l));
			let z = Zone::single_key(&n, Key::ed(190 + l as u32, ZONE | SEP));
			let d = z.ds(2);
			zones[last].delegate(&n, &d);
			zones.push(z);
		}
		for z in zones.iter_mut() { let n = z.name.child("t"); z.add(&n, TXT, txt_rdata(n.text().as_bytes())); }
		let w = World { zones };
		let (mut p, mut want) = (Vec::new(), Vec::new());
		for z in &w.zones {
			for r in w.chain(&z.name) { if !p.contains(&r) { p.push(r); } }
			let n = z.name.child("t");
			p.extend(z.signed(&n, TXT, &n));
			want.extend(z.recs(&n, TXT, &n));
		}
		if i % 2 == 1 { p.reverse(); }
		expect(&p, &want, "deep", ch)
	});
	mc.explore("RSA key forms", 0, |ch| {
		let alg = *ch.pick(&[8u8, 10]);
		let key = |n: usize, f: u16| match n { 0 => Key::raw_rsa(alg, 0, f), 1 => Key::raw_rsa(alg, 1, f), 2 => Key::raw_rsa(alg, 2, f), 3 => Key::of_alg(alg, 0, f), 4 => Key::of_alg(alg, 2, f), 5 => Key::of_alg(alg, 0, f).rsa_long_exponent(), 6 => Key::of_alg(alg, 2, f).rsa_long_exponent(), n => Key::raw_rsa(alg, n - 4, f) };
		let (a, b) = (key(ch.choose(11), ZONE | SEP), key(ch.choose(11), ZONE));
		let mut z = Zone::new(&Nm::new("z."), a, b);
		z.add(&Nm::new("t.z."), TXT, txt_rdata(b"data"));
		let mut root = root_zone();
		root.delegate(&z.name, &z.ds(1 + ch.choose(2) as u8));
		let w = World { zones: vec![root, z] };
		let t = Nm::new("t.z.");
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, TXT, &t));
		expect(&p, &w.zones[1].recs(&t, TXT, &t), "rsa", ch)
	});
	mc.explore("every small record set, in every order", 0, |ch| {
		let alg = *ch.pick(&[13u8, 15]);
		let ty = *ch.pick(&TYPES[..5]);
		let all = rdatas(ty);
		let pick = ch.subset(all.len());
		if pick.is_empty() || pick.len() > mc.tier(4, 6) { return Ok("size not covered"); }
		let mut w = one_zone(alg);
		let t = Nm::new("t.z.");
		for i in &pick { w.zones[1].add(&t, ty, all[*i].clone()); }
		let z = &w.zones[1];
		let recs = z.recs(&t, ty, &t);
		let order = if recs.len() <= 4 { ch.permutation(recs.len()) } else { (0..recs.len()).rev().collect() };
		let mut p = w.chain(&z.name);
		p.extend(order.iter().map(|i| recs[*i].clone()));
		p.extend(z.sigs(&t, ty, &t));
		expect(&p, &recs, "set", ch)
	});
	// Every type and number of records at every sort of name.
	mc.explore("every type at every sort of name", 0, |ch| {
		let ty = *ch.pick(&TYPES);
		let zn = Nm::new(*ch.pick(&[".", "z.", "s.z."]));
		let under = |n: &str| Nm::new(n).join(&zn);
		let mut n = match ch.choose(9) { 0 => zn.clone(), 1 => under("t."), 2 => under("*."), 3 => under("*.w."), 4 => under("_443._tcp.www."), 5 => under("a.b.c.d.e.f.g."), 6 => under("_x."), 7 => under("x.*."), _ => under("a.user._bitcoin-payment.") };
		if n.labels() == 0 && ty == NS { n = under("com-."); }
		let k = if matches!(ty, CNAME | DNAME) { 1 } else { 1 + ch.choose(rdatas(ty).len()) };
		let (two, alone, signers) = (ch.flag(), ch.flag(), ch.choose(3));
		let mut zones = vec![root_zone()];
		for i in (0..zn.labels()).rev() {
			let mut z = Zone::new(&Nm(zn.0[i..].to_vec()), Key::ed(4500 + i as u32, ZONE | SEP), Key::ed(4510 + i as u32, ZONE));
			if i == 0 { match signers { 1 => z.zsks = vec![0], 2 => z.zsks = vec![1, 0], _ => {} } }
			let ds = z.ds(2);
			let name = z.name.clone();
			zones.last_mut().unwrap().delegate(&name, &ds);
			zones.push(z);
		}
		let z = zones.last_mut().unwrap();
		for r in rdatas(ty).into_iter().take(k) { z.add(&n, ty, r); }
		// Another type at the name, another name beside.
		let other = if ty == A { AAAA } else { A };
		if two && ty != CNAME { z.add(&n, other, rdatas(other)[0].clone()); }
		if !alone { z.add(&under("o."), ty, rdatas(ty)[0].clone()); }
		let w = World { zones };
		let z = w.zones.last().unwrap();
		let (mut p, mut want) = (w.chain(&zn), Vec::new());
		for (o, t) in z.sets.keys().filter(|(_, t)| TYPES.contains(t) && !(*t == NS && z.cuts.iter().any(|c| n != *c && zn.labels() == 0))) { if z.cuts.contains(o) { continue; } p.extend(z.signed(o, *t, o)); want.extend(z.recs(o, *t, o)); }
		if ch.flag() { p.reverse(); }
		expect(&p, &want, "sort", ch)
	});
	// Key and DS sets of mixed keys sort by their whole data.
	mc.explore("key sets", 0, |ch| {
		let pool = [Key::ed(61, ZONE), Key::ed(62, ZONE | SEP), Key::of_alg(13, 0, ZONE), Key::of_alg(8, 0, ZONE), Key::of_alg(14, 0, ZONE | SEP), Key::of_alg(250, 0, ZONE)];
		let s = ch.subset(pool.len());
		let ok: Vec<usize> = (0..s.len()).filter(|i| pool[s[*i]].alg != 250).collect();
		if ok.is_empty() { return Ok("no usable key"); }
		let (k, z) = (*ch.pick(&ok), *ch.pick(&ok));
		let mut zone = Zone::new(&Nm::new("z."), pool[0].clone(), pool[0].clone());
		zone.keys = s.iter().map(|i| pool[*i].clone()).collect();
		zone.ksks = vec![k];
		zone.zsks = vec![z];
		zone.add(&Nm::new("t.z."), A, vec![1; 4]);
		let all: Vec<usize> = (0..zone.keys.len()).collect();
		let ds = match ch.choose(3) { 0 => dses(&zone, &[k], 0), 1 => dses(&zone, &all, 0), _ => { let mut d = dses(&zone, &all, 2); d.reverse(); d } };
		let mut root = root_zone();
		root.delegate(&zone.name, &ds);
		if ch.flag() { zone.keys.iter_mut().for_each(|_| {}); }
		let w = World { zones: vec![root, zone] };
		let t = Nm::new("t.z.");
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, A, &t));
		expect(&p, &w.zones[1].recs(&t, A, &t), "keys", ch)
	});
	mc.range("TXT of every length", mc.tier(1200, 20000), |i, ch| {
		let mut w = one_zone(15);
		let t = Nm::new("t.z.");
		w.zones[1].add(&t, TXT, txt_rdata(&(0..i).map(|k| (k * 7 + i) as u8).collect::<Vec<_>>()));
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, TXT, &t));
		expect(&p, &w.zones[1].recs(&t, TXT, &t), "txt", ch)
	});
	mc.explore("TXT of every division into strings", 0, |ch| {
		// Up to four strings; lengths around the boundaries.
		let n = 1 + ch.choose(4);
		let mut rd = Vec::new();
		let mut regular = true;
		for i in 0..n {
			let l = *ch.pick(&[0usize, 1, 2, 254, 255]);
			if l != 255 && i + 1 < n { regular = false; }
			if l == 0 && n > 1 { regular = false; }
			rd.push(l as u8);
			rd.extend(std::iter::repeat(b'a' + i as u8).take(l));
		}
		let mut w = one_zone(15);
		let t = Nm::new("t.z.");
		w.zones[1].add(&t, TXT, rd);
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, TXT, &t));
		expect(&p, &w.zones[1].recs(&t, TXT, &t), if regular { "txt" } else { "txt-strings" }, ch)
	});
	// Records that agree up to any point: the order of such a set depends on what follows.
	mc.range("records that differ late", mc.tier(1300, 6000) * 6, |i, ch| {
		let (n, how, rev) = ((i / 6) as usize, i % 3, i / 3 % 2 == 1);
		let pre: Vec<u8> = (0..n).map(|k| (k * 5 + 1) as u8).collect();
		let with = |t: &[u8]| if how == 2 { [&[3u8, 1, 1][..], &pre, t].concat() } else { txt_rdata(&[&pre[..], t].concat()) };
		let (lo, hi) = match how { 0 => (with(b"0xx"), with(b"1aa")), 1 => (with(b"0"), with(b"1aaa")), _ => (with(b"0x"), with(b"1a")) };
		let ty = if how == 2 { TLSA } else { TXT };
		let mut w = one_zone(15);
		let t = Nm::new("t.z.");
		for d in if rev { [hi, lo] } else { [lo, hi] } { w.zones[1].add(&t, ty, d); }
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, ty, &t));
		expect(&p, &w.zones[1].recs(&t, ty, &t), "late", ch)
	});
	// RRsets of every size, in and against canonical order.
	mc.range("record sets of every size", mc.tier(300, 1200) * 2, |i, ch| {
		let (n, rev) = (i / 2 + 1, i & 1 == 1);
		let mut w = one_zone(15);
		let t = Nm::new("t.z.");
		for k in 0..n {
			let k = if rev { n - 1 - k } else { k };
			w.zones[1].add(&t, A, vec![10, 0, (k >> 8) as u8, k as u8]);
		}
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&t, A, &t));
		expect(&p, &w.zones[1].recs(&t, A, &t), "size", ch)
	});
	mc.explore("owner names", 0, |ch| {
		let labels = ["a", "_443", "x-y", "\\", "{}|~", "*"];
		let mut n = Nm::new("z.");
		for _ in 0..ch.choose(4) { n = n.child(*ch.pick(&labels)); }
		match ch.choose(4) { 1 => n = n.child(&"l".repeat(63)), 2 => while n.text().len() + 63 < 255 { n = n.child(&"m".repeat(62)) }, 3 => while n.text().len() < 253 { n = n.child("d") }, _ => {} }
		let mut w = one_zone(13);
		w.zones[1].add(&n, TXT, txt_rdata(b"data"));
		let mut p = w.chain(&Nm::new("z."));
		p.extend(w.zones[1].signed(&n, TXT, &n));
		expect(&p, &w.zones[1].recs(&n, TXT, &n), "name", ch)
	});
	mc.explore("trees of zones", 0, |ch| {
		// Any shape of up to five zones below the root, each with a record of its own.
		let k = 1 + ch.choose(mc.tier(4, 5));
		let mut zones = vec![root_zone()];
		for i in 0..k {
			let parent = ch.choose(i + 1);
			// Optionally the cut is two labels below.
			let n = zones[parent].name.child(&format!("n{}", i));
			let n = if ch.flag() { n.child("deep") } else { n };
			let (z, ds) = keyed(&n, [13, 15, 14][i % 3], i % 2, i % 2);
			let d = dses(&z, &ds, i % 2);
			zones[parent].delegate(&n, &d);
			zones.push(z);
		}
		for z in zones.iter_mut() { let n = z.name.child("t"); z.add(&n, TXT, txt_rdata(n.text().as_bytes())); }
		let w = World { zones };
		let (mut p, mut want) = (Vec::new(), Vec::new());
		for z in &w.zones {
			for r in w.chain(&z.name) { if !p.contains(&r) { p.push(r); } }
			let n = z.name.child("t");
			p.extend(z.signed(&n, TXT, &n));
			want.extend(z.recs(&n, TXT, &n));
		}
		match ch.choose(3) { 1 => p.reverse(), 2 => p.sort(), _ => {} }
		expect(&p, &want, "tree", ch)
	});
	let one_tag: Vec<Key> = (0..6).map(|i| Key::colliding(5300 + i, 4711)).collect();
	mc.explore("zones with names alike", 0, |ch| {
		// Names which end in, begin with or repeat one another.
		let pool = ["z.", "az.", "a.z.", "z.z.", "a.az.", "z.a.z.", "zz.", "m.", "com.", "z-z.", "z.com.", "za."];
		let mut names: Vec<Nm> = Vec::new();
		for i in 0..mc.tier(3, 5) { let c = ch.choose(pool.len() + 1); if c == pool.len() { if i == 0 { return Ok("none") } break; } let n = Nm::new(pool[c]); if names.contains(&n) { return Ok("twice"); } names.push(n); }
		let mut zones = vec![root_zone()];
		// Each with a key of its own, all with the same one, or with different ones of one tag.
		let keys = ch.choose(3);
		for (i, n) in names.iter().enumerate() {
			zones.push(Zone::single_key(n, match keys { 0 => Key::ed(5200 + i as u32, ZONE | SEP), 1 => Key::ed(5200, ZONE | SEP), _ => one_tag[i].clone() }));
		}
		for i in 1..zones.len() {
			let (n, d) = (zones[i].name.clone(), zones[i].ds(2));
			let up = (0..zones.len()).filter(|j| *j != i && n.below(&zones[*j].name)).max_by_key(|j| zones[*j].name.labels()).unwrap();
			zones[up].delegate(&n, &d);
		}
		for z in zones.iter_mut() { for l in ["t", "z"] { let n = z.name.child(l); if !names.contains(&n) { z.add(&n, TXT, txt_rdata(n.text().as_bytes())); } } }
		let w = World { zones };
		let (mut p, mut want) = (Vec::new(), Vec::new());
		for z in &w.zones {
			for r in w.chain(&z.name) { if !p.contains(&r) { p.push(r); } }
			for l in ["t", "z"] { let n = z.name.child(l); if names.contains(&n) { continue; } p.extend(z.signed(&n, TXT, &n)); want.extend(z.recs(&n, TXT, &n)); }
		}
		if ch.flag() { p.reverse(); }
		expect(&p, &want, "alike", ch)
	});
	// One dimension after another, far beyond what is usual; first some of the large ones.
	let large: Vec<(usize, usize)> = (0..sweep::DIMS.len()).flat_map(|d| {
		let top = match d { 1 | 13 | 14 | 16 => mc.tier(33000, 65530), 0 | 15 => mc.tier(5000, 12000), 2 | 3 | 4 => mc.tier(2100, 5000), 5 | 6 | 8 => mc.tier(1100, 3000), _ => 0 };
		[511usize, 513, 767, 1000, 1025, 1500, 2000, 2049, 3000, 4097, 5000, 8193, 10001, 16385, 20000, 32769, 40000, 65000].into_iter().filter(move |n| *n <= top).map(move |n| (d, n))
	}).collect();
	mc.range("large ones", large.len() as u64 * 2, |i, ch| {
		let (d, n) = large[i as usize / 2];
		let Some(s) = sweep::build(d, n) else { return Ok("too long") };
		let mut p = s.proof.clone();
		if i & 1 == 1 { p.reverse(); }
		expect(&p, &s.want, "large", ch)
	});
	for (d, label) in sweep::DIMS.iter().enumerate() {
		mc.range(&format!("more and more {}", label), mc.tier(280, 1100) * 2, |i, ch| {
			let Some(s) = sweep::build(d, i as usize / 2 + 1) else { return Ok("too long") };
			let mut p = s.proof.clone();
			if i & 1 == 1 { p.reverse(); }
			expect(&p, &s.want, "size", ch)
		});
	}
	mc.finish()
}
