//! C28: with an honest resolver the whole pipeline gives exactly the signed data.
use dnssec_prover::query::ProofBuilder;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::verify_rr_stream;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use model::*;

fn nm(s: &str) -> Nm { Nm::new(s) }
/// How the resolver formats its responses.
#[derive(Clone, Copy, Debug)]
struct Style { compress: Compress, order: usize, flags: u16, opt: bool, age: u32 }
const PLAIN: Style = Style { compress: Compress::All, order: 0, flags: 0x81a0, opt: true, age: 0 };
fn respond(a: &Answer, q: &Question, st: &Style) -> Vec<u8> {
	let (mut an, mut ns) = (a.an.clone(), a.ns.clone());
	match st.order {
		1 => { an.reverse(); ns.reverse(); },
		2 => { an.sort_by_key(|r| r.ty != RRSIG); ns.sort_by_key(|r| r.ty != RRSIG); },
		3 => { let k = an.len() / 2; an.rotate_left(k); },
		4 => an.sort_by_key(|r| usize::MAX - r.rdata.len()),
		5 => an.sort_by_key(|r| (r.ty != TXT, r.ty != RRSIG)),
		_ => {},
	}
	for r in an.iter_mut().chain(ns.iter_mut()) { r.ttl = r.ttl.saturating_sub(st.age); }
	let mut w = MsgWriter::new(0, st.flags | a.rcode as u16, [1, an.len() as u16, ns.len() as u16, st.opt as u16], st.compress);
	w.question(&q.name, q.ty, q.class);
	for r in an.iter().chain(&ns) { w.record(r); }
	if st.opt { w.out.extend_from_slice(&[0, 0, 41, 4, 208, 0, 0, 0x80, 0, 0, 0]); }
	w.out
}
fn end_to_end(w: &World, q: &Nm, ty: u16, st: &Style, dev: bool, ch: &mut Chooser) -> Res {
	let Some((last, want)) = w.resolve(q, ty) else { return Ok("no such data") };
	glue::budget(10_000, 1_000_000);
	let (mut b, first) = ProofBuilder::new(&glue::name(q), ty);
	let mut pending = vec![first];
	let mut asked = 1;
	let mut ttls = u32::MAX;
	while !pending.is_empty() {
		let i = if dev { ch.dev(pending.len()) } else { ch.choose(pending.len()) };
		let query = pending.remove(i);
		let m = match decode(&query) { Ok(m) => m, Err(e) => return bad("query", format!("undecodable query: {}", e)) };
		let a = w.answer(&m.q[0].name, m.q[0].ty);
		if a.an.is_empty() || a.rcode != 0 { return bad("query", format!("asks for {} {}, which does not exist", m.q[0].name.text(), type_name(m.q[0].ty))); }
		let bytes = respond(&a, &m.q[0], st);
		// The TTL of what is taken.
		ttls = ttls.min(strict_response(&bytes).expect("honest response").1);
		ch.note(|| format!("{} {}: {:?}", m.q[0].name.text(), type_name(m.q[0].ty), a.an));
		if !b.awaiting_responses() { break; }
		match b.process_response(&glue::buf(&bytes)) {
			Ok(more) => { asked += more.len(); pending.extend(more); },
			Err(()) => return bad("response", format!("the honest response for {} {} is rejected", m.q[0].name.text(), type_name(m.q[0].ty))),
		}
	}
	// The zones that a proof takes: one question, and for each two more, or one for the root.
	let mut zones: Vec<Nm> = Vec::new();
	let mut n = q.clone();
	for _ in 0..12 {
		let z = w.auth(&n, ty);
		for i in 0..=z.name.labels() { let x = z.name.trailing(i); if w.zone(&x).is_some() && !zones.contains(&x) { zones.push(x); } }
		match z.truth(&n, ty) {
			Truth::Cname => n = read_name(&z.recs(&n, CNAME, &n)[0].rdata, 0).unwrap().0,
			Truth::Dname(anc) => { let t = read_name(&z.recs(&anc, DNAME, &anc)[0].rdata, 0).unwrap().0; n = Nm(n.0[..n.labels() - anc.labels()].to_vec()).join(&t); },
			Truth::Wild { source, cname: true, .. } => n = read_name(&z.recs(&source, CNAME, &n)[0].rdata, 0).unwrap().0,
			_ => break,
		}
	}
	let needed = 2 * zones.len();
	if needed > 10 {
		return if b.finish_proof().is_ok() { bad("cap", format!("a proof comes from {} queries", asked)) } else { Ok("beyond the cap") };
	}
	if asked != needed { return bad("query", format!("{} queries for {} zones", asked, zones.len())); }
	let (proof, ttl) = match b.finish_proof() { Ok(p) => p, Err(()) => return bad("finish", "no proof although all queries are answered") };
	if ttl != ttls { return bad("ttl", format!("the proof's TTL is {}, not {}", ttl, ttls)); }
	let Ok(rrs) = parse_rr_stream(&proof) else { return bad("parse", "the proof does not parse") };
	let v = match verify_rr_stream(&rrs) { Ok(v) => v, Err(e) => return bad("verify", format!("{} {}: {:?}", q.text(), type_name(ty), e)) };
	if v.max_cache_ttl > 3600 || v.valid_from < WIN.inception as u64 || v.expires > WIN.expiration as u64 { return bad("window", "the validity is beyond that of the zones"); }
	for r in &v.verified_rrs { let r = glue::rec_of(r); if ![CNAME, DNAME].contains(&r.ty) && !w.genuine(&r) { return bad("extra", format!("verified {:?}, which is not true", r)); } }
	let got: Vec<Rec> = v.resolve_name(&glue::name(q)).into_iter().map(glue::rec_of).filter(|r| r.ty == ty).collect();
	ch.note(|| format!("{} {} comes to {:?}", q.text(), type_name(ty), got));
	for g in &got { if g.name != last || !want.contains(&g.rdata) { return bad("resolve", format!("{} {} resolves to {:?}", q.text(), type_name(ty), g)); } }
	for d in &want { if got.iter().filter(|g| g.rdata == *d).count() != 1 { return bad("resolve", format!("{} {}: {} is missing or repeated in {:?}", q.text(), type_name(ty), hex(d), got)); } }
	Ok(if last == *q { "direct" } else { "redirected" })
}
fn key(alg: u8, seed: u32, flags: u16) -> Key { if alg == 15 { Key::ed(seed, flags) } else { Key::of_alg(alg, seed as usize, flags) } }
fn zone(name: &str, alg: u8, seed: u32, split: bool, denial: &Denial) -> Zone {
	let mut z = if split { Zone::new(&nm(name), key(alg, seed, ZONE | SEP), key(alg, seed + 1, ZONE)) } else { Zone::single_key(&nm(name), key(alg, seed, ZONE | SEP)) };
	z.denial = denial.clone();
	// So that the last NSEC covers no query.
	z.add(&nm(name).child("~~~"), A, vec![9; 4]);
	z
}
/// Data of all types at a name.
fn fill(z: &mut Zone, n: &Nm) {
	z.add(n, A, vec![192, 0, 2, n.labels() as u8]);
	z.add(n, A, vec![10, 0, 0, 255]);
	z.add(n, AAAA, vec![n.labels() as u8; 16]);
	for t in [&b"v=1"[..], b"b", b"", &[0x80; 255], &[7; 300]] { z.add(n, TXT, txt_rdata(t)); }
	z.add(n, TLSA, tlsa_rdata(3, 1, 1, &[1; 32]));
	z.add(n, TLSA, tlsa_rdata(2, 0, 2, &[2; 64]));
}
fn link(mut zones: Vec<Zone>, split_root: bool, root_denial: &Denial) -> World {
	let mut root = if split_root { root_zone() } else { Zone::single_key(&Nm::root(), root_ksk()) };
	root.denial = root_denial.clone();
	for i in 0..zones.len() {
		let (n, d) = (zones[i].name.clone(), zones[i].ds(2));
		let up = (0..zones.len()).filter(|j| n.below(&zones[*j].name)).max_by_key(|j| zones[*j].name.labels());
		match up { Some(j) => zones[j].delegate(&n, &d), None => root.delegate(&n, &d) }
	}
	let mut all = vec![root];
	all.extend(zones);
	World { zones: all }
}
/// A tree with each kind of alias, within and across zones.
fn big(alg: u8, split: bool, d1: &Denial, d2: &Denial) -> World {
	let mut z = zone("z.", alg, 3000, split, d1);
	let mut y = zone("y.", alg, 3002, split, d2);
	let mut s = zone("s.z.", alg, 3004, !split, d2);
	let mut t = zone("t.s.z.", alg, 3006, split, d1);
	for (zn, names) in [(&mut z, &["z.", "t.z.", "*.w.z.", "h.w.z."][..]), (&mut y, &["y.", "t.y.", "*.y.", "a.b.y."]), (&mut s, &["s.z.", "h.s.z."]), (&mut t, &["h.t.s.z."])] { for n in names { fill(zn, &nm(n)); } }
	for (n, t) in [("c.z.", "t.z."), ("cc.z.", "c.z."), ("x.z.", "t.y."), ("xx.z.", "x.z."), ("cw.z.", "q.w.z."), ("cy.z.", "q.q.y."), ("*.v.z.", "t.y."), ("cv.z.", "m.v.z."), ("cs.z.", "h.t.s.z."), ("cd.z.", "t.d.z.")] { z.add(&nm(n), CNAME, nm(t).wire()); }
	z.add(&nm("d.z."), DNAME, nm("y.").wire());
	fill(&mut z, &nm("d.z."));
	z.add(&nm("d2.z."), DNAME, nm("w.z.").wire());
	z.add(&nm("d3.z."), DNAME, nm("d.z.").wire());
	z.add(&nm("d4.z."), DNAME, nm("s.z.").wire());
	y.add(&nm("cz.y."), CNAME, nm("t.z.").wire());
	y.add(&nm("ct.y."), CNAME, nm("h.t.s.z.").wire());
	s.add(&nm("up.s.z."), CNAME, nm("z.").wire());
	s.add(&nm("*.u.s.z."), CNAME, nm("*.w.z.").wire());
	for (zn, n) in [(&mut z, "z."), (&mut y, "y."), (&mut s, "h.s.z.")] { for t in ["ns1.", "b.ns.", "a.b.ns."] { zn.add(&nm(n), NS, nm(t).wire()); } }
	link(vec![z, y, s, t], split, d1)
}
const TYPES: [u16; 5] = [A, AAAA, TXT, TLSA, NS];
fn queries() -> Vec<Nm> {
	["z.", "t.z.", "q.w.z.", "q.q.w.z.", "*.w.z.", "h.w.z.", "y.", "t.y.", "q.y.", "q.q.y.", "a.b.y.", "q.b.y.", "s.z.", "h.s.z.", "h.t.s.z.", "c.z.", "cc.z.", "x.z.", "xx.z.", "cw.z.", "cy.z.", "m.v.z.", "cv.z.", "cs.z.", "cd.z.",
		"t.d.z.", "q.d.z.", "a.b.d.z.", "d.z.", "h.d2.z.", "q.d2.z.", "t.d3.z.", "h.d4.z.", "h.t.d4.z.", "cz.y.", "ct.y.", "up.s.z.", "m.u.s.z.", "q.m.v.z.", "~~~.z.", "nx.z."].iter().map(|s| nm(s)).collect()
}

fn main() {
	let mc = Mc::new("C28");
	let n3 = Denial::Nsec3 { iters: 1, salt: vec![0xab], flags: 0, algo: 1 };
	let qs = queries();
	let worlds: Vec<World> = vec![big(15, true, &Denial::Nsec, &n3), big(15, false, &n3, &Denial::Nsec), big(13, false, &Denial::Nsec, &n3), big(8, false, &n3, &n3)];
	// Every name and type in every tree, in the order asked.
	mc.explore("names and types", 0, |ch| {
		let w = ch.pick(&worlds);
		let q = ch.pick(&qs);
		let ty = *ch.pick(&[A, AAAA, TXT, TLSA, NS, DNAME]);
		if ty == DNAME && !matches!(w.auth(q, ty).truth(q, ty), Truth::Exact) { return Ok("no such data"); }
		end_to_end(w, q, ty, &PLAIN, true, ch)
	});
	mc.explore("response styles", 0, |ch| {
		let w = &worlds[ch.choose(2)];
		let q = ch.pick(&qs);
		let ty = *ch.pick(&[TXT, NS]);
		let st = Style { compress: *ch.pick(&[Compress::None, Compress::Owner, Compress::All]), order: ch.choose(4), flags: *ch.pick(&[0x81a0, 0x85a0, 0x81b0, 0x8120]), opt: ch.flag(), age: *ch.pick(&[0u32, 100, 3600]) };
		end_to_end(w, q, ty, &st, true, ch)
	});
	// Every order of responses.
	mc.explore("response orders", mc.tier(3, usize::MAX), |ch| {
		let w = &worlds[ch.choose(2)];
		let q = ch.pick(&qs);
		let st = if mc.tier(false, true) && ch.flag() { Style { order: 1, ..PLAIN } } else { PLAIN };
		end_to_end(w, q, TXT, &st, true, ch)
	});
	// Trees of every depth up to the cap and beyond it, records directly in the root too.
	mc.explore("depths", 0, |ch| {
		let depth = ch.choose(7);
		let d = if ch.flag() { n3.clone() } else { Denial::Nsec };
		let mut zs = Vec::new();
		let mut n = Nm::root();
		for i in 0..depth { n = n.child(["z", "a-b", "0", "x", "w", "v"][i]); zs.push(zone(&n.text(), 15, 3100 + 2 * i as u32, i % 2 == 0, &d)); }
		let (h, wi) = (n.child("h"), n.child("*"));
		let mut w = link(zs, ch.flag(), &d);
		let last = w.zones.last_mut().unwrap();
		for x in [&h, &wi, &n] { fill(last, x); }
		last.add(&n.child("~~~"), A, vec![8; 4]);
		let q = match ch.choose(4) { 0 => h, 1 => n.child("q"), 2 => n.child("q").child("r"), _ => n.clone() };
		let ty = *ch.pick(&TYPES);
		end_to_end(&w, &q, ty, &PLAIN, true, ch)
	});
	// Chains of CNAMEs of every length over up to four zones, in every assignment of links to zones.
	mc.explore("CNAME chains", 0, |ch| {
		let len = 1 + ch.choose(mc.tier(4, 6));
		let zn = ["z.", "y.", "s.z.", "x."];
		let mut zs: Vec<Zone> = zn.iter().enumerate().map(|(i, n)| zone(n, 15, 3200 + 2 * i as u32, true, &Denial::Nsec)).collect();
		let at: Vec<usize> = (0..=len).map(|i| if i == 0 { 0 } else { ch.choose(4) }).collect();
		let names: Vec<Nm> = at.iter().enumerate().map(|(i, z)| nm(zn[*z]).child(&format!("l{}", i))).collect();
		for i in 0..len { zs[at[i]].add(&names[i], CNAME, names[i + 1].wire()); }
		fill(&mut zs[at[len]], &names[len]);
		let w = link(zs, true, &Denial::Nsec);
		end_to_end(&w, &names[0], TXT, &PLAIN, true, ch)
	});
	// Answers of every size up to the largest, whose names are at, and point to, every part of the message.
	mc.explore("long answers", 0, |ch| {
		let n = *ch.pick(&[1usize, 3, 7, 8, 12, 15, 16, 24, 31, 32, 48, 61, 62, 63, 64, 65, 80, 127, 128, 180, 220, 240]);
		let size = if n > 100 { 250 } else { ch.choose(mc.tier(2, 8)) * 7 + 247 };
		let (mut z, mut y) = (zone("z.", 15, 3400, true, &Denial::Nsec), zone("y.example.", 15, 3402, false, if ch.flag() { &n3 } else { &Denial::Nsec }));
		let (m, wild) = (nm("m.host.y.example."), nm("*.wild.y.example."));
		for t in [&m, &wild] {
			for i in 0..n { let mut d = vec![b'0' + i as u8 % 10; size]; d[0] = i as u8; y.add(t, TXT, txt_rdata(&d)); }
		}
		y.add(&nm("www.y.example."), CNAME, nm("mail.y.example.").wire());
		y.add(&nm("mail.y.example."), CNAME, nm("a.b.c.host.y.example.").wire());
		y.add(&nm("a.b.c.host.y.example."), CNAME, m.wire());
		y.add(&nm("alias.y.example."), DNAME, nm("host.y.example.").wire());
		y.add(&nm("wc.y.example."), CNAME, nm("any.thing.wild.y.example.").wire());
		z.add(&nm("www.z."), CNAME, nm("www.y.example.").wire());
		let q = nm(*ch.pick(&["m.host.y.example.", "www.y.example.", "m.alias.y.example.", "c.wild.y.example.", "wc.y.example.", "www.z."]));
		let w = link(vec![z, y], true, &Denial::Nsec);
		let st = Style { order: ch.choose(6), compress: *ch.pick(&[Compress::All, Compress::Owner]), ..PLAIN };
		end_to_end(&w, &q, TXT, &st, true, ch)
	});
	// Zones whose names look alike, with keys of their own or shared, each with names that lead to another.
	let alike = ["a.", "aa.", "a.a.", "b.a.", "a.b.", "b.", "-a.", "a-a.", "a.a.a.", "aa.a."];
	mc.explore("zones with names alike", 0, |ch| {
		let k = 1 + ch.choose(mc.tier(3, 4));
		let mut pick: Vec<usize> = Vec::new();
		for _ in 0..k { let from = pick.last().map_or(0, |p| p + 1); if from == alike.len() { return Ok("no such tree"); } let x = from + ch.choose(alike.len() - from); pick.push(x); }
		let shared = ch.flag();
		let d = if ch.flag() { n3.clone() } else { Denial::Nsec };
		let mut zs: Vec<Zone> = pick.iter().enumerate().map(|(i, p)| zone(alike[*p], 15, if shared { 3600 } else { 3600 + 2 * i as u32 }, true, &d)).collect();
		for i in 0..k {
			let n = zs[i].name.clone();
			zs[i].add(&n.child("t"), TXT, txt_rdata(format!("t{}", i).as_bytes()));
			zs[i].add(&n.child("w").wild(), TXT, txt_rdata(format!("w{}", i).as_bytes()));
			let to = zs[(i + 1) % k].name.clone();
			zs[i].add(&n.child("c"), CNAME, to.child("t").wire());
			zs[i].add(&n.child("cw"), CNAME, to.child("w").child("x").wire());
			zs[i].add(&n.child("cc"), CNAME, to.child("c").wire());
			if k > 1 { zs[i].add(&n.child("d"), DNAME, to.wire()); }
		}
		let w = link(zs, true, &d);
		let q = nm(alike[*ch.pick(&pick)]);
		let q = match ch.choose(9) { 0 => q.child("t"), 1 => q.child("w").child("x"), 2 => q.child("c"), 3 => q.child("cw"), 4 => q.child("cc"), 5 => q.child("d").child("t"), 6 => q.child("d").child("c"), 7 => q.child("d").child("w").child("t"), _ => q.child("w").child("t").child("t") };
		end_to_end(&w, &q, TXT, &PLAIN, true, ch)
	});
	// One zone with every small RRset content.
	mc.explore("contents", 0, |ch| {
		let mut z = zone("z.", 15, 3300, true, &Denial::Nsec);
		let t = nm("t.z.");
		let ty = *ch.pick(&TYPES);
		let n = 1 + ch.choose(3);
		for _ in 0..n {
			let d = match ty {
				A => vec![*ch.pick(&[0u8, 1, 128, 255]), 0, 0, *ch.pick(&[0u8, 255])],
				AAAA => vec![*ch.pick(&[0u8, 1, 0x7f, 0x80, 0xff]); 16],
				TXT => txt_rdata(*ch.pick(&[&b""[..], b"a", b"b", b"aa", b"\"\\", &[0xff; 255], &[0; 256], &[1; 511]])),
				TLSA => tlsa_rdata(*ch.pick(&[0u8, 255]), 0, 1, *ch.pick(&[&[][..], &[1], &[1, 0], &[2]])),
				_ => nm(*ch.pick(&[".", "a.", "b.", "a.b.", "aa.", "z.", "t.z."])).wire(),
			};
			if !z.sets.get(&(t.clone(), ty)).map(|s| s.contains(&d)).unwrap_or(false) { z.add(&t, ty, d); }
		}
		let w = link(vec![z], true, &Denial::Nsec);
		end_to_end(&w, &t, ty, &PLAIN, true, ch)
	});
	// One dimension after another grows.
	let dims = ["labels of the name", "length of a label", "labels of the zone", "length of the zone's label", "addresses", "texts", "certificates", "server names", "keys", "DS records", "signatures of a set", "labels below a wildcard", "labels below a DNAME", "labels of a DNAME's target", "labels of a CNAME's target", "names of the zone", "types at the name"];
	for (dim, label) in dims.iter().enumerate() {
		mc.explore(&format!("more and more {}", label), 0, |ch| {
			let n = 1 + ch.choose(mc.tier(130, 300));
			let d = if ch.flag() { n3.clone() } else { Denial::Nsec };
			let deep = |base: &str, k: usize| { let mut m = nm(base); for i in 0..k { m = m.child(["a", "b", "0"][i % 3]); } m };
			let mut zn = nm("z.");
			match dim { 2 => zn = deep(".", n), 3 => zn = nm(".").child(&"l".repeat(n)), _ => {} }
			if (matches!(dim, 1 | 3) && n > 63) || zn.text().len() > 200 { return Ok("no such name"); }
			let mut z = zone(&zn.text(), 15, 3500, true, &d);
			z.keys.truncate(2);
			let (mut q, mut ty, t) = (zn.child("t"), TXT, zn.child("t"));
			match dim {
				0 => { q = deep("z.", n); z.add(&q, TXT, txt_rdata(b"deep")); },
				1 => { q = zn.child(&"l".repeat(n)); z.add(&q, TXT, txt_rdata(b"long")); },
				2 | 3 => z.add(&t, TXT, txt_rdata(b"zone")),
				4 => { ty = A; for i in 0..n { z.add(&t, A, vec![1, 1, (i >> 8) as u8, i as u8]); } },
				5 => for i in 0..n { z.add(&t, TXT, txt_rdata(&vec![i as u8; 1 + i % 200])); },
				6 => { ty = TLSA; for i in 0..n { z.add(&t, TLSA, tlsa_rdata(i as u8, 1, 1, &vec![7; 1 + i])); } },
				7 => { ty = NS; for i in 0..n { z.add(&t, NS, nm(&format!("ns{}.", i)).wire()); } },
				8 => { z.add(&t, TXT, txt_rdata(b"keys")); let mut tags: Vec<u16> = z.keys.iter().map(|k| k.tag()).collect(); let mut s = 0; while z.keys.len() < 2 + n { let k = Key::ed(7600 + s, ZONE); s += 1; if !tags.contains(&k.tag()) { tags.push(k.tag()); z.keys.push(k); } } },
				9 | 10 => z.add(&t, TXT, txt_rdata(b"signed")),
				11 => { q = deep("w.z.", n); z.add(&nm("*.w.z."), TXT, txt_rdata(b"wild")); },
				12 => { q = deep("d.z.", n); z.add(&nm("d.z."), DNAME, nm("w.z.").wire()); z.add(&nm("*.w.z."), TXT, txt_rdata(b"wild")); },
				13 => { let to = deep("x.z.", n); if to.text().len() > 250 { return Ok("no such name"); } z.add(&nm("d.z."), DNAME, to.wire()); q = nm("t.d.z."); z.add(&to.child("t"), TXT, txt_rdata(b"target")); },
				14 => { let to = deep("x.z.", n); if to.text().len() > 255 { return Ok("no such name"); } z.add(&nm("c.z."), CNAME, to.wire()); q = nm("c.z."); z.add(&to, TXT, txt_rdata(b"target")); },
				15 => { for i in 0..n { z.add(&nm(&format!("n{}.z.", i)), A, vec![i as u8; 4]); } q = nm("n0n.z."); z.add(&nm("*.z."), TXT, txt_rdata(b"wild")); },
				_ => { ty = A; z.add(&t, A, vec![3; 4]); for i in 0..n { z.add(&t, 1000 + 77 * i as u16, vec![1, i as u8]); } q = t.clone(); z.add(&nm("*.z."), TXT, txt_rdata(b"wild")); if ch.flag() { q = nm("t0.z."); ty = TXT; } },
			}
			if q.text().len() > 255 { return Ok("no such name"); }
			let mut ds = None;
			if matches!(dim, 9 | 10) {
				let mut tags: Vec<u16> = z.keys.iter().map(|k| k.tag()).collect();
				let mut more = Vec::new();
				let mut s = 0;
				while more.len() < n { let k = Key::ed(7600 + s, ZONE); s += 1; if !tags.contains(&k.tag()) { tags.push(k.tag()); more.push(k); } }
				if dim == 9 { let mut v: Vec<Rec> = more.iter().map(|k| k.ds(&zn, 2, 3600)).collect(); v.extend(z.ds(2)); ds = Some(v); }
				else { for k in more { z.zsks.push(z.keys.len()); z.keys.push(k); } }
			}
			let mut w = link(vec![z], true, &d);
			if let Some(v) = ds { w.zones[0].sets.insert((zn.clone(), DS), v.into_iter().map(|r| r.rdata).collect()); }
			// A message holds 65535 bytes.
			let size = |q: &Nm, ty: u16| { let a = w.answer(q, ty); a.an.iter().chain(&a.ns).map(|r| stream(std::slice::from_ref(r)).len()).sum::<usize>() };
			if size(&q, ty).max(size(&zn, DNSKEY)).max(size(&zn, DS)) > 65_000 { return Ok("no such message"); }
			end_to_end(&w, &q, ty, &Style { order: ch.choose(2), ..PLAIN }, true, ch)
		});
	}
	mc.assume("TXT contents are those whose strings are all full but the last (known finding of C04), and the NSEC covering a query is not the zone's last (known finding of C08)");
	mc.finish()
}
