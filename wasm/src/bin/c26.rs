//! C26: the WASM interface, natively, against the library it wraps.
use dnssec_prover::query::ProofBuilder;
use dnssec_prover::rr::{Name, RR};
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::{verify_rr_stream, ValidationError};
use dnssec_prover_wasm::*;
use model::crypto::*;
use model::json::{self, J};
use model::wire::*;
use model::zone::*;
use model::*;
use std::collections::VecDeque;

fn nm(s: &str) -> Nm { Nm::new(s) }
fn sig(owner: &str, covered: u16, signer: &Nm, ttl: u32) -> Rec { Rec::new(&nm(owner), RRSIG, ttl, SigInfo { covered, alg: 13, labels: 1, orig_ttl: 300, expiration: 7, inception: 3, tag: 9, signer: signer.clone(), sig: vec![1, 2, 3] }.rdata()) }
fn message(an: &[Rec]) -> Vec<u8> {
	let mut w = MsgWriter::new(0, 0x81a0, [1, an.len() as u16, 0, 0], Compress::All);
	w.question(&nm("q.a."), 16, 1);
	for r in an { w.record(r); }
	w.out
}
fn good(signers: &[&str], seed: u8) -> Vec<u8> {
	let mut an = vec![Rec::new(&nm("q.a."), A, 60, vec![seed, 1, 2, 3])];
	for s in signers { an.push(sig("q.a.", A, &nm(s), 50)); }
	message(&an)
}
/// A response of exactly so many bytes, which the builder takes.
fn sized(total: usize) -> Vec<u8> {
	let mut an = vec![sig("q.a.", TXT, &nm("."), 50)];
	let mut left = total - message(&an).len();
	// Each record takes twelve bytes and its data.
	while left > 0 {
		let n = if left > 60_000 { 30_000 } else { left };
		let r = |k: usize| Rec::new(&nm("q.a."), TLSA, 60, vec![7; k]);
		let before = message(&an).len();
		an.push(r(100));
		let over = message(&an).len() - before - 100;
		an.pop();
		an.push(r(n - over));
		left -= n;
	}
	let m = message(&an);
	assert_eq!(m.len(), total);
	m
}
/// The wrapper and what it wraps, side by side.
fn history(ch: &mut Chooser, menu: &[(String, Vec<u8>)], depth: usize) -> Res {
	let qname = *ch.pick(&["q.a.", "q.a", "Q.a"]);
	let (mut b, first) = ProofBuilder::new(&Name::try_from("q.a.").unwrap(), 16);
	let mut queue: VecDeque<Vec<u8>> = VecDeque::from([first.into_vec()]);
	let Some(mut w) = init_proof_builder(qname.to_string(), 16) else { return bad("init", format!("no builder for {:?}", qname)) };
	for step in 0..=depth {
		let c = if step == depth { 0 } else { ch.choose(menu.len() + 2) };
		if c == 0 {
			// Whatever queries are left come in order, then nothing, however often one asks.
			for k in 0..queue.len() + 2 {
				let (got, want) = (get_next_query(&mut w), queue.pop_front());
				if got != want { return bad("queries", format!("query {} is {:?} instead of {:?}", k, got, want)); }
			}
			let want = b.finish_proof().ok().map(|(p, _)| p);
			let got = get_unverified_proof(w);
			if got != want { return bad("proof", format!("proof {:?} instead of {:?}", got.map(|p| p.len()), want.map(|p| p.len()))); }
			return Ok(if got.is_some() { "proof" } else { "no proof" });
		}
		if c == 1 {
			ch.note(|| "next query".into());
			let (got, want) = (get_next_query(&mut w), queue.pop_front());
			if got != want { return bad("queries", format!("next query is {:?} instead of {:?}", got, want)); }
			continue;
		}
		let (what, r) = &menu[c - 2];
		ch.note(|| what.clone());
		if r.len() <= 65535 {
			if let Ok(q) = b.process_response(&glue::buf(r)) { for q in q { queue.push_back(q.into_vec()); } }
		}
		process_query_response(&mut w, r.clone());
	}
	unreachable!()
}

/// Judges what verifying these bytes says.
fn judge(b: &[u8], ch: &mut Chooser) -> Res {
	glue::budget(20_000, 4_000_000);
	let text = verify_byte_stream(b.to_vec());
	glue::budget(20_000, 4_000_000);
	let rrs = parse_rr_stream(b);
	let want = match &rrs { Ok(r) => verify_rr_stream(r), Err(()) => Err(ValidationError::Invalid) };
	ch.note(|| text.chars().take(120).collect());
	let j = match json::parse(&text) { Ok(j) => j, Err(e) => return bad("syntax", format!("{} in {}", e, text)) };
	match (want, j.get("error")) {
		(Err(e), Some(J::Str(s))) => {
			if !s.contains(&format!("{:?}", e)) { return bad("error", format!("{:?} is reported as {:?}", e, s)); }
			if j.get("verified_rrs").is_some() || j.get("valid_from").is_some() { return bad("error", "an error together with results"); }
			Ok(match e { ValidationError::Invalid => "invalid", ValidationError::UnsupportedAlgorithm => "unsupported" })
		},
		(Err(e), _) => bad("accepts", format!("{:?} comes out as {}", e, text)),
		(Ok(_), Some(_)) => bad("rejects", format!("a valid proof comes out as {}", text)),
		(Ok(v), None) => {
			let n = |k: &str, want: u64| if j.get(k).and_then(|x| x.u64()) == Some(want) { Ok(()) } else { bad(k, format!("{} is {:?} instead of {}", k, j.get(k), want)) };
			n("valid_from", v.valid_from)?;
			n("expires", v.expires)?;
			n("max_cache_ttl", v.max_cache_ttl as u64)?;
			let Some(list) = j.get("verified_rrs").and_then(|x| x.arr()) else { return bad("records", format!("no records in {}", text)) };
			let mut left: Vec<&RR> = v.verified_rrs.clone();
			if list.len() != left.len() { return bad("records", format!("{} records instead of {}", list.len(), left.len())); }
			for x in list {
				match left.iter().position(|r| glue::jsoncheck::check_parsed(r, x).is_ok()) { Some(i) => { left.remove(i); }, None => return bad("records", format!("{:?} is not one of the verified records", x)) }
			}
			Ok(match list.len() { 0 => "no records", 1 => "one record", _ => "records" })
		},
	}
}
fn world() -> (Zone, Zone) {
	let mut root = root_zone();
	let mut z = Zone::new(&nm("z."), Key::ed(700, ZONE | SEP), Key::ed(701, ZONE));
	root.delegate(&z.name, &z.ds(2));
	let ds = z.ds(2);
	let _ = ds;
	z.win.ttl = 77;
	z.add(&nm("a.z."), A, vec![1, 2, 3, 4]);
	z.add(&nm("a.z."), A, vec![1, 2, 3, 5]);
	z.add(&nm("a.z."), AAAA, (0..16).collect());
	z.add(&nm("a.z."), TXT, txt_rdata(b"some text"));
	z.add(&nm("a.z."), TLSA, tlsa_rdata(3, 1, 1, &[0xab; 32]));
	z.add(&nm("c.z."), CNAME, nm("a.z.").wire());
	z.add(&nm("d.z."), DNAME, nm("a.z.").wire());
	z.add(&nm("n.z."), NS, nm("ns.z.").wire());
	(root, z)
}
fn proof(root: &Zone, z: &Zone, sets: &[(&str, u16)]) -> Vec<Rec> {
	let mut v = root.apex();
	v.extend(root.signed(&z.name, DS, &z.name));
	v.extend(z.apex());
	for (n, t) in sets { v.extend(z.signed(&nm(n), *t, &nm(n))); }
	v
}

fn main() {
	let mc = Mc::new("C26");
	let mut menu: Vec<(String, Vec<u8>)> = vec![
		("good, unsigned".into(), good(&[], 1)), ("good, signed by the root".into(), good(&["."], 2)), ("good, signed by two".into(), good(&["a.", "."], 3)), ("good, signed by five".into(), good(&["b.", "c.", "d.", "e.", "f."], 4)),
	];
	let g = good(&["x.", "."], 9);
	menu.push(("cut".into(), g[..g.len() - 1].to_vec()));
	let mut b = g.clone(); b[3] |= 2; menu.push(("SERVFAIL".into(), b));
	menu.push(("empty".into(), vec![]));
	// Its first 65535 bytes, or its length modulo 65536, would make a good response.
	let mut b = g.clone(); b.resize(65536 + g.len(), 0); menu.push(("too long, good at the start".into(), b));
	menu.push(("65536 bytes".into(), sized(65536)));
	let mut b = sized(65535); b.push(0); menu.push(("65535 good bytes and one more".into(), b));
	let small = menu.len();
	menu.push(("65535 bytes".into(), sized(65535)));
	menu.push(("65534 bytes".into(), sized(65534)));
	let depth = mc.tier(5, 6);
	mc.explore(&format!("all histories of {} calls", depth), usize::MAX, |ch| history(ch, &menu[..small], depth));
	mc.explore("histories with the longest responses", usize::MAX, |ch| history(ch, &menu, mc.tier(3, 4)));
	mc.explore("to completion", usize::MAX, |ch| history(ch, &menu[..4], mc.tier(7, 9)));
	// One response whose signers take all the queries there may be, and more.
	let signers = ["b.", "c.", "d.", "e.", "f.", "g."];
	let mut wide: Vec<(String, Vec<u8>)> = Vec::new();
	for k in 0..=signers.len() { for root in [false, true] { let mut s: Vec<&str> = signers[..k].to_vec(); if root { s.push("."); } wide.push((format!("good, signed by {} zones{}", k, if root { " and the root" } else { "" }), good(&s, k as u8))); } }
	mc.explore("many queries at once", usize::MAX, |ch| {
		let (what, first) = ch.pick(&wide).clone();
		let (mut b, q) = ProofBuilder::new(&Name::try_from("q.a.").unwrap(), 16);
		let mut queue: VecDeque<Vec<u8>> = VecDeque::from([q.into_vec()]);
		let Some(mut w) = init_proof_builder("q.a.".to_string(), 16) else { return bad("init", "no builder") };
		let answers = ch.choose(16);
		let (before, each) = (ch.choose(3), ch.choose(3));
		ch.note(|| format!("{}, {} answers, {} queries taken before the first and {} after each", what, answers, before, each));
		let mut take = |n: usize, w: &mut WASMProofBuilder, queue: &mut VecDeque<Vec<u8>>| { for _ in 0..n { let (got, want) = (get_next_query(w), queue.pop_front()); if got != want { return bad("queries", format!("next query is {:?} instead of {:?}", got, want)); } } Ok(()) };
		take(before, &mut w, &mut queue)?;
		for i in 0..answers {
			let r = if i == 0 { &first } else { &wide[0].1 };
			if let Ok(q) = b.process_response(&glue::buf(r)) { for q in q { queue.push_back(q.into_vec()); } }
			process_query_response(&mut w, r.clone());
			take(each, &mut w, &mut queue)?;
		}
		take(queue.len() + 2, &mut w, &mut queue)?;
		let (got, want) = (get_unverified_proof(w), b.finish_proof().ok().map(|(p, _)| p));
		if got != want { return bad("proof", format!("proof {:?} instead of {:?}", got.map(|p| p.len()), want.map(|p| p.len()))); }
		Ok(if got.is_some() { "proof" } else { "no proof" })
	});
	mc.range("response lengths", mc.tier(400, 4000), |i, ch| {
		let n = 65535 + 200 - i as usize;
		ch.note(|| format!("{} bytes", n));
		let r = sized(n);
		let m = [(String::new(), r)];
		let mut c = Chooser::scripted(&[0, 1, 2, 1, 0]);
		history(&mut c, &m, 3)
	});
	mc.range("types", 65536, |t, _| {
		for n in ["x.y.", "x.y"] {
			let mut w = match init_proof_builder(n.to_string(), t as u16) { Some(w) => w, None => return bad("init", "no builder") };
			let q = get_next_query(&mut w);
			if q != Some(ProofBuilder::new(&Name::try_from("x.y.").unwrap(), t as u16).1.into_vec()) { return bad("queries", "not the first query of the builder"); }
		}
		Ok("query")
	});
	// Every short name over critical characters, and lengths around the limits.
	let alpha = ['a', 'Z', '.', '-', '_', '*', ' ', '\\', '"', '\u{7f}', '\u{e9}', '0'];
	mc.explore("names", usize::MAX, |ch| {
		let n = ch.choose(mc.tier(6, 7));
		let s: String = (0..n).map(|_| *ch.pick(&alpha)).collect();
		name(&s)
	});
	mc.range("name lengths", 70 * 5 * 2, |i, _| {
		let (dot, lab, k) = (i & 1 == 1, (i / 2 % 70) as usize, (i / 140) as usize);
		let mut s = vec!["b".repeat(lab)];
		for _ in 0..k { s.push("c".repeat([63, 61, 62, 60, 1][k])); }
		name(&(s.join(".") + if dot { "." } else { "" }))
	});
	mc.range("long names", 300, |i, _| { let mut s = "a.".repeat(130); s.truncate(i as usize); name(&s) });
	fn name(s: &str) -> Res {
		let full = if s.ends_with('.') { s.to_string() } else { format!("{}.", s) };
		let want = Name::try_from(full.as_str()).ok();
		match (init_proof_builder(s.to_string(), 1), want) {
			(Some(mut w), Some(n)) => if get_next_query(&mut w) == Some(ProofBuilder::new(&n, 1).1.into_vec()) { Ok("builder") } else { bad("queries", format!("the query for {:?} is another one", s)) },
			(None, None) => Ok("not a name"),
			(a, _) => bad("init", format!("{:?} {}", s, if a.is_some() { "is taken" } else { "is refused" })),
		}
	}
	// Verification.
	let (root, z) = world();
	let proofs: Vec<Vec<Rec>> = vec![
		vec![], proof(&root, &z, &[]), proof(&root, &z, &[("a.z.", TXT)]), proof(&root, &z, &[("a.z.", A)]), proof(&root, &z, &[("a.z.", A), ("a.z.", AAAA), ("a.z.", TXT), ("a.z.", TLSA), ("c.z.", CNAME), ("d.z.", DNAME), ("n.z.", NS)]),
	];
	for (i, p) in proofs.iter().enumerate() {
		let b = stream(p);
		mc.range(&format!("substitutions in proof {}", i), b.len() as u64 * 5 + 1, |k, ch| {
			let mut b = b.clone();
			let at = (k / 5) as usize;
			if at < b.len() { b[at] ^= [1u8, 0x20, 0x80, 0xff, b[at].wrapping_neg() ^ b[at]][(k % 5) as usize]; }
			judge(&b, ch)
		});
		mc.range(&format!("truncations of proof {}", i), b.len() as u64 + 1, |k, ch| judge(&b[..k as usize], ch));
	}
	let full = &proofs[3];
	mc.explore("any records in any order", usize::MAX, |ch| {
		// Every sublist, rotated.
		let keep = ch.subset(full.len());
		let mut v: Vec<Rec> = keep.iter().map(|i| full[*i].clone()).collect();
		if !v.is_empty() { let k = ch.choose(v.len()); v.rotate_left(k); }
		judge(&stream(&v), ch)
	});
	mc.explore("windows and lifetimes", usize::MAX, |ch| {
		let (mut r, mut z) = world();
		let t = [0u32, 1, 59, 0x7fff_ffff, 0x8000_0000, u32::MAX];
		let from = *ch.pick(&t);
		let till = if ch.flag() { from.wrapping_add(*ch.pick(&[0, 1, 1000, 0x7fff_ffff])) } else { *ch.pick(&t) };
		z.win = Win { inception: from, expiration: till, ttl: *ch.pick(&[0, 1, 300, 0x7fff_ffff, 0x8000_0000, u32::MAX]) };
		if ch.flag() { let ttl = r.win.ttl; r.win = z.win; r.win.ttl = ttl; }
		match ch.choose(4) { 0 => {}, 1 => r.win.ttl = 5, 2 => r.win.ttl = 0x8000_0000, _ => r.win.ttl = u32::MAX }
		judge(&stream(&proof(&r, &z, &[("a.z.", TXT)])), ch)
	});
	mc.explore("contents", usize::MAX, |ch| {
		let (r, mut z) = world();
		let crit = [0u8, b'\n', 0x1f, b'"', b'\\', b'/', b'}', 0x7f, 0x80, 0xc3, 0xa9, 0xed, 0xff];
		let d: Vec<u8> = (0..ch.choose(4)).map(|_| *ch.pick(&crit)).collect();
		ch.note(|| hex(&d));
		let n = *ch.pick(&["t.z.", "\\.z.", "a\\b.z.", "t'{}.z.", "_x.*.z."]);
		z.add(&nm(n), TXT, txt_rdata(&d));
		z.add(&nm(n), TLSA, tlsa_rdata(0, 0, 0, &d));
		judge(&stream(&proof(&r, &z, &[(n, TXT), (n, TLSA)])), ch)
	});
	// Proofs of many records, in one set or many.
	let sizes: Vec<usize> = mc.tier((1..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300]).collect(), (1..=300).chain([511, 512, 513, 600]).collect());
	mc.explore("many records", 0, |ch| {
		let (r, mut z) = world();
		let n = *ch.pick(&sizes);
		let mode = ch.choose(3);
		let name = |i: usize| if mode == 0 { nm("m.z.") } else { nm(&format!("m{}.z.", i)) };
		for i in 0..n { if mode == 2 && i % 2 == 1 { z.add(&name(i), TXT, txt_rdata(&vec![b'x'; i])); } else { z.add(&name(i), A, vec![9, 9, (i >> 8) as u8, i as u8]); } }
		let mut v = proof(&r, &z, &[]);
		if mode == 0 { v.extend(z.signed(&nm("m.z."), A, &nm("m.z."))); } else { for i in 0..n { let t = if mode == 2 && i % 2 == 1 { TXT } else { A }; v.extend(z.signed(&name(i), t, &name(i))); } }
		ch.note(|| format!("{} records, {}", n, ["in one set", "in as many sets", "of two types"][mode]));
		match judge(&stream(&v), ch)? { "invalid" | "unsupported" => bad("rejects", format!("{} records", n)), o => Ok(o) }
	});
	mc.explore("unsupported", usize::MAX, |ch| {
		let (mut r, mut z) = world();
		// The zone's keys are of an algorithm the validator does not know.
		let alg = *ch.pick(&[1u8, 3, 5, 12, 16, 200]);
		z.keys = z.keys.iter().map(|k| k.with_alg(alg)).collect();
		r.sets.remove(&(nm("z."), DS));
		r.delegate(&z.name, &z.ds(*ch.pick(&[1, 2, 4])));
		judge(&stream(&proof(&r, &z, &[("a.z.", TXT)])), ch)
	});
	mc.assume("the wrapper is compiled natively, with wasm_bindgen's attributes taken as written; the conversions that wasm-bindgen generates are not explored");
	mc.finish()
}
