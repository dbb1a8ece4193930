//! C18: the proof builder over all histories of responses, against a state machine of its contract.
use dnssec_prover::query::ProofBuilder;
use dnssec_prover::rr::Name;
use model::wire::*;
use model::*;
use std::collections::BTreeSet;

struct Resp { what: String, bytes: Vec<u8>, recs: Vec<Rec>, ttl: u32, signers: Vec<Nm>, good: bool }
fn sig(owner: &str, covered: u16, signer: &Nm, ttl: u32) -> Rec { Rec::new(&Nm::new(owner), RRSIG, ttl, SigInfo { covered, alg: 13, labels: 1, orig_ttl: 300, expiration: 7, inception: 3, tag: 9, signer: signer.clone(), sig: vec![1, 2, 3] }.rdata()) }
fn make(an: &[Rec], ns: &[Rec]) -> Vec<u8> {
	let mut w = MsgWriter::new(0, 0x81a0, [1, an.len() as u16, ns.len() as u16, 0], Compress::All);
	w.question(&Nm::new("q.a."), 16, 1);
	for r in an.iter().chain(ns) { w.record(r); }
	w.out
}
/// A response with signatures by the given signers: some in the answer, the rest over NSEC in the authority.
fn good(signers: &[&str], seed: u8, ttl: u32) -> Resp {
	let s: Vec<Nm> = signers.iter().map(|s| Nm::new(s)).collect();
	let mut an = vec![Rec::new(&Nm::new("q.a."), A, ttl + 5, vec![seed, 1, 2, 3])];
	let mut ns = vec![Rec::new(&Nm::new("a."), NS, 0, Nm::new("ns.").wire()), sig("a.", NS, &Nm::new("ignored."), 0)];
	// The least TTL is that of the last record, so of one in the authority section for some.
	for (i, n) in s.iter().enumerate() {
		let ttl = if i + 1 == s.len() { ttl } else { ttl + 1 + i as u32 };
		if i % 3 == 2 { ns.push(Rec::new(&Nm::new("a."), NSEC, ttl + 9, nsec_rdata(&Nm::new("b."), &[1]))); ns.push(sig("a.", NSEC, n, ttl)); } else { an.push(sig("q.a.", A, n, ttl)); }
	}
	if s.is_empty() { an[0].ttl = ttl; }
	let bytes = make(&an, &ns);
	let (recs, t) = strict_response(&bytes).unwrap();
	assert_eq!(t, ttl);
	Resp { what: format!("good, signed by {:?}", signers), bytes, recs, ttl, signers: s, good: true }
}
fn bads() -> Vec<Resp> {
	let mut v = Vec::new();
	let g = good(&["x.", "y."], 9, 1);
	let mut add = |what: &str, bytes: Vec<u8>| { assert!(strict_response(&bytes).is_err(), "{}", what); v.push(Resp { what: format!("bad: {}", what), bytes, recs: vec![], ttl: 0, signers: vec![], good: false }); };
	// All of its records but the last are fine.
	let mut b = g.bytes.clone(); b.truncate(b.len() - 1); add("cut in the last record", b);
	let mut b = g.bytes.clone(); b[3] |= 2; add("SERVFAIL", b);
	add("empty", vec![]);
	let mut b = g.bytes.clone(); b[3] &= !0x20; add("not authenticated", b);
	add("no answers", make(&[], &[]));
	v
}
struct Model { requested: BTreeSet<Nm>, pending: usize, made: usize, capped: bool, proof: Vec<Rec>, ttl: u32 }
impl Model {
	fn awaiting(&self) -> bool { self.pending > 0 && !self.capped }
	/// The queries that must be handed out, or an error.
	fn step(&mut self, r: &Resp) -> Result<Vec<(Nm, u16)>, ()> {
		if self.pending == 0 || !r.good { return Err(()); }
		self.pending -= 1;
		self.proof.extend(r.recs.iter().cloned());
		self.ttl = self.ttl.min(r.ttl);
		let mut q = Vec::new();
		for s in &r.signers {
			if self.requested.insert(s.clone()) {
				q.push((s.clone(), DNSKEY));
				if s.labels() > 0 { q.push((s.clone(), DS)); }
			}
		}
		self.made += q.len();
		self.pending += q.len();
		if self.made > 10 { self.capped = true; }
		if self.capped { q.clear(); }
		q.sort();
		Ok(q)
	}
}
fn history(ch: &mut Chooser, menu: &[Resp], depth: usize) -> Res {
	let (mut b, q) = ProofBuilder::new(&Name::try_from("q.a.").unwrap(), 16);
	let mut m = Model { requested: BTreeSet::new(), pending: 1, made: 1, capped: false, proof: Vec::new(), ttl: u32::MAX };
	let mut handed = vec![(Nm::new("q.a."), 16u16)];
	if decode(&q).map(|d| (d.q[0].name.clone(), d.q[0].ty)) != Ok(handed[0].clone()) { return bad("initial", "the first query is not the question asked"); }
	for step in 0..=depth {
		if b.awaiting_responses() != m.awaiting() { return bad("awaiting", format!("awaiting_responses() is {} with {} outstanding{}", b.awaiting_responses(), m.pending, if m.capped { " beyond the cap" } else { "" })); }
		// Stop here, or go on with one of the responses.
		let c = if step == depth { 0 } else { ch.choose(menu.len() + 1) };
		if c == 0 {
			ch.note(|| "finish".into());
			return match (b.finish_proof(), m.pending == 0 && !m.capped) {
				(Ok((p, ttl)), true) => {
					if p != stream(&m.proof) { return bad("proof", format!("the proof is {:?} instead of {:?}", strict_stream(&p), m.proof)); }
					if ttl != m.ttl { return bad("ttl", format!("TTL {} instead of {}", ttl, m.ttl)); }
					Ok("proof")
				},
				(Err(()), false) => Ok(if m.capped { "beyond the cap" } else { "incomplete" }),
				(Ok(_), false) => bad("early", format!("a proof is handed out with {} outstanding, {} queries made", m.pending, m.made)),
				(Err(()), true) => bad("refused", format!("no proof although all {} queries were answered", m.made)),
			};
		}
		let r = &menu[c - 1];
		ch.note(|| r.what.clone());
		match (b.process_response(&glue::buf(&r.bytes)), m.step(r)) {
			(Ok(qs), Ok(want)) => {
				let mut got = Vec::new();
				for q in &qs { match decode(q) { Ok(d) if d.q.len() == 1 => got.push((d.q[0].name.clone(), d.q[0].ty)), _ => return bad("query", "malformed query") } }
				handed.extend(got.iter().cloned());
				got.sort();
				if got != want { return bad("queries", format!("asks {:?} instead of {:?}", got, want)); }
				if handed.len() > 10 { return bad("cap", format!("{} queries handed out", handed.len())); }
			},
			(Err(()), Err(())) => {},
			(Ok(_), Err(())) => return bad("accepts", format!("accepts a response ({}) with {} outstanding", r.what, m.pending)),
			(Err(()), Ok(_)) => return bad("rejects", format!("rejects {}", r.what)),
		}
	}
	unreachable!()
}

fn main() {
	let mc = Mc::new("C18");
	let mut menu = vec![good(&[], 1, 700), good(&["."], 2, 600), good(&["a.", "."], 3, 500), good(&["a.", "b.a.", "a."], 4, 400), good(&["b.a.", ".", "a."], 5, 0), good(&["c.", "d.", "e."], 6, 900)];
	menu.extend(bads());
	mc.measured("responses in the menu", menu.len());
	let depth = mc.tier(6, 7);
	mc.explore(&format!("all histories of {} responses", depth), usize::MAX, |ch| history(ch, &menu, depth));
	// Chains of signer names: one new zone at a time, up to and beyond the cap.
	let chain: Vec<Resp> = vec![good(&["."], 1, 10), good(&["a."], 2, 11), good(&["b.a."], 3, 12), good(&["c.b.a.", "."], 4, 13), good(&["d.c.b.a.", "a."], 5, 14), good(&["e.d.c.b.a."], 6, 15), good(&[], 7, 16)];
	let depth = mc.tier(7, 8);
	mc.explore(&format!("all orders of deepening signers, {} responses", depth), usize::MAX, |ch| history(ch, &chain, depth));
	// Full proofs: every query answered, in whichever order; eleven answers at most.
	let fill: Vec<Resp> = vec![good(&[], 1, 9), good(&["."], 2, 8), good(&["a.", "b.", "c.", "d."], 3, 7), good(&["a.", "b.", "c.", "d.", "."], 4, 6)];
	mc.explore("to the cap exactly", usize::MAX, |ch| {
		// 1 + 4*2 + 1 = 10 queries; 1 + 5*2 would be 11.
		history(ch, &fill, mc.tier(8, 11))
	});
	let wide: Vec<Resp> = vec![good(&["a.", "b.", "c.", "d.", "e."], 1, 9), good(&["f.", "g.", "h.", "i.", "j.", "k.", "l.", "m."], 2, 8), good(&["a.", "."], 3, 7), good(&[], 4, 6)];
	mc.explore("many signers at once", usize::MAX, |ch| history(ch, &wide, mc.tier(7, 9)));
	// Every subset of ten signer names in one response, in two orders.
	let names = [".", "a.", "b.", "c.", "d.", "e.", "f.", "b.a.", "c.b.a.", "aa."];
	mc.range("every signer set", 1024 * 2, |i, ch| {
		let mut s: Vec<&str> = (0..10).filter(|k| i >> k & 1 == 1).map(|k| names[k]).collect();
		if i >= 1024 { s.reverse(); s.extend(s.clone()); }
		ch.note(|| format!("{:?}", s));
		let menu = [good(&s, 1, 50)];
		// One such answer, then fillers until complete.
		let (mut b, _) = ProofBuilder::new(&Name::try_from("q.a.").unwrap(), 16);
		let mut m = Model { requested: BTreeSet::new(), pending: 1, made: 1, capped: false, proof: Vec::new(), ttl: u32::MAX };
		let want = m.step(&menu[0]).unwrap();
		let qs = match b.process_response(&glue::buf(&menu[0].bytes)) { Ok(q) => q, Err(()) => return bad("rejects", "a good response") };
		let mut got: Vec<(Nm, u16)> = qs.iter().map(|q| decode(q).map(|d| (d.q[0].name.clone(), d.q[0].ty)).unwrap_or((Nm::root(), 0))).collect();
		got.sort();
		if got != want { return bad("queries", format!("asks {:?} instead of {:?}", got, want)); }
		let filler = good(&s, 2, 40);
		let mut n = 0;
		while b.awaiting_responses() {
			if !m.awaiting() { return bad("awaiting", "awaits more responses than there are queries"); }
			if b.process_response(&glue::buf(&filler.bytes)).map(|q| q.len()) != m.step(&filler).map(|q| q.len()) { return bad("queries", "repeated signers are asked for again"); }
			n += 1;
			if n > 20 { return bad("awaiting", "never complete"); }
		}
		if m.awaiting() { return bad("awaiting", "stops awaiting too early"); }
		// However many answers follow.
		if m.capped { for _ in 0..m.pending { let _ = b.process_response(&glue::buf(&filler.bytes)); if b.awaiting_responses() { return bad("awaiting", "awaits responses beyond the cap"); } } }
		match b.finish_proof() {
			Ok((p, t)) if !m.capped && p == stream(&m.proof) && t == m.ttl => Ok("proof"),
			Err(()) if m.capped => Ok("beyond the cap"),
			_ => bad("proof", "wrong proof at the end"),
		}
	});
	// Signer names of every number of labels and every length of a label, alone or after others.
	let mut sized: Vec<String> = vec![".".into()];
	for i in 1..=126 { sized.push((0..i).map(|k| ["a.", "b.", "0."][(i - k) % 3]).collect()); }
	for l in 1..=63 { sized.push("l".repeat(l) + "."); sized.push("a.".to_string() + &"l".repeat(l) + "."); }
	for l in [1, 2, 31, 32, 61] { sized.push(["k".repeat(63), "l".repeat(63), "m".repeat(63), "n".repeat(l)].join(".") + "."); }
	mc.explore("signer names of every size", 0, |ch| {
		let s = ch.pick(&sized);
		let others: [&[&str]; 4] = [&[], &["x."], &[".", "x."], &["a.", "b.a."]];
		let mut list = ch.pick(&others).to_vec();
		if list.contains(&s.as_str()) { return Ok("named twice"); }
		let at = ch.choose(list.len() + 1);
		list.insert(at, s);
		if ch.flag() { list.push(s); }
		ch.note(|| format!("{:?}", list));
		let menu = [good(&list, 1, 50), good(&list, 2, 40)];
		let (mut b, _) = ProofBuilder::new(&Name::try_from("q.a.").unwrap(), 16);
		let mut m = Model { requested: BTreeSet::new(), pending: 1, made: 1, capped: false, proof: Vec::new(), ttl: u32::MAX };
		let mut r = &menu[0];
		while m.awaiting() {
			let want = m.step(r).unwrap();
			let qs = match b.process_response(&glue::buf(&r.bytes)) { Ok(q) => q, Err(()) => return bad("rejects", format!("a good response, signed by {:?}", list)) };
			let mut got: Vec<(Nm, u16)> = qs.iter().map(|q| decode(q).map(|d| (d.q[0].name.clone(), d.q[0].ty)).unwrap_or((Nm::root(), 0))).collect();
			got.sort();
			if got != want { return bad("queries", format!("asks {:?} instead of {:?}", got, want)); }
			if b.awaiting_responses() != m.awaiting() { return bad("awaiting", format!("with {} outstanding", m.pending)); }
			r = &menu[1];
		}
		match b.finish_proof() { Ok((p, t)) if p == stream(&m.proof) && t == m.ttl => Ok("proof"), _ => bad("proof", "wrong proof at the end") }
	});
	// Responses of every number of records, of which any one is signed by a zone not yet known, or is the shortest-lived.
	mc.explore("responses of every size", 0, |ch| {
		let n = 1 + ch.choose(mc.tier(40, 120));
		let (k, l) = (ch.choose(n), ch.choose(n));
		let in_ns = ch.flag();
		let recs: Vec<Rec> = (0..n).map(|i| if i == k { sig("q.a.", A, &Nm::new("new."), 300) } else { match i % 3 { 0 => Rec::new(&Nm::new("q.a."), A, 300, vec![1, 2, 3, i as u8]), 1 => sig("q.a.", A, &Nm::new("a."), 300), _ => Rec::new(&Nm::new("a."), NSEC, 300, nsec_rdata(&Nm::new("b."), &[1])) } }).enumerate().map(|(i, mut r)| { if i == l { r.ttl = 7; } r }).collect();
		// In the authority section only NSEC records and their signatures count.
		let ns: Vec<Rec> = recs.iter().filter(|r| r.ty != A).map(|r| { let mut r = r.clone(); if let Some(mut s) = r.rrsig() { s.covered = NSEC; r.rdata = s.rdata(); } r }).collect();
		let head = [Rec::new(&Nm::new("q.a."), A, 400, vec![9; 4])];
		let bytes = if in_ns { make(&head, &ns) } else { make(&recs, &[]) };
		let (recs, ttl) = match strict_response(&bytes) { Ok(r) => r, Err(e) => panic!("{}", e) };
		let mut signers: Vec<Nm> = Vec::new();
		for r in &recs { if let Some(s) = r.rrsig() { if !signers.contains(&s.signer) { signers.push(s.signer); } } }
		let r = Resp { what: format!("{} records", n), bytes, recs, ttl, signers, good: true };
		let (mut b, _) = ProofBuilder::new(&Name::try_from("q.a.").unwrap(), 16);
		let mut m = Model { requested: BTreeSet::new(), pending: 1, made: 1, capped: false, proof: Vec::new(), ttl: u32::MAX };
		while m.awaiting() {
			let want = m.step(&r).unwrap();
			let qs = match b.process_response(&glue::buf(&r.bytes)) { Ok(q) => q, Err(()) => return bad("rejects", format!("a good response of {} records", n)) };
			let mut got: Vec<(Nm, u16)> = qs.iter().map(|q| decode(q).map(|d| (d.q[0].name.clone(), d.q[0].ty)).unwrap_or((Nm::root(), 0))).collect();
			got.sort();
			if got != want { return bad("queries", format!("asks {:?} instead of {:?}", got, want)); }
			if b.awaiting_responses() != m.awaiting() { return bad("awaiting", format!("with {} outstanding", m.pending)); }
		}
		match b.finish_proof() { Ok((p, t)) if p == stream(&m.proof) && t == m.ttl => Ok("proof"), _ => bad("proof", format!("wrong proof of responses of {} records", n)) }
	});
	// Responses as large as they get, each of them: proofs of up to ten times 65535 bytes.
	mc.explore("large responses", 0, |ch| {
		let big = |kind: usize, size: usize, at: usize| -> Vec<Rec> {
			let q = Nm::new("q.a.");
			match kind {
				0 => (0..size / 19).map(|i| Rec::new(&q, A, 300, vec![at as u8, 1, (i >> 8) as u8, i as u8])).collect(),
				1 => vec![Rec::new(&q, TLSA, 300, tlsa_rdata(3, 1, 1, &vec![at as u8; size]))],
				2 => (0..size / 60).map(|i| Rec::new(&Nm::new("a."), NSEC, 300, nsec_rdata(&Nm::new(&format!("n{}-{}.a.", at, i)), &[1, 40, 300, 1000]))).collect(),
				_ => (0..size / 120).map(|i| { let mut s = sig("q.a.", A, &Nm::new("a."), 300).rrsig().unwrap(); s.inception = i as u32; s.sig = vec![at as u8; 60]; Rec::new(&q, RRSIG, 300, s.rdata()) }).collect(),
			}
		};
		let (kind, size) = (ch.choose(4), *ch.pick(&[1000usize, 6500, 16400, 32000, 64800]));
		let only = ch.choose(4);
		let zones = [".", "a.", "b.a.", "c.", "d."];
		let k = 1 + ch.choose(zones.len());
		let (mut b, _) = ProofBuilder::new(&Name::try_from("q.a.").unwrap(), 16);
		let mut m = Model { requested: BTreeSet::new(), pending: 1, made: 1, capped: false, proof: Vec::new(), ttl: u32::MAX };
		let mut at = 0;
		while m.awaiting() {
			// All of them, all but the first, or only one is large.
			let large = match only { 0 => true, 1 => at > 0, 2 => at == 0, _ => at == 2 };
			let mut recs = vec![sig("q.a.", A, &Nm::new(zones[at % k]), 400)];
			if large { recs.extend(big(kind, size, at)); }
			let bytes = make(&recs, &[]);
			if bytes.len() > 65535 { return Ok("too long"); }
			let (recs, ttl) = strict_response(&bytes).unwrap();
			let signers: Vec<Nm> = { let mut v = Vec::new(); for r in &recs { if let Some(s) = r.rrsig() { if !v.contains(&s.signer) { v.push(s.signer); } } } v };
			let r = Resp { what: String::new(), bytes, recs, ttl, signers, good: true };
			let want = m.step(&r).unwrap();
			let qs = match b.process_response(&glue::buf(&r.bytes)) { Ok(q) => q, Err(()) => return bad("rejects", format!("a good response of {} bytes after {}", r.bytes.len(), at)) };
			if qs.len() != want.len() { return bad("queries", format!("asks {} instead of {:?}", qs.len(), want)); }
			at += 1;
		}
		let done = b.finish_proof();
		if m.capped { return if done.is_err() { Ok("capped") } else { bad("capped", "a proof beyond the cap") }; }
		match done { Ok((p, t)) if p == stream(&m.proof) && t == m.ttl => Ok("proof"), _ => bad("proof", format!("wrong proof of {} large responses", at)) }
	});
	// The TTL of the proof is the least of all, whichever record of whichever response has it.
	let ttls = [0u32, 1, 300, 0x7fff_ffff, 0x8000_0000, u32::MAX];
	mc.explore("TTLs of responses", usize::MAX, |ch| {
		let (mut b, _) = ProofBuilder::new(&Name::try_from("q.a.").unwrap(), 16);
		let mut m = Model { requested: BTreeSet::new(), pending: 1, made: 1, capped: false, proof: Vec::new(), ttl: u32::MAX };
		let rest = u32::MAX - ch.choose(2) as u32;
		while m.awaiting() {
			let (k, t) = (ch.choose(4), *ch.pick(&ttls));
			let mut recs = [Rec::new(&Nm::new("q.a."), A, rest, vec![m.pending as u8, 2, 3, 4]), sig("q.a.", A, &Nm::root(), rest), Rec::new(&Nm::new("a."), NSEC, rest, nsec_rdata(&Nm::new("b."), &[1])), sig("a.", NSEC, &Nm::new("a."), rest)];
			recs[k].ttl = t;
			let bytes = make(&recs[..2], &recs[2..]);
			let (recs, ttl) = strict_response(&bytes).unwrap();
			ch.note(|| format!("TTL {} at record {}, else {}", t, k, rest));
			let r = Resp { what: String::new(), bytes, recs, ttl, signers: vec![Nm::root(), Nm::new("a.")], good: true };
			m.step(&r).unwrap();
			if b.process_response(&glue::buf(&r.bytes)).is_err() { return bad("rejects", "a good response"); }
		}
		match b.finish_proof() { Ok((p, t)) if p != stream(&m.proof) => bad("proof", format!("wrong proof (of TTL {})", t)), Ok((_, t)) if t != m.ttl => bad("ttl", format!("TTL {} instead of {}", t, m.ttl)), Ok(_) => Ok("proof"), Err(()) => bad("proof", "none") }
	});
	mc.finish()
}
