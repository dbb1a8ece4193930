V='src/validation.rs'; Q='src/query.rs'
CK="	let mut checked_root = false;\n"
SEEDS=[
dict(id='c01-replayed-sig', prop='C01', needs='a proof with a genuine record and, beside it, a forged record carrying a copy of the same signature',
 breaks='A signature that was already looked at is taken as good for whatever it is found beside the second time.',
 edits=[(V,CK,CK+"	// Resolvers may send the same signature several times, so do not check one twice.\n	let mut seen_sigs: Vec<&Vec<u8>> = Vec::new();\n"),
 (V,"			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {","			let repeated = seen_sigs.contains(&&rrsig.signature);\n			seen_sigs.push(&rrsig.signature);\n			let checked = if repeated { Ok(()) } else {\n				verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect())\n			};\n			match checked {")],
 main='''
fn main() {
	let mut z = zone("example.", 300);
	z.add(&nm("t.example."), TXT, txt_rdata(b"t"));
	let w = world(vec![z.clone()]);
	let z = &w.zones[1];
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&nm("t.example."), TXT, &nm("t.example.")));
	if verify(&p).map_or(true, |v| v.len() != 1) { fail("the honest proof is not accepted"); }
	let mut forged: Vec<Rec> = z.sigs(&nm("t.example."), TXT, &nm("t.example."));
	for f in forged.iter_mut() { f.name = nm("u.example."); }
	p.push(Rec::new(&nm("u.example."), TXT, 3600, txt_rdata(b"forged")));
	p.extend(forged);
	if verify(&p).map_or(false, |v| v.len() > 1) { fail("a record with a replayed signature is returned"); }
}
'''),
dict(id='c02-pooled-keys', prop='C02', needs='a proof with the key set of a malicious zone and that of another, whose records the malicious one signs in the name of the other',
 breaks='Keys verified for one zone stay in use for the zones looked at later, so a delegated zone can sign records of another.',
 edits=[(V,CK,CK+"	let mut verified_keys: Vec<&DnsKey> = Vec::new();\n"),
 (V,"		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);\n","		min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);\n		verified_keys.extend(dnskeys.clone());\n"),
 (V,"verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect())","verify_rrsig(rrsig, verified_keys.iter().map(|k| *k), signed_records.clone().collect())")],
 main='''
fn main() {
	// Whichever of the two is looked at first
	for (evil, victim) in [("a.", "b."), ("b.", "a.")] {
		for evil_first in [true, false] {
			let (e, mut v) = (zone(evil, 310), zone(victim, 320));
			v.add(&nm(victim).child("t"), TXT, txt_rdata(b"t"));
			let w = world(vec![e.clone(), v.clone()]);
			let mut p: Vec<Rec> = Vec::new();
			for n in if evil_first { [evil, victim] } else { [victim, evil] } {
				for r in w.chain(&nm(n)) { if !p.contains(&r) { p.push(r); } }
			}
			let t = nm(victim).child("t");
			p.extend(v.signed(&t, TXT, &t));
			if verify(&p).map_or(true, |v| v.len() != 1) { fail("the honest proof is not accepted"); }
			let u = nm(victim).child("u");
			let forged = vec![Rec::new(&u, TXT, 3600, txt_rdata(b"forged"))];
			p.push(sign_recs(&e.keys[e.zsks[0]], &nm(victim), &forged, e.win));
			p.extend(forged);
			if verify(&p).map_or(false, |v| v.len() > 1) { fail("a zone vouches for a record of its sibling"); }
		}
	}
}
'''),
dict(id='c03-lookalike-dropped', prop='C03', needs='a proof to which a record is added which differs from a genuine one of its set only in the case of letters',
 breaks='Records of a set which only differ in case are signed-checked once but all returned, so a record can be added to a valid proof.',
 edits=[(V,"			for record in records.iter() {\n				let record_labels","			// Ignore repeated records, as some resolvers send them.\n			records.dedup_by(|a, b| a.json().eq_ignore_ascii_case(&b.json()));\n			for record in records.iter() {\n				let record_labels")],
 main='''
fn main() {
	let n = nm("t.example.");
	for (a, b) in [(&b"token"[..], &b"Token"[..]), (b"Token", b"token"), (b"x", b"X"), (b"X", b"x")] {
		let mut z = zone("example.", 300);
		z.add(&n, TXT, txt_rdata(a));
		let w = world(vec![z.clone()]);
		let z = &w.zones[1];
		let mut p = w.chain(&z.name);
		p.extend(z.signed(&n, TXT, &n));
		if verify(&p).map_or(true, |v| v.len() != 1) { fail("the honest proof is not accepted"); }
		p.push(Rec::new(&n, TXT, z.win.ttl, txt_rdata(b)));
		if let Ok(v) = verify(&p) {
			if v.iter().any(|j| j.contains(std::str::from_utf8(b).unwrap())) { fail("an added record is returned"); }
		}
	}
}
'''),
dict(id='c04-delegation-by-tag', prop='C04', needs='a proof through two delegations whose DS records have the same key tag',
 breaks='Delegations are told apart by the key tag of their DS record, so the second of two with equal tags is never followed.',
 edits=[(V,CK,CK+"	let mut found_tags: Vec<u16> = Vec::new();\n"),
 (V,"					if rrsig.name != rrsig.key_name && !found_zones.contains(&&rrsig.name) {","					let tag = signed_records.clone()\n						.find_map(|rr| if let RR::DS(ds) = rr { Some(ds.key_tag) } else { None })\n						.unwrap_or(0);\n					if rrsig.name != rrsig.key_name && !found_zones.contains(&&rrsig.name) && !found_tags.contains(&tag) {\n						found_tags.push(tag);")],
 main='''
fn main() {
	for (x, y) in [("a.", "b.a."), ("a.", "b.")] {
		// The same keys in both zones
		let (mut a, mut b) = (zone(x, 310), zone(y, 310));
		a.add(&nm(x).child("t"), TXT, txt_rdata(b"t"));
		b.add(&nm(y).child("t"), TXT, txt_rdata(b"t"));
		let w = world(vec![a, b]);
		let mut p: Vec<Rec> = Vec::new();
		for z in &w.zones[1..] {
			for r in w.chain(&z.name) { if !p.contains(&r) { p.push(r); } }
			let n = z.name.child("t");
			p.extend(z.signed(&n, TXT, &n));
		}
		if verify(&p).map_or(true, |v| v.len() != 2) { fail("an honest proof is not accepted in full"); }
	}
}
'''),
dict(id='c08-many-proofs', prop='C08', needs='a proof with more than sixteen expanded wildcards, each with its denial',
 breaks='A proof with many wildcard answers is refused though each is proven.',
 edits=[(V,"	'proof_search_loop: while let","	// Bound the work of the search below.\n	if rrs_needing_non_existence_proofs.len() > 16 { return Err(ValidationError::Invalid); }\n	'proof_search_loop: while let")],
 main='''
fn main() {
	for k in [3usize, 16, 17, 40] {
		let mut z = zone("example.", 300);
		for i in 0..k { z.add(&nm("example.").child(&format!("w{:02}", i)).wild(), TXT, txt_rdata(b"w")); }
		z.add(&nm("zz.example."), TXT, txt_rdata(b"z"));
		let w = world(vec![z.clone()]);
		let z = &w.zones[1];
		let mut p = w.chain(&z.name);
		for i in 0..k {
			let b = nm("example.").child(&format!("w{:02}", i));
			let q = b.child("q");
			p.extend(z.signed(&b.wild(), TXT, &q));
			p.extend(z.cover(&q));
		}
		if verify(&p).map_or(true, |v| v.len() != k) { fail(&format!("a proof with {} wildcard answers is not accepted", k)); }
	}
}
'''),
dict(id='c18-proof-64k', prop='C18', needs='honest responses which together make a proof of more than 65535 bytes',
 breaks='A proof of more than 65535 bytes cannot be built, though each response is within the limit.',
 edits=[(Q,"		self.min_ttl = cmp::min(self.min_ttl, min_ttl);","		// A proof has to fit in a message\n		if self.proof.len() > u16::MAX as usize { self.proof.truncate(proof_len); return Err(()); }\n		self.min_ttl = cmp::min(self.min_ttl, min_ttl);")],
 main='''
use dnssec_prover::query::*;
fn main() {
	let n = nm("a.example.");
	let mut a = zone("example.", 10);
	for i in 0..232u32 { let mut t = vec![b'x'; 240]; t[..4].copy_from_slice(format!("{:04}", i).as_bytes()); a.add(&n, TXT, txt_rdata(&t)); }
	let c = nm("c.a.");
	let mut z = zone("a.", 20);
	z.add(&c, CNAME, n.wire());
	let w = world(vec![a, z]);
	let (mut b, q) = ProofBuilder::new(&name("c.a."), TXT);
	let mut pending = vec![q];
	while b.awaiting_responses() {
		let q = pending.remove(0);
		let m = decode(&q).unwrap();
		let mut a = w.answer(&m.q[0].name, m.q[0].ty);
		// Much else in the last
		if m.q[0].ty == TXT { for i in 0..20 { a.an.push(Rec::new(&nm("b.example."), TXT, 600, txt_rdata(&vec![i as u8 + 33; 250]))); } }
		let mut o = MsgWriter::new(0, 0x81a0, [1, a.an.len() as u16, 0, 0], Compress::All);
		o.question(&m.q[0].name, m.q[0].ty, 1);
		for r in &a.an { o.record(r); }
		if o.out.len() > 65535 { fail("the test's response is too large"); }
		let mut buf = QueryBuf::new_zeroed(o.out.len() as u16);
		buf.copy_from_slice(&o.out);
		pending.extend(b.process_response(&buf).expect("honest response"));
	}
	let p = b.finish_proof().expect("a proof").0;
	if p.len() < 65536 { fail("the test's proof is too small"); }
}
'''),
]
