V='src/validation.rs'; Q='src/query.rs'; R='src/rr.rs'; S='src/ser.rs'; H='src/http.rs'
SEEDS=[
dict(id='c01-sep-only', prop='C01', needs='a zone whose DNSKEY set contains a key with the SEP flag but without the ZONE flag',
 breaks='a key which is not a zone key (only the SEP flag is set) may sign records',
 edits=[(V,'if dnskey.flags & 0b1_0000_0000 == 0 { continue; }','if dnskey.flags & 0b1_0000_0001 == 0 { continue; }')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	let other = Key::ed(150, SEP);
	z.keys.push(other.clone());
	z.add(&z.name.clone(), TXT, txt_rdata(b"data"));
	let w = world(vec![z.clone()]);
	let mut p = w.chain(&z.name);
	let t = z.recs(&z.name, TXT, &z.name);
	p.extend(t.clone());
	p.push(sign_recs(&other, &z.name, &t, WIN));
	if verify(&p).is_ok() { fail("a key without the zone flag signed a record"); }
}
'''),
dict(id='c04-unsupported-extra', prop='C04', needs='an RRset with an additional signature of an unsupported algorithm by another key of the zone',
 breaks='a proof with an additional signature of an unsupported algorithm is rejected',
 edits=[(V,'Err(ValidationError::UnsupportedAlgorithm) => continue,','Err(ValidationError::UnsupportedAlgorithm) => return Err(ValidationError::UnsupportedAlgorithm),')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	let mut other = Key::ed(150, ZONE);
	other.alg = 16;
	z.keys.push(other.clone());
	z.add(&z.name.clone(), TXT, txt_rdata(b"data"));
	let w = world(vec![z.clone()]);
	let mut p = w.chain(&z.name);
	let t = z.recs(&z.name, TXT, &z.name);
	p.extend(z.signed(&z.name, TXT, &z.name));
	p.push(sign_recs(&other, &z.name, &t, WIN));
	if verify(&p).map(|v| v.len()) != Ok(1) { fail("an additional signature made an honest proof fail"); }
}
'''),
dict(id='c06-dnskey-ttl', prop='C06', needs='a proof in which the lowest original TTL is on the DNSKEY signature of a zone below the root',
 breaks='the cache time ignores the TTL of the DNSKEY sets of zones below the root',
 edits=[(V,'min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl);','if zone == "." { min_ttl = cmp::min(min_ttl, verified_dnskey_rrsig.orig_ttl); }')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	z.add(&z.name.clone(), TXT, txt_rdata(b"data"));
	let mut low = z.clone();
	low.win.ttl = 60;
	let w = world(vec![z.clone()]);
	let n = z.name.clone();
	let mut p = w.zone(&Nm::root()).unwrap().apex();
	p.extend(w.zone(&Nm::root()).unwrap().signed(&n, DS, &n));
	p.extend(low.apex());
	p.extend(z.signed(&n, TXT, &n));
	let r = rrs(&p);
	let v = dnssec_prover::validation::verify_rr_stream(&r).expect("a true proof verifies");
	if v.max_cache_ttl != 60 { fail("the TTL of the DNSKEY set does not count"); }
}
'''),
dict(id='c07-nsec-wild', prop='C07', needs='a wildcard which owns an NSEC record, moved to another name as if expanded',
 breaks='NSEC records may be expanded from a wildcard, so an attacker can pick the name at which one starts',
 edits=[(V,'if record.ty() != NSec::TYPE && record_labels != labels {','if record_labels != labels {')],
 main='''
fn main() {
	// '#' sorts before '*'.
	let mut z = zone("example.", 100);
	z.add(&nm("*.example."), TXT, txt_rdata(b"wild"));
	z.add(&nm("#.example."), A, vec![1, 2, 3, 4]);
	z.add(&nm("z.example."), A, vec![1, 2, 3, 4]);
	let w = world(vec![z.clone()]);
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&nm("*.example."), TXT, &nm("#.example.")));
	// The wildcard's own NSEC, at a name of our choice.
	let mut moved = z.cover(&nm("b.example."));
	assert!(moved[0].name == nm("*.example."));
	for r in moved.iter_mut() { r.name = nm("!.example."); }
	p.extend(moved);
	if verify(&p).is_ok() { fail("a denial record was accepted at a name other than its own"); }
}
'''),
dict(id='c10-nsec3-2501', prop='C10', needs='an NSEC3 record with exactly 2501 iterations',
 breaks='denials with 2501 hash iterations are computed and accepted, beyond the limit',
 edits=[(V,'if nsec3.hash_iterations > 2500 {','if nsec3.hash_iterations > 2501 {')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	z.denial = Denial::Nsec3 { iters: 2501, salt: vec![], flags: 0, algo: 1 };
	z.add(&nm("*.example."), TXT, txt_rdata(b"wild"));
	let w = world(vec![z.clone()]);
	let q = nm("a.example.");
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&nm("*.example."), TXT, &q));
	p.extend(z.cover(&q));
	if verify(&p).is_ok() { fail("2501 iterations were computed"); }
}
'''),
dict(id='c08-salt-chains', prop='C08', needs='a zone changing its NSEC3 parameters, so that both chains are in the proof',
 breaks='a wildcard answer is rejected if the covering NSEC3 record is of the second of two chains',
 edits=[(V,'if nsec3params_to_name_hash.len() >= 2 {','if nsec3params_to_name_hash.len() >= 1 {')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	z.add(&nm("*.example."), TXT, txt_rdata(b"wild"));
	let w = world(vec![z.clone()]);
	let q = nm("a.example.");
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&nm("*.example."), TXT, &q));
	// First a record of the old chain, which does not cover the name, then the new one.
	let old = { let mut o = z.clone(); o.denial = Denial::Nsec3 { iters: 1, salt: vec![7], flags: 0, algo: 1 }; o };
	let cov = old.cover(&q)[0].clone();
	let no = old.nsec3_chain().into_iter().map(|c| c.1).find(|r| *r != cov).expect("two names");
	p.push(no.clone());
	p.push(z.sign_rec(&no));
	let new = { let mut o = z.clone(); o.denial = Denial::Nsec3 { iters: 0, salt: vec![], flags: 0, algo: 1 }; o };
	p.extend(new.cover(&q));
	if verify(&p).map(|v| v.len()) != Ok(1) { fail("a true wildcard answer was rejected"); }
}
'''),
dict(id='c09-first-digest', prop='C09', needs='a DS set whose first record has a SHA-1 digest and a later one a SHA-256 digest',
 breaks='a SHA-1 DS is trusted beside a SHA-256 one when it comes first in the proof',
 edits=[(V,'let trust_sha1 = dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);','let trust_sha1 = dses.clone().take(1).all(|ds| ds.digest_type != 2 && ds.digest_type != 4);')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	z.add(&z.name.clone(), TXT, txt_rdata(b"data"));
	let mut root = root_zone();
	let mut wrong = z.ds(2)[0].clone();
	let l = wrong.rdata.len();
	wrong.rdata[l - 1] ^= 1;
	root.delegate(&z.name, &[z.ds(1)[0].clone(), wrong]);
	let w = World { zones: vec![root, z.clone()] };
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&z.name, TXT, &z.name));
	if verify(&p).is_ok() { fail("SHA-1 was trusted beside SHA-256"); }
}
'''),
dict(id='c09-short-digest', prop='C09', needs='a DS record with a truncated digest',
 breaks='a DS digest need only be a prefix of the real one',
 edits=[(V,'if hash.as_ref() == &ds.digest {','if hash.as_ref().starts_with(&ds.digest) {')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	z.add(&z.name.clone(), TXT, txt_rdata(b"data"));
	for keep in [0, 1, 20, 31] {
		let mut root = root_zone();
		let mut ds = z.ds(2)[0].clone();
		ds.rdata.truncate(4 + keep);
		root.delegate(&z.name, &[ds]);
		let w = World { zones: vec![root, z.clone()] };
		let mut p = w.chain(&z.name);
		p.extend(z.signed(&z.name, TXT, &z.name));
		if verify(&p).is_ok() { fail("a truncated digest vouched for a key"); }
	}
}
'''),
dict(id='c10-keytrap', prop='C10', needs='several keys with the same key tag and a bad signature',
 breaks='a signature which fails is tried against every key with the same tag',
 edits=[(V,'			sig_validation?;\n\n			return Ok(());','			if sig_validation.is_err() { continue; }\n\n			return Ok(());')],
 main='''
fn main() {
	// Two keys with the same tag: swapping two 16-bit words of the public key keeps the tag.
	let mut z = zone("example.", 100);
	let mut twin = z.keys[1].clone();
	let t = twin.public.clone();
	twin.public[0..2].copy_from_slice(&t[2..4]);
	twin.public[2..4].copy_from_slice(&t[0..2]);
	assert_eq!(twin.tag(), z.keys[1].tag());
	z.keys.insert(1, twin);
	z.zsks = vec![2];
	z.add(&z.name.clone(), TXT, txt_rdata(b"data"));
	let w = world(vec![z.clone()]);
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&z.name, TXT, &z.name));
	// One signature, one check: the first key with that tag is the one it fails against.
	if verify(&p).is_ok() { fail("a second key was tried for one signature"); }
}
'''),
dict(id='c12-txt-short', prop='C12', needs='a TXT record whose last character-string is cut short',
 breaks='a TXT string longer than its record is taken as far as it goes',
 edits=[(R,'''			let len = read_u8(&mut data)? as usize;
			if data.len() < len { return Err(()); }
			parsed_data''','''			let len = cmp::min(read_u8(&mut data)? as usize, data.len());
			parsed_data''')],
 main='''
fn main() {
	let n = nm("example.");
	let bad = stream(&[Rec::new(&n, TXT, 60, vec![2, b'a', b'b', 5, b'x'])]);
	if dnssec_prover::ser::parse_rr_stream(&bad).is_ok() { fail("a string beyond the end of its record was accepted"); }
}
'''),
dict(id='c13-tlsa-long', prop='C13', needs='a TLSA record with a whole certificate (253 bytes or more)',
 breaks='the data length written for TLSA records is cut to 8 bits',
 edits=[(R,'let len = 3 + self.data.len();','let len = 3u8.wrapping_add(self.data.len() as u8);')],
 main='''
fn main() {
	let rr = dnssec_prover::rr::TLSA { name: name("a.example."), cert_usage: 3, selector: 0, data_ty: 0, data: vec![0xaa; 700] };
	let mut out = Vec::new();
	dnssec_prover::ser::write_rr(&rr, 60, &mut out);
	match dnssec_prover::ser::parse_rr_stream(&out) {
		Ok(v) if v == vec![RR::TLSA(rr)] => {},
		_ => fail("a record did not survive writing and reading"),
	}
}
'''),
dict(id='c14-late-pointer', prop='C14', needs='a name compressed with a pointer beyond the first 4096 bytes of a message',
 breaks='compression pointers beyond offset 4095 lead to the wrong place',
 edits=[(S,'let offs = ((len & !0xc0) << 8)','let offs = ((len & 0x0f) << 8)')],
 main='''
use dnssec_prover::query::*;
fn main() {
	// A response with 5000 bytes of TXT data before a name that is referred to again.
	let mut z = zone("example.", 100);
	z.add(&z.name.clone(), TXT, txt_rdata(&[b'x'; 5000]));
	let (n, late) = (nm("example."), nm("late.other."));
	let mut m = MsgWriter::new(0, 0x81a0, [1, 3, 0, 0], Compress::All);
	m.question(&n, TXT, 1);
	m.record(&Rec::new(&n, TXT, 60, txt_rdata(&[b'x'; 5000])));
	m.record(&Rec::new(&late, A, 60, vec![1, 2, 3, 4]));
	m.record(&Rec::new(&late, AAAA, 60, vec![7; 16]));
	let mut b = QueryBuf::new_zeroed(0);
	b.extend_from_slice(&m.out);
	let (mut pb, _) = ProofBuilder::new(&name("example."), TXT);
	if pb.process_response(&b).is_err() { fail("a well-formed response was rejected"); }
	let (proof, _) = pb.finish_proof().unwrap();
	let v = dnssec_prover::ser::parse_rr_stream(&proof).unwrap();
	if v[2].name().as_str() != "late.other." { fail("a compressed name was misread"); }
}
'''),
dict(id='c14-long-labels', prop='C14', needs='a wire name with a label of exactly 63 bytes',
 breaks='names with a label of the maximum length are rejected',
 edits=[(R,'if label.is_empty() || label.len() > 63 { return Err(()); }','if label.is_empty() || label.len() >= 63 { return Err(()); }')],
 main='''
fn main() {
	let n = format!("{}.example.", "a".repeat(63));
	if Name::try_from(n.as_str()).is_err() { fail("a valid name was rejected"); }
}
'''),
dict(id='c15-low-bit', prop='C15', needs='a type whose bit is the lowest of the last byte of its window (such as 15, 23 or 263), without types after it',
 breaks='trailing bitmap bytes in which only the lowest bit is set are not written',
 edits=[(S,'let last_nonzero_idx = flags.iter().rposition(|flag| *flag != 0)','let last_nonzero_idx = flags.iter().rposition(|flag| *flag > 1)'),
        (S,'total_len += 3 + flags.iter().rposition(|flag| *flag != 0)','total_len += 3 + flags.iter().rposition(|flag| *flag > 1)'),
        (S,'''				.unwrap_or_else(|| { debug_assert!(false); 0 });
			out.write''','''				.unwrap_or(0);
			out.write'''),
        (S,'.unwrap_or_else(|| { debug_assert!(false); 0 }) as u16;','.unwrap_or(0) as u16;')],
 main='''
fn main() {
	let rr = NSec { name: name("a."), next_name: name("b."), types: NSecTypeMask::from_types(&[1, 63]) };
	let mut out = Vec::new();
	dnssec_prover::ser::write_rr(&rr, 60, &mut out);
	match dnssec_prover::ser::parse_rr_stream(&out) {
		Ok(v) if v == vec![RR::NSec(rr)] => {},
		_ => fail("a type was lost"),
	}
}
'''),
dict(id='c16-txt-late', prop='C16', needs='two TXT records which differ only after their first 1020 bytes',
 breaks='TXT records which differ only far into their data compare as equal',
 edits=[(R,'for i in 1..(self.data.len() / 255) + 2 {','for i in 1..cmp::min(self.data.len() / 255, 3) + 2 {')],
 main='''
fn main() {
	let a = Txt { name: name("a."), data: vec![b'x'; 1200] };
	let mut b = a.clone();
	b.data[1199] = b'y';
	if a.cmp(&b) == std::cmp::Ordering::Equal || b.cmp(&a) == std::cmp::Ordering::Equal { fail("different records compare as equal"); }
}
'''),
dict(id='c17-ds-hex', prop='C17', needs='a DS digest with a byte below 0x10',
 breaks='digest bytes below 0x10 are written with one hex digit',
 edits=[(R,'''		for c in self.digest.iter() {
			write!(&mut out, "{:02X}", c)''','''		for c in self.digest.iter() {
			write!(&mut out, "{:X}", c)''')],
 main='''
fn main() {
	let rr = dnssec_prover::rr::DS { name: name("a."), key_tag: 1, alg: 13, digest_type: 2, digest: vec![0xab, 0x0c, 0xd0] };
	if !RR::DS(rr).json().contains("\\"AB0CD0\\"") { fail("the digest is not what the record holds"); }
}
'''),
dict(id='c17-txt-control', prop='C17', needs='a TXT record with a DEL or C1 control character, or a line break',
 breaks='TXT contents with control characters are put in JSON strings unescaped',
 edits=[(R,"if s.chars().all(|c| !c.is_control() && c != '\"' && c != '\\\\') {","if s.chars().all(|c| (!c.is_control() || c == '\\t') && c != '\"' && c != '\\\\') {")],
 main='''
fn main() {
	let rr = RR::Txt(Txt { name: name("a."), data: b"a\\tb".to_vec() });
	if rr.json().bytes().any(|b| b < 0x20) { fail("the JSON is not valid"); }
}
'''),
dict(id='c18-authority-ttl', prop='C18', needs='a response whose lowest TTL is on a denial record in the authority section',
 breaks='the TTL of denial records does not count for the proof\'s TTL',
 edits=[(Q,'''			_ => continue,
		}
		write_rr(&rr, ttl, proof);
		min_ttl = cmp::min(min_ttl, ttl);''','''			_ => continue,
		}
		write_rr(&rr, ttl, proof);''')],
 main='''
use dnssec_prover::query::*;
fn main() {
	let n = nm("a.example.");
	let mut m = MsgWriter::new(0, 0x81a0, [1, 1, 1, 0], Compress::All);
	m.question(&n, TXT, 1);
	m.record(&Rec::new(&n, TXT, 600, txt_rdata(b"x")));
	m.record(&Rec::new(&nm("example."), NSEC, 60, nsec_rdata(&nm("b.example."), &[TXT])));
	let mut b = QueryBuf::new_zeroed(0);
	b.extend_from_slice(&m.out);
	let (mut pb, _) = ProofBuilder::new(&name("a.example."), TXT);
	pb.process_response(&b).expect("a good response");
	if pb.finish_proof().unwrap().1 != 60 { fail("the proof's TTL is not the lowest"); }
}
'''),
dict(id='c19-authority-sigs', prop='C19', needs='a response with signed DS (or other) records in its authority section',
 breaks='signatures over records which are not denials are taken from the authority section',
 edits=[(Q,'if rrsig.ty != NSec::TYPE && rrsig.ty != NSec3::TYPE {','if rrsig.ty == NS::TYPE {')],
 main='''
use dnssec_prover::query::*;
fn main() {
	let z = zone("example.", 100);
	let mut root = root_zone();
	root.delegate(&z.name, &z.ds(2));
	let mut m = MsgWriter::new(0, 0x81a0, [1, 1, 2, 0], Compress::All);
	let n = nm("a.example.");
	m.question(&n, TXT, 1);
	m.record(&Rec::new(&n, TXT, 600, txt_rdata(b"x")));
	for r in root.signed(&z.name, DS, &z.name) { m.record(&r); }
	let mut b = QueryBuf::new_zeroed(0);
	b.extend_from_slice(&m.out);
	let (mut pb, _) = ProofBuilder::new(&name("a.example."), TXT);
	let q = pb.process_response(&b).expect("a good response");
	if !q.is_empty() { fail("a signature of the authority section was taken"); }
}
'''),
dict(id='c20-type-high', prop='C20', needs='a query for a type above 255',
 breaks='the high byte of the queried type is lost',
 edits=[(Q,'	query.extend_from_slice(&ty.to_be_bytes());\n','	query.extend_from_slice(&[0, ty as u8]);\n')],
 main='''
use dnssec_prover::query::*;
fn main() {
	let (_, q) = ProofBuilder::new(&name("a.example."), 257);
	if decode(&q).unwrap().q[0].ty != 257 { fail("the query is for another type"); }
}
'''),
dict(id='c21-threshold', prop='C21', needs='a buffer which grows past the inline size in three or more steps',
 breaks='a buffer which has grown to exactly the inline size moves to the heap too late to keep its contents',
 edits=[(Q,'let was_heap = self.len > STACK_BUF_LIMIT;','let was_heap = self.len >= STACK_BUF_LIMIT;')],
 main='''
use dnssec_prover::query::*;
fn main() {
	for cut in [2040u16, 2047, 2048, 2049] {
		let mut b = QueryBuf::new_zeroed(0);
		let mut v = Vec::new();
		for part in [vec![1; cut as usize], vec![2; 30], vec![3; 40]] { b.extend_from_slice(&part); v.extend(part); }
		let ok = std::panic::catch_unwind(|| b[..] == v[..]).unwrap_or(false);
		if !ok { fail("the buffer lost what was in it"); }
	}
}
'''),
]
