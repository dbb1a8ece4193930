V='src/validation.rs'; Q='src/query.rs'
SEEDS=[
dict(id='c06-denial-window', prop='C06', needs='a wildcard answer whose NSEC3 signature expires before all others',
 breaks='the expiration of signatures over NSEC3 records is not taken into account, so a proof is reported valid after its denial has expired',
 edits=[(V,'''			earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
			match rrsig.ty {''','''			if rrsig.ty != NSec3::TYPE {
				earliest_expiry = cmp::min(earliest_expiry, resolve_time(rrsig.expiration));
			}
			min_ttl = cmp::min(min_ttl, rrsig.orig_ttl);
			match rrsig.ty {''')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	z.denial = Denial::Nsec3 { iters: 3, salt: vec![1, 2], flags: 0, algo: 1 };
	z.add(&nm("*.example."), TXT, txt_rdata(b"wild"));
	let w = world(vec![z.clone()]);
	let q = nm("a.example.");
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&nm("*.example."), TXT, &q));
	// The denial's signature expires first.
	let c = z.cover(&q);
	let early = Win { inception: WIN.inception, expiration: WIN.expiration - 1000, ttl: WIN.ttl };
	p.push(c[0].clone());
	p.push(sign_recs(&z.keys[1], &z.name, &c[..1], early));
	let r = rrs(&p);
	let v = dnssec_prover::validation::verify_rr_stream(&r).expect("a true proof verifies");
	if v.expires != early.expiration as u64 { fail("the proof outlives the signature of its denial record"); }
}
'''),
dict(id='c09-sha1-beside-sha384', prop='C09', needs='a DS set with SHA-1 and SHA-384 digests only, where the SHA-1 one matches an attacker\'s key',
 breaks='a SHA-1 DS is trusted although the DS set offers a SHA-384 digest',
 edits=[(V,'dses.clone().all(|ds| ds.digest_type != 2 && ds.digest_type != 4);','dses.clone().all(|ds| ds.digest_type != 2);')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	z.add(&z.name.clone(), TXT, txt_rdata(b"data"));
	let mut root = root_zone();
	let ds = vec![z.ds(1)[0].clone(), z.ds(4)[0].clone()];
	root.delegate(&z.name, &ds);
	let w = World { zones: vec![root, z.clone()] };
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&z.name, TXT, &z.name));
	if verify(&p).is_ok() { fail("SHA-1 was trusted beside SHA-384"); }
}
'''),
dict(id='c07-optout', prop='C07', needs='an NSEC3 zone with opt-out and an insecure delegation below the wildcard\'s parent',
 breaks='opt-out NSEC3 records count as proof that a name does not exist',
 edits=[(V,'if nsec3.flags != 0 {','if nsec3.flags & !1 != 0 {')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	z.denial = Denial::Nsec3 { iters: 0, salt: vec![], flags: 1, algo: 1 };
	z.add(&nm("*.example."), TXT, txt_rdata(b"wild"));
	z.delegate(&nm("sub.example."), &[]);
	let w = world(vec![z.clone()]);
	// sub.example. exists, as an insecure delegation.
	let q = nm("sub.example.");
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&nm("*.example."), TXT, &q));
	p.extend(z.cover(&q));
	if verify(&p).is_ok() { fail("the wildcard was taken for a delegated name"); }
}
'''),
dict(id='c18-exactly-ten', prop='C18', needs='a lookup that takes exactly ten queries (five zones deep)',
 breaks='a proof which needs exactly the allowed ten queries is never completed',
 edits=[(Q,'self.pending_queries > 0 && self.queries_made <= MAX_REQUESTS','self.pending_queries > 0 && self.queries_made < MAX_REQUESTS')],
 main='''
use dnssec_prover::query::*;
fn main() {
	let mut zs = vec![zone("a.", 10), zone("b.a.", 20), zone("c.b.a.", 30), zone("d.c.b.a.", 40)];
	zs[3].add(&nm("d.c.b.a."), TXT, txt_rdata(b"x"));
	let w = world(zs);
	let (mut b, q) = ProofBuilder::new(&name("d.c.b.a."), TXT);
	let mut pending = vec![q];
	let mut n = 0;
	while b.awaiting_responses() {
		let q = pending.remove(0);
		n += 1;
		let m = decode(&q).unwrap();
		let a = w.answer(&m.q[0].name, m.q[0].ty);
		let mut o = MsgWriter::new(0, 0x81a0, [1, a.an.len() as u16, 0, 0], Compress::None);
		o.question(&m.q[0].name, m.q[0].ty, 1);
		for r in &a.an { o.record(r); }
		let mut buf = QueryBuf::new_zeroed(o.out.len() as u16);
		buf.copy_from_slice(&o.out);
		pending.extend(b.process_response(&buf).expect("honest response"));
	}
	if n != 10 { fail("not all ten responses were awaited"); }
	if b.finish_proof().is_err() { fail("no proof"); }
}
'''),
]
