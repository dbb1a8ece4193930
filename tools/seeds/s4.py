V='src/validation.rs'
SEEDS=[
dict(id='c29-wild-tolerated', prop='C29', needs='a proof with a bad signature over a wildcard expansion next to other, good records',
 breaks='A bad signature over an expanded wildcard is passed over and the remaining records are returned as if the proof were good.',
 edits=[(V,"""					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues.
					return Err(ValidationError::Invalid);
				}
			}
			latest_inception""","""					// If a signature is invalid, just immediately fail, avoiding KeyTrap issues. There are
					// no keys to trap us with for mere expansions, which may be stale.
					if rrsig.labels < rrsig.name.labels() { continue; }
					return Err(ValidationError::Invalid);
				}
			}
			latest_inception""")],
 main='''
fn main() {
	let mut z = zone("example.", 300);
	z.add(&nm("t.example."), TXT, txt_rdata(b"t"));
	z.add(&nm("*.w.example."), TXT, txt_rdata(b"w"));
	z.add(&nm("zz.example."), TXT, txt_rdata(b"z"));
	let w = world(vec![z.clone()]);
	let z = &w.zones[1];
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&nm("t.example."), TXT, &nm("t.example.")));
	let q = nm("q.w.example.");
	p.extend(z.signed(&nm("*.w.example."), TXT, &q));
	p.extend(z.cover(&q));
	if verify(&p).map_or(true, |v| v.len() != 2) { fail("the honest proof is not accepted"); }
	for r in p.iter_mut() { if r.name == q && r.ty == TXT { *r.rdata.last_mut().unwrap() ^= 1; } }
	if verify(&p).is_ok() { fail("a proof with a tampered record is accepted in part"); }
}
'''),
dict(id='c29-dead-delegation', prop='C29', needs='a signed delegation to a zone whose DNSKEY signatures are not in the proof, next to another zone which is complete',
 breaks='A delegated zone without DNSKEY signatures is skipped instead of failing the proof, so an incomplete proof is accepted in part.',
 edits=[(V,"""			verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().collect())?
""","""			let mut dnskey_rrsigs = dnskey_rrsigs.peekable();
			// Nothing can be validated in this zone
			if dnskey_rrsigs.peek().is_none() { continue 'next_zone; }
			verify_dnskeys(dnskey_rrsigs, next_ds_set.clone().unwrap(), dnskeys.clone().collect())?
""")],
 main='''
fn main() {
	let (mut a, mut b) = (zone("a.", 310), zone("b.", 320));
	a.add(&nm("t.a."), TXT, txt_rdata(b"t"));
	b.add(&nm("t.b."), TXT, txt_rdata(b"t"));
	let w = world(vec![a, b]);
	let mut p: Vec<Rec> = Vec::new();
	for z in &w.zones[1..] {
		for r in w.chain(&z.name) { if !p.contains(&r) { p.push(r); } }
		let n = z.name.child("t");
		p.extend(z.signed(&n, TXT, &n));
	}
	if verify(&p).map_or(true, |v| v.len() != 2) { fail("the honest proof is not accepted"); }
	p.retain(|r| r.name != nm("b.") || r.rrsig().map_or(true, |i| i.covered != DNSKEY));
	if verify(&p).is_ok() { fail("a proof without a delegated zone's DNSKEY signature is accepted in part"); }
}
'''),
dict(id='c29-unsupported-orphan', prop='C29', needs='a signature of an unsupported algorithm by a key of the zone whose records are not in the proof',
 breaks='A harmless unsupported signature fails the whole proof.',
 edits=[(V,"""				Err(ValidationError::UnsupportedAlgorithm) => continue,
""","""				Err(ValidationError::UnsupportedAlgorithm) => {
					if signed_records.clone().next().is_none() { return Err(ValidationError::UnsupportedAlgorithm); }
					continue
				},
""")],
 main='''
fn main() {
	let mut z = zone("example.", 330);
	let mut odd = Key::ed(339, ZONE);
	odd.alg = 253;
	z.keys.push(odd.clone());
	z.add(&nm("t.example."), TXT, txt_rdata(b"t"));
	let w = world(vec![z]);
	let z = &w.zones[1];
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&nm("t.example."), TXT, &nm("t.example.")));
	let mut i = sign_recs(&odd, &z.name, &[Rec::new(&nm("u.example."), A, 3600, vec![1; 4])], WIN).rrsig().unwrap();
	i.alg = 253;
	i.tag = odd.tag();
	p.push(Rec::new(&nm("u.example."), RRSIG, 3600, i.rdata()));
	if verify(&p).map_or(true, |v| v.len() != 1) { fail("an unsupported signature fails the proof"); }
}
'''),
]
