//! C20: every emitted query decoded by our own decoder.
use dnssec_prover::query::ProofBuilder;
use dnssec_prover::rr::Name;
use model::wire::*;
use model::*;

fn check_query(q: &[u8], name: &Nm, ty: u16) -> Result<(), Bad> {
	let m = match decode(q) { Ok(m) => m, Err(e) => return bad("malformed", format!("query for {} {} is malformed: {} [{}]", name, ty, e, hex(q))) };
	if m.id != 0 { return bad("id", format!("transaction id {}", m.id)); }
	if m.flags != 0x0120 { return bad("flags", format!("flags {:04x}", m.flags)); }
	if m.q != [Question { name: name.clone(), ty, class: 1 }] { return bad("question", format!("asks {:?} instead of {} {}", m.q, name, ty)); }
	if !m.an.is_empty() || !m.ns.is_empty() || m.ar.len() != 1 { return bad("sections", format!("{} answers, {} authorities, {} additional", m.an.len(), m.ns.len(), m.ar.len())); }
	let o = &m.ar[0];
	if !o.name.0.is_empty() || o.ty != OPT || o.ttl != 0x8000 { return bad("opt", format!("additional record {:?}", o)); }
	let mut r = &o.rdata[..];
	while !r.is_empty() {
		if r.len() < 4 { return bad("opt", "malformed options"); }
		let l = 4 + u16::from_be_bytes([r[2], r[3]]) as usize;
		if r.len() < l { return bad("opt", "malformed options"); }
		r = &r[l..];
	}
	// The question name is not compressed.
	if q[12..12 + name.wire().len()] != name.wire()[..] { return bad("name", "the question name is not the plain wire name"); }
	Ok(())
}
fn long(labels: &[usize]) -> String { let mut s = String::new(); for (i, l) in labels.iter().enumerate() { for k in 0..*l { s.push((b'a' + ((i + k) % 26) as u8) as char); } s.push('.'); } s }

fn main() {
	let mc = Mc::new("C20");
	let mut names: Vec<String> = vec![".".into(), "a.".into(), "A.".into(), "ExAmple.COM.".into(), "*.a.".into(), "_25._tcp.X-y_z.Org.".into(),
		long(&[63]), long(&[63, 63, 63, 61]), long(&[63, 63, 63, 60]), long(&[1; 127]), long(&[62, 63, 1, 63, 60]), "a\\b.\\.".into(), "xn--nxasmq6b.".into()];
	for l in 1..64 { names.push(long(&[l])); names.push(long(&[l, 2])); }
	for n in 1..128 { names.push(long(&vec![1; n])); }
	for b in 0x21..0x7fu8 { if b != b'"' && b != b'.' { names.push(format!("{}.", b as char)); names.push(format!("x{}y.Z{}.", b as char, b as char)); } }
	let n = names.len() as u64;
	// Every type on a few names; a few types on every name.
	mc.range("types", 65536 * 6, |i, ch| {
		let (name, ty) = (&names[(i / 65536) as usize], i as u16);
		ch.note(|| format!("{} type {}", name, ty));
		let (_, q) = ProofBuilder::new(&Name::try_from(name.as_str()).unwrap(), ty);
		check_query(&q, &Nm::new(name), ty)?;
		Ok("well-formed")
	});
	let tys = [1u16, 16, 28, 52, 48, 43, 0, 255, 256, 65535];
	mc.range("names", n * tys.len() as u64, |i, ch| {
		let (name, ty) = (&names[(i / tys.len() as u64) as usize], tys[i as usize % tys.len()]);
		ch.note(|| format!("{} type {}", name, ty));
		let (_, q) = ProofBuilder::new(&Name::try_from(name.as_str()).unwrap(), ty);
		check_query(&q, &Nm::new(name), ty)?;
		check_query(&q.into_vec(), &Nm::new(name), ty)?;
		Ok("well-formed")
	});
	// Follow-up queries for every signer name, however its case and compression.
	mc.range("follow-ups", n * 2, |i, ch| {
		let name = Nm::new(&names[(i / 2) as usize]);
		if name.wire().len() > 255 { return Ok("too long for the wire"); }
		ch.note(|| format!("signer {}", name));
		let (mut b, _) = ProofBuilder::new(&Name::try_from("q.").unwrap(), 16);
		let mut w = MsgWriter::new(0, 0x81a0, [1, 1, 0, 0], Compress::None);
		w.question(&Nm::new("q."), 16, 1);
		let signer = if i % 2 == 0 { name.clone() } else { Nm(name.0.iter().map(|l| l.to_ascii_uppercase()).collect()) };
		let info = SigInfo { covered: 16, alg: 13, labels: 1, orig_ttl: 1, expiration: 2, inception: 1, tag: 1, signer, sig: vec![1; 64] };
		w.record(&Rec::new(&Nm::new("q."), RRSIG, 5, info.rdata()));
		let mut buf = dnssec_prover::query::QueryBuf::new_zeroed(w.out.len() as u16);
		buf.copy_from_slice(&w.out);
		let qs = match b.process_response(&buf) { Ok(q) => q, Err(()) => return bad("rejected", format!("good response with signer {} rejected", name)) };
		let want: &[u16] = if name.0.is_empty() { &[DNSKEY] } else { &[DNSKEY, DS] };
		if qs.len() != want.len() { return bad("count", format!("{} follow-up queries", qs.len())); }
		let mut got: Vec<u16> = Vec::new();
		for q in &qs {
			let m = match decode(q) { Ok(m) => m, Err(e) => return bad("malformed", e) };
			let ty = m.q.first().map(|q| q.ty).unwrap_or(0);
			check_query(q, &name, ty)?;
			got.push(ty);
		}
		got.sort(); let mut w: Vec<u16> = want.to_vec(); w.sort();
		if got != w { return bad("types", format!("follow-ups of types {:?}", got)); }
		Ok("well-formed")
	});
	mc.finish()
}
