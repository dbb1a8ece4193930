//! C12: arbitrary bytes as record streams and as resolver responses, against our strict decoder.
use dnssec_prover::rr::*;
use dnssec_prover::ser::{parse_rr_stream, write_rr};
use glue::samples::*;
use model::wire::*;
use model::*;

fn check_stream(b: &[u8]) -> Res {
	let rrs = match parse_rr_stream(b) { Ok(r) => r, Err(()) => return Ok("rejected") };
	let got: Vec<Rec> = rrs.iter().map(glue::rec_of).collect();
	let want = match strict_stream(b) { Ok(w) => w, Err(e) => return bad("accepts malformed", format!("{} ({}) is accepted as {:?}", hex(&b[..b.len().min(400)]), e, got)) };
	if got.len() != want.len() || !got.iter().zip(&want).all(|(g, w)| g.same(w)) { return bad("misreads", format!("{} is read as {:?} instead of {:?}", hex(&b[..b.len().min(400)]), got, want)); }
	let mut o = Vec::new();
	for r in &rrs { write_rr(r, 0, &mut o); }
	match parse_rr_stream(&o) { Ok(v) if v == rrs => Ok("accepted"), _ => bad("reserialization", format!("{:?} written and parsed again differ", got)) }
}
fn check_resp(b: &[u8]) -> Res {
	let got = match glue::taken(b) { Ok(Some(g)) => g, Ok(None) => return Ok("too many queries"), Err(()) => return Ok("rejected") };
	let want = match strict_response(b) { Ok(w) => w, Err(e) => return bad("accepts malformed response", format!("{} ({}) is accepted", hex(&b[..b.len().min(400)]), e)) };
	if got != (stream(&want.0), want.1) { return bad("misreads response", format!("{} gives {:?} TTL {} instead of {:?} TTL {}", hex(&b[..b.len().min(400)]), strict_stream(&got.0), got.1, want.0, want.1)); }
	check_stream(&got.0)
}
/// Two small records of every type each, as bases.
fn bases() -> Vec<Rec> {
	let (n, m) = (Nm::new("ab.c."), Nm::new("x.c."));
	let sig = SigInfo { covered: TXT, alg: 13, labels: 2, orig_ttl: 300, expiration: 7, inception: 3, tag: 9, signer: Nm::new("c."), sig: vec![1, 2, 3] };
	vec![
		Rec::new(&n, A, 1, vec![1, 2, 3, 4]), Rec::new(&n, AAAA, 2, (0..16).collect()), Rec::new(&n, NS, 3, m.wire()), Rec::new(&n, TXT, 4, txt_rdata(b"hello")),
		Rec::new(&n, TLSA, 5, tlsa_rdata(3, 1, 1, &[7, 8])), Rec::new(&n, CNAME, 6, m.wire()), Rec::new(&n, DNAME, 7, m.wire()), Rec::new(&n, DNSKEY, 8, dnskey_rdata(256, 3, 13, &[1, 2])),
		Rec::new(&n, DS, 9, ds_rdata(5, 13, 2, &[3, 4])), Rec::new(&n, RRSIG, 10, sig.rdata()), Rec::new(&n, NSEC, 11, nsec_rdata(&m, &[1, 16, 46, 257])),
		Rec::new(&n, NSEC3, 12, nsec3_rdata(1, 0, 2, &[9], &[1, 2, 3, 4], &[1, 256])), Rec::new(&Nm::root(), NS, 13, Nm::root().wire()), Rec::new(&Nm::root(), NSEC3, 14, nsec3_rdata(1, 0, 2, &[], &[], &[])),
		Rec::new(&n, TXT, 15, vec![1, b'a', 0, 2, b'b', b'c']), Rec::new(&Nm::root(), TXT, 16, vec![0]),
	]
}
fn message(an: &[Rec], ns: &[Rec], mode: Compress) -> Vec<u8> {
	let mut w = MsgWriter::new(0, 0x81a0, [1, an.len() as u16, ns.len() as u16, 0], mode);
	w.question(&Nm::new("ab.c."), 16, 1);
	for r in an.iter().chain(ns) { w.record(r); }
	w.out
}
const STRUCT: [u8; 24] = [0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 127, 128, 0x2e, 0xc0, 0xc1, 0xfe, 0xff, 12];

fn main() {
	let mc = Mc::new("C12");
	let b = bases();
	for len in 0..=mc.tier(2u32, 3) {
		mc.range(&format!("all byte strings of length {}", len), 256u64.pow(len), |i, ch| {
			let v: Vec<u8> = (0..len).map(|k| (i >> (8 * k)) as u8).collect();
			ch.note(|| hex(&v));
			check_stream(&v)?;
			check_resp(&v)
		});
	}
	// Every base on its own, and two together; then mutations of each.
	let mut bytes: Vec<Vec<u8>> = b.iter().map(|r| stream(&[r.clone()])).collect();
	for i in 0..b.len() { bytes.push(stream(&[b[i].clone(), b[(i * 5 + 1) % b.len()].clone()])); }
	let mut msgs: Vec<Vec<u8>> = Vec::new();
	for (i, r) in b.iter().enumerate() { for mode in [Compress::None, Compress::All] {
		msgs.push(message(&[r.clone()], &[], mode));
		msgs.push(message(&[b[0].clone(), r.clone()], &[b[10].clone(), b[(i + 3) % b.len()].clone()], mode));
	} }
	mc.range("stream bases accepted", bytes.len() as u64, |i, _| {
		let m = &bytes[i as usize];
		match check_stream(m)? { "accepted" => Ok("accepted"), o => bad("rejects", format!("a well-formed stream is {}: {:?}", o, strict_stream(m))) }
	});
	mc.range("response bases accepted", msgs.len() as u64, |i, _| {
		let m = &msgs[i as usize];
		match check_resp(m)? { "accepted" => Ok("accepted"), o => bad("rejects", format!("a well-formed response is {}: {:?}", o, strict_response(m))) }
	});
	let total: usize = bytes.iter().map(|m| m.len()).sum();
	let mtotal: usize = msgs.iter().map(|m| m.len()).sum();
	// (base, position) by global position.
	let locate = |set: &[Vec<u8>], mut p: usize| -> (usize, usize) { for (i, m) in set.iter().enumerate() { if p < m.len() { return (i, p); } p -= m.len(); } unreachable!() };
	for (what, set, tot, f) in [("stream", &bytes, total, check_stream as fn(&[u8]) -> Res), ("response", &msgs, mtotal, check_resp as fn(&[u8]) -> Res)] {
		mc.range(&format!("{}: every truncation", what), tot as u64, |i, ch| {
			let (k, p) = locate(set, i as usize);
			ch.note(|| format!("{} cut to {} bytes", hex(&set[k]), p));
			f(&set[k][..p])
		});
		mc.range(&format!("{}: every byte substitution", what), tot as u64 * 255, |i, ch| {
			let (k, p) = locate(set, (i / 255) as usize);
			let mut m = set[k].clone();
			m[p] ^= (i % 255) as u8 + 1;
			ch.note(|| format!("byte {} of {} becomes {:#x}", p, hex(&set[k]), m[p]));
			f(&m)
		});
		mc.range(&format!("{}: every insertion", what), tot as u64 * STRUCT.len() as u64, |i, ch| {
			let (k, p) = locate(set, i as usize / STRUCT.len());
			let x = STRUCT[i as usize % STRUCT.len()];
			let mut m = set[k].clone();
			m.insert(p, x);
			ch.note(|| format!("{:#x} inserted at {} of {}", x, p, hex(&set[k])));
			f(&m)
		});
		mc.range(&format!("{}: every deletion", what), tot as u64 * 6, |i, ch| {
			let (k, p) = locate(set, i as usize / 6);
			let n = i as usize % 6 + 1;
			let mut m = set[k].clone();
			let e = (p + n).min(m.len());
			m.drain(p..e);
			ch.note(|| format!("{} bytes deleted at {} of {}", n, p, hex(&set[k])));
			f(&m)
		});
		// Two bytes at once, structural values only.
		let pairs: Vec<(usize, usize, usize)> = (0..set.len()).step_by(mc.tier(4, 1)).flat_map(|k| { let l = set[k].len(); (0..l).flat_map(move |p| (p + 1..l.min(p + 16)).map(move |q| (k, p, q))) }).collect();
		let s = STRUCT.len() as u64;
		mc.range(&format!("{}: pairs of substitutions", what), pairs.len() as u64 * s * s, |i, ch| {
			let (k, p, q) = pairs[(i / s / s) as usize];
			let mut m = set[k].clone();
			m[p] = STRUCT[(i % s) as usize];
			m[q] = STRUCT[(i / s % s) as usize];
			ch.note(|| format!("bytes {} and {} of {} become {:#x} and {:#x}", p, q, hex(&set[k]), m[p], m[q]));
			f(&m)
		});
	}
	// All small record bodies of every type.
	let al = [0u8, 1, 2, 3, 5, 20, 32, 33, 0xc0, 0xff, b'a'];
	let k = al.len() as u64;
	for ty in TYPES.iter().copied().chain([0, 6, 41, 65535]) {
		for len in 0..=mc.tier(3u32, 5) {
			mc.range(&format!("bodies of type {} with {} bytes", ty, len), k.pow(len), |i, ch| {
				let d: Vec<u8> = (0..len).map(|j| al[(i / k.pow(j) % k) as usize]).collect();
				ch.note(|| hex(&d));
				for pre in [&[][..], &[1, b'n', 0][..], &[1, 0, 0, 0, 0][..], &[0, 16, 13, 1, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 1, 0, 3][..]] {
					let mut r = pre.to_vec();
					r.extend_from_slice(&d);
					let s = stream(&[Rec::new(&Nm::new("o."), ty, 1, r)]);
					check_stream(&s)?;
					// And with other bytes behind, which must not be taken for the record's.
					let mut t = s.clone();
					t.extend_from_slice(&stream(&[b[0].clone()]));
					check_stream(&t)?;
					let mut m = message(&[], &[], Compress::None);
					m[7] = 2;
					m.extend_from_slice(&t);
					check_resp(&m)?;
				}
				Ok("ok")
			});
		}
	}
	// Large adversarial inputs: work has to stay linear.
	let big: Vec<(&str, Vec<u8>)> = {
		let mut v: Vec<(&str, Vec<u8>)> = Vec::new();
		let small = stream(&[Rec::new(&Nm::root(), NSEC, 0, nsec_rdata(&Nm::root(), &[]))]);
		v.push(("empty NSECs", small.repeat(65535 / small.len())));
		let small = stream(&[Rec::new(&Nm::root(), TXT, 0, vec![0])]);
		v.push(("empty TXTs", small.repeat(65535 / small.len())));
		v.push(("one TXT of empty strings", stream(&[Rec::new(&Nm::root(), TXT, 0, vec![0; 65500])])));
		let deep = Nm(vec![vec![b'a']; 127]);
		let small = stream(&[Rec::new(&deep, NS, 0, deep.wire())]);
		v.push(("deep names", small.repeat(65535 / small.len())));
		v.push(("zeros", vec![0; 65535]));
		v.push(("pointers", vec![0xc0; 65535]));
		v
	};
	let quick = |what: &str, f: &dyn Fn() -> Res| -> Res {
		let t = std::time::Instant::now();
		let r = f()?;
		let s = t.elapsed().as_secs_f64();
		if s > 20.0 { return bad("time", format!("{} takes {:.1} s", what, s)); }
		Ok(r)
	};
	for (w, v) in &big {
		mc.single(&format!("large stream: {}", w), |_| quick(w, &|| { let _ = parse_rr_stream(v); Ok("ok") }));
		mc.single(&format!("large response: {}", w), |_| quick(w, &|| { let mut m = message(&[], &[], Compress::None); m[6] = 0xff; let n = v.len().min(65535 - m.len()); m.extend_from_slice(&v[..n]); let _ = glue::taken(&m); Ok("ok") }));
	}
	mc.single("large response: pointer chains", |_| quick("pointer chains", &|| {
		let mut m = message(&[], &[], Compress::None);
		// A chain of 250 pointers, then records that all start at its end.
		let mut at = 12;
		let base = m.len();
		m.extend_from_slice(&[0, 0, 52, 0, 1, 0, 0, 0, 0]);
		m.extend_from_slice(&(3u16 + 500).to_be_bytes());
		m.extend_from_slice(&[0, 0, 0]);
		for _ in 0..250 { let here = m.len(); m.extend_from_slice(&(0xc000 | at as u16).to_be_bytes()); at = here; }
		let _ = base;
		let mut n = 1u16;
		while m.len() + 24 < 65535 { m.extend_from_slice(&(0xc000 | at as u16).to_be_bytes()); m.extend_from_slice(&[0, 5, 0, 1, 0, 0, 0, 0, 0, 2]); m.extend_from_slice(&(0xc000 | at as u16).to_be_bytes()); n += 1; }
		m[6..8].copy_from_slice(&n.to_be_bytes());
		check_resp(&m)
	}));
	mc.single("a megabyte of records", |_| quick("1 MB", &|| { let v = stream(&[Rec::new(&Nm::root(), TXT, 0, vec![0])]).repeat(90_000); match parse_rr_stream(&v) { Ok(r) if r.len() == 90_000 => Ok("accepted"), _ => bad("rejects", "a megabyte of TXT records") } }));
	mc.single("samples are accepted", |_| { let mut o = Vec::new(); for r in records(true) { write_rr(&r, 0, &mut o); } match parse_rr_stream(&o) { Ok(v) if v == records(true) => Ok("accepted"), _ => bad("rejects", "sample records do not parse") } });
	mc.finish()
}
