//! C19: which responses enter a proof, and what of them.
use model::wire::*;
use model::*;

fn check(b: &[u8]) -> Res {
	match (glue::taken(b), strict_response(b)) {
		(Ok(Some((p, ttl))), Ok((w, wttl))) => {
			if p != stream(&w) { return bad("content", format!("the proof takes {:?} instead of {:?}", strict_stream(&p), w)); }
			if ttl != wttl { return bad("ttl", format!("TTL {} instead of {}", ttl, wttl)); }
			Ok("accepted")
		},
		(Ok(None), Ok(_)) => Ok("accepted, too many queries"),
		(Err(()), Err(_)) => Ok("rejected"),
		(Err(()), Ok(_)) => Ok("usable but rejected"),
		(Ok(_), Err(e)) => bad("accepts", format!("a response is accepted in spite of: {}", e)),
	}
}
fn must(b: &[u8]) -> Res { match check(b)? { "accepted" => Ok("accepted"), o => bad("rejects", format!("a good response is {}: {:?}", o, strict_response(b))) } }
fn sig(covered: u16, signer: &str) -> Vec<u8> { SigInfo { covered, alg: 13, labels: 1, orig_ttl: 300, expiration: 7, inception: 3, tag: 9, signer: Nm::new(signer), sig: vec![1, 2, 3] }.rdata() }
/// Kinds of records a response may hold; the last ones are of types unknown here.
fn kinds() -> Vec<Rec> {
	let n = Nm::new("h.z.");
	vec![
		Rec::new(&n, TXT, 300, txt_rdata(b"t")), Rec::new(&n, RRSIG, 200, sig(TXT, "z.")), Rec::new(&n, NSEC, 250, nsec_rdata(&Nm::new("i.z."), &[16])), Rec::new(&n, RRSIG, 20, sig(NSEC, "z.")),
		Rec::new(&Nm::new("0123.z."), NSEC3, 30, nsec3_rdata(1, 0, 0, &[], &[1], &[1])), Rec::new(&Nm::new("0123.z."), RRSIG, 40, sig(NSEC3, ".")), Rec::new(&Nm::new("z."), NS, 1, Nm::new("ns.z.").wire()),
		Rec::new(&Nm::new("z."), RRSIG, 2, sig(NS, "w.")), Rec::new(&Nm::new("z."), DS, 5, ds_rdata(1, 13, 2, &[5])), Rec::new(&n, CNAME, 7, Nm::new("i.z.").wire()), Rec::new(&Nm::new("z."), RRSIG, 3, sig(DS, "v.")),
		Rec::new(&Nm::new("z."), DNSKEY, 90, dnskey_rdata(257, 3, 13, &[1])), Rec::new(&Nm::new("z."), RRSIG, 6, sig(SOA, "u.")), Rec::new(&Nm::new("z."), SOA, 8, vec![0; 22]),
	]
}
fn msg(id: u16, flags: u16, counts: [u16; 4], q: usize, recs: &[&Rec], mode: Compress) -> Vec<u8> {
	let mut w = MsgWriter::new(id, flags, counts, mode);
	for _ in 0..q { w.question(&Nm::new("h.z."), 16, 1); }
	for r in recs { w.record(r); }
	w.out
}

fn main() {
	let mc = Mc::new("C19");
	let ks = kinds();
	let m = ks.len();
	mc.range("all flags", 65536 * 4, |i, ch| {
		let (f, v) = (i as u16, i >> 16);
		ch.note(|| format!("flags {:#06x}, variant {}", f, v));
		check(&match v {
			0 => msg(0, f, [1, 1, 0, 0], 1, &[&ks[0]], Compress::None),
			1 => msg(0, f, [1, 2, 2, 0], 1, &[&ks[0], &ks[1], &ks[2], &ks[3]], Compress::All),
			2 => msg(0, f, [1, 0, 2, 0], 1, &[&ks[2], &ks[3]], Compress::None),
			_ => msg(0, f, [0, 1, 0, 0], 0, &[&ks[0]], Compress::None),
		})
	});
	mc.range("all transaction ids", 65536, |i, ch| {
		ch.note(|| format!("id {}", i));
		check(&msg(i as u16, 0x81a0, [1, 1, 0, 0], 1, &[&ks[0]], Compress::None))
	});
	mc.range("good flags", 32, |i, ch| {
		// AA, RD, RA, CD in all combinations.
		let f = 0x8020 | (i as u16 & 1) << 10 | (i as u16 >> 1 & 1) << 8 | (i as u16 >> 2 & 1) << 7 | (i as u16 >> 3 & 1) << 4;
		ch.note(|| format!("flags {:#06x}", f));
		must(&msg(0, f, [1, 1, 0, 0], 1, &[&ks[0]], if i & 16 == 0 { Compress::None } else { Compress::All }))
	});
	// Declared counts against actual records.
	let vals = [0u16, 1, 2, 3, 4, 255, 256, 257, 65535];
	mc.explore("counts", usize::MAX, |ch| {
		let counts = [*ch.pick(&vals[..4]), *ch.pick(&vals), *ch.pick(&vals), *ch.pick(&[0u16, 1, 65535])];
		let q = ch.choose(4);
		let n = ch.choose(5);
		ch.note(|| format!("counts {:?}, {} questions and {} records present", counts, q, n));
		let recs: Vec<&Rec> = [0usize, 2, 4, 2, 0][..n].iter().map(|k| &ks[*k]).collect();
		check(&msg(0, 0x81a0, counts, q, &recs, Compress::None))
	});
	// Every placement of up to four records in answer and authority.
	let max = mc.tier(3usize, 4);
	mc.explore("placements", usize::MAX, |ch| {
		let n = 1 + ch.choose(max);
		let split = 1 + ch.choose(n);
		let recs: Vec<&Rec> = (0..n).map(|_| ch.pick(&ks)).collect();
		let mode = if n <= 2 { *ch.pick(&[Compress::None, Compress::All]) } else { Compress::All };
		ch.note(|| format!("answer {:?} authority {:?}", &recs[..split], &recs[split..]));
		let b = msg(0, 0x81a0, [1, split as u16, (n - split) as u16, 0], 1, &recs, mode);
		let r = if recs.iter().any(|r| r.ty == SOA) { check(&b)? } else { must(&b)? };
		Ok(r)
	});
	// Signatures of every kind, in either section.
	mc.range("covered types", 65536 * 2, |i, ch| {
		let (ty, auth) = (i as u16, i >> 16 == 1);
		let r = Rec::new(&Nm::new("h.z."), RRSIG, 20, sig(ty, "z."));
		ch.note(|| format!("RRSIG over type {} in the {} section", ty, if auth { "authority" } else { "answer" }));
		let b = msg(0, 0x81a0, if auth { [1, 1, 1, 0] } else { [1, 2, 0, 0] }, 1, &[&ks[0], &r], Compress::None);
		if TYPES.contains(&ty) { must(&b) } else { check(&b) }
	});
	mc.explore("signature fields", usize::MAX, |ch| {
		let auth = ch.flag();
		let owner = Nm::new(*ch.pick(&[".", "h.z.", "*.z.", "*."]));
		let s = SigInfo { covered: *ch.pick(&[TXT, NSEC, NSEC3, DS]), labels: *ch.pick(&[0u8, 1, 2, 127, 128, 255]), alg: *ch.pick(&[0u8, 5, 8, 13, 15, 253, 255]), signer: Nm::new(*ch.pick(&[".", "z.", "h.z.", "other."])),
			sig: vec![7; *ch.pick(&[0usize, 1, 64, 256, 512])], orig_ttl: *ch.pick(&[0, 300, u32::MAX]), expiration: *ch.pick(&[0, u32::MAX]), inception: *ch.pick(&[0, u32::MAX]), tag: *ch.pick(&[0, 0xffff]) };
		let r = Rec::new(&owner, RRSIG, 20, s.rdata());
		ch.note(|| format!("{:?} in the {} section", r, if auth { "authority" } else { "answer" }));
		must(&msg(0, 0x81a0, if auth { [1, 1, 1, 0] } else { [1, 2, 0, 0] }, 1, &[&ks[0], &r], Compress::None))
	});
	// Nothing in the additional section matters.
	mc.explore("additional section", usize::MAX, |ch| {
		let base = [vec![&ks[0], &ks[1]], vec![&ks[0], &ks[1], &ks[2], &ks[3]]][ch.choose(2)].clone();
		let count = *ch.pick(&[0u16, 1, 2, 3, 65535]);
		let mut b = msg(0, 0x81a0, [1, 2, base.len() as u16 - 2, count], 1, &base, *ch.pick(&[Compress::None, Compress::All]));
		let extra: Vec<u8> = match ch.choose(8) {
			0 => vec![], 1 => stream(&[ks[2].clone()]), 2 => vec![0xff; 40], 3 => vec![0, 0, 41, 4, 0xd0, 0, 0, 0x80, 0, 0, 0], 4 => stream(&[Rec::new(&Nm::new("evil."), TXT, 0, txt_rdata(b"x")), ks[13].clone()]),
			5 => vec![0], 6 => stream(&[ks[0].clone()])[..7].to_vec(), _ => stream(&[ks[3].clone(), ks[1].clone()]),
		};
		b.extend_from_slice(&extra);
		ch.note(|| format!("{} additional records declared, {} bytes present", count, extra.len()));
		must(&b)
	});
	// The smallest TTL of what is taken, and of nothing else.
	let ttls = [0u32, 1, 300, 0x7fffffff, 0x80000000, u32::MAX];
	mc.explore("TTLs", usize::MAX, |ch| {
		let kinds = [&ks[0], &ks[1], &ks[2], &ks[6], &ks[5]];
		let recs: Vec<Rec> = kinds.iter().map(|r| { let mut r = (*r).clone(); r.ttl = *ch.pick(&ttls); r }).collect();
		ch.note(|| format!("TTLs {:?}", recs.iter().map(|r| r.ttl).collect::<Vec<_>>()));
		must(&msg(0, 0x81a0, [1, 2, 3, 0], 1, &recs.iter().collect::<Vec<_>>(), Compress::None))
	});
	// Every cut of a good response, and every class.
	let good = msg(0, 0x81a0, [1, 2, 2, 0], 1, &[&ks[0], &ks[1], &ks[2], &ks[3]], Compress::All);
	mc.range("every cut", good.len() as u64, |i, ch| { ch.note(|| format!("cut to {} bytes", i)); match check(&good[..i as usize])? { "rejected" => Ok("rejected"), o => bad("accepts", format!("a cut response is {}", o)) } });
	mc.range("record classes", 65536 * 2, |i, ch| {
		ch.note(|| format!("class {} in section {}", i as u16, i >> 16));
		let mut w = MsgWriter::new(0, 0x81a0, [1, 1, 1, 0], Compress::None);
		w.question(&Nm::new("h.z."), 16, 1);
		w.record_class(&ks[0], if i >> 16 == 0 { i as u16 } else { 1 });
		w.record_class(&ks[2], if i >> 16 == 1 { i as u16 } else { 1 });
		check(&w.out)
	});
	// Any number of records, of which one is of any kind, anywhere in either section.
	mc.explore("many records", usize::MAX, |ch| {
		let sizes: Vec<usize> = mc.tier((1..=9).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257]).collect(), (1..=260).chain([511, 512, 513, 700]).collect());
		let n = *ch.pick(&sizes);
		let in_ns = ch.flag();
		let k = ch.choose(m);
		let at = [0, n / 2, n - 1][ch.choose(3)];
		let fill = [0usize, 2, 3, 6][ch.choose(4)];
		let recs: Vec<&Rec> = (0..n).map(|i| if i == at { &ks[k] } else { &ks[fill] }).collect();
		let all: Vec<&Rec> = if in_ns { [&ks[0]].into_iter().chain(recs).collect() } else { recs };
		ch.note(|| format!("{} records like {:?} in the {} section, number {} is {:?}", n, ks[fill], if in_ns { "authority" } else { "answer" }, at, ks[k]));
		let mode = *ch.pick(&[Compress::All, Compress::None]);
		let b = msg(0, 0x81a0, if in_ns { [1, 1, n as u16, 0] } else { [1, n as u16, 0, 0] }, 1, &all, mode);
		if b.len() > 65_535 { return Ok("no such message"); }
		if all.iter().any(|r| r.ty == SOA) { check(&b) } else { must(&b) }
	});
	// Thousands of the smallest records, up to what fits a message, and a signature after them.
	let top: Vec<usize> = [511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 4300, 4360].into_iter().chain(mc.tier(vec![], (1..43).map(|i| i * 100 + 7).collect())).collect();
	mc.explore("thousands of records", 0, |ch| {
		let (n, in_ns) = (*ch.pick(&top), ch.flag());
		let small = if in_ns { Rec::new(&Nm::root(), NS, 300, vec![0]) } else { Rec::new(&Nm::root(), A, 300, vec![1, 2, 3, 4]) };
		let mut last = ks[if in_ns { 3 } else { 1 }].clone();
		last.name = Nm::root();
		last.ttl = 5;
		let mut w = MsgWriter::new(0, 0x81a0, if in_ns { [1, 1, n as u16 + 1, 0] } else { [1, n as u16 + 1, 0, 0] }, Compress::None);
		w.question(&Nm::root(), 1, 1);
		if in_ns { w.record(&Rec::new(&Nm::root(), A, 300, vec![1, 2, 3, 4])); }
		for _ in 0..n { w.record(&small); }
		w.record(&last);
		ch.note(|| format!("{} records in the {} section, {} bytes", n, if in_ns { "authority" } else { "answer" }, w.out.len()));
		if w.out.len() > 65_535 { return Ok("no such message"); }
		must(&w.out)
	});
	// Questions and owners of every length and number of labels.
	mc.explore("long names", usize::MAX, |ch| {
		let i = ch.choose(127 + 63 + 60);
		let n: Nm = if i < 127 { Nm((0..i).map(|k| vec![b"ab0"[k % 3]]).collect()) } else if i < 190 { Nm(vec![vec![b'l'; i - 126], b"z".to_vec()]) } else { Nm(vec![vec![b'k'; 63], vec![b'l'; 63], vec![b'm'; 63], vec![b'n'; i - 189]]) };
		let where_ = ch.choose(4);
		let mut w = MsgWriter::new(0, 0x81a0, [1, 2, 2, 0], *ch.pick(&[Compress::None, Compress::Owner, Compress::All]));
		w.question(&if where_ == 0 || where_ == 3 { n.clone() } else { Nm::new("h.z.") }, 16, 1);
		for (j, k) in [0, 1, 2, 3].into_iter().enumerate() {
			let mut r = ks[k].clone();
			if (where_ == 1 && j < 2) || (where_ == 2 && j >= 2) || where_ == 3 { r.name = n.clone(); }
			w.record(&r);
		}
		ch.note(|| format!("{} at {}", n.text(), ["the question", "the answer", "the authority section", "all"][where_]));
		if n.text().len() > 255 { return Ok("no such name"); }
		must(&w.out)
	});
	mc.measured("record kinds", m);
	mc.finish()
}
