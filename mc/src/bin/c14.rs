//! C14: names, in text and on the wire.
use dnssec_prover::rr::*;
use dnssec_prover::ser::{parse_rr_stream, write_rr};
use model::wire::*;
use model::*;
use std::collections::HashMap;
use std::sync::Mutex;

/// Everything the public interface says of an accepted name.
fn accepted(n: &Name, s: &str) -> Result<(), Bad> {
	let want = s.to_ascii_lowercase();
	if n.as_str() != want || &**n != want.as_str() || format!("{}", n) != want { return bad("text", format!("{:?} becomes {:?}", s, n.as_str())); }
	let m = Nm::new(&want);
	if n.labels() as usize != m.labels() { return bad("labels", format!("{:?} has {} labels, not {}", s, n.labels(), m.labels())); }
	for k in 0..=255u8 {
		let got = n.trailing_n_labels(k);
		let w = if k as usize > m.labels() { None } else { Some(m.trailing(k as usize).text()) };
		if got != w.as_deref() { return bad("trailing", format!("{} trailing labels of {:?}: {:?} instead of {:?}", k, s, got, w)); }
	}
	let mut o = Vec::new();
	write_rr(&A { name: n.clone(), address: [1, 2, 3, 4] }, 0, &mut o);
	let mut w = m.wire();
	w.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
	if o != w { return bad("wire", format!("{:?} is written as {}", s, hex(&o))); }
	let mut o = Vec::new();
	write_rr(&CName { name: n.clone(), canonical_name: n.clone() }, 0, &mut o);
	let mut w = Vec::new();
	Rec::new(&m, CNAME, 0, m.wire()).write(&mut w);
	if o != w { return bad("wire", format!("{:?} is written as {} in CNAME", s, hex(&o))); }
	// And reads back, in either case.
	for up in [false, true] {
		let m = if up { Nm(m.0.iter().map(|l| l.to_ascii_uppercase()).collect()) } else { m.clone() };
		let mut w = Vec::new();
		Rec::new(&m, NS, 0, m.wire()).write(&mut w);
		match parse_rr_stream(&w).as_deref() {
			Ok([RR::NS(r)]) if r.name == *n && r.name_server == *n => {},
			r => return bad("read back", format!("the wire form of {:?} parses to {:?}", s, r)),
		}
	}
	Ok(())
}
fn text(s: &str) -> Res {
	let (a, b) = (Name::try_from(s), Name::try_from(s.to_string()));
	if a != b { return bad("interfaces", format!("&str and String disagree on {:?}", s)); }
	match (a, valid_text(s)) {
		(Ok(n), true) => { accepted(&n, s)?; Ok("valid name") },
		(Err(()), false) => Ok("rejected text"),
		(Ok(_), false) => bad("accepts", format!("{:?} is accepted", s)),
		(Err(()), true) => bad("rejects", format!("{:?} is rejected", s)),
	}
}
fn tail() -> [u8; 14] { [0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 9, 8, 7, 6] }
/// A byte string in the place of a record's name.
fn wire_name(b: &[u8]) -> Res {
	let mut s = b.to_vec();
	s.extend_from_slice(&tail());
	match (parse_rr_stream(&s), strict_stream(&s)) {
		(Ok(r), Ok(w)) => {
			let g: Vec<Rec> = r.iter().map(glue::rec_of).collect();
			if g.len() != w.len() || !g.iter().zip(&w).all(|(a, b)| a.same(b)) { return bad("misread", format!("{} is read as {:?} instead of {:?}", hex(b), g, w)); }
			Ok("valid wire name")
		},
		(Err(()), Err(_)) => Ok("rejected wire name"),
		(Ok(r), Err(e)) => bad("accepts wire", format!("{} ({}) is read as {:?}", hex(b), e, r.iter().map(glue::rec_of).collect::<Vec<_>>())),
		(Err(()), Ok(w)) => bad("rejects wire", format!("{} ({:?}) is rejected", hex(b), w)),
	}
}
fn long(ls: &[usize]) -> String { ls.iter().map(|l| "abcdefghij".repeat(7)[..*l].to_string() + ".").collect() }

/// A response whose answer is a CNAME at a name written as `raw`, placed at offset 12+`q`.len()+4.
fn response(q: &[u8], extra: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
	let mut m = vec![0, 0, 0x81, 0xa0, 0, 1, 0, extra.len() as u8, 0, 0, 0, 0];
	m.extend_from_slice(q);
	m.extend_from_slice(&[0, 16, 0, 1]);
	for (owner, target) in extra {
		m.extend_from_slice(owner);
		m.extend_from_slice(&[0, 5, 0, 1, 0, 0, 0, 7]);
		m.extend_from_slice(&(target.len() as u16).to_be_bytes());
		m.extend_from_slice(target);
	}
	m
}
/// The real code on a response against our decoder. `must`: it has to be accepted.
fn resp(m: &[u8], must: bool) -> Res {
	match (glue::taken(m), strict_response(m)) {
		(Ok(Some((p, ttl))), Ok((w, wttl))) => {
			if p != stream(&w) { return bad("compressed", format!("names in {} are read as {:?} instead of {:?}", hex(m), strict_stream(&p), w)); }
			if ttl != wttl { return bad("ttl", "wrong TTL"); }
			Ok("decoded")
		},
		(Ok(None), _) => Ok("too many queries"),
		(Err(()), Err(_)) => Ok("rejected"),
		(Ok(_), Err(e)) => bad("accepts compressed", format!("{} ({}) is accepted", hex(m), e)),
		(Err(()), Ok((w, _))) => if must { bad("rejects compressed", format!("{} ({:?}) is rejected", hex(m), w)) } else { Ok("rejected, allowed") },
	}
}

fn main() {
	let mc = Mc::new("C14");
	let al: Vec<char> = "aZ.-*\"\\ 0\u{e9}\u{7f}\n".chars().collect();
	let k = al.len() as u64;
	for len in 0..=mc.tier(6u32, 7) {
		mc.range(&format!("all texts of {} characters", len), k.pow(len), |i, ch| {
			let s: String = (0..len).map(|j| al[(i / k.pow(j) % k) as usize]).collect();
			ch.note(|| format!("{:?}", s));
			text(&s)
		});
	}
	mc.range("every character", 0x11000, |i, ch| {
		let c = match char::from_u32(i as u32) { Some(c) => c, None => return Ok("not a character") };
		ch.note(|| format!("{:?}", c));
		for s in [format!("{}", c), format!("{}.", c), format!("a{}b.c.", c), format!("{}b.c.", c), format!("a.b{}.", c), format!("a.{}.", c), format!("a.b{}", c), format!("a{}.", c)] { text(&s)?; }
		Ok("ok")
	});
	// Each character at either end or in the middle of a label of each length, in the first, a middle or the last one.
	let lens: Vec<usize> = mc.tier(vec![1, 2, 3, 15, 16, 31, 32, 62, 63], (1..=63).collect());
	mc.range("every character, place and length of label", 128 * 3 * 3 * lens.len() as u64, |i, ch| {
		let (c, at, lab, len) = ((i % 128) as u8, i / 128 % 3, (i / 384 % 3) as usize, lens[(i / 1152) as usize]);
		let mut l = vec![b'm'; len];
		l[match at { 0 => 0, 1 => len / 2, _ => len - 1 }] = c;
		let mut v = vec![b"aa".to_vec(), b"b".to_vec(), b"ccc".to_vec()];
		v[lab] = l;
		let s: String = v.iter().map(|l| String::from_utf8(l.clone()).unwrap() + ".").collect();
		ch.note(|| format!("{:?}", s));
		text(&s)?;
		let mut w = Vec::new();
		for l in &v { w.push(l.len() as u8); w.extend(l); }
		w.push(0);
		wire_name(&w)
	});
	mc.range("label lengths", 67 * 67 * 3, |i, ch| {
		let (a, b, c) = ((i % 67) as usize, (i / 67 % 67) as usize, (i / 67 / 67) as usize);
		let s = [long(&[a, b]), long(&[a, b, 63, 63]), long(&[3, a, 62, b, 61])][c].clone();
		ch.note(|| s.clone());
		text(&s)
	});
	mc.range("total lengths", 4 * 270, |i, ch| {
		let (shape, n) = (i % 4, 1 + (i / 4) as usize);
		let s = match shape {
			0 => { let mut s = long(&vec![1; n / 2]); if n % 2 == 1 { s.insert(0, 'x'); } s },
			1 => { let mut v = vec![63; n / 64]; if n % 64 > 1 { v.push(n % 64 - 1); } long(&v) },
			2 => { let mut v = vec![7; n / 8]; if n % 8 > 1 { v.insert(0, n % 8 - 1); } long(&v) },
			_ => { let mut s = "\\.".repeat(n / 2); if n % 2 == 1 { s.push_str("x"); } s },
		};
		ch.note(|| format!("{} bytes: {}", s.len(), s));
		text(&s)
	});
	// Distinct names have distinct wire forms.
	let seen: Mutex<HashMap<Vec<u8>, String>> = Mutex::new(HashMap::new());
	let small: Vec<char> = "aA.\\*".chars().collect();
	for len in 1..=mc.tier(6u32, 8) {
		mc.range(&format!("distinct wire forms, {} characters", len), 5u64.pow(len), |i, ch| {
			let s: String = (0..len).map(|j| small[(i / 5u64.pow(j) % 5) as usize]).collect();
			ch.note(|| format!("{:?}", s));
			let n = match Name::try_from(s.as_str()) { Ok(n) => n, Err(()) => return Ok("rejected text") };
			let mut o = Vec::new();
			write_rr(&A { name: n.clone(), address: [0; 4] }, 0, &mut o);
			let mut g = seen.lock().unwrap();
			let other = g.entry(o).or_insert_with(|| n.as_str().to_string());
			if *other != n.as_str() { return bad("ambiguous", format!("{:?} and {:?} have the same wire form", other, n.as_str())); }
			Ok("distinct")
		});
	}
	// The wire.
	let wl = [0u8, 1, 2, 3, b'a', b'Z', b'.', b'"', b' ', 0x3f, 0x40, 0xc0, 0xe9, 0x7f];
	let k = wl.len() as u64;
	for len in 0..=mc.tier(6u32, 7) {
		mc.range(&format!("all wire names of {} bytes", len), k.pow(len), |i, ch| {
			let b: Vec<u8> = (0..len).map(|j| wl[(i / k.pow(j) % k) as usize]).collect();
			ch.note(|| hex(&b));
			wire_name(&b)
		});
	}
	mc.range("every byte in a wire label", 256 * 4, |i, ch| {
		let (b, p) = (i as u8, i / 256);
		ch.note(|| format!("byte {:#x}, place {}", b, p));
		wire_name(&match p { 0 => vec![1, b, 0], 1 => vec![3, b'a', b, b'b', 1, b'c', 0], 2 => vec![1, b'a', 2, b'b', b, 0], _ => vec![b, b'a', 0] })
	});
	mc.range("UTF-8 in a wire label", 0x11000, |i, _| {
		let c = match char::from_u32(i as u32) { Some(c) => c.to_string().into_bytes(), None => return Ok("not a character") };
		let mut b = vec![c.len() as u8 + 1, b'a'];
		b.extend_from_slice(&c);
		b.push(0);
		wire_name(&b)
	});
	mc.range("wire label lengths", 70 * 70, |i, ch| {
		let (a, c) = ((i % 70) as usize, (i / 70) as usize);
		ch.note(|| format!("labels of {} and {} bytes", a, c));
		for pre in [&[][..], &[63, 63][..], &[63, 62, 61][..]] {
			let mut b = Vec::new();
			for l in pre.iter().copied().chain([a, c]) { b.push(l as u8); b.extend(std::iter::repeat(b'x').take(l)); }
			b.push(0);
			wire_name(&b)?;
		}
		Ok("ok")
	});
	mc.range("wire name total lengths", 140, |i, ch| {
		let n = 120 + i as usize;
		ch.note(|| format!("{} bytes", n));
		for l in [1usize, 2, 63] {
			let mut b = Vec::new();
			while b.len() + 1 < n { let k = l.min(n - b.len() - 1); if k == 0 { break; } b.push(k as u8); b.extend(std::iter::repeat(b'y').take(k)); }
			b.push(0);
			wire_name(&b)?;
		}
		Ok("ok")
	});
	// Compression.
	let q = Nm::new("a.bc.d.").wire();
	mc.range("a pointer to every offset", 0x4000, |i, ch| {
		ch.note(|| format!("pointer to offset {}", i));
		let p = vec![0xc0 | (i >> 8) as u8, i as u8];
		let mut lab = vec![2, b'x', b'Y'];
		lab.extend_from_slice(&p);
		let m = response(&q, &[(p.clone(), Nm::new("t.").wire()), (lab, p)]);
		let backward_label_start = [12u64, 14, 17, 19].contains(&i);
		resp(&m, backward_label_start)
	});
	mc.range("pointers deep in a long message", 0x4000, |i, ch| {
		// The target name sits at offset i; the pointer follows it.
		let at = i as usize;
		if at < 12 + 3 + 4 + 12 + 40 { return Ok("too early"); }
		ch.note(|| format!("name at offset {}", at));
		let mut m = response(&Nm::new("q.").wire(), &[]);
		m[7] = 2;
		// A TXT-free filler record: a TLSA whose data reaches up to the target.
		m.extend_from_slice(&[0, 0, 52, 0, 1, 0, 0, 0, 9]);
		let len = at - m.len() - 2 + 5;
		m.extend_from_slice(&(len as u16).to_be_bytes());
		m.resize(at, 7);
		m.extend_from_slice(&[1, b'z', 1, b'y', 0]);
		m.extend_from_slice(&[1, b'w', 0xc0 | (i >> 8) as u8, i as u8, 0, 5, 0, 1, 0, 0, 0, 7, 0, 2, 0xc0 | (i + 2 >> 8) as u8, (i + 2) as u8]);
		resp(&m, i + 2 < 0x4000)
	});
	mc.range("chains of pointers", 260, |n, ch| {
		ch.note(|| format!("{} pointers, one label each", n));
		// Name k is label + pointer to name k-1; all of them are CNAME targets.
		let mut m = response(&Nm::new("q.").wire(), &[]);
		m[6] = (n + 1 >> 8) as u8; m[7] = (n + 1) as u8;
		let mut prev = None;
		for k in 0..=n {
			m.extend_from_slice(&[0, 0, 5, 0, 1, 0, 0, 0, 7]);
			let mut t = vec![1, b'a' + (k % 26) as u8];
			match prev { None => t.push(0), Some(p) => t.extend_from_slice(&(0xc000 | p as u16).to_be_bytes()) }
			m.extend_from_slice(&(t.len() as u16).to_be_bytes());
			prev = Some(m.len());
			m.extend_from_slice(&t);
		}
		resp(&m, n <= 126)
	});
	// All short byte strings with pointers as an owner name, at a known offset.
	let at = 12 + q.len() as u8 + 4;
	let pl = [0u8, 1, b'a', 0xc0, 12, 14, at, at + 1, at + 2, 0xff, 0x80];
	let k = pl.len() as u64;
	for len in 1..=mc.tier(6u32, 7) {
		mc.range(&format!("all compressed names of {} bytes", len), k.pow(len), |i, ch| {
			let b: Vec<u8> = (0..len).map(|j| pl[(i / k.pow(j) % k) as usize]).collect();
			ch.note(|| hex(&b));
			resp(&response(&q, &[(b.clone(), Nm::new("t.").wire())]), false)?;
			resp(&response(&q, &[(Nm::new("t.").wire(), b)]), false)
		});
	}
	// Honest compression of pairs of names says the same as none.
	let names: Vec<Nm> = [".", "a.", "b.", "a.a.", "b.a.", "c.b.a.", "ab.", "a.b.", "*.a.", "a.b.c.d.e.f."].iter().map(|s| Nm::new(s)).collect();
	let k = names.len() as u64;
	mc.range("compressed like uncompressed", k * k * k * 3, |i, ch| {
		let pick = |j: u32| &names[(i / k.pow(j) % k) as usize];
		let mode = [Compress::None, Compress::Owner, Compress::All][(i / k / k / k) as usize];
		let recs = vec![Rec::new(pick(1), CNAME, 5, pick(2).wire()), Rec::new(pick(2), NS, 5, pick(0).wire()), Rec::new(pick(0), DNAME, 5, pick(1).wire()), Rec::new(pick(1), A, 5, vec![1, 2, 3, 4])];
		ch.note(|| format!("{:?} {:?}", mode, recs));
		let mut w = MsgWriter::new(0, 0x81a0, [1, 4, 0, 0], mode);
		w.question(pick(0), 16, 1);
		for r in &recs { w.record(r); }
		match glue::taken(&w.out) {
			Ok(Some((p, 5))) if p == stream(&recs) => Ok("decoded"),
			r => bad("compressed", format!("{:?} with compression {:?} is read as {:?}", recs, mode, r.map(|o| o.map(|(p, t)| (strict_stream(&p), t))))),
		}
	});
	mc.finish()
}
