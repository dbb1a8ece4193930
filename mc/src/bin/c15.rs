//! C15: NSEC type bitmaps against our own RFC 4034 encoder and decoder.
use dnssec_prover::rr::*;
use dnssec_prover::ser::{parse_rr_stream, write_rr};
use model::wire::*;
use model::*;

fn name(s: &str) -> Name { s.try_into().unwrap() }
fn holds(m: &NSecTypeMask, types: &[u16], how: &str) -> Result<(), Bad> {
	let mut want = vec![false; 65536];
	for t in types { want[*t as usize] = true; }
	for t in 0..=65535u16 {
		if m.contains_type(t) != want[t as usize] { return bad("membership", format!("{}: a mask of {:?} says {} for type {}", how, &types[..types.len().min(20)], m.contains_type(t), t)); }
	}
	Ok(())
}
/// A type set in every representation. `quick`: membership only where it can differ.
fn set(types: &[u16]) -> Result<(), Bad> {
	let m = NSecTypeMask::from_types(types);
	holds(&m, types, "from_types")?;
	let nsec = NSec { name: name("a."), next_name: name("b.a."), types: m.clone() };
	let nsec3 = NSec3 { name: name("0p9mhaveqvm6t7vbl5lop2u3t2rp3tom.a."), hash_algo: 1, flags: 0, hash_iterations: 3, salt: vec![1, 2, 3], next_name_hash: vec![7; 20], types: m.clone() };
	let (w1, w3) = (Rec::new(&Nm::new("a."), NSEC, 5, nsec_rdata(&Nm::new("b.a."), types)),
		Rec::new(&Nm::new("0p9mhaveqvm6t7vbl5lop2u3t2rp3tom.a."), NSEC3, 5, nsec3_rdata(1, 0, 3, &[1, 2, 3], &[7; 20], types)));
	let (mut o1, mut o3) = (Vec::new(), Vec::new());
	write_rr(&nsec, 5, &mut o1);
	write_rr(&nsec3, 5, &mut o3);
	if o1 != stream(&[w1]) { return bad("encoding", format!("an NSEC with types {:?} is written as {}", &types[..types.len().min(20)], hex(&o1[..o1.len().min(200)]))); }
	if o3 != stream(&[w3]) { return bad("encoding", format!("an NSEC3 with types {:?} is written as {}", &types[..types.len().min(20)], hex(&o3[..o3.len().min(200)]))); }
	match (parse_rr_stream(&o1).as_deref(), parse_rr_stream(&o3).as_deref()) {
		(Ok([RR::NSec(a)]), Ok([RR::NSec3(b)])) if *a == nsec && *b == nsec3 => { holds(&a.types, types, "parsed NSEC")?; holds(&b.types, types, "parsed NSEC3") },
		_ => bad("parse", format!("NSEC or NSEC3 with types {:?} does not parse back", &types[..types.len().min(20)])),
	}
}
/// A raw bitmap inside NSEC and NSEC3.
fn raw(b: &[u8]) -> Res {
	let mut r1 = Nm::new("b.").wire();
	r1.extend_from_slice(b);
	let mut r3 = vec![1, 0, 0, 0, 0, 1, 9];
	r3.extend_from_slice(b);
	let (s1, s3) = (stream(&[Rec::new(&Nm::new("a."), NSEC, 0, r1)]), stream(&[Rec::new(&Nm::new("a."), NSEC3, 0, r3)]));
	let (p1, p3) = (parse_rr_stream(&s1), parse_rr_stream(&s3));
	let want = read_bitmap(b);
	let nonminimal = want.as_ref().map(|t| bitmap(t) != b).unwrap_or(false);
	match (p1.as_deref(), p3.as_deref(), want) {
		(Ok([RR::NSec(a)]), Ok([RR::NSec3(c)]), Ok(t)) => { holds(&a.types, &t, "raw NSEC")?; holds(&c.types, &t, "raw NSEC3")?; Ok("well-formed") },
		(Err(()), Err(()), Err(_)) => Ok("malformed"),
		// Windows with superfluous zero bytes may be refused.
		(Err(()), Err(()), Ok(_)) if nonminimal => Ok("superfluous zeros refused"),
		(Err(()), Err(()), Ok(t)) => bad("rejects", format!("the bitmap {} ({:?}) is rejected", hex(b), t)),
		(_, _, Err(e)) => bad("accepts", format!("the malformed bitmap {} ({}) is accepted", hex(&b[..b.len().min(80)]), e)),
		_ => bad("nsec-vs-nsec3", format!("NSEC and NSEC3 disagree on the bitmap {}", hex(b))),
	}
}

fn main() {
	let mc = Mc::new("C15");
	mc.range("every single type", 65536, |i, ch| { ch.note(|| format!("type {}", i)); set(&[i as u16])?; Ok("ok") });
	let crit: Vec<u16> = vec![0, 1, 2, 7, 8, 15, 16, 46, 47, 127, 128, 248, 255, 256, 257, 511, 512, 0x7fff, 0x8000, 0xff00, 0xfff7, 0xfff8, 0xfffe, 0xffff];
	let k = crit.len() as u64;
	for len in 0..=mc.tier(3u32, 4) {
		mc.range(&format!("sequences of {} types", len), k.pow(len), |i, ch| {
			let t: Vec<u16> = (0..len).map(|j| crit[(i / k.pow(j) % k) as usize]).collect();
			ch.note(|| format!("{:?}", t));
			set(&t)?;
			Ok("ok")
		});
	}
	mc.range("every subset of a byte in four windows", 256 * 4 * 4, |i, ch| {
		let (bits, w, p) = (i & 255, [0u64, 1, 128, 255][(i >> 8 & 3) as usize], [0u64, 1, 30, 31][(i >> 10) as usize]);
		let t: Vec<u16> = (0..8).filter(|k| bits >> k & 1 == 1).map(|k| (w << 8 | p << 3 | k) as u16).collect();
		ch.note(|| format!("{:?}", t));
		set(&t)?;
		Ok("ok")
	});
	mc.range("dense masks", 40, |i, ch| {
		ch.note(|| format!("dense mask {}", i));
		let t: Vec<u16> = (0..=65535u16).filter(|t| match i {
			0 => true, 1 => t % 2 == 0, 2 => t % 2 == 1, 3 => t & 0xff == 0, 4 => t & 0xff == 0xff, 5 => *t < 256, 6 => *t >= 0xff00, 7 => (*t as u32 * 40503) >> 7 & 1 == 1,
			i => (*t as u64 * (2 * i + 1)) % 7 < i % 6,
		}).collect();
		set(&t)?;
		Ok("ok")
	});
	mc.range("every window and length", 256 * 256 * 3, |i, ch| {
		let (w, l, fill) = ((i & 255) as u8, (i >> 8 & 255) as u8, [0xffu8, 1, 0x80][(i >> 16) as usize]);
		ch.note(|| format!("window {} of {} bytes {:#x}", w, l, fill));
		let mut b = vec![w, l];
		b.extend(std::iter::repeat(fill).take(l as usize));
		raw(&b)?;
		for cut in [1usize, 2] { if b.len() > cut { let n = b.len() - cut; raw(&b[..n])?; } }
		b.push(0);
		raw(&b)
	});
	mc.range("two windows", 256 * 8 * 8, |i, ch| {
		let (w1, k2, l) = ((i & 255) as u8, (i >> 8 & 7) as usize, (i >> 11) as usize);
		let w2 = [0, w1.wrapping_sub(1), w1, w1.wrapping_add(1), 255, 254, 1, 128][k2];
		let (l1, l2) = [(1, 1), (32, 32), (33, 1), (1, 33), (0, 1), (1, 0), (31, 2), (2, 31)][l];
		ch.note(|| format!("windows {} ({} bytes) and {} ({} bytes)", w1, l1, w2, l2));
		let mut b = vec![w1, l1];
		b.extend(std::iter::repeat(0x41).take(l1 as usize));
		b.push(w2); b.push(l2);
		b.extend(std::iter::repeat(0x21).take(l2 as usize));
		raw(&b)
	});
	let al = [0u8, 1, 2, 3, 32, 33, 255];
	let k = al.len() as u64;
	for len in 0..=mc.tier(6u32, 7) {
		mc.range(&format!("all bitmaps of {} bytes", len), k.pow(len), |i, ch| {
			let b: Vec<u8> = (0..len).map(|j| al[(i / k.pow(j) % k) as usize]).collect();
			ch.note(|| hex(&b));
			raw(&b)
		});
	}
	mc.finish()
}
