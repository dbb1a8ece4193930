//! C13: what is written parses back, byte for byte as our own encoder has it.
use dnssec_prover::rr::*;
use dnssec_prover::ser::{parse_rr_stream, write_rr};
use glue::samples::*;
use model::wire::*;
use model::*;

/// Writes through the concrete type rather than the enum.
fn write_concrete(r: &RR, ttl: u32, o: &mut Vec<u8>) {
	match r {
		RR::A(r) => write_rr(r, ttl, o), RR::AAAA(r) => write_rr(r, ttl, o), RR::NS(r) => write_rr(r, ttl, o), RR::Txt(r) => write_rr(r, ttl, o),
		RR::TLSA(r) => write_rr(r, ttl, o), RR::CName(r) => write_rr(r, ttl, o), RR::DName(r) => write_rr(r, ttl, o), RR::DnsKey(r) => write_rr(r, ttl, o),
		RR::DS(r) => write_rr(r, ttl, o), RR::RRSig(r) => write_rr(r, ttl, o), RR::NSec(r) => write_rr(r, ttl, o), RR::NSec3(r) => write_rr(r, ttl, o),
	}
}
fn one(r: &RR, ttl: u32) -> Result<(), Bad> {
	let mut w = glue::rec_of(r);
	w.ttl = ttl;
	let want = stream(&[w.clone()]);
	let mut o = vec![0xaa];
	write_rr(r, ttl, &mut o);
	if o[0] != 0xaa || o[1..] != want[..] { return bad(format!("encoding type {}", w.ty), format!("{:?} with TTL {} is written as {}", w, ttl, hex(&o[1..o.len().min(300)]))); }
	let mut c = Vec::new();
	write_concrete(r, ttl, &mut c);
	if c != want { return bad(format!("concrete type {}", w.ty), format!("{:?} is written differently by its own type", w)); }
	match parse_rr_stream(&want).as_deref() {
		Ok([p]) if p == r && glue::rec_of(p) == glue::rec_of(r) => {},
		p => return bad(format!("parsing type {}", w.ty), format!("{:?} parses to {}", w, match p { Ok(v) => format!("{:?}", v.iter().map(glue::rec_of).collect::<Vec<_>>()), _ => "an error".into() })),
	}
	if Record::ty(r) != w.ty || glue::nm(Record::name(r)) != w.name { return bad("accessors", format!("ty() or name() of {:?}", w)); }
	Ok(())
}

fn main() {
	let mc = Mc::new("C13");
	let u = records(true);
	let n = u.len();
	let ttls = [0u32, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, u32::MAX];
	mc.measured("records", n);
	mc.range("single records and TTLs", (n * ttls.len()) as u64, |i, ch| {
		let (r, t) = (&u[i as usize % n], ttls[i as usize / n]);
		ch.note(|| format!("{:?} TTL {}", glue::rec_of(r), t));
		one(r, t)?;
		Ok("round trip")
	});
	let small = records(false);
	let enc: Vec<Vec<u8>> = small.iter().map(|r| stream(&[glue::rec_of(r)])).collect();
	// The whole universe is too large for triples: take every type's first records.
	let mut pick: Vec<usize> = Vec::new();
	for t in TYPES { pick.extend((0..small.len()).filter(|i| Record::ty(&small[*i]) == t).take(mc.tier(4, 8))); }
	let seq = |idx: &[usize]| -> Res {
		let mut o = Vec::new();
		for k in idx { write_rr(&small[*k], 0, &mut o); }
		let want: Vec<u8> = idx.iter().flat_map(|k| enc[*k].iter().copied()).collect();
		if o != want { return bad("sequence encoding", "a sequence is not the concatenation of its records"); }
		match parse_rr_stream(&o) {
			Ok(v) if v.len() == idx.len() && v.iter().zip(idx).all(|(a, k)| *a == small[*k]) => Ok("round trip"),
			_ => bad("sequence", format!("the sequence {:?} does not parse back", idx.iter().map(|k| glue::rec_of(&small[*k])).collect::<Vec<_>>())),
		}
	};
	let (m, k) = (small.len() as u64, pick.len() as u64);
	mc.range("all pairs", m * m, |i, ch| {
		let idx = [(i % m) as usize, (i / m) as usize];
		ch.note(|| format!("{:?}", idx.iter().map(|k| glue::rec_of(&small[*k])).collect::<Vec<_>>()));
		seq(&idx)
	});
	mc.range("triples", k * k * k, |i, ch| {
		let idx = [pick[(i % k) as usize], pick[(i / k % k) as usize], pick[(i / k / k) as usize]];
		ch.note(|| format!("{:?}", idx.iter().map(|k| glue::rec_of(&small[*k])).collect::<Vec<_>>()));
		seq(&idx)
	});
	mc.range("long sequences", 300, |i, ch| {
		ch.note(|| format!("{} records", i));
		seq(&(0..i as usize).map(|j| (j * 7 + i as usize) % small.len()).collect::<Vec<_>>())
	});
	// Every length of the variable-length fields, and every value of the fixed ones.
	mc.range("every TXT length", mc.tier(2200, 65279), |i, ch| {
		ch.note(|| format!("TXT of {} bytes", i));
		one(&Txt { name: name("t."), data: (0..i).map(|j| (j * 3 + i) as u8).collect() }.into(), 7)?;
		Ok("round trip")
	});
	mc.range("every salt and hash length", 65536, |i, ch| {
		ch.note(|| format!("salt {} hash {}", i & 255, i >> 8));
		let r = RR::from(NSec3 { name: name("t."), hash_algo: 1, flags: 0, hash_iterations: i as u16, salt: vec![1; (i & 255) as usize], next_name_hash: vec![2; (i >> 8) as usize], types: NSecTypeMask::from_types(&[1]) });
		let mut o = Vec::new();
		write_rr(&r, 0, &mut o);
		let w = stream(&[Rec::new(&Nm::new("t."), NSEC3, 0, nsec3_rdata(1, 0, i as u16, &vec![1; (i & 255) as usize], &vec![2; (i >> 8) as usize], &[1]))]);
		if o != w { return bad("encoding type 50", "NSEC3 with odd lengths"); }
		match parse_rr_stream(&o).as_deref() { Ok([p]) if *p == r => Ok("round trip"), _ => bad("parsing type 50", "NSEC3 with odd lengths does not parse back") }
	});
	mc.range("every 16-bit field value", 65536, |i, ch| {
		let x = i as u16;
		ch.note(|| format!("value {}", x));
		let (b, c) = ((x >> 8) as u8, x as u8);
		one(&DnsKey { name: name("t."), flags: x, protocol: b, alg: c, pubkey: vec![b, c] }.into(), i as u32)?;
		one(&DS { name: name("t."), key_tag: x, alg: b, digest_type: c, digest: vec![c, b] }.into(), (i as u32) << 16)?;
		one(&RRSig { name: name("t."), ty: x, alg: b, labels: c, orig_ttl: (x as u32) << 16 | 1, expiration: x as u32, inception: !(x as u32), key_tag: x, key_name: name("t."), signature: vec![b] }.into(), 1)?;
		one(&TLSA { name: name("t."), cert_usage: b, selector: c, data_ty: b ^ c, data: vec![b] }.into(), 1)?;
		Ok("round trip")
	});
	mc.finish()
}
