//! DNS names, records and messages on the wire: an encoder and a decoder of our own.

use std::cmp::Ordering;
use std::fmt;

pub const A: u16 = 1;
pub const NS: u16 = 2;
pub const CNAME: u16 = 5;
pub const SOA: u16 = 6;
pub const TXT: u16 = 16;
pub const AAAA: u16 = 28;
pub const DNAME: u16 = 39;
pub const OPT: u16 = 41;
pub const DS: u16 = 43;
pub const RRSIG: u16 = 46;
pub const NSEC: u16 = 47;
pub const DNSKEY: u16 = 48;
pub const NSEC3: u16 = 50;
pub const TLSA: u16 = 52;
/// The twelve record types the library knows.
pub const TYPES: [u16; 12] = [A, AAAA, NS, TXT, TLSA, CNAME, DNAME, DNSKEY, DS, RRSIG, NSEC, NSEC3];

/// The types of data that proofs return.
pub const DATA: [u16; 7] = [A, AAAA, NS, TXT, TLSA, CNAME, DNAME];
/// Some data of a type (of one of those); different ones for different `i`.
pub fn sample(ty: u16, i: u8) -> Vec<u8> {
	match ty {
		A => vec![i; 4], AAAA => vec![i; 16], TXT => txt_rdata(&[i; 7]), TLSA => tlsa_rdata(3, 1, 1, &[i; 32]),
		NS | CNAME | DNAME => Nm::new(&format!("n{}.net.", i)).wire(),
		_ => unreachable!(),
	}
}

pub fn type_name(t: u16) -> String {
	match t {
		A => "A".into(), NS => "NS".into(), CNAME => "CNAME".into(), SOA => "SOA".into(), TXT => "TXT".into(), AAAA => "AAAA".into(),
		DNAME => "DNAME".into(), DS => "DS".into(), RRSIG => "RRSIG".into(), NSEC => "NSEC".into(), DNSKEY => "DNSKEY".into(),
		NSEC3 => "NSEC3".into(), TLSA => "TLSA".into(), t => format!("TYPE{}", t),
	}
}

/// A name as a list of labels, leftmost first; the root has none.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Nm(pub Vec<Vec<u8>>);
impl Nm {
	pub fn root() -> Nm { Nm(Vec::new()) }
	/// From text: labels separated by dots, final dot optional; the bytes are lower-cased.
	pub fn new(s: &str) -> Nm {
		let s = s.strip_suffix('.').unwrap_or(s);
		if s.is_empty() { return Nm::root(); }
		Nm(s.split('.').map(|l| l.to_ascii_lowercase().into_bytes()).collect())
	}
	pub fn wire(&self) -> Vec<u8> {
		let mut o = Vec::with_capacity(self.0.iter().map(|l| l.len() + 1).sum::<usize>() + 1);
		for l in &self.0 { o.push(l.len() as u8); o.extend_from_slice(l); }
		o.push(0);
		o
	}
	pub fn lower(&self) -> Nm { Nm(self.0.iter().map(|l| l.to_ascii_lowercase()).collect()) }
	pub fn text(&self) -> String {
		if self.0.is_empty() { return ".".into(); }
		let mut s = String::new();
		for l in &self.0 { for b in l { s.push(*b as char); } s.push('.'); }
		s
	}
	pub fn labels(&self) -> usize { self.0.len() }
	/// At or below `zone`, label by label.
	pub fn within(&self, zone: &Nm) -> bool {
		self.0.len() >= zone.0.len() && self.0[self.0.len() - zone.0.len()..] == zone.0[..]
	}
	pub fn below(&self, zone: &Nm) -> bool { self.0.len() > zone.0.len() && self.within(zone) }
	pub fn parent(&self) -> Option<Nm> { if self.0.is_empty() { None } else { Some(Nm(self.0[1..].to_vec())) } }
	pub fn child(&self, label: &str) -> Nm { let mut v = vec![label.as_bytes().to_vec()]; v.extend(self.0.iter().cloned()); Nm(v) }
	/// `self` prepended to `suffix`.
	pub fn join(&self, suffix: &Nm) -> Nm { let mut v = self.0.clone(); v.extend(suffix.0.iter().cloned()); Nm(v) }
	/// The last `n` labels.
	pub fn trailing(&self, n: usize) -> Nm { Nm(self.0[self.0.len() - n..].to_vec()) }
	pub fn is_wild(&self) -> bool { self.0.first().map(|l| l == b"*").unwrap_or(false) }
	pub fn wild(&self) -> Nm { self.child("*") }
	/// Canonical DNS name order (RFC 4034 section 6.1), on lower-case names.
	pub fn canon_cmp(&self, o: &Nm) -> Ordering { self.0.iter().rev().cmp(o.0.iter().rev()) }
	/// The proper ancestors from the parent up to and including `zone`.
	pub fn ancestors_to(&self, zone: &Nm) -> Vec<Nm> {
		let mut r = Vec::new();
		let mut n = self.clone();
		while n.labels() > zone.labels() { n = n.parent().unwrap(); r.push(n.clone()); }
		r
	}
}
impl fmt::Debug for Nm { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.text()) } }
impl fmt::Display for Nm { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.text()) } }

/// A resource record of class IN; names inside `rdata` are uncompressed.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rec { pub name: Nm, pub ty: u16, pub ttl: u32, pub rdata: Vec<u8> }
impl Rec {
	pub fn new(name: &Nm, ty: u16, ttl: u32, rdata: Vec<u8>) -> Rec { Rec { name: name.clone(), ty, ttl, rdata } }
	pub fn write(&self, o: &mut Vec<u8>) {
		o.extend_from_slice(&self.name.wire());
		o.extend_from_slice(&self.ty.to_be_bytes());
		o.extend_from_slice(&1u16.to_be_bytes());
		o.extend_from_slice(&self.ttl.to_be_bytes());
		o.extend_from_slice(&(self.rdata.len() as u16).to_be_bytes());
		o.extend_from_slice(&self.rdata);
	}
	/// Equal up to TTL, which a proof stream does not authenticate.
	pub fn same(&self, o: &Rec) -> bool { self.name == o.name && self.ty == o.ty && self.rdata == o.rdata }
	pub fn rrsig(&self) -> Option<SigInfo> { if self.ty == RRSIG { SigInfo::parse(&self.rdata) } else { None } }
}
impl fmt::Debug for Rec {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{} {}", self.name, type_name(self.ty))?;
		match self.ty {
			RRSIG => if let Some(s) = SigInfo::parse(&self.rdata) {
				return write!(f, "({} alg{} labels{} ttl{} inc{} exp{} tag{} by {} sig{}B)", type_name(s.covered), s.alg, s.labels, s.orig_ttl, s.inception, s.expiration, s.tag, s.signer, s.sig.len());
			},
			DNSKEY if self.rdata.len() >= 4 => return write!(f, "(flags{} proto{} alg{} tag{})", u16::from_be_bytes([self.rdata[0], self.rdata[1]]), self.rdata[2], self.rdata[3], key_tag(&self.rdata)),
			DS if self.rdata.len() >= 4 => return write!(f, "(tag{} alg{} digest-type{})", u16::from_be_bytes([self.rdata[0], self.rdata[1]]), self.rdata[2], self.rdata[3]),
			CNAME | DNAME | NS => if let Ok((n, _)) = read_name(&self.rdata, 0) { return write!(f, "->{}", n); },
			NSEC => if let Ok((n, _)) = read_name(&self.rdata, 0) { return write!(f, "->{}", n); },
			_ => {},
		}
		if self.rdata.len() <= 20 { write!(f, "[{}]", hex(&self.rdata)) } else { write!(f, "[{}..{}B]", hex(&self.rdata[..12]), self.rdata.len()) }
	}
}
pub fn stream(recs: &[Rec]) -> Vec<u8> { let mut o = Vec::new(); for r in recs { r.write(&mut o); } o }
pub fn hex(b: &[u8]) -> String { b.iter().map(|b| format!("{:02x}", b)).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

/// RFC 4034 appendix B.
pub fn key_tag(rdata: &[u8]) -> u16 {
	let mut ac: u32 = 0;
	for (i, b) in rdata.iter().enumerate() { ac += if i & 1 == 1 { *b as u32 } else { (*b as u32) << 8 }; }
	ac += ac >> 16 & 0xffff;
	ac as u16
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SigInfo { pub covered: u16, pub alg: u8, pub labels: u8, pub orig_ttl: u32, pub expiration: u32, pub inception: u32, pub tag: u16, pub signer: Nm, pub sig: Vec<u8> }
impl SigInfo {
	pub fn rdata(&self) -> Vec<u8> {
		let mut o = self.rdata_unsigned();
		o.extend_from_slice(&self.sig);
		o
	}
	pub fn rdata_unsigned(&self) -> Vec<u8> {
		let mut o = Vec::new();
		o.extend_from_slice(&self.covered.to_be_bytes());
		o.push(self.alg);
		o.push(self.labels);
		o.extend_from_slice(&self.orig_ttl.to_be_bytes());
		o.extend_from_slice(&self.expiration.to_be_bytes());
		o.extend_from_slice(&self.inception.to_be_bytes());
		o.extend_from_slice(&self.tag.to_be_bytes());
		o.extend_from_slice(&self.signer.wire());
		o
	}
	pub fn parse(r: &[u8]) -> Option<SigInfo> {
		if r.len() < 18 { return None; }
		let (signer, at) = read_name(r, 18).ok()?;
		let u32at = |i: usize| u32::from_be_bytes([r[i], r[i + 1], r[i + 2], r[i + 3]]);
		Some(SigInfo {
			covered: u16::from_be_bytes([r[0], r[1]]), alg: r[2], labels: r[3], orig_ttl: u32at(4), expiration: u32at(8), inception: u32at(12),
			tag: u16::from_be_bytes([r[16], r[17]]), signer, sig: r[at..].to_vec(),
		})
	}
}

/// Character strings of at most 255 bytes each, as an empty or full chunking of `data`.
pub fn txt_rdata(data: &[u8]) -> Vec<u8> {
	if data.is_empty() { return vec![0]; }
	let mut o = Vec::new();
	for c in data.chunks(255) { o.push(c.len() as u8); o.extend_from_slice(c); }
	o
}
pub fn ds_rdata(tag: u16, alg: u8, dt: u8, digest: &[u8]) -> Vec<u8> {
	let mut o = tag.to_be_bytes().to_vec();
	o.push(alg); o.push(dt); o.extend_from_slice(digest);
	o
}
pub fn dnskey_rdata(flags: u16, proto: u8, alg: u8, key: &[u8]) -> Vec<u8> {
	let mut o = flags.to_be_bytes().to_vec();
	o.push(proto); o.push(alg); o.extend_from_slice(key);
	o
}
pub fn tlsa_rdata(u: u8, s: u8, m: u8, d: &[u8]) -> Vec<u8> { let mut o = vec![u, s, m]; o.extend_from_slice(d); o }
/// RFC 4034 section 4.1.2.
pub fn bitmap(types: &[u16]) -> Vec<u8> {
	let mut o = Vec::new();
	for w in 0..256u32 {
		let mut bits = [0u8; 32];
		let mut last = 0;
		for t in types.iter().filter(|t| (**t as u32) >> 8 == w) {
			let low = (*t & 0xff) as usize;
			bits[low / 8] |= 0x80 >> (low % 8);
			last = last.max(low / 8 + 1);
		}
		if last > 0 { o.push(w as u8); o.push(last as u8); o.extend_from_slice(&bits[..last]); }
	}
	o
}
pub fn nsec_rdata(next: &Nm, types: &[u16]) -> Vec<u8> { let mut o = next.wire(); o.extend_from_slice(&bitmap(types)); o }
pub fn nsec3_rdata(algo: u8, flags: u8, iters: u16, salt: &[u8], next: &[u8], types: &[u16]) -> Vec<u8> {
	let mut o = vec![algo, flags];
	o.extend_from_slice(&iters.to_be_bytes());
	o.push(salt.len() as u8); o.extend_from_slice(salt);
	o.push(next.len() as u8); o.extend_from_slice(next);
	o.extend_from_slice(&bitmap(types));
	o
}

/// Reads a possibly compressed name at `at`; returns it (as found, not case-folded) and the
/// position after it. Errors are text.
pub fn read_name(msg: &[u8], at: usize) -> Result<(Nm, usize), String> {
	let mut labels = Vec::new();
	let (mut i, mut end, mut hops, mut total) = (at, None, 0, 0);
	loop {
		let l = *msg.get(i).ok_or("name runs off the end")? as usize;
		match l {
			0 => { if end.is_none() { end = Some(i + 1); } return Ok((Nm(labels), end.unwrap())); },
			1..=63 => {
				if i + 1 + l > msg.len() { return Err("label runs off the end".into()); }
				labels.push(msg[i + 1..i + 1 + l].to_vec());
				total += l + 1;
				if total > 300 { return Err("name too long".into()); }
				i += 1 + l;
			},
			0xc0..=0xff => {
				let o = ((l & 0x3f) << 8) | *msg.get(i + 1).ok_or("pointer runs off the end")? as usize;
				if end.is_none() { end = Some(i + 2); }
				hops += 1;
				if hops > 300 { return Err("pointer loop".into()); }
				i = o;
			},
			_ => return Err("bad label type".into()),
		}
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Question { pub name: Nm, pub ty: u16, pub class: u16 }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RawRec { pub name: Nm, pub ty: u16, pub class: u16, pub ttl: u32, pub rdata: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg { pub id: u16, pub flags: u16, pub q: Vec<Question>, pub an: Vec<RawRec>, pub ns: Vec<RawRec>, pub ar: Vec<RawRec> }
/// Decodes a message; the whole input must be used. (RDATA is returned as is.)
pub fn decode(m: &[u8]) -> Result<Msg, String> {
	if m.len() < 12 { return Err("short header".into()); }
	let u16at = |i: usize| -> Result<u16, String> { if i + 2 > m.len() { Err("short".to_string()) } else { Ok(u16::from_be_bytes([m[i], m[i + 1]])) } };
	let mut i = 12;
	let mut msg = Msg { id: u16at(0)?, flags: u16at(2)?, q: vec![], an: vec![], ns: vec![], ar: vec![] };
	for _ in 0..u16at(4)? {
		let (name, e) = read_name(m, i)?;
		msg.q.push(Question { name, ty: u16at(e)?, class: u16at(e + 2)? });
		i = e + 4;
	}
	for (k, at) in [(0, 6), (1, 8), (2, 10)] {
		for _ in 0..u16at(at)? {
			let (name, e) = read_name(m, i)?;
			let (ty, class, hi, lo, len) = (u16at(e)?, u16at(e + 2)?, u16at(e + 4)?, u16at(e + 6)?, u16at(e + 8)? as usize);
			i = e + 10;
			if i + len > m.len() { return Err("rdata runs off the end".into()); }
			let r = RawRec { name, ty, class, ttl: (hi as u32) << 16 | lo as u32, rdata: m[i..i + len].to_vec() };
			i += len;
			match k { 0 => msg.an.push(r), 1 => msg.ns.push(r), _ => msg.ar.push(r) }
		}
	}
	if i != m.len() { return Err(format!("{} trailing bytes", m.len() - i)); }
	Ok(msg)
}

/// How a responder compresses names.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Compress { None, Owner, All }

/// Writes messages with name compression.
pub struct MsgWriter { pub out: Vec<u8>, seen: Vec<(Nm, usize)>, mode: Compress }
impl MsgWriter {
	pub fn new(id: u16, flags: u16, counts: [u16; 4], mode: Compress) -> Self {
		let mut out = Vec::new();
		out.extend_from_slice(&id.to_be_bytes());
		out.extend_from_slice(&flags.to_be_bytes());
		for c in counts { out.extend_from_slice(&c.to_be_bytes()); }
		MsgWriter { out, seen: Vec::new(), mode }
	}
	fn name(&mut self, n: &Nm, compress: bool) {
		let mut cur = n.clone();
		loop {
			if cur.labels() == 0 { self.out.push(0); return; }
			if compress && self.mode != Compress::None {
				if let Some((_, o)) = self.seen.iter().find(|(s, _)| *s == cur) {
					self.out.extend_from_slice(&(0xc000 | *o as u16).to_be_bytes());
					return;
				}
			}
			if self.out.len() < 0x3fff { self.seen.push((cur.clone(), self.out.len())); }
			let l = cur.0[0].clone();
			self.out.push(l.len() as u8);
			self.out.extend_from_slice(&l);
			cur = cur.parent().unwrap();
		}
	}
	pub fn question(&mut self, n: &Nm, ty: u16, class: u16) {
		self.name(n, true);
		self.out.extend_from_slice(&ty.to_be_bytes());
		self.out.extend_from_slice(&class.to_be_bytes());
	}
	pub fn record(&mut self, r: &Rec) { self.record_class(r, 1) }
	pub fn record_class(&mut self, r: &Rec, class: u16) {
		self.name(&r.name, true);
		self.out.extend_from_slice(&r.ty.to_be_bytes());
		self.out.extend_from_slice(&class.to_be_bytes());
		self.out.extend_from_slice(&r.ttl.to_be_bytes());
		let at = self.out.len();
		self.out.extend_from_slice(&[0, 0]);
		let in_rdata = self.mode == Compress::All;
		match r.ty {
			CNAME | NS | DNAME => { let (n, _) = read_name(&r.rdata, 0).unwrap(); self.name(&n, in_rdata && r.ty != DNAME || in_rdata); },
			_ => self.out.extend_from_slice(&r.rdata),
		}
		let len = (self.out.len() - at - 2) as u16;
		self.out[at..at + 2].copy_from_slice(&len.to_be_bytes());
	}
}

/// A wire name that text can express: 1 to 63 bytes of printable ASCII without dots or quotes per
/// label, at most 255 characters in all.
pub fn representable(n: &Nm) -> bool {
	n.0.iter().all(|l| (1..=63).contains(&l.len()) && l.iter().all(|b| (0x21..=0x7e).contains(b) && *b != b'.' && *b != b'"')) && n.text().len() <= 255
}
/// What a textual name must look like to be accepted.
pub fn valid_text(s: &str) -> bool {
	if !s.ends_with('.') || s.len() > 255 { return false; }
	if !s.bytes().all(|b| (0x21..=0x7e).contains(&b) && b != b'"') { return false; }
	s == "." || s[..s.len() - 1].split('.').all(|l| (1..=63).contains(&l.len()))
}
fn strict_name(buf: &[u8], at: usize, msg: bool) -> Result<(Nm, usize), String> {
	let (n, e) = read_name(buf, at)?;
	if !msg && buf[at..e] != n.wire()[..] { return Err("compressed name".into()); }
	if !representable(&n) { return Err(format!("name {:?} cannot be represented", n)); }
	Ok((n.lower(), e))
}
/// Decodes one record of a supported type at `at`, insisting that everything is well-formed and
/// that the data fills the declared length. `msg`: names may be compressed, with offsets into `buf`.
/// The result has lower-case uncompressed names, and its TXT data in chunks of 255.
pub fn strict_record(buf: &[u8], at: usize, msg: bool) -> Result<(Rec, usize), String> {
	let (name, e) = strict_name(buf, at, msg)?;
	if buf.len() < e + 10 { return Err("short record header".into()); }
	let u16at = |i: usize| u16::from_be_bytes([buf[i], buf[i + 1]]);
	let (ty, class, ttl, len) = (u16at(e), u16at(e + 2), (u16at(e + 4) as u32) << 16 | u16at(e + 6) as u32, u16at(e + 8) as usize);
	if class != 1 { return Err("not class IN".into()); }
	if !TYPES.contains(&ty) { return Err("unknown type".into()); }
	let (s, end) = (e + 10, e + 10 + len);
	if buf.len() < end { return Err("data runs off the end".into()); }
	let d = &buf[s..end];
	let one_name = || -> Result<Vec<u8>, String> {
		// The name has to end exactly where the data does.
		let (n, ne) = strict_name(if msg { buf } else { &buf[..end] }, s, msg)?;
		if ne != end { return Err("name does not fill the data".into()); }
		Ok(n.wire())
	};
	let rdata = match ty {
		A => { if len != 4 { return Err("A length".into()); } d.to_vec() },
		AAAA => { if len != 16 { return Err("AAAA length".into()); } d.to_vec() },
		NS | CNAME | DNAME => one_name()?,
		TXT => {
			let (mut i, mut all) = (0, Vec::new());
			while i < len {
				let l = d[i] as usize;
				if i + 1 + l > len { return Err("string runs off the end".into()); }
				all.extend_from_slice(&d[i + 1..i + 1 + l]);
				i += 1 + l;
			}
			txt_rdata(&all)
		},
		TLSA => { if len < 3 { return Err("TLSA length".into()); } d.to_vec() },
		DS | DNSKEY => { if len < 4 { return Err("DS/DNSKEY length".into()); } d.to_vec() },
		RRSIG => {
			if len < 19 { return Err("RRSIG length".into()); }
			let (n, ne) = strict_name(if msg { buf } else { &buf[..end] }, s + 18, msg)?;
			if ne > end { return Err("name runs off the data".into()); }
			let mut o = d[..18].to_vec();
			o.extend_from_slice(&n.wire());
			o.extend_from_slice(&buf[ne..end]);
			o
		},
		NSEC => {
			let (n, ne) = strict_name(if msg { buf } else { &buf[..end] }, s, msg)?;
			if ne > end { return Err("name runs off the data".into()); }
			nsec_rdata(&n, &read_bitmap(&buf[ne..end])?)
		},
		_ => {
			if len < 6 { return Err("NSEC3 length".into()); }
			let sl = d[4] as usize;
			if len < 6 + sl { return Err("salt runs off the end".into()); }
			let hl = d[5 + sl] as usize;
			if len < 6 + sl + hl { return Err("hash runs off the end".into()); }
			nsec3_rdata(d[0], d[1], u16::from_be_bytes([d[2], d[3]]), &d[5..5 + sl], &d[6 + sl..6 + sl + hl], &read_bitmap(&d[6 + sl + hl..])?)
		},
	};
	Ok((Rec { name, ty, ttl, rdata }, end))
}
/// A whole stream of records.
pub fn strict_stream(buf: &[u8]) -> Result<Vec<Rec>, String> {
	let (mut at, mut v) = (0, Vec::new());
	while at < buf.len() { let (r, e) = strict_record(buf, at, false)?; v.push(r); at = e; }
	Ok(v)
}
/// The types of an RFC 4034 section 4.1.2 bitmap: windows in increasing order, each of 1 to 32 bytes.
pub fn read_bitmap(mut b: &[u8]) -> Result<Vec<u16>, String> {
	let (mut types, mut last) = (Vec::new(), -1i32);
	while !b.is_empty() {
		if b.len() < 2 { return Err("truncated window".into()); }
		let (w, l) = (b[0], b[1] as usize);
		if w as i32 <= last { return Err("windows out of order".into()); }
		last = w as i32;
		if l == 0 || l > 32 { return Err(format!("window of {} bytes", l)); }
		if b.len() < 2 + l { return Err("truncated window".into()); }
		for (i, x) in b[2..2 + l].iter().enumerate() { for k in 0..8 { if x & (0x80 >> k) != 0 { types.push((w as u16) << 8 | (i * 8 + k) as u16); } } }
		b = &b[2 + l..];
	}
	Ok(types)
}
/// What a proof takes from a resolver response, and its smallest TTL; an error says why the
/// response may not be used.
pub fn strict_response(m: &[u8]) -> Result<(Vec<Rec>, u32), String> {
	if m.len() < 12 { return Err("short header".into()); }
	let u16at = |i: usize| u16::from_be_bytes([m[i], m[i + 1]]);
	if u16at(0) != 0 { return Err("transaction id".into()); }
	let f = u16at(2);
	if f & 0x8000 == 0 { return Err("not a response".into()); }
	if f & 0x7800 != 0 { return Err("not a standard query".into()); }
	if f & 0x0200 != 0 { return Err("truncated".into()); }
	if f & 0x000f != 0 { return Err("response code".into()); }
	if f & 0x0020 == 0 { return Err("not authenticated".into()); }
	if u16at(4) != 1 { return Err("questions".into()); }
	if u16at(6) == 0 { return Err("no answers".into()); }
	let (_, e) = strict_name(m, 12, true)?;
	let mut at = e + 4;
	if at > m.len() { return Err("short question".into()); }
	let (mut v, mut ttl) = (Vec::new(), u32::MAX);
	for k in 0..u16at(6) as usize + u16at(8) as usize {
		let (r, e) = strict_record(m, at, true)?;
		at = e;
		let keep = k < u16at(6) as usize || r.ty == NSEC || r.ty == NSEC3
			|| r.rrsig().map(|s| s.covered == NSEC || s.covered == NSEC3).unwrap_or(false);
		if keep { ttl = ttl.min(r.ttl); v.push(r); }
	}
	Ok((v, ttl))
}
