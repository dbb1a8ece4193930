//! Keys and signatures of the demonstration's zones (Ed25519 from fixed seeds).
use crate::wire::*;
use ring::digest;
use ring::signature::*;
use std::sync::Arc;

pub fn sha1(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA1_FOR_LEGACY_USE_ONLY, b).as_ref().to_vec() }
pub fn sha256(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA256, b).as_ref().to_vec() }
pub fn sha384(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA384, b).as_ref().to_vec() }
#[derive(Clone)]
pub struct Key { pub alg: u8, pub flags: u16, pub proto: u8, pub public: Vec<u8>, kp: Arc<Ed25519KeyPair> }
pub const ZONE: u16 = 0x100;
pub const SEP: u16 = 1;
impl Key {
	pub fn ed(seed: u32, flags: u16) -> Key {
		let mut s = [0x5au8; 32];
		s[..4].copy_from_slice(&seed.to_be_bytes());
		let kp = Ed25519KeyPair::from_seed_unchecked(&s).unwrap();
		Key { alg: 15, flags, proto: 3, public: kp.public_key().as_ref().to_vec(), kp: Arc::new(kp) }
	}
	pub fn rdata(&self) -> Vec<u8> { dnskey_rdata(self.flags, self.proto, self.alg, &self.public) }
	pub fn tag(&self) -> u16 { key_tag(&self.rdata()) }
	pub fn rec(&self, zone: &Nm, ttl: u32) -> Rec { Rec::new(zone, DNSKEY, ttl, self.rdata()) }
	pub fn digest(&self, zone: &Nm, dt: u8) -> Vec<u8> {
		let mut b = zone.wire();
		b.extend_from_slice(&self.rdata());
		match dt { 1 => sha1(&b), 4 => sha384(&b), _ => sha256(&b) }
	}
	pub fn ds(&self, zone: &Nm, dt: u8, ttl: u32) -> Rec { Rec::new(zone, DS, ttl, ds_rdata(self.tag(), self.alg, dt, &self.digest(zone, dt))) }
	pub fn sign(&self, msg: &[u8]) -> Vec<u8> { self.kp.sign(msg).as_ref().to_vec() }
}
impl std::fmt::Debug for Key {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "key {}", self.tag()) }
}
/// Times and TTL of a signature.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Win { pub inception: u32, pub expiration: u32, pub ttl: u32 }
pub const WIN: Win = Win { inception: 1_700_000_000, expiration: 1_800_000_000, ttl: 3600 };

/// The bytes signed for an RRset (RFC 4034 section 3.1.8.1): `owner` is the name in the zone (the
/// wildcard itself for wildcards); rdata in canonical form, sorted, without duplicates.
pub fn signed_bytes(info: &SigInfo, owner: &Nm, rdatas: &[Vec<u8>]) -> Vec<u8> {
	let mut o = info.rdata_unsigned();
	let mut rd: Vec<&Vec<u8>> = rdatas.iter().collect();
	rd.sort();
	rd.dedup();
	for r in rd {
		o.extend_from_slice(&owner.wire());
		o.extend_from_slice(&info.covered.to_be_bytes());
		o.extend_from_slice(&1u16.to_be_bytes());
		o.extend_from_slice(&info.orig_ttl.to_be_bytes());
		o.extend_from_slice(&(r.len() as u16).to_be_bytes());
		o.extend_from_slice(r);
	}
	o
}
/// Signs an RRset owned by `owner` (possibly a wildcard); the signature record itself is placed at `at`.
pub fn sign_set(key: &Key, signer: &Nm, owner: &Nm, at: &Nm, ty: u16, rdatas: &[Vec<u8>], win: Win) -> Rec {
	let labels = owner.labels() - if owner.is_wild() { 1 } else { 0 };
	let mut info = SigInfo {
		covered: ty, alg: key.alg, labels: labels as u8, orig_ttl: win.ttl, expiration: win.expiration, inception: win.inception,
		tag: key.tag(), signer: signer.clone(), sig: Vec::new(),
	};
	info.sig = key.sign(&signed_bytes(&info, owner, rdatas));
	Rec::new(at, RRSIG, win.ttl, info.rdata())
}
/// Signs records that all have one owner and type.
pub fn sign_recs(key: &Key, signer: &Nm, recs: &[Rec], win: Win) -> Rec {
	let rd: Vec<Vec<u8>> = recs.iter().map(|r| r.rdata.clone()).collect();
	sign_set(key, signer, &recs[0].name, &recs[0].name, recs[0].ty, &rd, win)
}

/// RFC 5155 section 5.
pub fn nsec3_hash(name: &Nm, iters: u16, salt: &[u8]) -> Vec<u8> {
	let mut b = name.lower().wire();
	b.extend_from_slice(salt);
	let mut h = sha1(&b);
	for _ in 0..iters { h.extend_from_slice(salt); h = sha1(&h); }
	h
}
/// Base32 with the extended hex alphabet, lower case, no padding.
pub fn base32hex(d: &[u8]) -> String {
	let mut o = String::new();
	let (mut acc, mut bits) = (0u32, 0);
	for b in d {
		acc = acc << 8 | *b as u32;
		bits += 8;
		while bits >= 5 { bits -= 5; o.push(b"0123456789abcdefghijklmnopqrstuv"[(acc >> bits & 31) as usize] as char); }
	}
	if bits > 0 { o.push(b"0123456789abcdefghijklmnopqrstuv"[(acc << (5 - bits) & 31) as usize] as char); }
	o
}

/// The root key-signing key whose DS the hook in the library trusts.
pub fn root_ksk() -> Key { Key::ed(0, ZONE | SEP) }
