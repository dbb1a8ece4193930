//! Keys, digests and signatures of the model world (signing with `ring`, never with the code under test).

use crate::wire::*;
use ring::digest;
use ring::rand::SystemRandom;
use ring::signature::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub fn sha1(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA1_FOR_LEGACY_USE_ONLY, b).as_ref().to_vec() }
pub fn sha256(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA256, b).as_ref().to_vec() }
pub fn sha384(b: &[u8]) -> Vec<u8> { digest::digest(&digest::SHA384, b).as_ref().to_vec() }

enum Signer { Ed(Ed25519KeyPair), Ec(EcdsaKeyPair), Rsa(Box<RsaKeyPair>, bool), RawRsa(Vec<u64>, Vec<u64>, u8), Fake }
/// A key pair of the model. Cheap to clone.
#[derive(Clone)]
pub struct Key { pub alg: u8, pub flags: u16, pub proto: u8, pub public: Vec<u8>, signer: Arc<Signer>, uid: u64 }
pub const ZONE: u16 = 0x100;
pub const SEP: u16 = 1;
pub const REVOKE: u16 = 0x80;

static NEXT_UID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
fn uid() -> u64 { NEXT_UID.fetch_add(1, std::sync::atomic::Ordering::Relaxed) }

/// Key pairs are made once, so that their signatures are too.
fn cached(id: (u8, u8, usize), make: impl FnOnce() -> Key) -> Key {
	static KEYS: OnceLock<Mutex<HashMap<(u8, u8, usize), Key>>> = OnceLock::new();
	let keys = KEYS.get_or_init(Default::default);
	if let Some(k) = keys.lock().unwrap().get(&id) { return k.clone(); }
	let k = make();
	let mut g = keys.lock().unwrap();
	if g.len() > 200_000 { g.clear(); }
	g.entry(id).or_insert(k).clone()
}
impl Key {
	/// An Ed25519 key from a fixed seed.
	pub fn ed(seed: u32, flags: u16) -> Key { cached((1, 15, seed as usize), || Key::new_ed(seed)).with_flags(flags) }
	fn new_ed(seed: u32) -> Key {
		let flags = 0;
		let mut s = [0x5au8; 32];
		s[..4].copy_from_slice(&seed.to_be_bytes());
		let kp = Ed25519KeyPair::from_seed_unchecked(&s).unwrap();
		let public = kp.public_key().as_ref().to_vec();
		Key { alg: 15, flags, proto: 3, public, signer: Arc::new(Signer::Ed(kp)), uid: uid() }
	}
	/// A fixture key of the given algorithm (8, 10: RSA; 13: P-256; 14: P-384; 15: Ed25519).
	/// `n` picks one of several.
	pub fn of_alg(alg: u8, n: usize, flags: u16) -> Key { cached((0, alg, n), || Key::new_of_alg(alg, n)).with_flags(flags) }
	fn new_of_alg(alg: u8, n: usize) -> Key {
		let flags = 0;
		match alg {
			13 | 14 => {
				let fx: &[&[u8]] = if alg == 13 { &[include_bytes!("../fixtures/p256-0.der"), include_bytes!("../fixtures/p256-1.der")] }
					else { &[include_bytes!("../fixtures/p384-0.der"), include_bytes!("../fixtures/p384-1.der")] };
				let a = if alg == 13 { &ECDSA_P256_SHA256_FIXED_SIGNING } else { &ECDSA_P384_SHA384_FIXED_SIGNING };
				let kp = EcdsaKeyPair::from_pkcs8(a, fx[n % 2], &SystemRandom::new()).expect("ECDSA fixture");
				let public = kp.public_key().as_ref()[1..].to_vec();
				Key { alg, flags, proto: 3, public, signer: Arc::new(Signer::Ec(kp)), uid: uid() }
			},
			8 | 10 => {
				let fx: &[&[u8]] = &[include_bytes!("../fixtures/rsa2048-0.der"), include_bytes!("../fixtures/rsa2048-1.der"), include_bytes!("../fixtures/rsa4096-0.der")];
				let kp = RsaKeyPair::from_pkcs8(fx[n % 3]).expect("RSA fixture");
				let (n, e) = ring::mc::rsa_public(&kp);
				let c = RsaPub { n, e };
				Key { alg, flags, proto: 3, public: c.dns(false), signer: Arc::new(Signer::Rsa(Box::new(kp), alg == 10)), uid: uid() }
			},
			15 => Key::ed(0x1500 + n as u32, flags),
			// An algorithm nobody here supports: deterministic bytes stand in for key and signature.
			a => Key { alg: a, flags, proto: 3, public: (0..32).map(|i| (i as u8).wrapping_mul(a).wrapping_add(n as u8)).collect(), signer: Arc::new(Signer::Fake), uid: uid() },
		}
	}
	/// RSA keys `ring` verifies with but does not sign with (algorithms 5 and 7 sign with SHA-1): 0: 1024 bits, 1: 1024 bits and e=3, 2: 2048 bits and e=3, 3: 3072 bits, 4: 8192 bits, 5: 1536 bits and e=17, 6: 2048 bits and e=2^32+1.
	pub fn raw_rsa(alg: u8, n: usize, flags: u16) -> Key { cached((2, alg, n), || Key::new_raw_rsa(alg, n)).with_flags(flags) }
	fn new_raw_rsa(alg: u8, n: usize) -> Key {
		let flags = 0;
		let line = include_str!("../fixtures/rsa-raw.txt").lines().nth(n).unwrap();
		let p: Vec<Vec<u8>> = line.split(' ').map(|h| if h.len() % 2 == 1 { unhex(&format!("0{}", h)) } else { unhex(h) }).collect();
		let public = RsaPub { n: p[0].clone(), e: p[1].clone() }.dns(false);
		Key { alg, flags, proto: 3, public, signer: Arc::new(Signer::RawRsa(limbs(&p[0]), limbs(&p[2]), alg)), uid: uid() }
	}
	pub fn with_flags(&self, flags: u16) -> Key { let mut k = self.clone(); k.flags = flags; k }
	pub fn with_proto(&self, proto: u8) -> Key { let mut k = self.clone(); k.proto = proto; k }
	/// The same key pair announced under another algorithm number.
	pub fn with_alg(&self, alg: u8) -> Key { let mut k = self.clone(); k.alg = alg; k }
	/// A zone key of the attacker's that has the given key tag (by choice of the unused flags).
	pub fn colliding(seed: u32, tag: u16) -> Key {
		for s in 0.. {
			let k = Key::ed(seed + s * 7919, ZONE);
			for f in 0..=65535u16 { if f & ZONE != 0 && f & (SEP | REVOKE) == 0 { let c = k.with_flags(f); if c.tag() == tag { return c; } } }
		}
		unreachable!()
	}
	/// Keys of all kinds that a signature by the second one cannot be confused with, although they
	/// share its key tag: another algorithm, another protocol, no zone key.
	pub fn lookalikes() -> Vec<(Key, Key)> {
		let mut v: Vec<Key> = [5u8, 8, 10, 13, 14, 16, 253].iter().map(|a| Key::of_alg(if *a == 5 { 8 } else { *a }, 0, ZONE | SEP).with_alg(*a)).collect();
		v.push(Key::of_alg(13, 1, ZONE));
		v.push(Key::ed(0x7a60, ZONE | SEP).with_proto(2));
		v.push(Key::ed(0x7a61, SEP));
		v.push(Key::ed(0x7a62, 0));
		v.into_iter().enumerate().map(|(i, k)| { let real = Key::colliding(0x7b00 + i as u32, k.tag()); (k, real) }).collect()
	}
	/// The RSA key with its exponent length in the three-byte form.
	pub fn rsa_long_exponent(&self) -> Key {
		let mut k = self.clone();
		let el = k.public[0] as usize;
		let c = RsaPub { e: k.public[1..1 + el].to_vec(), n: k.public[1 + el..].to_vec() };
		k.public = c.dns(true);
		k
	}
	pub fn rdata(&self) -> Vec<u8> { dnskey_rdata(self.flags, self.proto, self.alg, &self.public) }
	pub fn tag(&self) -> u16 { key_tag(&self.rdata()) }
	pub fn rec(&self, zone: &Nm, ttl: u32) -> Rec { Rec::new(zone, DNSKEY, ttl, self.rdata()) }
	pub fn digest(&self, zone: &Nm, dt: u8) -> Vec<u8> {
		let mut b = zone.wire();
		b.extend_from_slice(&self.rdata());
		match dt { 1 => sha1(&b), 2 => sha256(&b), 4 => sha384(&b), _ => sha256(&b) }
	}
	pub fn ds(&self, zone: &Nm, dt: u8, ttl: u32) -> Rec { Rec::new(zone, DS, ttl, ds_rdata(self.tag(), self.alg, dt, &self.digest(zone, dt))) }
	/// Raw signature, memoised (so that randomised ECDSA gives one signature per message and run).
	pub fn sign(&self, msg: &[u8]) -> Vec<u8> {
		static MEMO: OnceLock<Vec<Mutex<HashMap<(u64, Vec<u8>), Vec<u8>>>>> = OnceLock::new();
		let shards = MEMO.get_or_init(|| (0..64).map(|_| Mutex::new(HashMap::new())).collect());
		let h = msg.iter().rev().take(64).fold(self.uid, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64));
		let key = (self.uid, msg.to_vec());
		let shard = &shards[(h % 64) as usize];
		if let Some(s) = shard.lock().unwrap().get(&key) { return s.clone(); }
		let s = match &*self.signer {
			Signer::Ed(k) => k.sign(msg).as_ref().to_vec(),
			Signer::Ec(k) => k.sign(&SystemRandom::new(), msg).unwrap().as_ref().to_vec(),
			Signer::Rsa(k, s512) => {
				let mut o = vec![0; k.public().modulus_len()];
				let pad: &dyn RsaEncoding = if *s512 { &RSA_PKCS1_SHA512 } else { &RSA_PKCS1_SHA256 };
				k.sign(pad, &SystemRandom::new(), msg, &mut o).unwrap();
				o
			},
			Signer::RawRsa(n, d, alg) => raw_rsa_sign(n, d, *alg, msg),
			Signer::Fake => sha256(msg),
		};
		let mut g = shard.lock().unwrap();
		if g.len() > 20_000 { g.clear(); }
		g.entry(key).or_insert(s).clone()
	}
}
impl std::fmt::Debug for Key {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "key(alg{} flags{:x} proto{} tag{})", self.alg, self.flags, self.proto, self.tag()) }
}
struct RsaPub { n: Vec<u8>, e: Vec<u8> }
impl RsaPub {
	fn dns(&self, long: bool) -> Vec<u8> {
		let mut o = Vec::new();
		if long || self.e.len() > 255 { o.push(0); o.extend_from_slice(&(self.e.len() as u16).to_be_bytes()); } else { o.push(self.e.len() as u8); }
		o.extend_from_slice(&self.e);
		o.extend_from_slice(&self.n);
		o
	}
}

fn limbs(be: &[u8]) -> Vec<u64> {
	be.rchunks(8).map(|c| c.iter().fold(0u64, |a, b| a << 8 | *b as u64)).collect()
}
/// PKCS#1 v1.5 signature by plain Montgomery exponentiation.
fn raw_rsa_sign(n: &[u64], d: &[u64], alg: u8, msg: &[u8]) -> Vec<u8> {
	let k = n.len();
	let (pre, h) = if alg == 10 { (unhex("3051300d060960864801650304020305000440"), digest::digest(&digest::SHA512, msg)) }
		else if alg == 5 || alg == 7 { (unhex("3021300906052b0e03021a05000414"), digest::digest(&digest::SHA1_FOR_LEGACY_USE_ONLY, msg)) }
		else { (unhex("3031300d060960864801650304020105000420"), digest::digest(&digest::SHA256, msg)) };
	let mut em = vec![0u8, 1];
	em.resize(k * 8 - pre.len() - h.as_ref().len() - 1, 0xff);
	em.push(0);
	em.extend_from_slice(&pre);
	em.extend_from_slice(h.as_ref());
	let mut inv = 1u64; // -n^-1 mod 2^64
	for _ in 0..6 { inv = inv.wrapping_mul(2u64.wrapping_sub(n[0].wrapping_mul(inv))); }
	let ninv = inv.wrapping_neg();
	let geq = |a: &[u64]| -> bool { for i in (0..k).rev() { if a[i] != n[i] { return a[i] > n[i]; } } true };
	let sub = |a: &mut [u64]| -> bool {
		let mut br = 0u64;
		for i in 0..k { let (x, b1) = a[i].overflowing_sub(n[i]); let (x, b2) = x.overflowing_sub(br); a[i] = x; br = (b1 | b2) as u64; }
		br == 1
	};
	let mul = |a: &[u64], b: &[u64]| -> Vec<u64> {
		let mut t = vec![0u64; k + 2];
		for i in 0..k {
			let mut c = 0u128;
			for j in 0..k { let x = t[j] as u128 + a[i] as u128 * b[j] as u128 + c; t[j] = x as u64; c = x >> 64; }
			let x = t[k] as u128 + c; t[k] = x as u64; t[k + 1] = (x >> 64) as u64;
			let m = t[0].wrapping_mul(ninv);
			let mut c = (t[0] as u128 + m as u128 * n[0] as u128) >> 64;
			for j in 1..k { let x = t[j] as u128 + m as u128 * n[j] as u128 + c; t[j - 1] = x as u64; c = x >> 64; }
			let x = t[k] as u128 + c; t[k - 1] = x as u64;
			t[k] = t[k + 1].wrapping_add((x >> 64) as u64); t[k + 1] = 0;
		}
		let over = t[k] != 0;
		t.truncate(k);
		if over || geq(&t) { sub(&mut t); }
		t
	};
	// R mod n and R^2 mod n by doubling.
	let double = |a: &[u64]| -> Vec<u64> {
		let top = a[k - 1] >> 63;
		let mut r: Vec<u64> = (0..k).map(|i| a[i] << 1 | if i > 0 { a[i - 1] >> 63 } else { 0 }).collect();
		if top == 1 || geq(&r) { sub(&mut r); }
		r
	};
	let mut one = vec![0u64; k];
	one[0] = 1;
	let mut r1 = one.clone();
	for _ in 0..64 * k { r1 = double(&r1); }
	let mut r2 = r1.clone();
	for _ in 0..64 * k { r2 = double(&r2); }
	let base = mul(&limbs(&em), &r2);
	let mut acc = r1;
	for i in (0..d.len() * 64).rev() {
		acc = mul(&acc, &acc);
		if d[i / 64] >> (i % 64) & 1 == 1 { acc = mul(&acc, &base); }
	}
	let out = mul(&acc, &one);
	out.iter().rev().flat_map(|l| l.to_be_bytes()).collect()
}

/// Times and TTL of a signature.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Win { pub inception: u32, pub expiration: u32, pub ttl: u32 }
pub const WIN: Win = Win { inception: 1_700_000_000, expiration: 1_800_000_000, ttl: 3600 };

/// The bytes signed for an RRset (RFC 4034 section 3.1.8.1): `owner` is the name in the zone (the
/// wildcard itself for wildcards); rdata in canonical form, sorted, without duplicates.
pub fn signed_bytes(info: &SigInfo, owner: &Nm, rdatas: &[Vec<u8>]) -> Vec<u8> {
	let mut o = info.rdata_unsigned();
	let mut rd: Vec<&Vec<u8>> = rdatas.iter().collect();
	rd.sort();
	rd.dedup();
	for r in rd {
		o.extend_from_slice(&owner.wire());
		o.extend_from_slice(&info.covered.to_be_bytes());
		o.extend_from_slice(&1u16.to_be_bytes());
		o.extend_from_slice(&info.orig_ttl.to_be_bytes());
		o.extend_from_slice(&(r.len() as u16).to_be_bytes());
		o.extend_from_slice(r);
	}
	o
}
/// Signs an RRset owned by `owner` (possibly a wildcard); the signature record itself is placed at `at`.
pub fn sign_set(key: &Key, signer: &Nm, owner: &Nm, at: &Nm, ty: u16, rdatas: &[Vec<u8>], win: Win) -> Rec {
	let labels = owner.labels() - if owner.is_wild() { 1 } else { 0 };
	let mut info = SigInfo {
		covered: ty, alg: key.alg, labels: labels as u8, orig_ttl: win.ttl, expiration: win.expiration, inception: win.inception,
		tag: key.tag(), signer: signer.clone(), sig: Vec::new(),
	};
	info.sig = key.sign(&signed_bytes(&info, owner, rdatas));
	Rec::new(at, RRSIG, win.ttl, info.rdata())
}
/// Signs records that all have one owner and type.
pub fn sign_recs(key: &Key, signer: &Nm, recs: &[Rec], win: Win) -> Rec {
	let rd: Vec<Vec<u8>> = recs.iter().map(|r| r.rdata.clone()).collect();
	sign_set(key, signer, &recs[0].name, &recs[0].name, recs[0].ty, &rd, win)
}

/// RFC 5155 section 5.
pub fn nsec3_hash(name: &Nm, iters: u16, salt: &[u8]) -> Vec<u8> {
	let mut b = name.lower().wire();
	b.extend_from_slice(salt);
	let mut h = sha1(&b);
	for _ in 0..iters { h.extend_from_slice(salt); h = sha1(&h); }
	h
}
/// Base32 with the extended hex alphabet, lower case, no padding.
pub fn base32hex(d: &[u8]) -> String {
	let mut o = String::new();
	let (mut acc, mut bits) = (0u32, 0);
	for b in d {
		acc = acc << 8 | *b as u32;
		bits += 8;
		while bits >= 5 { bits -= 5; o.push(b"0123456789abcdefghijklmnopqrstuv"[(acc >> bits & 31) as usize] as char); }
	}
	if bits > 0 { o.push(b"0123456789abcdefghijklmnopqrstuv"[(acc << (5 - bits) & 31) as usize] as char); }
	o
}

/// The root key-signing key whose DS the hook in the library trusts.
pub fn root_ksk() -> Key { Key::ed(0, ZONE | SEP) }
