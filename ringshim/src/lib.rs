//! Stand-in for `ring` used when model checking: every item is the real one, except that public-key
//! signature verifications are counted per thread (with an abort limit) and memoised. A memoised
//! verdict is always one the real `ring` gave for the same algorithm, key, message and signature.

pub use real::*;

/// Counters read by the harness.
pub mod mc {
	use std::cell::{Cell, RefCell};
	use std::collections::HashMap;

	thread_local! {
		static COUNT: Cell<u64> = Cell::new(0);
		static LIMIT: Cell<u64> = Cell::new(u64::MAX);
		static MEMO: RefCell<HashMap<(u64, u64), bool>> = RefCell::new(HashMap::new());
	}
	/// Starts a new execution on this thread: zero checks so far, panic after `limit`.
	pub fn reset(limit: u64) { COUNT.with(|c| c.set(0)); LIMIT.with(|c| c.set(limit)); }
	/// Signature checks made on this thread since `reset`.
	pub fn count() -> u64 { COUNT.with(|c| c.get()) }

	/// Modulus and exponent of a signing key.
	pub fn rsa_public(kp: &real::rsa::KeyPair) -> (Vec<u8>, Vec<u8>) {
		use real::signature::KeyPair;
		let c: real::signature::RsaPublicKeyComponents<Vec<u8>> = kp.public_key().into();
		(c.n, c.e)
	}

	fn mix(h: &mut (u64, u64), w: u64) {
		let a = (h.0 ^ w) as u128 * 0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835u128;
		h.0 = (a as u64) ^ ((a >> 64) as u64).rotate_left(17);
		let b = ((h.1.rotate_left(29)) ^ w ^ 0xA076_1D64_78BD_642F) as u128 * 0xE703_7ED1_A0B4_28DBu128;
		h.1 = (b as u64) ^ ((b >> 64) as u64) ^ h.0.rotate_left(7);
	}
	fn mix_bytes(h: &mut (u64, u64), b: &[u8]) {
		mix(h, b.len() as u64);
		for c in b.chunks(8) {
			let mut w = [0; 8];
			w[..c.len()].copy_from_slice(c);
			mix(h, u64::from_le_bytes(w));
		}
	}
	pub(crate) fn check(alg: [usize; 2], parts: [&[u8]; 4], real: impl FnOnce() -> bool) -> bool {
		let n = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
		if n > LIMIT.with(|c| c.get()) { panic!("MC-BUDGET: more than {} signature checks", n - 1); }
		let mut h = (alg[0] as u64, alg[1] as u64);
		mix(&mut h, alg[1] as u64);
		for p in parts.iter() { mix_bytes(&mut h, p); }
		if let Some(r) = MEMO.with(|m| m.borrow().get(&h).copied()) { return r; }
		let r = real();
		MEMO.with(|m| {
			let mut m = m.borrow_mut();
			if m.len() > 1_000_000 { m.clear(); }
			m.insert(h, r);
		});
		r
	}
}

/// `ring::signature` with the two verification entry points wrapped.
pub mod signature {
	pub use real::signature::*;
	use real::error::Unspecified;

	fn alg_id(a: &'static dyn VerificationAlgorithm) -> [usize; 2] {
		// Data and vtable pointers together identify the (static) algorithm.
		unsafe { core::mem::transmute::<&'static dyn VerificationAlgorithm, [usize; 2]>(a) }
	}

	/// See `ring::signature::UnparsedPublicKey`.
	#[derive(Clone, Copy)]
	pub struct UnparsedPublicKey<B> { algorithm: &'static dyn VerificationAlgorithm, bytes: B }
	impl<B> UnparsedPublicKey<B> {
		/// See `ring`.
		pub fn new(algorithm: &'static dyn VerificationAlgorithm, bytes: B) -> Self { Self { algorithm, bytes } }
		/// See `ring`.
		pub fn verify(&self, message: &[u8], signature: &[u8]) -> Result<(), Unspecified> where B: AsRef<[u8]> {
			let key = self.bytes.as_ref();
			if super::mc::check(alg_id(self.algorithm), [key, message, signature, &[]], ||
				real::signature::UnparsedPublicKey::new(self.algorithm, key).verify(message, signature).is_ok()
			) { Ok(()) } else { Err(Unspecified) }
		}
	}
	impl<B: AsRef<[u8]>> AsRef<[u8]> for UnparsedPublicKey<B> { fn as_ref(&self) -> &[u8] { self.bytes.as_ref() } }
	impl<B: core::fmt::Debug> core::fmt::Debug for UnparsedPublicKey<B> {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			f.debug_struct("UnparsedPublicKey").field("algorithm", &self.algorithm).field("bytes", &self.bytes).finish()
		}
	}

	/// See `ring::signature::RsaPublicKeyComponents`.
	#[derive(Clone, Copy, Debug)]
	pub struct RsaPublicKeyComponents<B> {
		/// The modulus.
		pub n: B,
		/// The exponent.
		pub e: B,
	}
	impl<B: AsRef<[u8]>> RsaPublicKeyComponents<B> {
		/// See `ring`.
		pub fn verify(&self, params: &RsaParameters, message: &[u8], signature: &[u8]) -> Result<(), Unspecified> {
			let (n, e) = (self.n.as_ref(), self.e.as_ref());
			let id = [params as *const RsaParameters as usize, 1];
			if super::mc::check(id, [n, e, message, signature], ||
				real::signature::RsaPublicKeyComponents { n, e }.verify(params, message, signature).is_ok()
			) { Ok(()) } else { Err(Unspecified) }
		}
	}
}
