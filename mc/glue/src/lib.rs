//! Runs the real library on model records.
use dnssec_prover::rr::*;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::{verify_rr_stream, ValidationError};
use model::wire::{self, Nm, Rec};

pub mod jsoncheck;
pub mod samples;
pub use ring::mc as sigs;
pub use bitcoin_hashes::mc as hashes;

/// Starts counting: abort the execution beyond this many signature checks or hash blocks.
pub fn budget(sig: u64, hash: u64) { sigs::reset(sig); hashes::reset(hash); }

/// What validation said of a stream.
#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
	/// Indices into the input of the returned records, in order, and the window and cache time.
	Ok { idx: Vec<usize>, from: u64, expires: u64, ttl: u32 },
	Invalid,
	Unsupported,
	/// The stream did not parse.
	Parse,
}
impl Verdict {
	pub fn ok(&self) -> bool { matches!(self, Verdict::Ok { .. }) }
	pub fn class(&self) -> &'static str {
		match self { Verdict::Ok { .. } => "accepted", Verdict::Invalid => "rejected", Verdict::Unsupported => "unsupported", Verdict::Parse => "unparsable" }
	}
	pub fn idx(&self) -> &[usize] { if let Verdict::Ok { idx, .. } = self { idx } else { &[] } }
}
pub fn verify_parsed(rrs: &[RR]) -> Verdict {
	match verify_rr_stream(rrs) {
		Ok(v) => {
			let base = rrs.as_ptr() as usize;
			let idx = v.verified_rrs.iter().map(|r| {
				let off = (*r as *const RR as usize).wrapping_sub(base);
				let i = off / std::mem::size_of::<RR>();
				// A record that is not one of the input's: index out of range.
				if off % std::mem::size_of::<RR>() == 0 && i < rrs.len() { i } else { usize::MAX }
			}).collect();
			Verdict::Ok { idx, from: v.valid_from, expires: v.expires, ttl: v.max_cache_ttl }
		},
		Err(ValidationError::Invalid) => Verdict::Invalid,
		Err(ValidationError::UnsupportedAlgorithm) => Verdict::Unsupported,
	}
}
/// Parses and verifies with the real code, with default work limits.
pub fn verify_bytes(b: &[u8]) -> Verdict {
	budget(20_000, 4_000_000);
	match parse_rr_stream(b) { Ok(rrs) => verify_parsed(&rrs), Err(()) => Verdict::Parse }
}
pub fn verify(recs: &[Rec]) -> Verdict { verify_bytes(&wire::stream(recs)) }
pub fn parse(recs: &[Rec]) -> Option<Vec<RR>> { parse_rr_stream(&wire::stream(recs)).ok() }

pub fn nm(n: &Name) -> Nm { Nm::new(n.as_str()) }
pub fn name(n: &Nm) -> Name { n.text().try_into().expect("model name") }
/// Reads every public field of a real record into a model record (TTL 0), with our own encoding.
pub fn rec_of(rr: &RR) -> Rec {
	let types = |t: &NSecTypeMask| -> Vec<u16> { (0..=65535u16).filter(|x| t.contains_type(*x)).collect() };
	let (ty, rd) = match rr {
		RR::A(r) => (wire::A, r.address.to_vec()),
		RR::AAAA(r) => (wire::AAAA, r.address.to_vec()),
		RR::NS(r) => (wire::NS, nm(&r.name_server).wire()),
		RR::Txt(r) => (wire::TXT, wire::txt_rdata(&r.data)),
		RR::TLSA(r) => (wire::TLSA, wire::tlsa_rdata(r.cert_usage, r.selector, r.data_ty, &r.data)),
		RR::CName(r) => (wire::CNAME, nm(&r.canonical_name).wire()),
		RR::DName(r) => (wire::DNAME, nm(&r.delegation_name).wire()),
		RR::DnsKey(r) => (wire::DNSKEY, wire::dnskey_rdata(r.flags, r.protocol, r.alg, &r.pubkey)),
		RR::DS(r) => (wire::DS, wire::ds_rdata(r.key_tag, r.alg, r.digest_type, &r.digest)),
		RR::RRSig(r) => (wire::RRSIG, wire::SigInfo { covered: r.ty, alg: r.alg, labels: r.labels, orig_ttl: r.orig_ttl, expiration: r.expiration,
			inception: r.inception, tag: r.key_tag, signer: nm(&r.key_name), sig: r.signature.clone() }.rdata()),
		RR::NSec(r) => (wire::NSEC, wire::nsec_rdata(&nm(&r.next_name), &types(&r.types))),
		RR::NSec3(r) => (wire::NSEC3, wire::nsec3_rdata(r.hash_algo, r.flags, r.hash_iterations, &r.salt, &r.next_name_hash, &types(&r.types))),
	};
	Rec { name: nm(rr.name()), ty, ttl: 0, rdata: rd }
}

pub fn buf(b: &[u8]) -> dnssec_prover::query::QueryBuf {
	let mut q = dnssec_prover::query::QueryBuf::new_zeroed(b.len() as u16);
	q.copy_from_slice(b);
	q
}
/// What the real builder takes from one response: the proof bytes and TTL (`None` if so many
/// queries follow that no proof can come out), or `Err` if it rejects the response.
pub fn taken(resp: &[u8]) -> Result<Option<(Vec<u8>, u32)>, ()> {
	use dnssec_prover::query::ProofBuilder;
	let (mut b, _) = ProofBuilder::new(&Name::try_from("q.").unwrap(), wire::TXT);
	b.process_response(&buf(resp))?;
	let mut w = wire::MsgWriter::new(0, 0x81a0, [1, 1, 0, 0], wire::Compress::None);
	w.question(&Nm::new("q."), 1, 1);
	let filler = Rec::new(&Nm::new("f."), wire::A, u32::MAX, vec![1, 2, 3, 4]);
	w.record(&filler);
	let mut n = 0;
	while b.awaiting_responses() { b.process_response(&buf(&w.out)).expect("filler response rejected"); n += 1; }
	match b.finish_proof() {
		Ok((mut p, ttl)) => { let l = p.len() - n * wire::stream(&[filler]).len(); p.truncate(l); Ok(Some((p, ttl))) },
		Err(()) => Ok(None),
	}
}
