//! What the demonstrations share: a root zone the library trusts under cfg(dnssec_prover_mc).
use crate::wire::*;
use crate::zone::*;
use dnssec_prover::rr::*;
use dnssec_prover::ser::parse_rr_stream;
use dnssec_prover::validation::*;

pub fn nm(s: &str) -> Nm { Nm::new(s) }
pub fn name(s: &str) -> Name { s.try_into().unwrap() }
pub fn rrs(recs: &[Rec]) -> Vec<RR> { parse_rr_stream(&stream(recs)).expect("stream parses") }
/// A zone with a key- and a zone-signing key of its own.
pub fn zone(n: &str, seed: u32) -> Zone {
	use crate::crypto::*;
	Zone::new(&nm(n), Key::ed(seed, ZONE | SEP), Key::ed(seed + 1, ZONE))
}
/// Delegates each zone from its closest enclosing one.
pub fn world(mut zones: Vec<Zone>) -> World {
	zones.sort_by_key(|z| z.name.labels());
	let mut all = vec![root_zone()];
	for z in zones {
		let ds = z.ds(2);
		let p = all.iter_mut().filter(|p| z.name.below(&p.name)).max_by_key(|p| p.name.labels()).unwrap();
		p.delegate(&z.name, &ds);
		all.push(z);
	}
	World { zones: all }
}
/// The verified records, as text, or the error.
pub fn verify(recs: &[Rec]) -> Result<Vec<String>, ValidationError> {
	let r = rrs(recs);
	verify_rr_stream(&r).map(|v| v.verified_rrs.iter().map(|r| r.json()).collect())
}
pub fn fail(msg: &str) -> ! { println!("FAIL: {}", msg); std::process::exit(1) }
