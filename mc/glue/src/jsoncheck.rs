//! Judges the JSON form of records.
use dnssec_prover::rr::*;
use model::json::{self, J};
use model::wire;
use model::*;

fn unhex_any(s: &str) -> Option<Vec<u8>> {
	if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) { return None; }
	Some(wire::unhex(&s.to_ascii_lowercase()))
}
/// Bytes as a JSON array of numbers, or as hexadecimal text.
fn bytes_of(j: &J) -> Option<Vec<u8>> {
	match j {
		J::Arr(a) => a.iter().map(|x| x.u64().and_then(|v| u8::try_from(v).ok())).collect(),
		J::Str(s) => unhex_any(s),
		_ => None,
	}
}
/// Whether the JSON of a record is valid and says what its fields say.
pub fn check(r: &RR) -> Result<(), Bad> {
	let text = r.json();
	if Record::json(r) != text { return bad("interfaces", "Record::json differs from RR::json"); }
	let j = match json::parse(&text) { Ok(j) => j, Err(e) => return bad(format!("syntax {}", wire::type_name(Record::ty(r)).to_lowercase()), format!("{} at {}", e, text.chars().take(400).collect::<String>())) };
	check_parsed(r, &j)
}
/// Whether this JSON says what the record's fields say.
pub fn check_parsed(r: &RR, j: &J) -> Result<(), Bad> {
	let text = format!("{:?}", j);
	let t = wire::type_name(Record::ty(r)).to_lowercase();
	let wrong = |what: &str| bad::<()>(format!("{} {}", t, what), format!("{} in {}", what, text.chars().take(400).collect::<String>()));
	let keys = match j { J::Obj(o) => o.iter().map(|(k, _)| k.as_str()).collect::<Vec<_>>(), _ => return wrong("not an object") };
	let mut uniq = keys.clone(); uniq.sort(); uniq.dedup();
	if uniq.len() != keys.len() { return wrong("duplicate keys"); }
	let s = |k: &str, v: &str| -> Result<(), Bad> { if j.get(k).and_then(|x| x.str()) == Some(v) { Ok(()) } else { wrong(k) } };
	let n = |k: &str, v: u64| -> Result<(), Bad> { if j.get(k).and_then(|x| x.u64()) == Some(v) { Ok(()) } else { wrong(k) } };
	let b = |k: &str, v: &[u8]| -> Result<(), Bad> { if j.get(k).and_then(bytes_of).as_deref() == Some(v) { Ok(()) } else { wrong(k) } };
	let types = |m: &NSecTypeMask| -> Result<(), Bad> {
		let a = match j.get("types").and_then(|x| x.arr()) { Some(a) => a, None => return wrong("types") };
		let mut got = Vec::new();
		for x in a {
			got.push(match x {
				J::Str(s) => match wire::TYPES.iter().find(|t| wire::type_name(**t) == *s) { Some(t) => *t, None => return wrong("types") },
				x => match x.u64() { Some(v) if v < 65536 => v as u16, _ => return wrong("types") },
			});
		}
		got.sort();
		if got != (0..=65535u16).filter(|t| m.contains_type(*t)).collect::<Vec<_>>() { return wrong("types"); }
		Ok(())
	};
	s("type", &t)?;
	s("name", Record::name(r).as_str())?;
	match r {
		RR::A(r) => b("address", &r.address),
		RR::AAAA(r) => b("address", &r.address),
		RR::NS(r) => s("ns", r.name_server.as_str()),
		RR::Txt(r) => match j.get("contents") {
			Some(J::Str(x)) => if x.as_bytes() == &r.data[..] { Ok(()) } else { wrong("contents") },
			Some(x @ J::Arr(_)) => if bytes_of(x).as_deref() == Some(&r.data[..]) { Ok(()) } else { wrong("contents") },
			_ => wrong("contents"),
		},
		RR::TLSA(r) => { n("usage", r.cert_usage as u64)?; n("selector", r.selector as u64)?; n("data_ty", r.data_ty as u64)?; b("data", &r.data) },
		RR::CName(r) => s("canonical_name", r.canonical_name.as_str()),
		RR::DName(r) => s("delegation_name", r.delegation_name.as_str()),
		RR::DnsKey(r) => { n("flags", r.flags as u64)?; n("protocol", r.protocol as u64)?; n("alg", r.alg as u64)?; b("pubkey", &r.pubkey) },
		RR::DS(r) => { n("key_tag", r.key_tag as u64)?; n("alg", r.alg as u64)?; n("digest_type", r.digest_type as u64)?; b("digest", &r.digest) },
		RR::RRSig(r) => {
			n("signed_record_type", r.ty as u64)?; n("alg", r.alg as u64)?; n("signed_labels", r.labels as u64)?; n("orig_ttl", r.orig_ttl as u64)?; n("expiration", r.expiration as u64)?;
			n("inception", r.inception as u64)?; n("key_tag", r.key_tag as u64)?; s("key_name", r.key_name.as_str())?; b("signature", &r.signature)
		},
		RR::NSec(r) => { s("next_name", r.next_name.as_str())?; types(&r.types) },
		RR::NSec3(r) => { n("hash_algo", r.hash_algo as u64)?; n("flags", r.flags as u64)?; n("hash_iterations", r.hash_iterations as u64)?; b("salt", &r.salt)?; b("next_name_hash", &r.next_name_hash)?; types(&r.types) },
	}
}
