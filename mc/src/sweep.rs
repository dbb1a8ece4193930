//! Proofs in which one dimension after another grows: shared by C01, C04 and C06.
#![allow(dead_code)]
use model::crypto::*;
use model::wire::*;
use model::zone::*;

pub const DIMS: [&str; 17] = ["record sets", "records of a set", "keys, signer first", "keys, signer last", "DS records", "signatures of a set", "signatures of a key set", "zones below each other", "zones side by side", "labels of an owner", "length of an owner's label", "labels of a zone name", "length of a zone's label", "bytes of TXT", "bytes of TLSA", "types and owners mixed", "unsigned records"];
/// Keys with tags of their own, so that none is taken for another.
fn keys(n: usize, seed: u32) -> Vec<Key> {
	let mut v: Vec<Key> = Vec::new();
	let mut tags = std::collections::HashSet::new();
	for s in 0.. { if v.len() == n { break; } let k = Key::ed(seed + s, ZONE | SEP); if tags.insert(k.tag()) { v.push(k); } }
	v
}
fn long(base: &str, labels: usize) -> Option<Nm> {
	let mut n = Nm::new(base);
	for i in 0..labels { n = n.child(["a", "b", "0"][i % 3]); }
	if n.text().len() <= 255 { Some(n) } else { None }
}
pub struct Sweep { pub world: World, pub proof: Vec<Rec>, pub want: Vec<Rec>, pub evil: Key }
/// The proof of dimension `dim` and size `n` (from 1), if there is one.
pub fn build(dim: usize, n: usize) -> Option<Sweep> {
	let mut root = root_zone();
	let mut extra = Vec::new();
	let mut z = Zone::new(&Nm::new("z."), Key::ed(7000, ZONE | SEP), Key::ed(7001, ZONE));
	let t = Nm::new("t.z.");
	let mut more: Vec<Zone> = Vec::new();
	let mut ds = None;
	match dim {
		0 => for i in 0..n { z.add(&Nm::new(&format!("t{}.z.", i)), TXT, txt_rdata(&[i as u8])); },
		1 => for i in 0..n { z.add(&t, A, vec![10, 0, (i >> 8) as u8, i as u8]); },
		2 => { z.keys = keys(n + 1, 7100); z.ksks = vec![0]; z.zsks = vec![n.min(1)]; },
		3 => { z.keys = keys(n + 1, 7100); z.ksks = vec![n]; z.zsks = vec![n - 1]; },
		4 => { let mut d: Vec<Rec> = keys(n - 1, 8100).iter().map(|k| k.ds(&z.name, 2, 3600)).collect(); d.extend(z.ds(2)); ds = Some(d); },
		5 => { z.keys.extend(keys(n, 7100)); z.zsks = (2..2 + n).collect(); },
		6 => { z.keys.extend(keys(n, 7100)); z.ksks = (2..2 + n).collect(); },
		7 => { let mut m = z.name.clone(); for i in 1..n { m = m.child(["a", "b", "0"][i % 3]); if m.text().len() > 250 { return None; } more.push(Zone::single_key(&m, Key::ed(7300 + i as u32, ZONE | SEP))); } },
		8 => for i in 1..n { more.push(Zone::single_key(&Nm::new(&format!("z{}.", i)), Key::ed(7300 + i as u32, ZONE | SEP))); },
		9 => { let o = long("z.", n)?; z.add(&o, TXT, txt_rdata(b"owner")); },
		10 => { if n > 63 { return None; } z.add(&z.name.child(&"l".repeat(n)), TXT, txt_rdata(b"owner")); },
		11 => { z.name = long(".", n)?; if z.name.text().len() > 250 { return None; } },
		12 => { if n > 63 { return None; } z.name = Nm::root().child(&"l".repeat(n)); },
		13 => z.add(&t, TXT, txt_rdata(&vec![b'x'; n])),
		14 => z.add(&t, TLSA, tlsa_rdata(3, 1, 1, &vec![6; n])),
		15 => for i in 0..n {
			let o = z.name.child(&format!("o{}", i / 5));
			match i % 5 { 0 => z.add(&o, TXT, txt_rdata(b"o")), 1 => z.add(&o, A, vec![1, 1, 1, i as u8]), 2 => z.add(&o, AAAA, vec![i as u8; 16]), 3 => z.add(&o, TLSA, tlsa_rdata(1, 1, 1, &[i as u8; 32])), _ => z.add(&z.name.child(&format!("c{}", i)), CNAME, t.wire()) }
		},
		_ => for i in 0..n { extra.push(Rec::new(&Nm::new(&format!("u{}.z.", i)), A, 3600, vec![6, 6, 6, i as u8])); },
	}
	let own = z.name.child("own");
	z.add(&own, TXT, txt_rdata(b"own"));
	let d = ds.unwrap_or_else(|| z.ds(2));
	root.delegate(&z.name, &d);
	for i in 0..more.len() {
		let (m, d) = (more[i].name.clone(), more[i].ds(2));
		let o = m.child("t");
		more[i].add(&o, TXT, txt_rdata(o.text().as_bytes()));
		if dim == 8 { root.delegate(&m, &d); } else if i == 0 { z.delegate(&m, &d); } else { more[i - 1].delegate(&m, &d); }
	}
	let mut zones = vec![root, z];
	zones.extend(more);
	let world = World { zones };
	let (mut proof, mut want) = (world.zones[0].apex(), Vec::new());
	for (i, z) in world.zones.iter().enumerate() {
		if i > 0 {
			let up = if dim == 8 { 0 } else { i - 1 };
			proof.extend(world.zones[up].signed(&z.name, DS, &z.name));
			proof.extend(z.apex());
		}
		for (o, ty) in z.sets.keys().filter(|(_, t)| *t != DS && *t != NS) {
			proof.extend(z.signed(o, *ty, o));
			want.extend(z.recs(o, *ty, o));
		}
	}
	let half = extra.len() / 2;
	proof.extend(extra.split_off(half));
	extra.extend(proof);
	Some(Sweep { world, proof: extra, want, evil: Key::ed(9999, ZONE | SEP) })
}
/// Ways to tamper with the record at `i`: `None` if there is no such way.
pub const WAYS: usize = 6;
pub fn tamper(s: &Sweep, i: usize, way: usize) -> Option<Vec<Rec>> {
	let mut p = s.proof.clone();
	let r = p[i].clone();
	let mut x = r.clone();
	*x.rdata.last_mut()? ^= 1;
	let zone = || s.world.zones.iter().find(|z| z.name == r.name);
	// A record the attacker's key alone has signed, for the zone with the record.
	let forged = |p: &mut Vec<Rec>, z: &Nm| { let f = Rec::new(&z.child("forged"), TXT, 3600, txt_rdata(b"forged")); p.push(f.clone()); p.push(sign_recs(&s.evil, z, &[f], WIN)); };
	match way {
		0 => p[i] = x,
		1 => p.insert(i + 1, x),
		2 => if r.ty != RRSIG { p.push(x) } else { return None },
		3 => { p.remove(i); },
		4 if r.ty == DNSKEY => { zone()?; p.insert(i, s.evil.rec(&r.name, 3600)); forged(&mut p, &r.name); },
		5 if r.ty == DS => {
			p.insert(i, s.evil.ds(&r.name, 2, 3600));
			let e = s.evil.rec(&r.name, 3600);
			p.push(e.clone());
			p.push(sign_recs(&s.evil, &r.name, &[e], WIN));
			forged(&mut p, &r.name);
		},
		_ => return None,
	}
	Some(p)
}
