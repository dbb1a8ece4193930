//! Zones, attacks and denial records shared by C07 and C08.
#![allow(dead_code)]
use model::crypto::*;
use model::wire::*;
use model::zone::*;

/// What a name of a small zone holds.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Txt, Addr, Both, Cname, Insecure, Secure }
pub type Spec = Vec<(&'static str, Kind)>;

/// Every zone content of up to `max` of the names, each of any of the kinds, that has a wildcard
/// with data.
pub fn specs(names: &[&'static str], kinds: &[Kind], max: usize) -> Vec<Spec> {
	fn go(names: &[&'static str], kinds: &[Kind], left: usize, cur: &mut Spec, out: &mut Vec<Spec>) {
		if cur.iter().any(|(n, k)| n.starts_with('*') && matches!(k, Kind::Txt | Kind::Both | Kind::Cname)) { out.push(cur.clone()); }
		if left == 0 { return; }
		for (i, n) in names.iter().enumerate() {
			for k in kinds {
				if n.starts_with('*') && matches!(k, Kind::Insecure | Kind::Secure) { continue; }
				cur.push((n, *k));
				go(&names[i + 1..], kinds, left - 1, cur, out);
				cur.pop();
			}
		}
	}
	let mut out = Vec::new();
	go(names, kinds, max, &mut Vec::new(), &mut out);
	// Nothing lives below a delegation (in this zone).
	out.retain(|s| !s.iter().any(|(c, k)| matches!(k, Kind::Insecure | Kind::Secure) && s.iter().any(|(n, _)| n != c && n.ends_with(&format!(".{}", c)))));
	out
}
pub fn zone_of(name: &str, seed: u32, spec: &Spec, denial: &Denial) -> Zone {
	let mut z = Zone::single_key(&Nm::new(name), Key::ed(seed, ZONE | SEP));
	z.denial = denial.clone();
	for (n, k) in spec {
		let n = Nm::new(n);
		match k {
			Kind::Txt => z.add(&n, TXT, txt_rdata(n.text().as_bytes())),
			Kind::Addr => z.add(&n, A, vec![1, 2, 3, 4]),
			Kind::Both => { z.add(&n, TXT, txt_rdata(n.text().as_bytes())); z.add(&n, A, vec![1, 2, 3, 4]); },
			Kind::Cname => z.add(&n, CNAME, Nm::new("t.z.").wire()),
			Kind::Insecure => z.delegate(&n, &[]),
			Kind::Secure => z.delegate(&n, &[Key::ed(9, ZONE | SEP).ds(&n, 2, 3600)]),
		}
	}
	z
}
/// Hangs the zones (parents first) below a root and gives the records that lead to the last.
pub fn world(mut zones: Vec<Zone>) -> World {
	let mut all = vec![Zone::single_key(&Nm::root(), root_ksk())];
	for i in 0..zones.len() {
		let (n, d) = (zones[i].name.clone(), zones[i].ds(2));
		let up = (0..i).filter(|j| n.below(&zones[*j].name)).max_by_key(|j| zones[*j].name.labels());
		match up { Some(j) => zones[j].delegate(&n, &d), None => all[0].delegate(&n, &d) }
	}
	all.extend(zones);
	World { zones: all }
}
/// Every expansion of a wildcard of the zone at one of the queries, whether true or not.
pub fn expansions(z: &Zone, queries: &[Nm]) -> Vec<(Nm, u16, Nm)> {
	let mut out = Vec::new();
	for (w, ty) in z.sets.keys().filter(|(n, t)| n.is_wild() && DATA.contains(t)) {
		for q in queries { if q.below(&w.parent().unwrap()) && q != w && q.within(&z.name) { out.push((w.clone(), *ty, q.clone())); } }
	}
	out
}
pub fn names(v: &[&str]) -> Vec<Nm> { v.iter().map(|n| Nm::new(n)).collect() }
/// The zone's denial records (without signatures).
pub fn denials(z: &Zone) -> Vec<Rec> { match z.denial { Denial::Nsec => z.nsec_chain(), _ => z.nsec3_chain().into_iter().map(|c| c.1).collect() } }

/// A zone `z.` with a wildcard, and its chain from the root.
pub fn synth() -> (World, Zone, Vec<Rec>) {
	let mut z = Zone::single_key(&Nm::new("z."), Key::ed(900, ZONE | SEP));
	z.add(&Nm::new("*.z."), TXT, txt_rdata(b"wild"));
	let w = world(vec![z]);
	let z = w.zones[1].clone();
	let chain = w.chain(&z.name);
	(w, z, chain)
}
/// Label shapes whose order is easy to get wrong.
pub fn order_names(big: bool) -> Vec<Nm> {
	let mut v = vec!["z.", "a.z.", "b.z.", "aa.z.", "ab.z.", "a-.z.", "a0.z.", "0.z.", "-.z.", "_.z.", "a.a.z.", "b.a.z.", "aa.a.z.", "a.b.z.", "a.aa.z.", "a.a-.z.", "*.a.z.", "!.z.", "!.a.z.", "~.z.", "z.z.", "zz.z.", "c.b.a.z.", "9.z.", "10.z."];
	if big { v.extend(["a+.z.", "a!.z.", "\\.z.", "\\046.z.", "a.0.z.", "0.a.z.", "-.a.z.", "a.-.z.", "b.b.z.", "ab.a.z.", "a.ab.z.", "aaa.z.", "x.a.a.z.", "a.a.a.z.", "z.z.z.", "~.a.z.", "2.z.", "010.z.", "2.10.z.", "{.z.", "`.z.", "[.z.", "^.z."]); }
	let mut v = names(&v);
	v.sort_by(|a, b| a.canon_cmp(b));
	v
}
/// Whether an NSEC record shows that a name does not exist: RFC 4034 order, and no name below it.
pub fn nsec_denies(owner: &Nm, next: &Nm, apex: &Nm, n: &Nm) -> bool {
	owner.canon_cmp(n).is_lt() && (next == apex || n.canon_cmp(next).is_lt()) && !next.within(n)
}
/// Whether the hash lies strictly between (in circular order).
pub fn hash_between(start: &[u8], next: &[u8], h: &[u8]) -> bool {
	if start < next { start < h && h < next } else { start < h || h < next }
}
pub fn bump(h: &[u8], up: bool) -> Vec<u8> {
	let mut v = h.to_vec();
	for b in v.iter_mut().rev() {
		*b = if up { b.wrapping_add(1) } else { b.wrapping_sub(1) };
		if *b != if up { 0 } else { 255 } { break; }
	}
	v
}
pub const HEX32: &[u8] = b"0123456789abcdefghijklmnopqrstuv";
pub fn unbase32(t: &[u8]) -> Vec<u8> {
	let mut o = Vec::new();
	let (mut acc, mut bits) = (0u32, 0);
	for c in t {
		acc = acc << 5 | HEX32.iter().position(|x| x == c).unwrap() as u32;
		bits += 5;
		if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
	}
	o
}
/// Wildcard answers in which one dimension after another grows.
pub const GROWTH: [&str; 11] = ["labels below the wildcard", "labels of the wildcard", "answers", "wildcards", "names of the zone", "length of the first label", "length of the next closer label", "records of a set", "labels of the zone", "types of the denial", "zones"];
pub struct Answer { pub zone: usize, pub source: Nm, pub ty: u16, pub at: Nm, pub nc: Nm }
/// The zones and the answers of dimension `dim` and size `n` (from 1), if they exist.
pub fn grown(dim: usize, n: usize, d: &Denial) -> Option<(World, Vec<Answer>)> {
	let letters = ["a", "b", "0"];
	let deep = |mut m: Nm, n: usize, max: usize| { for i in 0..n { m = m.child(letters[i % 3]); } if m.text().len() <= max { Some(m) } else { None } };
	let mut zn = Nm::new("z.");
	if dim == 8 { zn = deep(Nm::root(), n, 220)?; }
	if matches!(dim, 5 | 6) && n > 63 || dim == 9 && n > 200 { return None; }
	let mut zs = vec![Zone::single_key(&zn, Key::ed(970, ZONE | SEP))];
	let w = zn.child("*");
	let mut asked: Vec<(usize, Nm)> = Vec::new();
	match dim {
		0 => asked.push((0, deep(zn.clone(), n, 255)?)),
		1 => { let up = deep(zn.clone(), n, 240)?; zs[0].add(&up.wild(), TXT, txt_rdata(b"deep")); asked.push((0, up.child("q"))); asked.push((0, up.child("q").child("q"))); },
		2 => for i in 0..n { asked.push((0, zn.child(&format!("q{}", i)))); },
		3 => for i in 0..n { let up = zn.child(&format!("w{}", i)); zs[0].add(&up.wild(), TXT, txt_rdata(&[i as u8])); asked.push((0, up.child("q"))); },
		4 => { for i in 0..n { zs[0].add(&zn.child(&format!("n{}", i)), A, vec![1, 1, 1, i as u8]); } asked.push((0, zn.child("n0q"))); asked.push((0, zn.child("q"))); asked.push((0, zn.child("m"))); },
		5 => asked.push((0, zn.child("r").child(&"l".repeat(n)))),
		6 => asked.push((0, zn.child(&"l".repeat(n)).child("r"))),
		7 => { for i in 0..n { zs[0].add(&w, A, vec![2, 2, (i >> 8) as u8, i as u8]); } asked.push((0, zn.child("q"))); },
		8 => asked.push((0, zn.child("q"))),
		9 => { for i in 0..n { zs[0].add(&zn.child("b"), [A, AAAA, TXT, TLSA, NS, 256 + 7 * i as u16, 1024 + 255 * i as u16][i.min(5 + i % 2)], match i { 0 => vec![1; 4], 1 => vec![1; 16], 3 => tlsa_rdata(1, 1, 1, &[1; 32]), 4 => Nm::new("t.").wire(), _ => txt_rdata(b"b") }); } asked.push((0, zn.child("c"))); asked.push((0, zn.child("q").child("a"))); },
		_ => for i in 0..n {
			if i > 0 { let name = Nm::root().child(&format!("z{}", i)); let mut z = Zone::single_key(&name, Key::ed(970 + i as u32, ZONE | SEP)); z.add(&name.wild(), TXT, txt_rdata(&[i as u8])); zs.push(z); }
			asked.push((i, zs[i].name.child("q")));
		},
	}
	for z in &mut zs {
		z.denial = d.clone();
		let name = z.name.clone();
		// No last NSEC covers an answer.
		z.add(&name.child("zzz"), A, vec![1; 4]);
	}
	zs[0].add(&w, TXT, txt_rdata(b"wild"));
	// Zones side by side hang below the root, one deep zone below those that enclose it.
	let mut root = root_zone();
	if dim == 8 && n > 1 {
		let mut ups: Vec<Zone> = Vec::new();
		if n <= 4 { for i in 1..n { ups.push(Zone::single_key(&zn.trailing(i), Key::ed(990 + i as u32, ZONE | SEP))); } }
		for (i, u) in ups.into_iter().enumerate() { zs.insert(i, u); }
	}
	for i in 0..zs.len() {
		let (name, ds) = (zs[i].name.clone(), zs[i].ds(2));
		if i > 0 && name.below(&zs[i - 1].name) { zs[i - 1].delegate(&name, &ds); } else { root.delegate(&name, &ds); }
	}
	let shift = if dim == 8 { zs.len() } else { 1 };
	let mut all = vec![root];
	all.extend(zs);
	let world = World { zones: all };
	let mut out = Vec::new();
	for (zi, at) in asked {
		for ty in [TXT, A] {
			if let Truth::Wild { source, next_closer, cname: false } = world.zones[zi + shift].truth(&at, ty) { out.push(Answer { zone: zi + shift, source, ty, at: at.clone(), nc: next_closer }); }
		}
	}
	if out.is_empty() { None } else { Some((world, out)) }
}
