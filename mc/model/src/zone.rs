//! Signed zones, their true answers (RFC 1034/4592/6672), denial chains (RFC 4034/5155), and a
//! correctly functioning validating resolver over a tree of them.

use crate::crypto::*;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Denial { Nsec, Nsec3 { iters: u16, salt: Vec<u8>, flags: u8, algo: u8 } }

#[derive(Clone, Debug)]
pub struct Zone {
	pub name: Nm,
	/// The DNSKEY RRset, in the order it is served.
	pub keys: Vec<Key>,
	/// Indices of keys that sign the DNSKEY RRset, and of those that sign everything else.
	pub ksks: Vec<usize>,
	pub zsks: Vec<usize>,
	/// Authoritative data other than DNSKEY, plus NS and DS at delegations.
	pub sets: BTreeMap<(Nm, u16), Vec<Vec<u8>>>,
	pub cuts: BTreeSet<Nm>,
	pub win: Win,
	pub denial: Denial,
}
/// What a name and type come to within one zone.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Truth {
	/// The RRset exists at the name itself.
	Exact,
	/// A CNAME at the name.
	Cname,
	/// A DNAME at this proper ancestor.
	Dname(Nm),
	/// The RRset (or CNAME) comes from this wildcard; the second name is the next closer name.
	Wild { source: Nm, next_closer: Nm, cname: bool },
	/// The name is in (or at, for other than DS) this delegated child.
	Referral(Nm),
	NoData,
	NxDomain,
}
impl Zone {
	pub fn new(name: &Nm, ksk: Key, zsk: Key) -> Zone {
		Zone { name: name.clone(), keys: vec![ksk, zsk], ksks: vec![0], zsks: vec![1], sets: BTreeMap::new(), cuts: BTreeSet::new(), win: WIN, denial: Denial::Nsec }
	}
	pub fn single_key(name: &Nm, key: Key) -> Zone {
		Zone { name: name.clone(), keys: vec![key], ksks: vec![0], zsks: vec![0], sets: BTreeMap::new(), cuts: BTreeSet::new(), win: WIN, denial: Denial::Nsec }
	}
	pub fn add(&mut self, name: &Nm, ty: u16, rdata: Vec<u8>) { self.sets.entry((name.clone(), ty)).or_default().push(rdata); }
	/// Delegates `child`, securely if DS records are given.
	pub fn delegate(&mut self, child: &Nm, ds: &[Rec]) {
		self.cuts.insert(child.clone());
		self.add(child, NS, Nm::new("ns.invalid.").wire());
		for d in ds { self.add(child, DS, d.rdata.clone()); }
	}
	pub fn recs(&self, owner: &Nm, ty: u16, at: &Nm) -> Vec<Rec> {
		if ty == DNSKEY && *owner == self.name { return self.keys.iter().map(|k| k.rec(&self.name, self.win.ttl)).collect(); }
		self.sets.get(&(owner.clone(), ty)).map(|v| v.iter().map(|d| Rec::new(at, ty, self.win.ttl, d.clone())).collect()).unwrap_or_default()
	}
	/// Signatures over the RRset at `owner` (possibly a wildcard), placed at `at`.
	pub fn sigs(&self, owner: &Nm, ty: u16, at: &Nm) -> Vec<Rec> {
		let rd: Vec<Vec<u8>> = self.recs(owner, ty, owner).into_iter().map(|r| r.rdata).collect();
		let who = if ty == DNSKEY { &self.ksks } else { &self.zsks };
		who.iter().map(|k| sign_set(&self.keys[*k], &self.name, owner, at, ty, &rd, self.win)).collect()
	}
	pub fn signed(&self, owner: &Nm, ty: u16, at: &Nm) -> Vec<Rec> { let mut r = self.recs(owner, ty, at); r.extend(self.sigs(owner, ty, at)); r }
	/// The zone's DNSKEY RRset with its signatures.
	pub fn apex(&self) -> Vec<Rec> { self.signed(&self.name, DNSKEY, &self.name) }
	pub fn ds(&self, dt: u8) -> Vec<Rec> { self.ksks.iter().map(|k| self.keys[*k].ds(&self.name, dt, self.win.ttl)).collect() }

	fn occluded(&self, n: &Nm) -> bool { self.cuts.iter().any(|c| n.below(c)) }
	/// Owner names with authoritative data or a delegation (what NSEC records exist for).
	pub fn owners(&self) -> Vec<Nm> {
		let mut s: BTreeSet<Nm> = self.sets.keys().map(|(n, _)| n.clone()).filter(|n| !self.occluded(n)).collect();
		s.insert(self.name.clone());
		let mut v: Vec<Nm> = s.into_iter().collect();
		v.sort_by(|a, b| a.canon_cmp(b));
		v
	}
	/// Whether the name exists in the zone, empty non-terminals included.
	pub fn exists(&self, n: &Nm) -> bool { self.owners().iter().any(|o| o.within(n)) }
	pub fn closest_encloser(&self, q: &Nm) -> Nm {
		let mut n = q.clone();
		while !self.exists(&n) { n = n.parent().expect("the apex exists"); }
		n
	}
	pub fn types_at(&self, n: &Nm) -> Vec<u16> {
		let mut t: Vec<u16> = self.sets.keys().filter(|(o, _)| o == n).map(|(_, t)| *t).collect();
		if *n == self.name { t.push(DNSKEY); t.push(SOA); if !t.contains(&NS) { t.push(NS); } }
		t
	}
	/// The true result of a query within this zone.
	pub fn truth(&self, q: &Nm, ty: u16) -> Truth {
		assert!(q.within(&self.name));
		for c in &self.cuts { if q.below(c) || (q == c && ty != DS) { return Truth::Referral(c.clone()); } }
		for anc in q.ancestors_to(&self.name) { if self.sets.contains_key(&(anc.clone(), DNAME)) { return Truth::Dname(anc); } }
		if self.exists(q) {
			if self.sets.contains_key(&(q.clone(), ty)) || (*q == self.name && ty == DNSKEY) { return Truth::Exact; }
			if self.sets.contains_key(&(q.clone(), CNAME)) { return Truth::Cname; }
			return Truth::NoData;
		}
		let ce = self.closest_encloser(q);
		let w = ce.wild();
		let next_closer = q.trailing(ce.labels() + 1);
		if self.exists(&w) {
			if self.cuts.contains(&w) { return Truth::NoData; }
			if self.sets.contains_key(&(w.clone(), ty)) { return Truth::Wild { source: w, next_closer, cname: false }; }
			if self.sets.contains_key(&(w.clone(), CNAME)) { return Truth::Wild { source: w, next_closer, cname: true }; }
			return Truth::NoData;
		}
		Truth::NxDomain
	}
	/// The NSEC chain, without signatures.
	pub fn nsec_chain(&self) -> Vec<Rec> {
		let o = self.owners();
		(0..o.len()).map(|i| {
			let mut t = self.types_at(&o[i]);
			t.push(RRSIG); t.push(NSEC);
			Rec::new(&o[i], NSEC, self.win.ttl, nsec_rdata(&o[(i + 1) % o.len()], &t))
		}).collect()
	}
	/// The NSEC3 chain: (hash, record), without signatures.
	pub fn nsec3_chain(&self) -> Vec<(Vec<u8>, Rec)> {
		let (iters, salt, flags, algo) = match &self.denial { Denial::Nsec3 { iters, salt, flags, algo } => (*iters, salt.clone(), *flags, *algo), _ => (0, vec![], 0, 1) };
		let mut names: BTreeSet<Nm> = BTreeSet::new();
		for o in self.owners() {
			// Opt-out leaves out insecure delegations.
			if flags & 1 == 1 && self.cuts.contains(&o) && !self.sets.contains_key(&(o.clone(), DS)) { continue; }
			names.insert(o.clone());
			for a in o.ancestors_to(&self.name) { names.insert(a); }
		}
		let mut h: Vec<(Vec<u8>, Nm)> = names.into_iter().map(|n| (nsec3_hash(&n, iters, &salt), n)).collect();
		h.sort();
		(0..h.len()).map(|i| {
			let mut t = self.types_at(&h[i].1);
			if !t.is_empty() { t.push(RRSIG); }
			let next = &h[(i + 1) % h.len()].0;
			(h[i].0.clone(), Rec::new(&self.name.child(&base32hex(&h[i].0)), NSEC3, self.win.ttl, nsec3_rdata(algo, flags, iters, &salt, next, &t)))
		}).collect()
	}
	/// Signs a record of the denial chain (or any single record of this zone).
	pub fn sign_rec(&self, r: &Rec) -> Rec { sign_recs(&self.keys[self.zsks[0]], &self.name, std::slice::from_ref(r), self.win) }
	/// The denial record covering a nonexistent name, with its signature.
	pub fn cover(&self, n: &Nm) -> Vec<Rec> {
		let rec = match &self.denial {
			Denial::Nsec => {
				let c = self.nsec_chain();
				let i = c.iter().rposition(|r| r.name.canon_cmp(n).is_lt()).expect("the apex sorts first");
				c[i].clone()
			},
			Denial::Nsec3 { iters, salt, .. } => {
				let h = nsec3_hash(n, *iters, salt);
				let c = self.nsec3_chain();
				let i = c.iter().rposition(|(x, _)| *x < h).unwrap_or(c.len() - 1);
				c[i].1.clone()
			},
		};
		let s = self.sign_rec(&rec);
		vec![rec, s]
	}
	/// The NSEC covering `n` is the zone's last one (its next name is the apex).
	pub fn cover_is_last_nsec(&self, n: &Nm) -> bool {
		self.denial == Denial::Nsec && self.nsec_chain().last().map(|r| r.name.canon_cmp(n).is_lt()).unwrap_or(false)
	}
}

/// A tree of signed zones under the root.
#[derive(Clone, Debug, Default)]
pub struct World { pub zones: Vec<Zone> }
/// What a resolver answers.
#[derive(Clone, Debug, Default)]
pub struct Answer { pub an: Vec<Rec>, pub ns: Vec<Rec>, pub rcode: u8 }
impl World {
	pub fn zone(&self, n: &Nm) -> Option<&Zone> { self.zones.iter().find(|z| z.name == *n) }
	/// The zone authoritative for a name (for DS: the parent side of a cut).
	pub fn auth(&self, n: &Nm, ty: u16) -> &Zone {
		self.zones.iter().filter(|z| n.within(&z.name) && !(ty == DS && z.name == *n && n.labels() > 0)).max_by_key(|z| z.name.labels()).expect("the root encloses all")
	}
	/// An honest recursive answer, following aliases as resolvers do.
	pub fn answer(&self, q: &Nm, ty: u16) -> Answer {
		let mut a = Answer::default();
		let mut n = q.clone();
		for _ in 0..12 {
			let z = self.auth(&n, ty);
			match z.truth(&n, ty) {
				Truth::Exact => { push_all(&mut a.an, z.signed(&n, ty, &n)); return a; },
				Truth::Cname => {
					let r = z.signed(&n, CNAME, &n);
					let t = read_name(&r[0].rdata, 0).unwrap().0;
					push_all(&mut a.an, r);
					n = t;
				},
				Truth::Dname(anc) => {
					let r = z.signed(&anc, DNAME, &anc);
					let t = read_name(&r[0].rdata, 0).unwrap().0;
					let target = Nm(n.0[..n.labels() - anc.labels()].to_vec()).join(&t);
					push_all(&mut a.an, r);
					// The synthesized CNAME is not signed.
					push_all(&mut a.an, vec![Rec::new(&n, CNAME, z.win.ttl, target.wire())]);
					n = target;
				},
				Truth::Wild { source, next_closer, cname } => {
					let t = if cname { CNAME } else { ty };
					let r = z.signed(&source, t, &n);
					push_all(&mut a.ns, z.cover(&next_closer));
					if cname {
						let target = read_name(&r[0].rdata, 0).unwrap().0;
						push_all(&mut a.an, r);
						n = target;
					} else { push_all(&mut a.an, r); return a; }
				},
				Truth::Referral(_) => { a.rcode = 2; return a; },
				Truth::NoData => return a,
				Truth::NxDomain => { a.rcode = 3; return a; },
			}
		}
		a.rcode = 2;
		a
	}
	/// The records of a type a name truly resolves to: (final name, rdatas).
	pub fn resolve(&self, q: &Nm, ty: u16) -> Option<(Nm, Vec<Vec<u8>>)> {
		let mut n = q.clone();
		for _ in 0..12 {
			let z = self.auth(&n, ty);
			match z.truth(&n, ty) {
				Truth::Exact => return Some((n.clone(), z.recs(&n, ty, &n).into_iter().map(|r| r.rdata).collect())),
				Truth::Cname => n = read_name(&z.recs(&n, CNAME, &n)[0].rdata, 0).unwrap().0,
				Truth::Dname(anc) => {
					let t = read_name(&z.recs(&anc, DNAME, &anc)[0].rdata, 0).unwrap().0;
					n = Nm(n.0[..n.labels() - anc.labels()].to_vec()).join(&t);
				},
				Truth::Wild { source, cname, .. } => {
					if !cname { return Some((n.clone(), z.recs(&source, ty, &n).into_iter().map(|r| r.rdata).collect())); }
					n = read_name(&z.recs(&source, CNAME, &n)[0].rdata, 0).unwrap().0;
				},
				_ => return None,
			}
		}
		None
	}
	/// Whether the record is one an honest zone of this world has signed, at its own name or as the
	/// true answer by expansion of a wildcard.
	pub fn genuine(&self, r: &Rec) -> bool {
		self.zones.iter().filter(|z| r.name.within(&z.name)).any(|z| match z.truth(&r.name, r.ty) {
			Truth::Exact => z.recs(&r.name, r.ty, &r.name).iter().any(|x| x.same(r)),
			Truth::Cname | Truth::Dname(_) => false,
			Truth::Wild { source, cname: false, .. } => z.recs(&source, r.ty, &r.name).iter().any(|x| x.same(r)),
			_ => false,
		})
	}
	/// DNSKEY and DS records linking the root to `zone`, root first.
	pub fn chain(&self, zone: &Nm) -> Vec<Rec> {
		let mut r = self.zone(&Nm::root()).unwrap().apex();
		let mut path: Vec<&Zone> = self.zones.iter().filter(|z| zone.within(&z.name) && z.name.labels() > 0).collect();
		path.sort_by_key(|z| z.name.labels());
		let mut parent = self.zone(&Nm::root()).unwrap();
		for z in path {
			r.extend(parent.signed(&z.name, DS, &z.name));
			r.extend(z.apex());
			parent = z;
		}
		r
	}
}
fn push_all(to: &mut Vec<Rec>, from: Vec<Rec>) { for r in from { if !to.contains(&r) { to.push(r); } } }

/// A root zone signed by the trusted test key, with a separate zone-signing key.
pub fn root_zone() -> Zone { Zone::new(&Nm::root(), root_ksk(), Key::ed(1, ZONE)) }
