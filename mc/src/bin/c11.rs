//! C11: resolve_name follows CNAMEs and DNAMEs exactly.
use dnssec_prover::rr::*;
use dnssec_prover::validation::VerifiedRRStream;
use model::wire::{self, Nm, Rec};
use model::*;
use std::collections::BTreeSet;

const LIMIT: usize = 255;
/// A model name as the library would accept it, or nothing.
fn valid(n: &Nm) -> bool { wire::valid_text(&n.text()) }
/// The names that a query may come to rest at (several only if records contradict each other);
/// `None` stands for nothing.
/// Gives up (`None`) beyond six possibilities.
fn reference(recs: &[Rec], q: &Nm) -> Option<BTreeSet<Option<Nm>>> {
	let mut at: BTreeSet<Option<Nm>> = BTreeSet::from([Some(q.clone())]);
	let mut done = BTreeSet::new();
	let mut seen: Vec<BTreeSet<Option<Nm>>> = Vec::new();
	for hop in 0..=LIMIT {
		let mut next = BTreeSet::new();
		for n in at {
			let Some(n) = n else { done.insert(None); continue };
			let cn: Vec<&Rec> = recs.iter().filter(|r| r.ty == wire::CNAME && r.name == n).collect();
			if !cn.is_empty() { for r in cn { next.insert(Some(wire::read_name(&r.rdata, 0).unwrap().0)); } continue; }
			let dn: Vec<&Rec> = recs.iter().filter(|r| r.ty == wire::DNAME && n.below(&r.name)).collect();
			if dn.is_empty() { done.insert(Some(n)); continue; }
			for r in dn {
				let t = Nm(n.0[..n.labels() - r.name.labels()].to_vec()).join(&wire::read_name(&r.rdata, 0).unwrap().0);
				next.insert(if valid(&t) { Some(t) } else { None });
			}
		}
		if next.is_empty() { return Some(done); }
		if next.len() > 6 { return None; }
		// Back where it was: this goes on beyond any limit.
		if seen.contains(&next) { done.insert(None); return Some(done); }
		if seen.len() < 4 || hop % 16 == 0 { seen.push(next.clone()); }
		if hop == LIMIT { done.insert(None); }
		at = next;
	}
	Some(done)
}
fn rr(r: &Rec) -> RR {
	let n = glue::name(&r.name);
	let t = || glue::name(&wire::read_name(&r.rdata, 0).unwrap().0);
	match r.ty {
		wire::CNAME => CName { name: n, canonical_name: t() }.into(),
		wire::DNAME => DName { name: n, delegation_name: t() }.into(),
		wire::A => A { name: n, address: r.rdata[..].try_into().unwrap() }.into(),
		wire::TXT => Txt { name: n, data: r.rdata[1..].to_vec() }.into(),
		wire::NS => NS { name: n, name_server: t() }.into(),
		wire::AAAA => AAAA { name: n, address: r.rdata[..].try_into().unwrap() }.into(),
		wire::TLSA => TLSA { name: n, cert_usage: r.rdata[0], selector: r.rdata[1], data_ty: r.rdata[2], data: r.rdata[3..].to_vec() }.into(),
		_ => unreachable!(),
	}
}
fn check(recs: &[Rec], q: &Nm, ch: &mut Chooser) -> Res {
	let rrs: Vec<RR> = recs.iter().map(rr).collect();
	let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 0 };
	let got = v.resolve_name(&glue::name(q));
	let base = rrs.as_ptr() as usize;
	let mut idx: Vec<usize> = got.iter().map(|r| (*r as *const RR as usize).wrapping_sub(base) / std::mem::size_of::<RR>()).collect();
	let Some(ends) = reference(recs, q) else { return Ok("contradictory") };
	ch.note(|| format!("{:?}\nresolving {}: records {:?}; may end at {:?}", recs, q.text(), idx, ends.iter().map(|e| e.as_ref().map(|n| n.text())).collect::<Vec<_>>()));
	idx.sort();
	for e in &ends {
		let want: Vec<usize> = match e { Some(n) => (0..recs.len()).filter(|i| recs[*i].name == *n).collect(), None => vec![] };
		if want == idx { return Ok(if e.is_none() { "nothing" } else if *e == Some(q.clone()) { "direct" } else { "redirected" }); }
	}
	bad("resolve", format!("{} resolves to records {:?}, expected those at one of {:?}", q.text(), idx, ends.iter().map(|e| e.as_ref().map(|n| n.text())).collect::<Vec<_>>()))
}
fn redirect(cn: bool, from: &Nm, to: &Nm) -> Rec { Rec::new(from, if cn { wire::CNAME } else { wire::DNAME }, 0, to.wire()) }

fn main() {
	let mc = Mc::new("C11");
	let n = |s: &str| Nm::new(s);
	// Every set of up to three redirections among these names.
	let owners: Vec<Nm> = ["a.", "b.", "x.a.", "a.b.", ".", "xa."].iter().map(|s| n(s)).collect();
	let targets: Vec<Nm> = ["a.", "b.", "x.a.", "y.b.", "."].iter().map(|s| n(s)).collect();
	let queries: Vec<Nm> = ["a.", "b.", "x.a.", "x.b.", "xa.", "x.x.a.", "y.xa.", "y.x.a.", ".", "c.", "y.a.b."].iter().map(|s| n(s)).collect();
	let mut pool: Vec<Rec> = Vec::new();
	for o in &owners { for t in &targets { for cn in [true, false] { pool.push(redirect(cn, o, t)); } } }
	let mut data: Vec<Rec> = Vec::new();
	let mut named: BTreeSet<Nm> = owners.iter().chain(&targets).chain(&queries).cloned().collect();
	for s in ["x.", "y.", "x.x.b.", "y.x.b.", "x.y.b.", "y.x.", "x.x.", "a.a.", "y.y.b.", "x.a.b.", "x.x.x.a."] { named.insert(n(s)); }
	for (i, x) in named.iter().enumerate() {
		data.push(Rec::new(x, wire::A, 0, vec![i as u8; 4]));
		if i % 2 == 0 { data.push(Rec::new(x, wire::TXT, 0, vec![1, i as u8])); }
		if i % 3 == 0 { data.push(Rec::new(x, wire::A, 0, vec![0, 0, 0, i as u8])); data.push(Rec::new(x, wire::NS, 0, x.wire())); }
	}
	let max = mc.tier(3, 4);
	mc.explore("redirections among few names", 0, |ch| {
		let mut recs = Vec::new();
		let mut from = 0;
		for _ in 0..max {
			if from >= pool.len() { break; }
			let c = ch.choose(pool.len() - from + 1);
			if c == 0 { break; }
			recs.push(pool[from + c - 1].clone());
			from += c;
		}
		let redirs = recs.len();
		let front = redirs % 2 == 0;
		if front { let mut v = data.clone(); v.extend(recs); recs = v; } else { recs.extend(data.clone()); }
		let mut last = "direct";
		for q in &queries { last = check(&recs, q, ch)?; }
		Ok(last)
	});
	mc.measured("queries per set of redirections", queries.len());
	// All orders of the records.
	mc.explore("record orders", 0, |ch| {
		let sets = [
			vec![redirect(true, &n("a."), &n("x.b.")), redirect(false, &n("b."), &n("c.d.")), Rec::new(&n("x.c.d."), wire::A, 0, vec![1; 4]), Rec::new(&n("x.c.d."), wire::TXT, 0, vec![1, 1])],
			vec![redirect(false, &n("b."), &n("c.")), redirect(true, &n("x.b."), &n("d.")), Rec::new(&n("x.c."), wire::A, 0, vec![1; 4]), Rec::new(&n("d."), wire::A, 0, vec![2; 4]), Rec::new(&n("x.b."), wire::A, 0, vec![3; 4])],
			vec![redirect(false, &n("b."), &n("c.")), Rec::new(&n("b."), wire::A, 0, vec![1; 4]), Rec::new(&n("ab."), wire::A, 0, vec![2; 4]), Rec::new(&n("c."), wire::A, 0, vec![3; 4]), Rec::new(&n("a.c."), wire::A, 0, vec![4; 4])],
		];
		let s = ch.pick(&sets);
		let p = ch.permutation(s.len());
		let recs: Vec<Rec> = p.iter().map(|i| s[*i].clone()).collect();
		let mut last = "direct";
		for q in ["a.", "b.", "x.b.", "a.b.", "ab.", "y.x.b.", "d.", "c."] { last = check(&recs, &n(q), ch)?; }
		Ok(last)
	});
	// Chains of every length around the limit, and loops of every length entered at every distance.
	mc.range("long chains", 300, |i, ch| {
		let len = i as usize;
		let names: Vec<Nm> = (0..=len).map(|j| n(&format!("n{}.", j))).collect();
		let mut last = "direct";
		for kind in 0..3 {
			let mut recs: Vec<Rec> = (0..len).map(|j| redirect(kind == 0 || (kind == 2 && j % 2 == 0), &names[j], &names[j + 1])).collect();
			let under = kind == 1;
			let q = if under { names[0].child("q") } else { names[0].clone() };
			if kind == 2 { for j in 0..len { if j % 2 == 1 { recs[j] = redirect(true, &names[j], &names[j + 1]); } } }
			recs.push(Rec::new(&if under { names[len].child("q") } else { names[len].clone() }, wire::A, 0, vec![1; 4]));
			if kind == 2 { recs.reverse(); }
			last = check(&recs, &q, ch)?;
		}
		Ok(last)
	});
	mc.explore("loops", 0, |ch| {
		let (lead, cycle) = (ch.choose(4), 1 + ch.choose(5));
		let total = lead + cycle;
		let names: Vec<Nm> = (0..total).map(|j| n(&format!("n{}.", j))).collect();
		let recs: Vec<Rec> = (0..total).map(|j| redirect(ch.flag(), &names[j], &names[if j + 1 < total { j + 1 } else { lead }])).collect();
		let q = if ch.flag() { names[0].clone() } else { names[0].child("q") };
		check(&recs, &q, ch)
	});
	// DNAMEs that lengthen or shorten the name each time.
	mc.explore("growing names", 0, |ch| {
		let (own, target) = *ch.pick(&[("a.", "a.a."), ("a.", "b.a."), ("a.", "a.b."), (".", "a."), ("a.", "."), ("b.a.", "a."), ("a.", "longlonglonglonglonglong.a.")]);
		let mut recs = vec![redirect(false, &n(own), &n(target))];
		if ch.flag() { recs.push(redirect(true, &n("c."), &n("q.a."))); }
		if ch.flag() { recs.push(redirect(false, &n("b."), &n("a."))); }
		for x in ["q.b.", "q.", "q.a.b.", "b.", "a.b.", "q.a.", "q.q.a."] { recs.push(Rec::new(&n(x), wire::A, 0, vec![1; 4])); }
		let q = n(*ch.pick(&["q.a.", "q.q.a.", "c.", "a.", "b.", "q.b.", "q.c.a.", ".", "q.b.a."]));
		check(&recs, &q, ch)
	});
	// Names around the length limit.
	mc.explore("length limit", 0, |ch| {
		let fill = |len: usize| -> String { let mut s = String::new(); while s.len() < len { let l = (len - s.len() - 1).min(60); let l = if len - s.len() - 1 - l == 1 { l - 1 } else { l }; s += &"p".repeat(l); s.push('.'); } s };
		let prefix = 2 + ch.choose(mc.tier(130, 240));
		let total = 250 + ch.choose(10);
		if total < prefix + 2 || total - prefix > 240 { return Ok("out of range"); }
		let t = fill(total - prefix);
		let q = fill(prefix) + "d.";
		if !wire::valid_text(&q) || !wire::valid_text(&t) { return Ok("no such names"); }
		let full = fill(prefix) + &t;
		let mut recs = vec![redirect(false, &n("d."), &n(&t))];
		// Data at the redirected name itself is not the answer.
		recs.push(Rec::new(&n(&q), wire::A, 0, vec![2; 4]));
		if wire::valid_text(&full) { recs.push(Rec::new(&n(&full), wire::A, 0, vec![1; 4])); }
		check(&recs, &n(&q), ch)
	});
	// What is found at the end is all there is, of whatever types.
	mc.explore("types at the end", 0, |ch| {
		let q = n("q.");
		let mut recs: Vec<Rec> = match ch.choose(4) { 0 => vec![], 1 => vec![redirect(true, &q, &n("t."))], 2 => vec![redirect(false, &n("."), &n("t."))], _ => vec![redirect(true, &q, &n("u.v.")), redirect(false, &n("v."), &n("t."))] };
		let k = recs.len();
		let end = match (k, recs.first().map(|r| r.ty)) { (0, _) => q.clone(), (1, Some(wire::CNAME)) => n("t."), _ => if k == 2 { n("u.t.") } else { n("q.t.") } };
		// A DNAME of the root applies to its own result again.
		if k == 1 && recs[0].ty == wire::DNAME { recs[0] = redirect(false, &n("q."), &n("t.")); }
		let (q, end) = if k == 1 && recs[0].ty == wire::DNAME { (n("p.q."), n("p.t.")) } else { (q, end) };
		let types: Vec<u16> = wire::DATA.iter().copied().filter(|t| *t != wire::CNAME).collect();
		for i in ch.subset(types.len()) {
			recs.push(Rec::new(&end, types[i], 0, wire::sample(types[i], 1)));
			if ch.flag() && types[i] != wire::DNAME { recs.push(Rec::new(&end, types[i], 0, wire::sample(types[i], 2))); }
		}
		for t in &types { recs.push(Rec::new(&n("o."), *t, 0, wire::sample(*t, 3))); }
		check(&recs, &q, ch)
	});
	// Letter case does not matter.
	mc.explore("letter case", 0, |ch| {
		let recs = vec![redirect(true, &n("a."), &n("x.b.")), redirect(false, &n("b."), &n("c.")), Rec::new(&n("x.c."), wire::A, 0, vec![1; 4])];
		let q = *ch.pick(&["a.", "A.", "X.b.", "x.B.", "X.C."]);
		let rrs: Vec<RR> = recs.iter().map(rr).collect();
		let v = VerifiedRRStream { verified_rrs: rrs.iter().collect(), valid_from: 0, expires: 1, max_cache_ttl: 0 };
		if v.resolve_name(&Name::try_from(q).unwrap()).len() != 1 { return bad("case", format!("{} does not resolve", q)); }
		Ok("redirected")
	});
	// Labels of every sort, in each place of a redirection: none of them means anything here.
	mc.explore("labels of every sort", 0, |ch| {
		let sorts = ["a", "*", "**", "_25", "_", "-", "0", "xn--a", "\\", "~", "_tcp", "com"];
		let (l1, l2, l3) = (*ch.pick(&sorts), *ch.pick(&sorts), *ch.pick(&sorts));
		let (own, to) = (n("b.").child(l1), n("c.").child(l2));
		let cn = ch.flag();
		// Asked for: below a DNAME (one or two labels), or the CNAME itself.
		let q = if cn { own.clone() } else if ch.flag() { own.child(l3) } else { own.child(l3).child("d") };
		let mut recs = vec![redirect(cn, &own, &to)];
		let mut end = Nm(q.0[..q.labels() - own.labels()].to_vec()).join(&to);
		// Another step.
		match ch.choose(3) {
			1 => { let e = n("e.").child(l3); recs.push(redirect(true, &end, &e)); end = e; },
			2 => { recs.push(redirect(false, &n("c."), &n("e.").child(l3))); end = Nm(end.0[..end.labels() - 1].to_vec()).join(&n("e.").child(l3)); },
			_ => {},
		}
		for (i, x) in [&end, &q, &own, &to, &own.parent().unwrap().wild(), &end.parent().unwrap().wild()].into_iter().enumerate() { let r = Rec::new(x, wire::A, 0, vec![i as u8; 4]); if !recs.iter().any(|o| o.name == *x && o.ty == r.ty) { recs.push(r); } }
		if ch.flag() { recs.reverse(); }
		check(&recs, &q, ch)?;
		check(&recs, &end, ch)
	});
	// Any number of records at the final name, and of redirections that lead elsewhere before and after those that count.
	mc.explore("many records", 0, |ch| {
		let k = 1 + ch.choose(mc.tier(70, 300));
		let what = ch.choose(6);
		let mut recs: Vec<Rec> = Vec::new();
		let (q, real) = match what {
			0 | 1 => (n("q."), redirect(true, &n("q."), &n("t."))),
			_ => (n("t.q."), redirect(false, &n("q."), &n("."))),
		};
		// Its place among the others.
		let at = match ch.choose(4) { 0 => 0, 1 => k / 2, 2 => k - 1, _ => k };
		for i in 0..=k {
			if i == at { recs.push(real.clone()); }
			if i == k { break; }
			recs.push(match what {
				// Data of the final name.
				0 | 2 => Rec::new(&n("t."), wire::A, 0, vec![1, 1, (i >> 8) as u8, i as u8]),
				1 | 3 => redirect(i % 2 == 0, &n(&format!("o{}.", i)), &n("t.")),
				// Records of names that end alike.
				4 => redirect(i % 2 == 0, &n(&format!("{}q.", "x".repeat(i % 60 + 1))), &n("o.")),
				_ => Rec::new(&n(&format!("{}t.", "x.".repeat(i % 120 + 1))), wire::TXT, 0, vec![1, i as u8]),
			});
		}
		recs.push(Rec::new(&n("t."), wire::TXT, 0, vec![1, 7]));
		check(&recs, &q, ch)
	});
	// Any number of labels before, in and behind a DNAME, and of a CNAME.
	mc.explore("many labels", 0, |ch| {
		let labels = |k: usize, l: &str| -> String { format!("{}.", l).repeat(k) };
		let (pre, own, to) = match ch.choose(4) { 0 => (1 + ch.choose(126), 1, 0), 1 => (1, 1 + ch.choose(125), 0), 2 => (1, 1, 1 + ch.choose(125)), _ => { let k = 1 + ch.choose(60); (k, ch.choose(40), ch.choose(60)) } };
		let (o, t) = (n(&if own == 0 { ".".into() } else { labels(own, "o") }), n(&if to == 0 { ".".into() } else { labels(to, "t") }));
		let q = o.0.clone().into_iter().rev().chain((0..pre).map(|i| vec![b"pq"[i % 2]])).rev().collect();
		let q = Nm(q);
		let end = Nm(q.0[..pre].to_vec()).join(&t);
		if !valid(&q) || !valid(&o) || !valid(&t) { return Ok("no such names"); }
		let mut recs = vec![redirect(false, &o, &t), redirect(true, &o, &n("o.c."))];
		if valid(&end) { recs.push(Rec::new(&end, wire::A, 0, vec![1; 4])); recs.push(redirect(true, &end.child("c"), &end)); }
		// The names beside: one label more or less, of the owner, the target and the query.
		for x in [&q, &o, &t] { for y in [x.child("y"), x.parent().unwrap_or(x.clone())] { if valid(&y) && !recs.iter().any(|r| r.name == y) { recs.push(Rec::new(&y, wire::A, 0, vec![2; 4])); } } }
		check(&recs, &q, ch)?;
		check(&recs, &o, ch)
	});
	// Names which repeat their labels, or have labels which end alike: every name of up to four labels.
	let words = mc.tier(&["a", "b", "-a"][..], &["a", "b", "-a", "aa"]);
	let mut upto: Vec<Vec<Nm>> = vec![vec![Nm::root()]];
	for _ in 0..4 { let v = upto.last().unwrap().iter().flat_map(|n| words.iter().map(move |l| n.child(l))).collect(); upto.push(v); }
	let short: Vec<Nm> = upto[..3].concat();
	let mut data: Vec<Rec> = upto[..4].concat().iter().enumerate().map(|(i, x)| Rec::new(x, wire::A, 0, vec![i as u8; 4])).collect();
	data.sort_by_key(|r| r.rdata[0].reverse_bits());
	let long: Vec<Nm> = upto.concat();
	let second: Vec<Option<Rec>> = std::iter::once(None).chain(["a.", "a.a.", "b.a."].iter().flat_map(|o| ["b.", "a.a.", "-a."].iter().flat_map(move |t| [true, false].map(|cn| Some(redirect(cn, &Nm::new(o), &Nm::new(t))))))).collect();
	mc.explore("names with labels alike", 0, |ch| {
		let (o, t) = (ch.pick(&short), ch.pick(&short));
		let r = redirect(ch.flag(), o, t);
		let mut recs = vec![r];
		if let Some(s) = ch.pick(&second) { if !recs.iter().any(|r| r.name == s.name && r.ty == s.ty) { recs.push(s.clone()); } }
		recs.extend(data.iter().cloned());
		let from = ch.choose(4) * long.len() / 4;
		let mut last = "direct";
		for q in &long[from..(from + long.len() / 4 + 1).min(long.len())] { last = check(&recs, q, ch)?; }
		Ok(last)
	});
	mc.finish()
}
