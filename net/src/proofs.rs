//! Proof building over the simulated network, judged by the builder run without transport.
use crate::resolver::*;
use crate::*;
use dnssec_prover::query::*;
use model::*;
use std::io::{Error, ErrorKind};

pub type Out = Result<(Vec<u8>, u32), Error>;
pub const TYPES: [u16; 4] = [wire::TXT, wire::A, wire::AAAA, wire::TLSA];
/// The blocking builder.
pub fn blocking(name: &str, ty: u16) -> Option<Out> {
	let n = name.try_into().unwrap();
	let to = "192.0.2.53:53".parse().unwrap();
	Some(match ty { wire::TXT => build_txt_proof(to, &n), wire::A => build_a_proof(to, &n), wire::AAAA => build_aaaa_proof(to, &n), _ => build_tlsa_proof(to, &n) })
}
/// The async builder, on a runtime of its own; `None` if it waits for ever.
pub fn asynchronous(name: &str, ty: u16) -> Option<Out> {
	let n = name.try_into().unwrap();
	let to = "192.0.2.53:53".parse().unwrap();
	tokiowrap::mc_run(async {
		match ty { wire::TXT => build_txt_proof_async(to, &n).await, wire::A => build_a_proof_async(to, &n).await, wire::AAAA => build_aaaa_proof_async(to, &n).await, _ => build_tlsa_proof_async(to, &n).await }
	})
}
pub type Build = fn(&str, u16) -> Option<Out>;
/// Names below a wildcard, of every number of labels and every length.
pub fn long_names() -> Vec<String> {
	let mut v: Vec<String> = Vec::new();
	for l in 1..=63 {
		let mut n = "w.one.".to_string();
		while n.len() + l + 1 <= 255 { n = format!("{}.{}", "x".repeat(l), n); v.push(n.clone()); }
		// Filled up with a last label of what is left.
		let left = 255 - n.len();
		if left >= 2 { v.push(format!("{}.{}", "y".repeat(left - 1), n)); }
	}
	for c in 33u8..127 { if c != b'.' { v.push(format!("{}.w.one.", c as char)); } }
	v.retain(|n| dnssec_prover::rr::Name::try_from(n.as_str()).is_ok());
	v
}
/// What was meant to go wrong.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault { None, Cut, Send, Connect }

pub fn check(ch: &mut Chooser, build: Build, name: &str, ty: u16, res: Resolver, fault: Fault, setup: impl FnOnce(&mut Net)) -> Res {
	let (r, net, env) = with_net(ch, res, setup, || build(name, ty));
	if let Some(u) = &net.unknown { return Err(Bad { key: "unknown".into(), msg: format!("the program makes a call the simulation does not know: {}", u) }); }
	let Some(r) = r else {
		let (sent, read) = env.conns.first().map(|c| (net.socks[c.sock].out.len(), net.socks[c.sock].read)).unwrap_or((0, 0));
		return bad("hang", format!("waits for ever, having sent {} and read {} bytes", sent, read));
	};
	ch.note(|| format!("{} type {}: {} system calls, result {}", name, ty, net.calls, match &r { Ok((p, t)) => format!("{} bytes of proof, TTL {}", p.len(), t), Err(e) => format!("{:?} {}", e.kind(), e) }));
	if env.conns.len() != 1 { return bad("connections", format!("{} connections for one proof", env.conns.len())); }
	let c = &env.conns[0];
	let k = &net.socks[c.sock];
	if k.port != 53 { return bad("connections", "connected to another port"); }
	if fault == Fault::Connect {
		return if r.is_ok() || !k.out.is_empty() { bad("connect", "went on although the connection failed") } else { Ok("connection refused") };
	}
	if !k.closed { return bad("leak", "the connection is left open"); }
	let e = expected(name, ty, &c.stream);
	if net.hang { return bad("hang", format!("waits for what never comes, having sent {} and read {} of {} bytes", k.out.len(), k.read, c.stream.len())); }
	let class = match (&e.proof, fault) {
		(Some(_), Fault::Send) => return Err(Bad { key: "model".into(), msg: "a send failure met a whole proof".into() }),
		// A reset discards what the program has not read, so the last bytes may or may not get through.
		(Some(p), Fault::Cut) => match &r { Ok(g) if g != p => return bad("result", "another proof"), Ok(_) => "whole before the end", Err(_) if k.rst_seen => "reset before the end", Err(_) => return bad("result", "error although all was there") },
		(Some(p), _) => match &r { Ok(g) if g == p => "proof", Ok(g) => return bad("result", format!("a proof of {} bytes and TTL {}, not {} bytes and TTL {}", g.0.len(), g.1, p.0.len(), p.1)), Err(e) => return bad("result", format!("error {:?} {} although the replies make a proof", e.kind(), e)) },
		(None, _) => match &r {
			Ok(_) => return bad("result", "a proof although the replies do not make one"),
			Err(er) => {
				if e.waiting && fault == Fault::None { return bad("model", "the resolver left queries unanswered"); }
				if !e.waiting && fault == Fault::None && er.kind() == ErrorKind::UnexpectedEof { return bad("result", "reports an end of the connection that did not happen"); }
				if e.waiting { "cut off" } else { "error" }
			},
		},
	};
	if fault == Fault::Send || k.rst_seen {
		if !e.queries.starts_with(&k.out) { return bad("queries", "sent other than the queries"); }
	} else if e.queries != k.out {
		return bad("queries", format!("sent {} bytes, not the {} bytes of the queries", k.out.len(), e.queries.len()));
	}
	Ok(class)
}
/// Bytes of all replies of an undisturbed run.
pub fn stream_len(build: Build, name: &str, ty: u16) -> usize {
	let mut ch = Chooser::scripted(&[]);
	let (r, _, env) = with_net(&mut ch, Resolver::honest(), |_| {}, || build(name, ty));
	if !matches!(r, Some(Ok(_))) { return 0; }
	env.conns[0].stream.len()
}
pub fn out_len(build: Build, name: &str, ty: u16) -> usize {
	let mut ch = Chooser::scripted(&[]);
	let (_, net, env) = with_net(&mut ch, Resolver::honest(), |_| {}, || build(name, ty));
	net.socks[env.conns[0].sock].out.len()
}

/// Replies that are not what they should be: each makes the bytes to send from the honest message.
pub const BAD: [(&str, fn(Vec<u8>) -> Vec<u8>); 14] = [
	("truncated flag", |mut m| { m[2] |= 2; framed(&m) }),
	("server failure", |mut m| { m[3] = m[3] & 0xf0 | 2; framed(&m) }),
	("no such name", |mut m| { m[3] = m[3] & 0xf0 | 3; framed(&m) }),
	("not authenticated", |mut m| { m[3] &= !0x20; framed(&m) }),
	("other transaction", |mut m| { m[1] = 1; framed(&m) }),
	("a query", |mut m| { m[2] &= 0x7f; framed(&m) }),
	("last byte missing", |mut m| { m.pop(); framed(&m) }),
	("extra byte", |mut m| { m.push(0); framed(&m) }),
	("empty", |_| framed(&[])),
	("one byte", |_| framed(&[0])),
	("header only", |mut m| { m.truncate(12); framed(&m) }),
	("zeros", |_| framed(&[0; 600])),
	("largest, zeros", |_| framed(&[0; 65535])),
	("answer count too large", |mut m| { m[7] += 1; framed(&m) }),
];
/// A reply of exactly this many bytes: the honest records and filler records that no proof minds.
pub fn padded(m: Vec<u8>, len: usize) -> Vec<u8> {
	let d = wire::decode(&m).expect("own message");
	let mut fill: Vec<usize> = Vec::new(); // lengths of TXT data
	let rec = 11 + 1; // owner ".", type, class, TTL, length; one character string's length
	let mut left = len as isize - m.len() as isize;
	if left < rec as isize { return framed(&m); }
	while left > 0 {
		let mut k = (left as usize - rec).min(200);
		let rest = left as usize - rec - k;
		if rest > 0 && rest < rec { k -= rec - rest; }
		fill.push(k);
		left -= (rec + k) as isize;
	}
	let mut o = m.clone();
	let n = d.an.len() + fill.len();
	o[6..8].copy_from_slice(&(n as u16).to_be_bytes());
	// No authority or additional records follow the answers in these messages.
	if !d.ns.is_empty() || !d.ar.is_empty() { return framed(&m); }
	for (i, k) in fill.iter().enumerate() {
		wire::Rec::new(&wire::Nm::root(), wire::TXT, 7200 + i as u32, { let mut v = vec![*k as u8]; v.resize(1 + k, b'f'); v }).write(&mut o);
	}
	assert_eq!(o.len(), len);
	framed(&o)
}


/// The message with another TTL in one of its records.
pub fn with_ttl(mut m: Vec<u8>, k: usize, ttl: u32) -> Vec<u8> {
	let Ok((_, mut at)) = wire::read_name(&m, 12) else { return m };
	at += 4;
	for i in 0.. {
		if at >= m.len() { break; }
		let Ok((_, a)) = wire::read_name(&m, at) else { break };
		if i == k { m[a + 4..a + 8].copy_from_slice(&ttl.to_be_bytes()); break; }
		at = a + 10 + u16::from_be_bytes([m[a + 8], m[a + 9]]) as usize;
	}
	m
}
/// A resolver with one unusual TTL in one record of one reply.
pub fn odd_ttl(ch: &mut Chooser) -> Resolver {
	let (at, k) = (ch.choose(4), ch.choose(3));
	let ttl = *ch.pick(&[0u32, 1, 59, 61, 3600, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
	let all = ch.flag();
	ch.note(|| format!("record {} of reply {} has TTL {}{}", k, at, ttl, if all { ", all others the largest" } else { "" }));
	let mut r = Resolver::honest();
	r.reply = Some(Box::new(move |i, m| {
		let mut m = m;
		// All others live for ever, or as they do.
		if all { for k in 0..20 { m = with_ttl(m, k, u32::MAX); } }
		if i == at { m = with_ttl(m, k, ttl); }
		framed(&m)
	}));
	r
}
/// A resolver whose replies are all large.
pub fn all_large(ch: &mut Chooser) -> Resolver {
	let lens = [*ch.pick(&[0usize, 16000, 65535]), *ch.pick(&[0usize, 32768, 65535]), *ch.pick(&[0usize, 65535])];
	ch.note(|| format!("reply lengths {:?}", lens));
	let mut r = Resolver::honest();
	r.reply = Some(Box::new(move |i, m| padded(m, lens[i % 3])));
	r
}
