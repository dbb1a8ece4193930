//! A recursive resolver on the simulated network, and what a client of it should make of its answers.
use crate::*;
use dnssec_prover::query::ProofBuilder;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;

pub fn nm(s: &str) -> Nm { Nm::new(s) }
fn delegated(parent: &mut Zone, name: &str, seed: u32) -> Zone {
	let z = Zone::new(&nm(name), Key::ed(seed, ZONE | SEP), Key::ed(seed + 1, ZONE));
	let ds = z.ds(2);
	parent.delegate(&z.name, &ds);
	z
}
/// Root, one., two.one. and a chain down to five zones (ten queries) and six (too many).
pub fn world() -> &'static World {
	static W: OnceLock<World> = OnceLock::new();
	W.get_or_init(|| {
		let mut root = root_zone();
		let mut one = delegated(&mut root, "one.", 500);
		for (n, d) in [("one.", "apex"), ("a.one.", "data of a"), ("b.one.", "data of b"), ("*.w.one.", "data of a wildcard")] {
			one.add(&nm(n), TXT, txt_rdata(d.as_bytes()));
			one.add(&nm(n), A, vec![192, 0, 2, n.len() as u8]);
			one.add(&nm(n), AAAA, (0..16).map(|i| i * n.len() as u8).collect());
			one.add(&nm(n), TLSA, tlsa_rdata(3, 1, 1, &sha256(d.as_bytes())));
		}
		one.add(&nm("big.one."), TXT, txt_rdata(&vec![b'x'; 3000]));
		one.add(&nm("c.one."), CNAME, nm("x.two.one.").wire());
		let mut two = delegated(&mut one, "two.one.", 510);
		two.add(&nm("x.two.one."), TXT, txt_rdata(b"x in two"));
		two.win.ttl = 60;
		let mut three = delegated(&mut two, "three.two.one.", 520);
		let mut four = delegated(&mut three, "four.three.two.one.", 530);
		four.add(&nm("four.three.two.one."), TXT, txt_rdata(b"ten queries"));
		let mut five = delegated(&mut four, "five.four.three.two.one.", 540);
		five.add(&nm("five.four.three.two.one."), TXT, txt_rdata(b"twelve queries"));
		World { zones: vec![root, one, two, three, four, five] }
	})
}
/// The honest response to a query message.
pub fn answer(query: &[u8]) -> Vec<u8> {
	thread_local! { static MEMO: RefCell<HashMap<Vec<u8>, Vec<u8>>> = RefCell::new(HashMap::new()); }
	if let Some(a) = MEMO.with(|m| m.borrow().get(query).cloned()) { return a; }
	let a = match decode(query) {
		Ok(m) if m.q.len() == 1 => {
			let a = world().answer(&m.q[0].name, m.q[0].ty);
			let mut w = MsgWriter::new(m.id, 0x81a0 | a.rcode as u16, [1, a.an.len() as u16, a.ns.len() as u16, 0], Compress::All);
			w.question(&m.q[0].name, m.q[0].ty, m.q[0].class);
			for r in a.an.iter().chain(&a.ns) { w.record(r); }
			w.out
		},
		_ => { let mut w = MsgWriter::new(0, 0x81a1, [0; 4], Compress::None); std::mem::take(&mut w.out) },
	};
	MEMO.with(|m| m.borrow_mut().insert(query.to_vec(), a.clone()));
	a
}
pub fn framed(m: &[u8]) -> Vec<u8> { let mut v = (m.len() as u16).to_be_bytes().to_vec(); v.extend_from_slice(m); v }
/// Whole messages at the start of a stream, and what is left over.
pub fn frames(mut b: &[u8]) -> (Vec<Vec<u8>>, Vec<u8>) {
	let mut v = Vec::new();
	while b.len() >= 2 {
		let n = u16::from_be_bytes([b[0], b[1]]) as usize;
		if b.len() < 2 + n { break; }
		v.push(b[2..2 + n].to_vec());
		b = &b[2 + n..];
	}
	(v, b.to_vec())
}

/// One connection to the resolver.
pub struct Conn { pub sock: usize, seen: usize, pub queries: Vec<Vec<u8>>, pending: Vec<Vec<u8>>, replies: usize, pub stream: Vec<u8>, pub ended: bool }
pub type Reply = Box<dyn Fn(usize, Vec<u8>) -> Vec<u8>>;
pub struct Resolver {
	pub conns: Vec<Conn>,
	/// Errors that connections meet, by connection (0: none).
	pub connect: Vec<i32>,
	/// Makes the bytes sent (framing included) for the n-th reply of a connection from the honest message.
	pub reply: Option<Reply>,
	/// Ends each stream of replies after so many bytes.
	pub cut: Option<(usize, End)>,
	/// Ends the connection after so many replies.
	pub close_after: Option<usize>,
	pub send_fault: Option<(usize, i32)>,
	/// Never answers on these connections.
	pub stall: Vec<usize>,
	/// The faults above (but for `connect` and `stall`) strike this connection only.
	pub only: Option<usize>,
}
impl Resolver {
	pub fn honest() -> Resolver { Resolver { conns: Vec::new(), connect: Vec::new(), reply: None, cut: None, close_after: None, send_fault: None, stall: Vec::new(), only: None } }
	pub fn connecting(&mut self, net: &mut Net, sock: usize) -> i32 {
		let e = self.connect.get(self.conns.len()).copied().unwrap_or(0);
		if self.only.map_or(true, |o| o == self.conns.len()) { net.socks[sock].send_fault = self.send_fault; }
		self.conns.push(Conn { sock, seen: 0, queries: Vec::new(), pending: Vec::new(), replies: 0, stream: Vec::new(), ended: false });
		e
	}
	pub fn conn(&self, sock: usize) -> Option<usize> { self.conns.iter().position(|c| c.sock == sock) }
	pub fn sent(&mut self, net: &mut Net, sock: usize) {
		let Some(i) = self.conn(sock) else { return };
		let c = &mut self.conns[i];
		let (q, left) = frames(&net.socks[sock].out[c.seen..]);
		c.seen = net.socks[sock].out.len() - left.len();
		for m in q { c.pending.push(answer(&m)); c.queries.push(m); }
		if self.stall.contains(&i) { c.pending.clear(); }
		if let (Some((0, e)), true) = (self.cut, self.only.map_or(true, |o| o == i)) { if !c.ended { c.ended = true; net.peer_ends(sock, e); } }
	}
	pub fn actions(&self, net: &Net) -> usize { self.conns.iter().map(|c| if c.ended || net.socks[c.sock].closed { 0 } else { c.pending.len() }).sum() }
	pub fn act(&mut self, net: &mut Net, mut i: usize) {
		for (n, c) in self.conns.iter_mut().enumerate() {
			let struck = self.only.map_or(true, |o| o == n);
			let k = if c.ended || net.socks[c.sock].closed { 0 } else { c.pending.len() };
			if i >= k { i -= k; continue; }
			let m = c.pending.remove(i);
			let mut b = match &self.reply { Some(f) if struck => f(c.replies, m), _ => framed(&m) };
			c.replies += 1;
			let mut end = None;
			if let (Some((at, e)), true) = (self.cut, struck) { if c.stream.len() + b.len() >= at { b.truncate(at - c.stream.len()); end = Some(e); } }
			if struck && self.close_after == Some(c.replies) { end = Some(End::Eof); }
			c.stream.extend_from_slice(&b);
			net.peer_sends(c.sock, &b);
			if let Some(e) = end { c.ended = true; net.peer_ends(c.sock, e); }
			return;
		}
	}
}
impl Env for Resolver {
	fn connecting(&mut self, net: &mut Net, sock: usize, _ch: &mut Chooser) -> i32 { Resolver::connecting(self, net, sock) }
	fn sent(&mut self, net: &mut Net, sock: usize, _ch: &mut Chooser) { Resolver::sent(self, net, sock) }
	fn actions(&self, net: &Net) -> usize { Resolver::actions(self, net) }
	fn act(&mut self, net: &mut Net, i: usize, _ch: &mut Chooser) { Resolver::act(self, net, i) }
}

/// What a client should make of a stream of replies.
pub struct Expected {
	/// The framed queries it sends, up to where it stops.
	pub queries: Vec<u8>,
	/// The proof and TTL; or nothing, if no proof comes of these replies.
	pub proof: Option<(Vec<u8>, u32)>,
	/// It was still waiting when the replies ended.
	pub waiting: bool,
}
/// The builder itself, without any transport, fed with the replies.
pub fn expected(name: &str, ty: u16, stream: &[u8]) -> Expected {
	let (mut b, first) = ProofBuilder::new(&name.try_into().unwrap(), ty);
	let mut queries = framed(&first);
	for m in frames(stream).0 {
		if !b.awaiting_responses() { break; }
		match b.process_response(&glue::buf(&m)) {
			Ok(more) => for q in more { queries.extend(framed(&q)); },
			Err(()) => return Expected { queries, proof: None, waiting: false },
		}
	}
	let waiting = b.awaiting_responses();
	Expected { queries, proof: if waiting { None } else { b.finish_proof().ok() }, waiting }
}
