//! The HTTP server's own `main` on the simulated network, with clients and a resolver.
use crate::resolver::*;
use crate::*;
use dnssec_prover::rr::Name;
use model::*;

pub const PORT: u16 = 8080;
pub fn init() {
	std::env::set_var("RESOLVER", "192.0.2.53:53");
	std::env::set_var("BIND", format!("127.0.0.1:{}", PORT));
}

#[derive(Clone, Debug)]
pub enum Act { Send(Vec<u8>), Eof, Rst }
/// A client: connects, does what its script says, and closes once the server has.
#[derive(Clone, Debug)]
pub struct Client { pub script: Vec<Act>, pub at: usize, pub sock: Option<usize>, pub stubborn: bool, pub connected: bool,
	/// Comes only when nothing else is going on any more.
	pub late: bool }
impl Client {
	pub fn new(script: Vec<Act>) -> Client { Client { script, at: 0, sock: None, stubborn: false, connected: false, late: false } }
	pub fn request(b: &[u8]) -> Client { Client::new(vec![Act::Send(b.to_vec())]) }
	/// The bytes it sends.
	pub fn bytes(&self) -> Vec<u8> { self.script.iter().flat_map(|a| if let Act::Send(b) = a { b.clone() } else { vec![] }).collect() }
	pub fn leaves(&self) -> bool { self.script.iter().any(|a| matches!(a, Act::Eof | Act::Rst)) }
}
pub struct Http { pub res: Resolver, pub clients: Vec<Client> }
impl Http {
	fn todo(&self, net: &Net) -> Vec<usize> {
		let open = |late: bool| -> Vec<usize> { (0..self.clients.len()).filter(|i| { let c = &self.clients[*i]; c.late == late && (!c.connected || c.at < c.script.len()) }).collect() };
		let v = open(false);
		if v.is_empty() && self.res.actions(net) == 0 && net.options().is_empty() { open(true) } else { v }
	}
}
impl Env for Http {
	fn connecting(&mut self, net: &mut Net, sock: usize, _ch: &mut Chooser) -> i32 { self.res.connecting(net, sock) }
	fn sent(&mut self, net: &mut Net, sock: usize, _ch: &mut Chooser) {
		if self.res.conn(sock).is_some() { return self.res.sent(net, sock); }
		if net.socks[sock].shut_wr || net.socks[sock].closed {
			if let Some(c) = net.socks[sock].client { if !self.clients[c].stubborn { net.peer_ends(sock, End::Eof); } }
		}
	}
	fn actions(&self, net: &Net) -> usize { if net.listeners.is_empty() { 0 } else { self.todo(net).len() + self.res.actions(net) } }
	fn act(&mut self, net: &mut Net, i: usize, _ch: &mut Chooser) {
		let t = self.todo(net);
		if i >= t.len() { return self.res.act(net, i - t.len()); }
		let c = &mut self.clients[t[i]];
		if !c.connected { c.connected = true; c.sock = net.client_connects(PORT, t[i]); if c.sock.is_none() { c.at = c.script.len(); } return; }
		let s = c.sock.unwrap();
		match &c.script[c.at] {
			Act::Send(b) => net.peer_sends(s, b),
			Act::Eof => net.peer_ends(s, End::Eof),
			Act::Rst => net.peer_ends(s, End::Rst),
		}
		c.at += 1;
	}
}

/// What the server should answer.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Want {
	/// A proof for one of these names and types, if there is one, and else 404.
	Proof(Vec<(String, u16)>),
	NotFound,
	Bad,
	/// 400 or 404.
	BadOrNotFound,
	/// 400, or as for `Proof`.
	BadOr(Vec<(String, u16)>),
	/// The client went away or has not sent a whole line: nothing is asked of the server.
	Nothing,
}
/// From the bytes a client sends.
pub fn want(b: &[u8]) -> Want {
	let Some(end) = b.windows(2).position(|w| w == b"\r\n") else { return if b.len() >= 4096 { Want::Bad } else { Want::Nothing } };
	if end + 2 > 4096 { return Want::Bad; }
	let Ok(line) = std::str::from_utf8(&b[..end]) else { return Want::Bad };
	let p: Vec<&str> = line.split(' ').collect();
	if p.len() != 3 { return Want::Bad; }
	let proto_ok = p[0] == "GET" && (p[2] == "HTTP/1.1" || p[2] == "HTTP/1.0");
	let Some(q) = p[1].strip_prefix("/dnssecproof?") else {
		return if !proto_ok || p[1] == "/dnssecproof" || !p[1].starts_with('/') { Want::BadOrNotFound } else { Want::NotFound };
	};
	if !proto_ok { return Want::Bad; }
	let (mut ds, mut ts, mut other) = (Vec::new(), Vec::new(), false);
	for a in q.split('&') {
		match a.split_once('=') {
			Some(("d", v)) => ds.push(v.to_string()),
			Some(("t", v)) => ts.push(v.to_string()),
			Some(_) => other = true,
			None => return Want::Bad,
		}
	}
	let good: Vec<(String, u16)> = ds.iter().flat_map(|d| ts.iter().map(move |t| (d, t))).filter_map(|(d, t)| {
		if !wire::valid_text(d) { return None; }
		let t = match t.to_ascii_lowercase().as_str() { "txt" => wire::TXT, "a" => wire::A, "aaaa" => wire::AAAA, "tlsa" => wire::TLSA, _ => return None };
		Some((d.to_ascii_lowercase(), t))
	}).collect();
	if good.is_empty() { return Want::Bad; }
	if ds.len() > 1 || ts.len() > 1 || other { Want::BadOr(good) } else { Want::Proof(good) }
}

pub struct Response { pub status: u16, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
pub fn parse_response(b: &[u8]) -> Result<Response, String> {
	let end = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no end of headers in {:?}", String::from_utf8_lossy(b)))?;
	let head = std::str::from_utf8(&b[..end]).map_err(|_| "headers are no text")?;
	let mut lines = head.split("\r\n");
	let st = lines.next().unwrap();
	let p: Vec<&str> = st.splitn(3, ' ').collect();
	if p.len() != 3 || !(p[0] == "HTTP/1.1" || p[0] == "HTTP/1.0") || p[1].len() != 3 { return Err(format!("bad status line {:?}", st)); }
	let status = p[1].parse().map_err(|_| "bad status".to_string())?;
	let mut headers = Vec::new();
	for l in lines {
		let (k, v) = l.split_once(':').ok_or_else(|| format!("bad header {:?}", l))?;
		if k.is_empty() || k.contains(' ') || l.contains('\r') || l.contains('\n') { return Err(format!("bad header {:?}", l)); }
		headers.push((k.to_ascii_lowercase(), v.trim().to_string()));
	}
	let body = b[end + 4..].to_vec();
	let cl: Vec<&String> = headers.iter().filter(|(k, _)| k == "content-length").map(|(_, v)| v).collect();
	if cl.len() != 1 || *cl[0] != body.len().to_string() { return Err(format!("Content-Length {:?} with a body of {} bytes", cl, body.len())); }
	Ok(Response { status, headers, body })
}

/// A run of the server: the network and the environment afterwards.
pub fn serve(ch: &mut Chooser, env: Http, setup: impl FnOnce(&mut Net)) -> Result<(Net, Box<Http>), Bad> {
	let (r, net, env) = with_net(ch, env, setup, || std::panic::catch_unwind(httpsrv::main));
	if let Some(u) = &net.unknown { return bad("unknown", format!("the server makes a call the simulation does not know: {}", u)); }
	if r.is_err() { return bad("server", "the server panics and is gone"); }
	if !net.hang { return bad("server", "the server's main returns"); }
	if net.listeners.iter().all(|l| l.closed && !l.listening) { return bad("server", "the server never listens"); }
	if net.listeners.iter().any(|l| !l.backlog.is_empty()) { return bad("server", "a connection is never accepted"); }
	Ok((net, env))
}
/// Judges what one client got.
pub fn judge(net: &Net, env: &Http, i: usize, ch: &mut Chooser) -> Result<&'static str, Bad> {
	let c = &env.clients[i];
	let sent = c.bytes();
	let w = want(&sent);
	let text = || format!("client {} {:?}", i, String::from_utf8_lossy(&sent[..sent.len().min(90)]));
	let Some(s) = c.sock else { return bad("server", "could not connect") };
	let k = &net.socks[s];
	if w == Want::Nothing { if !k.out.is_empty() { return bad("response", format!("{}: a response without a request", text())); } return Ok("no request"); }
	if c.leaves() && k.out.is_empty() { return Ok("left"); }
	if !(k.closed || k.shut_wr) && k.out.is_empty() {
		if let Want::Proof(l) | Want::BadOr(l) = &w {
			for (n, t) in l {
				let Ok(name) = Name::try_from(n.as_str()) else { continue };
				let first = dnssec_prover::query::ProofBuilder::new(&name, *t).1;
				if env.res.stall.iter().any(|i| env.res.conns.get(*i).map_or(false, |c| c.queries.first().map_or(false, |q| q[..] == first[..]))) { return Ok("waits for a stalled resolver"); }
			}
		}
	}
	if !(k.closed || k.shut_wr) { return bad("response", format!("{}: never finished, {} bytes sent", text(), k.out.len())); }
	if c.leaves() && k.peer_gone { return Ok("left"); }
	let r = match parse_response(&k.out) { Ok(r) => r, Err(e) => return bad("response", format!("{}: {}", text(), e)) };
	if k.lost { return bad("reset", format!("{}: the connection is closed with unread input, which resets it before the response is read", text())); }
	ch.note(|| format!("{}: {} with {} bytes", text(), r.status, r.body.len()));
	let proofs = |list: &[(String, u16)]| -> Result<&'static str, Bad> {
		// The connections to the resolver that ask for this name and type, and what they come to.
		let mut possible = false;
		let mut none_possible = false;
		for (n, t) in list {
			let Ok(name) = Name::try_from(n.as_str()) else { continue };
			let first = dnssec_prover::query::ProofBuilder::new(&name, *t).1;
			for con in &env.res.conns {
				let ks = &net.socks[con.sock];
				if con.queries.first().map(|q| q[..] != first[..]).unwrap_or(false) { continue; }
				let e = expected(n, *t, &con.stream);
				match (&e.proof, con.queries.is_empty()) {
					(Some((p, ttl)), false) => {
						possible = true;
						if r.status == 200 && *p == r.body {
							let cc = r.headers.iter().find(|(k, _)| k == "cache-control").map(|(_, v)| v.clone()).unwrap_or_default();
							let mut seen = false;
							for d in cc.split(',') {
								if let Some((k, v)) = d.trim().split_once('=') { if k == "max-age" || k == "s-maxage" { if v != ttl.to_string() { return bad("ttl", format!("{}: {:?} for a proof with TTL {}", text(), cc, ttl)); } seen |= k == "max-age"; } }
							}
							if !seen { return bad("ttl", format!("{}: no cache lifetime in {:?}", text(), cc)); }
							return Ok("proof");
						}
						if ks.rst_seen || ks.peer_gone { none_possible = true; }
					},
					_ => none_possible = true,
				}
			}
		}
		match r.status {
			200 => bad("proof", format!("{}: the body is no proof of the name and type asked for", text())),
			404 if none_possible || !possible => Ok("no proof"),
			404 => bad("status", format!("{}: 404 although the resolver answers with a proof", text())),
			x => bad("status", format!("{}: {}", text(), x)),
		}
	};
	match (&w, r.status) {
		(Want::Proof(l), _) => proofs(l),
		(Want::BadOr(_), 400) | (Want::Bad, 400) | (Want::BadOrNotFound, 400) => Ok("bad request"),
		(Want::BadOr(l), _) => proofs(l),
		(Want::NotFound, 404) | (Want::BadOrNotFound, 404) => Ok("not found"),
		(w, x) => bad("status", format!("{}: {} where {:?} is right", text(), x, w)),
	}
}
/// One request of one client.
pub fn one(ch: &mut Chooser, req: &[u8], res: Resolver, setup: impl FnOnce(&mut Net)) -> Res {
	let (net, env) = serve(ch, Http { res, clients: vec![Client::request(req)] }, setup)?;
	let r = judge(&net, &env, 0, ch)?;
	if r == "proof" && env.res.conns.len() != 1 { return bad("resolver", format!("{} resolver connections for one request", env.res.conns.len())); }
	if matches!(r, "bad request" | "not found") && !env.res.conns.is_empty() { return bad("resolver", "asks the resolver for a request that needs no proof"); }
	Ok(r)
}
