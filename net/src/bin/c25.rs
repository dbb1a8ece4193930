//! C25: the HTTP server's own code with several clients at once.
use libc::*;
use model::*;
use net::http::*;
use net::proofs::BAD;
use net::resolver::*;
use net::*;

fn get(q: &str) -> Vec<u8> { format!("GET /dnssecproof?{} HTTP/1.1\r\n\r\n", q).into_bytes() }
const QS: [&str; 4] = ["d=a.one.&t=TXT", "d=b.one.&t=A", "d=x.two.one.&t=TXT", "d=a.one.&t=TLSA"];

/// Clients that are of no use: (what, client).
fn nuisances() -> Vec<(&'static str, Client)> {
	let good = get(QS[1]);
	let half = good[..good.len() / 2].to_vec();
	let mut v = vec![
		("connects and says nothing", Client::new(vec![])),
		("stalls within its request", Client::new(vec![Act::Send(half.clone())])),
		("leaves at once", Client::new(vec![Act::Eof])),
		("resets at once", Client::new(vec![Act::Rst])),
		("leaves within its request", Client::new(vec![Act::Send(half.clone()), Act::Eof])),
		("resets within its request", Client::new(vec![Act::Send(half), Act::Rst])),
		("leaves after its request", Client::new(vec![Act::Send(good.clone()), Act::Eof])),
		("resets after its request", Client::new(vec![Act::Send(good.clone()), Act::Rst])),
		("sends garbage", Client::request(&[0xff, 0, 1, b'\r', b'\n', 0xfe])),
		("sends garbage for a request", Client::request(b"GET /dnssecproof?d=\xff.&t=TXT HTTP/1.1\r\n\r\n")),
		("sends too much", Client::request(&[b'x'; 6000])),
		("sends much after its request", Client::request(&[&good[..], &[b'y'; 9000][..]].concat())),
		("sends two requests", Client::request(&[&good[..], &good[..]].concat())),
		("asks for another path", Client::request(b"GET / HTTP/1.1\r\n\r\n")),
		("asks for no name", Client::request(&get("d=nothing.&t=TXT"))),
		("asks for a bad name", Client::request(&get("d=..&t=TXT"))),
	];
	for (what, req) in [("never closes after its response", good), ("never closes after its refusal", b"BREW / HTTP/1.1\r\n\r\n".to_vec())] {
		let mut c = Client::request(&req);
		c.stubborn = true;
		v.push((what, c));
	}
	v
}
fn late() -> Client { let mut c = Client::request(&get("d=one.&t=TXT")); c.late = true; c }

/// Runs them all, and judges each. `faulty`: how many resolver connections may fail.
fn run(ch: &mut Chooser, mut clients: Vec<Client>, res: Resolver, faulty: usize, setup: impl FnOnce(&mut Net)) -> Res {
	clients.push(late());
	let (net, env) = serve(ch, Http { res, clients }, setup)?;
	let (mut none, mut proofs) = (0, 0);
	for i in 0..env.clients.len() {
		let r = judge(&net, &env, i, ch)?;
		let c = &env.clients[i];
		let exists = matches!(want(&c.bytes()), Want::Proof(l) if l[0].0 != "nothing.");
		if r == "proof" { proofs += 1; }
		if exists && matches!(r, "no proof" | "waits for a stalled resolver") { none += 1; }
		let k = &net.socks[c.sock.unwrap()];
		if !k.closed && !c.stubborn && (k.shut_wr || c.leaves()) && !(c.leaves() && !k.shut_wr && !env.res.stall.is_empty()) {
			return bad("leak", format!("client {} is done but its connection is never closed", i));
		}
	}
	if none > faulty { return bad("status", format!("{} clients get no proof with {} resolver connections failing", none, faulty)); }
	if env.res.conns.iter().any(|c| !net.socks[c.sock].closed && !env.res.stall.contains(&env.res.conn(c.sock).unwrap())) { return bad("leak", "a connection to the resolver is never closed"); }
	Ok(match proofs { 0 => "no proofs", 1 => "one proof", 2 => "two proofs", 3 => "three proofs", 4 => "four proofs", _ => "more proofs" })
}

fn main() {
	let mc = Mc::new("C25");
	init();
	let d = mc.tier(2, 3);
	let all = |n: &mut Net| { n.batch = true; n.short_send = true; n.early = true; };
	// Every order of everything that happens outside the server.
	for (label, qs) in [("two at once, any order", &QS[..2]), ("two alike, any order", &["d=a.one.&t=TXT", "d=a.one.&t=TXT"][..])] {
		mc.explore(label, usize::MAX, |ch| run(ch, qs.iter().map(|q| Client::request(&get(q))).collect(), Resolver::honest(), 0, |n| { n.free = true; n.direct = true; }));
	}
	mc.explore("two at once", d, |ch| run(ch, QS[..2].iter().map(|q| Client::request(&get(q))).collect(), Resolver::honest(), 0, all));
	mc.explore("two at once, split", mc.tier(1, 2), |ch| run(ch, QS[..2].iter().map(|q| Client::request(&get(q))).collect(), Resolver::honest(), 0, |n| { n.split = true; all(n) }));
	mc.explore("three at once", d, |ch| run(ch, QS[..3].iter().map(|q| Client::request(&get(q))).collect(), Resolver::honest(), 0, all));
	mc.explore("ten at once", 1, |ch| run(ch, (0..10).map(|i| Client::request(&get(QS[i % 4]))).collect(), Resolver::honest(), 0, all));
	let nu = nuisances();
	mc.explore("beside a nuisance", d, |ch| {
		let (what, bad) = ch.pick(&nu).clone();
		ch.note(|| what.to_string());
		let mut clients = vec![Client::request(&get(QS[0]))];
		clients.insert(ch.choose(2), bad);
		run(ch, clients, Resolver::honest(), 0, all)
	});
	mc.explore("beside two nuisances", 1, |ch| {
		let (w1, b1) = ch.pick(&nu).clone();
		let (w2, b2) = ch.pick(&nu).clone();
		ch.note(|| format!("{}, {}", w1, w2));
		let mut clients = vec![b1, b2];
		clients.insert(ch.choose(3), Client::request(&get(QS[0])));
		run(ch, clients, Resolver::honest(), 0, all)
	});
	mc.explore("beside many of a nuisance", 0, |ch| {
		let (what, bad) = ch.pick(&nu).clone();
		ch.note(|| what.to_string());
		let mut clients = vec![bad; mc.tier(300, 3000)];
		clients.push(Client::request(&get(QS[0])));
		run(ch, clients, Resolver::honest(), 0, |_| {})
	});
	mc.explore("accept errors", d, |ch| {
		let n = 1 + ch.choose(2);
		run(ch, QS[..n].iter().map(|q| Client::request(&get(q))).collect(), Resolver::honest(), 0, |n| { n.batch = true; n.accept_errors = vec![ECONNABORTED, EMFILE, ENFILE, EINTR, ENOBUFS, ENOMEM, EPROTO, EPERM, ECONNRESET, EHOSTUNREACH, ENETUNREACH, ENETDOWN, EHOSTDOWN, ENONET, EOPNOTSUPP, ENOPROTOOPT, ETIMEDOUT, ENOSR]; })
	});
	mc.explore("many accept errors", 0, |ch| {
		let e = *ch.pick(&[ECONNABORTED, EMFILE, ENFILE, EINTR, ENOBUFS, ENOMEM, EPROTO, EPERM, ECONNRESET, EHOSTUNREACH, ENETDOWN]);
		let k = ch.choose(mc.tier(200, 2000));
		run(ch, QS[..1].iter().map(|q| Client::request(&get(q))).collect(), Resolver::honest(), 0, |n| n.accept_fails = (k, e))
	});
	mc.explore("resolver refuses one", d, |ch| {
		let mut r = Resolver::honest();
		let k = ch.choose(2);
		r.connect = vec![0; k];
		r.connect.push(*ch.pick(&[ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EMFILE]));
		run(ch, QS[..2].iter().map(|q| Client::request(&get(q))).collect(), r, 1, |n| n.batch = true)
	});
	mc.explore("resolver stalls for one", d, |ch| {
		let mut r = Resolver::honest();
		r.stall = vec![ch.choose(2)];
		run(ch, QS[..2].iter().map(|q| Client::request(&get(q))).collect(), r, 1, all)
	});
	mc.explore("resolver stalls for one which leaves", d, |ch| {
		let mut r = Resolver::honest();
		r.stall = vec![0];
		let end = if ch.flag() { Act::Eof } else { Act::Rst };
		run(ch, vec![Client::new(vec![Act::Send(get(QS[0])), end]), Client::request(&get(QS[1]))], r, 1, all)
	});
	mc.explore("resolver fails one", 1, |ch| {
		let mut r = Resolver::honest();
		r.only = Some(ch.choose(2));
		match ch.choose(3) {
			0 => r.cut = Some((ch.choose(900), if ch.flag() { End::Rst } else { End::Eof })),
			1 => r.send_fault = Some((ch.choose(60), *ch.pick(&[EPIPE, ECONNRESET]))),
			_ => { let (which, at) = (ch.choose(BAD.len()), ch.choose(4)); r.reply = Some(Box::new(move |i, m| if i == at { BAD[which].1(m) } else { framed(&m) })); },
		}
		run(ch, QS[..2].iter().map(|q| Client::request(&get(q))).collect(), r, 1, |n| n.batch = true)
	});
	mc.assume("tokio's scheduler is its single-threaded one; interleavings are of what the kernel reports and when");
	mc.finish()
}
