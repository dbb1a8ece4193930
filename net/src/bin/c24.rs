//! C24: the HTTP server's own code, with the real tokio, over a simulated kernel network: one request.
use libc::*;
use model::*;
use net::http::*;
use net::proofs::{all_large, long_names, odd_ttl, BAD};
use net::resolver::*;
use net::*;

fn get(q: &str) -> Vec<u8> { format!("GET /dnssecproof?{} HTTP/1.1\r\nHost: x\r\n\r\n", q).into_bytes() }

fn main() {
	let mc = Mc::new("C24");
	init();
	let d = mc.tier(1, 2);
	mc.explore("request grammar", usize::MAX, |ch| {
		let verb = *ch.pick(&["GET", "get", "POST", "HEAD", "", "GETX"]);
		let path = *ch.pick(&["/dnssecproof?", "/dnssecproof", "/", "/dnssecproofs?", "/dnssecproof/?", "", "dnssecproof?", "/DNSSECPROOF?", "//dnssecproof?", "/x/dnssecproof?"]);
		let q = *ch.pick(&["d=a.one.&t=TXT", "t=txt&d=a.one.", "d=A.One.&t=tXt", "d=a.one&t=TXT", "d=a.one.", "t=TXT", "", "d=&t=TXT", "d=a.one.&t=", "d=a.one.&t=MX", "d=a.one.&t=16",
			"d=a.one.&t=TXT&x=y", "x&d=a.one.&t=TXT", "d=a.one.&t=TXT&", "D=a.one.&T=TXT", "d=b.one.&d=a.one.&t=TXT", "d=a.one.&t=A&t=TXT", "d=a..one.&t=TXT", "d=.&t=TXT", "d=a%2eone.&t=TXT", "d=a.one.=&t=TXT", "d=a.one.&t=TX", "d=a.one.&t=TXTX"]);
		let ver = *ch.pick(&["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "http/1.1", "", "HTTP/1.1 "]);
		let end = *ch.pick(&["\r\n\r\n", "\r\nHost: x\r\n\r\n", "\n\n\r\n", "\r\n"]);
		if (verb != "GET") as u8 + (path != "/dnssecproof?") as u8 + (ver != "HTTP/1.1") as u8 + (end != "\r\n\r\n") as u8 > mc.tier(2, 4) { return Ok("too many oddities at once"); }
		one(ch, format!("{} {}{} {}{}", verb, path, q, ver, end).as_bytes(), Resolver::honest(), |_| {})
	});
	mc.explore("names and types", 0, |ch| {
		let name = ch.pick(&["a.one.", "b.one.", "one.", "big.one.", "c.one.", "x.two.one.", "four.three.two.one.", "five.four.three.two.one.", "nothing.one.", "nothing.", ".", "A.ONE."]).to_string();
		let t = *ch.pick(&["TXT", "txt", "Txt", "A", "a", "AAAA", "aaaa", "aAaA", "TLSA", "tlsa", "TlSa", "TL\u{17f}A", "\u{ff34}XT", "TXT\u{0}", " A", "28"]);
		let q = if ch.flag() { format!("d={}&t={}", name, t) } else { format!("t={}&d={}", t, name) };
		one(ch, &get(&q), Resolver::honest(), |_| {})
	});
	// Characters which mean something in a URL are left to the other sections.
	let long: Vec<String> = long_names().into_iter().filter(|n| !n.contains(|c: char| "%&=+#?".contains(c))).collect();
	mc.explore("long and odd names", 0, |ch| {
		let (n, t) = (ch.pick(&long).clone(), *ch.pick(&["TXT", "A", "AAAA", "TLSA"]));
		one(ch, &get(&format!("d={}&t={}", n, t)), Resolver::honest(), |_| {})
	});
	// Every request line one edit away from a good one.
	let base = b"GET /dnssecproof?d=b.one.&t=a HTTP/1.1\r\nA: b\r\n\r\n".to_vec();
	let bytes: &[u8] = b"\0\t\n\r \"%&+-./019:=?@ADGT_abdt\x7f\x80\xc3\xff";
	mc.explore("edits of a request", usize::MAX, |ch| {
		let mut r = base.clone();
		let line = mc.tier(41, r.len());
		let n = mc.tier(1, 2);
		for _ in 0..n {
			let at = ch.choose(line);
			match ch.choose(3) { 0 => r[at] = *ch.pick(bytes), 1 => r.insert(at, *ch.pick(bytes)), _ => { r.remove(at); } }
			if n == 2 && ch.flag() { break; }
		}
		one(ch, &r, Resolver::honest(), |_| {})
	});
	// However the bytes come.
	let odd: Vec<Vec<u8>> = vec![
		get("d=a.one.&t=TXT"),
		get("t=A&d=b.one."),
		get("d=nothing.one.&t=TXT"),
		get("d=bad&t=TXT"),
		b"GET / HTTP/1.0\r\n\r\n".to_vec(),
		b"POST /dnssecproof?d=a.one.&t=TXT HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc".to_vec(),
		b"GET /dnssecproof?d=a.one.&t=TXT HTTP/1.1\r\nX: \xff\xfe\xc3\r\n\r\n".to_vec(),
		b"GET /dnssecproof?d=\xc3\xa9.one.&t=TXT HTTP/1.1\r\n\r\n".to_vec(),
		b"GET /dnssecproof?d=a.one.&t=TXT HTTP/1.1\r\nX: \xc3\xa9\r\n\r\n".to_vec(),
		b"\r\nGET /dnssecproof?d=a.one.&t=TXT HTTP/1.1\r\n\r\n".to_vec(),
		b"GET /dnssecproof?d=a.one.&t=TXT HTTP/1.1\r\r\n\r\n".to_vec(),
		b"GET /dnssecproof?d=a.one.&t=TXT HTTP/1.1\n\r\n\r\n".to_vec(),
	];
	for (i, r) in odd.iter().enumerate() {
		mc.explore(&format!("segments of request {}", i), 2, |ch| one(ch, r, Resolver::honest(), |n| { n.split = true; n.batch = true; n.short_send = true; }));
	}
	// Around the 4096 bytes a request line may take.
	mc.explore("long requests", mc.tier(1, 1), |ch| {
		let total = 4090 + ch.choose(10);
		let kind = ch.choose(5);
		let mut r = match kind {
			// The line ends right there (a name that is too long).
			0 => { let mut r = b"GET /dnssecproof?t=TXT&d=".to_vec(); while r.len() < total - 12 { r.push(b'a'); } r.extend_from_slice(b". HTTP/1.1\r\n"); r },
			// A good line with long parameters besides.
			1 => { let mut r = b"GET /dnssecproof?d=a.one.&t=TXT&x=".to_vec(); while r.len() < total - 11 { r.push(b'a'); } r.extend_from_slice(b" HTTP/1.1\r\n"); r },
			// No line end at all.
			2 => vec![b'G'; total],
			// A good line, then long headers.
			3 => { let mut r = b"GET /dnssecproof?d=a.one.&t=TXT HTTP/1.1\r\nCookie: ".to_vec(); while r.len() < total - 4 { r.push(b'c'); } r.extend_from_slice(b"\r\n\r\n"); r },
			_ => { let mut r = vec![b'\r'; total]; r.push(b'\n'); r },
		};
		if ch.flag() { r.extend_from_slice(b"X: y\r\n\r\n"); }
		ch.note(|| format!("kind {} with {} bytes", kind, r.len()));
		let s = ch.flag();
		one(ch, &r, Resolver::honest(), |n| { n.split = s; n.batch = !s; n.short_send = !s; })
	});
	mc.explore("much longer requests", d, |ch| {
		let total = *ch.pick(&[5000usize, 8191, 8192, 8193, 20000, 70000]);
		let kind = ch.choose(3);
		let r = match kind {
			0 => vec![b'G'; total],
			1 => { let mut r = b"GET /dnssecproof?d=a.one.&t=TXT HTTP/1.1\r\nCookie: ".to_vec(); r.resize(total, b'c'); r.extend_from_slice(b"\r\n\r\n"); r },
			_ => { let mut r = b"GET / HTTP/1.1\r\nCookie: ".to_vec(); r.resize(total, b'\xff'); r.extend_from_slice(b"\r\n\r\n"); r },
		};
		one(ch, &r, Resolver::honest(), |n| { n.batch = true; n.short_send = true; })
	});
	// When the resolver does not make it.
	mc.explore("resolver refuses", 1, |ch| {
		let mut r = Resolver::honest();
		r.connect = vec![*ch.pick(&[ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH])];
		one(ch, &get("d=a.one.&t=TXT"), r, |n| { n.batch = true; n.split = true; })
	});
	mc.explore("resolver ends", 0, |ch| {
		let end = if ch.flag() { End::Rst } else { End::Eof };
		let mut r = Resolver::honest();
		r.cut = Some((ch.choose(900), end));
		one(ch, &get("d=a.one.&t=TXT"), r, |_| {})
	});
	mc.explore("resolver answers badly", 1, |ch| {
		let which = ch.choose(BAD.len());
		let at = ch.choose(4);
		let mut r = Resolver::honest();
		r.reply = Some(Box::new(move |i, m| if i == at { BAD[which].1(m) } else { framed(&m) }));
		one(ch, &get("d=a.one.&t=TXT"), r, |n| n.batch = true)
	});
	mc.explore("resolver orders", usize::MAX, |ch| {
		let q = *ch.pick(&["d=a.one.&t=TXT", "d=x.two.one.&t=TXT"]);
		one(ch, &get(q), Resolver::honest(), |n| n.free = true)
	});
	mc.explore("large proofs", 0, |ch| { let r = all_large(ch); let s = ch.flag(); one(ch, &get("d=a.one.&t=TXT"), r, |n| n.short_send = s) });
	mc.explore("lifetimes", 0, |ch| { let r = odd_ttl(ch); one(ch, &get("d=x.two.one.&t=TXT"), r, |_| {}) });
	// Clients that go away or wait before their request is complete.
	mc.explore("unfinished requests", 1, |ch| {
		let full = get("d=a.one.&t=TXT");
		let at = ch.choose(full.len() + 1);
		let mut c = Client::new(vec![Act::Send(full[..at].to_vec())]);
		match ch.choose(3) { 0 => c.script.push(Act::Eof), 1 => c.script.push(Act::Rst), _ => {} }
		let (net, env) = serve(ch, Http { res: Resolver::honest(), clients: vec![c] }, |n| { n.split = true; n.batch = true; })?;
		judge(&net, &env, 0, ch)
	});
	mc.assume("requests are judged by their request line only; where HTTP and the property leave the status open (repeated or unknown parameters, several faults at once) every allowed answer is accepted");
	mc.assume("tokio's scheduler is its single-threaded one; the kernel is the simulation in net/src/lib.rs");
	mc.finish()
}
