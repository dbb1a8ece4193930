//! C23: async proof building, with the real tokio, over a simulated kernel network.
use libc::*;
use model::*;
use net::proofs::*;
use net::resolver::*;
use net::*;

const B: Build = asynchronous;

fn main() {
	let mc = Mc::new("C23");
	let d = mc.tier(2, 3);
	mc.explore("splits and stalls", d.min(2), |ch| check(ch, B, "a.one.", wire::TXT, Resolver::honest(), Fault::None, |n| { n.split = true; n.batch = true; n.short_send = true; }));
	mc.explore("arrivals at any call", d, |ch| {
		// Replies that come early, at every system call, in every order, and together.
		let name = *ch.pick(&["a.one.", "x.two.one.", "c.one."]);
		check(ch, B, name, wire::TXT, Resolver::honest(), Fault::None, |n| { n.early = true; n.batch = true; n.short_send = true; })
	});
	mc.explore("reply orders", usize::MAX, |ch| {
		let name = *ch.pick(&["a.one.", "x.two.one.", "c.one."]);
		check(ch, B, name, wire::TXT, Resolver::honest(), Fault::None, |n| n.free = true)
	});
	mc.explore("reply orders, split", d.min(2), |ch| check(ch, B, "c.one.", wire::TXT, Resolver::honest(), Fault::None, |n| { n.split = true; }));
	mc.explore("questions", 1, |ch| {
		let name = *ch.pick(&["a.one.", "b.one.", "one.", "big.one.", "c.one.", "x.two.one.", "four.three.two.one.", "five.four.three.two.one.", "nothing.one.", "nothing.", "."]);
		let ty = *ch.pick(&TYPES);
		check(ch, B, name, ty, Resolver::honest(), Fault::None, |n| { n.split = true; n.batch = true; n.short_send = true; })
	});
	let long = long_names();
	mc.explore("long and odd names", 0, |ch| { let n = ch.pick(&long).clone(); let ty = *ch.pick(&TYPES); check(ch, B, &n, ty, Resolver::honest(), Fault::None, |_| {}) });
	let total = stream_len(B, "a.one.", wire::TXT);
	let sent = out_len(B, "a.one.", wire::TXT);
	mc.measured("bytes of replies in the base run", total);
	mc.explore("connection ends", mc.tier(1, 2), |ch| {
		let end = if ch.flag() { End::Rst } else { End::Eof };
		let at = ch.choose(total.max(1) + 1);
		let mut r = Resolver::honest();
		r.cut = Some((at, end));
		check(ch, B, "a.one.", wire::TXT, r, Fault::Cut, |n| { n.split = true; n.short_send = true; })
	});
	mc.explore("sending fails", 1, |ch| {
		let e = *ch.pick(&[EPIPE, ECONNRESET, ENETDOWN, ETIMEDOUT]);
		let at = ch.choose(sent.max(1));
		let mut r = Resolver::honest();
		r.send_fault = Some((at, e));
		check(ch, B, "a.one.", wire::TXT, r, Fault::Send, |n| { n.split = true; n.short_send = true; n.batch = true; })
	});
	mc.explore("connecting fails", usize::MAX, |ch| {
		let mut r = Resolver::honest();
		r.connect = vec![*ch.pick(&[ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, EACCES, ECONNRESET])];
		let ty = *ch.pick(&TYPES);
		check(ch, B, "a.one.", ty, r, Fault::Connect, |_| {})
	});
	mc.explore("bad replies", 1, |ch| {
		let which = ch.choose(BAD.len());
		let at = ch.choose(4);
		ch.note(|| format!("reply {} is bad: {}", at, BAD[which].0));
		let mut r = Resolver::honest();
		r.reply = Some(Box::new(move |i, m| if i == at { BAD[which].1(m) } else { framed(&m) }));
		check(ch, B, "a.one.", wire::TXT, r, Fault::None, |n| { n.split = false; n.early = false; n.batch = true; })
	});
	mc.explore("bad replies, split", 1, |ch| {
		let which = ch.choose(12);
		let at = ch.choose(4);
		let mut r = Resolver::honest();
		r.reply = Some(Box::new(move |i, m| if i == at { BAD[which].1(m) } else { framed(&m) }));
		check(ch, B, "a.one.", wire::TXT, r, Fault::None, |n| { n.split = true; })
	});
	// Lengths at which the length's bytes or the buffer change over.
	let lens: Vec<usize> = vec![500, 511, 512, 513, 767, 768, 1023, 1024, 1280, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 8192, 16384, 32767, 32768, 49152, 65279, 65280, 65533, 65534, 65535];
	mc.explore("reply lengths", mc.tier(1, 1), |ch| {
		let len = *ch.pick(&lens);
		let at = ch.choose(4);
		ch.note(|| format!("reply {} takes {} bytes", at, len));
		let mut r = Resolver::honest();
		r.reply = Some(Box::new(move |i, m| if i == at { padded(m, len) } else { framed(&m) }));
		check(ch, B, "a.one.", wire::TXT, r, Fault::None, |n| { n.batch = true; n.split = len <= 4096; })
	});
	mc.explore("replies in two parts", usize::MAX, |ch| {
		// One large reply and what follows it, cut in two at every place near a boundary.
		let len = *ch.pick(&[2048usize, 2049, 65535]);
		let at = ch.choose(4);
		let mut r = Resolver::honest();
		r.reply = Some(Box::new(move |i, m| if i == at { padded(m, len) } else { framed(&m) }));
		r.close_after = Some(4);
		check(ch, B, "a.one.", wire::TXT, r, Fault::None, |_| {})
	});
	mc.explore("same as blocking", usize::MAX, |ch| {
		let which = ch.choose(4);
		let name = *ch.pick(&["a.one.", "big.one.", "c.one.", "nothing.one.", "five.four.three.two.one."]);
		let arg = match which { 0 => 0, 1 => ch.choose(2000), 2 => ch.choose(BAD.len() * 4), _ => ch.choose(6) };
		let make = || {
			let mut r = Resolver::honest();
			match which {
				0 => {},
				1 => r.cut = Some((arg, End::Eof)),
				2 => r.reply = Some(Box::new(move |i, m| if i == arg % 4 { BAD[arg / 4].1(m) } else { framed(&m) })),
				_ => r.connect = vec![[ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, EACCES, ECONNRESET][arg]],
			}
			r
		};
		let mut plain = Chooser::scripted(&[]);
		let a = with_net(&mut plain, make(), |_| {}, || asynchronous(name, wire::TXT));
		let mut plain = Chooser::scripted(&[]);
		let b = with_net(&mut plain, make(), |_| {}, || blocking(name, wire::TXT));
		let (Some(ra), Some(rb)) = (a.0, b.0) else { return bad("hang", "waits for ever") };
		if a.1.socks[0].out != b.1.socks[0].out { return bad("differ", "the async builder sends other bytes than the blocking one"); }
		ch.note(|| format!("{}: {:?} and {:?}", name, ra.as_ref().map(|p| p.0.len()), rb.as_ref().map(|p| p.0.len())));
		match (ra, rb) {
			(Ok(a), Ok(b)) if a == b => Ok("same proof"),
			(Err(a), Err(b)) if a.kind() == b.kind() => Ok("same error"),
			(a, b) => bad("differ", format!("async gives {:?}, blocking {:?}", a.map(|p| p.0.len()), b.map(|p| p.0.len()))),
		}
	});
	mc.explore("large proofs", 0, |ch| { let r = all_large(ch); check(ch, B, "a.one.", wire::TXT, r, Fault::None, |_| {}) });
	mc.explore("lifetimes", 0, |ch| { let r = odd_ttl(ch); check(ch, B, "x.two.one.", wire::TXT, r, Fault::None, |_| {}) });
	mc.assume("the kernel's socket calls behave as the simulation's (Linux sockets and edge-triggered epoll): readiness, partial reads and writes, EOF and errors as described in net/src/lib.rs");
	mc.assume("a resolver that neither answers nor ends the connection is outside the property (the builder has no timeout)");
	mc.finish()
}
