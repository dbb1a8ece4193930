//! C22: blocking proof building over a simulated kernel network.
use libc::*;
use model::*;
use net::proofs::*;
use net::resolver::*;
use net::*;

const B: Build = blocking;

fn main() {
	let mc = Mc::new("C22");
	let d = mc.tier(2, 3);
	mc.explore("splits and interrupts", d.min(2), |ch| check(ch, B, "a.one.", wire::TXT, Resolver::honest(), Fault::None, |n| { n.split = true; n.eintr = true; n.short_send = true; }));
	mc.explore("reply orders", usize::MAX, |ch| {
		let name = *ch.pick(&["a.one.", "x.two.one.", "c.one."]);
		check(ch, B, name, wire::TXT, Resolver::honest(), Fault::None, |n| n.free = true)
	});
	mc.explore("reply orders, split", d.min(2), |ch| check(ch, B, "c.one.", wire::TXT, Resolver::honest(), Fault::None, |n| { n.split = true; }));
	mc.explore("questions", 1, |ch| {
		let name = *ch.pick(&["a.one.", "b.one.", "one.", "big.one.", "c.one.", "x.two.one.", "four.three.two.one.", "five.four.three.two.one.", "nothing.one.", "nothing.", "."]);
		let ty = *ch.pick(&TYPES);
		check(ch, B, name, ty, Resolver::honest(), Fault::None, |n| { n.split = true; n.eintr = true; n.short_send = true; })
	});
	let long = long_names();
	mc.explore("long and odd names", 0, |ch| { let n = ch.pick(&long).clone(); let ty = *ch.pick(&TYPES); check(ch, B, &n, ty, Resolver::honest(), Fault::None, |_| {}) });
	let total = stream_len(B, "a.one.", wire::TXT);
	let sent = out_len(B, "a.one.", wire::TXT);
	mc.measured("bytes of replies in the base run", total);
	mc.explore("connection ends", mc.tier(1, 2), |ch| {
		let end = if ch.flag() { End::Rst } else { End::Eof };
		let at = ch.choose(total.max(1) + 1);
		let mut r = Resolver::honest();
		r.cut = Some((at, end));
		check(ch, B, "a.one.", wire::TXT, r, Fault::Cut, |n| { n.split = true; n.short_send = true; })
	});
	mc.explore("sending fails", 1, |ch| {
		let e = *ch.pick(&[EPIPE, ECONNRESET, ENETDOWN, ETIMEDOUT]);
		let at = ch.choose(sent.max(1));
		let mut r = Resolver::honest();
		r.send_fault = Some((at, e));
		check(ch, B, "a.one.", wire::TXT, r, Fault::Send, |n| { n.split = true; n.short_send = true; n.eintr = true; })
	});
	mc.explore("connecting fails", usize::MAX, |ch| {
		let mut r = Resolver::honest();
		r.connect = vec![*ch.pick(&[ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, EACCES, ECONNRESET])];
		let ty = *ch.pick(&TYPES);
		check(ch, B, "a.one.", ty, r, Fault::Connect, |_| {})
	});
	mc.explore("bad replies", 1, |ch| {
		let which = ch.choose(BAD.len());
		let at = ch.choose(4);
		ch.note(|| format!("reply {} is bad: {}", at, BAD[which].0));
		let mut r = Resolver::honest();
		r.reply = Some(Box::new(move |i, m| if i == at { BAD[which].1(m) } else { framed(&m) }));
		check(ch, B, "a.one.", wire::TXT, r, Fault::None, |n| { n.split = false; n.early = false; n.eintr = true; })
	});
	mc.explore("bad replies, split", 1, |ch| {
		let which = ch.choose(12);
		let at = ch.choose(4);
		let mut r = Resolver::honest();
		r.reply = Some(Box::new(move |i, m| if i == at { BAD[which].1(m) } else { framed(&m) }));
		check(ch, B, "a.one.", wire::TXT, r, Fault::None, |n| { n.split = true; })
	});
	// Lengths at which the length's bytes or the buffer change over.
	let lens: Vec<usize> = vec![500, 511, 512, 513, 767, 768, 1023, 1024, 1280, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 8192, 16384, 32767, 32768, 49152, 65279, 65280, 65533, 65534, 65535];
	mc.explore("reply lengths", mc.tier(1, 1), |ch| {
		let len = *ch.pick(&lens);
		let at = ch.choose(4);
		ch.note(|| format!("reply {} takes {} bytes", at, len));
		let mut r = Resolver::honest();
		r.reply = Some(Box::new(move |i, m| if i == at { padded(m, len) } else { framed(&m) }));
		check(ch, B, "a.one.", wire::TXT, r, Fault::None, |n| { n.eintr = true; n.split = len <= 4096; })
	});
	mc.explore("replies in two parts", usize::MAX, |ch| {
		// One large reply and what follows it, cut in two at every place near a boundary.
		let len = *ch.pick(&[2048usize, 2049, 65535]);
		let at = ch.choose(4);
		let mut r = Resolver::honest();
		r.reply = Some(Box::new(move |i, m| if i == at { padded(m, len) } else { framed(&m) }));
		r.close_after = Some(4);
		check(ch, B, "a.one.", wire::TXT, r, Fault::None, |_| {})
	});
	mc.explore("large proofs", 0, |ch| { let r = all_large(ch); check(ch, B, "a.one.", wire::TXT, r, Fault::None, |_| {}) });
	mc.explore("lifetimes", 0, |ch| { let r = odd_ttl(ch); check(ch, B, "x.two.one.", wire::TXT, r, Fault::None, |_| {}) });
	mc.assume("the kernel's socket calls behave as the simulation's (POSIX): partial reads and writes, EINTR, EOF and errors as described in net/src/lib.rs");
	mc.assume("a resolver that neither answers nor ends the connection is outside the property (the builder has no timeout)");
	mc.finish()
}
