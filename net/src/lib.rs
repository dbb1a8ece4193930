//! A simulated kernel network under the real std and the real tokio.
//!
//! This binary defines the socket system call wrappers itself (`socket`, `connect`, `accept4`,
//! `recv`, `send`, `epoll_wait`, ...), so that std's and mio's calls come here. File descriptors
//! from [`BASE`] up are simulated, separately on every thread; all others go to the real kernel.
//! Whatever a kernel and its peers may do differently is a choice of the running execution.
#![allow(clippy::missing_safety_doc)]

use libc::*;
use model::Chooser;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};

pub mod http;
pub mod proofs;
pub mod resolver;

pub const BASE: i32 = 1_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End { Eof, Rst }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State { New, Connecting(i32), Connected }
/// One TCP connection, seen from the program.
#[derive(Debug)]
pub struct Sock {
	pub state: State,
	nonblock: bool,
	/// Bytes that have arrived and the program has not read.
	pub avail: VecDeque<u8>,
	arrived_end: Option<End>,
	pub rst_seen: bool,
	/// Bytes on their way to the program.
	pub wire: VecDeque<u8>,
	pub wire_end: Option<End>,
	/// How many bytes the program has read.
	pub read: usize,
	/// All bytes the program has sent.
	pub out: Vec<u8>,
	/// The send buffer is full.
	blocked: bool,
	pub shut_wr: bool,
	pub closed: bool,
	/// Closed while the peer had sent what was never read: the peer may lose what was sent to it.
	pub lost: bool,
	/// The peer has gone: sending fails.
	pub peer_gone: bool,
	sent_after_gone: bool,
	edge: u32,
	/// A fault: sending fails with this error once so many bytes were sent.
	pub send_fault: Option<(usize, i32)>,
	/// Accepted from a listener as this client, or connected to this address.
	pub client: Option<usize>,
	pub port: u16,
	fds: usize,
}
impl Sock {
	fn new(nonblock: bool) -> Sock {
		Sock { state: State::New, nonblock, avail: VecDeque::new(), arrived_end: None, rst_seen: false, wire: VecDeque::new(), wire_end: None, read: 0, out: Vec::new(), blocked: false,
			shut_wr: false, closed: false, lost: false, peer_gone: false, sent_after_gone: false, edge: 0, send_fault: None, client: None, port: 0, fds: 1 }
	}
	fn ready(&self) -> u32 {
		let mut e = 0;
		match self.state {
			State::New => return (EPOLLOUT | EPOLLHUP) as u32,
			State::Connecting(_) => return 0,
			State::Connected => {},
		}
		if !self.avail.is_empty() { e |= EPOLLIN; }
		match self.arrived_end { Some(End::Eof) => e |= EPOLLIN | EPOLLRDHUP, Some(End::Rst) => e |= EPOLLIN | EPOLLRDHUP | EPOLLERR | EPOLLHUP, None => {} }
		if !self.blocked { e |= EPOLLOUT; }
		e as u32
	}
}
#[derive(Debug, Default)]
pub struct Listener { pub backlog: VecDeque<usize>, pub port: u16, pub listening: bool, edge: u32, nonblock: bool, pub accepted: usize, pub closed: bool }
#[derive(Debug)]
enum Obj { Epoll(usize), Event(usize), Listener(usize), Sock(usize) }
#[derive(Default)]
struct Epoll { interest: BTreeMap<i32, (u32, u64)> }

/// What the outside does.
pub trait Env {
	/// The program connects: 0 or the error number it will get.
	fn connecting(&mut self, net: &mut Net, sock: usize, ch: &mut Chooser) -> i32;
	/// The program has sent bytes (they are in `out`), or closed its side.
	fn sent(&mut self, net: &mut Net, sock: usize, ch: &mut Chooser);
	/// How many actions the environment could take now.
	fn actions(&self, net: &Net) -> usize;
	fn act(&mut self, net: &mut Net, i: usize, ch: &mut Chooser);
}

pub struct Net {
	objs: BTreeMap<i32, Obj>,
	next_fd: i32,
	epolls: Vec<Epoll>,
	events: Vec<(u64, u32)>,
	/// Event descriptors: count, and whether it grew since last reported.
	counters: Vec<(u64, bool)>,
	connect_err: Vec<(usize, i32)>,
	pub listeners: Vec<Listener>,
	pub socks: Vec<Sock>,
	env: Option<Box<dyn Env>>,
	ch: *mut Chooser,
	/// Nothing can happen any more but the program waits.
	pub hang: bool,
	pub calls: u64,
	/// Which kinds of nondeterminism are explored.
	pub split: bool,
	pub eintr: bool,
	pub short_send: bool,
	pub batch: bool,
	pub early: bool,
	/// The order of independent events is a free choice (otherwise a deviation).
	pub free: bool,
	/// What is sent arrives at once, so that only the order in which peers act is left.
	pub direct: bool,
	/// Accept errors, one taken (as a deviation) at each accept.
	pub accept_errors: Vec<i32>,
	/// The first accepts fail so often with this.
	pub accept_fails: (usize, i32),
	/// A call the simulation does not know: the execution says nothing.
	pub unknown: Option<String>,
	pub note: Vec<String>,
}
thread_local! { static NET: Cell<*mut Net> = const { Cell::new(std::ptr::null_mut()) }; }
fn net() -> Option<&'static mut Net> {
	let p = NET.with(|n| n.get());
	if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}
unsafe fn err(e: i32) -> i32 { *__errno_location() = e; -1 }

/// Runs `f` on a simulated network with the given environment; returns its result, the network and the environment.
pub fn with_net<T, E: Env + 'static>(ch: &mut Chooser, env: E, setup: impl FnOnce(&mut Net), f: impl FnOnce() -> T) -> (T, Net, Box<E>) {
	let mut n = Net {
		objs: BTreeMap::new(), next_fd: BASE, epolls: Vec::new(), events: Vec::new(), counters: Vec::new(), connect_err: Vec::new(), listeners: Vec::new(), socks: Vec::new(), env: Some(Box::new(env)), ch, hang: false, calls: 0,
		split: false, eintr: false, short_send: false, batch: false, early: false, free: false, direct: false, accept_errors: Vec::new(), accept_fails: (0, 0), unknown: None, note: Vec::new(),
	};
	setup(&mut n);
	struct Reset;
	impl Drop for Reset { fn drop(&mut self) { NET.with(|n| n.set(std::ptr::null_mut())); } }
	let r;
	{
		let _g = Reset;
		NET.with(|x| x.set(&mut n));
		r = f();
	}
	let env = n.env.take().expect("environment");
	// We know its type: it was given as such.
	let env = unsafe { Box::from_raw(Box::into_raw(env) as *mut E) };
	(r, n, env)
}

impl Net {
	fn ch(&self) -> &'static mut Chooser { unsafe { &mut *self.ch } }
	fn env<R>(&mut self, f: impl FnOnce(&mut dyn Env, &mut Net, &mut Chooser) -> R) -> R {
		let mut e = self.env.take().expect("environment is not reentrant");
		let ch = self.ch();
		let r = f(&mut *e, self, ch);
		self.env = Some(e);
		r
	}
	fn fd(&mut self, o: Obj) -> i32 { let f = self.next_fd; self.next_fd += 1; self.objs.insert(f, o); f }
	fn sock(&mut self, fd: i32) -> Option<usize> { match self.objs.get(&fd) { Some(Obj::Sock(i)) => Some(*i), _ => None } }
	fn edge(&mut self, s: usize, e: i32) { self.socks[s].edge |= e as u32; }
	/// A client connects to the listener on a port (the program sees it once it accepts).
	pub fn client_connects(&mut self, port: u16, client: usize) -> Option<usize> {
		let l = self.listeners.iter().position(|l| l.listening && !l.closed && l.port == port)?;
		let mut s = Sock::new(true);
		s.state = State::Connected;
		s.client = Some(client);
		self.socks.push(s);
		let i = self.socks.len() - 1;
		self.listeners[l].backlog.push_back(i);
		self.listeners[l].edge |= EPOLLIN as u32;
		Some(i)
	}
	/// The peer sends bytes.
	pub fn peer_sends(&mut self, s: usize, b: &[u8]) { self.socks[s].wire.extend(b); }
	pub fn peer_ends(&mut self, s: usize, e: End) { let k = &mut self.socks[s]; if k.wire_end.is_none() { k.wire_end = Some(e); } }
	fn options(&self) -> Vec<(u8, usize)> {
		let mut o = Vec::new();
		for (i, s) in self.socks.iter().enumerate() {
			if s.closed { continue; }
			if let State::Connecting(_) = s.state { o.push((0, i)); continue; }
			if s.arrived_end.is_none() && (!s.wire.is_empty() || s.wire_end.is_some()) { o.push((1, i)); }
			if s.blocked { o.push((2, i)); }
		}
		o
	}
	/// Lets one thing happen outside the program; false if nothing can.
	pub fn step(&mut self) -> bool {
		let o = self.options();
		if self.direct { if let Some((_, s)) = o.iter().find(|(k, _)| *k == 1) { self.deliver(*s); return true; } }
		let acts = self.env(|e, n, _| e.actions(n));
		let total = o.len() + acts;
		if total == 0 { return false; }
		let ch = self.ch();
		let i = if self.free { ch.choose(total) } else { ch.dev(total) };
		if i >= o.len() { self.env(|e, n, ch| e.act(n, i - o.len(), ch)); return true; }
		let (kind, s) = o[i];
		match kind {
			0 => {
				let State::Connecting(e) = self.socks[s].state else { unreachable!() };
				self.socks[s].state = State::Connected;
				if e != 0 { self.socks[s].peer_gone = true; self.socks[s].arrived_end = Some(End::Rst); self.socks[s].rst_seen = false; self.connect_err.push((s, e)); }
				let r = self.socks[s].ready();
				self.edge(s, r as i32);
			},
			1 => self.deliver(s),
			_ => { self.socks[s].blocked = false; self.edge(s, EPOLLOUT); },
		}
		true
	}
	fn deliver(&mut self, s: usize) {
		let n = self.socks[s].wire.len();
		let ch = self.ch();
		let all = n == 0 || !self.split;
		let k = if all { n } else { n - ch.dev(n) };
		let sk = &mut self.socks[s];
		let b: Vec<u8> = sk.wire.drain(..k).collect();
		sk.avail.extend(b);
		let mut e = if k > 0 { EPOLLIN } else { 0 };
		if sk.wire.is_empty() {
			if let Some(end) = sk.wire_end {
				// An end of the connection may come along with the last bytes, or later.
				if k == 0 || ch.dev(2) == 0 {
					sk.arrived_end = Some(end);
					if end == End::Rst { sk.peer_gone = true; }
					e |= EPOLLIN | EPOLLRDHUP;
					if end == End::Rst { e |= EPOLLERR | EPOLLHUP | EPOLLOUT; }
				}
			}
		}
		self.edge(s, e);
	}
	fn recv(&mut self, s: usize, buf: &mut [u8], peek: bool) -> Result<usize, i32> {
		self.calls += 1;
		if self.early && self.ch().dev(2) == 1 { self.step(); }
		if let Some(e) = self.take_connect_err(s) { return Err(e); }
		loop {
			let k = &mut self.socks[s];
			if k.state != State::Connected { return Err(ENOTCONN); }
			// A reset makes the kernel forget what had arrived.
			if k.arrived_end == Some(End::Rst) && !k.rst_seen { k.rst_seen = true; k.avail.clear(); return Err(ECONNRESET); }
			if buf.is_empty() { return Ok(0); }
			if !k.avail.is_empty() {
				let n = buf.len().min(k.avail.len());
				for (d, b) in buf.iter_mut().zip(k.avail.iter()) { *d = *b; }
				if !peek { k.avail.drain(..n); k.read += n; }
				return Ok(n);
			}
			if k.arrived_end.is_some() { return Ok(0); }
			if k.nonblock { return Err(EAGAIN); }
			if self.eintr && self.ch().dev(2) == 1 { return Err(EINTR); }
			if self.hang || !self.step() { self.hang = true; return Err(EDEADLK); }
		}
	}
	fn send(&mut self, s: usize, buf: &[u8]) -> Result<usize, i32> {
		self.calls += 1;
		if self.early && self.ch().dev(2) == 1 { self.step(); }
		if let Some(e) = self.take_connect_err(s) { return Err(e); }
		let (eintr, short) = (self.eintr, self.short_send);
		let ch = self.ch();
		loop {
			let k = &mut self.socks[s];
			if k.state != State::Connected || k.shut_wr { return Err(EPIPE); }
			if let Some((at, e)) = k.send_fault { if k.out.len() >= at { k.peer_gone = true; return Err(e); } }
			if k.arrived_end == Some(End::Rst) { let e = if k.rst_seen { EPIPE } else { ECONNRESET }; k.rst_seen = true; k.avail.clear(); return Err(e); }
			if k.peer_gone && k.sent_after_gone { return Err(EPIPE); }
			if buf.is_empty() { return Ok(0); }
			if k.blocked {
				if k.nonblock { return Err(EAGAIN); }
				if !self.step() { self.hang = true; return Err(EDEADLK); }
				continue;
			}
			if eintr && !k.nonblock && ch.dev(2) == 1 { return Err(EINTR); }
			let mut n = buf.len();
			if short {
				// All but one, half, one or (without blocking) no byte fits the buffer.
				let mut alt = vec![n];
				for x in [n - 1, n / 2, 1] { if x > 0 && !alt.contains(&x) { alt.push(x); } }
				if k.nonblock { alt.push(0); }
				n = alt[ch.dev(alt.len())];
				if n < buf.len() { k.blocked = k.nonblock; }
				if n == 0 { return Err(EAGAIN); }
			}
			if let Some((at, _)) = k.send_fault { if n > at - k.out.len() { n = at - k.out.len(); k.blocked = k.nonblock; } }
			if k.peer_gone { k.sent_after_gone = true; return Ok(n); }
			k.out.extend_from_slice(&buf[..n]);
			self.env(|e, net, ch| e.sent(net, s, ch));
			return Ok(n);
		}
	}
	fn take_connect_err(&mut self, s: usize) -> Option<i32> {
		let i = self.connect_err.iter().position(|(x, _)| *x == s)?;
		Some(self.connect_err.remove(i).1)
	}
	fn collect(&mut self, ep: usize) {
		let list: Vec<(i32, u32, u64)> = self.epolls[ep].interest.iter().map(|(f, (e, d))| (*f, *e, *d)).collect();
		for (fd, want, data) in list {
			let want = want | (EPOLLERR | EPOLLHUP) as u32;
			let got = match self.objs.get(&fd) {
				Some(Obj::Sock(s)) => { let s = *s; let k = &mut self.socks[s]; let g = k.edge & want; k.edge = 0; if g != 0 { k.ready() & want } else { 0 } },
				Some(Obj::Listener(l)) => { let l = &mut self.listeners[*l]; let g = l.edge & want; l.edge = 0; g },
				Some(Obj::Event(i)) => { let (count, edge) = &mut self.counters[*i]; if *edge && *count > 0 { *edge = false; EPOLLIN as u32 & want } else { 0 } },
				_ => 0,
			};
			if got != 0 { self.events.push((data, got)); }
		}
	}
	fn epoll_wait(&mut self, ep: usize, max: usize, timeout: i32) -> (Vec<(u64, u32)>, bool) {
		self.calls += 1;
		loop {
			self.collect(ep);
			if !self.events.is_empty() {
				// More may happen before the program gets to look.
				while self.batch && self.ch().dev(2) == 1 { if !self.step() { break; } self.collect(ep); }
				let mut ev = std::mem::take(&mut self.events);
				// One entry per source, as the kernel reports.
				let mut merged: Vec<(u64, u32)> = Vec::new();
				for (d, e) in ev.drain(..) { match merged.iter_mut().find(|(x, _)| *x == d) { Some(m) => m.1 |= e, None => merged.push((d, e)) } }
				if merged.len() > 1 && self.batch { let k = self.ch().dev(merged.len()); merged.rotate_left(k); }
				let rest = merged.split_off(max.min(merged.len()));
				self.events = rest;
				return (merged, false);
			}
			if timeout == 0 { return (Vec::new(), false); }
			if self.hang || !self.step() {
				self.hang = true;
				return (Vec::new(), true);
			}
		}
	}
	fn close(&mut self, fd: i32) -> i32 {
		match self.objs.remove(&fd) {
			None => return EBADF,
			Some(Obj::Sock(s)) => {
				for e in &mut self.epolls { e.interest.remove(&fd); }
				let k = &mut self.socks[s];
				k.fds -= 1;
				// Once all is quiet, the runtime is dropped and closes everything, which is not the program's doing.
				if k.fds == 0 && !self.hang {
					k.closed = true;
					// Unread bytes, or bytes that arrive later, make the kernel reset the connection.
					if !k.avail.is_empty() || !k.wire.is_empty() { k.lost = true; }
					if k.state == State::Connected { self.env(|e, n, ch| e.sent(n, s, ch)); }
				}
			},
			Some(Obj::Listener(l)) => { for e in &mut self.epolls { e.interest.remove(&fd); } self.listeners[l].closed = true; },
			Some(Obj::Event(_)) | Some(Obj::Epoll(_)) => {},
		}
		0
	}
}
unsafe fn ret(r: Result<usize, i32>) -> isize { match r { Ok(n) => n as isize, Err(e) => err(e) as isize } }
unsafe fn unknown(n: &mut Net, what: &str) -> i32 { n.unknown = Some(what.to_string()); err(ENOSYS) }
fn port_of(addr: *const sockaddr) -> u16 {
	unsafe {
		match (*addr).sa_family as i32 {
			AF_INET => u16::from_be((*(addr as *const sockaddr_in)).sin_port),
			AF_INET6 => u16::from_be((*(addr as *const sockaddr_in6)).sin6_port),
			_ => 0,
		}
	}
}
unsafe fn put_addr(addr: *mut sockaddr, len: *mut socklen_t, port: u16) {
	if addr.is_null() || len.is_null() { return; }
	let mut a: sockaddr_in = std::mem::zeroed();
	a.sin_family = AF_INET as u16;
	a.sin_port = port.to_be();
	a.sin_addr.s_addr = u32::from_be_bytes([127, 0, 0, 1]).to_be();
	let n = (*len as usize).min(std::mem::size_of::<sockaddr_in>());
	std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, addr as *mut u8, n);
	*len = std::mem::size_of::<sockaddr_in>() as u32;
}

#[no_mangle] pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
	match net() {
		Some(n) if d == AF_INET || d == AF_INET6 => { n.socks.push(Sock::new(t & SOCK_NONBLOCK != 0)); let s = n.socks.len() - 1; n.fd(Obj::Sock(s)) },
		_ => syscall(SYS_socket, d, t, p) as c_int,
	}
}
#[no_mangle] pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
	if fd < BASE { return syscall(SYS_bind, fd, a, l) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	let Some(s) = n.sock(fd) else { return err(EINVAL) };
	let nb = n.socks[s].nonblock;
	n.socks[s].closed = true;
	n.listeners.push(Listener { port: port_of(a), nonblock: nb, ..Default::default() });
	let l = n.listeners.len() - 1;
	n.objs.insert(fd, Obj::Listener(l));
	0
}
#[no_mangle] pub unsafe extern "C" fn listen(fd: c_int, b: c_int) -> c_int {
	if fd < BASE { return syscall(SYS_listen, fd, b) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	match n.objs.get(&fd) { Some(Obj::Listener(l)) => { n.listeners[*l].listening = true; 0 }, _ => err(EINVAL) }
}
#[no_mangle] pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
	if fd < BASE { return syscall(SYS_accept4, fd, a, l, flags) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	n.calls += 1;
	let li = match n.objs.get(&fd) { Some(Obj::Listener(l)) => *l, _ => return err(EINVAL) };
	loop {
		if !n.listeners[li].backlog.is_empty() {
			if n.accept_fails.0 > 0 { n.accept_fails.0 -= 1; return err(n.accept_fails.1); }
			if !n.accept_errors.is_empty() {
				let k = n.ch().dev(1 + n.accept_errors.len());
				if k > 0 { return err(n.accept_errors[k - 1]); }
			}
			let s = n.listeners[li].backlog.pop_front().unwrap();
			n.listeners[li].accepted += 1;
			n.socks[s].nonblock = flags & SOCK_NONBLOCK != 0;
			put_addr(a, l, 40000 + s as u16);
			return n.fd(Obj::Sock(s));
		}
		if n.listeners[li].nonblock { return err(EAGAIN); }
		if n.hang || !n.step() { n.hang = true; return err(EDEADLK); }
	}
}
#[no_mangle] pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int { accept4(fd, a, l, 0) }
#[no_mangle] pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
	if fd < BASE { return syscall(SYS_connect, fd, a, l) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	n.calls += 1;
	let Some(s) = n.sock(fd) else { return err(ENOTSOCK) };
	match n.socks[s].state { State::Connected => return err(EISCONN), State::Connecting(_) => return err(EALREADY), State::New => {} }
	if n.eintr && n.ch().dev(2) == 1 { return err(EINTR); }
	n.socks[s].port = port_of(a);
	let e = n.env(|env, net, ch| env.connecting(net, s, ch));
	if n.socks[s].nonblock {
		// Usually takes a while, but may also be done at once.
		if n.batch && n.ch().dev(2) == 1 {
			if e != 0 { return err(e); }
			n.socks[s].state = State::Connected;
			n.edge(s, EPOLLOUT);
			return 0;
		}
		n.socks[s].state = State::Connecting(e);
		return err(EINPROGRESS);
	}
	if e != 0 { return err(e); }
	n.socks[s].state = State::Connected;
	0
}
#[no_mangle] pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
	if fd < BASE { return syscall(SYS_recvfrom, fd, b, len, flags, 0usize, 0usize) as ssize_t; }
	let Some(n) = net() else { return err(EBADF) as isize };
	let Some(s) = n.sock(fd) else { return err(ENOTSOCK) as isize };
	ret(n.recv(s, std::slice::from_raw_parts_mut(b as *mut u8, len), flags & MSG_PEEK != 0))
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, len: size_t) -> ssize_t {
	if fd < BASE { return syscall(SYS_read, fd, b, len) as ssize_t; }
	let Some(n) = net() else { return err(EBADF) as isize };
	if let Some(Obj::Event(i)) = n.objs.get(&fd) {
		let e = &mut n.counters[*i];
		if e.0 == 0 { return err(EAGAIN) as isize; }
		*(b as *mut u64) = e.0;
		e.0 = 0;
		return 8;
	}
	recv(fd, b, len, 0)
}
#[no_mangle] pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, len: size_t, flags: c_int) -> ssize_t {
	if fd < BASE { return syscall(SYS_sendto, fd, b, len, flags, 0usize, 0usize) as ssize_t; }
	let Some(n) = net() else { return err(EBADF) as isize };
	let Some(s) = n.sock(fd) else { return err(ENOTSOCK) as isize };
	ret(n.send(s, std::slice::from_raw_parts(b as *const u8, len)))
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, len: size_t) -> ssize_t {
	if fd < BASE { return syscall(SYS_write, fd, b, len) as ssize_t; }
	let Some(n) = net() else { return err(EBADF) as isize };
	if let Some(Obj::Event(i)) = n.objs.get(&fd) {
		let e = &mut n.counters[*i];
		e.0 += *(b as *const u64);
		e.1 = true;
		return 8;
	}
	send(fd, b, len, 0)
}
unsafe fn gather(iov: *const iovec, c: usize) -> Vec<u8> {
	let mut v = Vec::new();
	for i in 0..c { let x = &*iov.add(i); v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)); }
	v
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, c: c_int) -> ssize_t {
	if fd < BASE { return syscall(SYS_writev, fd, iov, c) as ssize_t; }
	let v = gather(iov, c as usize);
	send(fd, v.as_ptr() as *const c_void, v.len(), 0)
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, c: c_int) -> ssize_t {
	if fd < BASE { return syscall(SYS_readv, fd, iov, c) as ssize_t; }
	let total: usize = (0..c as usize).map(|i| (*iov.add(i)).iov_len).sum();
	let mut v = vec![0u8; total];
	let r = recv(fd, v.as_mut_ptr() as *mut c_void, total, 0);
	let mut at = 0;
	for i in 0..c as usize {
		let x = &*iov.add(i);
		let k = x.iov_len.min((r.max(0) as usize).saturating_sub(at));
		std::ptr::copy_nonoverlapping(v.as_ptr().add(at), x.iov_base as *mut u8, k);
		at += k;
	}
	r
}
#[no_mangle] pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
	if fd < BASE { return syscall(SYS_sendmsg, fd, m, flags) as ssize_t; }
	let v = gather((*m).msg_iov, (*m).msg_iovlen);
	send(fd, v.as_ptr() as *const c_void, v.len(), flags)
}
#[no_mangle] pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> ssize_t {
	if fd < BASE { return syscall(SYS_recvmsg, fd, m, flags) as ssize_t; }
	readv(fd, (*m).msg_iov, (*m).msg_iovlen as c_int)
}
#[no_mangle] pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, len: size_t, flags: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
	if fd < BASE { return syscall(SYS_recvfrom, fd, b, len, flags, a, l) as ssize_t; }
	recv(fd, b, len, flags)
}
#[no_mangle] pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, len: size_t, flags: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
	if fd < BASE { return syscall(SYS_sendto, fd, b, len, flags, a, l) as ssize_t; }
	send(fd, b, len, flags)
}
#[no_mangle] pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
	if fd < BASE { return syscall(SYS_shutdown, fd, how) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	let Some(s) = n.sock(fd) else { return err(ENOTSOCK) };
	if n.socks[s].state != State::Connected || n.socks[s].arrived_end == Some(End::Rst) { return err(ENOTCONN); }
	if how != SHUT_RD { n.socks[s].shut_wr = true; n.env(|e, n, ch| e.sent(n, s, ch)); }
	0
}
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
	if fd < BASE { return syscall(SYS_close, fd) as c_int; }
	match net() { Some(n) => { let e = n.close(fd); if e != 0 { err(e) } else { 0 } }, None => 0 }
}
#[no_mangle] pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: socklen_t) -> c_int {
	if fd < BASE { return syscall(SYS_setsockopt, fd, l, o, v, n) as c_int; }
	0
}
#[no_mangle] pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, o: c_int, v: *mut c_void, len: *mut socklen_t) -> c_int {
	if fd < BASE { return syscall(SYS_getsockopt, fd, l, o, v, len) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	let mut val = 0i32;
	if l == SOL_SOCKET && o == SO_ERROR {
		if let Some(s) = n.sock(fd) {
			if let Some(e) = n.take_connect_err(s) { val = e; }
			else if n.socks[s].arrived_end == Some(End::Rst) && !n.socks[s].rst_seen { n.socks[s].rst_seen = true; val = ECONNRESET; }
		}
	}
	if *len as usize >= 4 { *(v as *mut i32) = val; *len = 4; }
	0
}
#[no_mangle] pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
	if fd < BASE { return syscall(SYS_getpeername, fd, a, l) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	match n.sock(fd) { Some(s) if n.socks[s].state == State::Connected => { put_addr(a, l, n.socks[s].port); 0 }, _ => err(ENOTCONN) }
}
#[no_mangle] pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
	if fd < BASE { return syscall(SYS_getsockname, fd, a, l) as c_int; }
	put_addr(a, l, 12345);
	0
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
	if fd < BASE { return syscall(SYS_fcntl, fd, cmd, arg) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	match cmd {
		F_DUPFD | F_DUPFD_CLOEXEC => {
			let o = match n.objs.get(&fd) {
				Some(Obj::Epoll(i)) => Obj::Epoll(*i), Some(Obj::Event(i)) => Obj::Event(*i), Some(Obj::Listener(i)) => Obj::Listener(*i),
				Some(Obj::Sock(i)) => { let i = *i; n.socks[i].fds += 1; Obj::Sock(i) },
				None => return err(EBADF),
			};
			n.fd(o)
		},
		F_GETFD => 1,
		F_SETFD => 0,
		F_GETFL => { let nb = match n.objs.get(&fd) { Some(Obj::Sock(s)) => n.socks[*s].nonblock, Some(Obj::Listener(l)) => n.listeners[*l].nonblock, _ => false }; O_RDWR | if nb { O_NONBLOCK } else { 0 } },
		F_SETFL => { let nb = arg as i32 & O_NONBLOCK != 0; match n.objs.get(&fd) { Some(Obj::Sock(s)) => n.socks[*s].nonblock = nb, Some(Obj::Listener(l)) => n.listeners[*l].nonblock = nb, _ => {} } 0 },
		_ => unknown(n, "fcntl"),
	}
}
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int { fcntl(fd, cmd, arg) }
#[no_mangle] pub unsafe extern "C" fn ioctl(fd: c_int, cmd: c_ulong, arg: usize) -> c_int {
	if fd < BASE { return syscall(SYS_ioctl, fd, cmd, arg) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	if cmd == FIONBIO as c_ulong {
		let nb = *(arg as *const c_int) != 0;
		match n.objs.get(&fd) { Some(Obj::Sock(s)) => n.socks[*s].nonblock = nb, Some(Obj::Listener(l)) => n.listeners[*l].nonblock = nb, _ => {} }
		return 0;
	}
	unknown(n, "ioctl")
}
#[no_mangle] pub unsafe extern "C" fn poll(p: *mut pollfd, c: nfds_t, t: c_int) -> c_int {
	let v = if c == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut(p, c as usize) };
	if !v.iter().any(|x| x.fd >= BASE) { return syscall(SYS_poll, p, c, t) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	loop {
		let mut k = 0;
		for x in v.iter_mut() {
			x.revents = 0;
			if let Some(s) = n.sock(x.fd) { let r = n.socks[s].ready() as i16; x.revents = r & (x.events | POLLERR | POLLHUP); if x.revents != 0 { k += 1; } }
		}
		if k > 0 || t == 0 { return k; }
		if n.hang || !n.step() { if t > 0 { return 0; } n.hang = true; return err(EDEADLK); }
	}
}
#[no_mangle] pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
	match net() {
		Some(n) => { n.epolls.push(Epoll::default()); let i = n.epolls.len() - 1; n.fd(Obj::Epoll(i)) },
		None => syscall(SYS_epoll_create1, flags) as c_int,
	}
}
#[no_mangle] pub unsafe extern "C" fn eventfd(v: c_uint, flags: c_int) -> c_int {
	match net() {
		Some(n) => { n.counters.push((v as u64, false)); let i = n.counters.len() - 1; n.fd(Obj::Event(i)) },
		None => syscall(SYS_eventfd2, v, flags) as c_int,
	}
}
#[no_mangle] pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
	if ep < BASE { return syscall(SYS_epoll_ctl, ep, op, fd, ev) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	let e = match n.objs.get(&ep) { Some(Obj::Epoll(e)) => *e, _ => return err(EBADF) };
	if fd < BASE { return unknown(n, "epoll_ctl of a real descriptor"); }
	if op == EPOLL_CTL_DEL { return if n.epolls[e].interest.remove(&fd).is_some() { 0 } else { err(ENOENT) }; }
	n.epolls[e].interest.insert(fd, ((*ev).events, (*ev).u64));
	// What is ready already is reported as well.
	match n.objs.get(&fd) {
		Some(Obj::Sock(s)) => { let s = *s; n.socks[s].edge = n.socks[s].ready(); if n.socks[s].state == State::New { n.socks[s].edge = 0; } },
		Some(Obj::Listener(l)) => { let l = &mut n.listeners[*l]; l.edge = if l.backlog.is_empty() { 0 } else { EPOLLIN as u32 }; },
		_ => {},
	}
	0
}
#[no_mangle] pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
	if ep < BASE { return syscall(SYS_epoll_wait, ep, ev, max, timeout) as c_int; }
	let Some(n) = net() else { return err(EBADF) };
	let e = match n.objs.get(&ep) { Some(Obj::Epoll(e)) => *e, _ => return err(EBADF) };
	let (got, quiet) = n.epoll_wait(e, max as usize, timeout);
	if quiet { tokiowrap::mc_quiet(); return 0; }
	for (i, (d, m)) in got.iter().enumerate() { *ev.add(i) = epoll_event { events: *m, u64: *d }; }
	got.len() as c_int
}
