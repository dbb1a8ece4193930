//! A Node addon: the WASM wrapper's functions, natively, and an honest resolver, for js/driver.mjs.
use dnssec_prover_wasm::*;
use model::crypto::*;
use model::wire::*;
use model::zone::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::c_void;
use std::os::raw::c_char;
use std::sync::OnceLock;

type Env = *mut c_void;
type Value = *mut c_void;
extern "C" {
	fn napi_get_cb_info(env: Env, info: *mut c_void, argc: *mut usize, argv: *mut Value, this: *mut Value, data: *mut *mut c_void) -> i32;
	fn napi_get_value_uint32(env: Env, v: Value, out: *mut u32) -> i32;
	fn napi_get_typedarray_info(env: Env, v: Value, ty: *mut i32, len: *mut usize, data: *mut *mut c_void, buf: *mut Value, off: *mut usize) -> i32;
	fn napi_create_buffer_copy(env: Env, len: usize, data: *const c_void, out: *mut *mut c_void, v: *mut Value) -> i32;
	fn napi_get_undefined(env: Env, v: *mut Value) -> i32;
	fn napi_create_function(env: Env, name: *const c_char, len: usize, cb: unsafe extern "C" fn(Env, *mut c_void) -> Value, data: *mut c_void, v: *mut Value) -> i32;
	fn napi_throw_error(env: Env, code: *const c_char, msg: *const c_char) -> i32;
}

fn nm(s: &str) -> Nm { Nm::new(s) }
fn delegated(parent: &mut Zone, name: &str, seed: u32) -> Zone {
	let z = Zone::new(&nm(name), Key::ed(seed, ZONE | SEP), Key::ed(seed + 1, ZONE));
	let ds = z.ds(2);
	parent.delegate(&z.name, &ds);
	z
}
fn world() -> &'static World {
	static W: OnceLock<World> = OnceLock::new();
	W.get_or_init(|| {
		let mut root = root_zone();
		root.add(&Nm::root(), TXT, txt_rdata(b"the root"));
		let mut one = delegated(&mut root, "one.", 800);
		for n in ["one.", "a.one.", "b.one."] {
			one.add(&nm(n), TXT, txt_rdata(format!("text of {} \"\\ \u{e9}", n).as_bytes()));
			one.add(&nm(n), A, vec![192, 0, 2, n.len() as u8]);
			one.add(&nm(n), AAAA, (0..16).map(|i| i * n.len() as u8).collect());
			one.add(&nm(n), TLSA, tlsa_rdata(3, 1, 1, &sha256(n.as_bytes())));
		}
		one.add(&nm("bytes.one."), TXT, txt_rdata(&[0xff, 0, b'"', b'\n', 0x80]));
		one.add(&nm("c.one."), CNAME, nm("x.two.one.").wire());
		one.add(&nm("*.w.one."), TXT, txt_rdata(b"wild"));
		one.add(&nm("z.one."), TXT, txt_rdata(b"last"));
		// An RRset that makes a proof of more than 65535 bytes.
		for i in 0..16u8 { one.add(&nm("huge.one."), TXT, txt_rdata(&vec![b'a' + i; 3990])); }
		let mut two = delegated(&mut one, "two.one.", 810);
		two.add(&nm("x.two.one."), TXT, txt_rdata(b"x in two"));
		World { zones: vec![root, one, two] }
	})
}
fn answer(query: &[u8]) -> Vec<u8> {
	match decode(query) {
		Ok(m) if m.q.len() == 1 => {
			let a = world().answer(&m.q[0].name, m.q[0].ty);
			let mut w = MsgWriter::new(m.id, 0x81a0 | a.rcode as u16, [1, a.an.len() as u16, a.ns.len() as u16, 0], Compress::All);
			w.question(&m.q[0].name, m.q[0].ty, m.q[0].class);
			for r in a.an.iter().chain(&a.ns) { w.record(r); }
			w.out
		},
		_ => MsgWriter::new(0, 0x81a1, [0; 4], Compress::None).out,
	}
}
thread_local! { static BUILDERS: RefCell<(u32, HashMap<u32, WASMProofBuilder>)> = RefCell::new((0, HashMap::new())); }
fn op(op: u32, n: u32, bytes: &[u8]) -> Option<Vec<u8>> {
	glue::budget(20_000, 4_000_000);
	match op {
		0 => {
			let b = init_proof_builder(String::from_utf8_lossy(bytes).into_owned(), n as u16)?;
			Some(BUILDERS.with(|m| { let mut m = m.borrow_mut(); m.0 += 1; let k = m.0; m.1.insert(k, b); k }).to_le_bytes().to_vec())
		},
		1 => BUILDERS.with(|m| get_next_query(m.borrow_mut().1.get_mut(&n).expect("null pointer passed to rust"))),
		2 => { BUILDERS.with(|m| process_query_response(m.borrow_mut().1.get_mut(&n).expect("null pointer passed to rust"), bytes.to_vec())); None },
		3 => { let b = BUILDERS.with(|m| m.borrow_mut().1.remove(&n)).expect("null pointer passed to rust"); get_unverified_proof(b) },
		4 => Some(verify_byte_stream(bytes.to_vec()).into_bytes()),
		5 => Some(answer(bytes)),
		6 => { BUILDERS.with(|m| m.borrow_mut().1.remove(&n)); None },
		_ => None,
	}
}
unsafe extern "C" fn call(env: Env, info: *mut c_void) -> Value {
	let mut argv: [Value; 3] = [std::ptr::null_mut(); 3];
	let mut argc = 3usize;
	napi_get_cb_info(env, info, &mut argc, argv.as_mut_ptr(), std::ptr::null_mut(), std::ptr::null_mut());
	let (mut o, mut n) = (0u32, 0u32);
	napi_get_value_uint32(env, argv[0], &mut o);
	napi_get_value_uint32(env, argv[1], &mut n);
	let (mut ty, mut len, mut data) = (0i32, 0usize, std::ptr::null_mut());
	let b: &[u8] = if argc > 2 && napi_get_typedarray_info(env, argv[2], &mut ty, &mut len, &mut data, std::ptr::null_mut(), std::ptr::null_mut()) == 0 && len > 0 {
		std::slice::from_raw_parts(data as *const u8, len)
	} else { &[] };
	let mut v: Value = std::ptr::null_mut();
	match std::panic::catch_unwind(|| op(o, n, b)) {
		Ok(Some(r)) => { napi_create_buffer_copy(env, r.len(), r.as_ptr() as *const c_void, std::ptr::null_mut(), &mut v); },
		Ok(None) => { napi_get_undefined(env, &mut v); },
		Err(_) => { napi_throw_error(env, std::ptr::null(), c"unreachable".as_ptr()); },
	}
	v
}
#[no_mangle] pub unsafe extern "C" fn napi_register_module_v1(env: Env, _exports: Value) -> Value {
	std::panic::set_hook(Box::new(|_| {}));
	let mut v: Value = std::ptr::null_mut();
	napi_create_function(env, c"call".as_ptr(), usize::MAX, call, std::ptr::null_mut(), &mut v);
	v
}
