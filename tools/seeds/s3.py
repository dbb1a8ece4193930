V='src/validation.rs'; Q='src/query.rs'; R='src/rr.rs'; S='src/ser.rs'; H='src/http.rs'; W='wasmpack/src/lib.rs'; J='wasmpack/doh_lookup.js'
TOKIO='tokio = { version = "1", default-features = false, features = ["rt", "net", "io-util"] }'
HTTP='''#!/bin/bash
# Runs the server in the current directory against a resolver of our own.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
t=$(mktemp -d); trap 'kill $srv 2>/dev/null; rm -rf "$t"' EXIT
timeout 200 cargo build --offline -q --manifest-path "$repo/Cargo.toml" --bin http_proof_gen --features build_server --target-dir "$t" || exit 3
cp "$t/debug/http_proof_gen" "$t/server"
timeout 60 python3 "$here/demo.py" "$t/server"
'''
PYLIB='''import os, socket, struct, subprocess, sys, threading, time
# A resolver which answers every query with one unsigned TXT record.
def readn(c, n):
    b = b''
    while len(b) < n:
        x = c.recv(n - len(b))
        if not x: raise EOFError
        b += x
    return b
queries = []
def serve(c):
    try:
        while True:
            q = readn(c, struct.unpack('>H', readn(c, 2))[0])
            end = q.index(b'\\0', 12) + 5
            queries.append(q[12:end])
            r = b'\\0\\0\\x81\\xa0\\0\\1\\0\\1\\0\\0\\0\\0' + q[12:end] + b'\\xc0\\x0c\\0\\x10\\0\\1\\0\\0\\0\\x3c\\0\\2\\1x'
            c.sendall(struct.pack('>H', len(r)) + r)
    except (EOFError, OSError): pass
def listen():
    l = socket.socket(); l.bind(('127.0.0.1', 0)); l.listen(64)
    def loop():
        while True:
            c, _ = l.accept()
            threading.Thread(target=serve, args=(c,), daemon=True).start()
    threading.Thread(target=loop, daemon=True).start()
    return l.getsockname()[1]
s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
srv = subprocess.Popen([sys.argv[1]], env=dict(os.environ, RESOLVER='127.0.0.1:%d' % listen(), BIND='127.0.0.1:%d' % port))
def connect():
    for _ in range(200):
        try: return socket.create_connection(('127.0.0.1', port), timeout=5)
        except OSError: time.sleep(0.05)
def done(msg):
    srv.kill()
    if msg: print('FAIL: ' + msg); os._exit(1)
    os._exit(0)
def request(*parts):
    c = connect()
    for p in parts:
        c.sendall(p)
        if len(parts) > 1: time.sleep(0.3)
    c.shutdown(socket.SHUT_WR)
    r = b''
    try:
        while True:
            x = c.recv(65536)
            if not x: break
            r += x
    except OSError: pass
    return r
'''
RESOLVER='''
use std::io::{Read, Write};
/// A resolver on the loopback which answers one query with the given parts, 100 ms apart.
fn resolver(parts: Vec<Vec<u8>>) -> std::net::SocketAddr {
	let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
	let a = l.local_addr().unwrap();
	std::thread::spawn(move || {
		let (mut c, _) = l.accept().unwrap();
		c.set_nodelay(true).unwrap();
		let mut len = [0; 2];
		c.read_exact(&mut len).unwrap();
		let mut q = vec![0; u16::from_be_bytes(len) as usize];
		c.read_exact(&mut q).unwrap();
		for p in parts {
			let _ = c.write_all(&p);
			std::thread::sleep(std::time::Duration::from_millis(100));
		}
	});
	a
}
/// An answer with one unsigned record, and an OPT record at its end.
fn answer() -> Vec<u8> {
	let n = nm("a.example.");
	let mut m = MsgWriter::new(0, 0x81a0, [1, 1, 0, 1], Compress::All);
	m.question(&n, TXT, 1);
	m.record(&Rec::new(&n, TXT, 60, txt_rdata(b"x")));
	m.record_class(&Rec::new(&Nm::root(), OPT, 0, vec![]), 1232);
	m.out
}
'''
SEEDS=[
dict(id='c05-tag-alg', prop='C05', needs='a zone with two keys of different algorithms that have the same key tag',
 breaks='a proof is rejected if a key with the same tag but another algorithm comes first',
 edits=[(V,'if dnskey.alg != sig.alg { continue; }','if dnskey.alg != sig.alg { break; }')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	// The same tag, with another algorithm and a key that makes up for the difference.
	let mut twin = z.keys[1].clone();
	twin.alg = 13;
	let i = (1..32).step_by(2).find(|i| twin.public[*i] < 0xf0).unwrap();
	twin.public[i] += 2;
	assert_eq!(twin.tag(), z.keys[1].tag());
	z.keys.push(twin);
	z.add(&z.name.clone(), TXT, txt_rdata(b"data"));
	let mut first = z.clone();
	first.keys.swap(1, 2);
	first.zsks = vec![2];
	for z in [z, first] {
		let w = world(vec![z.clone()]);
		let mut p = w.chain(&z.name);
		p.extend(z.signed(&z.name, TXT, &z.name));
		if verify(&p).map(|v| v.len()) != Ok(1) { fail("the order of the keys decides over the proof"); }
	}
}
'''),
dict(id='c11-overlong', prop='C11', needs='a DNAME whose expansion of the name asked for is longer than 255 bytes, and data at that name',
 breaks='records occluded by a DNAME are returned when the redirection is too long',
 edits=[(V,'''					// This should only happen if the combined name ended up being too long
					return Vec::new();''','''					// This should only happen if the combined name ended up being too long
					return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();''')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	let l = "x".repeat(60);
	let target = format!("{}.{}.{}.{}.", l, l, l, l);
	let q = nm("aaaaaaaaaaaaaaa.d.example.");
	z.add(&nm("d.example."), DNAME, nm(&target).wire());
	z.add(&q, TXT, txt_rdata(b"occluded"));
	let w = world(vec![z.clone()]);
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&nm("d.example."), DNAME, &nm("d.example.")));
	p.extend(z.signed(&q, TXT, &q));
	let r = rrs(&p);
	let v = dnssec_prover::validation::verify_rr_stream(&r).expect("all of it is signed");
	if !v.resolve_name(&name(&q.text())).is_empty() { fail("something was returned beside the DNAME"); }
}
'''),
dict(id='c11-last-cname', prop='C11', needs='two CNAMEs at one name',
 breaks='the records at a CNAME\'s own name are returned along with the target\'s',
 edits=[(V,'return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();','return self.verified_rrs.iter().filter(|rr| rr.name() == name || (rr.name() == name_param && !matches!(rr, RR::CName(_)))).map(|rr| *rr).collect();')],
 main='''
fn main() {
	let mut z = zone("example.", 100);
	let (a, b) = (nm("a.example."), nm("b.example."));
	z.add(&a, CNAME, b.wire());
	z.add(&a, TXT, txt_rdata(b"beside"));
	z.add(&b, TXT, txt_rdata(b"target"));
	let w = world(vec![z.clone()]);
	let mut p = w.chain(&z.name);
	for (n, t) in [(&a, CNAME), (&a, TXT), (&b, TXT)] { p.extend(z.signed(n, t, n)); }
	let r = rrs(&p);
	let v = dnssec_prover::validation::verify_rr_stream(&r).expect("all of it is signed");
	if v.resolve_name(&name("a.example.")).len() != 1 { fail("records at another name than the final one were returned"); }
}
'''),
dict(id='c22-short-read', prop='C22', needs='a connection which ends inside the additional section of the last response',
 breaks='a response cut off by the end of the connection is filled up with zeros and accepted',
 edits=[(Q,'	stream.read_exact(&mut buf)?;\n','''	let mut at = 0;
	while at < buf.len() {
		match stream.read(&mut buf[at..])? {
			0 => break,
			n => at += n,
		}
	}
''')],
 main=RESOLVER+'''
fn main() {
	let a = answer();
	let mut cut = (a.len() as u16).to_be_bytes().to_vec();
	cut.extend_from_slice(&a);
	let whole = cut.clone();
	cut.truncate(whole.len() - 3);
	let n = name("a.example.");
	if dnssec_prover::query::build_txt_proof(resolver(vec![whole]), &n).is_err() { fail("a whole response was rejected"); }
	if dnssec_prover::query::build_txt_proof(resolver(vec![cut]), &n).is_ok() { fail("a response was accepted before its end"); }
}
'''),
dict(id='c23-split-length', prop='C23', needs='a response whose two length bytes arrive in different segments',
 breaks='the async builder misreads a response\'s length when it arrives one byte at a time',
 edits=[(Q,'stream.read_exact(&mut len_bytes).await?;','if stream.read(&mut len_bytes).await? == 0 { return Err(ErrorKind::UnexpectedEof.into()); }')],
 feats=['validation','std','tokio'], deps=TOKIO,
 main=RESOLVER+'''
fn main() {
	let a = answer();
	let l = (a.len() as u16).to_be_bytes();
	let r = resolver(vec![vec![l[0]], vec![l[1]], a]);
	let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
	if rt.block_on(dnssec_prover::query::build_txt_proof_async(r, &name("a.example."))).is_err() { fail("a slow response was rejected"); }
}
'''),
dict(id='c24-type-case', prop='C24', needs='a request whose type parameter mixes letter cases, such as tXt',
 breaks='types in lower or mixed case are rejected',
 edits=[(H,'match t.to_ascii_uppercase().as_str() {','match if t == t.to_ascii_lowercase() { t.to_ascii_uppercase() } else { t.into() }.as_str() {')],
 sh=HTTP, files={'demo.py': PYLIB+'''
for t in (b'TXT', b'txt', b'tXt', b'Txt'):
    r = request(b'GET /dnssecproof?d=a.example.&t=' + t + b' HTTP/1.1\\r\\n\\r\\n')
    if not r.startswith(b'HTTP/1.1 200 '): done('no proof for type %r: %r' % (t, r[:60]))
done(None)
'''}),
dict(id='c24-equals', prop='C24', needs='a name which contains an equals sign',
 breaks='parameters are split at the last equals sign, so names containing one are misread',
 edits=[(H,'if let Some((k, v)) = arg.split_once("=") {','if let Some((k, v)) = arg.rsplit_once("=") {')],
 sh=HTTP, files={'demo.py': PYLIB+'''
r = request(b'GET /dnssecproof?t=TXT&d=a=b.example. HTTP/1.1\\r\\n\\r\\n')
if not r.startswith(b'HTTP/1.1 200 '): done('no proof for a name with an equals sign: %r' % r[:60])
if queries != [b'\\x03a=b\\x07example\\0\\0\\x10\\0\\1']: done('another name was asked for: %r' % queries)
done(None)
'''}),
dict(id='c25-inline', prop='C25', needs='a client which connects and sends nothing while another one makes a request',
 breaks='connections are served one after another, so one stalling client stops the server',
 edits=[(H,'tokio::spawn(async move {','(async move {'),(H,'''				finish_connection(socket).await;
			});''','''				finish_connection(socket).await;
			}).await;''')],
 sh=HTTP, files={'demo.py': PYLIB+'''
stall = connect()
stall.sendall(b'GET /dnsse')
time.sleep(0.3)
r = request(b'GET /dnssecproof?d=a.example.&t=TXT HTTP/1.1\\r\\n\\r\\n')
if not r.startswith(b'HTTP/1.1 200 '): done('a stalling client stopped another: %r' % r[:60])
done(None)
'''}),
dict(id='c25-stall-loop', prop='C25', needs='a client which disconnects before its request line is complete',
 breaks='a client which disconnects early ends the server instead of its own connection',
 edits=[(H,'							Ok(0) => return,','							Ok(0) => std::process::exit(0),')],
 sh=HTTP, files={'demo.py': PYLIB+'''
c = connect()
c.sendall(b'GET /dnsse')
c.close()
time.sleep(0.5)
if srv.poll() is not None: done('the server stopped')
r = request(b'GET /dnssecproof?d=a.example.&t=TXT HTTP/1.1\\r\\n\\r\\n')
if not r.startswith(b'HTTP/1.1 200 '): done('a client stopped the server: %r' % r[:60])
done(None)
'''}),
dict(id='c26-lifo', prop='C26', needs='a response which leads to two queries while another is waiting',
 breaks='the queries are handed out last first',
 edits=[(W,'proof_builder.1.pop_front()','proof_builder.1.pop_back()')],
 deps='dnssec-prover-wasm = { path = "$repo/wasmpack" }',
 main='''
use dnssec_prover_wasm::*;
fn main() {
	let z = zone("example.", 100);
	let n = nm("a.example.");
	let rec = Rec::new(&n, TXT, 600, txt_rdata(b"x"));
	let mut m = MsgWriter::new(0, 0x81a0, [1, 2, 0, 0], Compress::All);
	m.question(&n, TXT, 1);
	m.record(&rec);
	m.record(&sign_recs(&z.keys[1], &z.name, &[rec.clone()], WIN));
	let mut b = init_proof_builder("a.example.".into(), TXT).unwrap();
	get_next_query(&mut b).expect("the first query");
	process_query_response(&mut b, m.out);
	let mut types = Vec::new();
	while let Some(q) = get_next_query(&mut b) { types.push(decode(&q).unwrap().q[0].ty); }
	if types != [DNSKEY, DS] { fail("the queries are not in the builder's order"); }
}
'''),
dict(id='c26-comma', prop='C26', needs='a proof with two or more verified records',
 breaks='the JSON of a proof with several verified records is not valid',
 edits=[(W,'if idx != 0 { ", " } else { "" }','if idx > 1 { ", " } else { "" }')],
 deps='dnssec-prover-wasm = { path = "$repo/wasmpack" }',
 main='''
fn main() {
	let mut z = zone("example.", 100);
	for d in [b"x", b"y"] { z.add(&z.name.clone(), TXT, txt_rdata(d)); }
	let w = world(vec![z.clone()]);
	let mut p = w.chain(&z.name);
	p.extend(z.signed(&z.name, TXT, &z.name));
	let j = dnssec_prover_wasm::verify_byte_stream(stream(&p));
	if j.contains("}{") || !j.contains("}, {") { fail("the JSON is not valid"); }
}
'''),
dict(id='c27-plus', prop='C27', needs='a query whose base64 has two or more plus signs',
 breaks='only the first plus sign of a query is made URL-safe',
 edits=[(J,"b64.replace(/\\+/g, '-')","b64.replace('+', '-')")],
 sh='''#!/bin/bash
# Runs the driver with a stand-in for the WASM module.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$repo/wasmpack/doh_lookup.js" "$here/dnssec_prover_wasm.js" "$here/demo.js" "$t/"
echo '{"type":"module"}' > "$t/package.json"
timeout 60 node "$t/demo.js"
''', files={'dnssec_prover_wasm.js':'''export default async function() {}
let queries;
export const QUERY = new Uint8Array([0xfb, 0xef, 0xbe, 0xff, 0xff, 0xff, 0xfb, 0xef]);
export function init_proof_builder() { queries = [QUERY]; return {}; }
export function get_next_query() { return queries.pop(); }
export function process_query_response() {}
export function get_unverified_proof() { return new Uint8Array(1); }
export function verify_byte_stream() { return '{"verified_rrs": []}'; }
''','demo.js':'''import { lookup_doh } from './doh_lookup.js';
import { QUERY } from './dnssec_prover_wasm.js';
let asked = [];
globalThis.fetch = async (url) => { asked.push(url); return new Response(new Uint8Array(1)); };
await lookup_doh('a.example', 'txt', 'https://doh.invalid/q');
const want = 'https://doh.invalid/q?dns=' + Buffer.from(QUERY).toString('base64url');
if (asked.length != 1 || asked[0] != want) { console.log('FAIL: asked ' + asked); process.exit(1); }
'''}),
dict(id='c27-status', prop='C27', needs='a DoH server which answers with an error status and a body',
 breaks='answers with an error status are used',
 edits=[(J,'if (!resp.ok) { throw','if (resp.status >= 500) { throw')],
 sh='''#!/bin/bash
# Runs the driver with a stand-in for the WASM module.
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$repo/wasmpack/doh_lookup.js" "$here/dnssec_prover_wasm.js" "$here/demo.js" "$t/"
echo '{"type":"module"}' > "$t/package.json"
timeout 60 node "$t/demo.js"
''', files={'dnssec_prover_wasm.js':'''export default async function() {}
let queries;
export function init_proof_builder() { queries = [new Uint8Array(12)]; return {}; }
export function get_next_query() { return queries.pop(); }
export function process_query_response() {}
export function get_unverified_proof() { return new Uint8Array(1); }
export function verify_byte_stream() { return '{"verified_rrs": []}'; }
''','demo.js':'''import { lookup_doh } from './doh_lookup.js';
for (const status of [400, 404, 429, 500, 503]) {
	globalThis.fetch = async () => new Response(new Uint8Array(1), { status });
	const r = JSON.parse(await lookup_doh('a.example', 'txt', 'https://doh.invalid/q'));
	if (!('error' in r)) { console.log('FAIL: status ' + status + ' gives ' + JSON.stringify(r)); process.exit(1); }
}
'''}),
dict(id='c28-deep-pointer', prop='C28', needs='a resolver that compresses names after the first 256 bytes of a long answer',
 breaks='names in long compressed answers are misread, so the lookup fails',
 edits=[(S,'let offs = ((len & !0xc0) << 8)','let offs = ((len & 0x07) << 8)')],
 main='''
use dnssec_prover::query::*;
fn main() {
	let mut z = zone("example.", 100);
	for i in 0..12u8 { z.add(&z.name.clone(), TXT, txt_rdata(&[b'a' + i; 254])); }
	z.add(&nm("www.example."), CNAME, nm("m.example.").wire());
	z.add(&nm("m.example."), CNAME, z.name.wire());
	let w = world(vec![z.clone()]);
	let q = nm("www.example.");
	let (mut b, first) = ProofBuilder::new(&name("www.example."), TXT);
	let mut pending = vec![first];
	while b.awaiting_responses() {
		let m = decode(&pending.remove(0)).unwrap();
		let mut a = w.answer(&m.q[0].name, m.q[0].ty);
		// Records in another order are as good.
		a.an.sort_by_key(|r| r.ty != TXT);
		let mut o = MsgWriter::new(0, 0x81a0, [1, a.an.len() as u16, a.ns.len() as u16, 0], Compress::All);
		o.question(&m.q[0].name, m.q[0].ty, 1);
		for r in a.an.iter().chain(&a.ns) { o.record(r); }
		let mut r = QueryBuf::new_zeroed(0);
		r.extend_from_slice(&o.out);
		match b.process_response(&r) { Ok(q) => pending.extend(q), Err(()) => fail("an honest answer was rejected") }
	}
	let (p, _) = b.finish_proof().expect("complete");
	let r = dnssec_prover::ser::parse_rr_stream(&p).expect("a stream");
	let v = match dnssec_prover::validation::verify_rr_stream(&r) { Ok(v) => v, Err(_) => fail("an honest proof was rejected") };
	if v.resolve_name(&name("www.example.")).len() != 12 { fail("the records were not found"); }
	let _ = q;
}
'''),
]
