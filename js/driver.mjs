// C27: wasmpack/doh_lookup.js itself, on the native build of the WASM wrapper, with every fetch under control.
import fs from 'node:fs';
import path from 'node:path';
import { pathToFileURL } from 'node:url';
import { Mc, bad, supervised } from './engine.mjs';

await supervised('C27');
const mc = new Mc('C27', process.argv.slice(2));
const addon = { exports: {} };
process.dlopen(addon, path.join(process.env.CARGO_TARGET_DIR || path.join(mc.root, 'target'), 'release', 'libwasmaddon.so'));
const call = addon.exports;
const bytes = s => new TextEncoder().encode(s);
const text = b => new TextDecoder().decode(b);
const TYPES = { __proto__: null, txt: 16, tlsa: 52, a: 1, aaaa: 28 };

// The module that wasm-bindgen would generate: same names, same conversions, over the native code.
const loaded = { count: 0, ready: false };
const need = () => { if (!loaded.ready) throw new TypeError("Cannot read properties of undefined (reading '__wbindgen_malloc')"); };
class WASMProofBuilder { constructor(p) { this.ptr = p; } }
const live = b => { if (!(b instanceof WASMProofBuilder)) throw new Error('expected instance of WASMProofBuilder'); if (b.ptr == 0) throw new Error('null pointer passed to rust'); return b.ptr; };
const array = a => { const n = a.length * 1 || 0; const u = new Uint8Array(n); u.set(n ? a : []); return u; };
const out = b => b === undefined ? undefined : new Uint8Array(b);
globalThis.__native = {
	init: async () => { loaded.count += 1; await new Promise(r => setImmediate(r)); loaded.ready = true; return {}; },
	init_proof_builder(name, ty) { need(); if (typeof name != 'string') throw new TypeError('arg is no string'); const r = call(0, Number(ty) & 0xffff, bytes(name)); return r === undefined ? undefined : new WASMProofBuilder(r.readUInt32LE(0)); },
	get_next_query(b) { need(); return out(call(1, live(b))); },
	process_query_response(b, r) { need(); const u = array(r); call(2, live(b), u); },
	get_unverified_proof(b) { need(); const p = live(b); b.ptr = 0; return out(call(3, p)); },
	verify_byte_stream(s) { need(); return text(call(4, 0, array(s))); },
};
const dir = fs.mkdtempSync(path.join(process.env.MC_TMP, 'c27-'));
fs.writeFileSync(path.join(dir, 'package.json'), '{"type":"module"}');
fs.copyFileSync('/repo/wasmpack/doh_lookup.js', path.join(dir, 'doh_lookup.js'));
fs.writeFileSync(path.join(dir, 'dnssec_prover_wasm.js'), `const n = globalThis.__native;
export default n.init;
export const { init_proof_builder, get_next_query, process_query_response, get_unverified_proof, verify_byte_stream } = n;
`);
let lookup_doh;
try { ({ lookup_doh } = await import(pathToFileURL(path.join(dir, 'doh_lookup.js')))); } catch (e) { await mc.explore('loading', 0, () => bad('module', 'doh_lookup.js does not load: ' + e)); mc.finish(); }

// How a fetch may come out: [what, settles with a response that is ok, how].
const message = (f) => (q) => { const m = Buffer.from(call(5, 0, q)); return f(m) || m; };
const honest = message(() => null);
const forged = message(m => { const r = Buffer.from(m); r[r.length - 1] ^= 1; return r; });
const OUTCOMES = [
	['answers', true, q => new Response(honest(q))],
	['answers with status 201', true, q => new Response(honest(q), { status: 201 })],
	['answers with an empty body', true, () => new Response(new Uint8Array(0))],
	['answers with no body', true, () => new Response(null, { status: 204 })],
	['answers SERVFAIL', true, q => new Response(message(m => { m[3] |= 2; })(q))],
	['answers cut', true, q => new Response(message(m => m.subarray(0, m.length - 1))(q))],
	['answers with text', true, () => new Response('<html>"oops"</html>')],
	['answers with 70000 bytes', true, () => new Response(new Uint8Array(70000))],
	['answers with a forged signature', true, q => new Response(forged(q))],
	['answers another question', true, () => new Response(honest(Buffer.from('0000012000010000000000010162036f6e650000100001000029000000008000 0000'.replace(' ', ''), 'hex')))],
	['status 500', false, q => new Response(honest(q), { status: 500 })],
	['status 404', false, q => new Response('no', { status: 404 })],
	['status 400 with an answer', false, q => new Response(honest(q), { status: 400 })],
	['status 403 with an answer', false, q => new Response(honest(q), { status: 403 })],
	['status 300 with an answer', false, q => new Response(honest(q), { status: 300 })],
	['answers with status 299', true, q => new Response(honest(q), { status: 299 })],
	['status 503 with an answer', false, q => new Response(honest(q), { status: 503 })],
	['status 304', false, q => new Response(null, { status: 304 })],
	['a TypeError', false, () => { throw new TypeError('fetch failed'); }],
	['an error with quotes', false, () => { throw new Error('can\'t reach "host\\x"\n\ttry\u0000\u2028again'); }],
	['an error that is a string', false, () => { throw 'no "route"'; }],
	['an abort', false, () => { throw new DOMException('The operation was "aborted"', 'AbortError'); }],
	['an error that is undefined', false, () => { throw undefined; }],
	['a body that breaks off', false, q => new Response(new ReadableStream({ start(c) { c.enqueue(honest(q).subarray(0, 20)); }, pull(c) { c.error(new TypeError('terminated "early"')); } }))],
	['a synchronous exception', false, null],
];
const few = ['answers', 'answers SERVFAIL', 'answers with a forged signature', 'status 500', 'an error with quotes', 'a body that breaks off'].map(w => OUTCOMES.findIndex(o => o[0] == w));

// One lookup as the check sees it.
class Look {
	constructor(i, domain, ty, endpoint) { this.i = i; this.domain = domain; this.ty = ty; this.endpoint = endpoint || `https://doh${i}.example/dns-query`; this.sent = []; this.pending = []; this.failed = false; this.done = false; this.taken = []; }
}
const tick = () => new Promise(r => setImmediate(r));
// Runs the lookups; `outcome(ch, n, sync)` chooses how the n-th fetch of all comes out.
async function run(ch, wanted, outcomes, order) {
	loaded.ready = false;
	const looks = wanted.map(([d, t, e], i) => new Look(i, d, t, e));
	let wrong = null;
	globalThis.fetch = (url, opts) => {
		const u = typeof url == 'string' ? url : url instanceof Request ? url.url : String(url);
		const l = looks.find(l => u.startsWith(l.endpoint));
		if (!l) { wrong = `fetches ${u}`; return Promise.reject(new TypeError('bad URL')); }
		const m = /^\?dns=([A-Za-z0-9_-]*)$/.exec(u.slice(l.endpoint.length));
		if (!m) { wrong = `fetches ${u}`; return Promise.reject(new TypeError('bad URL')); }
		const q = Buffer.from(m[1], 'base64url');
		if (q.toString('base64url') != m[1]) wrong = `not canonical base64url: ${m[1]}`;
		l.sent.push(q);
		// A resolver answers a GET for a DNS message.
		const rq = url instanceof Request ? new Request(url, opts) : new Request('https://doh.invalid/', opts);
		if (rq.method != 'GET') wrong = `sends a ${rq.method} request`;
		if (!(rq.headers.get('accept') || '').includes('application/dns-message')) wrong = `accepts only ${rq.headers.get('accept')}`;
		const o = outcomes[ch.dev(outcomes.length)];
		ch.note(`lookup ${l.i} query ${l.sent.length - 1}: ${OUTCOMES[o][0]}`);
		if (!OUTCOMES[o][1]) l.failed = true;
		if (OUTCOMES[o][2] === null) throw new TypeError('synchronous "failure"');
		return new Promise((res, rej) => l.pending.push(() => {
			try {
				const r = OUTCOMES[o][2](q);
				if (OUTCOMES[o][1]) { const body = r.clone(); l.taken.push({ q, body }); }
				res(r);
			} catch (e) { rej(e); }
		}));
	};
	for (const l of looks) {
		ch.note(`lookup ${l.i}: ${JSON.stringify(l.domain)} ${JSON.stringify(l.ty)}`);
		const p = (async () => lookup_doh(l.domain, l.ty, l.endpoint))();
		p.then(v => { l.done = true; l.value = v; }, e => { l.done = true; l.thrown = { e }; });
	}
	for (let idle = 0; idle < 30 && looks.some(l => !l.done);) {
		await tick();
		const ready = looks.filter(l => l.pending.length > 0);
		// Wait until every lookup has got as far as it can.
		idle += 1;
		if (ready.length == 0 || (idle < 3 && looks.some(l => !l.done && l.pending.length == 0))) continue;
		const l = ready[order ? ch.choose(ready.length) : 0];
		l.pending.splice(ch.choose(l.pending.length), 1)[0]();
		idle = 0;
	}
	if (wrong) bad('fetch', wrong);
	const classes = [];
	for (const l of looks) classes.push(await judge(l));
	return [...new Set(classes)].sort().join(' and ');
}
async function judge(l) {
	const who = `lookup of ${JSON.stringify(l.domain)} ${JSON.stringify(l.ty)}`;
	if (!l.done) bad('hang', `${who} never comes to an end`);
	if (l.thrown) bad('throws', `${who} throws ${l.thrown.e}`);
	if (typeof l.value != 'string') bad('value', `${who} gives ${typeof l.value}`);
	let j;
	try { j = JSON.parse(l.value); } catch (e) { bad('json', `${who} gives no JSON: ${l.value.slice(0, 200)}`); }
	if (j === null || typeof j != 'object' || Array.isArray(j)) bad('json', `${who} gives ${l.value.slice(0, 200)}`);
	const err = typeof j.error == 'string' && j.verified_rrs === undefined;
	const ty = TYPES[l.ty.toLowerCase()];
	const h = ty === undefined ? undefined : call(0, ty, bytes(l.domain));
	if (h === undefined) {
		if (l.sent.length) bad('fetch', `${who} is no question, but sends queries`);
		if (!err) bad('error', `${who} gives ${l.value.slice(0, 200)} instead of an error`);
		return 'no question';
	}
	// The same answers given to the wrapper directly.
	const b = h.readUInt32LE(0);
	const queries = [];
	const next = () => { for (let q; (q = call(1, b)) !== undefined;) queries.push(q); };
	next();
	for (const t of l.taken) { call(2, b, new Uint8Array(await t.body.arrayBuffer())); next(); }
	if (l.sent.length == 0) bad('fetch', `${who} sends no query`);
	l.sent.forEach((q, i) => { if (!queries.some(x => x.equals(q))) bad('fetch', `${who} sends a query that was not asked for`); });
	for (const q of l.sent) if (l.sent.filter(x => x.equals(q)).length > 1) bad('fetch', `${who} sends a query twice`);
	const p = call(3, b);
	if (l.failed) { if (!err) bad('error', `${who} gives ${l.value.slice(0, 200)} although a fetch failed`); return 'failed fetch'; }
	if (l.sent.length != queries.length) bad('fetch', `${who} sends ${l.sent.length} of ${queries.length} queries`);
	if (p === undefined) { if (!err) bad('error', `${who} gives ${l.value.slice(0, 200)} without a proof`); return 'no proof'; }
	const want = JSON.parse(text(call(4, 0, p)));
	if (JSON.stringify(want) != JSON.stringify(j)) bad('result', `${who} gives ${l.value.slice(0, 300)} instead of ${JSON.stringify(want).slice(0, 300)}`);
	return want.error ? 'proof that does not verify' : 'verified';
}

const all = OUTCOMES.map((_, i) => i);
await mc.explore('domains and types', Infinity, ch => {
	const d = ch.pick(['a.one.', 'a.one', 'A.One', 'b.one', 'one', 'one.', '.', '', 'bytes.one', 'c.one', 'q.w.one.', 'x.two.one', 'huge.one', 'nothing.one', 'nothing', 'a..one', '..', 'a b.one', '\u00e9.one', '\ud800.one', 'a"b.one', 'x'.repeat(63) + '.one', 'x'.repeat(64) + '.one', 'x.'.repeat(127), 'x.'.repeat(128), 'a\\b.one']);
	const t = ch.pick(['txt', 'TXT', 'tXt', 'a', 'A', 'aaaa', 'AAAA', 'tlsa', 'TLSA', 'Tlsa', 'tl\u017fa', 'aa', 'mx', 'MX', '', '16', 'txt ', 'toString', '__proto__', 'constructor', '\u0130', 'ns', 'dnskey']);
	return run(ch, [[d, t]], [0], false);
});
await mc.explore('name lengths', Infinity, ch => run(ch, [['x'.repeat(1 + ch.choose(63)) + ch.pick(['', '~', '???', '>>>>', '\u007f~']) + '.one', 'txt']], [0], false));
await mc.explore('letter cases', Infinity, ch => {
	const t = [...ch.pick(['txt', 'a', 'aaaa', 'tlsa'])].map(c => ch.choose(2) ? c.toUpperCase() : c).join('');
	return run(ch, [['b.one', t]], [0], false);
});
await mc.explore('characters of the encoding', Infinity, ch => {
	const c = ch.pick(['?', '>', '~', 'o', '?>', '>?', '~?>', '\u007f'.slice(1) + '{|}']);
	const label = c.repeat(63).slice(0, 1 + ch.choose(63));
	return run(ch, [[(ch.choose(2) ? '??>>??.' : '') + label + '.w.one', 'txt']], [0], false);
});
await mc.explore('endpoints', Infinity, ch => run(ch, [['a.one', 'txt', ch.pick(['https://doh.example/dns-query/', 'https://doh.example', 'https://doh.example/', 'https://[::1]:8443/Dns/Query', 'http://127.0.0.1/a%20b//c', 'dns-query', '/dns-query'])]], few, false));
await mc.explore('answers and failures', mc.tier(3, 6), ch => run(ch, [['a.one', 'txt']], all, false));
await mc.explore('answers and failures, two zones', mc.tier(2, 3), ch => run(ch, [[ch.pick(['c.one.', 'x.two.one.', 'q.w.one.']), 'txt']], all, false));
await mc.explore('other types', mc.tier(1, 3), ch => run(ch, [['b.one.', ch.pick(['a', 'aaaa', 'tlsa'])]], all, false));
await mc.explore('two lookups at once', 0, ch => run(ch, [['a.one', 'txt'], [ch.pick(['b.one', 'a.one', 'nothing.one', '.']), ch.pick(['txt', 'a'])]], [0], true));
await mc.explore('two lookups, one troubled', mc.tier(1, 2), ch => run(ch, [['a.one', 'txt'], ['b.one', 'a']], few, true));
await mc.explore('one after another', 1, async ch => {
	const a = await run(ch, [['a.one', 'txt']], few, false);
	return a + ', then ' + await run(ch, [['b.one', 'txt']], few, false);
});
// Every status a response can have, at every query.
const statuses = [0];
for (let status = 200; status < 600; status++) {
	statuses.push(OUTCOMES.length);
	OUTCOMES.push([`status ${status}, swept`, status < 300, q => new Response([204, 205, 304].includes(status) ? null : honest(q), { status })]);
}
await mc.explore('HTTP statuses', mc.tier(1, 2), ch => run(ch, [['a.one', 'txt']], statuses, false));
if (mc.thorough) await mc.explore('three lookups at once', 0, ch => run(ch, [['a.one', 'txt'], ['.', 'txt'], ['nothing', 'txt']], [0], true));
mc.assume('fetch is the check\'s; Response is Node\'s own; the WASM functions are the native build of the wrapper with wasm-bindgen\'s conversions written out in js/driver.mjs');
mc.assume('types are strings, as the interface asks; a fetch that never settles is outside the property');
mc.finish();
