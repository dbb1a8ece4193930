// Exhaustive exploration of choice sequences, as in mc/model/src/engine.rs, for JavaScript.
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { spawn } from 'node:child_process';

export class Violation extends Error { constructor(key, msg) { super(msg); this.key = key; } }
export function bad(key, msg) { throw new Violation(key, msg); }

export class Chooser {
	constructor(prefix, bound, tracing) { this.prefix = prefix; this.points = []; this.used = 0; this.bound = bound; this.tracing = tracing; this.notes = []; }
	take(n, costed) {
		const i = this.points.length;
		const c = i < this.prefix.length ? Math.min(this.prefix[i], n - 1) : 0;
		this.points.push({ c, n, costed });
		if (costed && c > 0) this.used += 1;
		return c;
	}
	choose(n) { return n == 1 ? 0 : this.take(n, false); }
	// Every alternative but the first is a deviation.
	dev(n) { return n == 1 || this.used >= this.bound ? 0 : this.take(n, true); }
	pick(a) { return a[this.choose(a.length)]; }
	note(s) { if (this.tracing) this.notes.push(s); }
}
// The exploration runs in a child process, which this one watches: code that never returns, or
// that ends the process, is a violation, too.
export async function supervised(id) {
	const beat = process.env.MC_BEAT;
	if (beat) { globalThis.__beat = fs.openSync(beat, 'w'); return; }
	const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'mcjs-')), file = path.join(dir, 'beat');
	const child = spawn(process.execPath, process.argv.slice(1), { stdio: 'inherit', env: { ...process.env, MC_BEAT: file, MC_TMP: dir } });
	let last = '', since = Date.now(), hung = false;
	const timer = setInterval(() => {
		let b = '';
		try { b = fs.readFileSync(file, 'utf8'); } catch (e) {}
		if (b != last) { last = b; since = Date.now(); }
		if (Date.now() - since > 90000) { hung = true; child.kill('SIGKILL'); }
	}, 1000);
	const [code, sig] = await new Promise(r => child.on('exit', (c, s) => r([c, s])));
	clearInterval(timer);
	try { last = fs.readFileSync(file, 'utf8'); } catch (e) {}
	const finished = last.startsWith('finished');
	fs.rmSync(dir, { recursive: true, force: true });
	if (finished && sig === null) process.exit(code);
	const to = path.join(process.env.VERIF_ROOT || '/verif', 'evidence', 'replay');
	fs.mkdirSync(to, { recursive: true });
	const what = hung ? 'execution still running after 90 s' : `the process ended in the middle of an execution (code ${code}, signal ${sig})`;
	fs.writeFileSync(path.join(to, id + '-exit.txt'), `property ${id}\n${last.split('#')[0]}# ${what}\n`);
	console.log(what);
	console.log(`VIOLATION property=${id} replay=${path.join(to, id + '-exit.txt')}`);
	process.exit(1);
}
let beats = 0;
function pulse(s) {
	if (globalThis.__beat === undefined) return;
	const b = Buffer.from(s + `\n# ${++beats}\n`);
	fs.writeSync(globalThis.__beat, b, 0, b.length, 0);
	fs.ftruncateSync(globalThis.__beat, b.length);
}
export class Mc {
	constructor(id, args) {
		this.id = id;
		this.root = process.env.VERIF_ROOT || '/verif';
		this.thorough = process.env.VERIF_TIER == 'thorough';
		this.sections = []; this.samples = []; this.assumptions = []; this.violation = null; this.replay = null; this.only = null;
		this.start = Date.now();
		for (let i = 0; i < args.length; i++) {
			if (args[i] == 'quick') this.thorough = false;
			if (args[i] == 'thorough') this.thorough = true;
			if (args[i] == '--section') this.only = args[++i];
			if (args[i] == '--replay') {
				this.replay = { section: '', choices: [] };
				for (const l of fs.readFileSync(args[++i], 'utf8').split('\n')) {
					if (l.startsWith('section ')) this.replay.section = l.slice(8);
					if (l.startsWith('tier ')) this.thorough = l.slice(5) == 'thorough';
					if (l.startsWith('choices ')) this.replay.choices = l.slice(8).split(' ').filter(x => x).map(Number);
				}
			}
		}
	}
	tier(q, t) { return this.thorough ? t : q; }
	assume(s) { this.assumptions.push(s); }
	async run(f, ch, label) {
		pulse(`section ${label}\ntier ${this.thorough ? 'thorough' : 'quick'}\nchoices ${ch.prefix.join(' ')}`);
		try { return [await f(ch), null]; } catch (e) {
			if (e instanceof Violation) return [null, e];
			return [null, new Violation('unexpected', 'unexpected exception: ' + (e && e.stack || e))];
		}
	}
	async explore(label, bound, f) {
		if (this.violation || (this.only && this.only != label)) return;
		if (this.replay) {
			if (this.replay.section != label) return;
			const ch = new Chooser(this.replay.choices, bound, true);
			const [r, e] = await this.run(f, ch, label);
			for (const n of ch.notes) console.log('  ' + n);
			console.log('replay outcome: ' + (e ? `violation [${e.key}] ${e.message}` : r));
			if (e) this.violation = true;
			return;
		}
		const t0 = Date.now();
		const s = { section: label, bound: bound == Infinity ? 'all choices' : `at most ${bound} deviations`, executions: 0, states: 1, transitions: 0, max_choice_depth: 0, outcomes: {} };
		const stack = [{ prefix: [], fixed: 0 }];
		while (stack.length) {
			const { prefix, fixed } = stack.pop();
			const ch = new Chooser(prefix, bound, false);
			const [r, e] = await this.run(f, ch, label);
			s.executions += 1;
			const depth = ch.points.length, fresh = Math.max(0, depth - fixed) + (fixed > 0 ? 1 : 0);
			s.states += fresh; s.transitions += fresh; s.max_choice_depth = Math.max(s.max_choice_depth, depth);
			const name = e ? 'violation' : r;
			s.outcomes[name] = (s.outcomes[name] || 0) + 1;
			if (e || s.outcomes[name] == 1) {
				const again = new Chooser(ch.points.map(p => p.c), bound, true);
				await this.run(f, again, label);
				if (e) { this.violation = { section: label, choices: ch.points.map(p => p.c), key: e.key, msg: e.message, notes: again.notes }; break; }
				this.samples.push(`[${label}] ${name}: ${again.notes.join('; ')}`.slice(0, 600));
			}
			for (let i = fixed; i < depth; i++) {
				const p = ch.points[i];
				let used = 0;
				for (let j = 0; j < i; j++) if (ch.points[j].costed && ch.points[j].c > 0) used += 1;
				if (p.costed && used >= bound) continue;
				for (let a = 1; a < p.n; a++) stack.push({ prefix: [...ch.points.slice(0, i).map(x => x.c), a], fixed: i + 1 });
			}
		}
		s.wall_s = (Date.now() - t0) / 1000;
		this.sections.push(s);
		console.log(`${label.padEnd(28)} executions=${s.executions} states=${s.states} transitions=${s.transitions} outcomes=${JSON.stringify(s.outcomes)} ${s.wall_s.toFixed(1)}s`);
	}
	finish() {
		pulse('finished');
		if (this.replay) process.exit(this.violation ? 1 : 0);
		const sum = k => this.sections.reduce((a, s) => a + s[k], 0);
		const v = this.violation;
		const dir = path.join(this.root, 'evidence');
		fs.mkdirSync(path.join(dir, 'replay'), { recursive: true });
		fs.writeFileSync(path.join(dir, this.id + '.json'), JSON.stringify({
			property: this.id, tier: this.thorough ? 'thorough' : 'quick', seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking',
			coverage: { states: sum('states'), transitions: sum('transitions'), traces_validated_against_impl: sum('executions'), exhaustive: !v && !this.only, sections: this.sections, samples: this.samples },
			assumptions: this.assumptions, wall_s: (Date.now() - this.start) / 1000, violations: v ? 1 : 0,
		}, null, 1) + '\n');
		if (v) {
			const file = path.join(dir, 'replay', this.id + '.txt');
			fs.writeFileSync(file, `property ${this.id}\nsection ${v.section}\ntier ${this.thorough ? 'thorough' : 'quick'}\nchoices ${v.choices.join(' ')}\n# key: ${v.key}\n# ${v.msg.replace(/\n/g, '\n# ')}\n${v.notes.map(n => '# ' + n.replace(/\n/g, '\n# ')).join('\n')}\n# replay with: bash check.sh ${this.id} --replay <this file>\n`);
			console.log(`violation in section ${v.section} [${v.key}]: ${v.msg}`);
			for (const n of v.notes) console.log('  ' + n);
			console.log(`VIOLATION property=${this.id} replay=${file}`);
			process.exit(1);
		}
		console.log(`OK property=${this.id} executions=${sum('executions')} states=${sum('states')} transitions=${sum('transitions')} wall=${((Date.now() - this.start) / 1000).toFixed(1)}s`);
		process.exit(0);
	}
}
