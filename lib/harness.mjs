// Runs one property's checks: seeds fast-check, counts cases, reports violations and known findings.
import { createRequire } from 'node:module';
import { execFileSync } from 'node:child_process';
import { createHash } from 'node:crypto';
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import * as dog from './watchdog.mjs';
export const V = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..');
export const BUILD = path.join(V, 'build');
export const REPO = process.env.VERIF_REPO || '/repo';
const require = createRequire(import.meta.url);
export const fc = require('/opt/veriftools/node/node_modules/fast-check');

export class Violation extends Error { constructor(msg, detail) { super(msg); this.detail = detail; } }
export class HarnessError extends Error {}
export const fail = (msg, detail) => { throw new Violation(msg, detail); };

// JSON with bigints, byte strings and maps.
export const enc = (v) => JSON.stringify(v, (k, x) => (typeof x === 'bigint' ? { $n: x.toString() } : x));
const encB = (v) => enc(walk(v));
function walk(v) { if (v instanceof Uint8Array) return { $b: Buffer.from(v).toString('hex') }; if (v instanceof Map) return { $m: [...v].map(walk) }; if (Array.isArray(v)) return v.map(walk); if (v && typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, walk(x)])); return v; }
export { encB as encode };
export const decode = (s) => JSON.parse(s, (k, x) => (x && typeof x === 'object' && '$n' in x ? BigInt(x.$n) : x && typeof x === 'object' && '$b' in x ? new Uint8Array(Buffer.from(x.$b, 'hex')) : x && typeof x === 'object' && '$m' in x ? new Map(x.$m) : x));

const hashStr = (s) => createHash('md5').update(s).digest('base64').slice(0, 12);
const trunc = (x, n = 1500) => { const s = typeof x === 'string' ? x : encB(x) ?? String(x); return s.length > n ? s.slice(0, n) + '…' : s; };

export class Harness {
  constructor(id, tier, seed) {
    Object.assign(this, { id, tier, seed, t0: Date.now(), evals: 0, distinct: new Set(), samples: [], classes: {}, violations: 0, known: [], rules: [], assumptions: [], excluded: {}, extra: {} });
  }
  get quick() { return this.tier !== 'thorough'; }
  // n cases in the quick tier, n*f in the thorough one
  n(quick, f = 12) { const s = +(process.env.VERIF_SCALE || 1); return Math.max(1, Math.round(quick * s * (this.quick ? 1 : f))); }
  build(...targets) {
    dog.pause(true);
    try { execFileSync(path.join(V, 'lib/build.sh'), targets, { stdio: ['ignore', 'pipe', 'pipe'] }); }
    catch (e) { throw new HarnessError(`build of ${targets} failed:\n${String(e.stdout).slice(-4000)}${String(e.stderr).slice(-2000)}`); }
    finally { dog.pause(false); }
  }
  rule(s) { this.rules.push(s); }
  // Counts one generated case. key: anything serialisable; nontrivial by the stated rule.
  record(key, nontrivial = true, classes = []) {
    this.evals++;
    for (const c of classes) this.classes[c] = (this.classes[c] || 0) + 1;
    if (nontrivial) { const s = typeof key === 'string' ? key : encB(key); this.distinct.add(hashStr(s)); if (this.samples.length < 3 || (this.samples.length < 12 && this.evals % 97 === 0)) this.samples.push(trunc(s, 700)); }
  }
  exclude(what, n = 1) { this.excluded[what] = (this.excluded[what] || 0) + n; }
  seedFor(name, i = 0) { return createHash('md5').update(`${this.seed}/${name}/${i}`).digest().readInt32LE(0); }
  // Runs one property over generated cases. pred(value) throws Violation when it does not hold.
  async prop(name, arb, pred, { runs = 1000, examples = [], lanes = 1 } = {}) {
    if (this.only && this.only !== name) return;
    if (this.replayCase) { if (this.replayCase.name === name) { try { await dog.watched(name, this.replayCase.value, encB, () => pred(this.replayCase.value)); } catch (e) { if (e instanceof Violation) this.report(name, this.replayCase.value, e); else throw e; } } return; }
    for (const x of examples) { try { await dog.watched(name, x, encB, () => pred(x)); } catch (e) { if (!(e instanceof Violation)) throw e; this.report(name, x, e); return; } }
    // a slow machine gets fewer cases, not an unfinished check
    const late = () => this.quick && !this.violations && Date.now() - this.t0 > 700e3 && (this.exclude('not run for lack of time'), true);
    const isAsync = pred.constructor.name === 'AsyncFunction';
    const one = async (i) => {
      const params = { seed: this.seedFor(name, i), numRuns: Math.max(1, Math.ceil(runs / lanes)), endOnFailure: false };
      const mk = (a, p) => (isAsync ? fc.asyncProperty(a, p) : fc.property(a, p));
      const r = await fc.check(isAsync ? fc.asyncProperty(arb, async (v) => { if (this.stopLanes || late()) return; await dog.watched(name, v, encB, () => pred(v)); }) : fc.property(arb, (v) => { if (!late()) dog.watched(name, v, encB, () => pred(v)); }), params);
      if (r.failed) {
        const e = r.errorInstance;
        if (!(e instanceof Violation)) { const m = e && e.stack ? e.stack : String(e); throw new HarnessError(`property ${name}: ${m}\ncase: ${trunc(r.counterexample?.[0])}`); }
        if (this.stopLanes) return;
        this.stopLanes = true;
        this.report(name, r.counterexample[0], e, { seed: r.seed, path: r.counterexamplePath, shrinks: r.numShrinks });
      }
    };
    const rs = await Promise.allSettled(Array.from({ length: lanes }, (_, i) => one(i)));
    this.stopLanes = false;
    for (const r of rs) if (r.status === 'rejected') throw r.reason;
  }
  // A fixed case that fails because of a defect recorded in KNOWN_FINDINGS.txt. `violates` re-executes it
  // against the code and returns a description of the failure, or null when the property holds there.
  async finding(key, violates) {
    if (this.replayCase) return;
    const d = await violates();
    if (d == null) { this.extra.findings_gone = [...(this.extra.findings_gone || []), key]; return; }
    const f = loadFindings().find((x) => x.property === this.id && x.key === key);
    if (f) { this.known.push(key); console.log(`KNOWN-FINDING: property=${this.id} [${key}] ${f.what}`); }
    else this.report(`finding:${key}`, key, new Violation(d));
  }
  report(name, value, e, info = {}) {
    this.violations++;
    const dir = path.join(V, 'evidence', 'replays'); fs.mkdirSync(dir, { recursive: true });
    const f = path.join(dir, `${this.id}-${name.replace(/[^\w.-]+/g, '_')}-${hashStr(encB(value) ?? '').replace(/\W/g, '_')}.json`);
    fs.writeFileSync(f, encB({ property: this.id, name, message: e.message, detail: e.detail ?? null, info, value }) + '\n');
    console.log(`FAILED ${this.id}/${name}: ${trunc(e.message, 1200)}`);
    if (e.detail !== undefined) console.log('  detail: ' + trunc(e.detail, 1600));
    console.log('  case: ' + trunc(value, 1200));
    console.log(`VIOLATION property=${this.id} replay=${f}`);
  }
  finish() {
    const ev = {
      property: this.id, tier: this.tier, seed: this.seed, level: 'exploration',
      coverage: { evaluations: this.evals, distinct_nontrivial: this.distinct.size, rule: this.rules.join(' | ') || 'see DESIGN.md', samples: this.samples, classes: this.classes, excluded_known: this.excluded, known_findings: this.known, ...this.extra },
      assumptions: this.assumptions, wall_s: (Date.now() - this.t0) / 1000, violations: this.violations,
    };
    fs.mkdirSync(path.join(V, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(V, 'evidence', `${this.id}.json`), encB(ev) + '\n');
    console.log(`${this.id} ${this.tier} seed=${this.seed}: ${this.evals} cases, ${this.distinct.size} distinct non-trivial, ${this.violations} violation(s), ${ev.wall_s.toFixed(1)} s`);
    return this.violations ? 1 : 0;
  }
}
export const loadFindings = () => fs.readFileSync(path.join(V, 'KNOWN_FINDINGS.txt'), 'utf8').split('\n')
  .map((l) => /^finding: property=(\S+) key=(\S+) (.*)$/.exec(l)).filter(Boolean).map(([, property, key, what]) => ({ property, key, what }));
