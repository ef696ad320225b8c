// Properties of the editor extension (C18, C19, C20): node check.cjs ID TIER | node check.cjs replay FILE
const fs = require("fs"), path = require("path"), crypto = require("crypto"), os = require("os");
const NODE = "/opt/veriftools/node/node_modules";
const fc = require(NODE + "/fast-check");
const { bundle, activate } = require("./bundle.cjs");
const { World, Position, Range, Selection } = require("./world.cjs");
const VERIF = process.env.VERIF_DIR || path.resolve(__dirname, "..");

// ---- random programs and their analysis ----
function rng(seed) {
  let s = crypto.createHash("sha256").update(String(seed)).digest(), i = 0, n = 0;
  const next = () => { if (i + 4 > s.length) { s = crypto.createHash("sha256").update(s).update(String(n++)).digest(); i = 0; } i += 4; return s.readUInt32LE(i - 4); };
  return { below: (n) => (n <= 0 ? 0 : next() % n), pick: (a) => a[next() % a.length], chance: (a, b) => next() % b < a };
}
function makeText(seed, marker = "") {
  const r = rng("text" + seed);
  const lines = ["// " + seed + marker];
  const n = 1 + r.below(r.chance(1, 2) ? 40 : 8);
  for (let i = 0; i < n; i++) lines.push((r.chance(1, 12) ? "é" : "x").repeat(r.below(r.chance(1, 5) ? 60 : 14)));
  return lines.join("\n");
}
const cache = new Map();
// All positions are offsets.
// `rest`: the other files of the crate, on which slices depend as well.
function analysis(text, rest = "") {
  const key = text + "\0" + rest;
  if (cache.has(key)) return cache.get(key);
  let r = rng("analysis" + text);
  const first = text.indexOf("\n") + 1;
  const bodies = [];
  const between = (a, b) => a + r.below(b - a + 1);
  const nest = (a, b, depth, parent) => {
    // [a, b] may be used by bodies; some space is left between them.
    let at = a;
    const n = depth === 0 ? 1 + r.below(3) : r.below(3);
    for (let i = 0; i < n && b - at > 8; i++) {
      const s = between(at, Math.min(at + 6, b - 4));
      const e = r.chance(1, 2) ? between(s + 4, Math.max(s + 4, b - 1)) : between(s + 4, Math.max(s + 4, s + Math.floor((b - s) / 2)));
      if (e >= b) break;
      const body = { s, e, depth, parent, kids: [] };
      bodies.push(body);
      if (depth < 3 && r.chance(2, 3)) nest(s + 2, e - 2, depth + 1, body);
      at = e + 3;
    }
  };
  nest(first, text.length, 0, null);
  r = rng("slices" + key);
  for (const b of bodies) {
    const mid = between(b.s + 1, b.e - 1);
    b.containers = r.chance(1, 3) ? [[b.s, mid], [r.chance(1, 2) ? mid : Math.min(mid + 2, b.e - 1), b.e]] : [[b.s, b.e]];
    const ranges = (n) => Array.from({ length: n }, () => {
      const [cs, ce] = r.pick(b.containers);
      const s = between(cs, ce - 1);
      const nl = text.indexOf("\n", s);
      return [s, between(s + 1, Math.min(ce, nl < 0 || nl <= s + 1 || r.chance(1, 4) ? ce : Math.min(nl, s + 12)))];
    });
    const seen = new Set();
    b.places = ranges(1 + r.below(7)).filter(([s, e]) => !seen.has(e - s) && seen.add(e - s)).map((range) => {
      const slice = [range, ...ranges(r.below(6))];
      if (r.chance(1, 3)) slice.sort((x, y) => x[0] - y[0]);
      return { range, ranges: r.chance(1, 3) ? [range, ...ranges(1)] : [range], slice, direct: slice.filter(() => r.chance(1, 2)) };
    });
  }
  const result = { bodies, order: bodies.map((_, i) => i).sort(() => (r.chance(1, 2) ? 1 : -1)) };
  cache.set(key, result);
  if (cache.size > 2000) cache.delete(cache.keys().next().value);
  return result;
}
const within = (b, s, e) => b.s <= s && e <= b.e;
const innermost = (bodies, s, e) => bodies.filter((b) => within(b, s, e)).sort((x, y) => x.e - x.s - (y.e - y.s))[0];
function position(text, o) { const before = text.slice(0, o).split("\n"); return { line: before.length - 1, column: before.at(-1).length }; }
const others = (texts, file) => Object.keys(texts).filter((f) => f !== file).map((f) => texts[f]).join("\0");
function answer(args, disk, world) {
  const file = args[1], text = disk[file];
  const fault = world.faults.shift();
  if (fault) return { kind: fault, text: fault === "garbage" ? "!!not what was asked for" : "error[E0000]: a passing problem\n" };
  if (text === undefined) return { kind: "err", value: { type: "FileNotFound" } };
  if (text.includes("!build")) return { kind: "build", text: "error[E0308]: mismatched types\n" };
  if (text.includes("!gone")) return { kind: "err", value: { type: "FileNotFound" } };
  const { bodies, order } = analysis(text, others(disk, file));
  const range = ([s, e]) => ({ start: position(text, s), end: position(text, e), filename: file });
  if (args[0] === "spans") return { kind: "ok", value: { spans: order.map((i) => range([bodies[i].s, bodies[i].e])) } };
  if (args[0] === "focus") {
    const at = world.docAt(text).offsetAt({ line: Number(args[2]), character: Number(args[3]) });
    const b = innermost(bodies, at, at);
    if (!b) return { kind: "build", text: "error: Invalid range\n" };
    if (text.includes("!panic")) return { kind: "err", value: { type: "AnalysisError", error: "panicked at ..." } };
    return { kind: "ok", value: { place_info: b.places.map((p) => ({ range: range(p.range), ranges: p.ranges.map(range), slice: p.slice.map(range), direct_influence: p.direct.map(range) })), containers: b.containers.map(range) } };
  }
  world.problem("asked for " + args.join(" "));
  return { kind: "build", text: "error: unrecognized subcommand\n" };
}

// ---- what the user should see ----
function expected(w, text, file, sel, mark) {
  const { bodies } = analysis(text, others(w.saved(), file));
  const body = innermost(bodies, sel[0], sel[1]);
  if (!body) return null;
  const [s, e] = mark ?? sel;
  const contained = body.places.filter((p) => s <= p.range[0] && p.range[1] <= e);
  let places = contained;
  if (!contained.length) {
    const containing = body.places.filter((p) => p.range[0] <= s && e <= p.range[1]).sort((x, y) => x.range[1] - x.range[0] - (y.range[1] - y.range[0]));
    // Ranges that only touch the selection count as well.
    // Which one is innermost must be beyond doubt.
    const inner = containing[0];
    if (inner && containing.some((p) => p.range[0] > inner.range[0] || p.range[1] < inner.range[1])) return { unclear: true };
    places = body.places.filter((p) => !containing.includes(p) && p.range[0] <= e && s <= p.range[1]).concat(containing.slice(0, 1));
  }
  return { body, places };
}
const alpha = (t) => { const m = /rgba\([^)]*,\s*([\d.]+)\)/.exec(t.options?.dark?.backgroundColor ?? ""); return m ? Number(m[1]) : null; };
function decorations(ed) {
  const out = { hidden: [], seeds: [], direct: [], any: 0 };
  for (const [t, rs] of ed.decorations) {
    out.any += rs.length;
    const rr = rs.map((r) => [ed.document.offsetAt(r.start), ed.document.offsetAt(r.end)]);
    if (t.options.opacity !== undefined && Number(t.options.opacity) < 1) out.hidden.push(...rr);
    if (alpha(t) === 0.1) out.seeds.push(...rr);
    if (alpha(t) === 0.07) out.direct.push(...rr);
  }
  return out;
}
const chars = (rs) => { const s = new Set(); for (const [a, b] of rs) for (let i = a; i < b; i++) s.add(i); return s; };
const show = (s) => [...s].sort((a, b) => a - b).join(" ");
const same = (a, b) => a.size === b.size && [...a].every((x) => b.has(x));
const keys = (rs) => new Set(rs.map((r) => r.join("-")));
function compare(ed, exp) {
  const d = decorations(ed);
  const where = `with the selection ${ed.document.offsetAt(ed.selection.start)}-${ed.document.offsetAt(ed.selection.end)} in ${ed.document.fileName}`;
  const seeds = exp.places.flatMap((p) => p.ranges);
  if (!seeds.length) return d.any ? `something is highlighted ${where} although no place is selected` : null;
  if (!same(keys(d.seeds), keys(seeds))) return `highlighted places ${show(keys(d.seeds))} instead of ${show(keys(seeds))} ${where}`;
  const slice = exp.places.flatMap((p) => p.slice);
  const kept = chars(slice);
  const hidden = chars(exp.body.containers.flatMap(([a, b]) => [...chars([[a, b]])].filter((i) => !kept.has(i)).map((i) => [i, i + 1])));
  const got = chars(d.hidden);
  if (!same(got, hidden)) {
    const lost = [...got].filter((i) => !hidden.has(i)), extra = [...hidden].filter((i) => !got.has(i));
    return `${lost.length ? `part of the slice is faded out (${lost.slice(0, 5)})` : `not faded out although not in the slice (${extra.slice(0, 5)})`} ${where}; slice ${slice.join(" ")}`;
  }
  const direct = keys(exp.places.flatMap((p) => p.direct));
  if (!same(keys(d.direct), direct)) return `direct influence ${show(keys(d.direct))} instead of ${show(direct)} ${where}`;
  return null;
}

const ICONS = { check: "active", x: "error", "sync~spin": "loading", "circle-slash": "unsaved", question: "notfound" };
const mode = (w) => ICONS[/\$\(([^)]*)\)/.exec(w.status.text)?.[1]] ?? "idle";

// ---- one history ----
async function history(prog, ext, test, stats) {
  const depth = test.depth % 3;
  const root = "/w", manifest = ["/w", "/w/a", "/w/a/b"][depth];
  const files = [manifest + "/src/lib.rs", manifest + "/src/m.rs"];
  const w = new World({ root, manifest, files: Object.fromEntries(files.map((f, i) => [f, makeText(test.seed + "/" + i, i === 1 ? test.marker ?? "" : "")])), version: ext.version, toolchain: ext.channel, answer, faults: [] });
  const scratch = Object.create(Object.getPrototypeOf(Object.values(w.docs)[0]));
  w.docAt = (text) => Object.assign(Object.create(Object.getPrototypeOf(scratch)), { text });
  const store = new Map();
  await activate(ext, prog, w, store);
  if (!w.commands.has("flowistry.focus")) return `the extension did not start for the crate in ${manifest} (messages: ${w.messages.join("; ")})`;

  // What we know about the state.
  let errorOpened = false, on = false, activated = false, unsaved = false, failed = 0, broken = 0, succeeded = 0, fresh = false, marks = {}, marksUnknown = false, edits = 0, log = [];
  w.events.save.event((d) => { unsaved = false; failed = broken = succeeded = 0; fresh = true; });
  const origComplete = w.complete.bind(w);
  const complete = (p, cuts) => { if (p.era === w.era) { errorOpened = false; if (p.failed) failed++; else succeeded++; if (p.failed && p.answer.value?.type !== "FileNotFound") broken++; } origComplete(p, cuts); };
  const offsets = (ed) => [ed.document.offsetAt(ed.selection.start), ed.document.offsetAt(ed.selection.end)];
  const finishAll = async () => { for (let i = 0; i < 30 && w.pending.length; i++) { complete(w.pending[0], []); await w.settle(); } };
  const bodyKey = (ed) => { const t = ed.document.savedText; const b = innermost(analysis(t).bodies, ...offsets(ed)); return b && ed.document.fileName + ":" + b.s; };
  const quiescent = () => w.pending.length === 0;
  const verify = () => {
    if (w.problems.length) return w.problems[0];
    if (!quiescent()) return null;
    const md = mode(w), ed = w.active, doc = ed.document;
    const any = w.editors.filter((e) => decorations(e).any > 0);
    if (md === "loading") return "the extension still says that it is loading although nothing runs";
    if (!on) {
      if (any.length) return `${any[0].document.fileName} is highlighted although focus mode is off`;
      if (w.errorPane() !== null && !errorOpened) return "the pane with errors is still open although focus mode is off";
      if (md === "active" || md === "unsaved" || md === "notfound") return `the status is '${md}' although focus mode is off`;
      return null;
    }
    if (unsaved) {
      stats.unsaved++;
      if (any.length) return `${any[0].document.fileName} is highlighted although there are unsaved changes`;
      if (md !== "unsaved") return `the status is '${md}' although there are unsaved changes`;
      return null;
    }
    if (broken && !succeeded && md !== "error" && md !== "notfound") return `the status is '${md}' although the tool failed`;
    // A command's failure is explained to the user; saves and selections fail silently.
    if (activated && md === "error" && w.lastError && !(w.errorPane() ?? "").includes(w.lastError.trim())) return `the error isn't shown: ${w.lastError}pane: ${w.errorPane()}`;
    if (failed || doc.isDirty || !fresh) return null;
    const text = doc.savedText;
    if (text.includes("!gone") || text.includes("!build") || text.includes("!panic")) return null;
    if (md !== "active") return `the status is '${md}' although everything worked`;
    if (w.errorPane() !== null && !errorOpened) return "the pane with errors is still open although everything worked";
    if (marksUnknown || w.tainted) return null;
    const exp = expected(w, text, doc.fileName, offsets(ed), marks[bodyKey(ed)]);
    if (!exp || exp.unclear) return null;
    stats.compared++;
    if (exp.places.length) stats.nontrivial.add(JSON.stringify([text.length, offsets(ed), exp.places.map((p) => p.slice)]));
    return compare(ed, exp);
  };

  for (const op of test.ops) {
    const ed = w.active, doc = ed.document;
    const note = (s) => log.push(s);
    const wasQuiet = quiescent(), settledOn = on && wasQuiet && !unsaved && !failed && !doc.isDirty && mode(w) === "active";
    let r = null;
    if (!["done", "all", "fault"].includes(op.k)) activated = false;
    switch (op.k) {
      case "select": {
        const n = doc.text.length;
        let s, e;
        const { bodies } = analysis(doc.text);
        const b = bodies[op.a % Math.max(bodies.length, 1)];
        if (b && op.c % 8) {
          const p = b.places[op.b % b.places.length];
          const kind = op.c % 5;
          if (kind === 0) [s, e] = [b.s + (op.b % (b.e - b.s)), null];
          else if (kind === 1) [s, e] = [p.range[0] + (op.a % (p.range[1] - p.range[0] + 1)), null];
          else if (kind === 2) [s, e] = [b.s + (op.b % (b.e - b.s)), b.s + (op.a % (b.e - b.s))];
          else if (kind === 3) [s, e] = [...p.range];
          else [s, e] = [p.range[0] + 1, Math.min(p.range[1] + (op.a % 5), b.e)];
        } else [s, e] = [op.a % (n + 1), op.b % 2 ? null : op.b % (n + 1)];
        const sel = new Selection(doc.positionAt(s), doc.positionAt(e ?? s));
        note(`select ${s}-${e ?? s}`);
        if (!sel.anchor.isEqual(ed.selection.anchor) || !sel.active.isEqual(ed.selection.active) || ed.selections.length > 1) fresh = true;
        ed.selections = [sel];
        break;
      }
      case "edit": case "background": {
        const target = op.k === "edit" ? doc : w.editors.find((x) => x !== ed).document;
        const marker = ["", "", "", "", "", "", "", "!build", "!panic", "!gone"][op.b % (test.faulty ? 10 : 7)];
        note(`edit ${target.fileName}${marker}`);
        const text = makeText(test.seed + "/e" + op.a + "/" + edits++, marker);
        // Whether marks in other files survive isn't specified.
        if (op.k === "edit") { marks = {}; marksUnknown = false; } else if (Object.keys(marks).length) marksUnknown = true;
        for (const x of w.editors) if (x.document === target) x._selections = [new Selection(0, 0, 0, 0)];
        if (op.k === "edit") w.era++;
        if (on && op.k === "edit") unsaved = true;
        w.edit(target, text);
        if (op.k === "edit") { fresh = false; }
        else {
          // As when a refactoring changes other files, and saves them.
          await w.settle();
          if (test.races && op.c % 2) { if ((r = verify())) break; }
          note("save it");
          w.saveExplicitly(target);
        }
        break;
      }
      case "save": note("save"); w.saveExplicitly(doc); fresh = true; break;
      case "switch": note("switch"); w.activate(w.editors[op.a % w.editors.length]); if (w.active !== ed) fresh = false; break;
      case "focus":
        note("focus");
        on = !on; w.era++; failed = broken = succeeded = 0; unsaved = false; fresh = on;
        if (Object.keys(marks).length) marksUnknown = true;
        if (on && wasQuiet) { activated = true; w.lastError = null; }
        w.run("focus");
        break;
      case "mark": case "unmark": {
        note(op.k);
        if (!on) { on = true; unsaved = false; failed = broken = succeeded = 0; }
        fresh = true;
        const key = doc.isDirty ? null : bodyKey(ed);
        w.run("focus_" + op.k);
        if (settledOn && key !== null) {
          await w.settle();
          await finishAll();
          if (!failed && key) { if (op.k === "mark") marks[key] = offsets(ed); else delete marks[key]; }
        } else marksUnknown = true;
        break;
      }
      case "take": {
        note("select the slice");
        if (!on) { on = true; unsaved = false; failed = broken = succeeded = 0; }
        fresh = true;
        const exp = settledOn && !marksUnknown && !/!(gone|build|panic)/.test(doc.savedText) ? expected(w, doc.savedText, doc.fileName, offsets(ed), marks[bodyKey(ed)]) : null;
        w.run("focus_select");
        if (exp) {
          await w.settle();
          await finishAll();
          if (!failed && !exp.unclear && !w.tainted && exp.places.length) {
            const want = keys(exp.places.flatMap((p) => p.slice)), got = keys(ed.selections.map((s) => [doc.offsetAt(s.start), doc.offsetAt(s.end)]));
            stats.compared++;
            if (!same(want, got)) r = `selected ${show(got)} instead of the slice ${show(want)}`;
          }
        }
        break;
      }
      case "done": {
        const p = w.pending[op.a % Math.max(1, w.pending.length)];
        if (p) { note(`${p.args[0]} ends`); complete(p, op.b % 3 ? [op.b, op.c, op.b * 7 + op.c] : []); }
        break;
      }
      case "error": {
        note("last error");
        w.run("last_error");
        await w.settle();
        if (w.lastError && wasQuiet && !(w.errorPane() ?? "").includes(w.lastError.trim())) r = `the last error isn't shown: ${w.lastError}pane: ${w.errorPane()}`;
        errorOpened = true;
        break;
      }
      case "all": note("everything ends"); await finishAll(); break;
      case "fault": {
        // A passing problem: the next run of the tool fails whatever the source.
        note("a problem with the tool");
        w.faults.push(["build", "killed", "garbage"][op.a % 3]);
        break;
      }
    }
    await w.settle();
    if (!test.races) await finishAll();
    stats.evaluations++;
    r = r ?? verify();
    if (!r && op.k === "fault") continue;
    if (r) return `${r}\nhistory: ${log.join("; ")}`;
  }
  await finishAll();
  const r = verify();
  return r ? `${r}\nhistory: ${log.join("; ")}; everything ends` : null;
}

const nat = fc.nat({ max: 1 << 20 });
const op = (weights) => fc.oneof(...Object.entries(weights).map(([k, weight]) => ({ weight, arbitrary: fc.record({ k: fc.constant(k), a: nat, b: nat, c: nat }) })));
const PROPS = {
  C18: { rule: "States of focus mode in generated programs with known places and slices, after selecting, marking and taking slices. Non-trivial: a distinct selection with at least one place.", races: false, faulty: false, start: [{ k: "focus", a: 0, b: 0, c: 0 }],
    ops: op({ select: 20, mark: 2, unmark: 2, take: 2, switch: 1, focus: 1, edit: 1, save: 1 }), runs: [8000, 250000], len: 14 },
  C19: { rule: "States in histories of edits, saves, selections, commands and switches between editors, with the tool finishing or failing at any time. Non-trivial: a distinct selection with at least one place, shown at the end of such a history.", races: true, faulty: true, start: [],
    ops: op({ select: 10, mark: 1, unmark: 1, take: 1, switch: 3, focus: 3, edit: 2, save: 4, background: 2, done: 8, all: 10, fault: 1 }), start: [], runs: [10000, 250000], len: 30 },
  C20: { rule: "Conversations with the tool, whose output comes in pieces, fails or makes no sense, for crates in several places of the workspace. Non-trivial: a distinct selection with at least one place.", races: true, faulty: true, start: [{ k: "focus", a: 0, b: 0, c: 0 }],
    ops: op({ select: 6, edit: 2, save: 3, done: 8, all: 8, fault: 2, switch: 1, focus: 2, error: 1 }), runs: [6000, 250000], len: 20, depths: 2 },
};


const save = (id, test, detail) => {
  fs.mkdirSync(VERIF + "/replays", { recursive: true });
  const file = `${VERIF}/replays/${id}.json`;
  fs.writeFileSync(file, JSON.stringify({ property: id, test, detail }, null, 1));
  console.log(detail);
  console.log(`VIOLATION property=${id} replay=${file}`);
};
const evidence = (id, tier, e) => {
  fs.mkdirSync(VERIF + "/evidence", { recursive: true });
  fs.writeFileSync(`${VERIF}/evidence/${id}.json`, JSON.stringify({ property: id, tier, seed: SEED, level: "exploration", assumptions: ["lodash, @flatten-js/interval-tree and the vscode API are not installed: stand-ins with their documented behaviour", "places that contain the selection are nested in each other"], ...e }, null, 1));
};
const SEED = Number(process.env.VERIF_SEED || 1);
const newStats = () => ({ evaluations: 0, compared: 0, unsaved: 0, nontrivial: new Set() });
// A problem in an event handler is one of the history that runs.
for (const e of ["unhandledRejection", "uncaughtException"]) process.on(e, (x) => { if (!globalThis.__world) { console.error(x); process.exit(2); } globalThis.__world.problem(`${e}: ${x?.stack ?? x}`); });

async function run(id, tier, current) {
  const ext = await bundle(), prog = ext.script.runInThisContext();
  const p = PROPS[id], start = Date.now();
  const stats = newStats(), samples = [];
  let last = null, n = 0;
  const arb = fc.record({ seed: fc.nat(1e6), depth: p.depths ? fc.nat(p.depths) : fc.constant(0), marker: p.faulty ? fc.constantFrom("", "", "", "!gone", "!build", "!panic") : fc.constant(""), faulty: fc.constant(p.faulty), races: fc.constant(p.races), ops: fc.array(p.ops, { minLength: 1, maxLength: p.len, size: "max" }).map((ops) => [...p.start, ...ops]) });
  const limit = tier === "thorough" ? 2400000 : 240000;
  const res = await fc.check(fc.asyncProperty(arb, async (test) => {
    fs.writeFileSync(current, JSON.stringify(test));
    const r = await history(prog, ext, test, stats);
    n++;
    if (samples.length < 3 && test.ops.length > 6) samples.push({ ops: test.ops.map((o) => o.k).join(" "), seed: test.seed });
    if (r) { last = { test, detail: r }; throw Error(r); }
  }), { seed: SEED, numRuns: Number(process.env.VERIF_BATCHES) || p.runs[tier === "thorough" ? 1 : 0], interruptAfterTimeLimit: limit, markInterruptAsFailure: false, endOnFailure: false });
  let code = 0;
  if (res.failed && last) {
    code = 1;
    const test = res.counterexample ? res.counterexample[0] : last.test;
    save(id, test, (await history(prog, ext, test, newStats())) ?? last.detail);
  }
  const wall_s = (Date.now() - start) / 1000;
  evidence(id, tier, { coverage: { evaluations: stats.evaluations, distinct_nontrivial: stats.nontrivial.size, rule: p.rule, samples, counters: { histories: n, states_compared: stats.compared, states_unsaved: stats.unsaved } }, wall_s, violations: code });
  console.log(`${id} ${tier}: ${n} histories, ${stats.evaluations} states, ${stats.compared} compared, ${stats.nontrivial.size} distinct non-trivial, ${code} violations, ${wall_s}s`);
  process.exit(code);
}
// Runs the check in a process of its own, so that an endless loop has a culprit.
function supervise(id, tier) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "idecheck-")), current = path.join(dir, "current.json");
  const clean = () => fs.rmSync(dir, { recursive: true, force: true });
  const child = require("child_process").spawn(process.execPath, ["--max-old-space-size=4096", __filename, "run", id, tier, current], { stdio: "inherit" });
  let over = false;
  const patience = Number(process.env.VERIF_PATIENCE || 60) * 1000;
  const stuck = (what) => {
    over = true;
    if (!fs.existsSync(current)) { clean(); process.exit(2); }
    save(id, JSON.parse(fs.readFileSync(current, "utf8")), what);
    evidence(id, tier, { coverage: { evaluations: 0, distinct_nontrivial: 0, rule: PROPS[id].rule, samples: [] }, wall_s: 0, violations: 1 });
    clean();
    process.exit(1);
  };
  setInterval(() => { if (!over && fs.existsSync(current) && Date.now() - fs.statSync(current).mtimeMs > patience) { child.kill("SIGKILL"); stuck("the extension doesn't come to rest"); } }, 2000);
  child.on("exit", (code, signal) => { if (over) return; if (signal || code > 2) stuck(`the extension crashed (${signal ?? code})`); clean(); process.exit(code); });
}

async function main() {
  const [id, tier = "quick", third, fourth] = process.argv.slice(2);
  if (id === "run") return run(tier, third, fourth);
  if (id === "replay") {
    const v = JSON.parse(fs.readFileSync(tier, "utf8"));
    const watch = new (require("worker_threads").Worker)(`setTimeout(() => { console.log("the extension doesn't come to rest\\nVIOLATION property=${v.property} replay=(given)"); process.kill(process.pid, "SIGKILL"); }, 60000)`, { eval: true });
    watch.unref();
    const ext = await bundle();
    const r = await history(ext.script.runInThisContext(), ext, v.test, newStats());
    console.log(r ?? "no longer fails");
    if (r) console.log(`VIOLATION property=${v.property} replay=${tier}`);
    process.exit(r ? 1 : 0);
  }
  if (!PROPS[id]) { console.error("unknown check " + id); process.exit(2); }
  supervise(id, tier);
}
main().catch((e) => { console.error(e); process.exit(2); });
