// Runs the extension of /repo in a model of the editor.
const { bundle, activate } = require("./bundle.cjs");
const { World, Selection } = require("./world.cjs");
async function start({ files, answer, manifest = "/w" }) {
  const ext = await bundle();
  const w = new World({ root: "/w", manifest, files, version: ext.version, toolchain: ext.channel, answer });
  await activate(ext, ext.script.runInThisContext(), w);
  return w;
}
const range = (doc, [s, e]) => { const p = (o) => { const x = doc.positionAt(o); return { line: x.line, column: x.character }; }; return { start: p(s), end: p(e), filename: doc.fileName }; };
const ICONS = { check: "active", x: "error", "sync~spin": "loading", "circle-slash": "unsaved", question: "notfound" };
const mode = (w) => ICONS[/\$\(([^)]*)\)/.exec(w.status.text)?.[1]] ?? "idle";
const faded = (ed) => { const out = new Set(); for (const [t, rs] of ed.decorations) if (t.options.opacity !== undefined && Number(t.options.opacity) < 1) for (const r of rs) for (let i = ed.document.offsetAt(r.start); i < ed.document.offsetAt(r.end); i++) out.add(i); return out; };
const finish = async (w, cuts = []) => { for (let i = 0; i < 30 && w.pending.length; i++) { w.complete(w.pending[0], cuts); await w.settle(); } };
const select = async (w, s, e = s) => { const ed = w.active; ed.selections = [new Selection(ed.document.positionAt(s), ed.document.positionAt(e))]; await w.settle(); };
const run = async (w, c) => { w.run(c); await w.settle(); };
const check = (ok, what) => { if (!ok) { console.log("FAILED: " + what); process.exit(1); } };
const main = (f) => f().then(() => { console.log("ok"); process.exit(0); }, (e) => { console.log(e); process.exit(1); });
module.exports = { start, range, mode, faded, finish, select, run, check, main };
