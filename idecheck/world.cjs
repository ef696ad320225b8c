// A model of the editor and of the `cargo flowistry` tool around the real extension.
const { EventEmitter } = require("events");
const { StringDecoder } = require("string_decoder");
const path = require("path");
const zlib = require("zlib");

class Position {
  constructor(line, character) { this.line = line; this.character = character; }
  isBefore(o) { return this.line < o.line || (this.line === o.line && this.character < o.character); }
  isBeforeOrEqual(o) { return this.isBefore(o) || this.isEqual(o); }
  isAfter(o) { return o.isBefore(this); }
  isAfterOrEqual(o) { return o.isBeforeOrEqual(this); }
  isEqual(o) { return this.line === o.line && this.character === o.character; }
  compareTo(o) { return this.isBefore(o) ? -1 : this.isEqual(o) ? 0 : 1; }
  translate(l = 0, c = 0) { return new Position(this.line + l, this.character + c); }
  with(l = this.line, c = this.character) { return new Position(l, c); }
}
class Range {
  constructor(a, b, c, d) {
    let s = a, e = b;
    if (typeof a === "number") { s = new Position(a, b); e = new Position(c, d); }
    if (e.isBefore(s)) [s, e] = [e, s];
    this.start = s; this.end = e;
  }
  get isEmpty() { return this.start.isEqual(this.end); }
  get isSingleLine() { return this.start.line === this.end.line; }
  contains(x) { return x instanceof Range ? this.contains(x.start) && this.contains(x.end) : this.start.isBeforeOrEqual(x) && x.isBeforeOrEqual(this.end); }
  isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end); }
  intersection(o) { const s = this.start.isAfter(o.start) ? this.start : o.start, e = this.end.isBefore(o.end) ? this.end : o.end; return e.isBefore(s) ? undefined : new Range(s, e); }
  union(o) { return new Range(this.start.isBefore(o.start) ? this.start : o.start, this.end.isAfter(o.end) ? this.end : o.end); }
  with(s = this.start, e = this.end) { return new Range(s, e); }
}
class Selection extends Range {
  constructor(a, b, c, d) {
    let s = a, e = b;
    if (typeof a === "number") { s = new Position(a, b); e = new Position(c, d); }
    super(s, e);
    this.anchor = s; this.active = e;
  }
  get isReversed() { return !this.anchor.isEqual(this.start); }
}

class Doc {
  constructor(world, file, text) {
    Object.assign(this, { world, fileName: file, text, savedText: text, languageId: file.endsWith(".rs") ? "rust" : "toml", isDirty: false, version: 1, isClosed: false, eol: 1, isUntitled: false });
    this.uri = { fsPath: file, path: file, scheme: "file", toString: () => "file://" + file };
  }
  get lines() { return this.text.split("\n"); }
  get lineCount() { return this.lines.length; }
  getText(r) { return r ? this.text.slice(this.offsetAt(r.start), this.offsetAt(r.end)) : this.text; }
  offsetAt(p) {
    const ls = this.lines;
    if (p.line < 0) return 0;
    if (p.line >= ls.length) return this.text.length;
    let o = 0;
    for (let i = 0; i < p.line; i++) o += ls[i].length + 1;
    return o + Math.max(0, Math.min(p.character, ls[p.line].length));
  }
  positionAt(o) {
    o = Math.max(0, Math.min(o, this.text.length));
    const before = this.text.slice(0, o).split("\n");
    return new Position(before.length - 1, before.at(-1).length);
  }
  lineAt(l) { const i = typeof l === "number" ? l : l.line; const t = this.lines[i]; return { lineNumber: i, text: t, range: new Range(i, 0, i, t.length) }; }
  validatePosition(p) { return this.positionAt(this.offsetAt(p)); }
  validateRange(r) { return new Range(this.validatePosition(r.start), this.validatePosition(r.end)); }
  async save() {
    await null;
    this.world.save(this);
    return true;
  }
}

class Editor {
  constructor(world, doc) {
    this.world = world; this.document = doc; this.decorations = new Map();
    this._selections = [new Selection(0, 0, 0, 0)];
    this.viewColumn = 1; this.visibleRanges = []; this.options = {};
  }
  get selections() { return this._selections; }
  get selection() { return this._selections[0]; }
  set selection(s) { this.selections = [s]; }
  set selections(ss) {
    const old = this._selections;
    // VS Code refuses to have no selection at all.
    if (ss.length === 0) return;
    this._selections = ss;
    if (old.length !== ss.length || old.some((s, i) => !s.anchor.isEqual(ss[i].anchor) || !s.active.isEqual(ss[i].active))) {
      this.world.later(() => this.world.events.selection.fire({ textEditor: this, selections: ss, kind: undefined }));
    }
  }
  setDecorations(type, ranges) { this.decorations.set(type, ranges.map((r) => (r.range ? r.range : r))); this.world.shown++; }
  revealRange() {}
  show() {}
  hide() { this.hidden = true; }
  edit() { throw Error("the extension must not edit"); }
}

class Emitter {
  constructor() {
    this.fs = new Set();
    this.event = (f, self, disposables) => {
      const g = self ? f.bind(self) : f;
      this.fs.add(g);
      const d = { dispose: () => { this.fs.delete(g); } };
      if (disposables) disposables.push(d);
      return d;
    };
  }
  fire(e) { for (const f of [...this.fs]) { try { const r = f(e); if (r && r.catch) r.catch((x) => globalThis.__world.problem("event handler rejected: " + (x?.stack ?? x))); } catch (x) { globalThis.__world.problem("event handler threw: " + (x?.stack ?? x)); } } }
  dispose() { this.fs.clear(); }
}

class World {
  /** `opts`: files {name: text}, root, manifest (directory of Cargo.toml), version, answer(args, world) */
  constructor(opts) {
    Object.assign(this, opts);
    this.problems = []; this.pending = []; this.commands = new Map(); this.types = []; this.shown = 0; this.messages = []; this.queue = []; this.panes = []; this.failures = 0; this.era = 0; this.spawned = [];
    this.docs = Object.fromEntries(Object.entries(this.files).map(([f, t]) => [f, new Doc(this, f, t)]));
    this.editors = Object.values(this.docs).map((d) => new Editor(this, d));
    this.events = { change: new Emitter(), save: new Emitter(), selection: new Emitter(), active: new Emitter(), visible: new Emitter(), config: new Emitter(), close: new Emitter(), open: new Emitter(), ranges: new Emitter(), folders: new Emitter(), state: new Emitter() };
    const world = this;
    const item = { text: "", tooltip: "", show() {}, hide() {}, dispose() {} };
    this.status = item;
    const uri = (p) => ({ fsPath: p, path: p, scheme: "file", toString: () => p });
    this.vscode = {
      Position, Range, Selection, EventEmitter: Emitter, version: "1.0.0",
      ThemeColor: class { constructor(id) { this.id = id; } },
      Uri: { parse: (s) => uri(s.replace(/^file:\/\//, "")), file: uri, joinPath: (u, ...p) => uri(path.join(u.fsPath, ...p)) },
      ViewColumn: { Active: -1, Beside: -2, One: 1, Two: 2 }, StatusBarAlignment: { Left: 1, Right: 2 }, ProgressLocation: { Notification: 15, Window: 10 }, TextEditorRevealType: {}, DecorationRangeBehavior: {}, OverviewRulerLane: {}, ConfigurationTarget: {},
      Disposable: class { constructor(f) { this.dispose = f; } static from(...ds) { return { dispose: () => ds.forEach((d) => d.dispose()) }; } },
      workspace: {
        get workspaceFolders() { return [{ uri: uri(world.root), name: "w", index: 0 }]; },
        get textDocuments() { return Object.values(world.docs); },
        fs: { stat: async (u) => { await null; if (u.fsPath === path.join(world.manifest, "Cargo.toml") || world.docs[u.fsPath]) return {}; throw Error("FileNotFound"); } },
        onDidChangeTextDocument: this.events.change.event, onDidSaveTextDocument: this.events.save.event, onDidCloseTextDocument: this.events.close.event, onDidOpenTextDocument: this.events.open.event,
        onDidChangeConfiguration: this.events.config.event, onDidChangeWorkspaceFolders: this.events.folders.event,
        registerTextDocumentContentProvider: (_, p) => { world.provider = p; return { dispose() {} }; },
        openTextDocument: async (u) => ({ uri: u, fileName: u.fsPath, languageId: "plaintext", isDirty: false, getText: () => "" }),
        getConfiguration: () => ({ get: (_, d) => d, has: () => false, update: async () => {} }),
        asRelativePath: (p) => path.relative(world.root, p.fsPath ?? p),
        getWorkspaceFolder: () => ({ uri: uri(world.root) }),
      },
      window: {
        get activeTextEditor() { return world.active; },
        get visibleTextEditors() { return world.editors; },
        createOutputChannel: () => ({ appendLine() {}, append() {}, show() {}, clear() {}, dispose() {} }),
        createStatusBarItem: () => item,
        createTextEditorDecorationType: (o) => { const t = { key: world.types.length, options: o, dispose() {} }; world.types.push(t); return t; },
        onDidChangeTextEditorSelection: this.events.selection.event, onDidChangeActiveTextEditor: this.events.active.event, onDidChangeVisibleTextEditors: this.events.visible.event, onDidChangeTextEditorVisibleRanges: this.events.ranges.event, onDidChangeWindowState: this.events.state.event,
        // The user leaves the message where it is.
        showErrorMessage: (m) => { world.messages.push(String(m)); return new Promise(() => {}); },
        showInformationMessage: async () => undefined, showWarningMessage: async () => undefined, setStatusBarMessage: () => ({ dispose() {} }),
        showTextDocument: async (d) => { const e = new Editor(world, d); world.panes.push(e); return e; },
        withProgress: async (_, f) => f({ report() {} }, { isCancellationRequested: false, onCancellationRequested: () => ({ dispose() {} }) }),
      },
      commands: {
        registerCommand: (name, f) => { world.commands.set(name, f); return { dispose: () => world.commands.delete(name) }; },
        executeCommand: async () => undefined,
      },
    };
    this.child_process = { spawn: (cmd, args, opts) => this.spawn(cmd, args, opts), exec: (_, cb) => cb(null, { stdout: "host: x\n", stderr: "" }), execSync: () => "" };
    this.active = this.editors[0];
  }
  // What the user reads in the pane for errors.
  errorPane() { return this.panes.some((e) => !e.hidden) ? this.provider.provideTextDocumentContent(this.provider.uri) : null; }
  // What is on disk.
  saved() { return Object.fromEntries(Object.entries(this.docs).map(([f, d]) => [f, d.savedText])); }
  problem(p) { this.problems.push(p); }
  later(f) { setImmediate(f); }
  // Everything that does not wait for a process has happened.
  async settle() { for (let i = 0; i < 12; i++) await new Promise((r) => setImmediate(r)); }

  spawn(cmd, args, opts = {}) {
    const p = new EventEmitter();
    const stream = () => {
      const s = new EventEmitter();
      let dec;
      s.setEncoding = (e) => { dec = new StringDecoder(e); return s; };
      s.feed = (b) => { const d = dec ? dec.write(b) : b; if (d.length) s.emit("data", d); };
      s.pipe = (x) => x;
      return s;
    };
    p.stdout = stream(); p.stderr = stream(); p.stdin = { end() {}, write() {} }; p.exitCode = null; p.pid = this.spawned.length + 1;
    p.kill = () => { finish("", "", null, "SIGTERM"); return true; };
    let over = false;
    const finish = (out, err, code, signal, cuts = []) => {
      if (over) return;
      over = true;
      const i = this.pending.indexOf(proc);
      if (i >= 0) this.pending.splice(i, 1);
      const chunks = (b) => { const cs = [...new Set(cuts.map((c) => c % (b.length + 1)))].sort((a, b) => a - b); return [0, ...cs].map((c, i) => b.subarray(c, cs[i] ?? b.length)); };
      for (const c of chunks(Buffer.from(err))) p.stderr.feed(c);
      for (const c of chunks(Buffer.from(out))) p.stdout.feed(c);
      p.exitCode = code; p.signalCode = signal ?? null;
      p.stdout.emit("end"); p.stderr.emit("end"); p.stdout.emit("close"); p.stderr.emit("close");
      p.emit("exit", code, signal ?? null);
      p.emit("close", code, signal ?? null);
    };
    const text = (s) => this.later(() => finish(s + "\n", "", 0));
    const tool = args.indexOf("flowistry");
    const rest = args.slice(tool + 1);
    const proc = { p, finish, args: rest, opts };
    this.spawned.push({ cmd, args, cwd: opts.cwd });
    if (tool < 0) {
      if (cmd.endsWith("rustup")) text("/toolchain/bin/rustc");
      else if (cmd.endsWith("rustc")) text("/toolchain/lib\n/toolchain");
      else this.problem(`ran ${cmd} ${args.join(" ")}`);
      return p;
    }
    if (args[0] !== "+" + this.toolchain && cmd.endsWith("cargo")) this.problem(`cargo ran without the right toolchain: ${args.join(" ")}`);
    if (rest.includes("-V")) { text(this.version); return p; }
    const cwd = opts.cwd ?? "/";
    if (cwd !== this.manifest && !cwd.startsWith(this.manifest + "/")) {
      this.later(() => finish("", `error: could not find \`Cargo.toml\` in \`${cwd}\` or any parent directory\n`, 101));
      return p;
    }
    if (rest[0] === "preload") { this.later(() => finish("", "", 0)); return p; }
    // The tool reads what is on disk when it starts.
    proc.answer = this.answer(rest, this.saved(), this);
    // Slices may or may not be computed again when another document is saved that was edited before.
    if (Object.values(this.docs).some((d) => d.isDirty && d.fileName !== rest[1])) this.tainted = true;
    proc.era = this.era;
    proc.failed = proc.answer.kind !== "ok";
    this.pending.push(proc);
    return p;
  }
  complete(proc, cuts) {
    const a = proc.answer;
    if (a.kind === "build" || a.kind === "killed") { a.text += `a ✗ é #${++this.failures}\n`; this.lastError = a.text; }
    if (a.kind === "build") return proc.finish("", a.text, 101, null, cuts);
    if (a.kind === "killed") return proc.finish("", a.text, null, "SIGKILL", cuts);
    if (a.kind === "garbage") return proc.finish(a.text, "", 0, null, cuts);
    const value = a.kind === "ok" ? { Ok: a.value } : { Err: a.value };
    proc.finish(zlib.gzipSync(Buffer.from(JSON.stringify(value))).toString("base64"), "warning: unused — ünüsed\n", 0, null, cuts);
  }

  // ---- what the user does ----
  edit(doc, text) {
    this.tainted = false;
    doc.text = text; doc.version++; doc.isDirty = text !== doc.savedText;
    this.events.change.fire({ document: doc, contentChanges: [{}], reason: undefined });
  }
  save(doc) {
    const was = doc.isDirty;
    doc.savedText = doc.text; doc.isDirty = false;
    if (was) this.events.save.fire(doc);
  }
  saveExplicitly(doc) { doc.savedText = doc.text; doc.isDirty = false; this.events.save.fire(doc); }
  run(name) {
    const f = this.commands.get("flowistry." + name);
    if (!f) { this.problem(`no command flowistry.${name}`); return; }
    Promise.resolve(f()).catch((e) => this.problem(`flowistry.${name} failed: ${e?.stack ?? e}`));
  }
  activate(editor) { this.active = editor; this.events.active.fire(editor); }
}
module.exports = { World, Position, Range, Selection };
