const fs = require("fs"), path = require("path"), vm = require("vm");
const NODE = "/opt/veriftools/node/node_modules";
const esbuild = require(NODE + "/esbuild");
const REPO = process.env.FLOWISTRY_REPO || "/repo", IDE = REPO + "/ide";

// ---- the extension, as it is built, with stand-ins for its packages ----
function bundle() {
  const version = JSON.parse(fs.readFileSync(IDE + "/package.json", "utf8")).version;
  const toolchain = fs.readFileSync(REPO + "/rust-toolchain.toml", "utf8");
  const channel = /channel\s*=\s*"([^"]+)"/.exec(toolchain)[1];
  const components = [...(/components\s*=\s*\[([^\]]*)\]/.exec(toolchain)?.[1] ?? "").matchAll(/"([^"]+)"/g)].map((m) => m[1]);
  const stub = (f) => path.join(__dirname, "stubs", f);
  const stubs = { vscode: stub("vscode.js"), lodash: stub("lodash.js"), "@flatten-js/interval-tree": stub("interval-tree.js"), child_process: stub("child_process.js"), "node:child_process": stub("child_process.js") };
  return esbuild.build({
    entryPoints: [IDE + "/src/extension.ts"], bundle: true, write: false, platform: "node", format: "cjs", logLevel: "silent", loader: { ".scss": "empty" },
    define: { VERSION: JSON.stringify(version), TOOLCHAIN: JSON.stringify({ channel, components }) },
    plugins: [{ name: "stubs", setup(b) {
      b.onResolve({ filter: /^[^.\/]/ }, (a) => {
        if (a.kind === "entry-point") return;
        if (stubs[a.path]) return { path: stubs[a.path] };
        if (/^lodash\//.test(a.path)) return { path: a.path, namespace: "lodash" };
        if (require("module").isBuiltin(a.path)) return { path: a.path, external: true };
        return { path: stub("other.js") };
      });
      b.onLoad({ filter: /.*/, namespace: "lodash" }, (a) => ({ contents: `module.exports = require(${JSON.stringify(stub("lodash.js"))}).${a.path.slice(7)}`, resolveDir: __dirname }));
    } }],
  }).then((r) => ({ script: new vm.Script(`(function(module, exports, require, console, setTimeout){${r.outputFiles[0].text}\n})`), version, channel }));
}
const quiet = process.env.VERIF_LOG ? console : Object.fromEntries(["log", "debug", "info", "warn", "error", "trace"].map((k) => [k, () => {}]));
// Activates the extension in a world.
async function activate(ext, prog, w, store = new Map()) {
  globalThis.__world = w;
  const m = { exports: {} };
  prog(m, m.exports, require, quiet, (f, t) => setTimeout(f, 0));
  await m.exports.activate({ subscriptions: [], workspaceState: { get: (k, d) => (store.has(k) ? store.get(k) : d), update: async (k, v) => { store.set(k, v); } }, globalState: { get: () => "", update: async () => {} }, extensionPath: "/ext" });
  await w.settle();
}
module.exports = { bundle, activate };
