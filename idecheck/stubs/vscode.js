module.exports = globalThis.__world.vscode;
