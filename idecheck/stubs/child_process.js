module.exports = globalThis.__world.child_process;
