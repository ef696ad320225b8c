// Packages that reach outside of the editor: nothing here may be called.
const f = () => Promise.resolve(undefined);
module.exports = f;
module.exports.default = f;
module.exports.__esModule = true;
