// The functions of lodash (not installed here) that the extension uses, or may come to use, with their documented semantics.
const prop = (f) => (typeof f === "function" ? f : f === undefined || f === null ? (x) => x : Array.isArray(f) ? (x) => f.reduce((a, k) => a?.[k], x) : typeof f === "object" ? (x) => Object.entries(f).every(([k, v]) => isEqual(x?.[k], v)) : (x) => String(f).split(".").reduce((a, k) => a?.[k], x));
const isEqual = (a, b) => {
  if (a === b || (a !== a && b !== b)) return true;
  if (typeof a !== "object" || typeof b !== "object" || !a || !b) return false;
  if (Array.isArray(a) !== Array.isArray(b) || Object.getPrototypeOf(a) !== Object.getPrototypeOf(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && isEqual(a[k], b[k]));
};
// lodash compares criteria with < and > (arrays as criteria become strings), undefined and NaN last.
const rank = (x) => (x === undefined ? 3 : x === null ? 2 : x !== x ? 4 : 0);
const compare = (a, b) => {
  if (a === b) return 0;
  const r = rank(a) - rank(b);
  if (rank(a) || rank(b)) return r;
  return a > b ? 1 : a < b ? -1 : 0;
};
const values = (c) => (c == null ? [] : Array.isArray(c) ? c : typeof c === "string" ? [...c] : typeof c.length === "number" ? Array.from(c) : Object.values(c));
const flattenDepth = (a, d) => values(a).flat(d);
const orderBy = (c, its, orders) => {
  its = its === undefined || its === null ? [(x) => x] : Array.isArray(its) ? (its.length ? its : [(x) => x]) : [its];
  orders = orders === undefined ? [] : Array.isArray(orders) ? orders : [orders];
  const fs = its.map(prop);
  return values(c).map((v, i) => ({ v, i, ks: fs.map((f) => f(v)) })).sort((x, y) => {
    for (let k = 0; k < fs.length; k++) {
      const r = compare(x.ks[k], y.ks[k]);
      if (r) return orders[k] === "desc" ? -r : r;
    }
    return x.i - y.i;
  }).map((x) => x.v);
};
const best = (c, f, sign) => {
  let out, key;
  for (const v of values(c)) {
    const k = prop(f)(v);
    if (k == null || k !== k) continue;
    if (key === undefined || compare(k, key) * sign > 0) { key = k; out = v; }
  }
  return out;
};
const uniqWith = (a, f) => values(a).reduce((out, x) => (out.some((y) => (f ? f(y, x) : y === x)) ? out : [...out, x]), []);
const _ = {
  isEqual, orderBy, uniqWith,
  sortBy: (c, ...its) => orderBy(c, its.length ? its.flat() : [(x) => x]),
  uniq: (a) => [...new Set(values(a))],
  uniqBy: (a, f) => { const s = new Set(); return values(a).filter((x) => { const k = prop(f)(x); return s.has(k) ? false : (s.add(k), true); }); },
  range: (a, b, s) => { if (b === undefined) { b = a; a = 0; } s = s === undefined ? (a <= b ? 1 : -1) : s; const out = []; const n = Math.max(Math.ceil((b - a) / (s || 1)), 0); for (let i = 0; i < n; i++) out.push(a + i * s); return out; },
  flatten: (a) => flattenDepth(a, 1), flattenDeep: (a) => flattenDepth(a, Infinity),
  flatMap: (c, f) => values(c).map(prop(f)).flat(1),
  map: (c, f) => (Array.isArray(c) ? c.map((x, i) => prop(f)(x, i)) : Object.entries(c ?? {}).map(([k, v]) => prop(f)(v, k))),
  filter: (c, f) => values(c).filter(prop(f)), reject: (c, f) => values(c).filter((x) => !prop(f)(x)),
  find: (c, f) => values(c).find(prop(f)), findIndex: (c, f) => values(c).findIndex(prop(f)),
  findLast: (c, f) => values(c).filter(prop(f)).at(-1), findLastIndex: (c, f) => { const v = values(c); for (let i = v.length - 1; i >= 0; i--) if (prop(f)(v[i])) return i; return -1; },
  forEach: (c, f) => { values(c).every((x, i) => f(x, i) !== false); return c; }, some: (c, f) => values(c).some(prop(f)), every: (c, f) => values(c).every(prop(f)),
  partition: (c, f) => [values(c).filter(prop(f)), values(c).filter((x) => !prop(f)(x))],
  groupBy: (c, f) => values(c).reduce((o, x) => { (o[prop(f)(x)] ??= []).push(x); return o; }, {}),
  keyBy: (c, f) => values(c).reduce((o, x) => { o[prop(f)(x)] = x; return o; }, {}),
  reduce: (c, f, ...i) => values(c).reduce(f, ...i),
  min: (a) => best(a, undefined, -1), max: (a) => best(a, undefined, 1), minBy: (a, f) => best(a, f, -1), maxBy: (a, f) => best(a, f, 1),
  sum: (a) => values(a).reduce((x, y) => x + y, 0), sumBy: (a, f) => values(a).reduce((x, y) => x + prop(f)(y), 0),
  first: (a) => values(a)[0], head: (a) => values(a)[0], last: (a) => values(a).at(-1), nth: (a, n = 0) => values(a).at(n),
  initial: (a) => values(a).slice(0, -1), tail: (a) => values(a).slice(1), take: (a, n = 1) => values(a).slice(0, n), drop: (a, n = 1) => values(a).slice(n), takeWhile: (a, f) => { const v = values(a); const i = v.findIndex((x) => !prop(f)(x)); return i < 0 ? v : v.slice(0, i); }, dropWhile: (a, f) => { const v = values(a); const i = v.findIndex((x) => !prop(f)(x)); return i < 0 ? [] : v.slice(i); },
  reverse: (a) => a.reverse(), compact: (a) => values(a).filter(Boolean), concat: (a, ...b) => values(a).concat(...b), slice: (a, ...b) => values(a).slice(...b),
  size: (c) => values(c).length, isEmpty: (c) => (c == null ? true : typeof c === "object" || typeof c === "string" ? (c instanceof Map || c instanceof Set ? c.size === 0 : Object.keys(c).length === 0) : true),
  includes: (c, x) => values(c).includes(x), clone: (x) => (Array.isArray(x) ? [...x] : x && typeof x === "object" ? Object.assign(Object.create(Object.getPrototypeOf(x)), x) : x), cloneDeep: (x) => structuredClone(x),
  zip: (...as) => Array.from({ length: Math.max(0, ...as.map((a) => a.length)) }, (_, i) => as.map((a) => a[i])), unzip: (as) => _.zip(...as),
  differenceWith: (a, b, f) => values(a).filter((x) => !values(b).some((y) => f(x, y))), intersectionWith: (a, b, f) => values(a).filter((x) => values(b).some((y) => f(x, y))), unionWith: (a, b, f) => uniqWith([...values(a), ...values(b)], f),
  difference: (a, b) => values(a).filter((x) => !values(b).includes(x)), intersection: (a, b) => values(a).filter((x) => values(b).includes(x)), union: (...as) => _.uniq(as.flat(1)),
  clamp: (x, a, b) => Math.min(Math.max(x, a), b), inRange: (x, a, b) => (b === undefined ? x >= 0 && x < a : x >= Math.min(a, b) && x < Math.max(a, b)), identity: (x) => x, noop: () => {}, times: (n, f) => Array.from({ length: n }, (_, i) => f(i)), isNil: (x) => x == null, isUndefined: (x) => x === undefined, get: (o, p, d) => prop(Array.isArray(p) ? p : String(p))(o) ?? d,
  sortedIndexBy: (a, x, f) => a.filter((y) => compare(prop(f)(y), prop(f)(x)) < 0).length, pick: (o, ...k) => Object.fromEntries(k.flat().filter((x) => x in o).map((x) => [x, o[x]])), omit: (o, ...k) => Object.fromEntries(Object.entries(o).filter(([x]) => !k.flat().includes(x))),
};
_.each = _.forEach;
module.exports = _;
module.exports.default = _;
