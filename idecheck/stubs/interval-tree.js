// The interface of @flatten-js/interval-tree (not installed here): closed intervals, results in the order of their intervals.
class Interval {
  constructor(low, high) { this.low = low; this.high = high; }
  less_than(o) { return this.low < o.low || (this.low === o.low && this.high < o.high); }
  equal_to(o) { return this.low === o.low && this.high === o.high; }
  intersect(o) { return !this.not_intersect(o); }
  not_intersect(o) { return this.high < o.low || o.high < this.low; }
  output() { return [this.low, this.high]; }
  clone() { return new Interval(this.low, this.high); }
  get max() { return this.clone(); }
}
const iv = (k) => (k instanceof Interval ? k : new Interval(k[0] <= k[1] ? k[0] : k[1], k[0] <= k[1] ? k[1] : k[0]));
class IntervalTree {
  constructor() { this.nodes = []; }
  insert(key, value = key) {
    const k = iv(key);
    let i = this.nodes.length;
    while (i > 0 && k.less_than(this.nodes[i - 1].key)) i--;
    this.nodes.splice(i, 0, { key: k, value });
    return this.nodes[i];
  }
  remove(key, value = key) {
    const i = this.nodes.findIndex((n) => n.key.equal_to(iv(key)) && n.value === value);
    if (i >= 0) return this.nodes.splice(i, 1)[0];
  }
  exist(key, value = key) { return this.nodes.some((n) => n.key.equal_to(iv(key)) && n.value === value); }
  search(key, f = (value, k) => (value === k ? k.output() : value)) { return this.nodes.filter((n) => n.key.intersect(iv(key))).map((n) => f(n.value, n.key)); }
  intersect_any(key) { return this.nodes.some((n) => n.key.intersect(iv(key))); }
  forEach(f) { this.nodes.forEach((n) => f(n.key, n.value)); }
  map(f) { const t = new IntervalTree(); this.forEach((k, v) => t.insert(k, f(v, k))); return t; }
  clear() { this.nodes = []; }
  isEmpty() { return this.nodes.length === 0; }
  get size() { return this.nodes.length; }
  get keys() { return this.nodes.map((n) => n.key.output()); }
  get values() { return this.nodes.map((n) => n.value); }
  get items() { return this.nodes.map((n) => ({ key: n.key.output(), value: n.value })); }
}
module.exports = IntervalTree;
module.exports.default = IntervalTree;
module.exports.Interval = Interval;
module.exports.__esModule = true;
