// what is shown on the page is only recorded
export const drawings = [];
export class Sigma {
  constructor(graph) { this.graph = graph; this.handlers = {}; drawings.push(this); }
  on(e, h) { this.handlers[e] = h; return this; }
  refresh() {}
  kill() { const i = drawings.indexOf(this); if (i >= 0) drawings.splice(i, 1); }
  clear() {}
  setGraph(g) { this.graph = g; }
}
export class DirectedGraph {
  constructor() { this.clear(); }
  clear() { this._n = new Map(); this._e = new Map(); this._a = {}; }
  import(og) {
    for (const n of og.nodes ?? []) {
      if (this._n.has(String(n.key))) throw new Error('node twice');
      this._n.set(String(n.key), { ...n.attributes });
    }
    for (const e of og.edges ?? []) this._e.set(String(e.key), { ...e });
    Object.assign(this._a, og.attributes ?? {});
    return this;
  }
  getAttribute(k) { return this._a[k]; }
  getAttributes() { return this._a; }
  forEachNode(f) { this._n.forEach((a, n) => f(n, a)); }
  forEachEdge(f) { this._e.forEach((a, n) => f(n, a)); }
  nodes() { return [...this._n.keys()]; }
  getNodeAttributes(n) { return this._n.get(String(n)); }
  getNodeAttribute(n, k) { return this._n.get(String(n))?.[k]; }
  setNodeAttribute(n, k, v) { this._n.get(String(n))[k] = v; }
  get order() { return this._n.size; }
  get size() { return this._e.size; }
}
export const maps = [];
export class Map_ {
  constructor(o) {
    this.o = o;
    this.handlers = {};
    this.layout = {};
    this.filters = {};
    this.images = new Set();
    this.fitted = [];
    this.dragPan = { enable() {} };
    this.setStyle(o?.style);
    maps.push(this);
  }
  on(e, h) { this.handlers[e] = h; return this; }
  getSource(k) { return this.sources[k]; }
  remove() { this.removed = true; }
  fitBounds(b) { this.fitted.push(b); }
  setStyle(style) {                      // what was set before is gone
    this.sources = {};
    this.layout = {};
    this.filters = {};
    for (const [k, s] of Object.entries(style?.sources ?? {})) {
      if (s.type === 'geojson') {
        this.sources[k] = { _data: structuredClone(s.data), setData(d) { this._data = structuredClone(d); } };
      }
    }
    for (const l of style?.layers ?? []) {
      this.layout[l.id] = l.layout?.visibility ?? 'visible';
      if (l.filter) this.filters[l.id] = l.filter;
    }
  }
  setLayoutProperty(l, p, v) { if (p === 'visibility') this.layout[l] = v; }
  setFilter(l, f) { if (f === undefined || f === null) delete this.filters[l]; else this.filters[l] = f; }
  loadImage(u, f) { f(null, { u }); }
  hasImage(n) { return this.images.has(n); }
  addImage(n) { this.images.add(n); }
  queryRenderedFeatures() { return this.under ?? []; }
}
export { Map_ as Map };
export class LngLatBounds {}
export const createNodeCompoundProgram = () => class {};
export const useTheme = () => globalThis.currentTheme;
export const createVuetify = (o) => o;
export const aliases = {};
export const md = {};
export const LayoutConfig = { isResolved: (x) => !!x?.resolved, fromResolved: (x) => x };
export class VirtualLayout {}
export default new Proxy(function () {}, { get: (t, k) => (k === 'then' ? undefined : t), apply: (t) => t, construct: (t) => t });
