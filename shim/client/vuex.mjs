// a small store with modules: what the client uses of vuex
class Store {
  constructor(options) {
    this.state = typeof options.state === 'function' ? options.state() : options.state ?? {};
    this._mutations = {};
    this._actions = {};
    this._take('', options, this.state);
    for (const [name, m] of Object.entries(options.modules ?? {})) {
      this.registerModule(name, m);
    }
    this.getters = {};
    this.commit = this.commit.bind(this);
    this.dispatch = this.dispatch.bind(this);
  }
  _take(prefix, m, state) {
    const context = {
      state,
      rootState: this.state,
      getters: {},
      rootGetters: {},
      commit: (t, p, o) => this.commit(o?.root ? t : prefix + t, p),
      dispatch: (t, p, o) => this.dispatch(o?.root ? t : prefix + t, p)
    };
    for (const [k, f] of Object.entries(m.mutations ?? {})) {
      this._mutations[prefix + k] = (p) => f.call(this, state, p);
    }
    for (const [k, f] of Object.entries(m.actions ?? {})) {
      const handler = typeof f === 'function' ? f : f.handler;
      this._actions[prefix + k] = (p) => handler.call(this, context, p);
    }
  }
  registerModule(name, m) {
    this.state[name] = typeof m.state === 'function' ? m.state() : m.state ?? {};
    this._take(m.namespaced ? name + '/' : '', m, this.state[name]);
  }
  commit(type, payload) {
    if (!this._mutations[type]) throw new Error('unknown mutation ' + type);
    this._mutations[type](payload);
  }
  dispatch(type, payload) {
    if (!this._actions[type]) throw new Error('unknown action ' + type);
    try {
      return Promise.resolve(this._actions[type](payload));
    } catch (e) {
      return Promise.reject(e);
    }
  }
}
export { Store };
export const createStore = (options) => new Store(options);
export const useStore = () => globalThis.currentStore;

const split = (a, b) => (typeof a === 'string' ? [a, b] : [undefined, a]);
const entries = (m) => (Array.isArray(m) ? m.map((x) => [x, x]) : Object.entries(m));
const mapper = (make) => (a, b) => {
  const [ns, m] = split(a, b);
  return Object.fromEntries(entries(m).map(([k, v]) => [k, make(ns, v)]));
};
export const mapState = mapper((ns, v) => function () {
  const s = ns ? this.$store.state[ns] : this.$store.state;
  return typeof v === 'function' ? v.call(this, s, {}) : s[v];
});
export const mapGetters = mapper(() => function () {});
export const mapMutations = mapper((ns, v) => function (p) {
  return this.$store.commit((ns ? ns + '/' : '') + v, p);
});
export const mapActions = mapper((ns, v) => function (p) {
  return this.$store.dispatch((ns ? ns + '/' : '') + v, p);
});
