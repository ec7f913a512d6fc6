// a small part of vue: components given by their options, brought to life without a page
export const defineComponent = (x) => (typeof x === 'function' ? { setup: x } : x);
export const defineAsyncComponent = (x) => x;
export const ref = (value) => ({ value });
export const shallowRef = ref;
export const reactive = (x) => x;
export const readonly = (x) => x;
export const markRaw = (x) => x;
export const toRaw = (x) => x;
export const computed = (f) => ({ get value() { return f(); } });
export const nextTick = () => Promise.resolve();
export const onMounted = () => {};
export const getCurrentInstance = () => undefined;
export const inject = (k, d) => d;

const live = new Set();
const copy = (x) => (x === undefined ? undefined : JSON.stringify(x));

export function mountComponent(options, store, { props = {}, injected = {}, globals = {} } = {}) {
  const it = { $store: store, $refs: { map: {}, graph: {}, container: {} }, $emitted: [], ...globals };
  it.$emit = (...e) => it.$emitted.push(e);
  it.$nextTick = nextTick;
  for (const [k, p] of Object.entries(Array.isArray(options.props) ? {} : options.props ?? {})) {
    const d = p?.default;
    it[k] = k in props ? props[k] : typeof d === 'function' && p.type !== Function ? d() : d;
  }
  for (const [k, d] of Object.entries(Array.isArray(options.inject) ? {} : options.inject ?? {})) {
    it[k] = k in injected ? injected[k] : d?.default;
  }
  for (const [k, f] of Object.entries(options.methods ?? {})) it[k] = f.bind(it);
  for (const [k, c] of Object.entries(options.computed ?? {})) {
    const get = typeof c === 'function' ? c : c.get;
    Object.defineProperty(it, k, { get: () => get.call(it, it), set: (v) => c.set?.call(it, v), enumerable: true });
  }
  Object.assign(it, options.setup?.(it, { emit: it.$emit, expose() {} }) ?? {});
  Object.assign(it, options.data?.call(it, it) ?? {});
  const watched = Object.entries(options.watch ?? {}).flatMap(([k, ws]) =>
    [ws].flat().map((w) => {
      const o = typeof w === 'object' ? w : { handler: w };
      const h = typeof o.handler === 'string' ? it[o.handler] : o.handler;
      const get = () => k.split('.').reduce((x, y) => x?.[y], it);
      return { get, deep: o.deep, h, old: get(), text: o.deep ? copy(get()) : undefined, first: o.immediate };
    })
  );
  const call = (f, ...a) => {
    try {
      const r = f?.call(it, ...a);
      if (r?.catch) r.catch(() => {});
    } catch (e) { /* said on the console */ }
  };
  call(options.created);
  for (const w of watched) if (w.first) call(w.h, w.old, undefined);
  call(options.mounted);
  it.$look = () => {
    let any = false;
    for (const w of watched) {
      const now = w.get();
      const text = w.deep ? copy(now) : undefined;
      if (!Object.is(now, w.old) || (w.deep && text !== w.text)) {
        const old = w.old;
        w.old = now;
        w.text = text;
        any = true;
        call(w.h, now, old);
      }
    }
    return any;
  };
  it.$unmount = () => { live.delete(it); call(options.beforeUnmount); call(options.unmounted); };
  live.add(it);
  return it;
}
export const reset = () => live.clear();
export async function settle() {
  for (let n = 0; n < 50; n++) {
    await new Promise((r) => setImmediate(r));
    let any = false;
    for (const it of [...live]) any = it.$look() || any;
    if (!any) break;
  }
  await new Promise((r) => setImmediate(r));
}
