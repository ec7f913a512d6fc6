// asks the web client: reads commands from stdin, answers line by line
import fs from 'node:fs';
import { createGlobalStore } from '@/stores/stores';
import Station from '@/components/sidebar/station/station.vue';
import Search from '@/components/sidebar/search/extended-search.vue';
import Ordering from '@/components/ordering/ordering-graph.vue';
import InfrastructureMap from '@/components/infrastructure/infrastructure-map.vue';
import { customDarkTheme, customLightTheme } from '@/style';
import { mountComponent, reset, settle } from 'vue';
import { drawings, maps } from 'sigma';

process.on('unhandledRejection', () => {});
process.on('uncaughtException', (e) => { console.error(e); process.exit(3); });
for (const k of ['log', 'error', 'warn', 'info', 'debug']) console[k] = () => {};

// ---------------------------------------------------------------- the browser
let kept;                     // what the browser keeps
let os;                       // the theme of the system
let listeners;
const storage = {
  getItem: (k) => (kept.has(k) ? kept.get(k) : null),
  setItem: (k, v) => kept.set(k, String(v)),
  removeItem: (k) => kept.delete(k),
  clear: () => kept.clear()
};
globalThis.window = {
  origin: '',
  localStorage: storage,
  location: { origin: '' },
  addEventListener() {},
  matchMedia: (q) => ({
    get matches() { return /dark/.test(q) === (os === 'dark'); },
    addEventListener: (e, h) => { if (e === 'change') listeners.push([q, h]); },
    removeEventListener: (e, h) => { listeners = listeners.filter((x) => x[1] !== h); }
  })
};
globalThis.localStorage = storage;
globalThis.document = { createElement: () => ({ style: {} }) };

// ---------------------------------------------------------------- the server
const RANK = { A: 1, B: 2 };
const TTS = { A: ['T1', 'T2'], B: ['T2', 'T3'] };
let open;                     // questions without an answer
globalThis.fetch = (url, options) =>
  new Promise((resolve, reject) => {
    open.push({ url: String(url), method: options?.method ?? 'GET', resolve, reject });
  });
const route = (i, id) => {
  const x = 1000 * RANK[i] + Number(id);
  return { id: Number(id), path: [{ lon: x, lat: x + 1 }, { lon: x + 2, lat: x + 3 }] };
};
function body(url) {
  let m;
  if (url === '/infrastructures') return { infrastructures: ['A', 'B'] };
  if (!(m = url.match(/^\/infrastructure\/([AB])\/(.*)$/))) return undefined;
  const i = m[1];
  const rest = m[2];
  if (rest === 'timetables') return { timetables: TTS[i] };
  if (rest === 'bounding_box') return { boundingBox: [[RANK[i], 2], [3, 4]] };
  if ((m = rest.match(/^timetable\/(T[123])$/)) && TTS[i].includes(m[1]))
    return { timetable: { source: m[1], interval: { start: 100 * RANK[i] + 10 * Number(m[1][1]), end: 100 * RANK[i] + 10 * Number(m[1][1]) + 5 } } };
  if ((m = rest.match(/^(station|interlocking)_route\/(\d+)$/))) return route(i, m[2]);
  if ((m = rest.match(/^station\/(\d+)$/)))
    return { id: Number(m[1]), ds100: i + m[1], stationRoutes: [{ id: 10 * Number(m[1]), name: 'r' }], interlockingRouteIds: [10 * Number(m[1]) + RANK[i]] };
  if ((m = rest.match(/^search\/(.*)$/)))
    return [1, 2].map((n) => ({ type: 'station', id: n, name: m[1] + '@' + i + n, boundingBox: [i, n], elementType: '' }));
  if ((m = rest.match(/^timetable\/(T[123])\/ordering\?(.*)$/)))
    return {
      attributes: { totalTrains: 1, maxOffset: 1 },
      nodes: [{ key: 0, attributes: { train: 0, route: 7, offset: 0, relativeTrainId: 0, label: '' , name: i + '/' + rest } },
              { key: 1, attributes: { train: 0, route: 8, offset: 1, relativeTrainId: 0, name: i + '/' + rest } }],
      edges: [{ key: 0, source: 0, target: 1 }]
    };
  return undefined;
}
function give(q, ok) {
  if (ok === 'lost') return q.reject(new TypeError('failed to fetch'));
  const b = ok ? body(q.url) : undefined;
  const text = b === undefined ? '' : JSON.stringify(b);
  const answer = {
    ok: b !== undefined, status: b === undefined ? 404 : 200, statusText: b === undefined ? 'Not Found' : 'OK',
    json: async () => JSON.parse(text), text: async () => text, clone() { return answer; }
  };
  q.resolve(answer);
}

// ---------------------------------------------------------------- what is seen
let store, parts;
const ids = (fs) =>
  [...new Set(fs.map((f) => {
    const [a, b] = f.geometry?.coordinates ?? [];
    const x = a?.[0];
    return f.type === 'Feature' && f.geometry?.type === 'LineString' && a[1] === x + 1 && b[0] === x + 2 && b[1] === x + 3 && x % 1000 === f.properties.id ? x : -1;
  }))].sort((a, b) => a - b);
function seen() {
  const s = store.state.sidebar;
  const d = drawings[drawings.length - 1];
  let drawn = '';
  if (d && d.graph.order > 0) {
    const names = new Set(d.graph.nodes().map((n) => d.graph.getNodeAttributes(n).name));
    drawn = names.size === 1 && d.graph.order === 2 ? [...names][0] : 'mixed';
  }
  return {
    infras: s.infrastructures ?? [],
    infra: s.currentInfrastructure ?? '',
    tts: s.timetables ?? [],
    tt: s.currentTimetable ?? '',
    range: s.currentDateRange ?? [],
    filter: s.trainIdsFilter ?? [],
    station_routes: ids(s.highlightedStationRoutes),
    interlocking_routes: ids(s.highlightedInterlockingRoutes),
    results: (s.currentSearchResults ?? []).map((r) => r.name),
    station: [String(parts.station.ds100), ...(parts.station.stationRoutes ?? []).map((r) => 's' + r.id), ...(parts.station.interlockingRouteIds ?? []).map((r) => 'i' + r)],
    drawn,
    asked: open.map((q) => q.method + ' ' + q.url)
  };
}

// ---------------------------------------------------------------- commands
const themeOf = (t) => (t === 'light' ? customLightTheme : customDarkTheme);
function begin() {
  reset();
  drawings.length = 0;
  maps.length = 0;
  listeners = [];
  open = [];
  store = createGlobalStore();
  globalThis.currentStore = store;
  const themes = { value: { light: structuredClone(customLightTheme), dark: structuredClone(customDarkTheme) } };
  const name = { value: 'light' };
  const global = { name, get current() { return { value: themes.value[name.value] }; } };
  store.$vuetify = { theme: { global, themes, get current() { return themes.value[name.value]; } } };
  globalThis.currentTheme = { global };
  parts = {};
}
const sidebar = (a, x) => store.dispatch('sidebar/' + a, x);
const quiet = (p) => { p?.catch?.(() => {}); };
const ops = {
  new() { kept = new Map(); os = 'light'; begin(); return undefined; },
  start() {
    begin();
    parts.station = mountComponent(Station, store);
    parts.search = mountComponent(Search, store);
    parts.ordering = mountComponent(Ordering, store);
    quiet(sidebar('initialLoad'));
  },
  infra(c) { quiet(sidebar('loadInfrastructure', c.x || undefined)); },
  tt(c) { quiet(sidebar('loadTimetable', c.x || undefined)); },
  range(c) { quiet(sidebar('setCurrentDateRange', [c.a, c.b])); },
  filter(c) { quiet(sidebar('setTrainIdsFilter', c.ids)); },
  choose(c) { quiet(sidebar((c.on ? 'add' : 'delete') + 'Highlighted' + (c.kind === 's' ? 'StationRoute' : 'InterlockingRoute'), c.id)); },
  query(c) { parts.search.currentQuery = c.text; },
  station(c) { store.commit('sidebar/setCurrentStation', c.id); },
  answer(c) {
    const qs = mode === 'map' ? asked() : open;
    if (c.k > qs.length) return;
    const [q] = open.splice(open.indexOf(qs[c.k - 1]), 1);
    give(q, c.how === 'ok' ? true : c.how === 'lost' ? 'lost' : false);
  }
};

// ---------------------------------------------------------------- what is kept between visits (P47)
const look = () => {
  const t = store.$vuetify.theme;
  return {
    preference: store.state.settings.darkLightModePreference, theme: store.state.settings.theme, shown: t.global.name.value,
    colour: t.global.current.value.colors.primary,
    said: store.state.settings.primaryColor ?? ''
  };
};
const layers = ['bumper', 'border', 'track_end', 'simple_switch', 'as', 'ms', 'ps', 'eotd', 'spl', 'tunnel', 'hlt', 'rtcp', 'km_jump', 'line_switch', 'slope', 'cross', 'ctc', 'station'];
const layout = { shown: '' };
const feature = (x, id) => {
  const r = route(x, id);
  return { type: 'Feature', properties: { id: r.id }, geometry: { type: 'LineString', coordinates: r.path.map((p) => [p.lon, p.lat]) } };
};
Object.assign(ops, {
  visit() {
    begin();
    layout.shown = '';
    store.commit('goldenLayout/setRootComponent', {
      loadGLLayout: async (x) => { layout.shown = x.name; },
      getLayoutConfig: () => (layout.shown ? { name: layout.shown } : undefined),
      addGLComponent: async (n) => { layout.shown += '+' + n; }
    });
    quiet(store.dispatch('settings/loadSettings'));
    quiet(store.dispatch('goldenLayout/initGoldenLayout', { name: 'first' }));
  },
  prefer(c) { quiet(store.dispatch('settings/setDarkLightModePreference', c.x)); },
  colour(c) { quiet(store.dispatch('settings/setPrimaryColor', c.x)); },
  system(c) {
    if (os === c.x) return;
    os = c.x;
    for (const [q, h] of [...listeners]) h({ matches: /dark/.test(q) === (os === 'dark'), media: q });
  },
  tab(c) { quiet(store.dispatch('goldenLayout/addGoldenLayoutTab', { componentTechnicalName: c.x })); },
  keep() { quiet(store.dispatch('goldenLayout/saveSettings')); },
  page() { begin(); },
  open(c) {
    parts['m' + c.w]?.$unmount();
    parts['m' + c.w] = mountComponent(InfrastructureMap, store, { injected: { goldenLayoutKeyInjection: 'glc_' + c.w }, globals: { $vuetify: store.$vuetify } });
  },
  select(c) { quiet(sidebar('loadInfrastructure', c.x || undefined)); },
  load(c) {
    const l = parts['m' + c.w]?.libreGLMap;
    if (!l || l.loaded) return;
    l.loaded = true;
    l.handlers.load?.();
  },
  check(c) { parts['m' + c.w]?.onLegendControlChanged(c.x, c.on); },
  reset(c) { parts['m' + c.w]?.resetLegend(); },
  dark(c) { quiet(store.dispatch('settings/setDarkLightModePreference', c.x)); },
  show(c) {
    const s = c.kind === 's' ? 'StationRoute' : 'InterlockingRoute';
    if (c.on) store.commit('sidebar/addHighlighted' + s, feature(store.state.sidebar.currentInfrastructure, c.id));
    else store.commit('sidebar/deleteHighlighted' + s, c.id);
  },
  go(c) { store.commit('sidebar/setCurrentBoundingBox', [[c.n, 2], [3, 4]]); },
  click(c) {
    const l = parts['m' + c.w]?.libreGLMap;
    if (!l) return;
    l.under = c.layer ? [{ sourceLayer: c.layer, layer: { id: c.layer + '-layer' }, properties: { id: c.id } }] : [];
    l.handlers.click?.({ target: l, point: { x: 1, y: 1 } });
  }
});
const shownOn = (m) => {
  const l = m.libreGLMap;
  const passes = (f, rising) => {
    if (!Array.isArray(f)) return f;
    const [o, ...a] = f;
    const v = (n) => passes(a[n], rising);
    switch (o) {
      case 'get': return a[0] === 'rising' ? rising : undefined;
      case 'has': return a[0] === 'rising';
      case '!': return !v(0);
      case '==': return a[0] === 'rising' ? rising === v(1) : v(0) === v(1);
      case '!=': return a[0] === 'rising' ? rising !== v(1) : v(0) !== v(1);
      case 'all': return a.every((x) => passes(x, rising));
      case 'any': return a.some((x) => passes(x, rising));
      case 'none': return !a.some((x) => passes(x, rising));
      case 'boolean': return a.map((x) => passes(x, rising)).find((x) => typeof x === 'boolean') ?? false;
      case 'to-boolean': return !!v(0);
      case 'literal': return a[0];
      case 'case': return v(0) ? v(1) : v(2);
      default: return undefined;
    }
  };
  const state = (x, p) => {
    if (l.layout[p + x + '-layer'] !== 'visible') return '';
    const f = l.filters[p + x + '-layer'] ?? true;
    return (passes(f, true) ? 'r' : '') + (passes(f, false) ? 'f' : '');
  };
  return {
    infra: l ? (String(l.o.transformRequest('/10/1/1.mvt', 'Tile').url).match(/^\/infrastructure\/(.*)\/10\/1\/1\.mvt$/)?.[1] ?? '?') : '',
    checked: [...new Set(m.checkedControls)].sort(),
    layers: l ? layers.map((x) => (x === 'station' || state(x, '') === state(x, 'circle-') ? x + '=' + state(x, '') : x + '=mixed')).filter((x) => !x.endsWith('=')).sort() : [],
    s: l ? ids(l.sources['station-routes']?._data?.features ?? []) : [],
    i: l ? ids(l.sources['interlocking-routes']?._data?.features ?? []) : [],
    at: l?.fitted.length ? l.fitted[l.fitted.length - 1][0][0] : 0
  };
};
const pageSeen = () => ({
  maps: [0, 1].map((w) => (parts['m' + w] ? shownOn(parts['m' + w]) : { infra: '', checked: [], layers: [], s: [], i: [], at: 0 })),
  station: store.state.sidebar.currentStation ?? 0,
  s: ids(store.state.sidebar.highlightedStationRoutes),
  i: ids(store.state.sidebar.highlightedInterlockingRoutes),
  overlay: store.state.showOverlay ? store.state.selectedOverlay : '',
  asked: asked().map((q) => q.method + ' ' + q.url)
});
const asked = () => open.filter((q) => q.url.endsWith('bounding_box'));

let mode = '';
const lines = fs.readFileSync(0, 'utf8').split('\n').filter((x) => x);
for (const line of lines) {
  const c = JSON.parse(line);
  let r;
  try {
    mode = { new: '', start: 'selection', visit: 'settings', page: 'map' }[c.op] ?? mode;
    ops[c.op](c);
    await settle();
    if (c.op === 'new') r = ['ok'];
    else if (mode === 'map') r = ['ok', pageSeen()];
    else if (mode === 'settings') r = ['ok', { ...look(), layout: layout.shown }];
    else r = ['ok', seen()];
  } catch (e) {
    process.stderr.write(String(e?.stack) + '\n');
    r = ['exc'];
  }
  fs.writeSync(1, '@' + JSON.stringify(r) + '\n');
}
process.exit(0);
