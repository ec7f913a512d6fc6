// bundles the sources of the web client with stand-ins for the libraries they use:
// node client-build.mjs ENTRY OUT CLIENT-SOURCES
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
const esbuild = createRequire(import.meta.url)('/opt/veriftools/node/node_modules/esbuild');
const [entry, outfile, src] = process.argv.slice(2);
const shim = path.resolve(path.dirname(new URL(import.meta.url).pathname), '../shim/client');

const find = (p) => {
  const c = [p, p.replace(/\.js$/, '.ts'), p + '.ts', p + '.vue', p + '.js', p + '/index.ts'];
  return c.find((x) => fs.existsSync(x) && fs.statSync(x).isFile());
};
const standins = {
  name: 'standins',
  setup(b) {
    b.onResolve({ filter: /\.css$|^material-design|\/styles$/ }, () => ({ path: 'nothing', namespace: 'nothing' }));
    b.onLoad({ filter: /.*/, namespace: 'nothing' }, () => ({ contents: 'export default {}' }));
    b.onResolve({ filter: /^@\// }, (a) => ({ path: find(path.join(src, a.path.slice(2))) ?? path.join(src, a.path.slice(2)) }));
    b.onResolve({ filter: /^\./ }, (a) => {
      const f = find(path.resolve(a.resolveDir, a.path));
      return f ? { path: f } : undefined;
    });
    b.onResolve({ filter: /^(vue|vuex)$/ }, (a) => ({ path: path.join(shim, a.path + '.mjs') }));
    b.onResolve({ filter: /^[^./@]|^@[^/]/ }, (a) =>
      a.kind === 'entry-point' || a.path.startsWith('node:') || path.isAbsolute(a.path) ? undefined : { path: path.join(shim, 'stubs.mjs') });
    b.onLoad({ filter: /\.vue$/ }, (a) => {
      const text = fs.readFileSync(a.path, 'utf8');
      const parts = [...text.matchAll(/<script\b([^>]*)>([\s\S]*?)<\/script>/g)].filter((m) => !/\bsetup\b/.test(m[1]));
      return { contents: parts.map((m) => m[2]).join('\n') || 'export default {}', loader: 'ts', resolveDir: path.dirname(a.path) };
    });
  }
};
await esbuild.build({
  entryPoints: [entry],
  outfile,
  bundle: true,
  platform: 'node',
  format: 'esm',
  logLevel: 'error',
  define: { 'import.meta.env': '{"DEV":false}', 'import.meta.hot': 'undefined' },
  tsconfigRaw: { compilerOptions: { useDefineForClassFields: true, target: 'esnext' } },
  plugins: [standins]
});
