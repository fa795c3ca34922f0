// Reads one JSON request per line, answers one JSON line.
// compare: {a, b}: are both valid modules, and do they parse to the same program?
//   imports: optional list; the specifiers of b's static imports are put there.
// run: {src}: evaluates a module without imports and returns its exports.
const vm = require('vm');
const acorn = require('/opt/veriftools/node/node_modules/acorn');

function valid(src) {
  try {
    new vm.SourceTextModule(src, { identifier: 'm.js' });
    return null;
  } catch (e) {
    return String(e && e.message);
  }
}

// The tree without positions, raw texts and the like.  Values of strings,
// numbers and templates and the texts of regular expressions stay.
const DROP = new Set(['start', 'end', 'loc', 'range', 'raw', 'directive']);

function tree(src, imports) {
  const ast = acorn.parse(src, { ecmaVersion: 'latest', sourceType: 'module', allowHashBang: true });
  const out = [];
  const walk = (k, v) => {
    if (Array.isArray(v)) {
      out.push([k, '[']);
      for (const x of v) walk('', x);
      out.push([']']);
    } else if (v instanceof RegExp) {
      // its text is in the node's "regex"
    } else if (typeof v === 'bigint') {
      out.push([k, 'bigint', String(v)]);
    } else if (v && typeof v === 'object') {
      if (v.type === 'TemplateElement') {
        out.push([k, 'quasi', v.value.raw, v.value.cooked === undefined ? null : v.value.cooked]);
        return;
      }
      out.push([k, '{']);
      for (const kk of Object.keys(v)) {
        if (DROP.has(kk)) continue;
        if (v.type === 'Literal' && v.regex && kk === 'value') continue;
        if (v.type === 'Literal' && v.bigint && kk === 'value') continue;
        if (imports && v.type === 'ImportDeclaration' && kk === 'source') {
          imports.push(v.source.value);
          continue;
        }
        walk(kk, v[kk]);
      }
      out.push(['}']);
    } else {
      out.push([k, typeof v, v === undefined ? null : typeof v === 'number' ? String(v) : v]);
    }
  };
  walk('', ast);
  return out;
}

function plain(v) {
  if (v === undefined) return { t: 'undefined' };
  if (v === null) return null;
  if (typeof v === 'number') return { t: 'number', v: Object.is(v, -0) ? '-0' : String(v) };
  if (typeof v === 'bigint') return { t: 'bigint', v: String(v) };
  if (typeof v === 'string') return v;
  if (typeof v === 'boolean') return v;
  if (Array.isArray(v)) return v.map(plain);
  if (typeof v === 'object') {
    return { t: 'object', v: Object.keys(v).map((k) => [k, plain(v[k])]) };
  }
  return { t: typeof v };
}

async function answer(q) {
  if (q.op === 'compare') {
    const va = valid(q.a);
    if (va !== null) return { invalidSource: va };
    const vb = valid(q.b);
    if (vb !== null) return { invalidOutput: vb };
    const ia = q.imports ? [] : null;
    const ib = q.imports ? [] : null;
    let a;
    let b;
    try {
      a = tree(q.a, ia);
    } catch (e) {
      return { invalidSource: 'acorn: ' + e.message };
    }
    try {
      b = tree(q.b, ib);
    } catch (e) {
      return { invalidOutput: 'acorn: ' + e.message };
    }
    let diff = null;
    for (let i = 0; i < Math.max(a.length, b.length); i++) {
      const x = JSON.stringify(a[i] === undefined ? null : a[i]);
      const y = JSON.stringify(b[i] === undefined ? null : b[i]);
      if (x !== y) {
        diff = `node ${i}: source ${x} output ${y}`;
        break;
      }
    }
    return { diff, nodes: a.filter((x) => x[1] === '{').length, importsA: ia, importsB: ib };
  }
  if (q.op === 'valid') return { err: valid(q.src) };
  if (q.op === 'run') {
    const files = q.files || {};
    const ctx = vm.createContext({});
    const cache = new Map();
    const get = (name, src) => {
      if (!cache.has(name)) cache.set(name, new vm.SourceTextModule(src, { identifier: name, context: ctx }));
      return cache.get(name);
    };
    try {
      const m = get('main', q.src);
      await m.link((spec) => {
        if (!(spec in files)) throw new Error('unresolved ' + spec);
        return get(spec, files[spec]);
      });
      await m.evaluate({ timeout: 2000 });
      const ns = m.namespace;
      return { exports: Object.keys(ns).map((k) => [k, plain(ns[k])]) };
    } catch (e) {
      return { err: String(e && e.message) };
    }
  }
  return { err: 'bad request' };
}

const rl = require('readline').createInterface({ input: process.stdin });
let chain = Promise.resolve();
rl.on('line', (line) => {
  chain = chain.then(async () => {
    let r;
    try {
      r = await answer(JSON.parse(line));
    } catch (e) {
      r = { oracleError: String(e && e.stack) };
    }
    process.stdout.write(JSON.stringify(r).replace(/[\u007f-\uffff]/g, (c) => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0')) + '\n');
  });
});
