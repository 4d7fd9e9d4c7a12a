// One JSON request per line: {kind, options?, requests: [[base, request], ...]} -> [[ok, path|null], ...]
'use strict';
const { createRequire } = require('module');
const path = require('path');
const fs = require('fs');
let ER = null;
function er() {
  if (!ER) ER = require('/opt/veriftools/node/node_modules/enhanced-resolve');
  return ER;
}
function node(m) {
  return m.requests.map(([base, req]) => {
    try {
      return [true, createRequire(path.join(base, '__from__.js')).resolve(req)];
    } catch (e) {
      return [false, `${e.code} ${String(e.message).slice(0, 4000).toWellFormed()}`];
    }
  });
}
function enhanced(m) {
  const o = m.options;
  const r = er().ResolverFactory.createResolver({
    fileSystem: fs,
    useSyncFileSystemCalls: true,
    unsafeCache: false,
    extensions: o.ext,
    enforceExtension: o.enforce === null ? undefined : o.enforce,
    alias: o.alias.map(([name, t]) => ({ name, alias: t === null ? false : t })),
    aliasFields: o.browser ? ['browser'] : [],
    preferRelative: o.prefer_relative,
    symlinks: o.symlinks,
    descriptionFiles: o.desc === null ? [] : [o.desc],
    mainFiles: o.main_files,
    mainFields: o.main_fields,
    conditionNames: o.conds,
    exportsFields: ['exports'],
    importsFields: ['imports'],
    modules: ['node_modules'],
  });
  return m.requests.map(([base, req]) => {
    try {
      const x = r.resolveSync({}, base, req);
      return [true, x === false ? null : x];
    } catch (e) {
      return [false, String(e.message).slice(0, 4000).toWellFormed()];
    }
  });
}
let buf = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', (d) => {
  buf += d;
  let i;
  while ((i = buf.indexOf('\n')) >= 0) {
    const line = buf.slice(0, i);
    buf = buf.slice(i + 1);
    const m = JSON.parse(line);
    const out = m.kind === 'node' ? node(m) : enhanced(m);
    fs.writeSync(1, JSON.stringify(out) + '\n');
  }
});
process.stdin.on('end', () => process.exit(0));
