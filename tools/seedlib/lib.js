// instrument(jobs): run the driver; cov(code): evaluate instrumented code in a fresh context and return the
// coverage data (and the context).
const { execFileSync } = require('child_process');
const vm = require('vm');
const assert = require('assert');
function instrument(jobs) {
  const out = execFileSync(process.argv[2], { input: JSON.stringify(jobs), maxBuffer: 1 << 28 });
  return JSON.parse(out.toString()).map((o, i) => {
    if (typeof o !== 'string') throw new Error('instrumenting panicked: ' + JSON.stringify(o));
    return o;
  });
}
function run(code, globals) {
  const ctx = vm.createContext(Object.assign({}, globals || {}));
  const value = vm.runInContext(code, ctx);
  const all = JSON.parse(JSON.stringify(ctx.__coverage__ || {}));
  return { ctx, value, all, cov: Object.values(all)[0] };
}
const text = (src, loc) => {
  const lines = src.split('\n');
  if (loc.start.line === loc.end.line) return lines[loc.start.line - 1].slice(loc.start.column, loc.end.column);
  return [lines[loc.start.line - 1].slice(loc.start.column), ...lines.slice(loc.start.line, loc.end.line - 1), lines[loc.end.line - 1].slice(0, loc.end.column)].join('\n');
};
module.exports = { instrument, run, text, assert };
