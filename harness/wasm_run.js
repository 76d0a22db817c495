// node wasm_run.js MODULE FILE SHARD SHARDS TIER [SUITE ORDINAL]: runs the comparison cases compiled to WebAssembly.
const fs = require('fs');
const [,, mod, file, shard, shards, tier, suite, ordinal] = process.argv;
const m = new WebAssembly.Module(fs.readFileSync(mod));
const imports = {};
for (const i of WebAssembly.Module.imports(m)) {
  (imports[i.module] ||= {})[i.name] = () => { throw new Error('import ' + i.name); };
}
const e = new WebAssembly.Instance(m, imports).exports;
let n;
try {
  n = suite === undefined
    ? e.diff_run(+shard, +shards, tier === 'thorough' ? 1 : 0)
    : e.diff_one(+suite, +ordinal, tier === 'thorough' ? 1 : 0);
} catch (err) {
  console.error(`stopped in suite ${e.diff_current(0)} case ${e.diff_current(1)}: ${err.message}`);
  process.exit(3);
}
const p = e.diff_ptr();
fs.writeFileSync(file, Buffer.from(e.memory.buffer, p, n * 8));
