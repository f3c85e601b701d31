// node run.js FILE.wasm OPTIONS...: prints the verdict of the module.
const fs = require("fs");
const m = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const x = new WebAssembly.Instance(m, {}).exports;
const line = Buffer.from(process.argv.slice(3).join(" "));
const p = x.buf(line.length);
new Uint8Array(x.memory.buffer).set(line, p);
let trap = null;
try {
  x.run();
} catch (e) {
  trap = e;
}
const o = Buffer.from(new Uint8Array(x.memory.buffer, x.out(), x.out_len())).toString();
if (o) console.log("\n" + o);
else console.log("\n" + JSON.stringify({ status: "crash", what: "trap: " + trap, stack: String(trap && trap.stack).slice(0, 2000) }));
process.exit(o.includes('"status":"ok"') ? 0 : 1);
