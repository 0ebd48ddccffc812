// Answers the requests on the input with a WebAssembly build of the converter.
// A trap is a panic: the machine it happened in is replaced.
import { readFileSync } from "node:fs";
import { writeSync } from "node:fs";
const mod = new WebAssembly.Module(readFileSync(process.argv[2]));
let m = new WebAssembly.Instance(mod, {}).exports;
const enc = new TextEncoder(), dec = new TextDecoder();
const lines = readFileSync(0, "utf8").split("\n");
lines.pop();
let out = [];
for (const line of lines) {
  let a;
  try {
    const b = enc.encode(line);
    const at = m.room(b.length) >>> 0;
    new Uint8Array(m.memory.buffer, at, b.length).set(b);
    const r = BigInt.asUintN(64, m.ask(at, b.length));
    const p = Number(r >> 32n), n = Number(r & 0xffffffffn);
    a = dec.decode(new Uint8Array(m.memory.buffer, p, n)).replaceAll("\n", " ");
    m.free(p, n);
  } catch (e) {
    a = e instanceof RangeError ? "overflow of the stack | same" : "panic | same";
    m = new WebAssembly.Instance(mod, {}).exports;
  }
  out.push("> " + a);
  if (out.length == 100) {
    writeSync(2, out.join("\n") + "\n");
    out = [];
  }
}
if (out.length) writeSync(2, out.join("\n") + "\n");
