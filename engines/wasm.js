// runs the freestanding program's WebAssembly build: standard input to standard output
const fs = require("fs");
const inp = fs.readFileSync(0);
let at = 0, out = [], inst;
const mem = () => Buffer.from(inst.exports.memory.buffer);
class Exit { constructor(c) { this.c = c; } }
function flush() { if (out.length) { const b = Buffer.concat(out); out = []; let o = 0; while (o < b.length) { try { o += fs.writeSync(1, b, o); } catch (e) { if (e.code !== "EAGAIN") throw e; } } } }
const env = {
  sys_read(p, n) { const k = Math.min(n, inp.length - at); inp.copy(mem(), p >>> 0, at, at + k); at += k; return k; },
  sys_write(p, n) { out.push(Buffer.from(mem().subarray(p >>> 0, (p >>> 0) + n))); if (out.length > 4096) flush(); return n; },
  sys_exit(c) { throw new Exit(c); },
};
inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), { env });
let code = 0;
try { inst.exports.run(); } catch (e) {
  if (e instanceof Exit) code = e.c;
  else { flush(); fs.writeSync(1, "\nPANIC the machine stopped: " + e + "\n"); code = 101; }
}
flush();
process.exitCode = code;
