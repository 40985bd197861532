// Runs a WebAssembly harness: files, exit and printing of floating-point
// numbers; a trap is reported through the harness' own signal handler.
const fs = require('fs');
const file = process.argv[2];
let inst, u8;
const mem = () => (u8 && u8.length === inst.exports.memory.buffer.byteLength && u8.length ? u8 : (u8 = new Uint8Array(inst.exports.memory.buffer)));
const str = (p) => { const m = mem(); let e = p; while (m[e]) e++; return Buffer.from(m.subarray(p, e)).toString('latin1'); };
class Exit extends Error { constructor(c) { super('exit'); this.code = c; } }
const env = {
  js_write: (fd, p, n) => { let o = 0; while (o < n) o += fs.writeSync(fd, mem(), p + o, n - o); return n; },
  js_open: (p, m) => { try { return fs.openSync(str(p), str(m)); } catch (e) { return -1; } },
  js_exit: (c) => { throw new Exit(c); },
  js_double: (v, prec, conv, out) => {
    const c = String.fromCharCode(conv).toLowerCase();
    let s;
    if (v !== v) s = 'nan';
    else if (!isFinite(v)) s = v < 0 ? '-inf' : 'inf';
    else if (c === 'f') s = v.toFixed(prec < 0 ? 6 : Math.min(prec, 100));
    else if (c === 'e') s = v.toExponential(prec < 0 ? 6 : Math.min(prec, 100));
    else if (c === 'g') s = String(Number(v.toPrecision(prec < 0 ? 6 : prec === 0 ? 1 : Math.min(prec, 100))));
    else s = String(v);
    if (Object.is(v, -0)) s = '-' + s.replace('-', '');
    const m = mem();
    for (let i = 0; i < s.length && i < 300; i++) m[out + i] = s.charCodeAt(i);
    return Math.min(s.length, 300);
  },
};
inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(file)), { env });
const args = [file, ...process.argv.slice(3)].join('\0') + '\0\0';
let rc = 0;
try {
  const p = inst.exports.vf_buf(args.length);
  mem().set(Buffer.from(args, 'latin1'), p);
  inst.exports.__wasm_call_ctors();
  rc = inst.exports.vf_start(p);
} catch (e) {
  if (e instanceof Exit) rc = e.code;
  else {
    console.error(String(e.stack).split('\n').slice(0, 4).join('\n'));
    rc = 3;
    try { inst.exports.vf_trap(/unreachable/.test(e) ? 6 : 11); } catch (f) { if (f instanceof Exit) rc = f.code; else console.error(String(f)); }
  }
}
process.exitCode = rc;
