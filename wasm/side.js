// The WebAssembly module behind a line protocol: {"f": name, "a": [{"b": hex} | {"s": text} | {"n": number} | {"u": 0}]}
// answers {"ok": [kind, value]} | {"err": text} | {"trap": text}
"use strict";
const path = require("path");
const m = require(path.resolve(process.argv[2]));
const dec = (x) => {
  if ("b" in x) return new Uint8Array(Buffer.from(x.b, "hex"));
  if ("s" in x) return Buffer.from(x.s, "hex").toString("utf8");
  if ("n" in x) return x.n;
  return x.u === 0 ? undefined : null;
};
const enc = (v) => {
  if (v instanceof Uint8Array) return ["b", Buffer.from(v).toString("hex")];
  if (typeof v === "string") return ["s", Buffer.from(v, "utf8").toString("hex")];
  if (typeof v === "number") return ["n", v];
  return ["u", typeof v];
};
let buf = "";
const fs = require("fs");
const answer = (line) => {
  const q = JSON.parse(line);
  let r;
  try {
    r = { ok: enc(m[q.f](...q.a.map(dec))) };
  } catch (e) {
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) r = { trap: String(e && e.stack).slice(0, 1500) };
    else r = { err: String(e).slice(0, 500), type: typeof e };
  }
  fs.writeSync(1, JSON.stringify(r) + "\n");
};
const chunk = Buffer.alloc(1 << 20);
for (;;) {
  let n;
  try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") break; throw e; }
  if (n === 0) break;
  buf += chunk.toString("latin1", 0, n);
  let k;
  while ((k = buf.indexOf("\n")) >= 0) { const l = buf.slice(0, k); buf = buf.slice(k + 1); answer(l); }
}
