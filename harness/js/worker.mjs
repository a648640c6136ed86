// runs scripts of operations on the JavaScript binding, one JSON per line on
// stdin, one JSON answer per line on stdout.  Doubles travel as hex.
import * as readline from "node:readline";
import { pathToFileURL } from "node:url";
const lib = await import(pathToFileURL(process.argv[2]).href);
const vp = globalThis.__vp;
const dv = new DataView(new ArrayBuffer(8));
const dec = (h) => {
  dv.setBigUint64(0, BigInt("0x" + h));
  return dv.getFloat64(0);
};
const enc = (x) => {
  if (typeof x !== "number") return "not a number: " + String(x);
  if (Number.isNaN(x)) return "nan";
  dv.setFloat64(0, x);
  return dv.getBigUint64(0).toString(16).padStart(16, "0");
};
const acc = () => [vp.vp_live_blocks(), vp.vp_live_bytes(), vp.vp_bad_frees(), vp.vp_overruns()];
const tick = (ms) => new Promise((r) => setTimeout(r, ms));
async function settle(target) {
  for (let i = 0; i < 60; i++) {
    globalThis.gc();
    await tick(i < 5 ? 0 : 20);
    if (vp.vp_live_blocks() === target) break;
  }
}
function attempt(f) {
  try {
    return ["ok", f()];
  } catch (e) {
    if (e instanceof WebAssembly.RuntimeError) return ["trap", String(e)];
    return [e instanceof Error ? "error" : "thrown", e instanceof Error ? e.message : String(e), e && e.name];
  }
}
function runOps(ops) {
  const dets = new Map();
  const out = [];
  for (const op of ops) {
    const before = acc();
    let res;
    switch (op.k) {
      case "new": {
        const c = {};
        for (const [n, v] of Object.entries(op.cfg)) c[n] = typeof v === "string" ? dec(v) : v;
        res = attempt(() => {
          const s = new lib.Spot(c);
          dets.set(op.d, s);
          return "created";
        });
        break;
      }
      case "drop":
        dets.delete(op.d);
        res = ["ok", "dropped"];
        break;
      case "fit": {
        const vals = op.x.map(dec);
        let a;
        if (op.mode === "plain") a = Float64Array.from(vals);
        else {
          const pre = op.pre, post = op.post;
          const big = new Float64Array(pre + vals.length + post).fill(-12345.678);
          big.set(vals, pre);
          a = op.mode === "subarray" ? big.subarray(pre, pre + vals.length) : new Float64Array(big.buffer, 8 * pre, vals.length);
          if (op.mode === "shared") {
            const sb = new SharedArrayBuffer(8 * (pre + vals.length + post));
            a = new Float64Array(sb, 8 * pre, vals.length);
            a.set(vals);
          }
        }
        const copy = Array.from(a, enc).join();
        res = attempt(() => dets.get(op.d).fit(a));
        if (Array.from(a, enc).join() !== copy) res = ["bad", "the caller's array was modified"];
        break;
      }
      case "step":
        res = attempt(() => dets.get(op.d).step(dec(op.x)));
        break;
      case "quantile":
      case "probability":
        res = attempt(() => enc(dets.get(op.d)[op.k](dec(op.x))));
        break;
      case "state":
        res = attempt(() => [enc(dets.get(op.d).excess_threshold()), enc(dets.get(op.d).anomaly_threshold())]);
        break;
      case "error":
        res = attempt(() => lib.libspotError(op.code));
        break;
      case "version":
        res = attempt(() => lib.libspotVersion());
        break;
      case "size":
        res = attempt(() => lib.spotSize());
        break;
      case "consts":
        res = attempt(() => [lib.NORMAL, lib.EXCESS, lib.ANOMALY, lib.default === lib.Spot]);
        break;
    }
    out.push({ res, before, after: acc() });
  }
  return out;
}
const rl = readline.createInterface({ input: process.stdin });
for await (const line of rl) {
  if (!line.trim()) continue;
  const start = acc();
  const out = runOps(JSON.parse(line));
  await settle(start[0]);
  process.stdout.write(JSON.stringify({ out, start, end: acc() }) + "\n");
}
