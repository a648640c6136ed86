// stands in for emscripten's generated libspot.core.js
import * as fs from "node:fs";
import * as path from "node:path";
import { fileURLToPath } from "node:url";

export default async function loadWASM() {
  const here = path.dirname(fileURLToPath(import.meta.url));
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(path.join(here, "libspot.wasm")), {});
  const ex = instance.exports;
  // views of the memory, renewed when it grows
  const views = {};
  const Module = {};
  for (const [name, T] of Object.entries({
    HEAP8: Int8Array, HEAPU8: Uint8Array, HEAP16: Int16Array, HEAPU16: Uint16Array, HEAP32: Int32Array,
    HEAPU32: Uint32Array, HEAPF32: Float32Array, HEAPF64: Float64Array,
  }))
    Object.defineProperty(Module, name, {
      enumerable: true,
      get() {
        if (!views[name] || views[name].buffer !== ex.memory.buffer) views[name] = new T(ex.memory.buffer);
        return views[name];
      },
    });
  const text = (p) => {
    let e = p;
    while (Module.HEAPU8[e]) e++;
    return new TextDecoder().decode(Module.HEAPU8.slice(p, e));
  };
  Object.assign(Module, {
    _malloc: (n) => ex.malloc(n) >>> 0,
    _free: (p) => ex.free(p),
    ccall(name, ret, types, args) {
      const f = ex[name];
      if (!f) throw new Error("no such export " + name);
      const temps = [];
      const conv = (args || []).map((a, i) => {
        const t = (types || [])[i];
        if ((t !== "string" && t !== "array") || a === null || a === undefined || a === 0) return a;
        const bytes = t === "string" ? new TextEncoder().encode(a + "\0") : a;
        const q = ex.malloc(bytes.length) >>> 0;
        Module.HEAPU8.set(bytes, q);
        temps.push(q);
        return q;
      });
      const r = f(...conv);
      for (const q of temps) ex.free(q);
      return ret === "string" ? text(r) : ret === "boolean" ? Boolean(r) : ret === null ? undefined : r;
    },
    cwrap(name, ret, types) {
      return (...args) => Module.ccall(name, ret, types, args);
    },
  });
  // helpers emscripten can also export
  const typed = { i8: "Int8", i16: "Int16", i32: "Int32", "*": "Uint32", float: "Float32", double: "Float64" };
  const kind = (t) => (t.endsWith("*") ? "Uint32" : typed[t]);
  Object.assign(Module, {
    UTF8ToString: text,
    getValue: (p, t = "i8") => new DataView(ex.memory.buffer)["get" + kind(t)](p, true),
    setValue: (p, v, t = "i8") => new DataView(ex.memory.buffer)["set" + kind(t)](p, v, true),
  });
  for (const k of Object.keys(ex)) if (typeof ex[k] === "function" && !(("_" + k) in Module)) Module["_" + k] = ex[k];
  ex.vp_main();
  globalThis.__vp = ex;
  return Module;
}
