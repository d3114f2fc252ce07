// Runs sequences of lines through the WebAssembly program, each sequence in a fresh instance.
// stdin: one JSON array of lines per line; stdout: one JSON array of {r: answer} or {e: what was thrown} per line.
const fs = require("fs"), readline = require("readline");
const [wasmExec, wasmFile] = process.argv.slice(2);
const out = fs.writeSync.bind(null, 1);
const stub = Object.create(fs);
stub.writeSync = (fd, buf) => buf.length; // what the program prints goes nowhere
stub.write = (fd, buf, o, l, p, cb) => cb(null, l);
globalThis.fs = stub;
globalThis.require = undefined;
console.error = console.warn = console.log = () => {};
(0, eval)(fs.readFileSync(wasmExec, "utf8"));
const mod = new WebAssembly.Module(fs.readFileSync(wasmFile));
async function run(lines) {
  const go = new Go();
  let exited = false;
  go.exit = () => { exited = true; };
  delete globalThis.topolithSend;
  const inst = await WebAssembly.instantiate(mod, go.importObject);
  go.run(inst).then(() => { exited = true; }, () => { exited = true; });
  for (let i = 0; i < 1000 && !globalThis.topolithSend && !exited; i++) await new Promise(r => setTimeout(r, 1));
  const send = globalThis.topolithSend, res = [];
  if (!send) return [{ e: "topolithSend was never set" }];
  for (const l of lines) {
    try {
      let r;
      switch (l) {
        case "\u0001none": r = send(); break;
        case "\u0001two": r = send("item create zz", "item create yy"); break;
        case "\u0001number": r = send(5); break;
        case "\u0001null": r = send(null); break;
        case "\u0001undefined": r = send(undefined); break;
        case "\u0001object": r = send({ a: 1 }); break;
        case "\u0001surrogate": r = send("item create \ud800"); break;
        default: r = send(l);
      }
      if (exited) res.push({ e: "the program ended" });
      else res.push({ r: typeof r === "string" ? r : "not a string: " + typeof r });
    } catch (e) {
      res.push({ e: String(e) });
    }
  }
  if (go._scheduledTimeouts) for (const t of go._scheduledTimeouts.values()) clearTimeout(t);
  return res;
}
(async () => {
  for await (const line of readline.createInterface({ input: process.stdin })) {
    let res;
    try { res = await run(JSON.parse(line)); } catch (e) { res = [{ e: "driver: " + e }]; }
    out(JSON.stringify(res) + "\n");
  }
  process.exit(0);
})();
