// Runs the real web program (bundled) with scripted keys. argv: bundle, wasm_exec.js, topolith.wasm ("-": a recorder answers).
// stdin: one JSON object {keys, drain, late, wasm} per line; stdout: one JSON object {sent, shown, boot, crash} per line.
const fs = require("fs"), readline = require("readline");
const [bundleFile, wasmExec, wasmFile] = process.argv.slice(2);
const code = fs.readFileSync(bundleFile, "utf8");
const out = fs.writeSync.bind(null, 1);
const stub = Object.create(fs);
stub.writeSync = (fd, buf) => buf.length;
stub.write = (fd, buf, o, l, p, cb) => cb(null, l);
globalThis.fs = stub;
globalThis.require = undefined;
let crash = [];
console.error = console.warn = console.log = console.info = console.debug = () => {};
process.on("unhandledRejection", e => crash.push(String(e)));
process.on("uncaughtException", e => crash.push(String(e)));
(0, eval)(fs.readFileSync(wasmExec, "utf8"));
const realGo = globalThis.Go, bytes = fs.readFileSync(wasmFile), mod = new WebAssembly.Module(bytes);
const realSetTimeout = setTimeout, realInstantiate = WebAssembly.instantiate;
let timers = [];
const turn = () => new Promise(r => setImmediate(r));
async function drain() {
  for (let i = 0; i < 50 && timers.length; i++) {
    timers.sort((a, b) => a.at - b.at || a.id - b.id);
    const t = timers.shift();
    t.f();
    await turn();
  }
}
let timerId = 1, now = 0;
const fakeSetTimeout = (f, ms, ...a) => { const id = timerId++; timers.push({ at: now + (ms || 0), id, f: () => { now = Math.max(now, id && 0); f(...a); } }); return id; };
const fakeClear = id => { timers = timers.filter(t => t.id !== id); };
// What the recorder answers, in turn.
const answers = [
  c => JSON.stringify({ status: 200, data: { object: { type: "item", repr: 'item "' + c.length + '"' }, status: { code: 200, message: "" } }, error: {}, raw: "x\n$$$$\n200 ok " }),
  c => "Expected one argument",
  c => { throw new Error("the program ended"); },
  c => JSON.stringify({ status: 400, error: { message: 'é "quoted" \\ \u2028 >>> ' }, list: [1, 2.5, null, true, [], {}] }),
  c => "", c => "null",
];
async function run(job) {
  crash = [];
  timers = [];
  globalThis.verifTerms = [];
  globalThis.verifWrites = [];
  const sent = [], replies = [];
  let send, n = job.first || 0;
  const load = [];
  delete globalThis.topolithSend;
  const record = f => function (...args) {
    sent.push(args.length === 1 && typeof args[0] === "string" ? args[0] : "\u0000not one string: " + JSON.stringify(args));
    const i = replies.push(null) - 1;
    const r = f.apply(this, args);
    replies[i] = r;
    return r;
  };
  Object.defineProperty(globalThis, "topolithSend", { configurable: true, get: () => send, set: f => { send = typeof f === "function" ? record(f) : f; } });
  if (job.wasm) globalThis.Go = realGo;
  else globalThis.Go = class { constructor() { this.importObject = {}; } async run() { globalThis.topolithSend = c => answers[n++ % answers.length](c); } };
  const instance = async imports => { if (job.late) await new Promise(r => load.push(r)); return job.wasm ? await realInstantiate(mod, imports) : { exports: {} }; };
  WebAssembly.instantiateStreaming = async (src, imports) => { await src; return { instance: await instance(imports), module: mod }; };
  WebAssembly.instantiate = async (src, imports) => { const i = await instance(imports); return src instanceof WebAssembly.Module ? i : { instance: i, module: mod }; };
  const file = { ok: true, status: 200, headers: new Map([["content-type", "application/wasm"]]), arrayBuffer: async () => bytes, clone() { return this; } };
  const fetch = async () => file;
  const el = { appendChild() {}, style: {}, addEventListener() {} };
  const document = { getElementById: () => el, querySelector: () => el, body: el, addEventListener() {}, removeEventListener() {}, createElement: () => ({ ...el }) };
  const window = { addEventListener() {}, removeEventListener() {}, setTimeout: fakeSetTimeout, clearTimeout: fakeClear, document };
  new Function("document", "window", "fetch", "setTimeout", "clearTimeout", "requestAnimationFrame", code)(document, window, fetch, fakeSetTimeout, fakeClear, f => fakeSetTimeout(f, 16));
  for (let i = 0; i < 2000 && !send && !job.late; i++) await turn();
  await turn();
  await drain();
  const boot = globalThis.verifWrites.splice(0).join("");
  const shown = [];
  const term = () => globalThis.verifTerms.find(t => t.opened && !t.disposed && (t.handlers.length || t.keyHandlers.length));
  for (let i = 0; i < job.keys.length; i++) {
    let k = job.keys[i];
    if (k === "\u0001load") { load.splice(0).forEach(r => r()); for (let j = 0; j < 2000 && !send; j++) await turn(); await turn(); shown.push({ w: globalThis.verifWrites.splice(0).join(""), n: replies.length }); continue; }
    const t = term();
    if (!t) { crash.push("no terminal takes keys"); break; }
    try {
      t.handlers.slice().forEach(f => f(k));
      t.keyHandlers.slice().forEach(f => f({ key: k, domEvent: { key: k === "\r" ? "Enter" : k === "\u007f" ? "Backspace" : k, preventDefault() {}, stopPropagation() {} } }));
    } catch (e) { crash.push(String(e)); }
    await turn();
    if (!job.drain || job.drain[i]) await drain();
    if (i === job.keys.length - 1) { await turn(); await drain(); await turn(); }
    shown.push({ w: globalThis.verifWrites.splice(0).join(""), n: replies.length });
  }
  return { sent, replies: replies.map(r => (typeof r === "string" ? r : null)), shown, boot, crash };
}
const rl = readline.createInterface({ input: process.stdin });
let chain = Promise.resolve();
rl.on("line", l => { chain = chain.then(async () => { let r; try { r = await run(JSON.parse(l)); } catch (e) { r = { crash: [String(e && e.stack || e)] }; } out(JSON.stringify(r) + "\n"); }); });
rl.on("close", () => chain.then(() => process.exit(0)));
