// A stand-in for xterm's Terminal that records what is written and lets the harness press keys.
export class Terminal {
  constructor(options) {
    this.options = { ...options };
    this.handlers = [];
    this.keyHandlers = [];
    this.cols = 80; this.rows = 24;
    globalThis.verifTerms.push(this);
  }
  open(el) { this.element = el; this.opened = true; }
  onData(f) { this.handlers.push(f); return { dispose: () => { this.handlers = this.handlers.filter(g => g !== f); } }; }
  onKey(f) { this.keyHandlers.push(f); return { dispose: () => { this.keyHandlers = this.keyHandlers.filter(g => g !== f); } }; }
  onResize() { return { dispose() {} }; }
  onTitleChange() { return { dispose() {} }; }
  attachCustomKeyEventHandler() {}
  write(s, done) { if (!this.disposed) globalThis.verifWrites.push(typeof s === "string" ? s : new TextDecoder().decode(s)); if (done) queueMicrotask(done); }
  writeln(s, done) { this.write(s + "\r\n", done); }
  loadAddon() {}
  focus() {} blur() {} scrollToBottom() {} refresh() {} resize() {} clear() {} reset() {}
  dispose() { this.disposed = true; this.handlers = []; this.keyHandlers = []; }
}
export default { Terminal };
