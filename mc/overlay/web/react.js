// A small stand-in for React: function components, hooks, effects, refs. Host elements are plain objects.
let current = null;
const dirty = new Set();
let scheduled = false;
const same = (a, b) => a && b && a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
function hook(init) {
  const c = current, i = c.at++;
  if (i === c.hooks.length) c.hooks.push(init());
  return c.hooks[i];
}
export function useRef(v) { return hook(() => ({ current: v })); }
export function createRef() { return { current: null }; }
export function useState(v) { return useReducer((s, a) => (typeof a === "function" ? a(s) : a), v, x => (typeof x === "function" ? x() : x)); }
export function useReducer(reducer, arg, init) {
  const c = current;
  const h = hook(() => {
    const s = { value: init ? init(arg) : arg };
    s.dispatch = a => {
      const n = s.reducer(s.value, a);
      if (Object.is(n, s.value)) return;
      s.value = n;
      dirty.add(c);
      if (!scheduled) { scheduled = true; queueMicrotask(flush); }
    };
    return s;
  });
  h.reducer = reducer;
  return [h.value, h.dispatch];
}
export function useMemo(f, deps) {
  const h = hook(() => ({}));
  if (!h.deps || !same(h.deps, deps)) { h.deps = deps || []; h.value = f(); if (!deps) h.deps = null; }
  return h.value;
}
export const useCallback = (f, deps) => useMemo(() => f, deps);
function effect(kind) {
  return (f, deps) => {
    const c = current, h = hook(() => ({}));
    if (h.deps && deps && same(h.deps, deps)) return;
    h.deps = deps;
    c[kind].push(() => { if (typeof h.cleanup === "function") h.cleanup(); h.cleanup = f(); });
  };
}
export const useEffect = effect("effects"), useLayoutEffect = effect("layouts"), useInsertionEffect = effect("layouts");
export function useImperativeHandle() { hook(() => 0); }
export function useDebugValue() {}
let ids = 0;
export function useId() { return hook(() => ":" + ids++ + ":"); }
export function createContext(v) { const c = { value: v }; c.Provider = ({ value, children }) => { c.value = value; return children; }; return c; }
export function useContext(c) { return c.value; }
export const Fragment = Symbol("Fragment"), StrictMode = Symbol("StrictMode"), Suspense = Symbol("Suspense");
export const memo = f => f;
export const forwardRef = f => { const g = p => f(p, p.ref); return g; };
export const startTransition = f => f();
export function createElement(type, props, ...children) {
  props = { ...props };
  if (children.length) props.children = children.length === 1 ? children[0] : children;
  return { type, props, key: props.key };
}
export const jsx = (type, props, key) => ({ type, props: props || {}, key });
// Rendering: elements become nodes {el, inst, kids}; children are matched by position.
function reconcile(node, el, queue) {
  if (el === null || el === undefined || typeof el === "boolean") { if (node) unmount(node); return null; }
  if (Array.isArray(el)) el = { type: Fragment, props: { children: el } };
  if (typeof el !== "object") el = { type: "#text", props: { nodeValue: String(el) } };
  if (node && node.type !== el.type) { unmount(node); node = null; }
  if (!node) node = { type: el.type, kids: [], inst: null };
  node.props = el.props;
  let kids;
  if (typeof el.type === "function") {
    if (!node.inst) node.inst = { hooks: [], effects: [], layouts: [], node };
    kids = [renderInst(node.inst)];
  } else {
    if (typeof el.type === "string" && !node.dom) node.dom = host(el.type);
    if (node.dom) Object.assign(node.dom, { props: el.props });
    kids = [].concat(el.props.children === undefined ? [] : el.props.children);
  }
  const old = node.kids;
  node.kids = kids.map((k, i) => reconcile(old[i], k, queue));
  old.slice(kids.length).forEach(k => k && unmount(k));
  if (node.dom && el.props.ref && node.ref !== el.props.ref) {
    node.ref = el.props.ref;
    if (typeof node.ref === "function") node.ref(node.dom); else node.ref.current = node.dom;
  }
  if (node.inst) queue.push(node.inst);
  return node;
}
function renderInst(inst) {
  const was = current;
  current = inst;
  inst.at = 0;
  try { return inst.node.type(inst.node.props); } finally { current = was; }
}
function unmount(node) {
  if (node.inst) for (const h of node.inst.hooks) if (h && typeof h.cleanup === "function") h.cleanup();
  if (node.ref && typeof node.ref === "object") node.ref.current = null;
  node.kids.forEach(k => k && unmount(k));
}
function commit(queue) {
  for (const kind of ["layouts", "effects"]) for (const i of queue) i[kind].splice(0).forEach(f => f());
}
function flush() {
  scheduled = false;
  const list = [...dirty];
  dirty.clear();
  for (const inst of list) {
    const queue = [];
    inst.node.kids = [reconcile(inst.node.kids[0], renderInst(inst), queue)];
    queue.push(inst);
    commit(queue);
  }
}
function host(type) {
  return { tagName: type.toUpperCase(), style: {}, childNodes: [], addEventListener() {}, removeEventListener() {}, appendChild(c) { this.childNodes.push(c); return c; }, removeChild(c) { return c; }, focus() {}, setAttribute() {}, getBoundingClientRect() { return { width: 800, height: 600, top: 0, left: 0 }; }, clientWidth: 800, clientHeight: 600, offsetWidth: 800, offsetHeight: 600 };
}
export function createRoot() {
  let node = null;
  return {
    render(el) { const queue = []; node = reconcile(node, el, queue); commit(queue); },
    unmount() { if (node) unmount(node); node = null; },
  };
}
const render = el => createRoot().render(el);
export { render, jsx as jsxs, jsx as jsxDEV };
export default { useRef, createRef, useState, useReducer, useMemo, useCallback, useEffect, useLayoutEffect, useInsertionEffect, useImperativeHandle, useDebugValue, useId, createContext, useContext, Fragment, StrictMode, Suspense, memo, forwardRef, startTransition, createElement, createRoot, render };
