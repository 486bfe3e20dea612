'use strict';
/* The user input page in a simulated browser: its own scripts, its own markup, a simulated clock, network and storage. */
const fs = require('fs'), path = require('path'), vm = require('vm');
const dom = require('./dom.js');

const BLOCK = new Set(['html', 'body', 'div', 'p', 'form', 'pre', 'h1', 'h2', 'h3', 'ul', 'ol']);

class Browser {
  /* dir: the folder of the page; start: time of day in milliseconds */
  constructor(dir, start) {
    this.dir = dir;
    this.now = start;
    this.store = {};
    this.html = fs.readFileSync(path.join(dir, 'index.html'), 'utf8');
    const b = this;
    const win = this.win = {};
    vm.createContext(win);
    win.window = win.self = win.top = win.parent = win;
    Object.assign(win, dom.build(win));
    win.HTMLElement = win.Element;
    win.console = {log() {}, warn() {}, error() {}, info() {}, debug() {}};
    win.navigator = {userAgent: 'simulated', platform: 'x'};
    win.location = {href: 'file:///page/index.html', protocol: 'file:', host: '', hostname: '', search: '', hash: '', pathname: '/page/index.html', reload() { b.asked = 'reload'; }};
    win.alert = m => { b.alerts.push(m); };
    win.confirm = () => true;
    win.prompt = () => null;
    win._listeners = {};
    win.addEventListener = win.Node.prototype.addEventListener;
    win.removeEventListener = win.Node.prototype.removeEventListener;
    win.getComputedStyle = el => {
      const g = k => el._styles && el._styles[k] || (k === 'display' ? (el.hasAttribute('hidden') ? 'none' : BLOCK.has(el.localName) ? 'block' : 'inline') : '');
      return {getPropertyValue: g, get display() { return g('display'); }};
    };
    win._visible = el => { for (; el && el.nodeType === 1; el = el.parentNode) if (win.getComputedStyle(el).display === 'none') return false; return true; };
    win._click = el => b.click(el);
    win.Storage = function Storage() {};
    win.DOMParser = class { parseFromString(s) { return dom.parseXML(s); } };
    win.XMLHttpRequest = class {
      open(m, u) { this.u = u; }
      setRequestHeader() {}
      send() {
        this.readyState = 4;
        const f = path.join(dir, this.u.replace(/\?.*$/, ''));
        if (fs.existsSync(f)) { this.status = 200; this.responseText = b.file(f); } else { this.status = 404; this.responseText = ''; }
        if (this.onreadystatechange) this.onreadystatechange();
        if (this.onload) this.onload();
      }
    };
    this.files = {};
    win.WebSocket = class {
      constructor(url) { this.url = url; this.readyState = 0; this.sent = []; this._l = {}; b.sockets.push(this); }
      addEventListener(t, f) { (this._l[t] = this._l[t] || []).push(f); }
      removeEventListener(t, f) { this._l[t] = (this._l[t] || []).filter(x => x !== f); }
      send(d) {
        if (this.readyState === 0) throw new Error('InvalidStateError');
        if (this.readyState === 1) { this.sent.push(d); b.sent.push({at: b.now, socket: this, data: d}); }
      }
      close() { if (this.readyState < 2) { this.readyState = 2; this.closing = true; } }
      _fire(t, e) { e = Object.assign({type: t, target: this}, e); b.guard(() => { if (this['on' + t]) this['on' + t](e); (this._l[t] || []).forEach(f => f.call(this, e)); }); }
    };
    Object.assign(win.WebSocket, {CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3});
    Object.assign(win.WebSocket.prototype, {CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3});
    win.__now = () => b.now;
    vm.runInContext(`(function () {
      const Real = Date;
      class Fake extends Real { constructor(...a) { if (a.length) super(...a); else super(__now()); } static now() { return __now(); } }
      Fake.parse = Real.parse; Fake.UTC = Real.UTC;
      globalThis.Date = Fake;
    })()`, win);
    win.setTimeout = (f, ms, ...a) => b.timer(f, ms, a, false);
    win.setInterval = (f, ms, ...a) => b.timer(f, ms, a, true);
    win.clearTimeout = win.clearInterval = id => { b.timers = b.timers.filter(t => t.id !== id); };
    win.requestAnimationFrame = f => b.timer(f, 16, [], false);
    this.timers = []; this.ids = 0;
    this.sockets = []; this.sent = []; this.alerts = []; this.raised = [];
    // what the page loads, in its order (jQuery is not in the tree; it comes with the check)
    this.load('<html><head></head><body></body></html>');
    vm.runInContext(fs.readFileSync(path.join(__dirname, 'jquery.js'), 'utf8'), win, {filename: 'jquery.js'});
    this.tick(0);
    const own = [...this.html.matchAll(/<script[^>]*\ssrc="([^"]+)"/g)].map(m => m[1]).filter(s => !/^https?:/.test(s) && fs.existsSync(path.join(dir, s)));
    this.scripts = own.filter(s => !/^(moment|nunjucks)\.js$/.test(s)).map(s => new vm.Script(fs.readFileSync(path.join(dir, s), 'utf8'), {filename: s}));
    this.inline = [...this.html.matchAll(/<script(?![^>]*\ssrc=)[^>]*>([^]*?)<\/script>/g)].map(m => new vm.Script(m[1]));
    for (const s of own.filter(s => /^(moment|nunjucks)\.js$/.test(s))) vm.runInContext(fs.readFileSync(path.join(dir, s), 'utf8'), win, {filename: s});
    this.globals = new Set(Object.getOwnPropertyNames(win));
    this.dollar = win.jQuery;
    this.hooks = Object.assign({}, win.jQuery.valHooks);
  }
  file(f) { return f in this.files ? this.files[f] : (this.files[f] = fs.readFileSync(f, 'utf8')); }
  load(html) {
    const w = this.win;
    if (!w.document) w.document = new w.Document();
    w.document._listeners = {};
    w.document.load(html);
  }
  /* A new page (or the page again, when the storage is kept) */
  open(keep) {
    const w = this.win, b = this;
    if (!keep) this.store = {};
    this.timers = []; this.raised = []; this.sockets.forEach(s => { s.readyState = 3; });
    if (!keep) { this.sockets = []; this.sent = []; }
    this.alerts = [];
    for (const k of Object.getOwnPropertyNames(w)) if (!this.globals.has(k)) delete w[k];
    w._listeners = {};
    w.jQuery.cleanData([w.document]);
    for (const k of Object.keys(w.jQuery.valHooks)) if (!(k in this.hooks)) delete w.jQuery.valHooks[k];
    Object.assign(w.jQuery.valHooks, this.hooks);
    const methods = {
      getItem: k => k in b.store ? b.store[k] : null, setItem: (k, v) => { b.store[k] = String(v); }, removeItem: k => { delete b.store[k]; }, clear: () => { b.store = {}; },
      key: i => Object.keys(b.store)[i]
    };
    w.localStorage = new Proxy({}, {get: (t, k) => k in methods ? methods[k] : k === 'length' ? Object.keys(b.store).length : b.store[k], set: (t, k, v) => { b.store[k] = String(v); return true; },
      has: (t, k) => k in b.store, deleteProperty: (t, k) => { delete b.store[k]; return true; }, ownKeys: () => Object.keys(b.store), getOwnPropertyDescriptor: (t, k) => k in b.store ? {value: b.store[k], enumerable: true, configurable: true} : undefined});
    this.load(this.html.replace(/^[^]*?<html/, '<html'));
    this.guard(() => this.scripts.concat(this.inline).forEach(s => s.runInContext(w)));
    // ready handlers
    for (const t of ['DOMContentLoaded', 'load']) { w.document.dispatchEvent(new w.Event(t, {bubbles: true})); }
    (w._listeners.load || []).forEach(l => l.f.call(w, new w.Event('load')));
    if (typeof w.onload === 'function') w.onload(new w.Event('load'));
    this.tick(0);
  }
  guard(f) { try { return f(); } catch (e) { this.raised.push(e); } }
  timer(f, ms, args, repeat) {
    const id = ++this.ids;
    ms = Math.max(repeat ? 1 : 0, Number(ms) || 0);
    this.timers.push({id, f, args, at: this.now + ms, every: repeat ? ms : 0});
    return id;
  }
  /* Time passes */
  tick(ms) {
    const end = this.now + ms;
    for (let n = 0; ; n++) {
      let best = null;
      for (const t of this.timers) if (t.at <= end && (!best || t.at < best.at || t.at === best.at && t.id < best.id)) best = t;
      if (!best) break;
      if (n > 200000) throw new Error('timers run wild');
      this.now = Math.max(this.now, best.at);
      if (best.every) best.at += best.every; else this.timers = this.timers.filter(t => t !== best);
      this.guard(() => { if (typeof best.f === 'function') best.f.apply(this.win, best.args); });
    }
    this.now = end;
  }
  $(id) { const e = this.win.document.getElementById(id); if (!e) throw new Error('no element ' + id); return e; }
  event(el, type, o) { const e = new this.win.Event(type, Object.assign({bubbles: true}, o)); this.guard(() => el.dispatchEvent(e)); return e; }
  click(el) {
    if (typeof el === 'string') el = this.$(el);
    if (el.localName === 'input' && el.type === 'radio') { const was = el.checked; el.checked = true; this.event(el, 'click'); if (!was) { this.event(el, 'input'); this.event(el, 'change'); } return; }
    const e = this.event(el, 'click');
    if (el.localName === 'button' && el.type === 'reset' && !e.defaultPrevented) { /* not in a form */ }
  }
  /* The user changes a field */
  set(id, v) {
    const el = this.$(id);
    if (el.localName === 'select') { if (!el.options.some(o => o.value === v)) return false; if (el.value === v) return true; el.value = v; } else el.value = v;
    this.event(el, 'input'); this.event(el, 'change');
    return true;
  }
  key(id, key) {
    const el = this.$(id), code = {Enter: 13, Escape: 27, ' ': 32}[key] || key.toUpperCase().charCodeAt(0);
    const o = {key: key, which: code, keyCode: code, code: {' ': 'Space'}[key] || key};
    const e = this.event(el, 'keydown', o);
    if (!e.defaultPrevented && key !== 'Escape') {
      const p = this.event(el, 'keypress', Object.assign({charCode: code}, o));
      if (!p.defaultPrevented) { if (key !== 'Enter' || el.localName === 'textarea') { el.value = el.value + (key === 'Enter' ? '\n' : key); this.event(el, 'input'); } }
    }
    this.event(el, 'keyup', o);
  }
  visible(id) { return this.win._visible(this.$(id)); }
}
module.exports = {Browser};
