'use strict';
/* A small document object model: as much of a browser as a page with jQuery needs. Not for speed: a page is a few hundred nodes. */

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']);
const RAW = new Set(['script', 'style']);
const ENT = {amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0'};

function unescapeText(s) {
  return s.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);/gi, (m, e) => e[0] === '#' ? String.fromCodePoint(/^#x/i.test(e) ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : (e in ENT ? ENT[e] : m));
}

function build(win) {
  class Node {
    constructor(doc, type) { this.ownerDocument = doc; this.nodeType = type; this.childNodes = []; this.parentNode = null; this._listeners = {}; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get nextSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) + 1] || null : null; }
    get previousSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) - 1] || null : null; }
    get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n.nodeType === 9; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
    compareDocumentPosition(o) {
      if (o === this) return 0;
      const path = n => { const r = []; for (; n; n = n.parentNode) r.unshift(n); return r; };
      const a = path(this), b = path(o);
      if (a[0] !== b[0]) return 1 | 32 | 4;
      let i = 0; while (i < a.length && i < b.length && a[i] === b[i]) i++;
      if (i === a.length) return 16 | 4;
      if (i === b.length) return 8 | 2;
      const k = a[i - 1].childNodes;
      return k.indexOf(a[i]) < k.indexOf(b[i]) ? 4 : 2;
    }
    _take(c) {
      if (c.nodeType === 11) { const l = c.childNodes.slice(); l.forEach(x => { x.parentNode = this; }); c.childNodes = []; return l; }
      if (c.parentNode) c.parentNode.removeChild(c);
      c.parentNode = this;
      return [c];
    }
    appendChild(c) { const l = this._take(c); this.childNodes.push(...l); return c; }
    insertBefore(c, ref) {
      if (!ref) return this.appendChild(c);
      const l = this._take(c);
      this.childNodes.splice(this.childNodes.indexOf(ref), 0, ...l);
      return c;
    }
    removeChild(c) { const i = this.childNodes.indexOf(c); if (i < 0) throw new Error('not a child'); this.childNodes.splice(i, 1); c.parentNode = null; return c; }
    replaceChild(n, o) { this.insertBefore(n, o); return this.removeChild(o); }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    append(...l) { l.forEach(x => this.appendChild(typeof x === 'string' ? this._doc().createTextNode(x) : x)); }
    prepend(...l) { const f = this.firstChild; l.forEach(x => this.insertBefore(typeof x === 'string' ? this._doc().createTextNode(x) : x, f)); }
    replaceChildren(...l) { this.childNodes.slice().forEach(c => this.removeChild(c)); this.append(...l); }
    _doc() { return this.nodeType === 9 ? this : this.ownerDocument; }
    get textContent() { return this.nodeType === 3 ? this.data : this.nodeType === 8 ? this.data : this.childNodes.filter(c => c.nodeType !== 8).map(c => c.textContent).join(''); }
    set textContent(v) {
      if (this.nodeType === 3 || this.nodeType === 8) { this.data = String(v); return; }
      this.childNodes.slice().forEach(c => this.removeChild(c));
      v = v === null || v === undefined ? '' : String(v);
      if (v !== '') this.appendChild(this._doc().createTextNode(v));
    }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get nodeValue() { return this.nodeType === 3 || this.nodeType === 8 ? this.data : null; }
    set nodeValue(v) { if (this.nodeType === 3 || this.nodeType === 8) this.data = String(v); }
    get children() { return this.childNodes.filter(c => c.nodeType === 1); }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
    get childElementCount() { return this.children.length; }
    get nextElementSibling() { let n = this.nextSibling; while (n && n.nodeType !== 1) n = n.nextSibling; return n; }
    get previousElementSibling() { let n = this.previousSibling; while (n && n.nodeType !== 1) n = n.previousSibling; return n; }
    _all(f, out) { out = out || []; for (const c of this.childNodes) if (c.nodeType === 1) { if (f(c)) out.push(c); c._all(f, out); } return out; }
    getElementsByTagName(t) { t = t.toLowerCase(); return this._all(e => t === '*' || e.localName === t); }
    getElementsByClassName(c) { const l = c.split(/\s+/).filter(x => x); return this._all(e => l.every(x => e.classList.contains(x))); }
    querySelectorAll(s) { return win.jQuery.find ? win.jQuery.makeArray(win.jQuery.find(s, this)) : []; }
    querySelector(s) { return this.querySelectorAll(s)[0] || null; }
    addEventListener(t, f, o) {
      if (!f) return;
      const l = this._listeners[t] = this._listeners[t] || [];
      if (!l.some(x => x.f === f)) l.push({f: f, once: !!(o && o.once), capture: o === true || !!(o && o.capture)});
    }
    removeEventListener(t, f) { const l = this._listeners[t]; if (l) this._listeners[t] = l.filter(x => x.f !== f); }
    dispatchEvent(ev) {
      ev.target = ev.target || this;
      const path = [];
      for (let n = this; n; n = n.parentNode) path.push(n);
      if (path[path.length - 1].nodeType === 9) path.push(win);
      const fire = (n, capture) => {
        ev.currentTarget = n;
        for (const l of ((n._listeners || {})[ev.type] || []).slice()) {
          if (l.capture !== capture && n !== this || ev._now) continue;
          if (l.once) n.removeEventListener(ev.type, l.f);
          if (typeof l.f === 'function') l.f.call(n, ev); else l.f.handleEvent(ev);
        }
        const h = n['on' + ev.type];
        if (!capture && typeof h === 'function' && n !== win && h.call(n, ev) === false) ev.preventDefault();
      };
      for (let i = path.length - 1; i > 0 && !ev._stop; i--) fire(path[i], true);
      for (let i = 0; i < path.length && !ev._stop; i++) { fire(path[i], false); if (!ev.bubbles) break; }
      return !ev.defaultPrevented;
    }
    cloneNode(deep) {
      let c;
      if (this.nodeType === 3) c = new Text(this.ownerDocument, this.data);
      else if (this.nodeType === 8) c = new Comment(this.ownerDocument, this.data);
      else if (this.nodeType === 11) c = new Fragment(this.ownerDocument);
      else { c = this.ownerDocument.createElement(this.localName); for (const a of this.attributes) c.setAttribute(a.name, a.value); c._value = this._value; c._checked = this._checked; c._selected = this._selected; }
      if (deep) this.childNodes.forEach(x => c.appendChild(x.cloneNode(true)));
      return c;
    }
    normalize() {}
  }
  class Text extends Node { constructor(d, s) { super(d, 3); this.data = s; this.nodeName = '#text'; } get length() { return this.data.length; } }
  class Comment extends Node { constructor(d, s) { super(d, 8); this.data = s; this.nodeName = '#comment'; } }
  class Fragment extends Node { constructor(d) { super(d, 11); this.nodeName = '#document-fragment'; } getElementById(id) { return this._all(e => e.id === id)[0] || null; } }

  class Element extends Node {
    constructor(doc, name) {
      super(doc, 1);
      this.localName = name.toLowerCase();
      this._attrs = [];
      this.namespaceURI = 'http://www.w3.org/1999/xhtml';
      const el = this, styles = {};
      this._styles = styles;
      this.style = new Proxy({}, {
        get: (t, k) => k === 'cssText' ? Object.keys(styles).map(x => x + ': ' + styles[x]).join('; ') : k === 'setProperty' ? (n, v) => { styles[n] = String(v); } :
          k === 'removeProperty' ? n => { delete styles[n]; } : k === 'getPropertyValue' ? n => styles[n] || '' : (styles[String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase())] || ''),
        set: (t, k, v) => {
          if (k === 'cssText') { Object.keys(styles).forEach(x => delete styles[x]); String(v).split(';').forEach(p => { const i = p.indexOf(':'); if (i > 0) styles[p.slice(0, i).trim()] = p.slice(i + 1).trim(); }); return true; }
          k = String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase());
          if (v === '' || v === null) delete styles[k]; else styles[k] = String(v);
          return true;
        },
        has: (t, k) => ['color', 'display', 'visibility', 'opacity', 'width', 'height'].includes(k)
      });
      this.dataset = new Proxy({}, {get: (t, k) => { const v = el.getAttribute('data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase())); return v === null ? undefined : v; },
        set: (t, k, v) => { el.setAttribute('data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase()), v); return true; }});
      this.classList = {
        _l: () => (el.getAttribute('class') || '').split(/\s+/).filter(x => x),
        contains(c) { return this._l().includes(c); },
        add(...cs) { el.setAttribute('class', [...new Set([...this._l(), ...cs])].join(' ')); },
        remove(...cs) { el.setAttribute('class', this._l().filter(c => !cs.includes(c)).join(' ')); },
        toggle(c, f) { const on = f === undefined ? !this.contains(c) : !!f; on ? this.add(c) : this.remove(c); return on; }
      };
    }
    get nodeName() { return this.localName.toUpperCase(); }
    get tagName() { return this.localName.toUpperCase(); }
    get attributes() { const l = this._attrs.slice(); return l; }
    getAttributeNode(n) { n = n.toLowerCase(); return this._attrs.find(a => a.name === n) || null; }
    getAttribute(n) { const a = this.getAttributeNode(n); return a ? a.value : null; }
    hasAttribute(n) { return !!this.getAttributeNode(n); }
    setAttribute(n, v) {
      n = n.toLowerCase();
      const a = this.getAttributeNode(n);
      if (a) a.value = String(v); else this._attrs.push({name: n, value: String(v), specified: true, nodeName: n, get nodeValue() { return this.value; }});
      if (n === 'style') this.style.cssText = v;
      if (n === 'selected' && this.localName === 'option') this._selected = undefined;
    }
    removeAttribute(n) { n = n.toLowerCase(); this._attrs = this._attrs.filter(a => a.name !== n); }
    toggleAttribute(n, f) { const on = f === undefined ? !this.hasAttribute(n) : f; if (on) this.setAttribute(n, ''); else this.removeAttribute(n); return on; }
    get id() { return this.getAttribute('id') || ''; }
    set id(v) { this.setAttribute('id', v); }
    get className() { return this.getAttribute('class') || ''; }
    set className(v) { this.setAttribute('class', v); }
    get name() { return this.getAttribute('name') || ''; }
    get type() { const t = this.getAttribute('type'); return this.localName === 'select' ? 'select-one' : this.localName === 'textarea' ? 'textarea' : this.localName === 'button' ? t || 'submit' : this.localName === 'input' ? (t || 'text') : t || ''; }
    set type(v) { this.setAttribute('type', v); }
    get hidden() { return this.hasAttribute('hidden'); }
    set hidden(v) { this.toggleAttribute('hidden', !!v); }
    get disabled() { return this.hasAttribute('disabled'); }
    set disabled(v) { this.toggleAttribute('disabled', !!v); }
    get offsetWidth() { return win._visible(this) ? 10 : 0; }
    get offsetHeight() { return win._visible(this) ? 10 : 0; }
    getClientRects() { return win._visible(this) ? [{}] : []; }
    getBoundingClientRect() { return {top: 0, left: 0, width: 0, height: 0, bottom: 0, right: 0}; }
    matches(s) { return win.jQuery.find.matchesSelector(this, s); }
    closest(s) { for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (n.matches(s)) return n; return null; }
    focus() {} blur() {} select() {} scrollIntoView() {}
    click() { win._click(this); }
    insertAdjacentHTML(where, html) {
      const f = parseInto(this.ownerDocument, html);
      if (where === 'beforeend') this.appendChild(f); else if (where === 'afterbegin') this.insertBefore(f, this.firstChild);
      else if (where === 'beforebegin') this.parentNode.insertBefore(f, this); else this.parentNode.insertBefore(f, this.nextSibling);
    }
    get innerHTML() { return this.childNodes.map(serialize).join(''); }
    set innerHTML(h) { this.childNodes.slice().forEach(c => this.removeChild(c)); this.appendChild(parseInto(this.ownerDocument, String(h === null ? '' : h), this.localName)); }
    get outerHTML() { return serialize(this); }
    // form controls
    get options() { return this.getElementsByTagName('option'); }
    _chosen() {
      const o = this.options;
      const set = o.filter(x => x._selected === true);
      if (set.length) return set[set.length - 1];
      const marked = o.filter(x => x._selected === undefined && x.hasAttribute('selected'));
      return marked[marked.length - 1] || (this._none ? null : o.find(x => !x.disabled)) || null;
    }
    get selectedIndex() { return this.localName === 'select' ? this.options.indexOf(this._chosen()) : undefined; }
    set selectedIndex(i) { this._none = i < 0; this.options.forEach((o, k) => { o._selected = k === i ? true : false; }); }
    get selectedOptions() { const c = this._chosen(); return c ? [c] : []; }
    get length() { return this.localName === 'select' ? this.options.length : undefined; }
    add(o) { this.appendChild(o); }
    get selected() { if (this.localName !== 'option') return undefined; const s = this._select(); return s ? s._chosen() === this : !!this._selected || this.hasAttribute('selected'); }
    set selected(v) {
      if (this.localName !== 'option') { this._exp = v; return; }
      const s = this._select();
      if (s && v) { s._none = false; s.options.forEach(o => { o._selected = o === this; }); } else this._selected = !!v;
    }
    _select() { let n = this.parentNode; while (n && n.localName !== 'select') n = n.parentNode; return n; }
    get text() { return this.textContent.replace(/\s+/g, ' ').trim(); }
    set text(v) { this.textContent = v; }
    get defaultValue() { return this.localName === 'textarea' ? this.textContent : this.getAttribute('value') || ''; }
    set defaultValue(v) { if (this.localName === 'textarea') this.textContent = v; else this.setAttribute('value', v); }
    get value() {
      switch (this.localName) {
        case 'select': { const c = this._chosen(); return c ? c.value : ''; }
        case 'option': return this.hasAttribute('value') ? this.getAttribute('value') : this.text;
        case 'textarea': return (this._value !== undefined ? this._value : this.textContent.replace(/^\n/, '')).replace(/\r\n?/g, '\n');
        case 'input': if (this.type === 'radio' || this.type === 'checkbox') return this.hasAttribute('value') ? this.getAttribute('value') : 'on';
          return this._value !== undefined ? this._value : this.getAttribute('value') || '';
        case 'button': return this.getAttribute('value') || '';
        default: return undefined;
      }
    }
    set value(v) {
      v = v === null || v === undefined ? '' : String(v);
      switch (this.localName) {
        case 'select': this.selectedIndex = this.options.findIndex(o => o.value === v); break;
        case 'textarea': this._value = v.replace(/\r\n?/g, '\n'); break;
        case 'input':
          if (this.type === 'radio' || this.type === 'checkbox') { this.setAttribute('value', v); break; }
          v = v.replace(/[\r\n]/g, '');
          if (this.type === 'number' && !/^-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$/.test(v)) v = '';
          this._value = v; break;
        default: this.setAttribute('value', v);
      }
    }
    get checked() { return this._checked !== undefined ? this._checked : this.hasAttribute('checked'); }
    set checked(v) {
      v = !!v;
      if (v && this.type === 'radio') this.getRootNode()._all(e => e.localName === 'input' && e.type === 'radio' && e.name === this.name).forEach(e => { e._checked = false; });
      this._checked = v;
    }
    get defaultChecked() { return this.hasAttribute('checked'); }
    get form() { return this.closest ? this.closest('form') : null; }
  }
  Object.defineProperty(Element.prototype, 'content', {get() { return undefined; }});

  function esc(s) { return s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;'); }
  function serialize(n) {
    if (n.nodeType === 3) return n.parentNode && RAW.has(n.parentNode.localName) ? n.data : esc(n.data);
    if (n.nodeType === 8) return '<!--' + n.data + '-->';
    const a = n._attrs.map(x => ' ' + x.name + '="' + x.value.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/"/g, '&quot;') + '"').join('');
    return '<' + n.localName + a + '>' + (VOID.has(n.localName) ? '' : n.childNodes.map(serialize).join('') + '</' + n.localName + '>');
  }

  function parseInto(doc, html, context) {
    const top = new Fragment(doc);
    let cur = top, i = 0;
    while (i < html.length) {
      if (cur.nodeType === 1 && RAW.has(cur.localName)) {
        const e = html.toLowerCase().indexOf('</' + cur.localName, i), end = e < 0 ? html.length : e;
        if (end > i) cur.appendChild(doc.createTextNode(html.slice(i, end)));
        i = end; if (e >= 0) { i = html.indexOf('>', e) + 1; cur = cur.parentNode; }
        continue;
      }
      if (cur.nodeType === 1 && cur.localName === 'textarea') {
        const e = html.toLowerCase().indexOf('</textarea', i), end = e < 0 ? html.length : e;
        if (end > i) cur.appendChild(doc.createTextNode(unescapeText(html.slice(i, end))));
        i = html.indexOf('>', end) + 1; cur = cur.parentNode; continue;
      }
      if (html.startsWith('<!--', i)) { const e = html.indexOf('-->', i); cur.appendChild(new Comment(doc, html.slice(i + 4, e))); i = e + 3; continue; }
      if (/^<[!?]/.test(html.slice(i, i + 2))) { i = html.indexOf('>', i) + 1; continue; }
      let m = /^<\/([a-zA-Z][^\s>]*)[^>]*>/.exec(html.slice(i, i + 200));
      if (m) {
        const t = m[1].toLowerCase(); i += m[0].length;
        let n = cur; while (n !== top && n.localName !== t) n = n.parentNode;
        if (n !== top) cur = n.parentNode;
        continue;
      }
      m = /^<([a-zA-Z][^\s/>]*)/.exec(html.slice(i, i + 100));
      if (m) {
        i += m[0].length;
        const el = doc.createElement(m[1]);
        let self = false;
        for (;;) {
          const w = /^[\s/]*/.exec(html.slice(i, i + 1000))[0]; i += w.length; self = /\/\s*$/.test(w);
          if (html[i] === '>' || i >= html.length) { i++; break; }
          const a = /^([^\s=/>]+)(\s*=\s*("[^"]*"|'[^']*'|[^\s>]*))?/.exec(html.slice(i));
          i += a[0].length;
          let v = a[2] === undefined ? '' : a[3];
          if (/^["']/.test(v)) v = v.slice(1, -1);
          el.setAttribute(a[1], unescapeText(v));
        }
        if (el.localName === 'option' && cur.localName === 'option') cur = cur.parentNode;
        cur.appendChild(el);
        if (!VOID.has(el.localName)) cur = el;
        continue;
      }
      let e = html.indexOf('<', i + 1); if (e < 0) e = html.length;
      cur.appendChild(doc.createTextNode(unescapeText(html.slice(i, e))));
      i = e;
    }
    return top;
  }

  class Document extends Node {
    constructor() { super(null, 9); this.nodeName = '#document'; this.readyState = 'complete'; this.defaultView = win; this.compatMode = 'CSS1Compat'; this.cookie = ''; this.hidden = false; this.activeElement = null; }
    get documentElement() { return this.children[0]; }
    get body() { return this.documentElement && this.documentElement.children.find(c => c.localName === 'body') || null; }
    get head() { return this.documentElement && this.documentElement.children.find(c => c.localName === 'head') || null; }
    createElement(n) { return new Element(this, n); }
    createElementNS(ns, n) { return new Element(this, n); }
    createTextNode(s) { return new Text(this, String(s)); }
    createComment(s) { return new Comment(this, String(s)); }
    createDocumentFragment() { return new Fragment(this); }
    createEvent() { return new Event(''); }
    getElementById(id) { return this._all(e => e.getAttribute('id') === id)[0] || null; }
    getElementsByName(n) { return this._all(e => e.name === n); }
    get implementation() { return {createHTMLDocument: () => { const d = new Document(); d.load('<html><head></head><body></body></html>'); return d; }}; }
    load(html) { this.childNodes = []; const f = parseInto(this, html); f.childNodes.filter(c => c.nodeType === 1).forEach(c => this.appendChild(c)); }
    get location() { return win.location; }
  }

  class Event {
    constructor(type, o) { Object.assign(this, {type: type, bubbles: false, cancelable: true, defaultPrevented: false, timeStamp: 0, isTrusted: true}, o || {}); }
    initEvent(t, b) { this.type = t; this.bubbles = b; }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this._stop = true; }
    stopImmediatePropagation() { this._stop = this._now = true; }
    composedPath() { return []; }
  }
  return {Node, Text, Comment, Element, Document, Event, parseInto, serialize};
}

/* Strict XML, with namespaces: throws where the text is not well formed */
function parseXML(src) {
  let i = 0;
  const fail = m => { throw new Error('not well formed at ' + i + ': ' + m); };
  const ref = s => s.replace(/&([^;]*;?)/g, (m, e) => {
    const r = /^(?:#x([0-9a-fA-F]+)|#([0-9]+)|(amp|lt|gt|quot|apos));$/.exec(e);
    if (!r) fail('reference ' + m);
    return r[3] ? ENT[r[3]] : String.fromCodePoint(r[1] ? parseInt(r[1], 16) : parseInt(r[2], 10));
  });
  const chars = s => { if (/[\u0000-\u0008\u000b\u000c\u000e-\u001f\ufffe\uffff]/.test(s)) fail('character'); return s; };
  const root = {ns: {xml: 'http://www.w3.org/XML/1998/namespace', xmlns: 'http://www.w3.org/2000/xmlns/'}, childNodes: [], nodeType: 9};
  let cur = root;
  src = String(src).replace(/\r\n?/g, '\n');
  if (src.startsWith('<?xml')) i = src.indexOf('?>') + 2;
  while (i < src.length) {
    if (src.startsWith('<!--', i)) { const e = src.indexOf('-->', i); if (e < 0) fail('comment'); i = e + 3; continue; }
    if (src.startsWith('<?', i)) { const e = src.indexOf('?>', i); if (e < 0) fail('pi'); i = e + 2; continue; }
    if (src.startsWith('<![CDATA[', i)) { const e = src.indexOf(']]>', i); if (e < 0 || cur === root) fail('cdata'); cur.childNodes.push({nodeType: 3, nodeValue: src.slice(i + 9, e), data: src.slice(i + 9, e)}); i = e + 3; continue; }
    let m = /^<\/([^\s>]+)\s*>/.exec(src.slice(i, i + 300));
    if (m) { if (cur === root || cur.nodeName !== m[1]) fail('end of ' + m[1]); i += m[0].length; cur = cur.parentNode; continue; }
    if (src[i] === '<') {
      m = /^<([A-Za-z_][\w.:-]*)/.exec(src.slice(i, i + 300));
      if (!m) fail('tag');
      if (cur === root && root.childNodes.length) fail('second root');
      i += m[0].length;
      const el = {nodeType: 1, nodeName: m[1], childNodes: [], parentNode: cur, ns: Object.create(cur.ns), attrs: [], raw: []};
      for (;;) {
        const w = /^\s*/.exec(src.slice(i))[0].length; i += w;
        if (src.startsWith('/>', i)) { i += 2; el.empty = true; break; }
        if (src[i] === '>') { i++; break; }
        const a = /^([A-Za-z_][\w.:-]*)\s*=\s*("[^"<]*"|'[^'<]*')/.exec(src.slice(i));
        if (!a || !w) fail('attribute');
        i += a[0].length;
        if (el.raw.some(x => x[0] === a[1])) fail('repeated attribute');
        const v = chars(ref(a[2].slice(1, -1).replace(/[\t\n]/g, ' ')));
        el.raw.push([a[1], v]);
        if (a[1] === 'xmlns') el.ns[''] = v; else if (a[1].startsWith('xmlns:')) el.ns[a[1].slice(6)] = v;
      }
      const q = (n, attr) => { const k = n.indexOf(':'); if (k < 0) return [attr ? null : el.ns[''] || null, n]; const u = el.ns[n.slice(0, k)]; if (u === undefined) fail('prefix of ' + n); return [u, n.slice(k + 1)]; };
      [el.namespaceURI, el.localName] = q(el.nodeName);
      el.tagName = el.nodeName;
      el.attrs = el.raw.map(x => [...q(x[0], true), x[1], x[0]]);
      cur.childNodes.push(el);
      if (!el.empty) cur = el;
      continue;
    }
    let e = src.indexOf('<', i); if (e < 0) e = src.length;
    const t = src.slice(i, e);
    if (t.includes(']]>')) fail(']]>');
    if (cur === root) { if (t.trim()) fail('text outside'); } else { const v = chars(ref(t)); cur.childNodes.push({nodeType: 3, nodeValue: v, data: v}); }
    i = e;
  }
  if (cur !== root || !root.childNodes.length) fail('end');
  const finish = n => {
    n.firstChild = n.childNodes ? n.childNodes[0] || null : null;
    n.lastChild = n.childNodes ? n.childNodes[n.childNodes.length - 1] || null : null;
    (n.childNodes || []).forEach(c => { c.parentNode = n; finish(c); });
    n.children = (n.childNodes || []).filter(c => c.nodeType === 1);
    n.textContent = n.nodeType === 3 ? n.nodeValue : (n.childNodes || []).map(c => c.textContent).join('');
    if (n.nodeType === 3) return;
    const all = f => { const out = []; const go = x => x.children.forEach(c => { if (f(c)) out.push(c); go(c); }); go(n); return out; };
    n.getElementsByTagNameNS = (u, l) => all(c => (u === '*' || c.namespaceURI === u) && (l === '*' || c.localName === l));
    n.getElementsByTagName = l => all(c => l === '*' || c.nodeName === l);
    n.querySelector = l => all(c => c.localName === l.replace(/^.*\\?[:|]/, ''))[0] || null;
    n.getAttributeNS = (u, l) => { const a = (n.attrs || []).find(x => (x[0] || null) === (u || null) && x[1] === l); return a ? a[2] : null; };
    n.hasAttributeNS = (u, l) => n.getAttributeNS(u, l) !== null;
    n.getAttribute = q => { const a = (n.attrs || []).find(x => x[3] === q); return a ? a[2] : null; };
    n.hasAttribute = q => n.getAttribute(q) !== null;
    n.attributes = (n.attrs || []).map(a => ({namespaceURI: a[0], localName: a[1], name: a[3], value: a[2]}));
  };
  finish(root);
  root.documentElement = root.children[0];
  return root;
}

module.exports = {build, parseXML};
