'use strict';
/* Explores the user input page: node uip.js DIR CASE(JSON) -> JSON {fails, trans, traces, states, outcomes, docs} */
const {Browser} = require('./page.js');
const {parseXML} = require('./dom.js');

const TT = 'http://www.w3.org/ns/ttml', TTP = TT + '#parameter', EP = 'urn:ebu:tt:parameters', LM = 'urn:ebu:tt:livemessage', XMLNS = 'http://www.w3.org/XML/1998/namespace';
const [dir, spec] = [process.argv[2], JSON.parse(process.argv[3])];
const out = {fails: {}, trans: 0, traces: 0, states: {}, outcomes: {}, docs: {}};
const START = Date.UTC(2026, 0, 5, 15, 0, 0);
const TEXT = 'subtitle-content-textarea';

function fail(sig, msg) { const f = out.fails[sig] = out.fails[sig] || {n: 0, msg: msg}; f.n++; }
const js = JSON.stringify;

/* ---- what is in a document that was sent ---- */
function read(xml) {
  const root = parseXML(xml).documentElement;
  if (root.namespaceURI === LM) {
    const one = n => root.getElementsByTagNameNS(LM, n).map(e => e.textContent);
    return {msg: true, seq: root.getAttributeNS(EP, 'sequenceIdentifier'), sender: one('sender'), recipient: one('recipient'), type: one('type'), payload: one('payload')};
  }
  if (root.namespaceURI !== TT || root.localName !== 'tt') throw new Error('no tt');
  const body = root.children.filter(c => c.localName === 'body');
  const lines = [''];
  const go = n => n.childNodes.forEach(c => {
    if (c.nodeType === 3) { if (n.localName === 'span') lines[lines.length - 1] += c.nodeValue; else if (c.nodeValue.trim()) lines.push('stray ' + c.nodeValue); }
    else if (c.localName === 'br') lines.push('');
    else go(c);
  });
  body.forEach(go);
  const A = n => root.getAttributeNS(EP, n), P = n => root.getAttributeNS(TTP, n);
  const timed = []; const t = n => { for (const k of ['begin', 'end', 'dur']) if (n.getAttribute(k) !== null) timed.push(n.localName + '@' + k + '=' + n.getAttribute(k)); n.children.forEach(t); }; t(root);
  return {seq: A('sequenceIdentifier'), num: Number(A('sequenceNumber')), base: P('timeBase'), mode: P('clockMode'), group: A('authorsGroupIdentifier'), token: A('authorsGroupControlToken'),
    lang: root.getAttributeNS(XMLNS, 'lang'), timed: timed.sort(), lines};
}

/* ---- the user and what they may expect ---- */
class User {
  constructor(b) { this.b = b; this.fresh(); }
  fresh() { this.b.now = START; this.b.open(false); this.seqs = {}; this.order = []; this.last = {}; this.skip = {}; this.due = []; this.checked = 0; this.trace = []; this.sub = []; this.async = null; this.socket = null; }
  does(a) { this.trace.push(a); }
  what() { return this.trace.join(', '); }
  create(id, o) {
    const b = this.b; o = Object.assign({base: 'media'}, o);
    if (b.visible('create-new-sequence-button')) b.click('create-new-sequence-button');
    b.set('new-sequence-identifier-input', id); b.set('ag-identifier-input', o.group || ''); b.set('time-base-selector', o.base);
    if (o.mode) b.set('clock-mode-selector', o.mode);
    b.click('validate-new-sequence-button');
    if (id !== '' && !(id in this.seqs)) { this.seqs[id] = o; this.order.push(id); this.last[id] = 0; }
    this.options();
  }
  options() {
    const o = this.b.$('sequence-selector').options.map(x => x.value);
    if (js([...new Set(o)]) !== js(this.order)) fail('sequences', this.what() + ': sequences to select from are ' + js(o) + ' instead of ' + js(this.order));
  }
  connect(open) {
    const b = this.b;
    if (!b.visible('websocket-connect-button')) return;
    const n = b.sockets.length;
    b.click('websocket-connect-button');
    const seq = b.$('sequence-selector').value;
    const s = b.sockets.slice(n);
    if (s.length !== 1) { fail('connect', this.what() + ': ' + s.length + ' connections'); return; }
    let got = null; const m = /^ws:\/\/127\.0\.0\.1:9001\/([^\/]*)\/publish$/.exec(s[0].url);
    if (m && /^[A-Za-z0-9._~%-]*$/.test(m[1])) try { got = decodeURIComponent(m[1]); } catch (e) { got = null; }
    if (seq && got !== seq) fail('connect:url', this.what() + ': connects to ' + s[0].url + ' for ' + js(seq));
    if (open) { s[0].readyState = 1; this.socket = s[0]; s[0]._fire('open'); } else { s[0].readyState = 3; s[0]._fire('error'); s[0]._fire('close', {wasClean: false}); }
    this.buttons();
  }
  buttons() {
    const on = !!this.socket, b = this.b;
    if (b.visible('websocket-connect-button') === on || b.visible('websocket-disconnect-button') !== on) fail('buttons', this.what() + ': connected ' + on + ' but connect is ' + (b.visible('websocket-connect-button') ? 'shown' : 'hidden'));
  }
  lost() { const s = this.socket; if (!s) return; this.socket = null; s.readyState = 3; s._fire('close', {wasClean: true}); this.buttons(); }
  disconnect() { const s = this.socket; if (!s) return; this.b.click('websocket-disconnect-button'); if (!s.closing) fail('disconnect', this.what() + ': the connection is not closed'); this.lost(); }
  reload() { if (this.due.length) this.missed = true; this.b.open(true); this.socket = null; this.due = []; this.async = null; this.options(); }
  /* what a document made now says */
  said() {
    const b = this.b, seq = b.$('sequence-selector').value, p = this.seqs[seq];
    if (!p) return null;
    const v = id => b.$(id).value;
    const timed = [];
    for (const [id, k] of [['body-begin-input', 'begin'], ['body-end-input', 'end'], ['dur-input', 'dur']]) if (v(id)) timed.push('body@' + k + '=' + v(id));
    return {seq, base: p.base, mode: p.base === 'clock' ? p.mode || 'local' : null, group: p.group || null, token: v('ag-token-input') || null, lang: 'en-GB', timed: timed.sort(), lines: v(TEXT).split('\n')};
  }
  /* a document is made now, to be sent at a time */
  make(at) {
    const d = this.said();
    if (!d) return;
    d.at = at === undefined ? this.b.now : Math.max(at, this.b.now);
    d.made = this.made = (this.made || 0) + 1;
    this.due.push(d);
  }
  /* compares what was sent with what was due */
  settle() {
    const b = this.b;
    const sent = b.sent.slice(this.checked); this.checked = b.sent.length;
    const due = this.due.filter(d => d.at <= b.now).sort((x, y) => x.at - y.at || x.made - y.made);
    this.due = this.due.filter(d => d.at > b.now);
    this.judge(sent, due);
  }
  judge(sent, due) {
    for (const s of sent) {
      let d;
      try { d = read(s.data); } catch (e) { fail('wellformed', this.what() + ': ' + e.message + ': ' + s.data.slice(-400)); due.shift(); continue; }
      if (s.socket !== this.socket && !s.socket.was) fail('socket', this.what() + ': sent on another connection');
      this.keep(s.data, d);
      if (d.msg) { const m = due.findIndex(x => x.msg); if (m < 0) { fail('unasked', this.what() + ': message ' + js(d)); continue; }
        const w = due.splice(m, 1)[0]; if (js([d.seq, d.sender, d.type, d.payload]) !== js([w.seq, [w.seq], ['authorsGroupControlRequest'], [w.payload]])) fail('message', this.what() + ': message ' + js(d) + ' instead of ' + js(w)); continue; }
      const w = due.find(x => !x.msg);
      if (!w) { fail('unasked', this.what() + ': sends ' + js(d)); continue; }
      due.splice(due.indexOf(w), 1);
      const pick = x => ({seq: x.seq, base: x.base, mode: x.mode, group: x.group, token: x.token, lang: x.lang, timed: x.timed, lines: x.lines});
      if (js(pick(d)) !== js(pick(w))) fail('said', this.what() + ': sends ' + js(pick(d)) + ' instead of ' + js(pick(w)));
      if (Math.abs(s.at - w.at) > 0) fail('when', this.what() + ': sent at ' + (s.at - START) + ' instead of ' + (w.at - START));
      this.number(d, w);
    }
    for (const w of due) {
      // (a moment at which it could not be sent)
      if (w.msg || w.off || w.live === false) continue;
      fail('unsent', this.what() + ': does not send ' + js(w));
    }
  }
  number(d, w) {
    this.nums = this.nums || {};
    const used = this.used = this.used || {};
    const u = used[d.seq] = used[d.seq] || [];
    if (u.some(x => x[0] === d.num)) fail('number:twice', this.what() + ': number ' + d.num + ' of ' + js(d.seq) + ' is sent twice');
    for (const [n, made] of u) if ((n < d.num) !== (made < w.made)) fail('number:order', this.what() + ': number ' + d.num + ' of ' + js(d.seq) + ' was made ' + (made < w.made ? 'after' : 'before') + ' ' + n);
    if (!(d.num >= 1)) fail('number:first', this.what() + ': number ' + d.num);
    u.push([d.num, w.made]);
    if (!this.missed && d.num > u.length + this.due.filter(x => x.seq === d.seq).length) fail('number:gap', this.what() + ': number ' + d.num + ' of ' + js(d.seq) + ' after ' + (u.length - 1) + ' documents');
  }
  keep(xml, d) {
    const k = d.msg ? xml : xml.replace(/(sequenceNumber=")\d+/, '$11');
    if (!(k in out.docs) && Object.keys(out.docs).length < 3000) out.docs[k] = d.msg ? ['msg', d.seq, d.sender[0], d.payload[0]] : ['doc', d.seq, d.lines, d.timed.length ? 1 : 0];
  }
  /* a document is made by an action and sent at once, if there is a connection */
  sending(act) {
    const on = !!this.socket, note = this.b.$('subtitle-form-notification-div');
    if (on) this.make(); else if (this.said()) { this.missed = true; note.textContent = ''; }
    this.act(act);
    if (!on && this.said() && !note.textContent.trim()) fail('told', this.what() + ': nothing is sent and nothing is said about it');
    this.settle();
  }
  act(f) {
    const n = this.b.raised.length;
    f();
    const e = this.b.raised.slice(n);
    if (e.length && this.order.length) fail('error', this.what() + ': ' + (e[0].stack || e[0]).toString().slice(0, 300));
  }
  /* time passes in steps at which nothing or one thing is due */
  tick(ms) {
    const end = this.b.now + ms;
    while (this.b.now < end) {
      const marks = this.due.map(d => d.at).concat(this.async ? [this.async.next] : []).filter(t => t > this.b.now && t <= end);
      const next = marks.length ? Math.min(...marks) : end;
      if (next - 1 > this.b.now) { this.b.tick(next - 1 - this.b.now); this.settle(); }
      this.act(() => {
        if (this.async && this.async.next === next) { if (this.socket) this.make(next); else this.missed = true; this.async.next += this.async.every; }
        const off = !this.socket;
        this.due.forEach(d => { if (d.at === next && off) { d.live = false; this.missed = true; } });
        this.b.tick(next - this.b.now);
      });
      this.settle();
    }
  }
  end() { out.traces++; out.trans += this.trace.length; out.states[js([this.b.sent.map(s => s.data.length), this.b.$(TEXT).value, this.b.store.sequence_numbers, !!this.socket])] = 1; out.outcomes[this.b.sent.length + ' sent'] = 1; }
}

/* ---- actions ---- */
const A = {
  now: u => { if (u.b.visible('submit-subtitle-button')) u.sending(() => u.b.click('submit-subtitle-button')); },
  enter: u => u.pressed('Enter'), space: u => u.pressed(' '), esc: u => u.pressed('Escape'), a: u => u.pressed('a'),
  typeX: u => u.b.set(TEXT, 'x one\nx <two> & "three"'), typeY: u => u.b.set(TEXT, 'y'),
  selA: u => u.b.set('sequence-selector', 'A'), selB: u => u.b.set('sequence-selector', 'B'),
  up: u => u.connect(true), refused: u => u.connect(false), down: u => u.lost(), disc: u => u.disconnect(),
  reload: u => u.reload(), again: u => u.create('A', {base: 'clock', mode: 'utc', group: 'H'}), newC: u => u.create('C', {base: 'clock', mode: 'utc'}), empty: u => u.create(''),
  token: u => u.b.set('ag-token-input', u.b.$('ag-token-input').value === '7' ? '8' : '7'), begin: u => u.b.set('body-begin-input', u.b.$('body-begin-input').value ? '' : '00:00:05'), dur: u => u.b.set('dur-input', '00:00:02'), end: u => u.b.set('body-end-input', '00:00:09'),
  msg: u => { u.b.set('ag-control-request-input', 'let <me> & "you"'); u.message(() => u.b.click('submit-ag-control-request-button')); },
  msgEnter: u => { u.b.set('ag-control-request-input', 'please'); u.message(() => u.b.key('ag-control-request-input', 'Enter')); },
  data: u => { if (u.socket) { const s = u.socket; s._fire('message', {data: 'x'}); if (!s.closing) fail('data', u.what() + ': the connection stays open'); u.lost(); } },
  live: u => u.b.click('radio_send'), sched: u => u.b.click('radio_schedule'), async: u => u.b.click('radio_async'),
  sync: u => { if (u.b.visible('synchronize-media-clock-button') && u.b.visible('scheduled-send-setup-div')) { u.b.click('synchronize-media-clock-button'); u.sync = u.b.now; } },
  in1: u => u.schedule(1), in3: u => u.schedule(3), past: u => u.schedule(-5),
  t1: u => u.tick(1000), t5: u => u.tick(5000),
  start05: u => u.start('0.5', 500), start2: u => u.start('2', 2000), startbad: u => u.start('x', 0), start0: u => u.start('0', 0), stop: u => { if (u.b.visible('asynchronous-send-stop-button')) { u.act(() => u.b.click('asynchronous-send-stop-button')); u.async = null; } }
};
User.prototype.pressed = function (k) {
  const b = this.b, mode = b.$('radio_send').checked;
  const before = b.$(TEXT).value, max = Number(b.$('max-lines').value);
  const press = () => b.key(TEXT, k);
  if (mode && k !== 'a') this.sending(press); else { this.act(press); this.settle(); }
  const after = b.$(TEXT).value;
  let want = before + k;
  if (k === 'Escape') want = '';
  if (k === 'Enter') { const l = before.split('\n'); want = max === 1 ? '' : l.slice(Math.max(0, l.length - (max - 1))).join('\n') + '\n'; }
  if (after !== want) fail('box', this.what() + ': the box has ' + js(after) + ' instead of ' + js(want) + ' (at most ' + max + ' lines)');
};
User.prototype.message = function (f) {
  const d = this.b.$('sequence-selector').value, text = this.b.$('ag-control-request-input').value;
  const on = !!this.socket;
  const n = this.b.sent.length;
  if (on && d) this.due.push({msg: true, seq: d, payload: text, at: this.b.now});
  this.act(f);
  if (this.b.sent.length - n !== (on && d ? 1 : on ? this.b.sent.length - n : 0)) fail('message:count', this.what() + ': ' + (this.b.sent.length - n) + ' messages are sent');
  if (on && d && this.b.$('ag-control-request-input').value !== '') fail('message:cleared', this.what() + ': the request stays');
  if (!on && this.b.$('ag-control-request-input').value !== text) fail('message:kept', this.what() + ': the request is gone, though not sent');
  this.settle();
};
User.prototype.schedule = function (s) {
  const b = this.b;
  if (!b.visible('schedule-subtitle-button') || !this.said()) return;
  const media = b.$('scheduled-send-clock-selector').value === 'media';
  if (media && this.sync === undefined) return;
  // whole seconds of the clock, the next after now
  const zero = media ? this.sync : Math.floor(b.now / 86400000) * 86400000 + this.offset;
  const t = Math.floor((b.now - zero) / 1000) + s;
  if (t < 0 || t >= 86400) return;
  const two = x => ('0' + x).slice(-2);
  b.set('scheduled-time-input', two(Math.floor(t / 3600)) + ':' + two(Math.floor(t / 60) % 60) + ':' + two(t % 60));
  const at = zero + t * 1000;
  this.make(at);
  const past = at <= b.now;
  if (past && !this.socket) { this.due[this.due.length - 1].live = false; this.missed = true; }
  this.act(() => { b.click('schedule-subtitle-button'); if (past) b.tick(0); });
  this.settle();
};
User.prototype.start = function (v, ms) {
  const b = this.b;
  if (!b.visible('asynchronous-send-start-button') || !this.said()) return;
  b.set('asynchronous-send-interval-input', v);
  this.act(() => b.click('asynchronous-send-start-button'));
  if (!this.async && ms > 0) this.async = {every: ms, next: b.now + ms};
  this.settle();
};

/* all sequences of actions of a length, each from the start (checked after every action) */
function histories(u, begin, alphabet, first, depth) {
  const go = (seq) => {
    if (seq.length < depth) { for (const a of alphabet) go(seq.concat([a])); return; }
    u.fresh(); u.used = {}; u.missed = false; u.made = 0; u.sync = undefined;
    begin(u);
    for (const a of seq) { u.does(a); A[a](u); }
    // a document that is sent in the end shows where the numbers are
    u.does('finally'); if (u.async) u.tick(u.async.every); A.live(u); if (u.async) { A.async(u); A.stop(u); A.live(u); } A.up(u); A.now(u); u.tick(7000);
    u.end();
  };
  go(first);
}
const two = u => { u.create('A', {base: 'media'}); u.create('B', {base: 'clock', mode: 'local', group: 'G'}); };
const sockets = b => b.sockets;

const F = {
  hist: (u, first, depth, on) => histories(u, v => { two(v); A.typeX(v); if (on) v.connect(true); }, HIST, first, depth),
  sched: (u, first, depth, media) => histories(u, v => { two(v); A.typeX(v); v.connect(true); A.sched(v); v.tick(250); if (media) { v.b.set('scheduled-send-clock-selector', 'media'); v.b.click('synchronize-media-clock-button'); v.sync = v.b.now; v.tick(333); } }, SCHED, first, depth),
  async: (u, first, depth) => histories(u, v => { two(v); A.typeX(v); v.connect(true); A.async(v); }, ASYNC, first, depth),
  keys: (u, max, first, depth) => histories(u, v => { two(v); v.connect(true); v.b.set('max-lines', String(max)); }, ['a', 'enter', 'space', 'esc'], first, depth),
  text: (u, c, n) => {
    u.fresh(); u.used = {}; two(u); u.connect(true);
    const go = (s, k) => {
      u.trace = ['text ' + js(s)]; u.b.set(TEXT, s); A.now(u); out.trans++; out.traces++;
      u.b.set('ag-control-request-input', s.replace(/\n/g, ' ')); if (s.replace(/\n/g, ' ').trim()) u.message(() => u.b.click('submit-ag-control-request-button'));
      u.b.sent.length = 0; u.checked = 0; u.used = {}; u.missed = true;
      if (k > 0) for (const x of CHARS) go(s + x, k - 1);
    };
    go(c, n - 1);
    out.outcomes.text = 1; out.states['text' + c] = 1;
  },
  ids: (u, c, n) => {
    const go = (s, k) => {
      if (!/^\s|\s$|\s\s|[\n\t]/.test(s)) for (const o of [{base: 'media', group: 'g' + s}, {base: 'clock', mode: 'utc'}]) {
        u.fresh(); u.used = {}; u.trace = ['sequence ' + js(s)]; u.create(s, o); u.connect(true); A.typeY(u); A.now(u); A.reload(u); u.connect(true); A.typeY(u); A.now(u); A.msg(u); u.end();
        u.feed(s);
      }
      if (k > 0) for (const x of CHARS) go(s + x, k - 1);
    };
    go(c, n - 1);
  },
  recv: (u, first, depth) => {
    const go = seq => {
      if (seq.length < depth) { for (const a of RECV) go(seq.concat([a])); return; }
      for (const sel of ['A', 'B', null]) {
        u.fresh(); u.used = {}; u.trace = seq.concat(['selected ' + sel]);
        if (sel) { two(u); A['sel' + sel](u); }
        u.received(seq);
        u.end();
      }
    };
    go(first);
  },
  far: u => {
    // hours and minutes ahead
    for (const media of [0, 1]) for (const at of [1, 59, 60, 61, 600, 3599, 3600, 3661, 36000, 45296, 82800, 86399]) {
      u.fresh(); u.used = {}; two(u); A.typeX(u); u.connect(true); A.sched(u); u.tick(250);
      if (media) { u.b.set('scheduled-send-clock-selector', 'media'); u.b.click('synchronize-media-clock-button'); u.sync = u.b.now; }
      const zero = media ? 0 : Math.floor((u.b.now - u.offset0()) / 1000);
      if (at <= zero) continue;
      u.trace = [(media ? 'media' : 'local') + ' clock at ' + (at - zero) + ' s from now']; u.schedule(at - zero); A.live(u); u.tick((at - zero - 2) * 1000); A.typeY(u); u.tick(3000); A.now(u); u.end();
    }
  },
  idle: u => {
    for (const mode of ['live', 'sched', 'async']) for (const clock of ['local', 'media', 'media local']) {
      u.fresh(); u.used = {}; two(u); u.trace = ['idle in mode ' + mode + ' with ' + clock + ' clock'];
      u.connect(true); A[mode](u);
      if (clock !== 'local') { u.b.set('scheduled-send-clock-selector', 'media'); u.b.click('synchronize-media-clock-button'); if (clock !== 'media') u.b.set('scheduled-send-clock-selector', 'local'); }
      const n = [];
      for (let i = 0; i < 4; i++) { u.b.tick(10000); n.push(u.b.timers.length); }
      if (Math.max(...n) > 6) fail('timers', u.what() + ': timers pending after 10, 20, 30, 40 s: ' + n);
      if (mode === 'sched') {
        const e = u.b.$(clock === 'media' ? 'running-clock-media' : 'running-clock');
        const t = clock === 'media' ? 40000 : (u.b.now - u.offset0());
        const want = [0, 1].map(d => { const s = Math.floor((t - d * 500) / 1000) % 86400; return [s / 3600, s / 60 % 60, s % 60].map(x => ('0' + Math.floor(x)).slice(-2)).join(':'); });
        if (!want.includes(e.textContent)) fail('clock', u.what() + ': the running clock shows ' + e.textContent + ' instead of ' + want[0]);
      }
      u.settle(); u.end();
    }
  }
};
/* (local midnight of the day of the simulation) */
User.prototype.offset0 = function () { const d = new Date(START); return new Date(d.getFullYear(), d.getMonth(), d.getDate()).getTime(); };
Object.defineProperty(User.prototype, 'offset', {get() { return this.offset0() - Math.floor(this.b.now / 86400000) * 86400000; }});

/* ---- what is received ---- */
const Q = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/"/g, '&quot;');
const docx = (num, sel, more) => `<tt:tt xmlns:tt="${TT}" xmlns:ebuttp="${EP}" xmlns:ebuttm="urn:ebu:tt:metadata" ebuttp:sequenceIdentifier="H" ebuttp:sequenceNumber="${num}"${sel ? ` ebuttm:authorsGroupSelectedSequenceIdentifier="${Q(sel)}"` : ''}${more || ''}><tt:body/></tt:tt>`;
const msgx = (sender, payload) => `<ebuttlm:message xmlns:ebuttp="${EP}" xmlns:ebuttlm="${LM}" ebuttp:sequenceIdentifier="H"><ebuttlm:header>${sender ? `<ebuttlm:sender>${Q(sender)}</ebuttlm:sender>` : ''}<ebuttlm:type>authorsGroupControlRequest</ebuttlm:type></ebuttlm:header><ebuttlm:payload>${Q(payload)}</ebuttlm:payload></ebuttlm:message>`;
const RECV = ['A1', 'B1', 'none', 'full', 'msg', 'msgno', 'ten'];
User.prototype.open2 = function () {
  const b = this.b, n = b.sockets.length;
  b.click('subscribe-websocket-connect-button');
  const s = b.sockets[n];
  if (!s || b.sockets.length !== n + 1) { fail('subscribe', this.what() + ': no connection'); return null; }
  return s;
};
User.prototype.feed = function (seq) {
  this.b.set('subscribe-sequence-input', seq);
  const s = this.open2();
  if (!s) return;
  const m = /^ws:\/\/127\.0\.0\.1:9001\/([^\/]*)\/subscribe$/.exec(s.url); let got = null;
  if (m && /^[A-Za-z0-9._~%-]*$/.test(m[1])) try { got = decodeURIComponent(m[1]); } catch (e) { got = null; }
  if (got !== this.b.$('subscribe-sequence-input').value) fail('subscribe:url', this.what() + ': connects to ' + s.url);
  s.readyState = 1; s._fire('open');
  this.act(() => s._fire('message', {data: docx(1, seq)}));
  if (this.b.$('sequence-selector').value === seq && !this.b.$('on-air-span').classList.contains('selected')) fail('onair', this.what() + ': not on air');
};
User.prototype.received = function (seq) {
  const b = this.b, s = this.open2();
  if (!s) return;
  s.readyState = 1; s._fire('open');
  let n = 0, air = false; const want = [];
  const selected = b.$('sequence-selector').value;
  const give = (xml, text, sel) => {
    const r = b.raised.length;
    s._fire('message', {data: xml});
    if (b.raised.length > r) fail('received:error', this.what() + ': ' + b.raised[r].toString().slice(0, 200));
    want.push([xml, text]);
    if (sel !== undefined) air = !!selected && sel === selected;
    if (b.$('on-air-span').classList.contains('selected') !== air) fail('onair', this.what() + ': on air is ' + !air + ' after a document of ' + js(sel) + ' with ' + js(selected) + ' selected');
    const items = b.$('result-list').getElementsByClassName('result-list-item');
    const last = want.slice(-10);
    if (items.length !== last.length) fail('received:count', this.what() + ': ' + items.length + ' are listed instead of ' + last.length);
    else items.forEach((e, i) => { for (const t of last[i][1]) { const p = e.getElementsByClassName(t[0])[0]; if (!p || p.textContent !== t[1]) fail('received:text', this.what() + ': ' + t[0] + ' of entry ' + i + ' is ' + js(p && p.textContent) + ' instead of ' + js(t[1])); } });
    out.trans++;
  };
  const plain = (num, sel) => give(docx(num, sel), [['seqNum-value', String(num)], ['autGID-value', ''], ['autGCT-value', '']], sel || null);
  for (const a of seq) {
    n++;
    if (a === 'A1') plain(n, 'A'); else if (a === 'B1') plain(n, 'B'); else if (a === 'none') plain(n);
    else if (a === 'full') give(docx(n, 'A', ' ebuttp:authorsGroupIdentifier="g&lt;&amp;" ebuttp:authorsGroupControlToken="5"'), [['seqNum-value', String(n)], ['autGID-value', 'g<&'], ['autGCT-value', '5']], 'A');
    else if (a === 'msg') give(msgx('me & <b>', 'pay <i>x</i>'), [['sender-value', 'me & <b>'], ['payload', 'pay <i>x</i>']]);
    else if (a === 'msgno') give(msgx('', 'pay'), [['sender-value', ''], ['payload', 'pay']]);
    else for (let i = 0; i < 9; i++) plain(100 * n + i, 'B');
  }
  // looking at one
  const items = b.$('result-list').getElementsByClassName('result-list-item');
  items.forEach((e, i) => {
    b.click(e.children[0] || e);
    if (!b.visible('result-view-pre') || b.visible('result-list') || b.$('result-view-pre').textContent !== want.slice(-10)[i][0]) fail('received:view', this.what() + ': entry ' + i + ' shows ' + js(b.$('result-view-pre').textContent.slice(0, 100)));
    b.click('result-view-pre');
    if (b.visible('result-view-pre') || !b.visible('result-list')) fail('received:back', this.what() + ': the list does not come back');
  });
  b.click('subscribe-websocket-connect-button');
  if (!s.closing) fail('unsubscribe', this.what() + ': the connection stays open');
  s.readyState = 3; s._fire('close', {});
  const t = this.open2();
  if (t) { t.readyState = 1; t._fire('open'); }
};

const HIST = ['now', 'enter', 'esc', 'typeX', 'selB', 'selA', 'down', 'up', 'reload', 'again', 'newC', 'token', 'begin', 'msg', 'data', 'disc', 'refused', 'dur', 'msgEnter', 'empty', 'end'].slice(0, spec[5] || 21);
const SCHED = ['in1', 'in3', 'past', 'typeY', 'selB', 't1', 't5', 'down', 'up', 'live', 'sched', 'now', 'reload', 'sync'];
const ASYNC = ['start05', 'start2', 'startbad', 'start0', 'stop', 'typeY', 'selB', 't1', 'down', 'up', 'live', 'async', 'reload'];
const CHARS = ['a', ' ', '&', '<', '>', '"', "'", '\n', '\u00e9', '\ud83d\ude00', ';', '{{ 1 }}', '%', '\t', '/', '+'];

const u = new User(new Browser(dir, START));
F[spec[0]](u, ...spec.slice(1));
out.states = Object.keys(out.states).map(s => require('crypto').createHash('md5').update(s).digest('hex').slice(0, 12)); out.outcomes = Object.keys(out.outcomes);
process.stdout.write(JSON.stringify(out));
