# -*- coding: utf-8 -*-
"""Stream discipline: chains of processing nodes from text to text, against the composition of what each node says it does."""
import itertools
from mini import tt, parse, td, secs
from harness import sink, source, FixedClock

RULE = ('a case is a chain of nodes, wired as the configuration wires them (text in, direct carriage between, text out) '
        'and a set of histories of arriving documents and messages, repetitions, strangers and documents with an own '
        'identifier of a node included; after every arrival what comes out is compared with the composition of the '
        'models of the nodes; the state is (chain, what each node remembers)')
BOUNDS = {
    'quick': 'nodes: handover, retiming delay, deduplicator, distributor, buffer delay, EBU-TT-D encoder; every chain of '
             'one node with all histories of 3 of 6 arrivals, of two nodes with all histories of 2 of 6, of three '
             'nodes with 3 histories of 5; a distributor with all histories of 4 over 5; a consumer with all histories of 3',
    'thorough': 'one node: 4 of 6, two nodes: 3 of 6, three nodes: 2 of 6, a distributor 6 over 5, a consumer 5',
}
ASSUMPTIONS = ['a deduplicator may drop live messages, and an encoder does', 'an encoder may convert a repeated document again',
               'a repetition of a document of a second sequence may be refused or ignored']

NODES = 'HRDXB'
SYMS = [('a', 1), ('a', 2), ('b', 1), ('OUT', 1), ('OUT2', 2), 'msg']
TOKENS = {'a': 1, 'b': 2}


def cases(tier):
    quick = tier == 'quick'
    one = [c for c in NODES] + ['E']
    two = [a + b for a in NODES for b in NODES + 'E']
    three = [a + b for a in two if a[1] != 'E' for b in NODES + 'E']
    for c in one:
        for s in range(len(SYMS)):
            yield ['chain', c, [s], 3 if quick else 4]
    for c in two:
        if quick:
            yield ['chain', c, [], 2]
        else:
            for s in range(len(SYMS)):
                yield ['chain', c, [s], 3]
    for c in three:
        if quick:
            yield ['fixed', c]
        else:
            yield ['chain', c, [], 2]
            yield ['fixed', c]
    for s in range(5):
        yield ['distributor', s, 4 if quick else 6]
    for s in range(6):
        yield ['consumer', s, 3 if quick else 5]


FIXED = [[('a', 1), 'msg', ('a', 1), ('b', 1), ('a', 2)], [('b', 1), ('OUT', 1), ('OUT2', 2), ('b', 2), ('b', 1)],
         [('OUT', 1), 'msg', ('a', 2), ('a', 1), ('OUT', 2)]]
_xml = {}


def text_of(sym):
    if sym not in _xml:
        if sym == 'msg':
            from ebu_tt_live.documents import EBUTTAuthorsGroupControlRequest
            x = EBUTTAuthorsGroupControlRequest(sequence_identifier='a', sender='s', recipient=['r1', 'r2'], payload='please').get_xml()
        else:
            seq, num = sym
            x = tt('<tt:body><tt:div><tt:p xml:id="p" begin="00:00:01" end="00:00:04">%s%d</tt:p></tt:div></tt:body>' % (seq, num), seq=seq, num=num,
                   tb='media', extra=' ebuttp:authorsGroupIdentifier="G" ebuttp:authorsGroupControlToken="%d"' % TOKENS.get(seq, 3))
        _xml[sym] = x if isinstance(x, unicode) else x.decode('utf-8')
    return _xml[sym]


class Item(object):
    def __init__(self, sym=None, **kw):
        if sym == 'msg':
            self.msg, self.seq = True, 'a'
        elif sym:
            self.msg, self.seq, self.num, self.text, self.token, self.shift, self.sel = False, sym[0], sym[1], '%s%d' % sym, TOKENS.get(sym[0], 3), 0, None
        self.delay = None

    def copy(self, **kw):
        i = Item()
        i.__dict__.update(self.__dict__)
        i.__dict__.update(kw)
        return i


class Stage(object):
    """One node as its description says: step(item) -> list of items, or 'refused', or 'maybe' (refused or ignored)."""

    def __init__(self, kind, own):
        self.kind, self.own, self.seen, self.first, self.token, self.sel, self.count = kind, own, set(), None, None, None, 0
        self.strangers = set()

    def step(self, i):
        k = self.kind
        if k == 'B':
            return [i.copy(delay=(i.delay or 0) + 7)]
        if i.msg:
            if k in 'DE':
                return []
            return [i.copy(seq=self.own)] if k == 'H' else [i]
        key = (i.seq, i.num)
        if k == 'X':
            if key in self.seen:
                return []
            self.seen.add(key)
            return [i]
        if k in 'RD':
            if i.seq == self.own:
                return 'refused'
            if self.first is None:
                self.first = i.seq
            if i.seq != self.first:
                again = key in self.strangers
                self.strangers.add(key)
                return 'maybe' if again else 'refused'
            if key in self.seen:
                return []
            self.seen.add(key)
            return [i.copy(seq=self.own, shift=i.shift + (5 if k == 'R' else 0))]
        if k == 'E':
            if self.first is None:
                self.first = i.seq
            if i.seq != self.first:
                return 'refused'
            again = key in self.seen
            self.seen.add(key)
            return 'again' if again else [i.copy(seq='default', num=None)]
        if key in self.seen:
            return []
        self.seen.add(key)
        if self.token is None or i.token > self.token:
            self.sel = i.seq
        elif self.sel != i.seq:
            return []
        self.token = i.token
        self.count += 1
        return [i.copy(seq=self.own, num=self.count, sel=i.seq)]

    def memory(self):
        return (self.kind, sorted(self.seen), self.first, self.token, self.sel, self.count)


def build(chain):
    from ebu_tt_live import node as nodes
    from ebu_tt_live.adapters import document_data as dd
    from ebu_tt_live.adapters.node_carriage import ProducerNodeCarriageAdapter, ConsumerNodeCarriageAdapter
    from ebu_tt_live.carriage.direct import DirectCarriageImpl
    made, stages, used = [], [], {}
    for k in chain:
        n = used[k] = used.get(k, 0) + 1
        own = 'OUT' if not stages else 'OUT2' if len(stages) == 1 else 'OUT3'
        stages.append(Stage(k, own))
        nid = '%s%d' % (k, n)
        made.append({'H': lambda: nodes.HandoverNode(node_id=nid, authors_group_identifier='G', sequence_identifier=own),
                     'R': lambda: nodes.RetimingDelayNode(node_id=nid, fixed_delay=5, document_sequence=own),
                     'D': lambda: nodes.DeDuplicatorNode(node_id=nid, sequence_identifier=own),
                     'X': lambda: nodes.DistributingNode(node_id=nid),
                     'B': lambda: nodes.BufferDelayNode(node_id=nid, fixed_delay=7),
                     'E': lambda: nodes.EBUTTDEncoder(node_id=nid, media_time_zero=td(0))}[k]())
    inp, out = source(unicode), sink(unicode)
    ConsumerNodeCarriageAdapter(consumer_node=made[0], consumer_carriage=inp)
    for a, b in zip(made, made[1:]):
        direct = DirectCarriageImpl()
        if a.provides() is unicode and b.expects() is not unicode:
            pa, ca = None, [dd.XMLtoEBUTT3Adapter()]
        elif a.provides() is not unicode and b.expects() is unicode:
            pa, ca = [dd.EBUTT3toXMLAdapter()], None
        else:
            pa = ca = None
        ProducerNodeCarriageAdapter(producer_node=a, producer_carriage=direct, data_adapters=pa)
        ConsumerNodeCarriageAdapter(consumer_node=b, consumer_carriage=direct, data_adapters=ca)
    ProducerNodeCarriageAdapter(producer_node=made[-1], producer_carriage=out)
    return inp, out, stages


def expect(stages, item):
    """(items that come out, refused: yes/no/maybe)"""
    items, refused, optional = [item], 'no', False
    for s in stages:
        nxt = []
        for i in items:
            r = s.step(i)
            if r == 'again':
                return [], 'no', True
            if r == 'refused':
                return [], 'yes', False
            if r == 'maybe':
                return [], 'maybe', False
            nxt += r
        items = nxt
    return items, refused, optional


def seen_as(xml, kwargs, ctx, what):
    r = parse(xml)
    if r.tag != 'tt':
        text = dict((e.tag, e.text()) for e in r.iter() if e.tag in ('sender', 'recipient', 'payload'))
        recip = [e.text() for e in r.iter('recipient')]
        return ('msg', r.get('sequenceIdentifier'), text.get('sender'), recip, text.get('payload'))
    p = list(r.iter('p'))
    begin = [n.get('begin') for n in r.iter() if n.get('begin')]
    return ('doc', r.get('sequenceIdentifier'), r.get('sequenceNumber'), p[0].text() if p else None, begin,
            r.get('authorsGroupSelectedSequenceIdentifier'), r.get('authorsGroupControlToken'))


def arrive(inp, out, stages, sym, ctx, what, avail):
    from ebu_tt_live.errors import UnexpectedSequenceIdentifierError
    n = len(out.got)
    items, refused, optional = expect(stages, Item(sym))
    kwargs = {}
    if avail and sym != 'msg':
        kwargs['availability_time'] = td(50)
    got_refused = False
    ctx.trans()
    try:
        inp.on_new_data(text_of(sym), **kwargs)
    except UnexpectedSequenceIdentifierError:
        got_refused = True
    if refused != 'maybe' and not ctx.check(got_refused == (refused == 'yes'), 'refused', lambda: '%s: the last one is %s' % (what(), 'refused' if got_refused else 'not refused')):
        return False
    if optional:
        return True
    if not ctx.check(len(out.got) - n == len(items), 'emitted', lambda: '%s: for the last one %d come out instead of %d' % (what(), len(out.got) - n, len(items))):
        return False
    for i, xml, kw in zip(items, out.got[n:], out.kwargs[n:]):
        if not ctx.check(isinstance(xml, basestring), 'type', lambda: '%s: %r comes out instead of text' % (what(), type(xml))):
            return False
        got = seen_as(xml, kw, ctx, what)
        if i.msg:
            want = ('msg', i.seq, 's', ['r1 r2'], 'please')
            if got[0] == 'msg':
                got = got[:3] + ([' '.join(' '.join(got[3]).split())],) + got[4:]
        elif stages[-1].kind == 'E':
            want = ('doc', None, None, i.text, ['00:00:%02d' % (1 + i.shift)], None, None)
        else:
            want = ('doc', i.seq, str(i.num), i.text, ['00:00:%02d' % (1 + i.shift)], i.sel, str(i.token))
            got = got[:4] + ([b[:8] for b in got[4]],) + got[5:]
        if not ctx.check(got == want, 'content', lambda: '%s: %r comes out instead of %r' % (what(), got, want)):
            return False
        if any(s.kind != 'B' for s in stages):
            ok = kw.get('sequence_identifier') == i.seq and (i.msg or kw.get('sequence_number') == i.num or stages[-1].kind == 'E')
            if not ctx.check(ok, 'label', lambda: '%s: comes out as %r, should be %r' % (what(), kw, i.__dict__)):
                return False
            if avail and not i.msg and stages[-1].kind not in 'E':
                if not ctx.check(kw.get('availability_time') == td(50), 'availability', lambda: '%s: comes out with %r' % (what(), kw)):
                    return False
        if not ctx.check(kw.get('delay') == i.delay, 'delay', lambda: '%s: comes out to be delayed by %r instead of %r' % (what(), kw.get('delay'), i.delay)):
            return False
        if all(s.kind in 'BX' for s in stages) and (stages[-1].kind == 'B' or not i.msg):
            if not ctx.check(xml == text_of(sym), 'verbatim', lambda: '%s: the text changed' % what()):
                return False
    return True


def run(case, ctx):
    if case[0] == 'consumer':
        return consumer(case, ctx)
    if case[0] == 'distributor':
        return distributor(case, ctx)
    if case[0] == 'fixed':
        hists = FIXED
    else:
        hists = [[SYMS[i] for i in case[2]] + list(rest) for rest in itertools.product(SYMS, repeat=case[3] - len(case[2]))]
    for n, hist in enumerate(hists):
        inp, out, stages = build(case[1])
        for k, sym in enumerate(hist):
            if not arrive(inp, out, stages, sym, ctx, lambda: 'chain %s, arrivals %r' % (case[1], hist[:k + 1]), n % 2):
                break
        ctx.trace()
        ctx.state((case[1], [s.memory() for s in stages]))
        ctx.outcome('%d come out' % len(out.got))


def distributor(case, ctx):
    """Documents handed over as objects, with and without their text."""
    from ebu_tt_live.documents import EBUTT3Document, EBUTTAuthorsGroupControlRequest
    from ebu_tt_live.node import DistributingNode
    alphabet = [('a', 1, True), ('a', 2, False), ('b', 1, True), ('a', 1, False), 'msg']
    docs = {}
    for sym in alphabet[:4]:
        docs[sym[:2]] = EBUTT3Document.create_from_xml(text_of(sym[:2]))
    msg = EBUTTAuthorsGroupControlRequest.create_from_xml(text_of('msg'))
    xml = dict((k, d.get_xml()) for k, d in docs.items())
    for rest in itertools.product(alphabet, repeat=case[2] - 1):
        inp, out = source(EBUTT3Document), sink(unicode)
        DistributingNode(node_id='x', consumer_carriage=inp, producer_carriage=out)
        seen = set()
        hist = [alphabet[case[1]]] + list(rest)
        for k, sym in enumerate(hist):
            n = len(out.got)
            ctx.trans()
            if sym == 'msg':
                inp.on_new_data(msg)
                ok = len(out.got) == n + 1 and seen_as(out.got[-1], {}, ctx, None)[0] == 'msg'
            else:
                inp.on_new_data(docs[sym[:2]], **({'raw_xml': text_of(sym[:2])} if sym[2] else {}))
                want = [] if sym[:2] in seen else [text_of(sym[:2]) if sym[2] else xml[sym[:2]]]
                seen.add(sym[:2])
                ok = out.got[n:] == want and all((kw['sequence_identifier'], kw['sequence_number'], kw['time_base']) == sym[:2] + ('media',) for kw in out.kwargs[n:])
            if not ctx.check(ok, 'distributor', lambda: 'arrivals %r: %r comes out for the last one' % (hist[:k + 1], out.kwargs[n:])):
                break
        ctx.trace()


def consumer(case, ctx):
    from ebu_tt_live.documents import EBUTT3Document
    from ebu_tt_live.node import SimpleConsumer
    from ebu_tt_live.errors import UnexpectedSequenceIdentifierError
    alphabet = [('a', 1, None), ('a', 2, 40), ('a', 3, 0), ('b', 1, None), ('a', 2, None), 'msg']
    body = '<tt:body begin="00:%02d:00" end="01:00:00"><tt:div><tt:p xml:id="p">x</tt:p></tt:div></tt:body>'
    for rest in itertools.product(alphabet, repeat=case[2] - 1):
        hist = [alphabet[case[1]]] + list(rest)
        inp = source(EBUTT3Document)
        now = FixedClock(10)
        c = SimpleConsumer(node_id='c', consumer_carriage=inp, reference_clock=now)
        first, have = None, {}
        for k, sym in enumerate(hist):
            now.now = 10 + k
            what = 'arrivals %r' % (hist[:k + 1],)
            ctx.trans()
            if sym == 'msg':
                from ebu_tt_live.documents import EBUTTAuthorsGroupControlRequest
                inp.on_new_data(EBUTTAuthorsGroupControlRequest(sequence_identifier='a', sender='s', recipient=['r'], payload='p'))
                continue
            key = sym[:2]
            if key not in _docs:
                _docs[key] = EBUTT3Document.create_from_xml(tt(body % (sym[1] * 10), seq=sym[0], num=sym[1]))
            d = _docs[key].copy() if hasattr(_docs[key], 'copy') else EBUTT3Document.create_from_xml(tt(body % (sym[1] * 10), seq=sym[0], num=sym[1]))
            if sym[2] is not None:
                d.availability_time = td(sym[2])
            refused = False
            try:
                inp.on_new_data(d)
            except UnexpectedSequenceIdentifierError:
                refused = True
            if first is None:
                first = sym[0]
            if not ctx.check(refused == (sym[0] != first), 'consumer:refused', lambda: '%s: the last one is %s' % (what, refused)):
                break
            if not refused:
                have.setdefault(sym[1], (d, sym[2] if sym[2] is not None else now.now))
                if not ctx.check(d.availability_time == td(sym[2] if sym[2] is not None else now.now), 'consumer:availability', lambda: '%s: available at %r' % (what, d.availability_time)):
                    break
            got = dict((n, c._sequence.get_document(n)) for n in have)
            if not ctx.check(all(got[n] is have[n][0] for n in have), 'consumer:sequence', lambda: '%s: the sequence has other documents' % what):
                break
            if not ctx.check(all(secs(got[n].availability_time) == have[n][1] for n in have), 'consumer:moved', lambda: '%s: an availability time changed' % what):
                break
        ctx.trace()
        ctx.state(('consumer', first, sorted((n, v[1]) for n, v in have.items())))


_docs = {}
