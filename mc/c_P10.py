# -*- coding: utf-8 -*-
"""Handover: every short history of arriving documents against the 'who claimed control most recently' algorithm."""
import itertools
from mini import tt, secs, parse
from harness import sink, source

RULE = ('a case is a prefix of a history of documents (sequence, number, control token, authors group); all '
        'continuations up to the depth are run through a real handover node; what is emitted is compared with the '
        'algorithm after every step; the state is (selected sequence, token, number of documents emitted)')
BOUNDS = {
    'quick': 'all histories of up to 3 documents over 17 kinds (3 sequences, 2 numbers, 4 tokens, 3 groups) and of up '
             'to 5 over 9 kinds; repetitions after 1, 50 and 99 other documents; live messages in between',
    'thorough': 'all histories of up to 5 documents over 17 kinds and of up to 6 over 9 kinds',
}
ASSUMPTIONS = ['a number is remembered as long as fewer than 100 other numbers of its sequence have followed']

N = None
# sequence, number, token, group
BIG = [('a', 1, 1, 'G'), ('a', 2, 1, 'G'), ('a', 2, 2, 'G'), ('a', 1, 3, 'G'), ('a', 3, N, 'G'), ('a', 4, 2, N),
       ('b', 1, 1, 'G'), ('b', 2, 2, 'G'), ('b', 3, 2, 'G'), ('b', 2, 3, 'G'), ('b', 4, N, 'G'), ('b', 5, 3, 'H'),
       ('c', 1, 2, 'G'), ('c', 2, 3, 'H'), ('c', 3, 10, 'G'), ('c', 4, 1, 'G'), ('c', 5, N, N)]
SMALL = [('a', 1, 1, 'G'), ('a', 2, 3, 'G'), ('a', 3, N, 'G'), ('b', 1, 2, 'G'), ('b', 2, 1, 'G'), ('b', 3, 9, 'G'),
         ('b', 3, 10, 'G'), ('c', 1, 3, 'G'), ('a', 4, 2, 'H')]
_docs = {}


def document(sym):
    from ebu_tt_live.documents import EBUTT3Document
    seq, num, token, group = sym
    if sym not in _docs:
        extra = ''
        if group is not None:
            extra += ' ebuttp:authorsGroupIdentifier="%s"' % group
        if token is not None:
            extra += ' ebuttp:authorsGroupControlToken="%d"' % token
        _docs[sym] = EBUTT3Document.create_from_xml(tt('<tt:body begin="00:00:01"><tt:div><tt:p xml:id="p">%s%d</tt:p></tt:div></tt:body>' % (seq, num), seq=seq, num=num, extra=extra))
    d = _docs[sym]
    d.sequence_identifier = seq
    d.sequence_number = num
    d.authors_group_selected_sequence_identifier = None
    return d


class Model(object):
    def __init__(self):
        self.selected = self.token = None
        self.count = 0
        self.seen = {}
        self.groups = {}

    def copy(self):
        m = Model()
        m.selected, m.token, m.count = self.selected, self.token, self.count
        m.seen = dict((k, list(v)) for k, v in self.seen.items())
        m.groups = dict(self.groups)
        return m

    def step(self, sym):
        """None, 'refused' or the emitted (number, selected sequence)"""
        seq, num, token, group = sym
        if self.groups.get(seq) is None:
            self.groups[seq] = group
        elif group is not None and group != self.groups[seq]:
            return 'refused'
        if num in self.seen.setdefault(seq, []):
            return None
        self.seen[seq].append(num)
        if group != 'G' or token is None:
            return None
        if self.token is None or token > self.token:
            self.selected = seq
        elif self.selected != seq:
            return None
        self.token = token
        self.count += 1
        return (self.count, seq)


def capture(out):
    """Keep what an emitted document is when it is emitted."""
    got = []

    def emit(data, **kwargs):
        got.append((data, (data.sequence_identifier, data.sequence_number, data.authors_group_selected_sequence_identifier,
                           data.authors_group_control_token, data.authors_group_identifier)
                    if hasattr(data, 'authors_group_control_token') else None, kwargs))
    out.emit_data = emit
    return got


def node():
    from ebu_tt_live.node.handover import HandoverNode
    from ebu_tt_live.documents import EBUTT3Document
    out, inp = sink(EBUTT3Document), source(EBUTT3Document)
    HandoverNode(node_id='h', authors_group_identifier='G', sequence_identifier='OUT', producer_carriage=out, consumer_carriage=inp)
    return inp, capture(out)


def cases(tier):
    deep = {'quick': (3, 5), 'thorough': (5, 6)}[tier]
    for name, alphabet, d in (('BIG', BIG, deep[0]), ('SMALL', SMALL, deep[1])):
        for a in range(len(alphabet)):
            for b in range(len(alphabet)):
                yield ['hist', name, [a, b], d]
    yield ['memory']
    yield ['messages']


def feed(inp, got, m, sym, ctx, hist):
    from ebu_tt_live.errors import UnexpectedAuthorsGroupError
    d = document(sym)
    n = len(got)
    want = m.step(sym)
    refused = False
    ctx.trans()
    try:
        inp.on_new_data(d)
    except UnexpectedAuthorsGroupError:
        refused = True
    what = 'arrivals %r' % (hist,)
    if not ctx.check(refused == (want == 'refused'), 'refused', lambda: '%s: the last one is %s' % (what, 'refused' if refused else 'not refused')):
        return False
    if want in (None, 'refused'):
        return ctx.check(len(got) == n, 'emitted', lambda: '%s: the last one is emitted' % what)
    if not ctx.check(len(got) == n + 1, 'not emitted', lambda: '%s: %d documents emitted for the last one' % (what, len(got) - n)):
        return False
    data, ident, kwargs = got[-1]
    exp = ('OUT', want[0], want[1], sym[2], 'G')
    return ctx.check(data is d and ident == exp, 'identity', lambda: '%s: emitted %r should be %r' % (what, ident, exp))


def run(case, ctx):
    if case[0] == 'memory':
        return memory(ctx)
    if case[0] == 'messages':
        return messages(ctx)
    alphabet = {'BIG': BIG, 'SMALL': SMALL}[case[1]]
    prefix = [alphabet[i] for i in case[2]]
    for rest in itertools.product(alphabet, repeat=case[3] - 2):
        inp, got = node()
        m = Model()
        hist = []
        for sym in prefix + list(rest):
            hist.append(sym)
            if not feed(inp, got, m, sym, ctx, hist):
                break
        ctx.trace()
        ctx.state((m.selected, m.token, m.count, sorted((k, v) for k, v in m.groups.items())))
        ctx.outcome('%d emitted' % m.count)
    # the content is passed on as it is
    inp, got = node()
    m = Model()
    for sym in prefix:
        before = document(sym).get_xml()
        n = len(got)
        if feed(inp, got, m, sym, ctx, prefix) and len(got) > n:
            a, b = parse(before), parse(got[-1][0].get_xml())
            for r in (a, b):
                for k in ('sequenceIdentifier', 'sequenceNumber', 'authorsGroupSelectedSequenceIdentifier'):
                    r.attrs.pop(k, None)
            ctx.check(a.canon() == b.canon(), 'content', lambda: 'arrivals %r: the content changed' % (prefix,))


def memory(ctx):
    for between in (1, 50, 99):
        for token in (1, 2):
            inp, got = node()
            m = Model()
            hist = [('a', 1000, 1, 'G')] + [('a', i, 1, 'G') for i in range(1, between + 1)] + [('b', 1, 2, 'G'), ('a', 1000, 1 + token, 'G'), ('b', 1, 9, 'G')]
            for i, sym in enumerate(hist):
                if not feed(inp, got, m, sym, ctx, hist[max(0, i - 3):i + 1]):
                    break
            ctx.trace()


def messages(ctx):
    from ebu_tt_live.documents import EBUTTAuthorsGroupControlRequest
    for hist in itertools.product([('a', 1, 1, 'G'), ('b', 1, 2, 'G'), ('a', 2, 1, 'G'), 'msg:a', 'msg:b'], repeat=4):
        inp, got = node()
        m = Model()
        for i, sym in enumerate(hist):
            if isinstance(sym, tuple):
                if not feed(inp, got, m, sym, ctx, hist[:i + 1]):
                    break
                continue
            msg = EBUTTAuthorsGroupControlRequest(sequence_identifier=sym[4:], sender='s', recipient=['r1', 'r2'], payload='please')
            n = len(got)
            inp.on_new_data(msg)
            ctx.trans()
            ok = len(got) == n + 1 and got[-1][0] is msg and (msg.sequence_identifier, msg.sender, msg.recipient, msg.payload) == ('OUT', 's', ['r1', 'r2'], 'please')
            ctx.check(ok, 'message', lambda: 'arrivals %r: the message is not passed on' % (hist[:i + 1],))
        ctx.trace()
