# -*- coding: utf-8 -*-
"""Resolution of a sequence: every arrival order of small sets of documents on the real sequence object."""
import copy
import itertools
from mini import tt, td, secs, clock

RULE = ('a case is a set of documents (sequence number, begin, end); every arrival order is run on the real sequence; '
        'after every arrival the resolved times, which documents are discarded and what is active in every range are '
        'compared with the definition; the state is the set of resolved times after an arrival')
BOUNDS = {
    'quick': 'all sets of 1..3 documents with begins in 0..3 and ends in {later up to 4, never}, all arrival orders; '
             'all sets of 4 documents over 3 begins and 2 ends each, all 24 orders; range queries over all half-unit '
             'ranges for sets of up to 3; consecutive and gapped numbers; a refused document after every arrival',
    'thorough': 'all sets of up to 4 documents with begins in 0..3 and ends in {later up to 4, never}, all arrival orders',
}
ASSUMPTIONS = ['a document is active from its computed begin up to the earliest of its computed end and the computed '
               'begin of any later-numbered document received; if that is empty, it is discarded']

_cache = {}
BIG = 10 ** 6


def proto(num, b, e, seq='seq1', tb='clock', extra=''):
    from ebu_tt_live.documents import EBUTT3Document
    key = (num, b, e, seq, tb, extra)
    if key not in _cache:
        end = '' if e is None else ' end="%s"' % clock(e)
        xml = tt('<tt:body begin="%s"%s><tt:div><tt:p xml:id="p%d">n%d</tt:p></tt:div></tt:body>' % (clock(b), end, num, num),
                 seq=seq, num=num, tb=tb, extra=extra)
        _cache[key] = EBUTT3Document.create_from_xml(xml)
    # a document of its own: the wrapper holds everything that is resolved later
    return copy.copy(_cache[key])


def intervals(tmax, never=True):
    out = []
    for b in range(tmax):
        for e in list(range(b + 1, tmax + 1)) + ([None] if never else []):
            out.append((b, e))
    return out


def cases(tier):
    full = intervals(4)
    small = [(b, e) for b in (0, 1, 2) for e in (b + 1, 3, None) if (e is None or e > b)]
    small = sorted(set(small), key=lambda x: (x[0], x[1] or BIG))
    yield ['compat']
    for n in (1, 2):
        for ivs in itertools.product(full, repeat=n):
            yield ['all', [list(i) for i in ivs], 'ranges']
    for i, ivs in enumerate(itertools.product(full, repeat=3)):
        yield ['all', [list(x) for x in ivs], 'ranges' if i % 7 == 0 or tier == 'thorough' else '']
    if tier == 'quick':
        four = [(0, 2), (0, None), (1, 2), (1, 3), (2, 3)]
    else:
        four = full
    for ivs in itertools.product(four, repeat=4):
        yield ['all', [list(x) for x in ivs], '']
    for g in ([5, 6, 9], [1, 10, 100]):
        for ivs in itertools.product([(0, 3), (1, None), (1, 2), (2, 4)], repeat=3):
            yield ['gap', [list(x) for x in ivs], g]
    # zero-length documents
    zero = [(0, 2), (1, 1), (1, 3), (0, None), (2, 2)]
    for ivs in itertools.product(zero, repeat=3):
        if any(b == e for b, e in ivs):
            yield ['all', [list(x) for x in ivs], '']


def actual(iv):
    b, e = iv
    # an end that is not after the begin voids the timing of the body
    return (0, None) if e is not None and e <= b else (b, e)


def resolve(present):
    """present: {num: (b, e)}; the definition."""
    out = {}
    for n, (b, e) in present.items():
        end = BIG if e is None else e
        for m, (mb, me) in present.items():
            if m > n:
                end = min(end, mb)
        out[n] = (b, end)
    return out


def run_history(order, docs, ctx, ranges, numbers):
    from ebu_tt_live.documents import EBUTT3DocumentSequence
    from ebu_tt_live.errors import SequenceNumberCollisionError
    seq = None
    present = {}
    objs = {}
    for step, i in enumerate(order):
        num, (b, e) = numbers[i], docs[i]
        d = proto(num, b, e)
        if seq is None:
            seq = EBUTT3DocumentSequence.create_from_document(d)
        seq.add_document(d)
        objs[num] = d
        present[num] = actual((b, e))
        ctx.trans()
        want = resolve(present)
        what = 'arrivals %s (number, begin, end)' % [(numbers[j],) + tuple(docs[j]) for j in order[:step + 1]]
        obs = []
        for n in sorted(objs):
            o = objs[n]
            rb, re = o.resolved_begin_time, o.resolved_end_time
            gone = bool(re is not None and rb >= re)
            obs.append((n, 'gone') if gone else (n, secs(rb), secs(re)))
        exp = [(n, 'gone') if want[n][0] >= want[n][1] else (n, want[n][0], None if want[n][1] == BIG else want[n][1])
               for n in sorted(want)]
        ctx.state(obs)
        if not ctx.check(obs == exp, 'resolved', lambda: '%s: resolved to %r, should be %r' % (what, obs, exp)):
            return None
        for n in sorted(want):
            if want[n][0] < want[n][1]:
                try:
                    found = seq.get_document(n)
                except (KeyError, IndexError):
                    found = None
                ctx.check(found is objs[n], 'number', lambda: '%s: document %d is not found by its number' % (what, n))
        try:
            seq.get_document(max(want) + 1)
            ctx.fail('number', '%s: a document with a number that did not arrive is found' % what)
        except KeyError:
            pass
        if ranges and step == len(order) - 1 or ranges == 'always':
            check_ranges(seq, objs, want, ctx, what)
    ctx.trace()
    ctx.outcome('%d of %d live' % (sum(1 for x in obs if len(x) == 3), len(obs)))
    return seq, objs, present


def check_ranges(seq, objs, want, ctx, what):
    pts = [x / 2.0 for x in range(0, 11)]
    for a in pts + [None]:
        for z in pts + [None]:
            if a is not None and z is not None and a >= z:
                continue
            lo, hi = -1 if a is None else a, BIG * 2 if z is None else z
            exp = sorted((b, n) for n, (b, e) in want.items() if b < e and b < hi and e > lo)
            exp = [n for _, n in exp]
            got = [d.sequence_number for d in seq.lookup_range_on_timeline(begin=td(a), end=td(z))]
            if not ctx.check(got == exp, 'active', lambda: '%s: in [%s, %s) the active documents are %r, should be %r' % (what, a, z, got, exp)):
                return


def observe(seq, objs):
    return [(n, secs(o.resolved_begin_time), secs(o.resolved_end_time)) for n, o in sorted(objs.items())]


def compat(ctx):
    """Documents that do not belong are refused and change nothing, in every state of a small sequence."""
    from ebu_tt_live.documents import EBUTT3DocumentSequence, EBUTT3Document
    from ebu_tt_live.errors import SequenceNumberCollisionError, IncompatibleSequenceError, UnexpectedAuthorsGroupError
    base = [(1, 0, 4), (2, 1, 3), (4, 2, None)]

    def agi(num, b, e, name):
        return proto(num, b, e, extra='ebuttp:authorsGroupIdentifier="%s" ebuttp:authorsGroupControlToken="1"' % name)
    for k in range(1, 4):
        for order in itertools.permutations(base, k):
            for agroup in (None, 0, k - 1):
                for bad in ('dup', 'dup2', 'seq', 'tb', 'mode', 'agi', 'dup-agi'):
                    seq, objs, present = None, {}, {}
                    for i, (n, b, e) in enumerate(order):
                        d = agi(n, b, e, 'A') if agroup == i else proto(n, b, e)
                        if seq is None:
                            seq = EBUTT3DocumentSequence.create_from_document(d)
                        seq.add_document(d)
                        objs[n] = d
                        present[n] = (b, e)
                    before = observe(seq, objs), seq.authors_group_identifier, seq.last_sequence_number
                    live = [n for n, (b, e) in resolve(present).items() if b < e]
                    if bad == 'dup':
                        x, err = proto(live[0], 0, 1), SequenceNumberCollisionError
                    elif bad == 'dup-agi':
                        x, err = agi(live[0], 0, 1, 'Z'), (SequenceNumberCollisionError, UnexpectedAuthorsGroupError)
                    elif bad == 'dup2':
                        x, err = proto(live[-1], 2, None), SequenceNumberCollisionError
                    elif bad == 'seq':
                        x, err = proto(3, 0, 1, seq='other'), IncompatibleSequenceError
                    elif bad == 'tb':
                        x, err = proto(3, 0, 1, tb='media'), IncompatibleSequenceError
                    elif bad == 'mode':
                        x = EBUTT3Document.create_from_xml(tt('<tt:body begin="00:00:00"/>', num=3).replace('"local"', '"utc"'))
                        err = IncompatibleSequenceError
                    else:
                        if agroup is None:
                            continue
                        x, err = agi(3, 0, 1, 'B'), UnexpectedAuthorsGroupError
                    ctx.trans()
                    try:
                        seq.add_document(x)
                        ctx.fail('accepted:%s' % bad, 'arrivals %r, group at %r: a %s document was accepted' % (order, agroup, bad))
                        continue
                    except err:
                        pass
                    ctx.trace()
                    after = observe(seq, objs), seq.authors_group_identifier, seq.last_sequence_number
                    ctx.check(before == after, 'changed:%s' % bad,
                              'arrivals %r: refusing a %s document changed %r to %r' % (order, bad, before, after))
                    # the sequence still works: the next document is accepted and resolved
                    y = proto(9, 3, 5)
                    seq.add_document(y)
                    present[9] = (3, 5)
                    objs[9] = y
                    want = resolve(present)
                    got = [(n, secs(o.resolved_begin_time), secs(o.resolved_end_time)) for n, o in sorted(objs.items())
                           if want[n][0] < want[n][1]]
                    exp = [(n,) + want[n] for n in sorted(want) if want[n][0] < want[n][1]]
                    ctx.check(got == exp, 'after:%s' % bad, 'arrivals %r, refused %s, then 9: %r should be %r' % (order, bad, got, exp))
                    ctx.state((bad, got))


def run(case, ctx):
    if case[0] == 'compat':
        return compat(ctx)
    docs = [tuple(x) for x in case[1]]
    n = len(docs)
    numbers = case[2] if case[0] == 'gap' else list(range(1, n + 1))
    ranges = 'always' if case[0] == 'gap' else case[2]
    for order in itertools.permutations(range(n)):
        try:
            run_history(order, docs, ctx, ranges, numbers)
        except Exception as exc:
            ctx.fail('raised:%s' % type(exc).__name__, 'arrivals among %s raised %s: %s' % (
                [(numbers[j],) + tuple(docs[j]) for j in order], type(exc).__name__, exc))
