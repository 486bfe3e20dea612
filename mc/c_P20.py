# -*- coding: utf-8 -*-
"""Configured systems: the application made from a configuration, run on a simulated network and clock."""
import glob
import itertools
import json
import os
import re
import shutil
import sys
import tempfile
from fractions import Fraction as F
from mini import tt, parse, td
from present import Doc, seconds_of
import net
import c_P09

NEED_NLTK = True   # the producer splits its text into sentences

RULE = ('every configuration of a family is made into an application by the real configuration code, with real nodes and '
        'carriages, and run on real folders, a simulated network and a simulated clock; what ends up in each folder is compared '
        'with what the nodes named in it make of what was put in; the state is the configuration and the numbers that came out')
BOUNDS = {
    'quick': 'chains of one and two nodes of 6 types on pipes in 3 numberings; 3 sources and 2 sinks on 3 pipes in all 27 ways x 4 numberings; '
             '40 values of 13 parameters, as values and as text, in a file, on the command line and there in place of others in the file, and all defaults; 12 pairs of interval and segment length, 3 times to begin, both clocks; '
             '2 sides that connect x 1 or 2 receivers x 4 numberings on WebSocket; 22 mistakes; the example configurations that come with it',
    'thorough': 'as quick with chains of three nodes and all numberings',
}
ASSUMPTIONS = ['the clocks show the time of the simulation', 'a pipe has one reader', 'documents produced before a connection is made are not received']

START = {'local': 3600, 'utc': 7200}
KINDS = {'B': 'buffer-delay', 'R': 'retiming-delay', 'D': 'deduplicator', 'X': 'distributor', 'H': 'handover', 'E': 'ebuttd-encoder'}
HIST = {True: ['a1', 'a2', 'a1', 'a3'], False: ['a1', 'b1', 'a2', 'a1', 'b2', 'msg']}
_pipes = itertools.count()


def cases(tier):
    quick = tier == 'quick'
    for c in KINDS:
        for order in range(3):
            yield ['chain', c, order]
    for a in 'BRDXH':
        for b in KINDS:
            yield ['chain', a + b, 0]
            yield ['chain', a + b, 1]
            if not quick:
                yield ['chain', a + b, 2]
                for c in KINDS if b != 'E' else ():
                    yield ['chain', a + b + c, 0]
                    yield ['chain', a + b + c, 1]
    for k in range(4 if quick else 120):
        for a in range(3):
            yield ['fan', a, k]
    for i in range(len(PARAMS)):
        yield ['param', i]
        if is_plain(i):
            yield ['line', i]
    for i in range(len(TIMES)):
        for tb in ('local', 'utc'):
            yield ['times', i, tb]
    for b in BEGINS:
        yield ['begin', b]
    for i in range(4):
        yield ['intervals', i]
    for flip, two, order in itertools.product((0, 1), (0, 1), range(4)):
        yield ['ws', flip, two, order]
    for i in range(len(MISTAKES)):
        yield ['mistake', i]
    yield ['examples']
    yield ['numbers']


def content(name):
    try:
        with open(name) as f:
            return f.read().decode('utf-8')
    except IOError:
        if os.path.exists(name):
            raise
        return None


class App(object):
    """An application with folders of its own."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp-p20-')
        self.nodes, self.prefix = [], 'x%d-' % next(_pipes)
        self.net = net.Net()

    def pipe(self, name):
        return {'carriage': {'type': 'direct', 'id': self.prefix + name}}

    def folder(self, name, **options):
        return {'carriage': dict({'type': 'filesystem', 'folder': os.path.join(self.dir, name)}, **options)}

    def source(self, name, syms):
        """A folder of documents, to be read from"""
        d = os.path.join(self.dir, name)
        os.mkdir(d)
        with open(os.path.join(d, 'manifest_x.txt'), 'w') as m:
            for i, s in enumerate(syms):
                with open(os.path.join(d, '%d.xml' % i), 'w') as f:
                    f.write((text_of(s) if isinstance(s, str) else s).encode('utf-8'))
                m.write('00:00:%02d.000,%d.xml\n' % (50 + i, i))
        return {'carriage': {'type': 'filesystem', 'manifest_file': os.path.join(d, 'manifest_x.txt'), 'tail': False}}

    def node(self, kind, input=None, output=None, **options):
        n = dict({'type': kind}, **options)
        if input:
            n['input'] = input
        if output:
            n['output'] = output
        self.nodes.append(n)
        return n

    def make(self, order=None, numbers=None, backend={'type': 'twisted'}, line=None):
        from ebu_tt_live.config import create_app
        from ebu_tt_live.config.common import ConfigurableComponent
        from ebu_tt_live.clocks.local import LocalMachineClock
        from ebu_tt_live.clocks.utc import UTCClock
        n = self.net
        for cls, kind in ((LocalMachineClock, 'local'), (UTCClock, 'utc')):
            cls.get_real_clock_time = lambda self, kind=kind: td(START[kind]) + td(round(n.clock.seconds(), 6))
        ConfigurableComponent._backend = None
        nodes = [self.nodes[i] for i in order] if order else self.nodes
        numbers = numbers or range(1, len(nodes) + 1)
        src = {'nodes': dict((u'node%d' % k, x) for k, x in zip(numbers, nodes))}
        if backend:
            src['backend'] = backend
        # as it comes out of a file
        if line is not None:
            # as ebu-run does it
            name, before = os.path.join(self.dir, 'conf.json'), sys.argv
            with open(name, 'w') as f:
                json.dump(src, f)
            sys.argv = ['ebu-run', '--admin.conf=' + name] + line
            try:
                self.app = create_app()
            finally:
                sys.argv = before
            return self.app
        src = json.loads(json.dumps(src))
        self.app = create_app(values_source_list=[src])
        return self.app

    def run(self, seconds=0, step=0.0625):
        self.app.start()
        self.net.settle()
        for i in range(int(round(seconds / step))):
            self.net.advance(step)

    def manifests(self, name):
        """{manifest: [(time, file, text)]} of a folder"""
        d = os.path.join(self.dir, name)
        out = {}
        for f in sorted(os.listdir(d)):
            if f.startswith('manifest_'):
                lines = [l.rstrip('\n').split(',', 1) for l in open(os.path.join(d, f))]
                # (of a file that was rotated away only the name is left)
                out[f[9:-4]] = [(seconds_of(t), x, content(os.path.join(d, x))) for t, x in lines]
        return out

    def files(self, name):
        d = os.path.join(self.dir, name)
        # (a file may be rotated away meanwhile)
        return dict((f, x) for f, x in ((f, content(os.path.join(d, f))) for f in os.listdir(d)) if x is not None)

    def errors(self):
        return self.net.errors + self.net.raised

    def close(self):
        shutil.rmtree(self.dir, True)


def text_of(s):
    return c_P09.text_of('msg' if s == 'msg' else (s[0], int(s[1:])))


def order_of(k, n):
    """A few numberings: as written, backwards, turned, swapped"""
    o = list(range(n))
    return [o, o[::-1], o[1:] + o[:1], o[::2] + o[1::2]][k] if k < 4 else list(list(itertools.permutations(o))[k % len(list(itertools.permutations(o)))])


OWN = ['OUT', 'OUT2', 'OUT3']


def options(kind, own, as_text):
    t = (lambda x: str(x)) if as_text else (lambda x: x)
    return {'B': {'delay': t(7)}, 'R': {'delay': t(5), 'sequence_identifier': own}, 'D': {'sequence_identifier': own}, 'X': {},
            'H': {'authors_group_identifier': 'G', 'sequence_identifier': own}, 'E': {'media_time_zero': '00:00:00'}}[kind]


def chain_run(chain, k, ctx):
    app = App()
    try:
        syms = HIST[any(c in 'RDE' for c in chain)]
        for i, c in enumerate(chain):
            app.node(KINDS[c], app.source('in', syms) if i == 0 else app.pipe('p%d' % i),
                     app.folder('out') if i == len(chain) - 1 else app.pipe('p%d' % (i + 1)), **options(c, OWN[i], k % 2))
        # adapters are only chosen by the program between carriage and node, not between two nodes on a pipe
        adapt(app.nodes, chain)
        what = 'chain %s in order %d' % (chain, k)
        try:
            app.make(order_of(k, len(chain)), [2, 5, 7][:len(chain)] if k == 2 else None)
            app.run()
        except Exception as exc:
            ctx.fail('chain:error', '%s: %r' % (what, exc))
            return
        got = app.manifests('out')
        stages = [c_P09.Stage(c, OWN[i]) for i, c in enumerate(chain)]
        want = {}
        for n, s in enumerate(syms):
            items, refused, optional = c_P09.expect(stages, c_P09.Item('msg' if s == 'msg' else (s[0], int(s[1:]))))
            for i in items:
                # a message is listed with the time it is read with, too
                want.setdefault(i.seq, []).append((50 + n + (i.delay or 0), i))
        ctx.trans(len(syms))
        ctx.trace()
        ctx.state((chain, k, sorted((s, len(v)) for s, v in got.items())))
        ctx.outcome('%d sequences' % len(got))
        if 'E' in chain:
            # repetitions may be converted again
            have = [c_P09.seen_as(x, {}, ctx, what)[3] for x in (f for v in app.files('out').items() if not v[0].startswith('manifest') for f in [v[1]])]
            ctx.check(set(have) == set(i.text for v in want.values() for _, i in v), 'chain:encoder', lambda: '%s: %r comes out' % (what, have))
            return
        if all(c in 'B' for c in chain):
            have = sorted(v for f, v in app.files('out').items() if not f.startswith('manifest'))
            ctx.check(len(have) == 0 or all(h in [text_of(s) for s in syms] for h in have), 'chain:verbatim', lambda: what)
            return
        for s in set(got) | set(want):
            g = [(t, c_P09.seen_as(x, {}, ctx, what)[:4]) for t, f, x in got.get(s, [])]
            w = [(t, ('msg', i.seq, 's', [u'r1', u'r2']) if i.msg else ('doc', i.seq, str(i.num), i.text)) for t, i in want.get(s, [])]
            ctx.check([x[1] for x in g] == [x[1] for x in w], 'chain:documents', lambda: '%s: sequence %s has %r instead of %r' % (what, s, g, w))
            for (t, x), (u, y) in zip(g, w):
                if x[0] == 'doc':
                    ctx.check(t == u, 'chain:time', lambda: '%s: %r of sequence %s is listed at %s instead of %s' % (what, x, s, t, u))
    finally:
        app.close()


def adapt(nodes, chain):
    from ebu_tt_live import node as n
    cls = {'B': n.BufferDelayNode, 'R': n.RetimingDelayNode, 'D': n.DeDuplicatorNode, 'X': n.DistributingNode, 'H': n.HandoverNode, 'E': n.EBUTTDEncoder}
    for i in range(len(chain) - 1):
        out, inn = cls[chain[i]].provides(), cls[chain[i + 1]].expects()
        if out is unicode and inn is not unicode:
            nodes[i + 1]['input'] = dict(nodes[i + 1]['input'], adapters=[{'type': 'xml->ebutt3'}])
        elif out is not unicode and inn is unicode:
            nodes[i]['output'] = dict(nodes[i]['output'], adapters=[{'type': 'ebutt3->xml'}])


def fan_run(first, k, ctx):
    """Three sources write to pipes, two sinks read from pipes."""
    names = ['one', 'One', 'one ']
    for rest in itertools.product(range(3), repeat=2):
        to = (first,) + rest
        used = sorted(set(to))
        app = App()
        try:
            for i, p in enumerate(to):
                app.node('distributor', app.source('in%d' % i, ['%s%d' % ('abc'[i], n) for n in (1, 2)]), app.pipe(names[p]))
            for p in used:
                app.node('distributor', dict(app.pipe(names[p]), adapters=[{'type': 'xml->ebutt3'}]), app.folder('out%d' % p))
            what = 'pipes %r in order %d' % (to, k)
            try:
                app.make(order_of(k, len(app.nodes)))
                app.run()
            except Exception as exc:
                ctx.fail('fan:error', '%s: %r' % (what, exc))
                continue
            for p in used:
                got = dict((s, [x for _, _, x in v]) for s, v in app.manifests('out%d' % p).items())
                want = dict(('abc'[i], [text_of('%s%d' % ('abc'[i], n)) for n in (1, 2)]) for i in range(3) if to[i] == p)
                ctx.check(got == want, 'fan:documents', lambda: '%s: at the end of pipe %r are %r' % (what, names[p], dict((s, len(v)) for s, v in got.items())))
            ctx.trans(6)
            ctx.trace()
            ctx.state((to, k))
            ctx.outcome('fan %d' % len(used))
        finally:
            app.close()


# parameters: (node type, options, what comes out: {sequence: [(time, text, begin)]} or a function of the folder)
def times_of(xml):
    r = parse(xml)
    return [n.get('begin') for n in r.iter() if n.get('begin')]


PARAMS = []
for _v in (0, 1, 2.5, 70, '3', '0.25', 3600):
    PARAMS.append(('retiming-delay', {'delay': _v}, ('begin', float(_v))))
    PARAMS.append(('buffer-delay', {'delay': _v}, ('listed', float(_v))))
for _v in ('S', u'S\xe9', 'a b', 'A.b-c'):
    for _k in ('retiming-delay', 'deduplicator', 'handover'):
        if _v != u'S\xe9':
            PARAMS.append((_k, dict({'sequence_identifier': _v}, **({'authors_group_identifier': 'G'} if _k == 'handover' else {})), ('sequence', _v)))
PARAMS += [('retiming-delay', {}, ('sequence', 'RetimedSequence1')), ('retiming-delay', {}, ('begin', 0.0)), ('deduplicator', {}, ('sequence', 'DeDuplicated1')),
           ('buffer-delay', {}, ('listed', 0.0)), ('distributor', {}, ('listed', 0.0)), ('distributor', {}, ('begin', 0.0))]
for _v, _w in (('G', 2), ('g', 0), ('', 0), ('AuthorsGroup1', 0), (None, 0)):
    PARAMS.append(('handover', {} if _v is None else {'authors_group_identifier': _v}, ('count', _w)))
for _v in (True, False, 'true', 'false', 'True', None):
    PARAMS.append(('ebuttd-encoder', {'media_time_zero': '00:00:00'} if _v is None else {'media_time_zero': '00:00:00', 'default_namespace': _v}, ('prefix', str(_v).lower() == 'true')))
for _v in ('00:00:00', '00:00:01', '00:00:00.5'):
    PARAMS.append(('ebuttd-encoder', {'media_time_zero': _v}, ('mtz', seconds_of(_v))))
for _k in ('local', 'utc', None):
    for _m in ('current', None):
        _o = {}
        if _k:
            _o['clock'] = {'type': _k}
        if _m:
            _o['media_time_zero'] = _m
        PARAMS.append(('ebuttd-encoder', _o, ('current', START[_k or 'local'])))
for _v in (0, 1, 2, 3, '2'):
    PARAMS.append(('folder', {'rotating_buf': _v}, ('kept', int(_v) or 4)))
for _v in (True, False, 'true', 'false'):
    PARAMS.append(('folder', {'suppress_manifest': _v}, ('manifest', str(_v).lower() == 'false')))
PARAMS += [('folder', {'filename_pattern': 'x{counter}-{sequence_identifier}.y'}, ('names', ['x1-a.y', 'x2-a.y', 'x3-a.y', 'x4-a.y'])),
           ('folder', {'filename_pattern': 'x{counter:03d}.xml'}, ('names', ['x001.xml', 'x002.xml', 'x003.xml', 'x004.xml'])),
           ('folder', {}, ('names', ['a_1.xml', 'a_2.xml', 'a_3.xml', 'a_4.xml'])),
           ('messages', {}, ('names', ['a_msg_1.xml', 'a_msg_2.xml'])),
           ('messages', {'message_filename_pattern': 'm-{counter}-{sequence_identifier}'}, ('names', ['m-1-a', 'm-2-a']))]


def is_plain(i):
    kind, opts, _ = PARAMS[i]
    # (what is yes or no is a flag on the command line)
    return bool(opts) and not any(isinstance(v, bool) or str(v).lower() in ('true', 'false', '') for v in opts.values())


def flat(opts, prefix):
    for k, v in sorted(opts.items()):
        if isinstance(v, dict):
            for x in flat(v, prefix + [k]):
                yield x
        else:
            yield prefix + [k], v


def line_run(i, ctx):
    """The same, with the parameters on the command line: instead of none, or of other ones, in the file."""
    kind, opts, _ = PARAMS[i]
    others = dict((k, [o[k] for x, o, _ in PARAMS if x == kind and k in o and o[k] != v and not isinstance(o[k], bool)]) for k, v in opts.items())
    params = list(flat(opts, ['nodes', 'node1'] + (['output', 'carriage'] if kind in ('folder', 'messages') else [])))
    for one_word in (True, False):
        line = []
        for path, v in params:
            name = '--' + '.'.join(path)
            line += ['%s=%s' % (name, v)] if one_word else [name, str(v)]
        param_run(i, ctx, opts, [])
        param_run(i, ctx, {}, line)
        for n in range(2):
            if all(len(o) > n for o in others.values()):
                param_run(i, ctx, dict((k, o[n]) for k, o in others.items()), line)


def param_run(i, ctx, given=None, line=None):
    kind, opts, (aspect, want) = PARAMS[i]
    app = App()
    try:
        what = '%s with %r' % (kind, opts)
        if line is not None:
            what += ' (%r in the file, %r on the command line)' % (given, line)
            opts = given
        syms, start = ['a1', 'a2'], 1
        tb = 'media'
        if aspect == 'current':
            syms = [tt(u'<tt:body><tt:div><tt:p xml:id="p" begin="%02d:00:09" end="%02d:00:12">x</tt:p></tt:div></tt:body>' % (want / 3600, want / 3600), seq='a', num=1)]
        elif aspect == 'mtz':
            syms = [tt(u'<tt:body><tt:div><tt:p xml:id="p" begin="00:00:09" end="00:00:12">x</tt:p></tt:div></tt:body>', seq='a', num=1)]
        if kind in ('folder', 'messages'):
            syms = ['msg', 'msg'] if kind == 'messages' else ['a1', 'a2', 'a3', 'a4']
            app.node('distributor', app.source('in', syms), app.folder('out', **opts))
        else:
            app.node(kind, app.source('in', syms), app.pipe('p'), **opts)
            # what has been through a buffer has no labels of its own
            app.node('distributor', app.pipe('p'), app.folder('out'))
            if kind == 'ebuttd-encoder':
                app.nodes.pop()
                app.nodes[-1]['output'] = app.folder('out')
            else:
                adapt(app.nodes, [c for c in KINDS if KINDS[c] == kind][0] + 'X')
        try:
            app.make(line=line)
            app.run()
        except Exception as exc:
            ctx.fail('param:error:' + aspect, '%s: %r' % (what, exc))
            return
        if aspect == 'kept':
            import time
            for _ in range(100):
                docs = [f for f in app.files('out') if not f.startswith('manifest')]
                if len(docs) <= want:
                    break
                time.sleep(0.1)
        man, files = app.manifests('out'), app.files('out')
        docs = dict((f, x) for f, x in files.items() if not f.startswith('manifest'))
        if aspect == 'begin':
            got = [[seconds_of(b) for b in times_of(docs[f])] for f in sorted(docs)]
            ok = got == [[1 + want], [1 + want]]
        elif aspect == 'listed':
            got = [t for v in man.values() for t, _, _ in v]
            ok = got == [50 + want, 51 + want]
        elif aspect == 'sequence':
            got = (sorted(man), [parse(x).get('sequenceIdentifier') for x in docs.values()])
            ok = got == ([want], [want] * 2)
        elif aspect == 'count':
            got = len(docs)
            ok = got == want
        elif aspect == 'prefix':
            got = [re.search(u'<tt[ >]', x) is not None for x in docs.values()], [re.search(u'<tt:tt[ >]', x) is not None for x in docs.values()]
            ok = got == ([want] * 2, [not want] * 2)
        elif aspect in ('mtz', 'current'):
            got = [[seconds_of(b) for b in times_of(x)] for x in docs.values()]
            ok = got == [[9 - want if aspect == 'mtz' else 9]]
        elif aspect == 'kept':
            got = sorted(docs)
            ok = got == ['a_%d.xml' % n for n in range(5 - want, 5)]
        elif aspect == 'manifest':
            got = sorted(man)
            ok = got == (['a'] if want else [])
        else:
            got = sorted(docs)
            ok = got == want
        ctx.check(ok, 'param:' + aspect, lambda: '%s: %s is %r (should be by %r)' % (what, aspect, got, want))
        ctx.trans()
        ctx.trace()
        ctx.state(what)
        ctx.outcome(aspect)
    finally:
        app.close()


# producer and re-sequencer: interval, segment length
# (all of them sums of powers of two, so that sums of steps of time are exact)
TIMES = [(1, 1.5), (0.5, 1.25), (0.75, 1.125), (1, 2.25), (0.375, 0.875), ('1', '1.5')]


def shown(xml, lo, hi):
    """[(begin, end, text)] in a document"""
    out = []
    for b, e, path, text in Doc(xml).pieces(styles=False, keep=()):
        out.append((b, min(e, hi), text))
    return sorted(out)


def times_run(i, clock, ctx):
    interval, length = TIMES[i]
    app = App()
    try:
        what = 'producer every %r, segments of %r, %s clock' % (interval, length, clock)
        app.node('simple-producer', None, app.pipe('p'), show_time=True, sequence_identifier='P', interval=interval, clock={'type': clock})
        app.node('resequencer', app.pipe('p'), app.folder('out'), sequence_identifier='Q', segment_length=length, clock={'type': clock})
        try:
            app.make()
            app.run(9)
        except Exception as exc:
            ctx.fail('times:error', '%s: %r' % (what, exc))
            return
        t, l, zero = F(str(interval)), F(str(length)), START[clock]
        ticks = [k for k in range(1, 200) if k * l <= 9 + F(1, 1000)]
        man = app.manifests('out')
        if not ctx.check(man.keys() == ['Q'], 'times:sequence', lambda: '%s: sequences %r come out' % (what, man.keys())):
            return
        got = man['Q']
        # a document is there from its production; the first segment follows it
        first = [k for k in ticks if k * l > t]
        ctx.check(len(got) in (len(first), len(first) - (abs(ticks[-1] * l - 9) < F(1, 100))), 'times:count', lambda: '%s: %d segments come out instead of %d' % (what, len(got), len(first)))
        made = [(k, zero + k * t + 1) for k in range(1, 200)]
        for j, (listed, f, xml) in enumerate(got):
            lo, hi = zero + j * l, zero + (j + 1) * l
            now = first[j] * l
            root = parse(xml)
            ctx.check(root.get('sequenceNumber') == str(j + 1) and root.get('sequenceIdentifier') == 'Q', 'times:number',
                      lambda: '%s: segment %d is %s %s' % (what, j + 1, root.get('sequenceIdentifier'), root.get('sequenceNumber')))
            want = []
            for n, (k, b) in enumerate(made):
                if k * t > now:
                    break
                e = min(b + 1, made[n + 1][1] if (k + 1) * t <= now else b + 1)
                if min(e, hi) > max(b, lo):
                    want.append((float(max(b, lo)), float(min(e, hi)), b))
            have = [(b, e, seconds_of(x)) for b, e, x in shown(xml, float(lo), float(hi))]
            # a document produced at the moment of a segment may come before or after it, and then differs only in what follows the segment
            close = lambda p, q: len(p) == len(q) and all(abs(float(x) - float(y)) < 0.0021 for u, v in zip(p, q) for x, y in zip(u, v))
            ctx.check(close(have, want), 'times:content', lambda: '%s: segment %d shows %r instead of %r' % (what, j + 1, have, [tuple(float(y) for y in x) for x in want]))
            ctx.trans()
        ctx.trace()
        ctx.state((str(interval), str(length), clock, len(got)))
        ctx.outcome('segments')
    finally:
        app.close()


BEGINS = ['immediate', '01:00:03', '01:00:04.5', '01:00:10', None]


def begin_run(begin, ctx):
    app = App()
    try:
        what = 'begin_output %r' % begin
        app.node('simple-producer', None, app.pipe('p'), interval=0.25)
        app.node('resequencer', app.pipe('p'), app.folder('out'), segment_length=1.0, **({} if begin is None else {'begin_output': begin}))
        app.make()
        app.app.start()
        app.net.settle()
        start = 0 if begin in ('immediate', None) else seconds_of(begin) - START['local']
        seen = []
        for i in range(52):
            app.net.advance(0.125)
            now = (i + 1) * 0.125
            n = len([f for f in app.files('out') if f.startswith('ReSequenced1_')])
            want = [int(max(0, now - start + d) + 1e-9) for d in (-0.05, 0.05)]
            ctx.check(n in want, 'begin:count', lambda: '%s: after %s s, %d segments are out instead of %r' % (what, now, n, want))
            seen.append(n)
            ctx.trans()
        ctx.trace()
        ctx.state((begin, seen))
        ctx.outcome('begin')
    finally:
        app.close()


def intervals_run(i, ctx):
    """Two producers, each at its own pace; the default pace; the end"""
    a, b = [(0.5, 1.5), (2.0, 0.75), (None, 0.5), ('1', None)][i]
    app = App()
    try:
        opts = lambda v: {} if v is None else {'interval': v}
        app.node('simple-producer', None, app.pipe('p'), sequence_identifier='A', **opts(a))
        app.node('simple-producer', None, app.pipe('q'), **opts(b))
        for p in 'pq':
            app.node('distributor', app.pipe(p), app.folder('out'))
        app.make(order_of(i, 4))
        app.run(7.625)
        for s, v in (('A', a), ('TestSequence1', b)):
            got = [parse(x).get('sequenceNumber') for _, _, x in app.manifests('out').get(s, [])]
            want = [str(k) for k in range(1, int(7.625 / float(v or 2)) + 1)]
            ctx.check(got == want, 'intervals', lambda: 'producer %s every %r s emits %r in 7.625 s' % (s, v, got))
            ctx.trans(len(want))
        ctx.trace()
        ctx.state(i)
        ctx.outcome('intervals')
    finally:
        app.close()


def ws_run(flip, two, k, ctx):
    """A producer and one or two distributors behind WebSocket, whichever side connects."""
    app = App()
    try:
        what = 'WebSocket: the %s connects, %d receivers, order %d' % ('producer' if flip else 'receiver', two + 1, k)
        ports = [9101, 9102][:two + 1]
        if flip:
            out = {'carriage': {'type': 'websocket', 'connect': ['ws://localhost:%d/W/publish' % p for p in ports]}}
        else:
            out = {'carriage': {'type': 'websocket', 'listen': 'ws://localhost:9100'}}
        app.node('simple-producer', None, out, sequence_identifier='W', interval=0.5)
        for n, p in enumerate(ports):
            inp = {'carriage': {'type': 'websocket', 'listen': 'ws://localhost:%d' % p} if flip else {'type': 'websocket', 'connect': ['ws://localhost:9100/W/subscribe']}}
            app.node('distributor', inp, app.folder('out%d' % n))
        # a stranger that must get nothing
        app.node('distributor', {'carriage': {'type': 'websocket', 'listen': 'ws://localhost:9109'} if flip else {'type': 'websocket', 'connect': ['ws://localhost:9100/w/subscribe']}}, app.folder('none'))
        try:
            app.make(order_of(k, len(app.nodes)))
            app.app.start()
            # connections are made as soon as the reactor runs; a side that connects before the other listens is told so
            app.net.settle()
            for i in range(26):
                app.net.advance(0.125)
        except Exception as exc:
            ctx.fail('ws:error', '%s: %r' % (what, exc))
            return
        ctx.check(not app.errors() and not app.net.failed, 'ws:error', lambda: '%s: %r %r' % (what, app.errors(), app.net.failed))
        for n in range(two + 1):
            got = [(s, parse(x).get('sequenceNumber')) for s, v in app.manifests('out%d' % n).items() for _, _, x in v]
            ctx.check(got == [('W', str(j)) for j in range(1, 7)], 'ws:documents', lambda: '%s: receiver %d gets %r' % (what, n, got))
        ctx.check(not app.files('none'), 'ws:none', lambda: '%s: a stranger gets %r' % (what, sorted(app.files('none'))))
        ctx.trans(6)
        ctx.trace()
        ctx.state((flip, two, k))
        ctx.outcome('ws')
    finally:
        app.close()


IN, OUT = {'carriage': {'type': 'direct', 'id': 'mistake'}}, {'carriage': {'type': 'direct', 'id': 'mistake2'}}
MISTAKES = [
    ({'type': 'nothing'}, {}), ({'type': 'Distributor'}, {}), ({'type': ''}, {}), ({'input': {'carriage': {'type': 'nothing'}}}, {}),
    ({'output': {'carriage': {'type': 'nothing'}}}, {}), ({'input': {'carriage': {'type': 'Direct'}}}, {}), ({'output': {'carriage': {'type': ''}}}, {}),
    ({'input': dict(IN, adapters=[{'type': 'nothing'}])}, {}), ({'output': dict(OUT, adapters=[{'type': 'xml->xml'}])}, {}),
    ({'input': {'carriage': {'type': 'websocket', 'listen': 'ws://localhost:1', 'proxy': 'nonsense'}}}, {}),
    ({'output': {'carriage': {'type': 'websocket', 'listen': 'ws://localhost:1', 'proxy': 'host:port'}}}, {}),
    ({'type': 'simple-consumer', 'clock': {'type': 'nothing'}}, {}), ({'type': 'resequencer', 'clock': {'type': 'nothing'}}, {}),
    ({'type': 'resequencer', 'segment_length': 'long'}, {}), ({'type': 'retiming-delay', 'delay': 'long'}, {}), ({'type': 'buffer-delay', 'delay': 'x1'}, {}),
    ({'type': 'ebuttd-encoder', 'media_time_zero': 'tomorrow'}, {}), ({'type': 'resequencer', 'begin_output': 'tomorrow'}, {}),
    ({'output': {'carriage': {'type': 'filesystem', 'rotating_buf': 'many'}}}, {}), ({'input': {'carriage': {'type': 'filesystem', 'manifest_file': '/nonexistent/m.txt'}}}, {}),
    ({}, {'type': 'nothing'}), ({'type': 'retiming-delay', 'input': dict(IN, adapters=[{'type': 'ebuttd->xml'}])}, {}),
    ({'type': 'simple-producer', 'interval': 'often'}, {}), ({'type': 'simple-producer', 'clock': {'type': 'nothing'}}, {}),
]


def mistake_run(i, ctx):
    change, backend = MISTAKES[i]
    app = App()
    try:
        n = {'type': 'distributor', 'input': IN, 'output': OUT}
        n.update(change)
        n = json.loads(json.dumps(n))
        c = n['output']['carriage']
        if c['type'] == 'filesystem':
            c['folder'] = os.path.join(app.dir, 'out')
        app.nodes.append(n)
        try:
            app.make(backend=backend or {'type': 'twisted'})
            ok = False
        except (Exception, SystemExit):
            ok = True
        ctx.check(ok, 'mistake', lambda: 'a configuration with %r %r is accepted' % (change, backend))
        ctx.check(not app.net.servers and not app.net.connects, 'mistake:open', lambda: 'a configuration with %r is refused and opens connections' % (change,))
        ctx.trans()
        ctx.trace()
        ctx.state(i)
        ctx.outcome('refused')
    finally:
        app.close()


def numbers_run(ctx):
    """All the numbers a node may have, and looking nodes up by them."""
    for numbers in [(1,), (2,), (7,), (8,), (9,), (1, 9), (2, 4, 6), (3, 5), tuple(range(1, 10)), (9, 8, 7)]:
        app = App()
        try:
            for n in numbers:
                app.node('distributor', app.source('in%d' % n, ['a%d' % n]), app.folder('out%d' % n), id='n%d' % n)
            try:
                a = app.make(numbers=numbers)
                app.run()
                ids = [a.get_node('node%d' % n).component.node_id for n in numbers]
            except Exception as exc:
                ctx.fail('numbers', 'nodes %r: %r' % (numbers, exc))
                continue
            got = [n for n in numbers if app.files('out%d' % n).get('a_%d.xml' % n) == text_of('a%d' % n)] if all(
                os.path.isdir(os.path.join(app.dir, 'out%d' % n)) for n in numbers) else []
            ctx.check(got == list(numbers) and ids == ['n%d' % n for n in numbers], 'numbers', lambda: 'nodes %r: only %r run, found as %r' % (numbers, got, ids))
            ctx.trans(len(numbers))
            ctx.trace()
            ctx.state(numbers)
        finally:
            app.close()


def examples_run(ctx):
    """The configurations that are shipped can be made and run."""
    import ebu_tt_live
    for f in sorted(glob.glob(os.path.join(os.path.dirname(ebu_tt_live.__file__), 'examples', 'config', '*.json'))):
        name = os.path.basename(f)
        app = App()
        try:
            try:
                src = json.load(open(f))
            except ValueError as exc:
                ctx.fail('examples:json:%s' % name, '%s is no JSON: %s' % (name, exc))
                continue
            tails = False
            for k, n in sorted(src['nodes'].items()):
                if not k.startswith('node'):
                    continue
                for side in ('input', 'output'):
                    c = n.get(side, {}).get('carriage', {})
                    if c.get('folder'):
                        c['folder'] = os.path.join(app.dir, c['folder'])
                    if c.get('id'):
                        c['id'] = app.prefix + c['id']
                    if c.get('manifest_file'):
                        tails = True
                app.nodes.append(n)
            if tails:
                continue
            try:
                app.make(numbers=[int(k[4:]) for k in sorted(src['nodes']) if k.startswith('node')])
                app.run(5, 0.1)
            except Exception as exc:
                ctx.fail('examples', '%s: %r' % (name, exc))
                continue
            ctx.check(not app.errors(), 'examples', lambda: '%s: %r' % (name, app.errors()))
            ctx.trans()
            ctx.trace()
            ctx.state(name)
        finally:
            app.close()


def run(case, ctx):
    {'chain': chain_run, 'fan': fan_run, 'param': param_run, 'line': line_run, 'times': times_run, 'begin': begin_run, 'intervals': intervals_run,
     'ws': ws_run, 'mistake': mistake_run, 'examples': examples_run, 'numbers': numbers_run}[case[0]](*(case[1:] + [ctx]))
