# -*- coding: utf-8 -*-
"""The filesystem output: the folder is looked at after every line executed (any of them may be the last one before a
kill), and read back at the end."""
import io
import itertools
import os
import shutil
import sys
import tempfile
from mini import tt, td

RULE = ('a case is a configuration of the output and the first writing of a history; all histories up to the depth are '
        'written to a real folder, and the folder is examined at every executed line of the carriage (each is a '
        'possible point of a kill) and read back with the real reader at the end; the state is the content of the folder')
BOUNDS = {
    'quick': 'histories of up to 3 writings over 9 kinds (2 sequences, with and without availability time and delay, '
             'text beyond ASCII, long text, messages, EBU-TT-D, a restart), 4 configurations (manifest or not, rotating '
             'buffer of 0, 1 and 2 files); all lines of text of 5 alphabets and 14 availability times read back',
    'thorough': 'histories of up to 4 writings',
}
ASSUMPTIONS = ['a kill loses nothing that the operating system has been given', 'sequence identifiers are of ASCII characters that a file name may contain',
               'numbers of a sequence are not written twice', 'availability times are kept to the millisecond']

LONG = u'<tt>' + u'0123456789' * 3000 + u'</tt>'
# kind: (sequence, availability, delay, text)
KINDS = {
    'a': ('a', 3723.5, None, u'<tt>plain %d</tt>'),
    'a-delay': ('a', 10, 2.25, u'<tt>delayed %d</tt>'),
    'a-now': ('a', None, None, u'<tt>now %d</tt>'),
    'a-text': ('a', 3.25, None, u'<tt>caf\xe9 \u20ac \u0434 %d</tt>'),
    'a-long': ('a', 86401, None, LONG + u'%d'),
    'b': ('b,c', 5, None, u'<tt>other %d</tt>'),
    'msg': ('a', 7, None, u'<message %d/>'),
    'ttd': ('default', None, None, u'<ttd %d/>'),
    'restart': None,
}
NAMES = sorted(KINDS)
CONFIGS = {'plain': (0, False), 'nomanifest': (0, True), 'rot1': (1, False), 'rot2': (2, True)}
ALPHABETS = [u'ascii', u'caf\xe9', u'\u20ac\u0434\u4e2d', u'a\nb\n', u'\U0001d11e\u2028\x85']
TIMES = [0, 0.001, 0.999, 1, 59.999, 60, 3599.25, 3600, 86399.999, 86400, 90061.5, 360000, 3600000.125, 7]


def cases(tier):
    depth = 3 if tier == 'quick' else 4
    for config in sorted(CONFIGS):
        for a in NAMES:
            for b in NAMES:
                yield [config, [a, b], depth]
    yield ['roundtrip']


def clock_text(seconds):
    ms = int(round(seconds * 1000))
    return '%02d:%02d:%02d.%03d' % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000)


class World(object):
    """What was written and what the folder has to be like."""

    def __init__(self, config, ctx, hist):
        self.rot, self.suppress = CONFIGS[config]
        self.dir = tempfile.mkdtemp(prefix='vp-p12-')
        self.ctx, self.hist, self.config = ctx, hist, config
        self.files = []      # names in the order of writing, this run of the program
        self.older = []      # names left by earlier runs
        self.content = {}    # name -> text
        self.manifest = {}   # sequence -> [(availability text or None, name)]
        self.number = {}
        self.current = None  # (name, sequence)
        self.bad = False
        self.points = 0
        self.start()

    def start(self):
        from ebu_tt_live.carriage.filesystem import FilesystemProducerImpl
        from ebu_tt_live.utils import RotatingFileBuffer
        self.older += self.files
        self.files = []
        self.msgs = 0
        self.clocks = set()
        args = dict(dirpath=os.path.join(self.dir, 'out'), suppress_manifest=self.suppress)
        self.out = FilesystemProducerImpl(circular_buf_size=self.rot, **args)

    def path(self, name):
        return os.path.join(self.dir, 'out', name)

    def read(self, name):
        try:
            with io.open(self.path(name), 'rb') as f:
                return f.read()
        except (IOError, OSError):
            return None

    def kept(self):
        return self.files if not self.rot else self.files[-self.rot:]

    def may_go(self, name):
        """With a rotating buffer the oldest file goes once the new one is complete."""
        return (self.rot and self.current and len(self.files) >= self.rot and name == self.files[-self.rot] and
                self.read(name) is None and self.read(self.current[0]) == self.content[self.current[0]])

    def look(self, where):
        """Called at every executed line: this may be what a kill leaves."""
        if self.bad:
            return
        self.points += 1
        self.ctx.trans()
        busy = self.current[0] if self.current else None

        def fail(sig, msg):
            self.bad = True
            self.ctx.fail(sig, '%s, writings %r, killed at %s: %s' % (self.config, self.hist, where, msg))
        listed = os.listdir(self.path(''))
        for m in listed:
            if not m.startswith('manifest_'):
                continue
            text = self.read(m)
            lines = text.split(b'\n')
            torn, lines = lines[-1], lines[:-1]
            want = self.manifest.get(m[len('manifest_'):-len('.txt')], [])
            got = []
            for line in lines:
                if b',' not in line:
                    return fail('manifest', 'line %r of %s' % (line, m))
                got.append(tuple(line.decode('utf-8').split(u',', 1)))
            ok = len(got) in (len(want), len(want) - 1) and all(g[1] == w[1] and (w[0] is None or g[0] == w[0]) for g, w in zip(got, want))
            if len(got) == len(want) - 1 and not (busy and want[-1][1] == busy):
                ok = False
            if not ok:
                return fail('manifest', '%s lists %r instead of %r' % (m, got, want))
            if torn and not busy:
                return fail('manifest', '%s ends in %r' % (m, torn))
            for k, g in enumerate(got):
                # whoever is listed is there as a whole; a message of a new run may overwrite one of an earlier run
                if g[1] == busy and k < len(want) - 1:
                    continue
                if g[1] in self.files[:-self.rot] and self.rot:
                    continue
                if g[1] == busy or g[1] in self.kept() or g[1] in self.older:
                    if self.read(g[1]) != self.content[g[1]] and not self.may_go(g[1]):
                        return fail('incomplete', '%s is listed but is %r' % (g[1], (self.read(g[1]) or '')[-40:]))
        for name in self.older + self.kept():
            if name != busy and self.read(name) != self.content[name]:
                if self.may_go(name):
                    continue
                return fail('damaged', '%s is %r' % (name, (self.read(name) or '')[-40:]))

    def write(self, kind):
        if kind == 'restart':
            self.look('restart')
            self.start()
            return
        seq, avail, delay, text = KINDS[kind]
        kw = dict(sequence_identifier=seq)
        if kind in ('msg', 'ttd'):
            self.msgs += 1
            name = '%s_msg_%d.xml' % (seq, self.msgs)
            if kind == 'ttd':
                kw['time_base'] = 'media'
            text %= self.msgs + 100 * len(self.older)
        else:
            n = self.number[seq] = self.number.get(seq, 0) + 1
            name = '%s_%d.xml' % (seq, n)
            kw.update(sequence_number=n, time_base='clock', clock_mode='local')
            text %= n
        if name in self.older:
            self.older.remove(name)     # overwritten by a message of the new run: nothing is said about it any more
            for m in self.manifest.values():
                m[:] = [(a, x) for a, x in m]
        if avail is not None:
            kw['availability_time'] = td(avail)
        if delay is not None:
            kw['delay'] = delay
        self.content[name] = text.encode('utf-8')
        self.current = (name, seq)
        if not self.suppress:
            self.manifest.setdefault(seq, []).append((clock_text(avail + (delay or 0)) if avail is not None else None, name))
        sys.settrace(self.trace)
        try:
            self.out.emit_data(text, **kw)
        finally:
            sys.settrace(None)
        self.files.append(name)
        self.current = None
        self.look('the end of the writing')

    def trace(self, frame, event, arg):
        if 'carriage/filesystem' not in frame.f_code.co_filename:
            return None
        if event == 'line':
            sys.settrace(None)
            self.look('%s:%d' % (frame.f_code.co_name, frame.f_lineno))
            sys.settrace(self.trace)
        return self.trace

    def read_back(self):
        """The real reader gives everything that is listed, in order."""
        if self.suppress or self.rot or self.bad:
            return
        for seq, want in sorted(self.manifest.items()):
            got = play(self.path('manifest_%s.txt' % seq))
            exp = [(a, self.content[n]) for a, n in want]
            ok = len(got) == len(exp) and all((w[0] is None or g[0] == w[0]) and g[1] == w[1] for g, w in zip(got, exp))
            self.ctx.check(ok, 'read back', lambda: 'writings %r of %s come back as %r instead of %r' % (
                self.hist, seq, [(a, x[:40]) for a, x in got], [(a, x[:40]) for a, x in exp]))

    def leave(self):
        shutil.rmtree(self.dir, True)


def play(manifest):
    from ebu_tt_live.carriage.filesystem import FilesystemConsumerImpl, FilesystemReader
    got = []

    class Node(object):
        def process_document(self, document, availability_time=None, **kwargs):
            text = document.encode('utf-8') if isinstance(document, unicode) else document
            got.append((clock_text(availability_time.days * 86400 + availability_time.seconds + availability_time.microseconds / 1e6), text))
    carriage = FilesystemConsumerImpl()
    carriage._consumer_node = Node()
    FilesystemReader(manifest, carriage, False).resume_reading()
    return got


def run(case, ctx):
    if case[0] == 'roundtrip':
        return roundtrip(ctx)
    config, prefix, depth = case
    for rest in itertools.product(NAMES, repeat=depth - len(prefix)):
        hist = prefix + list(rest)
        w = World(config, ctx, hist)
        try:
            for k, kind in enumerate(hist):
                w.write(kind)
                if w.bad:
                    break
            w.read_back()
            ctx.trace()
            ctx.count('kill points', w.points)
            ctx.state((config, sorted((n, hash(c)) for n, c in w.content.items()), sorted(os.listdir(w.path('')))))
            ctx.outcome('%d files' % len(w.content))
        finally:
            w.leave()


def roundtrip(ctx):
    from ebu_tt_live.carriage.filesystem import FilesystemProducerImpl
    for alphabet in ALPHABETS:
        for times in [[t] for t in TIMES] + [TIMES]:
            d = tempfile.mkdtemp(prefix='vp-p12-')
            try:
                p = FilesystemProducerImpl(d)
                exp = []
                for n, t in enumerate(times):
                    text = u'<tt>%s%d</tt>' % (alphabet, n)
                    p.emit_data(text, sequence_identifier='s', sequence_number=n + 1, availability_time=td(t), time_base='media')
                    exp.append((clock_text(t), text.encode('utf-8')))
                    ctx.trans()
                got = play(os.path.join(d, 'manifest_s.txt'))
                ctx.check(got == exp, 'roundtrip', lambda: '%r becomes %r' % (exp, got))
                ctx.trace()
            finally:
                shutil.rmtree(d, True)
