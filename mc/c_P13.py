# -*- coding: utf-8 -*-
"""A reader that follows a manifest while it is being written: all interleavings of the two up to a number of preemptions."""
import os
import shutil
import tempfile
import time
import sched
from mini import td
from c_P12 import clock_text, LONG

RULE = ('a case is a scenario (documents there before, documents written meanwhile, following or not, one or two '
        'readers) and a part of the tree of its schedules; every schedule of the real writer and the real readers on a '
        'real folder with at most the given number of preemptions, at every executed line of the carriage, is run once; '
        'the state is (scenario, what the readers got, where each was preempted)')
BOUNDS = {
    'quick': '6 scenarios with up to 4 documents, 2 preemptions (3 of the scenarios: 1)',
    'thorough': '6 scenarios with up to 4 documents, 3 preemptions (3 of the scenarios: 2)',
}
ASSUMPTIONS = ['a waiting reader wakes up some time after something was written', 'a manifest is there when the reader starts']
HANG_S = 600.0

# before, meanwhile, following, readers, preemptions for quick
SCENARIOS = {
    'follow-one': ([], [u'one \u20ac'], True, 1, 2),
    'follow': ([], [u'one', u'two \u20ac'], True, 1, 2),
    'follow-long': ([u'zero'], [LONG], True, 1, 2),
    'catch-up': ([u'x', u'y'], [u'z'], True, 1, 1),
    'no-follow': ([u'x', u'y'], [u'z'], False, 1, 1),
    'two': ([u'x'], [u'y'], True, 2, 1),
}
PARTS = 16


def setup(tier, ctx):
    sched.load('ebu_tt_live.carriage.filesystem')
    time.sleep = sched.sleeping


def woken(task):
    """A reader that finds nothing twice after everything has been written is interrupted, as from the keyboard."""
    if task.sched.tasks[0].state == 'done':
        task.idle = getattr(task, 'idle', 0) + 1
        if task.idle >= 2:
            raise KeyboardInterrupt()


def cases(tier):
    for name in sorted(SCENARIOS):
        for part in range(PARTS):
            yield [name, part, SCENARIOS[name][4] + (0 if tier == 'quick' else 1)]


def run(case, ctx):
    if time.sleep is sched.real_sleep:
        setup(None, ctx)
    name, part, bound = case
    before, meanwhile, follow, readers, _ = SCENARIOS[name]

    def make(choices):
        return one(case, ctx, choices, before, meanwhile, follow, readers)
    n = sched.explore(make, bound, (part, PARTS))
    ctx.count('schedules', n)


def one(case, ctx, choices, before, meanwhile, follow, readers):
    from ebu_tt_live.carriage.filesystem import FilesystemProducerImpl, FilesystemConsumerImpl, FilesystemReader
    d = tempfile.mkdtemp(prefix='vp-p13-')
    try:
        out = FilesystemProducerImpl(d)

        def write(n, text):
            out.emit_data(u'<tt>%s</tt>' % text, sequence_identifier='s', sequence_number=n + 1, availability_time=td(n), time_base='media')
        for n, text in enumerate(before):
            write(n, text)
        manifest = os.path.join(d, 'manifest_s.txt')
        if not before:
            open(manifest, 'w').close()
        s = sched.Sched(choices)
        got = [[] for _ in range(readers)]

        def writer(task):
            for n, text in enumerate(meanwhile):
                write(len(before) + n, text)
        s.add('writer', writer)
        for r in range(readers):
            class Node(object):
                mine = got[r]

                def process_document(self, document, availability_time=None, **kwargs):
                    self.mine.append((availability_time, document.decode('utf-8') if isinstance(document, str) else document))
            carriage = FilesystemConsumerImpl()
            carriage._consumer_node = Node()
            reader = FilesystemReader(manifest, carriage, follow)

            def follower(task, reader=reader):
                task.on_wake = woken
                reader.resume_reading()
            s.add('reader%d' % r, follower)
        steps = s.run(stuck=lambda s: True)
        ctx.trans(steps)
        ctx.trace()
        exp = [(td(n), u'<tt>%s</tt>' % t) for n, t in enumerate(before + meanwhile)]
        for t in s.tasks:
            ctx.check(t.error is None, 'error:%s:%s' % (t.name[:6], type(t.error).__name__), lambda: '%s, schedule %r: %s ends with %r' % (
                case[0], [x[0] for x in s.decisions], t.name, t.error))
        for g in got:
            if follow:
                ok = g == exp
            else:
                ok = len(g) >= len(before) and g == exp[:len(g)]
            ctx.check(ok, 'delivered', lambda: '%s, schedule %r: got %r' % (case[0], [x[0] for x in s.decisions], [(a, x[:30], len(x)) for a, x in g]))
        ctx.state((case[0], [len(g) for g in got], choices))
        ctx.outcome('%s: %r' % (case[0], [len(g) for g in got]))
        return s.decisions
    finally:
        shutil.rmtree(d, True)
