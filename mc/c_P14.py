# -*- coding: utf-8 -*-
"""The rotating buffer of files: all interleavings of the one who adds files with the one who deletes them, with deletions
that fail."""
import os
import shutil
import tempfile
import time
import sched

RULE = ('a case is a number of files to keep, a number of files added, a plan of deletions that fail or find nothing, and '
        'a part of the tree of schedules of the real buffer and its real deleting thread (statement by statement, up to '
        'a number of preemptions); the files are looked at after every step; the state is (case, files present)')
BOUNDS = {
    'quick': '1 to 3 kept of up to 5 files, 13 plans of failing deletions, 2 preemptions for 2 files and 1 for more; without a thread: all plans of '
             'failures of up to 3 of 6 deletions',
    'thorough': '3 preemptions for 2 files and 2 for more',
}
ASSUMPTIONS = ['a deletion that fails works when tried again', 'the names of the files are different']
HANG_S = 600.0

# which attempts of deleting fail (0: the first one made), and how; 'gone': somebody else has deleted the file
PLANS = [[], [(0, OSError)], [(0, IOError)], [(1, OSError)], [(0, OSError), (1, OSError)], [(0, OSError), (2, OSError)], [(1, OSError), (2, OSError)],
         [(0, OSError), (1, OSError), (2, OSError)], ['gone0'], ['gone1'], ['gone0', 'gone1'], ['gone0', (0, OSError)], ['gone1', (0, OSError)]]
PARTS = 3
_plan = {'fail': {}, 'n': 0, 'dir': None, 'tried': []}
_remove = os.remove


def setup(tier, ctx):
    utils = sched.load('ebu_tt_live.utils')
    sched.adopt()
    time.sleep = sched.sleeping
    import Queue
    Queue.Queue = sched.Queue

    def remove(path):
        if _plan['dir'] and os.path.abspath(path).startswith(_plan['dir']):
            n = _plan['n']
            _plan['n'] += 1
            _plan['tried'].append(os.path.basename(path))
            kind = _plan['fail'].get(n)
            if kind is not None:
                raise kind(13, 'not now', path)
        return _remove(path)
    os.remove = os.unlink = remove


def cases(tier):
    for keep, files, bound in ((1, 2, 2), (1, 4, 1), (2, 4, 1), (3, 5, 1)):
        bound += tier != 'quick'
        for plan in range(len(PLANS)):
            for part in range(PARTS):
                yield ['thread', keep, files, plan, part, bound]
    yield ['direct']


def plan_of(plan, d):
    _plan.update(fail=dict(p for p in plan if not isinstance(p, str)), n=0, dir=d, tried=[])
    return [int(p[4:]) for p in plan if isinstance(p, str)]


def touch(d, n):
    name = os.path.join(d, 'f%d' % n)
    with open(name, 'w') as f:
        f.write('x')
    return name


def run(case, ctx):
    if time.sleep is not sched.sleeping:
        setup(None, ctx)
    if case[0] == 'direct':
        return direct(ctx)
    _, keep, files, plan, part, bound = case
    n = sched.explore(lambda choices: one(case, ctx, choices), bound, (part, PARTS))
    ctx.count('schedules', n)


def one(case, ctx, choices):
    from ebu_tt_live.utils import RotatingFileBuffer
    _, keep, files, plan, part, bound = case
    d = tempfile.mkdtemp(prefix='vp-p14-')
    gone = plan_of(PLANS[plan], d)
    try:
        added = []
        s = sched.Sched(choices)
        bad = []
        idle = [0]

        def adder(task):
            b = RotatingFileBuffer(maxlen=keep)
            for n in range(files):
                name = touch(d, n)
                if n in [g + keep for g in gone]:
                    _remove(os.path.join(d, 'f%d' % (n - keep)))
                added.append(n)
                b.append(name)
        s.add('adder', adder)

        def look(task):
            if bad:
                return
            present = set(os.listdir(d))
            # the newest is in the buffer only when append is done, so the oldest may or may not be gone by then
            for n in added[-keep:]:
                if 'f%d' % n not in present:
                    bad.append('f%d deleted while %r are to be kept' % (n, added[-keep:]))

        def stuck(sc):
            idle[0] += 1
            return idle[0] < 12
        steps = s.run(on_step=look, stuck=stuck)
        ctx.trans(steps)
        ctx.trace()
        what = 'keeping %d of %d, failures %r, schedule %r' % (keep, files, PLANS[plan], [x[0] for x in s.decisions])
        ctx.check(not bad, 'kept', lambda: '%s: %s' % (what, bad[0]))
        for t in s.tasks:
            ctx.check(t.error is None, 'error:%s' % type(t.error).__name__, lambda: '%s: %s ends with %r' % (what, t.name, t.error))
        left = sorted(os.listdir(d))
        want = ['f%d' % n for n in range(max(0, files - keep), files)]
        ctx.check(left == want, 'left', lambda: '%s: %r are left instead of %r' % (what, left, want))
        ctx.state((case[:4], left, _plan['tried'], len(s.decisions)))
        ctx.outcome('%d left' % len(left))
        return s.decisions
    finally:
        _plan['dir'] = None
        shutil.rmtree(d, True)


def direct(ctx):
    import itertools
    from ebu_tt_live.utils import RotatingFileBuffer
    for keep in (1, 2, 3):
        for files in range(1, 6):
            for k in range(4):
                for fails in itertools.combinations(range(6), k):
                    for kind in (OSError, IOError):
                        d = tempfile.mkdtemp(prefix='vp-p14-')
                        plan_of([(f, kind) for f in fails], d)
                        try:
                            b = RotatingFileBuffer(maxlen=keep, async=False)
                            for n in range(files):
                                b.append(touch(d, n))
                                ctx.trans()
                                left = sorted(os.listdir(d))
                                want = ['f%d' % i for i in range(max(0, n + 1 - keep), n + 1)]
                                if not ctx.check(left == want, 'direct', lambda: 'keeping %d, failures %r: %r are left instead of %r' % (keep, fails, left, want)):
                                    break
                            ctx.trace()
                        finally:
                            _plan['dir'] = None
                            shutil.rmtree(d, True)
