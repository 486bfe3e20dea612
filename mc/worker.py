# -*- coding: utf-8 -*-
"""One Jython process: runs every jobs-th case of a check and writes what it saw as JSON."""
import sys
import time
import fastimp
fastimp.install()
import json
import logging
import os
import threading
import traceback

from java.lang import Runtime

logging.disable(logging.CRITICAL)
STARTED = time.time()


class Ctx(object):
    def __init__(self):
        self.states = set()
        self.outcomes = {}
        self.counters = {}
        self.violations = []
        self.samples = []
        self.case = None
        self.index = None
        self._sigs = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def trans(self, n=1):
        self.count('transitions', n)

    def trace(self, n=1):
        self.count('traces', n)

    def state(self, key):
        """Register a distinct observed state."""
        if not isinstance(key, basestring):
            key = repr(key)
        self.states.add(fnv(key))

    def outcome(self, key):
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def fail(self, sig, msg):
        n = self._sigs.get(sig, 0)
        self._sigs[sig] = n + 1
        self.violations.append({'sig': sig, 'msg': msg if n < 3 else '', 'case': self.case, 'index': self.index})

    def check(self, cond, sig, msg):
        if not cond:
            self.fail(sig, msg() if callable(msg) else msg)
        return cond

    def equal(self, got, want, sig, what=''):
        if got != want:
            self.fail(sig, '%s got %r want %r' % (what, got, want))
            return False
        return True


def fnv(s):
    from java.lang import String
    h1 = String(s).hashCode()
    h2 = String(s[::-1] + '|').hashCode()
    return '%x.%x' % (h1 & 0xffffffff, h2 & 0xffffffff)


def stub_nltk():
    class Anything(object):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return self

        def __call__(self, *a, **k):
            return self
    sys.modules['nltk'] = Anything()


def main():
    prop, tier, shard, jobs, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    replay = sys.argv[6] if len(sys.argv) > 6 else None
    if replay:
        tier = json.load(open(replay)).get('tier', tier)
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c_%s.py' % prop)).read()
    if 'NEED_NLTK' not in src:
        stub_nltk()
    import fastpyxb
    fastpyxb.install()
    mod = __import__('c_%s' % prop)
    ctx = Ctx()
    ctx.tier = tier
    budget = float(os.environ.get('VERIF_BUDGET', '0')) or (600.0 if tier == 'quick' else 6 * 3600.0)
    hang = getattr(mod, 'HANG_S', 150.0)
    capped = [False]
    lock = threading.Lock()
    current = [None, None]

    def write(final):
        with lock:
            meta = {'rule': mod.RULE, 'bounds': mod.BOUNDS[tier], 'assumptions': mod.ASSUMPTIONS}
            data = {'states': list(ctx.states), 'outcomes': ctx.outcomes, 'counters': ctx.counters,
                    'violations': ctx.violations, 'samples': ctx.samples, 'capped': capped[0], 'meta': meta}
            tmp = out + '.tmp'
            with open(tmp, 'w') as f:
                json.dump(data, f)
            os.rename(tmp, out)

    def watchdog():
        while True:
            time.sleep(2)
            since, case = current[0], current[1]
            if since is not None and time.time() - since > hang:
                ctx.fail('hang', 'the case did not finish in %d s' % hang)
                write(True)
                Runtime.getRuntime().halt(0)
    t = threading.Thread(target=watchdog)
    t.setDaemon(True)
    t.start()

    def one(case, index):
        ctx.case, ctx.index = case, index
        current[1] = case
        current[0] = time.time()
        try:
            mod.run(case, ctx)
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [x for x in tb if '/ebu_tt_live/' in x[0]]
            where = (where or tb)[-1]
            ctx.fail('exception:%s:%s' % (type(e).__name__, where[2]),
                     'case %r raised %s: %s\n%s' % (case, type(e).__name__, repr(e), ''.join(
                         '    %s:%s %s\n' % (x[0].rpartition('/src/')[2], x[1], x[2]) for x in tb[-8:])))
        current[0] = None
        ctx.count('cases')

    if replay:
        one(json.load(open(replay))['case'], 0)
    else:
        if hasattr(mod, 'setup'):
            current[0] = time.time()
            mod.setup(tier, ctx)
            current[0] = None
        for index, case in enumerate(mod.cases(tier)):
            if index % jobs != shard:
                continue
            if time.time() - STARTED > budget:
                capped[0] = True
                break
            if len(ctx.violations) > 3000:
                capped[0] = True
                break
            one(case, index)
            if len(ctx.samples) < 2:
                ctx.samples.append(case)
    write(True)
    Runtime.getRuntime().halt(0)


main()
