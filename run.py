#!/usr/bin/env python3
"""Driver of the bounded-exhaustive checks.

  run.py PROPERTY [--tier quick|thorough] [--jobs N]
  run.py --replay FILE          re-run one recorded case

Copies the package under test from the working tree of /repo into a scratch folder (without compiled files),
regenerates the schema bindings there when the schemas differ from the ones the existing bindings were made from,
and lets N Jython processes share out the cases of mc/c_<property>.py. Exit 0: held on everything explored;
1: violated (a VIOLATION line names the replay file); 2: the check itself failed.
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
JY = '/opt/jy'
J = '/usr/share/java'
CP = ':'.join(os.path.join(J, n) for n in ('jython.jar', 'bcprov.jar', 'bcpkix.jar', 'bcutil.jar', 'jython-2.7.3.jar'))


def java_cmd(heap='2g', tier='quick'):
    return ['java', '-Xss16m', '-Xmx' + heap, '-XX:+UseSerialGC', '-XX:-StackTraceInThrowable',
            '-XX:TieredStopAtLevel=' + os.environ.get('VERIF_JY_TIER', '1' if tier == 'quick' else '4'),
            '--add-opens=java.base/java.lang=ALL-UNNAMED', '--add-opens=java.base/java.io=ALL-UNNAMED',
            '--add-opens=java.base/sun.nio.ch=ALL-UNNAMED', '--add-opens=java.base/java.util=ALL-UNNAMED',
            '-Dpython.home=%s/home' % JY, '-Dpython.executable=%s/jy' % JY, '-Dpython.cachedir=%s/cache' % JY,
            '-Dpython.cachedir.skip=true',
            '-cp', CP, 'org.python.util.jython', '-B']


def prepare(scratch):
    """A clean copy of the package under test; returns the folder to put on the path."""
    src = os.path.join(scratch, 'src')
    shutil.copytree(os.path.join(REPO, 'ebu_tt_live'), os.path.join(src, 'ebu_tt_live'),
                    ignore=shutil.ignore_patterns('*.class', '*.pyc', 'test', 'node_modules'))
    xsd = os.path.join(src, 'ebu_tt_live', 'xsd')
    data = b''.join(open(os.path.join(xsd, n), 'rb').read() for n in sorted(os.listdir(xsd)) if n.endswith('.xsd'))
    # the stamp is of 'cat xsd/*.xsd | sha256sum'
    stamp = hashlib.sha256(data).hexdigest()
    raw = os.path.join(src, 'ebu_tt_live', 'bindings', 'raw')
    try:
        have = open(os.path.join(raw, '.stamp')).read().split()[0]
    except (OSError, IndexError):
        have = None
    if have != stamp or not os.path.isfile(os.path.join(raw, '__init__.py')):
        shutil.rmtree(raw, ignore_errors=True)
        env = dict(os.environ, JYTHONPATH='%s/hooks:%s/site:%s' % (JY, JY, src), LC_ALL='C.UTF-8')
        subprocess.run(java_cmd() + [JY + '/pyxb-src/scripts/pyxbgen', '--binding-root=./ebu_tt_live/bindings',
                                     '-m', '__init__', '--schema-root=./ebu_tt_live/xsd/', '-r', '-u',
                                     'ebutt_all.xsd'], cwd=src, env=env, check=True, stdout=subprocess.DEVNULL)
    return src


def load_known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))['findings'] if k['property'] == prop and k['status'] == 'known']


def run_workers(prop, tier, jobs, scratch, src, replay=None):
    env = dict(os.environ, LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
               JYTHONPATH='%s/hooks:%s/site:%s:%s' % (JY, JY, src, os.path.join(HERE, 'mc')))
    procs = []
    for shard in range(jobs):
        wdir = os.path.join(scratch, 'w%d' % shard)
        os.mkdir(wdir)
        cmd = java_cmd(tier=tier) + [os.path.join(HERE, 'mc', 'worker.py'), prop, tier, str(shard), str(jobs),
                            os.path.join(scratch, 'out%d.json' % shard)]
        if replay:
            cmd.append(replay)
        log = open(os.path.join(scratch, 'log%d' % shard), 'wb')
        procs.append(subprocess.Popen(cmd, cwd=wdir, env=dict(env, VERIF_WORKDIR=wdir), stdin=subprocess.DEVNULL,
                                      stdout=log, stderr=subprocess.STDOUT, start_new_session=True))
    try:
        for p in procs:
            p.wait()
    finally:
        for p in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
    results = []
    for shard, p in enumerate(procs):
        out = os.path.join(scratch, 'out%d.json' % shard)
        if not os.path.exists(out):
            tail = open(os.path.join(scratch, 'log%d' % shard), errors='replace').read()[-4000:]
            raise RuntimeError('worker %d of %s gave no result (exit %s)\n%s' % (shard, prop, p.returncode, tail))
        results.append(json.load(open(out)))
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        # what the checks need is here
        missing = [x for x in [JY] + CP.split(':') if not os.path.exists(x)]
        print('missing: %s' % missing if missing else 'ready')
        return 1 if missing else 0
    started = time.time()
    replay = None
    if a.replay:
        replay = os.path.abspath(a.replay)
        a.property = json.load(open(replay))['property']
        a.jobs = 1
    prop = a.property
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    scratch = tempfile.mkdtemp(prefix='vrf-%s-' % prop)
    try:
        src = prepare(scratch)
        results = run_workers(prop, a.tier, a.jobs, scratch, src, replay)
    except (RuntimeError, subprocess.CalledProcessError) as e:
        print('ERROR %s' % e)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)

    violations = []
    for r in results:
        violations += r['violations']
    violations.sort(key=lambda v: v['index'])
    known = load_known(prop)
    known_hit = {}
    fresh = []
    for v in violations:
        for k in known:
            if any(v['sig'] == s for s in k.get('sigs', [])) or any(re.fullmatch(x, v['sig']) for x in k.get('patterns', [])):
                known_hit.setdefault(k['what'], []).append(v)
                break
        else:
            fresh.append(v)

    states, outcomes, counters = set(), {}, {}
    for r in results:
        states.update(r['states'])
        for k, n in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + n
        for k, n in r['counters'].items():
            counters[k] = counters.get(k, 0) + n
    meta = results[0]['meta']
    capped = any(r['capped'] for r in results)
    samples = [s for r in results for s in r['samples']][:6]
    coverage = {
        'states': len(states), 'transitions': counters.get('transitions', 0),
        'traces_validated_against_impl': counters.get('traces', 0),
        'evaluations': counters.get('cases', 0), 'distinct_nontrivial': len(states),
        'rule': meta['rule'], 'bounds': meta['bounds'], 'samples': samples,
        'exhaustive': not capped and not replay, 'capped_by_time': capped,
        'distinct_outcomes': len(outcomes), 'outcomes': dict(sorted(outcomes.items(), key=lambda x: -x[1])[:40]),
        'other_counts': {k: v for k, v in counters.items() if k not in ('cases', 'transitions', 'traces')},
        'known_findings_seen': {k: len(v) for k, v in known_hit.items()},
    }
    if not replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        ev = {'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
              'level': 'model_checking', 'coverage': coverage, 'assumptions': meta['assumptions'],
              'wall_s': round(time.time() - started, 1), 'violations': len(fresh)}
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, sort_keys=True)
    for k in known:
        if k['what'] in known_hit or not replay:
            # a listed finding that this tier's space does not contain is still a finding
            print('KNOWN-FINDING: property=%s %s%s' % (prop, k['what'], '' if k['what'] in known_hit else ' (not in the space of this run)'))
    if not replay:
        print('%s %s: %d cases, %d states, %d transitions, %d traces, %d outcomes, %s, %.0f s' % (
            prop, a.tier, counters.get('cases', 0), len(states), counters.get('transitions', 0),
            counters.get('traces', 0), len(outcomes), 'CAPPED' if capped else 'exhaustive', time.time() - started))
    if fresh:
        groups = {}
        for v in fresh:
            groups.setdefault(v['sig'], []).append(v)
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, (sig, vs) in enumerate(sorted(groups.items(), key=lambda g: g[1][0]['index'])):
            v = vs[0]
            path = os.path.join(rdir, '%s-%d.json' % (prop, n))
            if not replay:
                json.dump({'property': prop, 'tier': a.tier, 'case': v['case'], 'sig': v['sig'], 'msg': v['msg']},
                          open(path, 'w'), indent=1)
            else:
                path = replay
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s] x%d case #%s: %s' % (sig, len(vs), v['index'], v['msg'][:1500]))
            if n >= 14:
                print('  ... %d more kinds' % (len(groups) - 15))
                break
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
