# -*- coding: utf-8 -*-
"""Generated-input search for one property.

    python3-vt -m pbt.driver PROPERTY [--replay FILE] [--seed N] [--tier quick|thorough]

A property module (pbt/props/<id in lower case>.py) has
    RULE            how cases are made and what makes one non-trivial
    CASES           {'quick': n, 'thorough': m}: generated cases, over all shards
    strategy()      the Hypothesis strategy for one case: plain JSON data
    run(case)       executed in the worker, on the code under test: returns plain JSON data
    check(case, o)  the oracle: None if the property held, a message if not
    labels(case, o) names of the classes the case belongs to; 'nontrivial' among them counts by RULE
    EXAMPLES        (optional) saved inputs, tried before anything is generated
    CPU             (optional) CPU seconds one case may use, far above what it needs
The seed decides everything that is generated.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import re
import select
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO_DEV', '/repo')
# development: a file for the cases that take long
SLOW = os.environ.get('VERIF_SLOW_DEV')
PYPY = '/opt/pypyvenv/bin/python'
SHARDS = int(os.environ.get('VERIF_SHARDS_DEV', '8'))
TICK = os.sysconf('SC_CLK_TCK')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
# wall clock limits are there to end a run in time: reaching one is reported in the evidence and is never a violation
WALL = {'quick': 600, 'thorough': 6 * 3600}
SHRINK_EVALS, SHRINK_SECONDS = 300, 60


class HarnessError(Exception):
    pass


class Found(Exception):
    """the property was violated"""


class Enough(BaseException):
    """ends the search of a shard"""


class Worker(object):
    def __init__(self, name, cpu):
        self.name, self.cpu, self.proc = name, cpu, None

    def start(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and not k.startswith('PYPY')}
        env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        self.proc = subprocess.Popen(
            [PYPY, os.path.join(VERIF, 'pbt', 'worker.py'), REPO, VERIF, self.name],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/')
        self.buf = b''
        answer = self.read(120)
        if not answer or not answer.get('ready'):
            raise HarnessError('the worker did not start: %s' % (answer or {}).get('fatal', 'no answer'))

    def cpu_used(self):
        try:
            with open('/proc/%d/stat' % self.proc.pid) as f:
                fields = f.read().rsplit(')', 1)[1].split()
            return (int(fields[11]) + int(fields[12])) / TICK
        except (OSError, IndexError):
            return 0.

    def read(self, cpu):
        """the next answer; None if the worker ended, 'hang' if it used more than cpu seconds"""
        begin, fd = self.cpu_used(), self.proc.stdout.fileno()
        while b'\n' not in self.buf:
            if select.select([fd], [], [], 1.)[0]:
                data = os.read(fd, 1 << 16)
                if not data:
                    return None
                self.buf += data
            elif self.cpu_used() - begin > cpu:
                return 'hang'
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def once(self, case):
        if self.proc is None:
            self.start()
        try:
            self.proc.stdin.write((json.dumps(case) + '\n').encode())
            self.proc.stdin.flush()
            answer = self.read(self.cpu)
        except BrokenPipeError:
            answer = None
        except BaseException:
            self.stop()
            raise
        if answer is None or answer == 'hang':
            self.stop()
        return answer

    def __call__(self, case):
        answer = self.once(case)
        if answer is None or answer == 'hang':       # not believed before it happens in a fresh process, too
            answer = self.once(case)
        if answer is None:
            return {'exc': 'the interpreter died', 'where': '', 'in_repo': True}
        if answer == 'hang':
            return {'exc': 'no result after %d s of CPU time' % self.cpu, 'where': '', 'in_repo': True}
        return answer


def verdict(module, case, answer):
    """None or what is wrong"""
    if 'exc' in answer:
        return 'unexpected %s (in %s)' % (answer['exc'], answer['where'])
    return module.check(case, answer['obs'])


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def seed_of(*parts):
    return int(hashlib.sha256(repr(parts).encode()).hexdigest()[:12], 16)


def known_findings(prop):
    """[(case, text)] of the findings that were not repaired; see known_findings.txt"""
    ret = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) case=(.*?) # (.*)$', line.strip())
                if m and m.group(1) == prop:
                    ret.append((json.loads(m.group(2)), m.group(3)))
    return ret


def shard_main(prop, tier, seed, shard, total, stopfile):
    """the search of one shard. prints one JSON line."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    name = prop.lower()
    module = importlib.import_module('pbt.props.' + name)
    worker = Worker(name, getattr(module, 'CPU', 60))
    known = {digest(c) for c, _ in known_findings(prop)}
    begin = time.time()
    stats = {'evaluations': 0, 'labels': collections.Counter(), 'nontrivial': set(), 'samples': [], 'ended': 'all cases'}
    failures = []
    first = [None, 0]

    def evaluate(case):
        if not failures:
            if os.path.exists(stopfile):
                stats['ended'] = 'another shard found a violation'
                raise Enough()
            if time.time() - begin > WALL[tier]:
                stats['ended'] = 'wall clock limit'
                raise Enough()
        else:
            first[1] += 1
            if first[1] > SHRINK_EVALS or time.time() - first[0] > SHRINK_SECONDS:
                raise Enough()
        case = json.loads(json.dumps(case))
        start = time.time()
        answer = worker(case)
        if SLOW and time.time() - start > 10:
            with open(SLOW, 'a') as f:
                f.write(json.dumps([prop, time.time() - start, case]) + '\n')
        stats['evaluations'] += 1
        msg = verdict(module, case, answer)
        if msg is None:
            labels = set(module.labels(case, answer['obs']))
            stats['labels'].update(labels)
            if 'nontrivial' in labels:
                stats['nontrivial'].add(digest(case))
                if len(stats['samples']) < 2 and len(json.dumps(case)) < 3000:
                    stats['samples'].append(case)
        elif digest(case) in known:
            stats['labels'].update(['known finding'])
        else:
            if not failures:
                first[0] = time.time()
                open(stopfile, 'w').close()
            failures.append((len(json.dumps(case)), json.dumps(case), msg))
            raise Found(msg)

    try:
        try:
            for i, case in enumerate(getattr(module, 'EXAMPLES', [])):
                if i % SHARDS == shard:
                    evaluate(case)

            @hypothesis.seed(seed_of(prop, tier, seed, shard))
            @settings(max_examples=total, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
            @given(module.strategy())
            def search(case):
                evaluate(case)

            search()
        except (Enough, Found):
            pass
        except Exception:
            if not failures:     # not the property: e.g. hypothesis.errors.Flaky, or a mistake in the harness
                raise
    finally:
        worker.stop()
    stats['labels'] = dict(stats['labels'])
    stats['nontrivial'] = sorted(stats['nontrivial'])
    stats['failure'] = min(failures) if failures else None
    print(json.dumps(stats))


def run_shards(prop, tier, seed):
    import tempfile
    import shutil
    name = prop.lower()
    module = importlib.import_module('pbt.props.' + name)
    total = module.CASES[tier]
    per = max(1, -(-total // SHARDS))
    scratch = tempfile.mkdtemp(prefix='pbt-')
    try:
        stopfile = os.path.join(scratch, 'stop')
        procs = []
        for s in range(SHARDS):
            log = open(os.path.join(scratch, 'err%d' % s), 'wb')
            procs.append((subprocess.Popen(
                [sys.executable, '-m', 'pbt.driver', prop, '--tier', tier, '--seed', str(seed), '--shard', str(s),
                 '--cases', str(per), '--stopfile', stopfile],
                cwd=VERIF, stdout=subprocess.PIPE, stderr=log), log))
        results = []
        try:
            for s, (p, log) in enumerate(procs):
                out = p.communicate()[0].decode()
                log.close()
                if p.returncode != 0:
                    with open(os.path.join(scratch, 'err%d' % s)) as f:
                        raise HarnessError('shard %d ended with %d:\n%s' % (s, p.returncode, f.read()[-4000:]))
                results.append(json.loads(out.strip().split('\n')[-1]))
        finally:
            for p, _ in procs:
                if p.poll() is None:
                    p.terminate()
                    p.wait()
        return module, results
    finally:
        shutil.rmtree(scratch)


def replay(prop, path):
    name = prop.lower()
    module = importlib.import_module('pbt.props.' + name)
    with open(path) as f:
        case = json.load(f)['case']
    worker = Worker(name, getattr(module, 'CPU', 60))
    try:
        answer = worker(case)
    finally:
        worker.stop()
    msg = verdict(module, case, answer)
    print(json.dumps(case))
    print(json.dumps(answer)[:4000])
    if msg:
        print(msg)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('the property holds on this case')
    return 0


def shrink_text(value, limit):
    """samples, cut down so that the evidence stays readable"""
    text = json.dumps(value)
    return value if len(text) <= limit else text[:limit] + ' ...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--cases', type=int)
    ap.add_argument('--stopfile')
    args = ap.parse_args()
    prop, tier, seed = args.property, args.tier, args.seed
    sys.dont_write_bytecode = True
    if args.replay:
        return replay(prop, args.replay)
    if args.shard is not None:
        shard_main(prop, tier, seed, args.shard, args.cases, args.stopfile)
        return 0

    begin = time.time()
    module, results = run_shards(prop, tier, seed)
    failure = min([r['failure'] for r in results if r['failure']], default=None)
    # findings that are known and not repaired: still there?
    known = known_findings(prop)
    if known:
        worker = Worker(prop.lower(), getattr(module, 'CPU', 60))
        try:
            for case, text in known:
                if verdict(module, case, worker(case)) is not None:
                    print('KNOWN-FINDING: property=%s %s' % (prop, text))
        finally:
            worker.stop()

    labels = collections.Counter()
    for r in results:
        labels.update(r['labels'])
    evaluations = sum(r['evaluations'] for r in results)
    nontrivial = set()
    for r in results:
        nontrivial.update(r['nontrivial'])
    samples = [s for r in results for s in r['samples']][:6]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': module.RULE,
            'samples': [shrink_text(s, 1500) for s in samples],
            'classes': {k: labels[k] for k in sorted(labels)},
            'shards': SHARDS,
            'ended': sorted(set(r['ended'] for r in results)),
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - begin, 2),
        'violations': 1 if failure else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    print('%s: %d cases, %d distinct non-trivial, %.1f s' % (prop, evaluations, len(nontrivial), evidence['wall_s']))
    if failure:
        size, case, msg = failure
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, hashlib.sha1(case.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'message': msg, 'case': json.loads(case), 'seed': seed, 'tier': tier}, f, indent=1)
        print(msg)
        print('case: %s' % case[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if evaluations == 0 or not nontrivial:
        raise HarnessError('nothing was evaluated')
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except HarnessError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        code = 2
    sys.exit(code)
