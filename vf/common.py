"""Shared plumbing of all checks: budget, work pool, known findings, evidence, verdict lines."""

import contextlib
import faulthandler
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def scratch_root():
    with contextlib.suppress(OSError):
        st = os.statvfs('/dev/shm')
        if st.f_bavail * st.f_frsize > 2 << 30 and os.access('/dev/shm', os.W_OK):
            return '/dev/shm'
    return tempfile.gettempdir()


@contextlib.contextmanager
def scratch(prefix='vf-'):
    path = tempfile.mkdtemp(prefix=prefix, dir=scratch_root())
    try:
        yield path
    finally:
        # Everything in there belongs to us, make it removable first.
        for folder, _, _ in os.walk(path):
            with contextlib.suppress(OSError):
                os.chmod(folder, 0o700)
        shutil.rmtree(path, ignore_errors=True)


def known_findings(prop):
    """{signature: text} of the findings listed for this property (fixed ones suppress nothing)"""
    result = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS, encoding='utf-8') as f:
            for line in f:
                if line.startswith('known: '):
                    fields = dict(x.split('=', 1) for x in line.split()[1:3])
                    if fields['property'] == prop:
                        result[fields['key']] = line.split(None, 3)[3].strip()
    return result


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(f'{prop}-{self.seed}')
        self.start = time.time()
        self.budget = 330 if self.tier == 'quick' else 800
        self.quick = self.tier == 'quick'
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.executions = 0
        self.notes = {}
        self.violations = []
        self.level = 'model_checking'

    def elapsed(self):
        return time.time() - self.start

    def left(self):
        return self.budget - self.elapsed()

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- model checking

    def model(self, module, cfg=None, **kw):
        from . import tlc

        r = tlc.model_check(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault('models', []).append(
            {'module': module, 'distinct_states': r.distinct, 'generated': r.generated, 'wall_s': round(r.wall, 1)}
        )
        return r

    def refuted(self, module, cfg_text, invariant):
        """The specification without one of its safeguards must violate the invariant: the invariant is not vacuous."""
        from . import tlc

        r = tlc.run(module, cfg_text=cfg_text)
        if invariant not in r.violated:
            raise tlc.TlcError(f'{module}: {invariant} was expected to be violated\n' + r.out[-2000:])
        self.states += r.distinct
        self.notes.setdefault('refuted', []).append({'module': module, 'invariant': invariant, 'states': r.distinct})

    def validate(self, module, traces, describe=None, env=None, cfg=None, key=None, **kw):
        """Every trace which TLC rejects becomes a violation."""
        from . import tlc

        if not traces:
            raise RuntimeError('nothing to validate')
        bad, total = tlc.validate(module, traces, cfg=cfg, env=env, **kw)
        self.traces += len(traces)
        self.states += total['states']
        self.notes.setdefault('validated', []).append(
            {'module': module, 'traces': len(traces), 'rejected': len(bad), 'states': total['states'],
             'wall_s': round(total['wall'], 1)}
        )
        for trace, verdict in bad:
            self.violation(
                {'module': module, 'verdict': verdict, 'trace': trace},
                describe(trace, verdict) if describe else json.dumps(verdict)[:300],
                key(trace, verdict) if key else None,
            )
        return bad

    def sample(self, case):
        if len(self.samples) < 5:
            text = json.dumps(case, default=str)
            self.samples.append(case if len(text) < 4000 else text[:4000])

    # ---- running work

    def map(self, function, items, processes=8, deadline=None, timeout=150):
        """
        Runs function(item) in forked workers, yields (item, result).  Results missing because the time is over are not
        yielded.  An exception in the harness is re-raised.  An item which ends or blocks the process it runs in is a
        violation: nothing a mount is asked to do may do that.
        """
        items = list(items)
        deadline = deadline if deadline is not None else self.budget
        done = 0
        pending = list(range(len(items)))[::-1]
        workers = {}
        try:
            while pending or workers:
                while pending and len(workers) < processes:
                    w = _Worker(function, items)
                    workers[w.pipe] = w
                    w.give(pending.pop())
                for pipe in multiprocessing.connection.wait(list(workers), timeout=5):
                    w = workers[pipe]
                    index = w.current
                    try:
                        ok, result = pipe.recv()
                    except (EOFError, OSError):
                        del workers[pipe]
                        self._lost(function, items[index], f'the process died with status {w.end()}')
                        continue
                    if not ok:
                        raise RuntimeError('worker failed:\n' + result)
                    done += 1
                    if pending and w.count < 400:
                        w.give(pending.pop())
                    else:
                        w.end()
                        del workers[pipe]
                    yield items[index], result
                for w in list(workers.values()):
                    if time.time() - w.since > timeout:
                        w.end(kill=True)
                        del workers[w.pipe]
                        self._lost(function, items[w.current], f'no answer within {timeout} s')
                if self.elapsed() > deadline:
                    break
        finally:
            for w in workers.values():
                w.end(kill=True)
        self.notes.setdefault('mapped', []).append(
            {'function': getattr(function, '__name__', '?'), 'planned': len(items), 'done': done}
        )

    def _lost(self, function, item, what):
        self.violation({'function': getattr(function, '__name__', '?'), 'item': item, 'verdict': what},
                       f'{what}: {json.dumps(item, default=str)[:600]}')

    # ---- verdict

    def violation(self, replay, what, key=None):
        key = key or hashlib.sha1(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:12]
        self.violations.append({'key': key, 'what': what, 'replay': replay})

    def finish(self):
        listed = known_findings(self.prop)
        fresh = []
        reported = set()
        for v in self.violations:
            if v['key'] in listed:
                if v['key'] not in reported:
                    reported.add(v['key'])
                    print(f'KNOWN-FINDING: property={self.prop} {listed[v["key"]]}')
            else:
                fresh.append(v)
        folder = os.path.join(VERIF, 'evidence')
        os.makedirs(folder, exist_ok=True)
        replayPath = None
        if fresh:
            replayPath = os.path.join(folder, f'{self.prop}.replay.json')
            with open(replayPath, 'w', encoding='utf-8') as f:
                json.dump(fresh[: int(os.environ.get('VF_KEEP', 20))], f, indent=1, default=str)
        evidence = {
            'property': self.prop,
            'tier': self.tier,
            'seed': self.seed,
            'level': self.level,
            'coverage': {
                'states': self.states,
                'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'evaluations': self.executions,
                'samples': self.samples[:5],
                'notes': self.notes,
            },
            'wall_s': round(self.elapsed(), 1),
            'violations': len(fresh),
        }
        with open(os.path.join(folder, f'{self.prop}.json'), 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1, default=str)
        for v in fresh[:10]:
            print(f'  {v["key"]}: {v["what"]}'[:1500])
        if fresh:
            print(f'{len(fresh)} violation(s)')
            print(f'VIOLATION property={self.prop} replay={replayPath}')
            return 1
        print(
            f'{self.prop} {self.tier}: held; {self.states} states, {self.traces} traces, {self.executions} executions,'
            f' {self.elapsed():.0f} s'
        )
        return 0


class _Worker:
    def __init__(self, function, items):
        context = multiprocessing.get_context('fork')
        self.pipe, child = context.Pipe()
        self.process = context.Process(target=self.serve, args=(child, self.pipe, function, items), daemon=True)
        self.process.start()
        child.close()
        self.count = 0
        self.current = None
        self.since = time.time()

    @staticmethod
    def serve(child, parent, function, items):
        parent.close()
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        faulthandler.register(signal.SIGUSR1)
        while True:
            try:
                index = child.recv()
            except EOFError:
                index = None
            if index is None:
                # Skips destructors of the libraries under test.
                os._exit(0)
            try:
                child.send((True, function(items[index])))
            except Exception:  # pylint: disable=broad-except
                child.send((False, traceback.format_exc()))

    def give(self, index):
        self.current = index
        self.since = time.time()
        self.count += 1
        self.pipe.send(index)

    def end(self, kill=False):
        with contextlib.suppress(OSError):
            self.pipe.send(None)
        if kill:
            self.process.kill()
        self.process.join(10)
        if self.process.is_alive():
            self.process.kill()
            self.process.join()
        self.pipe.close()
        return self.process.exitcode


def quiet_logging():
    import logging
    import warnings

    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
