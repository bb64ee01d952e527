"""Running TLC: model checking runs, behaviour generation and batched trace validation."""

import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')


class TlcError(Exception):
    """TLC itself failed: a failure of the machinery, never a verdict on the code."""


class Run:
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1])
        else:
            m = re.findall(r'number of states generated: ([\d,]+)', out) or re.findall(
                r'([\d,]+) states checked', out
            )
            self.generated = self.distinct = int(m[-1].replace(',', '')) if m else 0
        self.violated = re.findall(
            r'(?:Invariant|Action property|Property|Temporal property) (\S+) is violated', out
        )
        if 'Temporal properties were violated' in out:
            self.violated.append('temporal property')
        if 'is not true for the constant' in out or 'Assumption' in out and 'is false' in out:
            self.violated.append('assumption')
        self.tagged = {}
        for line in out.splitlines():
            if line.startswith('"@'):
                try:
                    text = json.loads(line)
                except ValueError:
                    continue
                tag, _, rest = text[1:].partition(' ')
                self.tagged.setdefault(tag, []).append(rest)

    def json(self, tag):
        return [json.loads(x) for x in self.tagged.get(tag, [])]


def run(module, cfg=None, env=None, workers='auto', extra=(), timeout=600, cfg_text=None, heap='6g', check=True):
    """Run TLC on specs/<module>.tla.  Raises TlcError when TLC could not do its job."""
    meta = tempfile.mkdtemp(prefix='vf-tlc-')
    try:
        cfgPath = os.path.join(SPECS, cfg or module + '.cfg')
        if cfg_text is not None:
            cfgPath = os.path.join(meta, module + '.cfg')
            with open(cfgPath, 'w') as f:
                f.write(cfg_text)
        environment = dict(os.environ)
        environment.update(env or {})
        environment['JAVA_TOOL_OPTIONS'] = ''
        cmd = [
            'java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta,
            '-cp', _classpath(), 'tlc2.TLC', '-metadir', os.path.join(meta, 'states'),
            '-noGenerateSpecTE', '-workers', str(workers), '-config', cfgPath, *extra,
            os.path.join(SPECS, module + '.tla'),
        ]
        start = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=environment, cwd=meta)
        except subprocess.TimeoutExpired as e:
            raise TlcError(f'TLC timed out after {timeout} s on {module}') from e
        result = Run(p.stdout, p.returncode, time.time() - start)
        # 0: ok, 10-13: property violation; everything else means TLC could not evaluate the specification.
        if check and p.returncode not in (0, 10, 11, 12, 13):
            raise TlcError(f'TLC failed on {module} (exit {p.returncode}):\n' + p.stdout[-4000:] + p.stderr[-2000:])
        return result
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def _classpath():
    jar = '/opt/veriftools/tla/tla2tools.jar'
    wrapper = shutil.which('tlc')
    if wrapper:
        with open(wrapper, errors='replace') as f:
            m = re.search(r'-cp\s+"?([^"\s]+)"?', f.read())
        if m:
            return m.group(1)
    return jar


def model_check(module, cfg=None, **kw):
    """Exhaustive model checking of a specification; its failing is a failure of the machinery (a wrong spec)."""
    r = run(module, cfg, **kw)
    if r.violated or r.rc != 0:
        raise TlcError(f'{module}: specification violates {r.violated}\n' + r.out[-5000:])
    return r


def pieces(traces, share, count, size):
    """so many traces at a time that TLC has room for them"""
    part, total = [], 0
    for trace in traces:
        line = json.dumps(share(trace) if share else trace)
        part.append(line)
        total += len(line)
        if len(part) >= count or total + (share.size if share else 0) >= size:
            yield part
            part, total = [], 0
    if part:
        yield part


def write_lines(lines):
    fd, path = tempfile.mkstemp(prefix='vf-traces-', suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for line in lines:
            f.write(line + '\n')
    return path


def validate(module, traces, cfg=None, env=None, timeout=800, workers='auto', chunk=4000, share=None, size=50_000_000):
    """
    Let TLC decide for each trace whether it is a behaviour of specs/<module>.tla.
    Returns (list of (trace, verdict record), Run totals).  Every trace must get exactly one verdict.
    """
    bad = []
    states = 0
    wall = 0.0
    number = 0
    for texts in pieces(traces, share, chunk, size):
        part = traces[number : number + len(texts)]
        number += len(texts)
        path = write_lines(texts)
        files = {'TRACES': path}
        try:
            if share:
                files['SHARED'] = write_lines(share.lines)
            r = run(module, cfg, env={**(env or {}), **files}, timeout=timeout, workers=workers, heap='10g')
        finally:
            for p in files.values():
                os.unlink(p)
            if share:
                share.clear()
        if r.rc != 0:
            raise TlcError(f'{module}: unexpected TLC outcome\n' + r.out[-4000:])
        ok = {int(x) for x in r.tagged.get('OK', [])}
        verdicts = {}
        for v in r.json('BAD'):
            verdicts.setdefault(v['tid'], v)
        missing = set(range(1, len(part) + 1)) - ok - set(verdicts)
        if missing:
            raise TlcError(f'{module}: no verdict for traces {sorted(missing)[:10]}\n' + r.out[-3000:])
        for tid, v in sorted(verdicts.items()):
            bad.append((part[tid - 1], v))
        states += r.distinct
        wall += r.wall
    return bad, {'states': states, 'wall': wall}


class Shared:
    """Replaces values which many traces have in common by their number in a list of their own."""

    def __init__(self, function):
        self.function = function
        self.clear()

    def clear(self):
        self.lines = []
        self.numbers = {}
        self.size = 0

    def __call__(self, trace):
        return self.function(trace, self.number)

    def number(self, value):
        line = json.dumps(value)
        if line not in self.numbers:
            self.lines.append(line)
            self.size += len(line)
            self.numbers[line] = len(self.lines)
        return self.numbers[line]
