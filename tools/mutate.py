#!/usr/bin/env python3
"""mutate.py CHECK FILE < mutations: tries small changes of one file of a copy of the repository on a check.

Mutations on stdin: old text, a line `=====`, new text, separated by lines `#####`.  VF_REPO: what to copy (default /repo).
"""

import os
import shutil
import subprocess
import sys
import tempfile

check, name = sys.argv[1:3]
repo = os.environ.get('VF_REPO', '/repo')
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory(prefix='mutants-') as root:
    target = os.path.join(root, 'repo')
    subprocess.run(['cp', '-a', repo, target], check=True)
    path = os.path.join(target, name)
    with open(path, encoding='utf-8') as f:
        original = f.read()
    for block in sys.stdin.read().split('\n#####\n'):
        old, new = (x.strip('\n') for x in block.split('\n=====\n')) if '\n=====\n' in block else (block.split('\n=====')[0].strip('\n'), '')
        if original.count(old) != 1:
            print(f'{original.count(old)} times: {old!r}')
            continue
        with open(path, 'w', encoding='utf-8') as f:
            f.write(original.replace(old, new))
        r = subprocess.run(['timeout', '890', sys.executable, os.path.join(verif, 'run.py'), check, 'quick'], cwd=verif,
                           env={**os.environ, 'VF_REPO': target}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = r.stdout.strip().split('\n')
        print(f'{"caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR"} {new!r:.150}: {lines[0]:.250} | {lines[-2] if len(lines) > 1 else "":.60}', flush=True)
