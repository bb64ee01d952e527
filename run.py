#!/usr/bin/env python3
"""run.py <property> <quick|thorough>: runs the check of one property"""

import importlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    # The code under test has its dependencies in this environment.
    python = '/opt/venv/bin/python'
    if os.path.exists(python) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
        os.execv(python, [python, os.path.abspath(__file__), *sys.argv[1:]])
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['VERIF_TIER'] = tier
    sys.path.insert(0, HERE)
    # The scripts import the code from the working tree, whatever is installed.
    repo = os.environ.get('VF_REPO', '/repo')
    sys.path.insert(1, os.path.join(repo, 'core'))
    sys.path.insert(2, repo)
    from vf.common import Check

    module = importlib.import_module('checks.' + prop.lower())
    check = Check(prop, tier)
    module.main(check)
    return check.finish()


if __name__ == '__main__':
    sys.exit(main())
