"""
T01: the tree shown for a TAR is the one its sequence of members describes.

Spec: Members (model checked by MembersMC), ViewTrace judges what is observed on real mounts of real TARs.
"""

from vf import speed
from vf import viewjobs as vj


def single(check, versions=False):
    """all member sequences up to three members, as TLC emits them"""
    from vf import tlc

    import json
    import os

    with open(os.path.join(tlc.SPECS, 'MembersMC.cfg')) as f:
        text = f.read().replace('Emit = FALSE', 'Emit = TRUE').replace('PROPERTY Stable', '')
    r = tlc.run('MembersMC', cfg_text=text)
    return sorted(r.json('S'), key=json.dumps)


def run(check, jobs, share=0.6):
    speed.prepare()
    traces = [t for _, t in check.map(vj.execute, jobs, deadline=check.budget * share)]
    check.executions += len(traces)
    for t in traces[:3]:
        check.sample({'sources': t['srcs'], 'tree': [(n['p'], n['t']) for n in t['tree']]})
    check.validate('ViewTrace', traces, vj.describe)


def main(check):
    rng = check.rng
    check.model('MembersMC')
    small = [s for s in single(check) if len(s) == 1]
    rng.shuffle(small)
    jobs = [vj.job(rng, [{'k': rng.choice(vj.TARS), 'm': s} for s in srcs], False) for srcs in small]
    for _ in range(check.pick(2500, 12000)):
        jobs.append(vj.job(rng, [vj.random_source(rng, vj.TARS, rng.choice([1, 3, 6, 9, 14]))], False))
    rng.shuffle(jobs)
    run(check, jobs)
