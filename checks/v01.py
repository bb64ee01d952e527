"""
V01: <path>.versions holds every version of a path, oldest first.

Spec: Members (MembersMC checks Kept and Stable for all small stacks), ViewTrace judges the version folders observed on real
mounts.
"""

from vf import viewjobs as vj

from .t01 import run, single
from .u01 import KINDS, fitting, options


def main(check):
    rng = check.rng
    check.model('MembersMC')
    small = single(check)
    rng.shuffle(small)
    jobs = [vj.job(rng, [fitting(rng, s) for s in srcs], True, options=options(rng))
            for srcs in small[: check.pick(1800, 20000)]]
    for _ in range(check.pick(1200, 9000)):
        names = rng.choice(['ab', 'ab', 'abc'])
        srcs = [vj.random_source(rng, KINDS, rng.choice([1, 3, 6, 9, 14]), special=rng.random() < 0.3, names=names)
                for _ in range(rng.choice([1, 1, 2, 3]))]
        jobs.append(vj.job(rng, srcs, True, options=options(rng)))
    for _ in range(check.pick(500, 4000)):
        # Chains of hard links through paths which are stored several times.
        members = [vj.random_link(rng, i) for i in range(rng.choice([3, 4, 5, 7]))]
        jobs.append(vj.job(rng, [{'k': rng.choice(['gnu', 'pax', 'gnu.gz']), 'm': members}], rng.random() < 0.7))
    rng.shuffle(jobs)
    run(check, jobs)
