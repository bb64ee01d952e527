"""
U01: the view on several sources is their union with the rightmost one taking precedence.

Spec: Members (MembersMC checks Precedence, Union, Kept and Stable for all small stacks), ViewTrace judges what is observed on
real mounts of real archives and folders for any limit of the union cache.
"""

from vf import viewjobs as vj
from vf import views

from .t01 import run, single

KINDS = ['gnu', 'gnu', 'pax', 'gnu.gz', 'zip', 'zip', 'folder', 'folder', 'folder']


def options(rng):
    return {
        **rng.choice([{}, {}, {'recursive': True}, {'recursive': True, 'lazyMounting': True}, {'controlInterface': True}]),
        **rng.choice([{}, {}, {'maxCacheDepth': rng.choice([0, 1, 2, 3, 4])}, {'maxCacheEntries': rng.randint(0, 8)},
                      {'maxSecondsToCache': 0}]),
    }


def fitting(rng, members):
    kinds = [k for k in KINDS if k == 'gnu' or vj.holds(k, members)]
    kind = rng.choice(kinds)
    if kind == 'zip':
        members = [vj.zip_time(m) for m in members]
    return {'k': kind, 'm': members}


def main(check):
    rng = check.rng
    check.model('MembersMC')
    small = [s for s in single(check) if len(s) > 1]
    rng.shuffle(small)
    jobs = [vj.job(rng, [fitting(rng, s) for s in srcs], False, options=options(rng))
            for srcs in small[: check.pick(2200, 20000)]]
    for _ in range(check.pick(2600, 14000)):
        # Few names on few levels so that the sources overlap.
        names = rng.choice(['ab', 'ab', 'abc', 'abcd'])
        srcs = [vj.random_source(rng, KINDS, rng.choice([1, 2, 3, 5, 9]), special=rng.random() < 0.3, names=names)
                for _ in range(rng.choice([2, 2, 3, 4]))]
        jobs.append(vj.job(rng, srcs, False, options=options(rng), names=rng.choice([0, 0, 0, *range(len(views.NAMES))])))
    rng.shuffle(jobs)
    run(check, jobs)
