import json
import os
import sys
import time

from . import bootstrap

bootstrap.setup()

import warnings

warnings.simplefilter('ignore')

import numpy as np

np.seterr(all='ignore')

from . import engine, props
from .engine import FACETS, run_case, run_shard

V = bootstrap.VERIF
OUT = os.environ.get('VERIF_OUT', V)  # somewhere else when trying scratch copies
CHUNK = 150
QUICK = 2.5                              # the case counts at the facets are multiplied by this


def known_findings():
    """Lines 'known: property=<id> facet=<name> case=<json> what=<text>' list unrepaired defects."""
    out = []
    path = os.path.join(V, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):
                head, _, rest = line[7:].partition(' case=')
                d = dict(x.split('=', 1) for x in head.split())
                case, _, what = rest.partition(' what=')
                d['case'], d['what'] = json.loads(case), what.strip()
                out.append(d)
    return out


def job_shard(pid, name, seed, shard, n):
    return run_shard(FACETS[pid][name], seed, shard, n)


def job_case(pid, name, case):
    return run_case(FACETS[pid][name], case)


def save_replay(pid, fail):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{fail['facet']}.json")
    with open(path, 'w') as fh:
        json.dump(fail, fh, indent=1)
    return os.path.relpath(path, V) if OUT == V else path


def replay(pid, path):
    d = json.load(open(path))
    if d['kind'] == 'case':
        res = engine.isolated(job_case, pid, d['facet'], d['case'])
        bad = res[1] if res[0] == 'ok' else f'process ended: {res}'
        if res[0] == 'error':
            print(res[1])
            return 2
    else:
        res = engine.isolated(job_shard, pid, d['facet'], d['seed'], d['shard'], d['n'], timeout=850)
        if res[0] == 'error':
            print(res[1])
            return 2
        bad = (res[1][1] or {}).get('message') if res[0] == 'ok' else f'process ended by signal {res[1]}'
    if bad:
        print(bad)
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print('replay: the property holds on this case')
    return 0


def main(argv):
    pid = argv[0]
    opts = dict(zip(argv[1::2], argv[2::2]))
    props.load(pid)
    if '--replay' in opts:
        return replay(pid, opts['--replay'])
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    factor = float(opts.get('--n', 1)) * (QUICK if tier == 'quick' else 1)
    facets = FACETS[pid]
    if '--facet' in opts:
        facets = {k: v for k, v in facets.items() if k in opts['--facet'].split(',')}
    deadline = t0 + (840 if tier == 'quick' else 6 * 3600)
    jobs = [(pid, f.name, seed, -1, 0) for f in facets.values() if f.pinned]
    rest = []
    for f in facets.values():
        n = max(1, int((f.quick if tier == 'quick' else f.thorough) * factor))
        k = max(1, min(round(n / CHUNK), 8 if tier == 'quick' else 400))
        rest += [(i / k, pid, f.name, seed, i, -(-n // k)) for i in range(k)]
    jobs += [r[1:] for r in sorted(rest)]
    width = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
    stats = {name: engine.Stats() for name in facets}
    fail = None
    try:
        for job, res in engine.Pool(jobs, job_shard, width, deadline).results():
            _, name, _, shard, n = job
            where = dict(property=pid, facet=name, seed=seed, shard=shard, n=n)
            if res[0] == 'error':
                print(f'harness error in {name} shard {shard}:\n{res[1]}')
                return 2
            if res[0] == 'signal':
                if res[1] in (9, 15):
                    print(f'inconclusive: worker of {name} was killed ({res[1]})')
                    return 2
                fail = dict(where, kind='shard', message=f'the process crashed with signal {res[1]}')
                break
            st, bad = res[1]
            stats[name].merge(st)
            if bad:
                again = engine.isolated(job_case, pid, name, bad['case'])
                reproduced = again[0] == 'signal' or (again[0] == 'ok' and again[1])
                if shard == -1 or reproduced:
                    fail = dict(where, kind='case', **bad)
                else:
                    fail = dict(where, kind='shard', **bad)
                break
    except TimeoutError:
        print('inconclusive: time budget used up')
        return 2
    finally:
        evidence(pid, tier, seed, facets, stats, fail, time.time() - t0)
    for k in known_findings():
        if k['property'] == pid and k['facet'] in facets:
            res = engine.isolated(job_case, pid, k['facet'], k['case'])
            if res[0] != 'ok' or res[1]:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if fail:
        path = save_replay(pid, fail)
        print(f"facet {fail['facet']}: {fail['message']}")
        print('case:', json.dumps(fail.get('case'))[:2000])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    total = sum(s.evaluations for s in stats.values())
    nt = sum(len(s.hashes) for s in stats.values())
    print(f'{pid}: held on {total} cases ({nt} distinct non-trivial), {time.time() - t0:.1f} s')
    if '--stats' in opts:
        for name, s in stats.items():
            print(' ', name, s.evaluations, 'cases', len(s.hashes), 'nontrivial', s.discarded, 'discarded',
                  dict(s.labels.most_common(int(opts['--stats']))))
    return 0


def evidence(pid, tier, seed, facets, stats, fail, wall):
    samples = []
    for name, s in stats.items():
        for c in s.samples[3:6] or s.samples[:3]:
            samples.append(dict(facet=name, case=c))
    d = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(s.evaluations for s in stats.values()),
            distinct_nontrivial=sum(len(s.hashes) for s in stats.values()),
            rule='; '.join(f'{n}: {f.rule}' for n, f in facets.items()),
            samples=samples[:60],
            facets={n: dict(evaluations=s.evaluations, distinct_nontrivial=len(s.hashes), discarded=s.discarded,
                            labels=dict(s.labels.most_common(40))) for n, s in stats.items()},
        ),
        assumptions=[
            'IEEE double arithmetic of the installed NumPy; oracles use exact rational arithmetic or the stated tolerance',
            'generated-input search: it can miss a violation outside the generated region',
        ],
        wall_s=round(wall, 2), violations=1 if fail else 0,
    )
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', f'{pid}.json'), 'w') as fh:
        json.dump(d, fh, indent=1)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
