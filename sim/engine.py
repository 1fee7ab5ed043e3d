"""Seeded search over scenarios, minimisation, replay files, evidence."""
import copy
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import world
from .common import Violation, Ctx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL_GUARD = float(os.environ.get('KOLOMBOS_WALL', 0)) or None


def registry():
    from . import checks_cli, checks_fmt, checks_gen, checks_io, checks_lay, checks_leg, checks_lib, checks_str, checks_val
    d = {}
    for m in (checks_cli, checks_fmt, checks_gen, checks_io, checks_lay, checks_leg, checks_lib, checks_str, checks_val):
        for v in vars(m).values():
            if isinstance(v, type) and getattr(v, 'id', None):
                d[v.id] = v
    return d


def evaluate(check, sc):
    """(violation or None, error text or None, Ctx)"""
    cx = Ctx()
    try:
        check.evaluate(copy.deepcopy(sc), cx)
        return None, None, cx
    except Violation as e:
        return e, None, cx
    except world.Undecided as e:
        cx.hit('not judged: too expensive')
        cx.nontrivial = False
        return None, None, cx
    except Exception:
        return None, traceback.format_exc(), cx


def scenario(check, seed, i, tier):
    return check.gen(random.Random(f'{seed}:{check.id}:{i}'), i, tier)


def _job(a):
    cid, seed, i, tier, given = a
    check = registry()[cid]()
    try:
        sc = given if given is not None else scenario(check, seed, i, tier)
    except Exception:
        return dict(i=i, v=None, err=traceback.format_exc())
    t = time.perf_counter()
    v, err, cx = evaluate(check, sc)
    first = cx.first
    return dict(i=i, v=(v.cls, v.msg) if v else None, err=err, runs=cx.runs, clock=cx.clock, faults=cx.faults, probes=cx.probes,
                digest=cx.hash.hexdigest()[:24], nontrivial=cx.nontrivial, dt=time.perf_counter() - t,
                sc=sc if (v or err or i < 3) else None, events=len(first['log']) if first else 0,
                head=[list(map(str, e)) for e in first['log'][:12]] if first and i < 3 else None)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='kolosim-', dir='/tmp')
        world.SCRATCH_ROOT = self.d
        return self

    def __exit__(self, *a):
        world.SCRATCH_ROOT = None
        shutil.rmtree(self.d, ignore_errors=True)


def corpus(cid):
    p = os.path.join(VERIF, 'corpus', cid + '.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x['scenario'] for x in json.load(f)]


def known(cid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith(f'finding: property={cid} '):
                out.append(ln[len('finding: '):].strip())
    return out


def search(cid, tier, seed, count=None, workers=None, keep_going=False, limit=None):
    cls = registry()[cid]
    n = count or getattr(cls, tier)
    fixed = corpus(cid)
    jobs = [(cid, seed, -1 - k, tier, sc) for k, sc in enumerate(fixed)] + [(cid, seed, i, tier, None) for i in range(n)]
    workers = workers or os.cpu_count() or 4
    t0 = time.monotonic()
    guard = limit or WALL_GUARD or (600 if tier == 'quick' else 4 * 3600)
    tot = dict(evaluations=0, runs=0, clock=0.0, faults={}, probes={}, digests=set(), nontrivial=set(), samples=[], events=0, corpus=len(fixed), errors=[], planned=len(jobs), dt=0.0)
    found = None
    all_found = []
    with multiprocessing.Pool(workers) as pool:
        it = pool.imap(_job, jobs, chunksize=1 if n < 200 else 4)
        for r in it:
            if r.get('err'):
                tot['errors'].append((r['i'], r['err'], r.get('sc')))
                if len(tot['errors']) > 20: break
                continue
            tot['evaluations'] += 1
            tot['runs'] += r['runs']
            tot['clock'] += r['clock']
            tot['events'] += r['events']
            tot['dt'] += r['dt']
            for k in ('faults', 'probes'):
                for x, y in r[k].items(): tot[k][x] = tot[k].get(x, 0) + y
            tot['digests'].add(r['digest'])
            if r['nontrivial']: tot['nontrivial'].add(r['digest'])
            if r['i'] >= 0 and r['sc'] is not None and r['head'] is not None and len(tot['samples']) < 3:
                tot['samples'].append(dict(seed=f'{seed}:{cid}:{r["i"]}', scenario=clip(r['sc']), first_events=r['head']))
            if r['v']:
                found = found or r
                all_found.append(r)
                if not keep_going: break
            if time.monotonic() - t0 > guard:
                tot['stopped_early'] = True
                break
        pool.terminate()
    tot['wall'] = time.monotonic() - t0
    tot['all'] = all_found
    return found, tot


def clip(x, n=400):
    if isinstance(x, str): return x if len(x) <= n else f'{x[:n]}… ({len(x)} chars)'
    if isinstance(x, dict): return {k: clip(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [clip(v, n) for v in x[:60]] + ([f'… {len(x) - 60} more'] if len(x) > 60 else [])
    return x


# --------------------------------------------------------------- minimisation

LISTS = {'inp', 'plan', 'faults', 'runs', 'steps', 'calls', 'events', 'focus', 'ignore', 'term', 'a', 'stdin_plan', 'options'}


def paths(x, p=()):
    """All containers of the scenario, outermost first."""
    yield p, x
    if isinstance(x, dict):
        for k, v in x.items():
            yield from paths(v, p + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from paths(v, p + (k,))


def get(x, p):
    for k in p: x = x[k]
    return x


def with_value(x, p, v):
    x = copy.deepcopy(x)
    if not p: return v
    get(x, p[:-1])[p[-1]] = v
    return x


def candidates(sc):
    """Simpler scenarios, the boldest first."""
    from .checks_io import DEFAULT_O
    lists = [(p, x) for p, x in paths(sc) if isinstance(x, list) and p and (p[-1] in LISTS or (len(p) > 1 and 'steps' in p and x and isinstance(x[0], (list, dict))))]
    for p, x in lists:                                   # cut lists
        lo = 1 if p[-1] in ('term', 'runs', 'steps', 'calls') else 0
        n = len(x)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                y = x[:s] + x[s + size:]
                if len(y) >= lo and len(y) < n:
                    yield with_value(sc, p, y)
            size //= 2
    for p, x in paths(sc):                               # options back to default
        if p and p[-1] == 'o' and isinstance(x, dict):
            for k, v in DEFAULT_O.items():
                if k in x and x[k] != v and k != 'mode':
                    yield with_value(sc, p + (k,), copy.deepcopy(v))
        if p and p[-1] == 'src' and x in ('fifo', 'stdin', 'dash'):
            yield with_value(sc, p, 'file')
        if p and p[-1] in ('inject',) and x:
            yield with_value(sc, p, None)
    for p, x in paths(sc):                               # input bytes
        if len(p) >= 2 and p[-2] == 'inp' and isinstance(x, list) and len(x) == 2 and isinstance(x[0], str):
            h, n = x
            for m in (1, n // 2, n - n // 8, n - 1):
                if 0 < m < n: yield with_value(sc, p, [h, m])
            b = bytes.fromhex(h)
            size = len(b) // 2
            while size >= 1:
                for s in range(0, len(b), size):
                    y = b[:s] + b[s + size:]
                    if y: yield with_value(sc, p, [y.hex(), n])
                size //= 2
            if len(b) <= 40:
                for k in range(len(b)):
                    for c in b'a\n\x1b':
                        if b[k] != c and b[k] not in b'a\n\x1b':
                            yield with_value(sc, p, [(b[:k] + bytes([c]) + b[k + 1:]).hex(), n])
                            break
    for p, x in paths(sc):                               # numbers
        if isinstance(x, int) and not isinstance(x, bool) and x > 1 and p and 'inp' not in p and p[-1] != 'shuffle' and 'attrs' not in p:
            for y in (1, x // 2, x - 1):
                if y < x: yield with_value(sc, p, y)


def minimise(check, sc, cls, max_eval=400, max_wall=120):
    n, t0 = 0, time.monotonic()
    best = sc
    progress = True
    seen = set()
    while progress and n < max_eval:
        progress = False
        for c in candidates(best):
            if n >= max_eval or time.monotonic() - t0 > max_wall: return best, n
            k = json.dumps(c, sort_keys=True)
            if k in seen: continue
            seen.add(k)
            n += 1
            try:
                v, err, _ = evaluate(check, c)
            except Exception:
                continue
            if v is not None and v.cls == cls:
                best = c
                progress = True
                break
    return best, n


# -------------------------------------------------------------------- replays

def write_replay(check, tier, seed, r):
    world.CPU_CAP = world.CPU_LIMIT + 1
    try:
        sc, evals = minimise(check, r['sc'], r['v'][0])
    finally:
        world.CPU_CAP = None
    v, err, cx = evaluate(check, sc)
    if v is None:         # must not happen: runs are pure functions of the scenario
        sc, evals = r['sc'], 0
        v, err, cx = evaluate(check, sc)
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{check.id}-{seed}-{r["i"]}.json')
    doc = dict(property=check.id, seed=seed, index=r['i'], tier=tier, **{'class': v.cls if v else r['v'][0]}, message=v.msg if v else r['v'][1], scenario=sc,
               digest=cx.hash.hexdigest(), minimised_with=evals, unminimised_scenario=r['sc'],
               trace=[list(map(str, e)) for e in cx.first['log'][:400]] if cx.first else [])
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, ensure_ascii=True)
        f.write('\n')
    return path, doc


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    check = registry()[doc['property']]()
    v, err, cx = evaluate(check, doc['scenario'])
    if err:
        print(err)
        return 2
    if v is None:
        print(f'the scenario of {path} does not violate {doc["property"]} on this tree')
        return 0
    same = v.cls == doc['class'] and cx.hash.hexdigest() == doc['digest']
    print(f'VIOLATION property={doc["property"]} replay={path}')
    print(f'{v.cls}: {v.msg}')
    print('reproduced exactly (same violation, same event log)' if same else 'differs from the recorded execution')
    return 1


# ----------------------------------------------------------------------- main

def write_evidence(check, tier, seed, tot, violations):
    h = max(tot['wall'], 1e-9) / 3600
    comp = check.components
    cov = dict(evaluations=tot['evaluations'], distinct_nontrivial=len(tot['nontrivial']), rule=check.rule, samples=tot['samples'],
               simulated_runs=tot['runs'], seeds_per_hour=round(tot['evaluations'] / h), simulated_runs_per_hour=round(tot['runs'] / h),
               simulated_seconds=round(tot['clock'], 3), events_in_first_runs=tot['events'], faults_fired=dict(sorted(tot['faults'].items())),
               conditions_reached=dict(sorted(tot['probes'].items())), distinct_histories=len(tot['digests']),
               distinct_measure='SHA-256 over the complete event logs, outputs and exit statuses of all runs of a scenario',
               regression_scenarios=tot['corpus'], real_components=comp['real'], stub_components=comp['stub'],
               stopped_early=bool(tot.get('stopped_early')), harness_errors=len(tot['errors']))
    doc = dict(property=check.id, tier=tier, seed=seed, level=check.level, coverage=cov, assumptions=list(check.assumptions) + COMMON_ASSUMPTIONS,
               wall_s=round(tot['wall'], 2), violations=violations)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{check.id}.{os.getpid()}')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(d, check.id + '.json'))


COMMON_ASSUMPTIONS = ['CPython 3.12; a run of the application is a forked process with simulated devices, whose executions are pure functions of the scenario.',
                      'The search samples schedules, faults and inputs; it does not enumerate them.']


def run_check(cid, tier, seed, count=None, workers=None, evidence=True):
    check = registry()[cid]()
    for k in known(cid):
        print('KNOWN-FINDING: ' + k)
    found, tot = search(cid, tier, seed, count, workers)
    if evidence:
        write_evidence(check, tier, seed, tot, 1 if found else 0)
    print(f'{cid}: {tot["evaluations"]} scenarios, {tot["runs"]} runs, {len(tot["nontrivial"])} distinct non-trivial, {tot["wall"]:.1f} s')
    if found:
        path, doc = write_replay(check, tier, seed, found)
        try:
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path], capture_output=True, text=True, timeout=200)
            conf = 'reproduced exactly' in p.stdout
        except subprocess.TimeoutExpired:
            conf = False
        print(f'VIOLATION property={cid} replay={path}')
        print(f'{doc["class"]}: {doc["message"]}')
        print(f'seed {seed}, scenario {found["i"]}, minimised in {doc["minimised_with"]} evaluations, replay in a fresh process: {"reproduced exactly" if conf else "NOT reproduced"}')
        return 1
    if tot['errors']:
        print(f'{len(tot["errors"])} harness errors; the first one (scenario {tot["errors"][0][0]}):')
        print(tot['errors'][0][1])
        return 2
    if not tot['evaluations']:
        print('nothing was evaluated')
        return 2
    return 0
