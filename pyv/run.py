"""Check one property: prove its obligations on the current tree, search for
failing inputs, write evidence, print the verdict."""
import argparse
import base64
import json
import multiprocessing as mp
import os
import pickle
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyv import unit as U   # noqa: E402

VERIF = U.VERIF
EVID = os.path.join(VERIF, 'evidence')
CTX = mp.get_context('fork')
JOBS = int(os.environ.get('PYV_JOBS', '8'))

TRUSTED = [
    'pyv: this verification-condition generator (AST of the checked-out source -> path exploration, loop closed forms proved by induction) and its ring normal form',
    'z3 (back end for every residual obligation)',
    'CPython semantics of the covered subset as modelled in pyv/interp.py and pyv/builtins_.py (cross-checked by running code and contract natively on generated inputs each run)',
]


def child(fn, conn):
    try:
        r = fn()
    except BaseException as e:
        r = ('error', '%r\n%s' % (e, traceback.format_exc()))
    try:
        conn.send(r)
    except Exception as e:
        conn.send(('error', 'unpicklable: %r' % (e,)))
    conn.close()
    os._exit(0)


def run_jobs(jobs, limit=JOBS, until=None):
    """jobs: list of (key, fn, timeout).  Forked, at most `limit` at a time, none running after `until`."""
    out = {}
    live = {}
    todo = list(jobs)
    while todo or live:
        while todo and len(live) < limit:
            key, fn, to = todo.pop(0)
            if until is not None:
                to = min(to, until - time.time())
                if to <= 0:
                    out[key] = ('timeout', 'time limit of the check')
                    continue
            a, b = CTX.Pipe(False)
            p = CTX.Process(target=child, args=(fn, b))
            p.start()
            b.close()
            live[key] = (p, a, time.time() + to)
        done = []
        mp.connection.wait([v[1] for v in live.values()], timeout=0.5)
        for key, (p, a, dl) in live.items():
            dead = not p.is_alive()     # before poll: a result sent just before exit is still in the pipe
            if a.poll():
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = ('error', 'worker died')
                done.append(key)
            elif dead:
                out[key] = ('error', 'worker died')
                done.append(key)
            elif time.time() > dl:
                p.kill()
                out[key] = ('timeout', 'hard limit')
                done.append(key)
        for key in done:
            p, a, _ = live.pop(key)
            a.close()
            p.join()
    return out


def prove_job(name, disabled, scale=1):
    u = U.BYNAME[name]

    def fn():
        os.environ['PYTHONHASHSEED'] = '0'
        R = U.verify(u, disabled, u.budget * scale)
        inp = None
        if R.status == 'failed' and u.native:
            U.native_setup()
            m = U.replay_models(u, R)
            if m:
                inp = (base64.b64encode(pickle_args(m[0])).decode(), U.describe(m[0]), m[1])
        return ('ok', dict(status=R.status, detail=R.detail, paths=R.paths,
                           obligations=[list(o) for o in R.obligations], wall=R.wall, used=sorted(R.used),
                           inlined=sorted(R.inlined), loops=R.loops, queries=R.queries, solver_s=R.solver_s,
                           model=inp, tb=getattr(R, 'tb', '')))
    return (name, fn, u.budget * scale * 1.5 + 20)


def pickle_args(a):
    try:
        return pickle.dumps(a)
    except Exception:
        return b''


def search_job(name, seed, seconds, maxcases):
    u = U.BYNAME[name]

    def fn():
        U.native_setup()
        args, msg, n, nt = U.search(u, seed, seconds, maxcases)
        if msg:
            return ('ok', dict(found=True, msg=msg, args=U.describe(args)[:4000], n=n, nt=nt,
                               pick=base64.b64encode(pickle_args(args)).decode()))
        return ('ok', dict(found=False, n=n, nt=nt))
    return (name, fn, seconds * 4 + 60)


def prove_all(names, until, again):
    """Prove units and everything they rely on, by the time `until`.  Returns {name: result}."""
    res = {}
    disabled = set()
    todo = list(names)
    pending_dis = {}
    while True:
        jobs = []
        for n in todo:
            jobs.append(prove_job(n, frozenset(disabled)))
        if not jobs:
            break
        jobs.sort(key=lambda j: -(U.BYNAME[j[0]].cost or 1))
        out = run_jobs(jobs, until=until)
        retry = []
        for n, r in out.items():
            if r[0] == 'ok' and r[1]['status'] in ('proved', 'native'):
                continue
            if r[0] != 'ok' or 'budget' in r[1]['detail'] or 'time' in r[1]['detail'] or r[1]['status'] == 'failed':
                retry.append(n)
        if retry and again and time.time() < until - 60:
            # once more, with little concurrency and a larger budget
            o2 = run_jobs([prove_job(n, frozenset(disabled), 3) for n in retry[:12]], 4, until)
            out.update(o2)
        for n, r in out.items():
            if r[0] != 'ok':
                r = ('ok', dict(status='unsupported', detail='%s: %s' % (r[0], r[1][-300:]), paths=0, obligations=[], wall=0,
                                used=[], inlined=[], loops=0, queries=0, solver_s=0, model=None, tb=''))
            res[n] = r[1]
        # contracts used but not themselves proved may not be relied on
        nxt = set()
        for n, r in res.items():
            for d in r['used']:
                if d not in res and d in U.BYNAME:      # others are declared assumptions of the unit
                    nxt.add(d)
        bad = {n for n, r in res.items() if r['status'] not in ('proved',) and U.BYNAME[n].use} - disabled
        if bad:
            disabled |= bad
            for n, r in list(res.items()):
                if set(r['used']) & bad:
                    nxt.add(n)
                    del res[n]
        todo = sorted(nxt)
    return res, disabled


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    quick = a.tier != 'thorough'
    prop = a.prop
    t0 = time.time()
    U.native_setup()
    os.makedirs(EVID, exist_ok=True)
    import all_units   # noqa
    units = [u for u in U.UNITS if prop in u.props and not (quick and u.thorough)]
    if not units:
        print('no units for', prop)
        sys.exit(2)
    sym = [u.name for u in units if u.symbolic]
    nat = [u for u in units if u.native]
    violations = []
    # concrete inputs first: they are cheap and decide how long proofs are retried
    total = (40 if quick else 240) * JOBS
    per = min(6.0 if quick else 40.0, total / max(1, len(nat)))
    jobs = []
    for u in nat:
        sec = per
        mc = 3000 if quick else 20000
        if u.symbolic:
            sec = min(per, 1.5 if quick else 6.0)
            mc = 400 if quick else 3000
        else:
            sec = max(sec, u.nbudget or 0)
        jobs.append(search_job(u.name, seed, sec, mc))
    sr = run_jobs(jobs)
    again = [j for j in jobs if sr[j[0]][0] != 'ok']
    if again:
        sr.update(run_jobs(again, 2))
    ncases = nnt = 0
    serr = []
    for n, r in sr.items():
        if r[0] != 'ok':
            serr.append((n, r[0], r[1][-500:]))
            continue
        ncases += r[1]['n']
        nnt += r[1]['nt']
        if r[1]['found']:
            violations.append(dict(unit=n, kind='failing input found by search', args=r[1]['args'], msg=r[1]['msg'], pick=r[1]['pick']))
    ts = time.time()
    left = (180 if violations else 620) if quick else (600 if violations else 3000)
    res, disabled = prove_all(sym, ts + left, not violations)
    t1 = time.time()
    unproved = {n for n in sym if res[n]['status'] != 'proved'}
    hit = {v['unit'] for v in violations}
    for n in sorted(unproved):
        m = res[n]['model']
        if m and n not in hit:
            violations.append(dict(unit=n, kind='counterexample of the verifier, replayed', args=m[1], msg=m[2], pick=m[0]))
    # unproved without input: search longer once if nothing was found at all
    if (unproved or serr) and not violations:
        extra = [search_job(n, seed + 7919, 25 if quick else 90, 10 ** 6) for n in sorted(unproved) if U.BYNAME[n].native][:24]
        extra += [search_job(u.name, seed + 104729, 15 if quick else 60, 10 ** 6) for u in nat if u.name not in unproved][:16]
        for n, r in run_jobs(extra).items():
            if r[0] == 'ok':
                ncases += r[1]['n']
                nnt += r[1]['nt']
                if r[1]['found']:
                    violations.append(dict(unit=n, kind='failing input found by search', args=r[1]['args'], msg=r[1]['msg'], pick=r[1]['pick']))
    # a stand-in that is bounded anyway and whose code has left the covered subset: concrete runs only, and said so
    fallback = {n for n in unproved if U.BYNAME[n].bounded and res[n]['status'] == 'unsupported' and U.BYNAME[n].native}
    for n in sorted(unproved - fallback):
        if not any(v['unit'] == n for v in violations):
            violations.append(dict(unit=n, kind='obligation not discharged', args=None, msg=res[n]['detail'], pick='', tb=res[n]['tb'][-3000:]))
    for n, k, d in serr:
        violations.append(dict(unit=n, kind='search error', args=None, msg='%s %s' % (k, d), pick=''))
    obl = {}
    for n in sym:
        r = res[n]
        bounded = U.BYNAME[n].bounded
        obl[n] = dict(status=r['status'], obligations=len(r['obligations']), paths=r['paths'], loops=r['loops'],
                      wall_s=round(r['wall'], 2), queries=r['queries'], bounded=bounded,
                      relies_on=r['used'])
    proof_units = [n for n in sym if not U.BYNAME[n].bounded]
    bounded_units = [n for n in sym if U.BYNAME[n].bounded] + [u.name for u in units if not u.symbolic]
    total_ob = sum(max(1, len(res[n]['obligations'])) for n in proof_units)
    done_ob = sum(len([o for o in res[n]['obligations'] if o[1] == 'ok']) for n in proof_units if res[n]['status'] == 'proved')
    deps = sorted(n for n in res if n not in sym)
    funcs = sorted({U.BYNAME[n].target for n in sym if U.BYNAME[n].target} | {U.BYNAME[n].target for n in deps if U.BYNAME[n].target})
    inl = sorted({q for n in res for q in res[n]['inlined'] if not q.startswith('s_') and not q.startswith('vlib')})
    level = 'proof' if proof_units else 'exploration'
    from spec_info import ASSUME
    assumptions = list(ASSUME.get('*', [])) + ASSUME.get(prop, [])
    for n in bounded_units:
        assumptions.append('BOUNDED, not proved: unit %s%s' % (n, ' (%s)' % U.BYNAME[n].bounded if U.BYNAME[n].bounded else ' (concrete inputs only)'))
    for d in sorted({d for n in res for d in res[n]['used'] if d not in U.BYNAME}):
        assumptions.append('contract of %s assumed, not proved, in %s' % (d, ', '.join(sorted(n for n in res if d in res[n]['used']))))
    for n in sorted(fallback):
        assumptions.append('bounded unit %s was out of reach of the verifier on this tree (%s): concrete inputs only' % (n, res[n]['detail'][:120]))
    for n in deps:
        if U.BYNAME[n].bounded:
            assumptions.append('relies on the contract %s, itself checked only %s' % (n, U.BYNAME[n].bounded))
    cov = dict(obligations=total_ob, discharged=done_ob, checker_cmd='./check %s' % prop,
               trusted_base=TRUSTED, functions_under_contract=funcs, functions_inlined=inl,
               contracts_relied_on={n: res[n]['status'] for n in deps}, contracts_disabled=sorted(disabled),
               units=obl, back_end='pyv normal form + z3 %s' % __import__('z3').get_version_string(),
               solver_queries=sum(res[n]['queries'] for n in res), solver_s=round(sum(res[n]['solver_s'] for n in res), 2),
               bounded_units=bounded_units, prove_wall_s=round(t1 - ts, 1),
               evaluations=max(1, ncases), distinct_nontrivial=nnt, rule='code and contract run natively on generated inputs and compared',
               samples=[n for n in list(sr)[:5]], explanation='contracts proved function by function; concrete runs are a cross-check')
    ev = dict(property=prop, tier='quick' if quick else 'thorough', seed=seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if a.v:
        for n in sym:
            print('%-44s %-11s %5.1fs obl=%d %s' % (n, res[n]['status'], res[n]['wall'], len(res[n]['obligations']), res[n]['detail']))
    print('%s: %d/%d obligations discharged in %d units (%d bounded), %d native cases, %.1fs' % (
        prop, done_ob, total_ob, len(units), len(bounded_units), ncases, time.time() - t0))
    if total_ob + len(bounded_units) == 0:
        print('no obligations')
        sys.exit(2)
    if violations:
        rd = os.path.join(EVID, 'replays')
        os.makedirs(rd, exist_ok=True)
        # the ones with an input first
        violations.sort(key=lambda v: v['args'] is None)
        v = violations[0]
        path = os.path.join(rd, '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=a.tier, seed=seed, first=v, all=[dict(x, pick='') for x in violations],
                           how='cd /verif && python3-vt -m pyv.replay %s' % path), f, indent=1)
        for x in violations[:8]:
            print('  [%s] %s: %s' % (x['unit'], x['kind'], str(x['msg'])[:300]))
            if x['args']:
                print('     input:', x['args'][:300])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v['args'] is not None else ' no-failing-input-found'))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    import multiprocessing.connection   # noqa
    main()
