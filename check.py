#!/opt/venv/bin/python
# -*- coding: utf-8 -*-
"""check.py PROPERTY [--tier quick|thorough] [--only CONTRACT] [--seed N] [-v]

Discharges every contract the property rests on, from /repo's current source."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

import env

HERE = env.HERE
EVID = os.path.join(HERE, 'evidence')


def load(prop=None):
    env.start()
    import contracts
    contracts.load_all()


def closure(prop):
    """Contracts of the property, plus the refinement contracts of every callee
    contract they are checked against."""
    from pyvc import harness as H
    own = [c for c in H.CONTRACTS if c.prop == prop or prop in c.also]
    todo, out, seen = list(own), [], set()
    while todo:
        c = todo.pop(0)
        if c.name in seen:
            continue
        seen.add(c.name)
        out.append(c)
        for path in c.uses:
            for d in H.CONTRACTS:
                if d.kind == 'refinement' and path in d.functions and d.name not in seen:
                    todo.append(d)
    return own, out


def harvest():
    """String literals of the code under test, as raw material for inputs."""
    import ast
    import collections
    cnt = collections.Counter()
    for root, _, files in os.walk(os.path.join(env.REPO, 'ocelot')):
        for f in files:
            if not f.endswith('.py') or '/data' in root:
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), encoding='utf-8').read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 45 and '\n' not in n.value:
                    cnt[n.value] += 1
    lits = sorted(cnt)
    # values that start, end or merely continue like a literal of the code
    return lits + [f % x for x in lits if len(x) < 25 for f in ('%s x', 'x %s', '%sa + b')]


def worker(args):
    idx, tier, seed, log = args
    from pyvc import harness as H
    c = H.CONTRACTS[idx]
    thorough = tier == 'thorough'
    out = {'contract': c.name, 'prop': c.prop, 'kind': c.kind}
    t0 = time.time()
    try:
        if c.mode == 'concrete':
            res = H.Result(c)
            res.status, res.why = 'bounded', c.note or 'outside the verifier\'s reach'
            res.interp = None
        else:
            res = H.verify(c, log_goals=thorough, budget=c.budget * (4 if thorough else 1))
    except Exception as e:      # never let a verifier failure look like a verdict
        res = H.Result(c)
        res.status, res.why = 'undecided', 'internal: %r' % e
    out.update(status=res.status, why=res.why, paths=res.paths, loops=res.loops,
               functions=res.functions, solver_time=res.solver_time, queries=res.queries,
               tb=getattr(res, 'tb', None),
               obligations={o.name: {'status': o.status, 'paths': o.paths, 'why': o.why, 'time': round(o.time, 3)}
                            for o in res.obligations.values()})
    failing = None
    strings = harvest()
    if res.status == 'refuted':
        failing = H.from_models(res, c)
        if failing is None:
            try:
                rb = H.verify(c, mode='B', maxlen=2, budget=20, goal_timeout=5000)
                failing = H.from_models(rb, c)
            except Exception:
                pass
    # concrete runs of the same contract on the real code
    tries = c.tries or 400
    secs = 6
    if thorough:
        tries, secs = tries * 40, 120
    if res.status == 'refuted':
        tries, secs = tries * 20, 40
    elif res.status != 'proved':
        tries, secs = tries * (500 if thorough else 50), (200 if thorough else 20) if res.status == 'bounded' else (120 if thorough else 60)
    if failing is None:
        try:
            s = H.search(c, seed, tries, secs, strings)
        except Exception as e:
            s = {'tried': 0, 'satisfied': 0, 'errors': {'internal: %r' % e: 1}, 'inputs': None}
        out.update(tried=s['tried'], satisfied=s['satisfied'], errors=s['errors'])
        if s['inputs'] is not None:
            failing = dict(s, source='random search, seed %d' % seed)
    if failing is not None:
        try:
            failing['inputs'] = H.minimise(c, failing['inputs'], failing['failed'])
            failing['failed'] = sorted(set(H.run_concrete(c, failing['inputs'])[1]))
        except Exception:
            pass
        out['failing'] = {'inputs': failing['inputs'], 'failed': failing['failed'],
                          'source': failing['source'], 'trace': failing.get('trace')}
    if thorough and res.goals:
        out['cross'] = cross_check(res.goals)
    out['wall'] = round(time.time() - t0, 2)
    return out


def cross_check(goals, limit=60, seconds=240):
    """Second opinion of cvc5 on the proof queries."""
    import subprocess
    import tempfile
    agree = disagree = unknown = 0
    t0 = time.time()
    for tag, smt, r in goals[:limit]:
        if r != 'unsat' or time.time() - t0 > seconds:
            continue
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', dir=env.SCRATCH, delete=False) as fh:
            fh.write('(set-logic ALL)\n' + smt)
        try:
            o = subprocess.run(['cvc5', '--tlimit=10000', fh.name], capture_output=True, text=True, timeout=20).stdout.strip()
        except subprocess.TimeoutExpired:
            o = 'unknown'
        os.unlink(fh.name)
        if o.startswith('unsat'):
            agree += 1
        elif o.startswith('sat'):
            disagree += 1
        else:
            unknown += 1
    return {'agree': agree, 'disagree': disagree, 'no_answer': unknown}


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


TRUSTED = ['pyvc (this verifier: python semantics, loop summarisation, library models; /verif/pyvc)',
           'z3 5.3.2', 'CPython 3.12 ast module (source of the imported function objects)']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    load()
    from pyvc import harness as H
    if a.selftest:
        from contracts import selftest
        print('%d contracts loaded' % len(H.CONTRACTS))
        return 1 if selftest.run() else 0
    own, cs = closure(a.property)
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    if not cs:
        import contracts
        print('no contract for %s could be loaded: %s' % (a.property, contracts.NOT_LOADED))
        if not contracts.NOT_LOADED:
            return 2
    tasks = [(H.CONTRACTS.index(c), a.tier, a.seed, False) for c in cs]
    tasks.sort(key=lambda t: -H.CONTRACTS[t[0]].budget)
    if len(tasks) == 1 or a.jobs == 1:
        outs = [worker(t) for t in tasks]
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(max(1, min(a.jobs, len(tasks))), maxtasksperchild=1) as pool:
            outs = pool.map(worker, tasks, chunksize=1)
    import known
    kf = known.probe(a.property)
    violations = []
    for o in outs:
        if o.get('failing'):
            violations.append((o, True))
        elif o['status'] == 'refuted':
            violations.append((o, False))
    nob = sum(len(o['obligations']) for o in outs if o['status'] != 'bounded')
    ndis = sum(1 for o in outs for b in o['obligations'].values()
               if b['status'] == 'discharged' and o['status'] in ('proved', 'refuted'))
    proved = [o['contract'] for o in outs if o['status'] == 'proved']
    notp = {o['contract']: '%s: %s' % (o['status'], o['why']) for o in outs if o['status'] != 'proved'}
    funcs = {}
    for o in outs:
        for f, k in o['functions'].items():
            if f.startswith('ocelot'):
                funcs[f] = k if funcs.get(f) != 'inlined' else 'inlined'
    for c in cs:
        for f in c.functions:
            funcs[f.replace(':', '.')] = 'under contract'
    level = 'proof' if proved else 'exploration'
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': '/verif/check.py %s --tier %s' % (a.property, a.tier),
        'trusted_base': TRUSTED,
        'contracts_proved': proved,
        'contracts_bounded_or_undecided': notp,
        'functions_under_contract': funcs,
        'paths': sum(o['paths'] for o in outs), 'loops_summarised': sum(o['loops'] for o in outs),
        'solver': 'z3', 'solver_queries': sum(o['queries'] for o in outs),
        'solver_time_s': round(sum(o['solver_time'] for o in outs), 2),
        'concrete_cross_check': {'inputs_tried': sum(o.get('tried', 0) for o in outs),
                                 'inputs_meeting_preconditions': sum(o.get('satisfied', 0) for o in outs)},
        'evaluations': sum(o.get('tried', 0) for o in outs),
        'distinct_nontrivial': sum(o.get('satisfied', 0) for o in outs),
        'rule': 'random values of each contract\'s input schema; non-trivial: the precondition holds and every postcondition is evaluated on the real code',
        'samples': [{'contract': o['contract'], 'obligations': o['obligations']} for o in outs[:3]],
        'per_contract': {o['contract']: {'status': o['status'], 'obligations': len(o['obligations']),
                                         'paths': o['paths'], 'wall_s': o['wall']} for o in outs},
    }
    cross = [o['cross'] for o in outs if o.get('cross')]
    if cross:
        cov['cvc5_cross_check'] = {k: sum(c[k] for c in cross) for k in cross[0]}
    from contracts import ASSUMPTIONS
    ev = {'property': a.property, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed,
          'level': level, 'coverage': cov, 'assumptions': ASSUMPTIONS + [
              'assumed contract (not checked): %s' % p for p, s in H.SUMMARIES.items()
              if s.trusted and any(p in c.uses for c in cs)],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, a.property + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for o in outs:
        if a.v or o['status'] != 'proved':
            print('%-10s %-45s obligations=%d paths=%d wall=%.1fs %s' % (
                o['status'], o['contract'], len(o['obligations']), o['paths'], o['wall'], o['why'] or ''))
            if a.v:
                print('    tried=%s satisfied=%s errors=%s' % (o.get('tried'), o.get('satisfied'), o.get('errors')))
            for n, b in o['obligations'].items():
                if b['status'] != 'discharged':
                    print('      %-10s %s -- %s' % (b['status'], n, b['why']))
            if a.v and o.get('tb'):
                print('\n'.join(l for l in o['tb'].splitlines() if '^^' not in l)[-900:])
    print('%s: %d contracts, %d obligations, %d discharged, solver %.1fs, wall %.1fs' % (
        a.property, len(outs), nob, ndis, cov['solver_time_s'], ev['wall_s']))
    for line in kf:
        print(line)
    if violations:
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        # one line per property: prefer a concrete failing input
        violations.sort(key=lambda v: not v[1])
        for o, conc in violations:
            f = os.path.join(rd, '%s-%s.json' % (a.property, ''.join(ch if ch.isalnum() else '_' for ch in o['contract'])))
            body = {'property': a.property, 'contract': o['contract'],
                    'failed_obligations': {n: b for n, b in o['obligations'].items() if b['status'] != 'discharged'},
                    'verifier': {'status': o['status'], 'why': o['why']}}
            if conc:
                body['failing_input'] = jsonable(o['failing']['inputs'])
                body['failed_on_real_code'] = o['failing']['failed']
                body['found_by'] = o['failing']['source']
                body['trace'] = o['failing'].get('trace')
                body['rerun'] = '/verif/replay.py %s' % f
            with open(f, 'w') as fh:
                json.dump(body, fh, indent=1)
            names = o['failing']['failed'] if conc else [n for n, b in o['obligations'].items() if b['status'] == 'refuted']
            print('  broken: %s: %s' % (o['contract'], '; '.join(names)))
            if conc:
                print('  input: %s' % json.dumps(jsonable(o['failing']['inputs']))[:1500])
            print('VIOLATION property=%s replay=%s%s' % (a.property, f, '' if conc else ' no-failing-input-found'))
            if conc:
                break
        return 1
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
