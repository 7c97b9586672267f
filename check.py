#!/usr/bin/env python3-vt
"""check.py <property> [--thorough] [--replay FILE] [-v]

Decides one property on /repo's current working tree:
 1. proof: the real functions are extracted (clang AST), verification conditions are generated from
    their contracts and discharged by Z3; the induction lemmas used are proved as obligations too;
 2. replay search (bounded): independent oracles drive the real compiled code for a failing input.
Exit 0: every obligation discharged and no failing input. Exit 1: VIOLATION line.
"""
import sys, os, json, time, tempfile, shutil, signal, traceback, resource, multiprocessing, multiprocessing.connection, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vc import cast, engine, logic, oracle, hlib
from vc import specs
import z3

EVDIR = os.path.join(HERE, 'evidence')
G = {}

def job(item):
    """one function (or lemma, or special obligation group) in a fresh process"""
    kind, name, scale = item
    t = time.time(); out = dict(kind=kind, name=name, obls=[], laws=[], called=[], inlined=[], queries=0, solver=0.0, note=None)
    try:
        if kind == 'fn':
            vc = engine.VC(G['prog'], G['spec'].contracts, prover=engine.Prover(scale=scale))
            vc.deadline = time.time() + 150 * scale
            obls = vc.verify(name)
            out['obls'] = [o.as_dict() for o in obls]
            out['laws'] = [(n, d.name) for n, (d, l) in vc.P.used_laws.items()]
            out['called'] = sorted(vc.called); out['inlined'] = sorted(vc.inlined)
            out['queries'], out['solver'] = vc.P.queries, vc.P.time
        elif kind == 'law':
            P = engine.Prover(scale=scale)
            lname, dname, allowed = name
            P.only_laws = set(allowed)
            d = next(d for d in logic.ALLDEFS if d.name == dname)
            l = next(l for l in logic.laws_of(d, logic.View({})) if l.name == lname)
            ok = logic.prove_law(l, P)
            out['obls'] = [dict(function='lemma ' + lname, obligation='induction', location=0, discharged=ok, seconds=round(P.time, 3), detail='')]
            out['laws'] = [(n, d.name) for n, (d, l) in P.used_laws.items() if n != lname]
            out['queries'], out['solver'] = P.queries, P.time
        elif kind == 'extra':
            P = engine.Prover(scale=scale)
            for o in G['spec'].extra[name](G['prog'], P): out['obls'].append(o)
            out['queries'], out['solver'] = P.queries, P.time
            out['laws'] = [(n, d.name) for n, (d, l) in P.used_laws.items()]
    except engine.Unsupported as e:
        out['note'] = 'not within reach of the generator: %s' % str(e)[:300]
    except Exception as e:
        out['note'] = 'generator failure: %s: %s' % (type(e).__name__, traceback.format_exc()[-900:])
    if out['note']:
        out['obls'].append(dict(function=str(name), obligation='verification conditions can be generated', location=0, discharged=False, seconds=0, detail=out['note']))
    out['wall'] = round(time.time() - t, 2)
    return out

def child(conn, item):
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    try: conn.send(job(item))
    except BaseException: conn.send(None)
    conn.close(); os._exit(0)

def lost(item, why):
    return dict(kind=item[0], name=item[1], laws=[], called=[], inlined=[], queries=0, solver=0.0, note=why, wall=0, lost=True,
                obls=[dict(function=str(item[1] if item[0] != 'law' else item[1][0]), obligation='verification finishes within its budget', location=0, discharged=False, seconds=0, detail=why)])

def pool(items, procs=8):
    """each item in its own process, with a hard time limit that does not depend on the solver honouring its own"""
    ctx = mp.get_context('fork')
    res = [None] * len(items); todo = list(range(len(items))); live = {}
    while todo or live:
        while todo and len(live) < procs:
            if time.time() > G['deadline']: break
            i = todo.pop(0); r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, items[i])); p.start(); w.close()
            live[r] = (i, p, min(time.time() + 300 * items[i][2], G['deadline'] + 5))
        if not live: break
        for r in multiprocessing.connection.wait(list(live), 1.0):
            i, p, dl = live.pop(r)
            try: out = r.recv()
            except Exception: out = None
            p.join(); r.close()
            res[i] = out or lost(items[i], 'the verification process ended without an answer')
        for r in [r for r, (i, p, dl) in live.items() if time.time() > dl]:
            i, p, dl = live.pop(r); p.kill(); p.join(); r.close()
            res[i] = lost(items[i], 'time limit')
    return [x or lost(items[i], 'overall time limit') for i, x in enumerate(res)]

def prove(spec, prog, verbose):
    G['spec'], G['prog'] = spec, prog
    items = []; missing = []; skipped = []
    for n in spec.targets:
        c = spec.contracts[n]
        if (prog.tu(c.file).funcs.get(n) if c.file else prog.find_any(n)) is None:
            (skipped if c.optional else missing).append(n)
        else: items.append(('fn', n, 1))
    for n in spec.extra: items.append(('extra', n, 1))
    rs = pool(items)
    # one retry with a larger budget for whatever is left over
    again = [(r['kind'], r['name'], 4) for r in rs if not all(o['discharged'] for o in r['obls'])]
    if again and len(again) <= 24 and not G.get('hurry'):
        rr = pool(again)
        old = {(r['kind'], r['name']): r for r in rs}
        rr = [old[(r['kind'], r['name'])] if r.get('lost') else r for r in rr]
        rs = [r for r in rs if all(o['discharged'] for o in r['obls'])] + rr
    # lemmas: each is proved by induction from the definitions and the lemmas proved before it
    want = set(map(tuple, sum([r['laws'] for r in rs], [])))
    proved = []; last = {}
    while True:
        rest = sorted(l for l in want if l[0] not in proved)
        if not rest: break
        lr = pool([('law', (l[0], l[1], tuple(proved)), 1) for l in rest])
        new = []
        for r in lr:
            last[r['name'][0]] = r
            want |= set(map(tuple, r['laws']))
            if all(o['discharged'] for o in r['obls']): new.append(r['name'][0]); rs.append(r)
        proved += new
        if not new and not any(l[0] not in proved and l[0] not in last for l in want): break
    for l in sorted(want):
        if l[0] not in proved: rs.append(last[l[0]])
    for n in missing:
        rs.append(dict(kind='fn', name=n, obls=[dict(function=n, obligation='the function under contract exists', location=0, discharged=False, seconds=0,
                  detail='no definition of %s in the current sources' % n)], laws=[], called=[], inlined=[], queries=0, solver=0, note=None, wall=0))
    return rs, skipped

def known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    pid = a[0]
    verbose = '-v' in sys.argv
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVDIR, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vcbuild.')
    try:
        if '--replay' in sys.argv: return replay(pid, a[1] if len(a) > 1 else sys.argv[sys.argv.index('--replay') + 1], tmp)
        return run(pid, tier, seed, tmp, t0, verbose)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def replay(pid, path, tmp):
    r = json.load(open(path))
    if r.get('oracle') is None:
        print(json.dumps(r, indent=1)); print('no concrete input: re-run the check to regenerate the obligation'); return 1
    so = hlib.build(tmp)
    fails, stats = oracle.run(pid, so, r['seed'], r['tier'], r['oracle'], r['index'])
    print(json.dumps(fails or 'the failure does not reproduce', indent=1)[:3000])
    return 1 if fails else 0

def run(pid, tier, seed, tmp, t0, verbose):
    spec = specs.get(pid)
    rs, skipped, builderr = [], [], None
    try:
        prog = cast.Program()
        if spec: prog.preload()
    except Exception as e:
        prog = None; builderr = 'the sources cannot be extracted: %s' % str(e)[:500]
    so = None
    try: so = hlib.build(tmp)
    except Exception as e: builderr = 'the sources cannot be compiled: %s' % str(e)[:800]
    fails, stats = ([], [])
    if so:
        fails, stats = oracle.run(pid, so, seed, tier, deadline=240 if tier == 'quick' else 2400)
    kn = [k for k in known() if k['property'] == pid and k['kind'] == 'finding']
    unlisted = []
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for f in fails:
        if not any(k.get('oracle') == f['oracle'] and k.get('case') == f['case'] for k in kn): unlisted.append(f)
    # a failing input already decides; the proof then only names the obligations, on a short budget
    tp = time.time(); G['hurry'] = bool(unlisted)
    G['deadline'] = tp + (90 if unlisted else max(120, 560 - (tp - t0)) if tier == 'quick' else 5400)
    if spec and prog: rs, skipped = prove(spec, prog, verbose)
    tproof = time.time() - tp
    obls = sum([r['obls'] for r in rs], [])
    bad = [o for o in obls if not o['discharged']]
    if spec and not obls: bad = [dict(function=pid, obligation='at least one obligation is generated', location=0, discharged=False, seconds=0, detail=builderr or '')]
    if builderr: bad.append(dict(function=pid, obligation='the current sources are accepted', location=0, discharged=False, seconds=0, detail=builderr))
    ev = evidence(pid, tier, seed, spec, rs, obls, skipped, stats, len(unlisted) + len(bad), time.time() - t0, tproof)
    json.dump(ev, open(os.path.join(EVDIR, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions under contract, %.1f s proof; replay search: %d cases, %d failing' %
          (pid, len(obls), len(obls) - len([o for o in obls if not o['discharged']]), len([r for r in rs if r['kind'] == 'fn']), tproof, sum(max(0, s.get('cases', 0)) for s in stats), len(fails)))
    for o in bad[:12]: print('  undischarged: %s: %s (line %s) %s' % (o['function'], o['obligation'], o['location'], (o.get('detail') or '')[:200 if not verbose else 3000].replace('\n', ' ')))
    for f in unlisted[:12]: print('  failing input [%s]: %s -- %s' % (f['oracle'], oracle.short(f['case']), f['why'][:400].replace('\n', ' ')))
    for s in stats:
        if str(s.get('status', '')).startswith('skipped'): print('  note [%s] %s' % (s['done'], s['status']))
    if verbose:
        for r in rs: print('  %-28s %3d obligations %6.1f s' % (r['name'], len(r['obls']), r['wall']))
        for s in stats: print('  oracle', s)
    if not unlisted and not bad: return 0
    rp = os.path.join(EVDIR, 'replay-%s.json' % pid)
    rep = dict(property=pid, seed=seed, tier=tier, failed_obligations=bad[:20], oracle=None)
    if unlisted:
        f = unlisted[0]
        rep.update(oracle=f['oracle'], index=f['index'], case=f['case'], why=f['why'], other_failing_inputs=unlisted[1:6],
                   how='python3-vt check.py %s --replay %s runs this case against the real code again' % (pid, rp))
    json.dump(rep, open(rp, 'w'), indent=1)
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if unlisted else ' no-failing-input-found'))
    return 1

TRUSTED = ['clang 18 front end (AST of the real sources)', 'Z3 back end', 'the VC generator /verif/vc/engine.py (C semantics of the fragment)',
           'the collector is a plain allocator that never reuses a reachable block (GC_alloc zero-fills)', 'object layout table of engine.py (checked against minim.h by the replay accessors)']
ASSUME = ['partial correctness: termination of loops is not proved (the replay campaign bounds it)',
          'linked structures reachable from arguments are finite and acyclic along the measured chain (well-founded specification functions)',
          'single-threaded execution']
def evidence(pid, tier, seed, spec, rs, obls, skipped, stats, nviol, wall, tproof):
    fns = [r for r in rs if r['kind'] == 'fn']
    proved = [r['name'] for r in fns if all(o['discharged'] for o in r['obls'])]
    called = sorted(set(sum([r['called'] for r in rs], [])))
    others = [c for c in called if spec and c not in spec.targets]
    cov = dict(obligations=len(obls), discharged=len([o for o in obls if o['discharged']]),
               checker_cmd='python3-vt check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''),
               trusted_base=TRUSTED + (list(spec.trusted) if spec else []),
               functions_under_contract=[dict(function=r['name'], obligations=len(r['obls']), discharged=sum(o['discharged'] for o in r['obls']), seconds=r['wall'], inlined=r['inlined']) for r in fns],
               functions_proved=proved, functions_absent=skipped,
               contracts_used_but_proved_in_other_checks=[c for c in others if c in specs.OWNER and specs.OWNER[c] != pid],
               contracts_trusted=[c for c in others if spec.contracts[c].trusted] if spec else [],
               lemmas_proved_by_induction=sorted(r['name'][0] for r in rs if r['kind'] == 'law' and all(o['discharged'] for o in r['obls'])),
               other_obligation_groups=[dict(name=r['name'], obligations=len(r['obls'])) for r in rs if r['kind'] == 'extra'],
               backend='z3 %s' % z3.get_version_string(), solver_queries=sum(r['queries'] for r in rs), solver_seconds=round(sum(r['solver'] for r in rs), 2),
               proof_wall_s=round(tproof, 2),
               bounded_replay_search=[dict(oracle=s['done'], cases=s.get('cases'), status=s.get('status'), seconds=s.get('secs')) for s in stats],
               bounded_note='the replay search is bounded testing of the real code, used to find concrete failing inputs; it is never counted as proved',
               evaluations=sum(max(0, s.get('cases', 0)) for s in stats))
    return dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=ASSUME + (list(spec.assume) if spec else []),
                wall_s=round(wall, 2), violations=nviol)

if __name__ == '__main__':
    rc = 1
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        # an internal failure is an undecided property, reported as such
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        os.makedirs(EVDIR, exist_ok=True)
        rp = os.path.join(EVDIR, 'replay-%s.json' % pid)
        json.dump(dict(property=pid, oracle=None, failed_obligations=[dict(function=pid, obligation='the check completes', detail=traceback.format_exc()[-3000:])]), open(rp, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    sys.stdout.flush()
    sys.exit(rc)
