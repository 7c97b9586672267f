"""Replay search: independent oracles run against the real code (bounded, never counted as proof).

Parent side: run(pid, so, seed, tier) spawns workers and returns a list of failures.
Worker side: python oracle.py <so> <pid> <seed> <tier> <state file> <start oracle> <start case> [only]
"""
import os, sys, json, random, subprocess, time, mmap, struct, importlib, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REG = []          # (pid, name, generator)
class Fail(Exception): pass

def oracle(pids, name, note=''):
    pids = [pids] if isinstance(pids, str) else list(pids)
    def deco(f):
        for p in pids: REG.append((p, name, f, note))
        return f
    return deco

def expect(cond, msg):
    if not cond: raise Fail(msg() if callable(msg) else msg)
def same(got, want, what='result'):
    if got != want: raise Fail('%s is %s, expected %s' % (what, short(got), short(want)))
def short(x):
    s = json.dumps(x, default=str)
    return s if len(s) < 400 else s[:400] + '...'

def load():
    import importlib
    d = os.path.join(HERE, 'oracles')
    if REG: return
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'): importlib.import_module('vc.oracles.' + f[:-3])

def of(pid):
    load()
    return [(n, f, note) for p, n, f, note in REG if p == pid]

SZ = 1 << 20
def worker(argv):
    so, pid, seed, tier, state, o0, c0, only = argv[0], argv[1], int(argv[2]), argv[3], argv[4], int(argv[5]), int(argv[6]), argv[7]
    sys.path.insert(0, os.path.dirname(HERE))
    sys.setrecursionlimit(20000)
    from vc import oracle as me, hlib
    me.load()
    fd = os.open(state, os.O_RDWR); mm = mmap.mmap(fd, SZ)
    lib = hlib.Lib(so)
    out = sys.stdout
    names = me.of(pid)
    for oi, (name, gen, note) in enumerate(names):
        if only != '-' and name != only: continue
        if oi < o0: continue
        rng = random.Random('%d/%s/%s' % (seed, pid, name))
        n = 0; t0 = time.time(); status = 'ok'
        try:
            ci = -1
            signal.alarm(120)
            for ci, (case, thunk) in enumerate(gen(lib, rng, tier)):
                if oi == o0 and ci < c0: continue
                js = json.dumps(case, default=str).encode()[:SZ - 64]
                mm[0:24] = struct.pack('<qqq', oi, ci, len(js)); mm[24:24 + len(js)] = js
                signal.alarm(20)
                n += 1
                try: thunk()
                except me.Fail as e:
                    out.write(json.dumps(dict(fail=1, oracle=name, index=ci, case=json.loads(json.dumps(case, default=str)), why=str(e)[:2000])) + '\n'); out.flush()
                    break
                except hlib.Err as e:
                    out.write(json.dumps(dict(fail=1, oracle=name, index=ci, case=json.loads(json.dumps(case, default=str)), why='unexpected error exit: ' + str(e)[:500])) + '\n'); out.flush()
                    break
                if only != '-' and ci == c0 and o0 == oi and 'ONE' in os.environ: break
                lib.keep.clear()
                signal.alarm(120)
            signal.alarm(0)
        except hlib.Missing as e:
            status = 'skipped: %s is not an exported function of the current sources' % e
        except (ValueError, KeyError, IndexError, TypeError, RecursionError, OSError) as e:
            signal.alarm(0)
            js = '?'
            try:
                a, b, k = struct.unpack('<qqq', mm[0:24]); js = json.loads(mm[24:24 + k].decode('utf8', 'replace'))
            except Exception: pass
            out.write(json.dumps(dict(fail=1, oracle=name, index=ci, case=js, why='malformed result: %s: %s' % (type(e).__name__, str(e)[:300]))) + '\n')
        out.write(json.dumps(dict(done=name, oi=oi, cases=n, status=status, secs=round(time.time() - t0, 2))) + '\n'); out.flush()
    out.write(json.dumps(dict(end=1)) + '\n'); out.flush()

def run(pid, so, seed, tier, only=None, index=None, deadline=400, par=4):
    """-> (failures, stats). A failure: dict(oracle, case, why, index)."""
    names = of(pid)
    if not names: return [], []
    from concurrent.futures import ThreadPoolExecutor
    todo = [i for i, (n, _, _) in enumerate(names) if only is None or n == only]
    def one(i):
        return _drive(pid, so, seed, tier, i, names[i][0], index or 0, deadline, index is not None)
    fails, stats = [], []
    with ThreadPoolExecutor(par) as ex:
        for f, s in ex.map(one, todo): fails += f; stats += s
    return fails, stats

def _drive(pid, so, seed, tier, oi, name, start, deadline, single):
    env = dict(os.environ)
    asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    env['LD_PRELOAD'] = asan
    env['ASAN_OPTIONS'] = 'detect_leaks=0:detect_stack_use_after_return=0:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=4096:log_path=stderr:exitcode=77'
    env['PYTHONMALLOC'] = 'malloc'; env['PYTHONDONTWRITEBYTECODE'] = '1'; env['PYTHONHASHSEED'] = '0'
    if single: env['ONE'] = '1'
    st = os.path.join(os.path.dirname(so), 'state.%s.%d' % (pid, oi))
    with open(st, 'wb') as f: f.truncate(SZ)
    cwd = os.path.join(os.path.dirname(so), 'cwd.%s.%d' % (pid, oi)); os.makedirs(cwd, exist_ok=True)
    fails, stats = [], []
    t0 = time.time(); crashes = 0
    while True:
        left = deadline - (time.time() - t0)
        if left < 3:
            stats.append(dict(done=name, cases=start, status='stopped at the time limit', secs=round(time.time() - t0, 1))); break
        p = subprocess.Popen([sys.executable, os.path.join(HERE, 'oracle_main.py'), so, pid, str(seed), tier, st, str(oi), str(start), name],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd)
        try: o, e = p.communicate(timeout=left)
        except subprocess.TimeoutExpired:
            p.kill(); o, e = p.communicate()
            ended = True
            stats.append(dict(done=name, cases=-1, status='stopped at the time limit', secs=round(time.time() - t0, 1)))
            for line in o.decode().splitlines():
                try: r = json.loads(line)
                except ValueError: continue
                if r.get('fail'): fails.append(r)
            break
        ended = False
        for line in o.decode('utf8', 'replace').splitlines():
            try: r = json.loads(line)
            except ValueError: continue
            if r.get('fail'): fails.append(r)
            elif r.get('done'): stats.append(r)
            elif r.get('end'): ended = True
        if ended: break
        with open(st, 'rb') as f: b = f.read()
        a, ci, k = struct.unpack('<qqq', b[:24])
        if k == 0:
            fails.append(dict(oracle=name, index=-1, case=None, why='the replay worker died before its first case: rc %s: %s' % (p.returncode, e.decode('utf8', 'replace')[-1500:])))
            break
        try: case = json.loads(b[24:24 + k].decode('utf8', 'replace'))
        except ValueError: case = b[24:24 + k].decode('utf8', 'replace')
        et = e.decode('utf8', 'replace')
        why = 'does not terminate within 20 s' if p.returncode == -signal.SIGALRM else 'crash (status %s)' % p.returncode
        if 'AddressSanitizer' in et:
            i = et.index('ERROR: AddressSanitizer') if 'ERROR: AddressSanitizer' in et else 0
            why = 'memory error: ' + et[i:i + 1500]
        fails.append(dict(oracle=name, index=ci, case=case, why=why))
        stats.append(dict(done=name, cases=ci + 1, status='crashed', secs=round(time.time() - t0, 1)))
        break
    return fails, stats
