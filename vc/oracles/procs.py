from ..oracle import oracle, expect, same, Fail
from ..hlib import L, unl, Err
from .gen import *
import itertools
@oracle('C19', 'closures')
def _(lib, rng, tier):
    for n in [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 257, 1000] + [rng.randrange(0, 20) for _ in range(N(tier, 60, 1000))]:
        ar = rng.choice([0, 1, 5, L(0, 2), ['p', 1, False]]); wn = rng.random() < .5
        def t():
            code = lib.call('Mcode', 3); a = lib.mk(ar); lib.l.vh_set_code_arity(code, a)
            env = lib.mk(L(1)); c = lib.call('Mclosure', env, code, n); cells = [lib.call('Mcons', lib.mk(i), lib.sing['nil']) for i in range(n)]
            same(lib.l.vh_clo_name(c), lib.sing['false'], 'fresh name')
            for i, x in enumerate(cells): lib.l.vh_clo_set(c, i, x)
            if wn: lib.l.vh_set_clo_name(c, lib.mk(['sym', 'orig']))
            def st(z): return lib.l.vh_clo_env(z), lib.l.vh_clo_code(z), lib.l.vh_clo_name(z), lib.l.vh_clo_count(z), [lib.l.vh_clo_ref(z, i) for i in range(lib.l.vh_clo_count(z))]
            before = st(c); same(before, (env, code, lib.mk(['sym', 'orig']) if wn else lib.sing['false'], n, cells), 'the procedure')
            d = lib.call('procedure_rename_proc', c, lib.mk(['sym', 'new-name'])); expect(d != c, 'renaming returns the same object')
            same(st(d), (env, code, lib.mk(['sym', 'new-name']), n, cells), 'the renamed procedure'); same(st(c), before, 'the original')
            same(lib.rd(lib.call('procp_proc', d)), True, 'procedure?'); same(lib.call('procedure_arity_proc', d), a, 'arity'); same(lib.call('procedure_arity_proc', c), a, 'arity of the original')
            same(lib.call('procedure_name_proc', d), lib.mk(['sym', 'new-name']), 'name'); same(lib.call('procedure_name_proc', c), before[2], 'name of the original')
            if n:
                lib.l.vh_clo_set(d, 0, lib.sing['nil']); same(st(c), before, 'the original after the copy was changed')
        yield ['closure', n, ar, wn], t
    for v in [0, True, 'nil', ['s', 'x'], L(1), ['v', [1]], ['box', 1], ['sym', 'car']]:
        def t(): same(lib.rd(lib.call('procp_proc', lib.mk(v))), False, 'procedure?')
        yield ['not a procedure', v], t
def want(cl):
    rests = [n for n, r in cl if r]; m = min(rests) if rests else None
    fx = sorted({n for n, r in cl if m is None or n < m})
    if m is None: return fx[0] if len(fx) == 1 else L(*fx)
    return L(*fx, m, tail=False)
def clause(n, r): return '%s' % ('r' if n == 0 and r else '(' + ' '.join('abcdefgh'[:n]) + (' . r)' if r else ')'))
@oracle('C19', 'arity and captured variables')
def _(lib, rng, tier):
    def e1(text, w):
        def t(): same(lib.rd(lib.eval(text)), w)
        return [text], t
    opts = [(n, r) for n in range(4) for r in (0, 1)]
    cls = [c for k in (1, 2) for c in itertools.product(opts, repeat=k)] + [tuple((rng.randrange(0, 8), rng.random() < .2) for _ in range(rng.randrange(3, 6))) for _ in range(N(tier, 150, 3000))]
    for c in cls: yield e1('(procedure-arity (case-lambda %s))' % ' '.join('[%s 1]' % clause(*x) for x in c), want(c))
    for n, r in opts: yield e1('(procedure-arity (lambda %s 1))' % clause(n, r), want([(n, r)]))
    for n in range(0, 12):
        vs = ['v%d' % i for i in range(n)]
        p = '(lambda (x) (list x %s))' % ' '.join(vs); b = ' '.join('[(%s) %d]' % (v, i * 3) for i, v in enumerate(vs))
        yield e1('(let-values (%s) (%s 7))' % (b, p), L(7, *[i * 3 for i in range(n)]))
        yield e1('(let-values (%s) ((procedure-rename %s (quote foo)) 7))' % (b, p), L(7, *[i * 3 for i in range(n)]))
        yield e1('(let-values (%s) (procedure-name (procedure-rename %s (quote foo))))' % (b, p), ['sym', 'foo'])
        yield e1('(let-values (%s) (procedure-arity (procedure-rename %s (quote foo))))' % (b, p), 1)
        yield e1('(let-values (%s) (let-values ([(p) %s]) (let-values ([(q) (procedure-rename p (quote foo))]) (list (p 1) (q 2) (procedure-name q) (eq? p q)))))' % (b, p), L(L(1, *[i * 3 for i in range(n)]), L(2, *[i * 3 for i in range(n)]), ['sym', 'foo'], False))
    yield e1("(procedure-name car)", ['sym', 'car'])
    yield e1("(let-values ([(foo) (procedure-rename car (quote bar))]) (list (procedure-name foo) (procedure-name car) (foo (cons 1 2))))", L(['sym', 'bar'], ['sym', 'car'], 1))
