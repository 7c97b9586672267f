from ..oracle import oracle, expect, same, Fail
from ..hlib import L, unl
from .gen import *
import copy
def kind(v):
    if isinstance(v, bool): return 'bool'
    if isinstance(v, int): return 'fix'
    if isinstance(v, str): return 'sing'
    return v[0]
def meq(a, b, mode):
    """structural equality of values built separately (mode: how symbols and singletons compare is by name)"""
    if kind(a) != kind(b): return False
    k = kind(a)
    if k in ('bool', 'fix', 'sing', 'c', 'sym', 's'): return a == b
    if k == 'p': return meq(a[1], b[1], mode) and meq(a[2], b[2], mode)
    if k == 'v': return len(a[1]) == len(b[1]) and all(meq(x, y, mode) for x, y in zip(a[1], b[1]))
    if k == 'box': return meq(a[1], b[1], mode)
    return False
def mutate(v, rng):
    """a value differing in one place (or not at all)"""
    k = kind(v)
    if k == 'p':
        r = rng.randrange(2); return ['p', mutate(v[1], rng), v[2]] if r else ['p', v[1], mutate(v[2], rng)]
    if k == 'v' and v[1]:
        i = rng.randrange(len(v[1]) + 1)
        if i == len(v[1]): return ['v', v[1][:-1]] if rng.randrange(2) else ['v', v[1] + [1]]
        return ['v', [mutate(x, rng) if j == i else x for j, x in enumerate(v[1])]]
    if k == 'box': return ['box', mutate(v[1], rng)]
    if k == 's' and v[1]:
        i = rng.randrange(len(v[1])); return ['s', v[1][:i] + chr(ord(v[1][i]) % 127 + 1) + v[1][i + 1:]] if rng.randrange(3) else ['s', v[1] + 'x']
    return atom(rng)
ATOMS = FX + [['c', c] for c in (0, 1, 32, 97, 98, 127)] + [['sym', 'a'], ['sym', 'b'], ['sym', ''], ['sym', 'abc'], ['s', ''], ['s', 'a'], ['s', 'b'], ['s', 'ab'], ['s', 'abc'], ['s', 'abd'], ['s', 'A'], True, False, 'nil', 'void', 'eof', 'values', ['v', []], ['v', [1]], ['v', [1, 2]], ['v', [2, 1]],
        ['box', 1], ['box', ['s', 'a']], ['box', 2], L(1), L(1, 2), L(2, 1), L(1, 2, tail=3), L(L(1), 2), L(1, L(2)), ['v', [['s', 'x']]], ['box', L(1)], ['v', [L(1), 2]], ['v', [1, 'nil']], L(1, False)]
def check(lib, a, b):
    pa, pb = lib.mk(a), lib.mk(b)
    k = kind(a)
    same_obj = pa == pb
    weq = same_obj or (k == kind(b) and k in ('fix', 'c') and a == b)
    wequal = same_obj or meq(a, b, None)
    for x, y in ((pa, pb), (pb, pa)):
        same(lib.icall('minim_eqp', x, y) != 0, weq, 'eq?'); same(lib.call('eq_proc', x, y), lib.sing['true' if weq else 'false'], 'eq? procedure')
        same(lib.icall('minim_equalp', x, y) != 0, wequal, 'equal?'); same(lib.call('equal_proc', x, y), lib.sing['true' if wequal else 'false'], 'equal? procedure')
    for x in (pa, pb): expect(lib.icall('minim_eqp', x, x) and lib.icall('minim_equalp', x, x), 'not reflexive')
    same(lib.rd(pa), a, 'the first object afterwards'); same(lib.rd(pb), b, 'the second object afterwards')
@oracle('C06', 'eq? and equal? on all pairs of small values')
def _(lib, rng, tier):
    for a in ATOMS:
        for b in ATOMS: yield [a, b], lambda a=a, b=b: check(lib, a, b)
@oracle('C06', 'equal? on trees')
def _(lib, rng, tier):
    for _ in range(N(tier, 600, 20000)):
        a = tree(rng, rng.randrange(1, 5)); b = copy.deepcopy(a) if rng.randrange(3) == 0 else mutate(a, rng) if rng.randrange(4) else tree(rng, 2)
        yield [a, b], lambda: check(lib, a, b)
    for n in (5, 100, 2000):
        a = L(*range(n)); b = L(*(list(range(n - 1)) + [-1]))
        yield ['long lists', n], lambda: check(lib, a, a)
        yield ['long lists', n], lambda: check(lib, a, b)
    for n in (1, 2, 7, 64):
        base = list(range(n))
        for i in range(n):
            w = base[:]; w[i] = ['s', 'q']
            yield ['vectors', n, i], lambda: check(lib, ['v', base], ['v', w])
            yield ['vectors', n, i], lambda: check(lib, ['v', w], ['v', w])
@oracle('C06', 'other objects')
def _(lib, rng, tier):
    def t():
        mks = [lambda: lib.call('Mhashtable', 0), lambda: lib.call('Mrecord', 1, lib.sing['basertd']), lambda: lib.call('Mstring2', 3, 97), lambda: lib.call('Msyntax', lib.mk(1), lib.sing['false'])]
        for i, f in enumerate(mks):
            x, y = f(), f()
            for p, q in ((x, x), (y, y)): expect(lib.icall('minim_eqp', p, q) and lib.icall('minim_equalp', p, q), 'not reflexive')
            expect(not lib.icall('minim_eqp', x, y), 'distinct objects are eq?'); same(lib.icall('minim_equalp', x, y) != 0, i == 2, 'equal? of distinct objects (%d)' % i)
            for z in (lib.mk(1), lib.sing['nil'], lib.mk(L(1))): expect(not lib.icall('minim_equalp', x, z) and not lib.icall('minim_equalp', z, x), 'objects of different types are equal?')
    yield ['objects without structural equality'], t
def lit(v):
    k = kind(v)
    if k == 'bool': return '#t' if v else '#f'
    if k == 'fix': return '(string->number "%d")' % v
    if k == 'sing': return {'nil': "(quote ())", 'void': '(void)', 'eof': '(eof)', 'values': '(void)'}[v]
    if k == 'c': return '(integer->char %d)' % v[1]
    if k == 'sym': return '(string->symbol "%s")' % v[1]
    if k == 's': return '"' + v[1].replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
    if k == 'p': return '(cons %s %s)' % (lit(v[1]), lit(v[2]))
    if k == 'v': return '(vector %s)' % ' '.join(lit(x) for x in v[1])
    if k == 'box': return '(box %s)' % lit(v[1])
@oracle('C06', 'library equal?')
def _(lib, rng, tier):
    def e1(text, w):
        def t(): same(lib.rd(lib.eval(text)), w, text)
        return [text], t
    vals = [v for v in ATOMS if v not in ('eof', 'values')]
    for a in vals:
        yield e1('(let-values ([(x) %s]) (equal? x x))' % lit(a), True); yield e1('(let-values ([(x) %s]) (eq? x x))' % lit(a), True)
        for b in rng.sample(vals, 12) + [a]:
            yield e1('(equal? %s %s)' % (lit(a), lit(b)), meq(a, b, None))
            if kind(a) in ('fix', 'c', 'sym', 'bool', 'sing') or a == 'nil' : yield e1('(eq? %s %s)' % (lit(a), lit(b)), kind(a) == kind(b) and a == b)
    for _ in range(N(tier, 150, 3000)):
        a = tree(rng, 3); b = mutate(a, rng)
        yield e1('(let-values ([(x) %s] [(y) %s]) (list (equal? x y) (equal? y x) (equal? x x)))' % (lit(a), lit(b)), L(meq(a, b, None), meq(a, b, None), True))
    H = lambda es, mk='make-hashtable': '(let-values ([(h) (%s)]) (let-values ([(r) (list %s)]) h))' % (mk, ' '.join('(hashtable-set! h %s %s)' % (lit(k), lit(v)) for k, v in es))
    tabs = [[], [(1, 2)], [(1, 3)], [(2, 2)], [(1, 2), (2, 2)], [(2, 2), (1, 2)], [(['s', 'k'], L(1))], [(['s', 'k'], L(2))], [(i, i) for i in range(20)], [(i, i) for i in range(21)], [(i, i) for i in range(19, -1, -1)]]
    for a in tabs:
        for b in tabs:
            w = sorted(map(str, a)) == sorted(map(str, b))
            yield e1('(let-values ([(x) %s] [(y) %s]) (list (equal? x y) (equal? y x) (equal? x x)))' % (H(a), H(b)), L(w, w, True))
