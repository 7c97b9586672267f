from ..oracle import oracle, expect, same, Fail
from ..hlib import L, unl
from .gen import *
def velems(lib, v): return [lib.l.vh_vref(v, i) for i in range(lib.l.vh_vlen(v))]
LENS = list(range(0, 18)) + [31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 4097]
@oracle('C04', 'make-vector')
def _(lib, rng, tier):
    for n in LENS:
        for val in ([7], [False], ['nil'], [['s', 'x']], [0]):
            def t():
                x = lib.mk(val[0]); v = lib.call('make_vector', lib.mk(n), x)
                same(lib.tname(v), 'VECTOR', 'type'); same(velems(lib, v), [x] * n, 'slots'); same(lib.rd(lib.call('vector_length', v)), n, 'length')
                w = lib.call('Mvector', n, x); same(velems(lib, w), [x] * n, 'slots'); expect(n == 0 or v != w, 'two vectors share storage')
                z = lib.call('Mvector', n, 0); same(lib.l.vh_vlen(z), n, 'length')
            yield ['make-vector', n, val[0]], t
@oracle('C04', 'ref, set, fill')
def _(lib, rng, tier):
    for rep in range(N(tier, 120, 3000)):
        n = rng.choice([1, 2, 3, 4, 5, 8, 13, 40, 300])
        ops = []
        for _ in range(rng.randrange(1, 30)):
            k = rng.randrange(8)
            ops.append(['fill', rng.randrange(100)] if k == 0 else ['set', rng.choice([0, n - 1, rng.randrange(n)]), rng.randrange(1000)] if k < 5 else ['ref', rng.randrange(n)])
        def t():
            a = lib.call('make_vector', lib.mk(n), lib.mk(-1)); other = lib.call('make_vector', lib.mk(n), lib.mk(-2)); oe = velems(lib, other)
            m = velems(lib, a)
            for o in ops:
                if o[0] == 'fill':
                    x = lib.mk(o[1]); same(lib.call('vector_fill', a, x), lib.sing['void'], 'vector-fill!'); m = [x] * n
                elif o[0] == 'set':
                    x = lib.mk(o[2]); same(lib.call('vector_set', a, lib.mk(o[1]), x), lib.sing['void'], 'vector-set!'); m[o[1]] = x
                else: same(lib.call('vector_ref', a, lib.mk(o[1])), m[o[1]], 'vector-ref')
                same(velems(lib, a), m, 'contents after %s' % o)
            same(velems(lib, other), oe, 'another vector')
        yield ['ops', n, ops], t
@oracle('C04', 'list and vector conversions')
def _(lib, rng, tier):
    for xs in [list(range(n)) for n in LENS] + [[atom(rng) for _ in range(rng.randrange(0, 20))] for _ in range(N(tier, 80, 2000))]:
        def t():
            l = lib.mk(L(*xs)); es, _ = lib.lst(l)
            v = lib.call('list_to_vector', l); same(lib.tname(v), 'VECTOR', 'type'); same(velems(lib, v), es, 'elements')
            same(lib.lst(l), (es, lib.sing['nil']), 'the list afterwards')
            b = lib.call('vector_to_list', v); same(lib.lst(b), (es, lib.sing['nil']), 'round trip'); same(velems(lib, v), es, 'the vector afterwards')
        yield ['conv', xs if len(xs) < 60 else len(xs)], t
@oracle('C04', 'library vectors')
def _(lib, rng, tier):
    def e1(text, w):
        def t(): same(lib.rd(lib.eval(text)), w)
        return [text], t
    for n in (0, 1, 2, 5, 30):
        yield e1('(make-vector %d 3)' % n, ['v', [3] * n]); yield e1('(make-vector %d)' % n, ['v', [0] * n])
        xs = list(range(n)); s = ' '.join(map(str, xs))
        yield e1('(vector %s)' % s, ['v', xs]); yield e1('(vector->list (vector %s))' % s, L(*xs)); yield e1('(list->vector (list %s))' % s, ['v', xs])
        yield e1('(vector-length (vector %s))' % s, n)
        yield e1('(let-values ([(v) (vector %s)]) (let-values ([(r) (vector-fill! v 9)]) v))' % s, ['v', [9] * n])
        for i in range(n):
            yield e1('(vector-ref (vector %s) %d)' % (s, i), i)
            yield e1('(let-values ([(v) (vector %s)]) (let-values ([(r) (vector-set! v %d (quote x))]) v))' % (s, i), ['v', [['sym', 'x'] if j == i else j for j in xs]])
