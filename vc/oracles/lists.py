from ..oracle import oracle, expect, same, Fail
from ..hlib import L, unl, Err
from .gen import *

def cells(lib, p):
    out = []
    while p not in lib.rsing and lib.tname(p) == 'PAIR': out.append(p); p = lib.l.vh_cdr(p)
    return out
def snap(lib, p):
    """cars, cdrs of every cell: to see that an argument is left alone"""
    return [(c, lib.l.vh_car(c), lib.l.vh_cdr(c)) for c in cells(lib, p)]
NULL = lambda lib: lib.sing['nil']

@oracle('C03', 'list_reverse')
def _(lib, rng, tier):
    for xs in lists(rng, 8, N(tier, 60, 2000), [100, 5000]):
        def t():
            a = lib.mk(L(*xs)); es, _ = lib.lst(a); s = snap(lib, a)
            r, end = lib.lst(lib.call('list_reverse', a))
            same(r, es[::-1], 'elements'); same(end, NULL(lib), 'terminator'); same(snap(lib, a), s, 'the argument')
        yield ['reverse', len(xs) if len(xs) > 50 else xs], t
@oracle('C03', 'copy_list')
def _(lib, rng, tier):
    for xs in lists(rng, 8, N(tier, 60, 2000), [100, 5000]):
        def t():
            a = lib.mk(L(*xs)); es, _ = lib.lst(a); s = snap(lib, a); c = cells(lib, a)
            r = lib.call('copy_list', a); rs, end = lib.lst(r)
            same(rs, es, 'elements'); same(end, NULL(lib), 'terminator'); same(snap(lib, a), s, 'the argument')
            expect(not (set(cells(lib, r)) & set(c)), 'the copy shares a cell with the original')
        yield ['copy', len(xs) if len(xs) > 50 else xs], t
@oracle('C03', 'list_append2')
def _(lib, rng, tier):
    for xs in lists(rng, 6, N(tier, 60, 2000), [3000]):
        for ys in ([], [1], [1, 2, 3]):
            for tl in ('nil', 7):
                def t():
                    a = lib.mk(L(*xs)); b = lib.mk(L(*ys, tail=tl)); ea, _ = lib.lst(a); eb, tb = lib.lst(b); s = snap(lib, a), snap(lib, b); c = cells(lib, b)
                    ca = cells(lib, a)
                    r = lib.call('list_append2', a, b); rs, end = lib.lst(r)
                    same(rs, ea + eb, 'elements'); same(end, tb, 'terminator'); same((snap(lib, a), snap(lib, b)), s, 'an argument')
                    expect(cells(lib, r)[len(ea):] == c, 'the second list is not shared'); expect(not set(cells(lib, r)[:len(ea)]) & set(ca), 'cells of the first list are reused')
                yield ['append', len(xs) if len(xs) > 50 else xs, ys, tl], t
@oracle('C03', 'append of lists that share structure')
def _(lib, rng, tier):
    for n in range(0, 7):
        for i in range(n + 1):
            for same_elem in (False, True):
                def t():
                    a = lib.mk(L(*([5] * n if same_elem else range(n)))); b = a
                    for _ in range(i): b = lib.l.vh_cdr(b)
                    ea, _ = lib.lst(a); eb, _ = lib.lst(b); s = snap(lib, a)
                    r, end = lib.lst(lib.call('list_append2', a, b)); same(r, ea + eb, 'elements'); same(end, NULL(lib), 'terminator'); same(snap(lib, a), s, 'the argument')
                    same(lib.lst(lib.call('list_append2', b, a))[0], eb + ea, 'elements (other order)'); same(snap(lib, a), s, 'the argument')
                yield ['append shared', n, i, same_elem], t
@oracle('C03', 'list_length')
def _(lib, rng, tier):
    for xs in lists(rng, 8, N(tier, 40, 500), [100, 20000]):
        for tl in ('nil', 5, False):
            def t():
                a = lib.mk(L(*xs, tail=tl)); same(lib.lcall('list_length', a), len(xs))
                if tl == 'nil': same(lib.rd(lib.call('length_proc', a)), len(xs), 'length')
            yield ['length', len(xs), tl], t
@oracle('C03', 'listp')
def _(lib, rng, tier):
    for xs in lists(rng, 6, 20, [100]):
        for tl in ('nil', 5, False, ['s', 'x'], ['v', []], 'void'):
            def t():
                a = lib.mk(L(*xs, tail=tl)); same(bool(lib.icall('minim_listp', a)), tl == 'nil'); same(lib.rd(lib.call('listp_proc', a)), tl == 'nil', 'list?')
            yield ['list?', len(xs), tl], t
@oracle('C03', 'make_list')
def _(lib, rng, tier):
    for n in list(range(12)) + [100, 1000]:
        def t():
            x = lib.mk(['s', 'e'])
            r, end = lib.lst(lib.call('make_list', n, x)); same(r, [x] * n, 'elements'); same(end, NULL(lib), 'terminator')
            r, end = lib.lst(lib.call('make_list_proc', lib.mk(n), x)); same(r, [x] * n, 'make-list elements'); same(end, NULL(lib), 'terminator')
        yield ['make-list', n], t
KEYS = [['sym', 'a'], ['sym', 'b'], ['sym', 'c'], ['sym', 'd'], 1, 2, 3, 10**12, ['c', 65], ['c', 66], True, False, 'nil']
def keyeq(a, b): return a == b and type(a) == type(b)
@oracle('C03', 'memq')
def _(lib, rng, tier):
    for _ in range(N(tier, 300, 5000)):
        ks = [rng.choice(KEYS) for _ in range(rng.randrange(0, 7))]; k = rng.choice(KEYS)
        def t():
            a = lib.mk(L(*ks)); cs = cells(lib, a); s = snap(lib, a)
            i = next((i for i, x in enumerate(ks) if keyeq(x, k)), None)
            same(lib.call('memq', a, lib.mk(k)), lib.sing['false'] if i is None else cs[i], 'tail found'); same(snap(lib, a), s, 'the argument')
        yield ['memq', k, ks], t
@oracle('C03', 'assq')
def _(lib, rng, tier):
    for _ in range(N(tier, 400, 8000)):
        n = rng.randrange(0, 7)
        ks = [rng.choice(KEYS) for _ in range(n)]; k = rng.choice(KEYS)
        def t():
            vals = [lib.mk(['s', 'v%d' % i]) for i in range(n)]
            ents = [lib.call('Mcons', lib.mk(x), v) for x, v in zip(ks, vals)]
            a = NULL(lib)
            for e in reversed(ents): a = lib.call('Mcons', e, a)
            s = snap(lib, a), [(lib.l.vh_car(e), lib.l.vh_cdr(e)) for e in ents]
            i = next((i for i, x in enumerate(ks) if keyeq(x, k)), None)
            same(lib.call('assq_ref', a, lib.mk(k)), lib.sing['false'] if i is None else ents[i], 'entry found')
            nv = lib.mk(['s', 'new']); r = lib.call('assq_set', a, lib.mk(k), nv)
            same((snap(lib, a), [(lib.l.vh_car(e), lib.l.vh_cdr(e)) for e in ents]), s, 'the argument (persistence)')
            es, end = lib.lst(r); same(end, NULL(lib), 'terminator')
            got = [(lib.rd(lib.l.vh_car(e)), lib.rd(lib.l.vh_cdr(e))) for e in es]
            want = [(x, ['s', 'v%d' % j]) for j, x in enumerate(ks)]
            if i is None: want = want + [(k, ['s', 'new'])]
            else: want[i] = (k, ['s', 'new'])
            same(got, want, 'assq_set result')
            e = lib.call('assq_ref', r, lib.mk(k)); same(lib.l.vh_cdr(e), nv, 'value looked up after assq_set')
        yield ['assq', k, ks], t
@oracle('C03', 'list_set_tail')
def _(lib, rng, tier):
    for xs in lists(rng, 6, 30, [500]):
        def t():
            a = lib.mk(L(*xs)); b = lib.mk(L(9, 8)); cs = cells(lib, a); es, _ = lib.lst(a)
            if not xs:
                try: lib.call('list_set_tail', a, b)
                except Err: return
                raise Fail('no error for an empty list')
            lib.call('list_set_tail', a, b)
            same(cells(lib, a), cs + cells(lib, b), 'cells'); same(lib.lst(a)[0][:len(es)], es, 'elements')
        yield ['set-tail', len(xs)], t

CXR = ['car', 'cdr'] + ['c%sr' % ''.join(p) for k in (2, 3, 4) for p in itertools.product('ad', repeat=k)]
@oracle('C02', 'c[ad]+r')
def _(lib, rng, tier):
    def full(d, path=''):
        return ['s', path] if d == 0 else ['p', full(d - 1, path + 'a'), full(d - 1, path + 'd')]
    for n in CXR:
        ops = n[1:-1][::-1]
        def t():
            a = lib.mk(full(5)); p = a
            for c in ops: p = lib.l.vh_car(p) if c == 'a' else lib.l.vh_cdr(p)
            same(lib.call(n + '_proc', a), p)
        yield [n], t
    # off-path parts, and the parts below the end of the path, of every kind; shared and cyclic parts
    ENDS = ['nil', 7, True, False, ['sym', 'e'], ['s', ''], ['v', []], 'void']
    for n in CXR:
        ops = n[1:-1][::-1]
        for k in range(N(tier, 60, 600)):
            a0 = tree(rng, 2) if k % 2 else rng.choice(ENDS)
            for c in reversed(ops):
                o = rng.choice([rng.choice(ENDS), tree(rng, 2), ['p', 1, 'nil']])
                a0 = ['p', a0, o] if c == 'a' else ['p', o, a0]
            mut = k % 7; k0 = k
            def t():
                a = lib.mk(a0); p = a; ps = []
                for c in ops: ps.append(p); p = lib.l.vh_car(p) if c == 'a' else lib.l.vh_cdr(p)
                if mut == 0:   # the off-path half of a cell leads back into the path
                    for i, q in enumerate(ps): lib.call('set_cdr_proc' if ops[i] == 'a' else 'set_car_proc', q, (ps + [p])[(k0 * 7 + i) % (len(ps) + 1)])
                h = [(lib.l.vh_car(q), lib.l.vh_cdr(q)) for q in ps]
                same(lib.call(n + '_proc', a), p); same([(lib.l.vh_car(q), lib.l.vh_cdr(q)) for q in ps], h, 'the argument')
            yield [n, a0, mut], t
@oracle('C02', 'pairs and boxes')
def _(lib, rng, tier):
    for _ in range(N(tier, 100, 1000)):
        x, y, z = tree(rng, 2), tree(rng, 2), tree(rng, 2)
        def t():
            a, b, c = lib.mk(x), lib.mk(y), lib.mk(z)
            p = lib.call('Mcons', a, b); same((lib.l.vh_car(p), lib.l.vh_cdr(p)), (a, b), 'cons')
            same(lib.call('set_car_proc', p, c), lib.sing['void'], 'set-car! result'); same((lib.l.vh_car(p), lib.l.vh_cdr(p)), (c, b), 'set-car!')
            same(lib.call('set_cdr_proc', p, a), lib.sing['void'], 'set-cdr! result'); same((lib.l.vh_car(p), lib.l.vh_cdr(p)), (c, a), 'set-cdr!')
            q = lib.call('box_proc', a); same(lib.call('unbox_proc', q), a, 'unbox'); same(lib.call('box_set_proc', q, b), lib.sing['void'], 'set-box! result'); same(lib.call('unbox_proc', q), b, 'set-box!')
            expect(lib.call('box_proc', a) != q and lib.call('Mcons', a, b) != p, 'constructor returned an existing object')
        yield ['pair/box', x, y, z], t
PREDS = {'consp_proc': 'PAIR', 'boxp_proc': 'BOX', 'charp_proc': 'CHAR', 'fixnump_proc': 'FIXNUM', 'symbolp_proc': 'SYMBOL', 'stringp_proc': 'STRING', 'vectorp_proc': 'VECTOR',
         'syntaxp_proc': 'SYNTAX', 'hashtablep_proc': 'HASHTABLE', 'procp_proc': 'CLOSURE', 'environmentp_proc': None}
@oracle('C02', 'predicates')
def _(lib, rng, tier):
    vals = [0, -1, ['c', 0], ['c', 65], ['sym', 'a'], ['s', ''], ['s', 'x'], ['p', 1, 2], ['v', []], ['v', [1]], ['box', 1], ['stx', 1, False], True, False, 'nil', 'void', 'eof']
    for v in vals:
        for n, tn in PREDS.items():
            if tn is None: continue
            def t(): p = lib.mk(v); same(lib.rd(lib.call(n, p)), lib.tname(p) == tn)
            yield [n, v], t
        def t2():
            p = lib.mk(v)
            for n, w in (('nullp_proc', v == 'nil'), ('voidp_proc', v == 'void'), ('eofp_proc', v == 'eof'), ('boolp_proc', v is True or v is False)):
                same(lib.rd(lib.call(n, p)), w, n)
            same(lib.rd(lib.call('not_proc', p)), v is False, 'not')
        yield ['special predicates', v], t2
    def t3():
        for n, w in ((lib.call('make_hashtable', lib.mk(8)), 'hashtablep_proc'),):
            same(lib.rd(lib.call(w, n)), True, w)
    yield ['hashtable?'], t3
