from ..oracle import oracle, expect, same, Fail
from ..hlib import L, unl, Err
from .gen import *
LENS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 64, 100, 255, 256, 257, 1000]
def fields(lib, r): return [lib.l.vh_rec_ref(r, i) for i in range(lib.l.vh_rec_count(r))]
def bl(b): return True if b else False
def desc(rng, n, names=None):
    return [[rng.choice(['mutable', 'immutable']), 'f%d' % i] for i in range(n)]
def mkrtd(lib, name, parent, uid, sealed, opaque, fs):
    v = lib.mk(['v', [L(['sym', m], ['sym', f]) for m, f in fs]])
    return lib.call('make_rtd', lib.mk(['sym', name]), parent, lib.mk(['sym', uid]) if uid else lib.sing['false'], lib.mk(sealed), lib.mk(opaque), v), v
@oracle('C14', 'descriptors')
def _(lib, rng, tier):
    for n in LENS + [rng.randrange(0, 12) for _ in range(N(tier, 60, 1500))]:
        sealed, opaque, uid = rng.random() < .5, rng.random() < .5, rng.choice([None, 'some-uid', 'a'])
        fs = desc(rng, n); pf = desc(rng, rng.randrange(0, 3)); wp = rng.random() < .5
        def t():
            parent = mkrtd(lib, 'par', lib.sing['false'], None, False, False, pf)[0] if wp else lib.sing['false']
            r, v = mkrtd(lib, 'nm', parent, uid, sealed, opaque, fs)
            ve = lib.rd(v)
            def acc():
                same(lib.call('rtd_name', r), lib.mk(['sym', 'nm']), 'name'); same(lib.call('rtd_parent', r), parent, 'parent')
                same(lib.rd(lib.call('rtd_uid', r)), ['sym', uid] if uid else False, 'uid'); same(lib.rd(lib.call('rtd_sealedp', r)), sealed, 'sealed'); same(lib.rd(lib.call('rtd_opaquep', r)), opaque, 'opaque')
                same(lib.rd(lib.call('rtd_length', r)), n, 'field count'); same(lib.rd(lib.call('rtd_fields', r)), ['v', [['sym', f] for _, f in fs]], 'field names')
                for i, (m, _) in enumerate(fs): same(lib.rd(lib.call('rtd_field_mutablep', r, lib.mk(i))), m == 'mutable', 'mutability of field %d' % i)
            acc()
            same((lib.rd(lib.call('record_rtdp_proc', r)), lib.rd(lib.call('record_valuep_proc', r)), lib.rd(lib.call('recordp_proc', r))), (True, False, False), 'classification of a descriptor')
            x = lib.call('make_record', r, lib.mk(L(*range(n))))
            same((lib.rd(lib.call('record_rtdp_proc', x)), lib.rd(lib.call('record_valuep_proc', x)), lib.rd(lib.call('recordp_proc', x))), (False, True, not opaque), 'classification of a value')
            for i in range(n): lib.call('record_set_proc', x, lib.mk(i), lib.sing['nil'])
            acc(); same(lib.rd(v), ve, 'the field vector afterwards')
        yield ['rtd', n, sealed, opaque, uid, fs if n < 40 else n, wp], t
@oracle('C14', 'values')
def _(lib, rng, tier):
    for n in LENS + [rng.randrange(1, 20) for _ in range(N(tier, 60, 1500))]:
        ops = [(rng.randrange(n), rng.randrange(1000)) for _ in range(rng.randrange(1, 12))] if n else []
        xs = [atom(rng) for _ in range(n)]
        def t():
            r, _ = mkrtd(lib, 'nm', lib.sing['false'], None, False, False, [['mutable', 'f%d' % i] for i in range(n)])
            l = lib.mk(L(*xs)); es, _ = lib.lst(l)
            a = lib.call('make_record', r, l); b = lib.call('make_record', r, l); expect(a != b, 'two records are one object')
            for z in (a, b): same(fields(lib, z), es, 'fields'); same(lib.call('record_rtd_proc', z), r, 'descriptor'); same(lib.l.vh_rec_count(z), n, 'field count')
            m = list(es)
            for i, w in ops:
                p = lib.mk(w); same(lib.call('record_set_proc', a, lib.mk(i), p), lib.sing['void'], 'result of update'); m[i] = p
                same(fields(lib, a), m, 'fields after the update of %d' % i); same(lib.call('record_ref_proc', a, lib.mk(i)), p, 'record-ref')
                same(lib.call('record_rtd_proc', a), r, 'descriptor after an update')
            same([lib.call('record_ref_proc', a, lib.mk(i)) for i in range(n)], m, 'all fields'); same(fields(lib, b), es, 'the other record'); same(lib.lst(l), (es, lib.sing['nil']), 'the list')
        yield ['record', n, ops, xs if n < 40 else n], t
@oracle('C14', 'classification')
def _(lib, rng, tier):
    for v in [0, True, False, 'nil', 'void', ['s', 'x'], ['sym', 'x'], ['c', 65], L(1, 2), ['v', [1]], ['box', 1]]:
        def t():
            o = lib.mk(v)
            for f in ('recordp_proc', 'record_rtdp_proc', 'record_valuep_proc'): same(lib.rd(lib.call(f, o)), False, f)
            same((lib.icall('record_valuep', o), lib.icall('record_rtdp', o)), (0, 0), 'predicates')
        yield ['class', v], t
    def t():
        b = lib.sing['basertd']; same(lib.icall('record_rtdp', b), 0, 'the base descriptor is not a descriptor made at run time')
    yield ['base'], t
@oracle('C14', 'library records')
def _(lib, rng, tier):
    def e1(text, w):
        def t(): same(lib.rd(lib.eval(text)), w)
        return [text], t
    R = "(make-record-type-descriptor '%s %s %s #%s #%s '#(%s))"
    for n in (0, 1, 2, 5):
        for opq in 'ft':
            fs = ' '.join('(%s f%d)' % (('mutable', 'immutable')[i % 2], i) for i in range(n)); rt = R % ('pt', '#f', '#f', 'f', opq, fs)
            w = lambda b, rt=rt: '(let-values ([(r) %s]) (let-values ([(mk) (record-constructor r)] [(p?) (record-predicate r)]) %s))' % (rt, b)
            args = ' '.join(str(i * 7) for i in range(n))
            yield e1(w('(p? (mk %s))' % args), True); yield e1(w('(p? 5)'), False); yield e1(w('(p? r)'), False)
            yield e1(w('(record? (mk %s))' % args), opq == 'f'); yield e1(w('(record? r)'), False); yield e1(w('(record-type-descriptor? r)'), True)
            yield e1(w('(record-type-field-names r)'), ['v', [['sym', 'f%d' % i] for i in range(n)]])
            yield e1(w('(record-type-name r)'), ['sym', 'pt']); yield e1(w('(record-type-opaque? r)'), opq == 't'); yield e1(w('(record-type-sealed? r)'), False)
            for i in range(n):
                yield e1(w('((record-accessor r %d) (mk %s))' % (i, args)), i * 7)
                yield e1(w('(record-type-field-mutable? r %d)' % i), i % 2 == 0)
                yield e1(w("(let-values ([(x) (mk %s)]) (let-values ([(v) ((record-mutator r %d) x 'z)]) (list %s)))" % (args, i, ' '.join('((record-accessor r %d) x)' % j for j in range(n)))), L(*[['sym', 'z'] if j == i else j * 7 for j in range(n)]))
            # derived types
            for m in (0, 1, 3):
                cs = ' '.join('(mutable g%d)' % i for i in range(m)); dt = '(make-record-type-descriptor (quote ch) r (quote u) #t #f (quote #(%s)))' % cs
                z = lambda b: w('(let-values ([(d) %s]) (let-values ([(mkd) (record-constructor d)]) %s))' % (dt, b))
                al = ' '.join(str(100 + i) for i in range(n + m))
                yield e1(z('(p? (mkd %s))' % al), True); yield e1(z('((record-predicate d) (mk %s))' % args), False); yield e1(z('(eq? (record-type-parent d) r)'), True)
                yield e1(z('(record-type-uid d)'), ['sym', 'u']); yield e1(z('(record-type-sealed? d)'), True)
                for i in range(n): yield e1(z('((record-accessor r %d) (mkd %s))' % (i, al)), 100 + i)
                for i in range(m):
                    yield e1(z('((record-accessor d %d) (mkd %s))' % (i, al)), 100 + n + i)
                    yield e1(z("(let-values ([(x) (mkd %s)]) (let-values ([(v) ((record-mutator d %d) x 'z)]) (list %s %s)))" % (al, i, ' '.join('((record-accessor r %d) x)' % j for j in range(n)), ' '.join('((record-accessor d %d) x)' % j for j in range(m)))),
                             L(*[100 + j for j in range(n)] + [['sym', 'z'] if j == i else 100 + n + j for j in range(m)]))
