from .common import *
from . import spec, plain
from .numbers import FV_
from .vectors import C04, Sel, same_on, arr_is, pats, vecs, t_lenkeep, Ve, Vl, k_
from .lists import C03
from .symbols import interned, the_symbol
Rc = lambda v, x: v.read('RECORD.count', x)
Rt = lambda v, x: v.read('RECORD.rtd', x)
Re = lambda v, x: v.read('RECORD[]', x)
BASE = gconst('minim_base_rtd')
MINF = 6
NAME, PARENT, UID, SEALED, OPAQUE, PROTO = range(6)
isrec = lambda x: [('record', tag(x.a(0)) == T['RECORD'])]
def isrtd(x, i=0): return [('descriptor', And(tag(x.a(i)) == T['RECORD'], Rc(x.pre, x.a(i)) >= MINF))]
def objs(info):
    return [(info.name(k), lambda sv, k=k: sv.term(k)) for k in list(info.ptrs) + [k for k in info.h.vars if info.eng.is_ptr(info.eng.vtypes.get(k, '')) and k not in info.ptrs]]
def arg_terms(info): return [(j, a) for j, a in enumerate(info.args)]
def t_recl(info):
    """a record filled from a list"""
    out = []
    for i in info.mi:
        for j, a in arg_terms(info):
            s = lst(info.pre, a)
            for nm, f in objs(info):
                def g(sv, i=i, f=f, s=s):
                    x = f(sv)
                    return None if x is None else arr_is(Re(sv.v, x), s, sv.term(i))
                out.append(('%s[0..%s) = list %d so far' % (nm, info.name(i), j), g))
            for p in info.mp:
                def g(sv, i=i, p=p, s=s):
                    t = sv.term(p)
                    return None if t is None else lst(sv.v, t) == drop(s, sv.term(i))
                out.append(('%s = rest at %s' % (info.name(p), info.name(i)), g))
    return out
def t_recobj(info):
    out = []
    for nm, f in objs(info):
        def g(sv, f=f):
            x = f(sv)
            return None if x is None else tag(x) == T['RECORD']
        out.append(('%s is a record' % nm, g))
        for j, a in arg_terms(info):
            def g2(sv, f=f, a=a):
                x = f(sv)
                return None if x is None else Rc(sv.v, x) == length(lst(info.pre, a))
            out.append(('fields of %s = length of list %d' % (nm, j), g2))
            def g3(sv, f=f, a=a):
                x = f(sv)
                return None if x is None else Rc(sv.v, x) == MINF + Vl(info.pre, a)
            out.append(('fields of %s = %d + length of vector %d' % (nm, MINF, j), g3))
            def g4(sv, f=f, a=a):
                x = f(sv)
                return None if x is None else Vl(sv.v, x) == Rc(info.pre, a) - MINF
            out.append(('length of vector %s = fields of %d' % (nm, j), g4))
            def g5(sv, f=f, a=a):
                x = f(sv)
                return None if x is None else Rt(sv.v, x) == a
            out.append(('descriptor of %s' % nm, g5))
        def g6(sv, f=f):
            x = f(sv)
            return None if x is None else Rt(sv.v, x) == BASE
        out.append(('descriptor of %s is the base' % nm, g6))
        for n in range(MINF):
            for j, a in arg_terms(info):
                def g7(sv, f=f, n=n, a=a):
                    x = f(sv)
                    return None if x is None else Sel(Re(sv.v, x), n) == a
                out.append(('%s[%d] = argument %d' % (nm, n, j), g7))
            def g8(sv, f=f, n=n):
                x = f(sv)
                return None if x is None else Sel(Re(sv.v, x), n) == FALSEC
            out.append(('%s[%d] = #f' % (nm, n), g8))
    return out
def moved(arr, ao, brr, bo, n, g=lambda x: x):
    """arr[ao+k] = g(brr[bo+k]) for 0 <= k < n"""
    return ForAll([k_], Implies(And(ao <= k_, k_ < ao + n), Sel(arr, k_) == g(Sel(brr, k_ - ao + bo))), patterns=pats(arr))
def cadr_in(v): return lambda x: v.read('PAIR.car', v.read('PAIR.cdr', x))
def t_move(info):
    out = []
    for i in info.mi:
        for nm, f in objs(info):
            for j, a in arg_terms(info):
                def g(sv, i=i, f=f, a=a):
                    x = f(sv)
                    return None if x is None else moved(Re(sv.v, x), MINF, Ve(info.pre, a), 0, sv.term(i))
                out.append(('%s[6..6+%s) = vector %d' % (nm, info.name(i), j), g))
                def g2(sv, i=i, f=f, a=a):
                    x = f(sv)
                    return None if x is None else moved(Ve(sv.v, x), 0, Re(info.pre, a), MINF, sv.term(i), cadr_in(info.pre))
                out.append(('%s[0..%s) = names of %d' % (nm, info.name(i), j), g2))
    return out
def t_nonneg(info): return [('0 <= %s' % info.name(i), lambda sv, i=i: 0 <= sv.term(i)) for i in info.mi]
def fieldok(v, r): return ForAll([k_], Implies(And(MINF <= k_, k_ < Rc(v, r)), And(tag(Sel(Re(v, r), k_)) == PAIR, tag(v.read('PAIR.cdr', Sel(Re(v, r), k_))) == PAIR)), patterns=[Sel(Re(v, r), k_)])
def C14():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    freshr = lambda x: ('fresh record', And(tag(x.res) == T['RECORD'], fresh_ref(x, x.res)))
    c('Mrecord', lambda x: [('field count', And(0 <= x.a(1), x.a(1) < 2**31))], lambda x: [freshr(x), ('field count', Rc(x.post, x.res) == x.a(1)), ('descriptor', Rt(x.post, x.res) == x.a(0))])
    c('record_valuep', None, lambda x: [('a record whose descriptor is not the base descriptor', (x.res != 0) == And(tag(x.a(0)) == T['RECORD'], Rt(x.pre, x.a(0)) != BASE))], result='int')
    c('record_rtdp', None, lambda x: [('a record whose descriptor is the base descriptor', (x.res != 0) == And(tag(x.a(0)) == T['RECORD'], Rt(x.pre, x.a(0)) == BASE))], result='int')
    wf = lambda x: [('records carry descriptors', Implies(tag(x.a(0)) == T['RECORD'], And(tag(Rt(x.pre, x.a(0))) == T['RECORD'], Rc(x.pre, Rt(x.pre, x.a(0))) >= MINF)))]
    c('recordp_proc', wf, lambda x: [('a record whose descriptor is not opaque', x.res == bool_(And(tag(x.a(0)) == T['RECORD'], Sel(Re(x.pre, Rt(x.pre, x.a(0))), OPAQUE) == FALSEC)))])
    c('record_rtdp_proc', None, lambda x: [('a descriptor', x.res == bool_(And(tag(x.a(0)) == T['RECORD'], Rt(x.pre, x.a(0)) == BASE)))])
    c('record_valuep_proc', None, lambda x: [('a record value', x.res == bool_(And(tag(x.a(0)) == T['RECORD'], Rt(x.pre, x.a(0)) != BASE)))])
    c('make_rtd', lambda x: [('fields', And(tag(x.a(5)) == T['VECTOR'], 0 <= Vl(x.pre, x.a(5)), Vl(x.pre, x.a(5)) < 2**31 - 8))],
      lambda x: [freshr(x), ('is a descriptor', Rt(x.post, x.res) == BASE), ('field count', Rc(x.post, x.res) == MINF + Vl(x.pre, x.a(5)))] +
                [(nm, Sel(Re(x.post, x.res), i) == w) for nm, i, w in (('name', NAME, x.a(0)), ('parent', PARENT, x.a(1)), ('uid', UID, x.a(2)), ('sealed', SEALED, x.a(3)), ('opaque', OPAQUE, x.a(4)), ('no protocol', PROTO, FALSEC))] +
                [('field descriptions in order', moved(Re(x.post, x.res), MINF, Ve(x.pre, x.a(5)), 0, Vl(x.pre, x.a(5))))], inv=[t_move, t_recobj, t_nonneg])
    for f, i in (('rtd_name', NAME), ('rtd_parent', PARENT), ('rtd_uid', UID), ('rtd_sealedp', SEALED), ('rtd_opaquep', OPAQUE)):
        c(f, isrtd, lambda x, i=i: [('slot %d' % i, x.res == Sel(Re(x.pre, x.a(0)), i))])
    c('rtd_length', isrtd, lambda x: [('number of declared fields', And(tag(x.res) == T['FIXNUM'], FV_(x.post, x.res) == Rc(x.pre, x.a(0)) - MINF))])
    c('rtd_fields', lambda x: isrtd(x) + [('field descriptions are (mutability name) lists', fieldok(x.pre, x.a(0)))],
      lambda x: [('fresh vector', And(tag(x.res) == T['VECTOR'], fresh_ref(x, x.res))), ('length', Vl(x.post, x.res) == Rc(x.pre, x.a(0)) - MINF), ('names in order', moved(Ve(x.post, x.res), 0, Re(x.pre, x.a(0)), MINF, Rc(x.pre, x.a(0)) - MINF, cadr_in(x.pre)))],
      inv=[t_move, t_lenkeep, t_recobj, t_nonneg])
    c('rtd_field_mutablep', lambda x: isrtd(x) + [('index', And(tag(x.a(1)) == T['FIXNUM'], 0 <= FV_(x.pre, x.a(1)), FV_(x.pre, x.a(1)) < Rc(x.pre, x.a(0)) - MINF)), ('field descriptions are (mutability name) lists', fieldok(x.pre, x.a(0)))],
      lambda x: [('declared mutable', x.res == bool_(x.pre.read('PAIR.car', Sel(Re(x.pre, x.a(0)), MINF + FV_(x.pre, x.a(1)))) == the_symbol(x, 'mutable')))])
    idx = lambda x, lo=0: [('index', And(tag(x.a(1)) == T['FIXNUM'], 0 <= FV_(x.pre, x.a(1)), FV_(x.pre, x.a(1)) < Rc(x.pre, x.a(0)) - lo))]
    c('make_record', lambda x: [('list', proper(x.pre, x.a(1))), ('count', length(lst(x.pre, x.a(1))) < 2**31)],
      lambda x: [freshr(x), ('descriptor', Rt(x.post, x.res) == x.a(0)), ('field count', Rc(x.post, x.res) == length(lst(x.pre, x.a(1)))), ('fields in order', arr_is(Re(x.post, x.res), lst(x.pre, x.a(1)), length(lst(x.pre, x.a(1)))))],
      inv=[t_recl, t_recobj, t_nonneg])
    c('record_rtd_proc', isrec, lambda x: [('descriptor', x.res == Rt(x.pre, x.a(0)))])
    c('record_ref_proc', lambda x: isrec(x) + idx(x), lambda x: [('field', x.res == Sel(Re(x.pre, x.a(0)), FV_(x.pre, x.a(1))))])
    c('record_set_proc', lambda x: isrec(x) + idx(x), lambda x: [('void', x.res == VOIDC), ('exactly this field', Re(x.post, x.a(0)) == z3.Store(Re(x.pre, x.a(0)), FV_(x.pre, x.a(1)), x.a(2)))], modifies=lambda x: [('RECORD[]', x.a(0))])
    return C
@spec('C14')
def _(): return plain('C14', C14(), [{'intern_symbol': interned()}, C04(), C03()], trusted=['contract of intern_symbol: one symbol per name (proved under C09)'])
