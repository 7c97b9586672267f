from .common import *
from . import spec, plain
from .lists import C03
from .numbers import FV_
Vl = lambda v, x: v.read('VECTOR.len', x)
Ve = lambda v, x: v.read('VECTOR[]', x)
Sel = z3.Select
isvec = lambda x: [('vector', tag(x.a(0)) == T['VECTOR'])]
k_ = z3.Int('k?')
def leaves(a):
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: return leaves(a.arg(1)) + leaves(a.arg(2))
    return [a]
def pats(*arrs):
    """select patterns on the arrays a conditional may denote"""
    out = []
    for a in arrs:
        for l in leaves(a):
            if not any(z3.eq(l, o) for o in out): out.append(l)
    return [Sel(l, k_) for l in out]
def all_eq(arr, lo, hi, val): return ForAll([k_], Implies(And(lo <= k_, k_ < hi), Sel(arr, k_) == val), patterns=pats(arr))
def same_on(arr, brr, lo, hi):
    """equal on [lo, hi)"""
    return ForAll([k_], Implies(And(lo <= k_, k_ < hi), Sel(arr, k_) == Sel(brr, k_)), patterns=pats(arr))
def nth_is(s, arr, off, n, pat=None):
    """s[k] = arr[off+k] for 0 <= k < n"""
    return And(ForAll([k_], Implies(And(0 <= k_, k_ < n), nth(s, k_) == Sel(arr, off + k_)), patterns=[nth(s, k_)]), length(s) == n)
def arr_is(arr, s, n):
    """arr[k] = s[k] for 0 <= k < n"""
    return ForAll([k_], Implies(And(0 <= k_, k_ < n), Sel(arr, k_) == nth(s, k_)), patterns=pats(arr))
def vecs(info):
    """candidate vectors the loop may be filling: variables and arguments"""
    out = []
    for k in list(info.ptrs) + [k for k in info.h.vars if info.eng.is_ptr(info.eng.vtypes.get(k, '')) and k not in info.ptrs]: out.append((info.name(k), lambda sv, k=k: sv.term(k)))
    return out
def t_fill(info):
    """slots below the counter hold one of the arguments"""
    out = []
    for i in info.mi:
        for nm, f in vecs(info):
            for q, a in enumerate(info.args):
                def g(sv, i=i, f=f, a=a):
                    x = f(sv)
                    return None if x is None else all_eq(Ve(sv.v, x), 0, sv.term(i), a)
                out.append(('%s[0..%s) = argument %d' % (nm, info.name(i), q), g))
            def g2(sv, i=i, f=f):
                x = f(sv)
                return None if x is None else sv.term(i) <= Vl(sv.v, x)
            out.append(('%s <= length %s' % (info.name(i), nm), g2))
    return out
def t_lenkeep(info):
    out = []
    for nm, f in vecs(info):
        def g(sv, f=f):
            x = f(sv)
            return None if x is None else tag(x) == T['VECTOR']
        out.append(('%s is a vector' % nm, g))
        for a in info.args:
            def g2(sv, f=f, a=a):
                x = f(sv)
                return None if x is None else Vl(sv.v, x) == length(lst(info.pre, a))
            out.append(('length of %s' % nm, g2))
    return out
def t_l2v(info):
    out = []
    for i in info.mi:
        for a in info.args:
            s = lst(info.pre, a)
            for nm, f in vecs(info):
                def g(sv, i=i, f=f, s=s):
                    x = f(sv)
                    return None if x is None else arr_is(Ve(sv.v, x), s, sv.term(i))
                out.append(('%s[0..%s) = the list so far' % (nm, info.name(i)), g))
            for p in info.mp:
                def g(sv, i=i, p=p, s=s):
                    t = sv.term(p)
                    return None if t is None else lst(sv.v, t) == drop(s, sv.term(i))
                out.append(('%s = rest at %s' % (info.name(p), info.name(i)), g))
    return out
def t_v2l(info):
    out = []
    for i in info.mi:
        for a in info.args:
            for p in info.mp:
                for d in (1, 0):
                    def g(sv, i=i, p=p, a=a, d=d):
                        t = sv.term(p)
                        if t is None: return None
                        n = Vl(info.pre, a); j = sv.term(i) + d
                        return And(0 <= j, nth_is(lst(sv.v, t), Ve(sv.v, a), j, n - j))
                    out.append(('%s = elements from %s+%d' % (info.name(p), info.name(i), d), g))
    return out
def C04():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    inb = lambda x: isvec(x) + [('index', And(tag(x.a(1)) == T['FIXNUM'], 0 <= FV_(x.pre, x.a(1)), FV_(x.pre, x.a(1)) < Vl(x.pre, x.a(0))))]
    freshv = lambda x: ('fresh vector', And(tag(x.res) == T['VECTOR'], fresh_ref(x, x.res)))
    c('Mvector', lambda x: [('length', And(0 <= x.a(0), x.a(0) < 2**59))],
      lambda x: [freshv(x), ('length', Vl(x.post, x.res) == x.a(0)), ('all slots hold the value', Implies(x.a(1) != 0, all_eq(Ve(x.post, x.res), 0, x.a(0), x.a(1))))],
      inv=[t_fill])
    c('make_vector', lambda x: [('length', And(tag(x.a(0)) == T['FIXNUM'], 0 <= FV_(x.pre, x.a(0)), FV_(x.pre, x.a(0)) < 2**59)), ('object', x.a(1) > 0)],
      lambda x: [freshv(x), ('length', Vl(x.post, x.res) == FV_(x.pre, x.a(0))), ('all slots hold the value', all_eq(Ve(x.post, x.res), 0, FV_(x.pre, x.a(0)), x.a(1)))])
    c('vector_length', isvec, lambda x: [('length', And(tag(x.res) == T['FIXNUM'], FV_(x.post, x.res) == Vl(x.pre, x.a(0))))])
    c('vector_ref', inb, lambda x: [('element', x.res == Sel(Ve(x.pre, x.a(0)), FV_(x.pre, x.a(1))))])
    c('vector_set', inb, lambda x: [('void', x.res == VOIDC), ('exactly this slot', Ve(x.post, x.a(0)) == z3.Store(Ve(x.pre, x.a(0)), FV_(x.pre, x.a(1)), x.a(2)))],
      modifies=lambda x: [('VECTOR[]', x.a(0))])
    c('vector_fill', isvec, lambda x: [('void', x.res == VOIDC), ('all slots', all_eq(Ve(x.post, x.a(0)), 0, Vl(x.pre, x.a(0)), x.a(1)))],
      modifies=lambda x: [('VECTOR[]', x.a(0))], inv=[t_fill])
    c('list_to_vector', lambda x: [('list', proper(x.pre, x.a(0))), ('length', length(lst(x.pre, x.a(0))) < 2**59)],
      lambda x: [freshv(x), ('length', Vl(x.post, x.res) == length(lst(x.pre, x.a(0)))), ('elements in order', arr_is(Ve(x.post, x.res), lst(x.pre, x.a(0)), length(lst(x.pre, x.a(0)))))],
      inv=[t_l2v, t_lenkeep, t_fill])
    c('vector_to_list', isvec, lambda x: [('elements in order', nth_is(lst(x.post, x.res), Ve(x.pre, x.a(0)), 0, Vl(x.pre, x.a(0)))), ('list', proper(x.post, x.res))],
      inv=[t_v2l, t_inv('list', lambda v, p, a: proper(v, p))])
    return C
@spec('C04')
def _(): return plain('C04', C04(), [C03()])
