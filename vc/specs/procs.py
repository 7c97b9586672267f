from .common import *
from ..engine import LRef
from . import spec, plain
from .vectors import Sel
CC = lambda v, x: v.read('CLOSURE.count', x)
CE = lambda v, x: v.read('CLOSURE[]', x)
k_ = z3.Int('k!cl')
def cells(sv, k):
    e, st = sv.eng, sv.st
    x = e.resolve(st, st.vars.get(k))
    if isinstance(x, LRef) and x.id not in st.ghost.get('pub', {}):
        o = st.locals[x.id]
        if o.tag() is None or e.elem_base(o) is None: return None
        if o.elems is None:
            o = st.lobj(x.id); o.elems = z3.K(I, IV(0)) if o.zero else e.fresh('elems', ARR)
        return o.elems
    if isinstance(x, z3.ExprRef): return CE(sv.v, x)
    return None
def same(a, b, n): return on_elems(k_, Implies(And(0 <= k_, k_ < n), Sel(a, k_) == Sel(b, k_)), a, b)
def t_copy_cells(info):
    out = []
    for i in info.mi:
        for k in [k for k in info.h.vars if info.eng.is_ptr(info.eng.vtypes.get(k, ''))]:
            for a in info.args:
                def g(sv, i=i, k=k, a=a):
                    b = cells(sv, k)
                    return None if b is None else same(CE(info.pre, a), b, sv.term(i))
                out.append(('cells of %s before %s' % (info.name(k), info.name(i)), g))
        for k in [k for k in info.h.vars if info.eng.is_ptr(info.eng.vtypes.get(k, ''))]:
            for fld in ('env', 'code', 'count'):
                for a in info.args:
                    def g2(sv, k=k, fld=fld, a=a):
                        x = info.eng.resolve(sv.st, sv.st.vars.get(k))
                        if not isinstance(x, z3.ExprRef): return None
                        return And(tag(x) == T['CLOSURE'], sv.v.read('CLOSURE.' + fld, x) == info.pre.read('CLOSURE.' + fld, a))
                    out.append(('%s of %s' % (fld, info.name(k)), g2))
    return out
# ---- arities: a count, a list of counts, or such a list ending in (n . #f) for n and more
from .numbers import FV_
AD = ('PAIR.car', 'PAIR.cdr', 'FIXNUM.v')
car = lambda v, x: v.read('PAIR.car', x)
cdr = lambda v, x: v.read('PAIR.cdr', x)
n_ = z3.Int('n!ar')
@recdef('accepts', [I, I], B, AD)
def accepts(v, a, n):
    """a procedure of this arity takes n arguments"""
    c = FV_(v, car(v, a)); d = cdr(v, a)
    return lambda t: [Implies(tag(a) == T['FIXNUM'], t == (FV_(v, a) == n)), Implies(And(tag(a) == PAIR, d == FALSEC), t == (n >= c)),
                      Implies(And(tag(a) == PAIR, d != FALSEC), t == Or(n == c, accepts(v, d, n))), Implies(And(tag(a) != PAIR, tag(a) != T['FIXNUM']), Not(t))]
@recdef('wfar', [I, I], B, AD)
def wfar(v, a, lo):
    """increasing counts above lo"""
    c = FV_(v, car(v, a)); d = cdr(v, a)
    rest = Or(d == FALSEC, d == NULLC, And(tag(d) == PAIR, wfar(v, d, c)))
    return lambda t: [Implies(tag(a) == T['FIXNUM'], Not(t)), Implies(And(tag(a) == PAIR, t), And(tag(car(v, a)) == T['FIXNUM'], c > lo, rest)), Implies(And(tag(a) == PAIR, tag(car(v, a)) == T['FIXNUM'], c > lo, rest), t), Implies(And(tag(a) != PAIR, tag(a) != T['FIXNUM']), Not(t))]
@law(wfar)
def _(v):
    a, n, lo = XV('o'), XV('n'), XV('lo')
    return [Law('arity-above', [a, n, lo], a, Implies(And(wfar.decl(v)(a, lo), accepts.decl(v)(a, n)), n > lo), [(wfar.decl(v)(a, lo), accepts.decl(v)(a, n))], kids=[v.read('PAIR.cdr', a)])]
def wfarity(v, a): return Or(And(tag(a) == T['FIXNUM'], FV_(v, a) >= 0), wfar(v, a, IV(-1)))
def C19():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    F = lambda v, f, x: v.read('CLOSURE.' + f, x)
    isp = lambda x: [('procedure', tag(x.a(0)) == T['CLOSURE'])]
    c('Mclosure', lambda x: [('cell count', And(0 <= x.a(2), x.a(2) < 2**59))],
      lambda x: [('a fresh procedure', And(tag(x.res) == T['CLOSURE'], fresh_ref(x, x.res))), ('environment', F(x.post, 'env', x.res) == x.a(0)), ('code', F(x.post, 'code', x.res) == x.a(1)), ('no name', F(x.post, 'name', x.res) == FALSEC), ('room for the cells', CC(x.post, x.res) == x.a(2))])
    c('procp_proc', None, lambda x: [('type', x.res == bool_(tag(x.a(0)) == T['CLOSURE']))])
    c('procedure_arity_proc', lambda x: isp(x) + [('code object', tag(F(x.pre, 'code', x.a(0))) == T['CODE'])], lambda x: [('arity of the code', x.res == x.pre.read('CODE.arity', F(x.pre, 'code', x.a(0))))])
    c('procedure_name_proc', isp, lambda x: [('name', x.res == F(x.pre, 'name', x.a(0)))])
    c('procedure_rename_proc', lambda x: isp(x) + [('cell count', And(0 <= CC(x.pre, x.a(0)), CC(x.pre, x.a(0)) < 2**59))],
      lambda x: [('another procedure', And(tag(x.res) == T['CLOSURE'], fresh_ref(x, x.res))), ('the new name', F(x.post, 'name', x.res) == x.a(1)), ('same code', F(x.post, 'code', x.res) == F(x.pre, 'code', x.a(0))),
                 ('same environment', F(x.post, 'env', x.res) == F(x.pre, 'env', x.a(0))), ('as many cells', CC(x.post, x.res) == CC(x.pre, x.a(0))), ('the same cells', same(CE(x.pre, x.a(0)), CE(x.post, x.res), CC(x.pre, x.a(0))))], inv=[t_copy_cells])
    def upd(x):
        r = And(x.a(2) != 0, n_ >= x.a(1))
        return [('well formed', wfarity(x.post, x.res)), ('a list stays a list with the smaller first count', And(Implies(tag(x.a(0)) == PAIR, tag(x.res) == PAIR), ForAll([n_], Implies(And(tag(x.a(0)) == PAIR, wfar(x.pre, x.a(0), n_), n_ < x.a(1)), wfar(x.post, x.res, n_)), patterns=[wfar(x.post, x.res, n_), wfar(x.pre, x.a(0), n_)]))),
                ('exactly the counts accepted before and the new ones', ForAll([n_], accepts(x.post, x.res, n_) == Or(accepts(x.pre, x.a(0), n_), n_ == x.a(1), r), patterns=[accepts(x.post, x.res, n_), accepts(x.pre, x.a(0), n_)]))]
    c('update_arity', lambda x: [('no arity yet, or a well-formed one', Or(x.a(0) == NULLC, wfarity(x.pre, x.a(0)))), ('count', x.a(1) < 2**62)], upd, file='src/core/c/jitcompile.c', optional=True)
    return C
@spec('C19')
def _(): return plain('C19', C19())
