from .common import *
from ..engine import LRef
from ..cstr import skolem
from . import spec, plain
from .vectors import Sel, Ve, Vl, leaves, pats
from .lists import C03
SE = lambda v, x: v.read('SYNTAX.e', x)
SLOC = lambda v, x: v.read('SYNTAX.loc', x)
car = lambda v, x: v.read('PAIR.car', x)
cdr = lambda v, x: v.read('PAIR.cdr', x)
box = lambda v, x: v.read('BOX.ref', x)
k_ = z3.Int('k!sx')
DEPS = ('PAIR.car', 'PAIR.cdr', 'VECTOR.len', 'VECTOR[]', 'BOX.ref', 'SYNTAX.e', 'SYNTAX.loc')
def vrel(v, R, o, r):
    a, b = Ve(v, o), Ve(v, r)
    return And(tag(r) == T['VECTOR'], Vl(v, r) == Vl(v, o), on_elems(k_, Implies(And(0 <= k_, k_ < Vl(v, o)), R(v, Sel(a, k_), Sel(b, k_))), a, b))
COMPOUND = ('SYNTAX', 'PAIR', 'VECTOR', 'BOX')
@recdef('isstx', [I, I], B, DEPS)
def isstx(v, o, r):
    """r is the syntax object of o: every sub-datum wrapped exactly once, existing syntax kept, no location"""
    w = And(tag(r) == T['SYNTAX'], SLOC(v, r) == FALSEC); e = SE(v, r)
    return lambda t: [Implies(tag(o) == T['SYNTAX'], t == (r == o)),
        Implies(tag(o) == PAIR, t == And(w, tag(e) == PAIR, wlp(v, lst(v, o), lst(v, e), nil), If(tail(v, o) == NULLC, tail(v, e) == NULLC, isstx(v, tail(v, o), tail(v, e))))),
        Implies(And(tag(o) == T['VECTOR'], t), And(w, vrel(v, isstx, o, e))), Implies(And(tag(o) == T['VECTOR'], w, vrel(v, isstx, o, e)), t),
        Implies(tag(o) == T['BOX'], t == And(w, tag(e) == T['BOX'], isstx(v, box(v, o), box(v, e)))),
        Implies(And(*[tag(o) != T[x] for x in COMPOUND]), t == And(w, e == o))]
@recdef('wlp', [L, L, L], B, DEPS)
def wlp(v, s, t, rest):
    """s is some data whose syntax objects are t, followed by rest"""
    return lambda z: [Implies(is_nil(t), z == (s == rest)), Implies(is_cons(t), z == And(is_cons(s), isstx(v, hd(s), hd(t)), wlp(v, tl(s), tl(t), rest)))]
@law(wlp)
def _(v):
    s, t, rest, x, y = LV('s'), LV('t'), LV('rest'), XV('x'), XV('y')
    return [Law('wlp-snoc', [t, s, rest, x, y], t, Implies(And(wlp(v, s, t, cons(x, rest)), isstx(v, x, y)), wlp(v, s, app(t, cons(y, nil)), rest)), [(wlp.decl(v)(s, t, cons(x, rest)), app(t, cons(y, nil)), isstx.decl(v)(x, y))])]
@recdef('isdat', [I, I], B, DEPS)
def isdat(v, o, r):
    """r is the datum of o: every syntax layer removed, everything else of the same shape"""
    return lambda t: [Implies(tag(o) == T['SYNTAX'], t == isdat(v, SE(v, o), r)),
        Implies(tag(o) == PAIR, t == And(tag(r) == PAIR, isdat(v, car(v, o), car(v, r)), isdat(v, cdr(v, o), cdr(v, r)))),
        Implies(tag(o) == T['BOX'], t == And(tag(r) == T['BOX'], isdat(v, box(v, o), box(v, r)))),
        Implies(And(tag(o) == T['VECTOR'], t), vrel(v, isdat, o, r)), Implies(And(tag(o) == T['VECTOR'], vrel(v, isdat, o, r)), t),
        Implies(And(*[tag(o) != T[x] for x in COMPOUND]), t == (r == o))]
def once(v, x): return If(tag(x) == T['SYNTAX'], SE(v, x), x)
SD = ('PAIR.car', 'PAIR.cdr', 'SYNTAX.e')
@recdef('sels', [I], L, SD)
def sels(v, y): return lambda t: [Implies(tag(y) == PAIR, t == cons(car(v, y), sels(v, once(v, cdr(v, y))))), Implies(tag(y) != PAIR, t == nil)]
@recdef('sterm', [I], I, SD)
def sterm(v, y): return lambda t: [Implies(tag(y) == PAIR, t == sterm(v, once(v, cdr(v, y)))), Implies(tag(y) != PAIR, t == y)]
# ---- templates
def chains(info, F):
    out = []
    for p in info.mp + [k for k in info.ptrs if k not in info.mp]:
        for hk, k in info.chains:
            def f(sv, p=p, hk=hk, k=k):
                x = sv.term(p); c = sv.chains.get((hk, k))
                return None if x is None or c is None else F(sv.v, x, app(c[0], seq(c[1])))
            out.append((hk, k, p, f))
    return out
def t_wrapl(info):
    out = []
    for a in info.args:
        for hk, k, p, f in chains(info, lambda v, x, c, a=a: wlp(v, lst(info.pre, a), c, lst(v, x))): out.append(('syntax of the elements before %s' % info.name(p), f))
    return out
def t_flat(info):
    out = []
    for a in info.args:
        for hk, k, p, f in chains(info, lambda v, x, c, a=a: app(c, sels(v, x)) == sels(info.pre, once(info.pre, a))): out.append(('elements before %s' % info.name(p), f))
    return out
def localelems(sv, k):
    e, st = sv.eng, sv.st
    x = e.resolve(st, st.vars.get(k))
    if isinstance(x, LRef) and x.id not in st.ghost.get('pub', {}):
        o = st.locals[x.id]
        if o.tag() is None or e.elem_base(o) is None: return None
        if o.elems is None:
            o = st.lobj(x.id); o.elems = z3.K(I, IV(0)) if o.zero else e.fresh('elems', ARR)
        return o.elems
    if isinstance(x, z3.ExprRef): return Ve(sv.v, x)
    return None
def t_vmap(R):
    def t(info):
        out = []
        ks = [k for k in info.h.vars if info.eng.is_ptr(info.eng.vtypes.get(k, ''))]
        for i in info.mi:
            for k in ks:
                for a in info.args:
                    def g(sv, i=i, k=k, a=a):
                        b = localelems(sv, k)
                        if b is None: return None
                        arr = Ve(info.pre, a)
                        return on_elems(k_, Implies(And(0 <= k_, k_ < sv.term(i)), R(sv.v, Sel(arr, k_), Sel(b, k_))), arr, b)
                    out.append(('elements of %s before %s' % (info.name(k), info.name(i)), g))
            out.append(('0 <= %s' % info.name(i), lambda sv, i=i: 0 <= sv.term(i)))
        return out
    return t
t_term = t_conserve('terminator', lambda v, x, a: sterm(v, x))
def C13():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    c('Msyntax', None, lambda x: [('a fresh syntax object', And(tag(x.res) == T['SYNTAX'], fresh_ref(x, x.res))), ('datum', SE(x.post, x.res) == x.a(0)), ('location', SLOC(x.post, x.res) == x.a(1))])
    isx = lambda x: [('a syntax object', tag(x.a(0)) == T['SYNTAX'])]
    c('syntaxp_proc', None, lambda x: [('type', x.res == bool_(tag(x.a(0)) == T['SYNTAX']))])
    c('syntax_e_proc', isx, lambda x: [('datum', x.res == SE(x.pre, x.a(0)))])
    c('syntax_loc_proc', isx, lambda x: [('location', x.res == SLOC(x.pre, x.a(0)))])
    wr = lambda x: [('every sub-datum wrapped exactly once', isstx(x.post, x.a(0), x.res))]
    c('to_syntax', None, wr)
    c('pair_to_syntax', lambda x: [('pair', tag(x.a(0)) == PAIR)], wr, inv=[t_wrapl, t_tail], optional=True, file='src/core/c/syntax.c')
    c('vector_to_syntax', lambda x: [('vector', tag(x.a(0)) == T['VECTOR'])], wr, inv=[t_vmap(isstx)], optional=True, file='src/core/c/syntax.c')
    c('strip_syntax', None, lambda x: [('the same datum without syntax', isdat(x.post, x.a(0), x.res))])
    c('strip_vector', lambda x: [('vector', tag(x.a(0)) == T['VECTOR'])], lambda x: [('the same datum without syntax', isdat(x.post, x.a(0), x.res))], inv=[t_vmap(isdat)], optional=True, file='src/core/c/syntax.c')
    def fl(x):
        y = once(x.pre, x.a(0)); p = sterm(x.pre, y) == NULLC
        return [('#f unless a proper list', Implies(Not(p), x.res == FALSEC)), ('proper list', Implies(p, tail(x.post, x.res) == NULLC)), ('elements in order', Implies(p, lst(x.post, x.res) == sels(x.pre, y)))]
    c('syntax_to_list', None, fl, inv=[t_flat, t_term])
    return C
def inverse(prog, P):
    """wrapping, then stripping: induction steps over the structure of the datum"""
    import time
    v = View({}); out = []
    o, r, s, e = z3.Ints('o r s e')
    def ob(name, hyps, goal):
        t = time.time(); ok = P.check(list(hyps) + [Not(skolem(goal))], 3, 8000) == z3.unsat
        out.append(dict(function='syntax specification', obligation=name, location=0, discharged=ok, seconds=round(time.time() - t, 2), detail=''))
    # inverse(o, r, s): wrapping o gives r and stripping r gives s; then s is the datum of o itself (identical when o holds no syntax: isdat is then structural identity)
    inv = lambda o, r, s: Implies(And(isstx(v, o, r), isdat(v, r, s)), isdat(v, o, s))
    hyp = [isstx(v, o, r), isdat(v, r, s)]
    ob('syntax is kept', [tag(o) == T['SYNTAX']], inv(o, r, s))
    ob('atoms', [tag(o) != T[x] for x in COMPOUND], inv(o, r, s))
    e = SE(v, r)
    ob('boxes, step', [tag(o) == T['BOX'], inv(box(v, o), box(v, e), box(v, s))], inv(o, r, s))
    es, ss = Ve(v, e), Ve(v, s)
    ob('vectors, step', [tag(o) == T['VECTOR'], ForAll([k_], inv(Sel(Ve(v, o), k_), Sel(es, k_), Sel(ss, k_)), patterns=[Sel(ss, k_)])], inv(o, r, s))
    # lists: along the cdr chain of the wrapped list m of the list l
    l, m, n = z3.Ints('l m n')
    chain = lambda l, m: And(wlp(v, lst(v, l), lst(v, m), nil), If(tail(v, l) == NULLC, tail(v, m) == NULLC, isstx(v, tail(v, l), tail(v, m))))
    linv = lambda l, m, n: Implies(And(chain(l, m), isdat(v, m, n)), isdat(v, l, n))
    ob('list elements, step', [tag(l) == PAIR, inv(car(v, l), car(v, m), car(v, n)), linv(cdr(v, l), cdr(v, m), cdr(v, n))], linv(l, m, n))
    ob('list end', [tag(l) != PAIR, tag(m) != PAIR, tag(NULLC) == T['SPECIAL'], Implies(l != NULLC, inv(l, m, n))], linv(l, m, n))
    ob('lists', [tag(o) == PAIR, linv(o, e, s)], inv(o, r, s))
    return out
@spec('C13')
def _(): return plain('C13', C13(), [{k: c for k, c in C03().items()}], extra={'stripping inverts wrapping': inverse})
