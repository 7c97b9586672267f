"""Shared specification vocabulary: predicates over heap views, invariant templates by role."""
from ..logic import *
from ..engine import Contract, NULLC, TRUEC, FALSEC, VOIDC, gconst, CandInfo
import z3

T = TAGS
def proper(v, x): return tail(v, x) == NULLC
def eqv(v, a, b):
    """eq? as documented: identity, or equal characters, or equal fixnums"""
    return Or(a == b, And(tag(a) == tag(b), Or(And(tag(a) == T['CHAR'], v.read('CHAR.c', a) == v.read('CHAR.c', b)),
                                               And(tag(a) == T['FIXNUM'], v.read('FIXNUM.v', a) == v.read('FIXNUM.v', b)))))
def isnull(x): return x == NULLC
def bool_(b): return If(b, TRUEC, FALSEC)
def fresh_ref(cx, r): return r > cx.na0
def isT(t): return lambda x: tag(x) == T[t]

# ---- templates -----------------------------------------------------------
def t_tail(info):
    """a cursor keeps the terminator of the list it walks"""
    out = []
    for p in info.mp:
        e = info.entry.vars[p]
        if not isinstance(e, z3.ExprRef): continue
        out.append(('tail(%s) kept' % info.name(p),
                    lambda sv, p=p, e=e: None if sv.term(p) is None else tail(sv.v, sv.term(p)) == tail(info.pre, e)))
    return out
def t_rev(info):
    """cursor p and accumulator q: revapp(p, q) is conserved"""
    out = []
    for p in info.mp:
        for q in info.mp:
            if p == q: continue
            ep, eq = info.entry.vars[p], info.entry.vars[q]
            if not (isinstance(ep, z3.ExprRef) and isinstance(eq, z3.ExprRef)): continue
            def f(sv, p=p, q=q, ep=ep, eq=eq):
                a, b = sv.term(p), sv.term(q)
                if a is None or b is None: return None
                return revapp(lst(sv.v, a), lst(sv.v, b)) == revapp(lst(info.pre, ep), lst(info.entry.view(), eq))
            out.append(('revapp(%s,%s) conserved' % (info.name(p), info.name(q)), f))
    return out
def t_len(info):
    """counter i and cursor p: i + len(p) conserved"""
    out = []
    for p in info.mp:
        for i in info.mi:
            ep, ei = info.entry.vars[p], info.entry.vars[i]
            if not (isinstance(ep, z3.ExprRef) and isinstance(ei, z3.ExprRef)): continue
            for sgn in (1, -1):
                def f(sv, p=p, i=i, ep=ep, ei=ei, sgn=sgn):
                    a = sv.term(p)
                    if a is None: return None
                    return sgn * sv.term(i) + length(lst(sv.v, a)) == sgn * ei + length(lst(info.entry.view(), ep))
                out.append(('%+d*%s+len(%s) conserved' % (sgn, info.name(i), info.name(p)), f))
    return out
def t_rep(info):
    """counter i and accumulator q: q is made of copies of one value"""
    out = []
    for q in info.mp:
        for i in info.mi:
            eq, ei = info.entry.vars[q], info.entry.vars[i]
            if not (isinstance(eq, z3.ExprRef) and isinstance(ei, z3.ExprRef)): continue
            for a in info.args:
                for x in (1, -1):
                    def f(sv, q=q, i=i, eq=eq, ei=ei, a=a, x=x):
                        b = sv.term(q)
                        if b is None: return None
                        return lst(sv.v, b) == rep(x * (sv.term(i) - ei), a, lst(info.entry.view(), eq))
                    out.append(('%s = copies(%s)' % (info.name(q), info.name(i)), f))
    return out
def t_copy(info):
    """cursor p and chain under construction: built ++ rest = the argument list"""
    out = []
    for p in info.mp + [k for k in info.ptrs if k not in info.mp]:
        for hk, k in info.chains:
            for a in info.args:
                def f(sv, p=p, hk=hk, k=k, a=a):
                    x = sv.term(p); c = sv.chains.get((hk, k))
                    if x is None or c is None: return None
                    return app(c[0], cons(c[1], lst(sv.v, x))) == lst(info.pre, a)
                out.append(('chain %s..%s ++ %s = argument' % (info.name(hk), info.name(k), info.name(p)), f))
    return out

# ---- more spec functions ----------------------------------------------------
EQDEPS = ('PAIR.car', 'PAIR.cdr', 'CHAR.c', 'FIXNUM.v')
@recdef('memqv', [I, I], I, EQDEPS)
def memqv(v, x, k):
    """the tail whose head is eq? to k, else #f"""
    return lambda t: [Implies(tag(x) != PAIR, t == FALSEC), Implies(And(tag(x) == PAIR, eqv(v, v.read('PAIR.car', x), k)), t == x),
                      Implies(And(tag(x) == PAIR, Not(eqv(v, v.read('PAIR.car', x), k))), t == memqv(v, v.read('PAIR.cdr', x), k))]
def caar(v, x): return v.read('PAIR.car', v.read('PAIR.car', x))
def cdar(v, x): return v.read('PAIR.cdr', v.read('PAIR.car', x))
@recdef('assqv', [I, I], I, EQDEPS)
def assqv(v, x, k):
    return lambda t: [Implies(tag(x) != PAIR, t == FALSEC), Implies(And(tag(x) == PAIR, eqv(v, caar(v, x), k)), t == v.read('PAIR.car', x)),
                      Implies(And(tag(x) == PAIR, Not(eqv(v, caar(v, x), k))), t == assqv(v, v.read('PAIR.cdr', x), k))]
@recdef('akeys', [L], L, ('PAIR.car', 'PAIR.cdr'))
def akeys(v, s): return lambda t: [Implies(is_nil(s), t == nil), Implies(is_cons(s), t == cons(v.read('PAIR.car', hd(s)), akeys(v, tl(s))))]
@recdef('avals', [L], L, ('PAIR.car', 'PAIR.cdr'))
def avals(v, s): return lambda t: [Implies(is_nil(s), t == nil), Implies(is_cons(s), t == cons(v.read('PAIR.cdr', hd(s)), avals(v, tl(s))))]
@recdef('olds', [L, I], L)
def olds(v, s, na): return lambda t: [Implies(is_nil(s), t == nil), Implies(is_cons(s), t == cons(If(hd(s) <= na, hd(s), 0), olds(tl(s), na)))]
@recdef('allpair', [L], B)
def allpair(v, s): return lambda t: [Implies(is_nil(s), t), Implies(is_cons(s), t == And(tag(hd(s)) == PAIR, allpair(tl(s))))]
@recdef('usetk', [L, I], L, EQDEPS)
def usetk(v, s, k):
    return lambda t: [Implies(is_nil(s), t == seq(k)), Implies(And(is_cons(s), eqv(v, v.read('PAIR.car', hd(s)), k)), t == akeys(v, s)),
                      Implies(And(is_cons(s), Not(eqv(v, v.read('PAIR.car', hd(s)), k))), t == cons(v.read('PAIR.car', hd(s)), usetk(v, tl(s), k)))]
@recdef('usetv', [L, I, I], L, EQDEPS)
def usetv(v, s, k, n):
    return lambda t: [Implies(is_nil(s), t == seq(n)), Implies(And(is_cons(s), eqv(v, v.read('PAIR.car', hd(s)), k)), t == cons(n, avals(v, tl(s)))),
                      Implies(And(is_cons(s), Not(eqv(v, v.read('PAIR.car', hd(s)), k))), t == cons(v.read('PAIR.cdr', hd(s)), usetv(v, tl(s), k, n)))]
@recdef('useto', [L, I], L, EQDEPS)
def useto(v, s, k):
    """entries after the update by identity, 0 at the place of the new one"""
    return lambda t: [Implies(is_nil(s), t == seq(0)), Implies(And(is_cons(s), eqv(v, v.read('PAIR.car', hd(s)), k)), t == cons(0, tl(s))),
                      Implies(And(is_cons(s), Not(eqv(v, v.read('PAIR.car', hd(s)), k))), t == cons(hd(s), useto(v, tl(s), k)))]
@recdef('lastp', [I], I, ('PAIR.cdr',))
def lastp(v, x): return lambda t: [Implies(tag(x) != PAIR, t == 0), Implies(tag(x) == PAIR, t == If(tag(v.read('PAIR.cdr', x)) == PAIR, lastp(v, v.read('PAIR.cdr', x)), x))]

# ---- more templates ----------------------------------------------------------
def t_conserve(name, F):
    """F(view, cursor) keeps its entry value"""
    def t(info):
        out = []
        for p in info.mp:
            e = info.entry.vars[p]
            if not isinstance(e, z3.ExprRef): continue
            def f(sv, p=p, e=e):
                x = sv.term(p)
                return None if x is None else F(sv.v, x, info.args) == F(info.entry.view(), e, info.args)
            out.append(('%s(%s) conserved' % (name, info.name(p)), f))
        return out
    return t
def t_inv(name, F):
    """a predicate of one cursor"""
    def t(info):
        out = []
        for p in info.mp:
            def f(sv, p=p):
                x = sv.term(p)
                return None if x is None else F(sv.v, x, info.args)
            out.append(('%s(%s)' % (name, info.name(p)), f))
        return out
    return t
def t_chainmap(name, G, F, R):
    """G(built chain) ++ F(rest) = R(arguments)"""
    def t(info):
        out = []
        for p in info.mp + [k for k in info.ptrs if k not in info.mp]:
            for hk, k in info.chains:
                def f(sv, p=p, hk=hk, k=k):
                    x = sv.term(p); c = sv.chains.get((hk, k))
                    if x is None or c is None: return None
                    return app(G(sv.v, app(c[0], seq(c[1]))), F(sv.v, lst(sv.v, x))) == R
                out.append(('%s: chain %s..%s with %s' % (name, info.name(hk), info.name(k), info.name(p)), f))
        return out
    return t

@recdef('alloc', [L, I], B)
def alloc(v, s, na):
    """every element existed when na was the newest object"""
    return lambda t: [Implies(is_nil(s), t), Implies(is_cons(s), t == And(hd(s) <= na, alloc(tl(s), na)))]
def t_chainpred(name, P):
    def t(info):
        out = []
        for hk, k in info.chains:
            def f(sv, hk=hk, k=k):
                c = sv.chains.get((hk, k))
                return None if c is None else P(sv.v, app(c[0], seq(c[1])))
            out.append(('%s: chain %s..%s' % (name, info.name(hk), info.name(k)), f))
        return out
    return t
hom(akeys); hom(avals); hom(allpair); hom(alloc)
@law(olds)
def _(v):
    n = XV('na'); f = lambda s: olds.decl(v)(s, n)
    return [Law('olds-app', [a_, b_, n], a_, f(app(a_, b_)) == app(f(a_), f(b_)), [f(app(a_, b_))]),
            Law('olds-id', [a_, n], a_, Implies(alloc(a_, n), f(a_) == a_), [f(a_)])]

def aleaves(a):
    """uninterpreted array terms an array expression is built from"""
    if not z3.is_app(a): return [a]
    k = a.decl().kind()
    if k == z3.Z3_OP_ITE: return aleaves(a.arg(1)) + aleaves(a.arg(2))
    if k == z3.Z3_OP_STORE: return aleaves(a.arg(0))
    if k == z3.Z3_OP_CONST_ARRAY: return []
    return [a]
def on_elems(k, body, *arrs):
    """forall k. body, triggered by reads of any of the arrays at k"""
    out = []
    for a in arrs:
        for l in aleaves(a):
            if not any(z3.eq(l, q) for q in out): out.append(l)
    ps = [z3.Select(l, k) for l in out]
    return ForAll([k], body, patterns=ps) if ps else ForAll([k], body)
