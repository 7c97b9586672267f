from .common import *
from ..cstr import *
from . import spec, plain
from .lists import C03
from .numbers import FV_
from .vectors import Vl, Ve, Sel
EQALL = ('PAIR.car', 'PAIR.cdr', 'CHAR.c', 'FIXNUM.v', 'STRING.str', 'BUF[]', 'VECTOR.len', 'VECTOR[]', 'BOX.ref')
@recdef('equalv', [I, I], B, EQALL)
def equalv(v, a, b):
    """equal? as documented"""
    same = And(tag(a) == tag(b), Not(eqv(v, a, b)))
    st = lambda t: And(same, tag(a) == T[t])
    return lambda t: [Implies(eqv(v, a, b), t), Implies(And(Not(eqv(v, a, b)), tag(a) != tag(b)), Not(t)),
        Implies(st('STRING'), t == streq(chars(v, a), chars(v, b))),
        Implies(st('PAIR'), t == And(equalv(v, v.read('PAIR.car', a), v.read('PAIR.car', b)), equalv(v, v.read('PAIR.cdr', a), v.read('PAIR.cdr', b)))),
        Implies(st('VECTOR'), t == And(Vl(v, a) == Vl(v, b), veqfrom(v, a, b, IV(0)))),
        Implies(st('BOX'), t == equalv(v, v.read('BOX.ref', a), v.read('BOX.ref', b))),
        Implies(And(same, *[tag(a) != T[x] for x in ('STRING', 'PAIR', 'VECTOR', 'BOX')]), Not(t))]
@recdef('veqfrom', [I, I, I], B, EQALL)
def veqfrom(v, a, b, i):
    return lambda t: [Implies(i >= Vl(v, a), t), Implies(And(0 <= i, i < Vl(v, a)), t == And(equalv(v, Sel(Ve(v, a), i), Sel(Ve(v, b), i)), veqfrom(v, a, b, i + 1)))]
def t_veq(info):
    out = []
    for i in info.mi:
        for a in info.args:
            for b in info.args:
                if z3.eq(a, b): continue
                out.append(('elements before %s are equal' % info.name(i), lambda sv, i=i, a=a, b=b: veqfrom(info.pre, a, b, IV(0)) == veqfrom(info.pre, a, b, sv.term(i))))
    return out
_x = z3.Int('x!so')
def allstr(v):
    return ForAll([_x], Implies(tag(_x) == T['STRING'], strok(v, _x)), patterns=[v.read('STRING.str', _x)])
def symmetry(prog, P):
    """equal? as specified is reflexive and symmetric: induction steps over the structure"""
    v = View({})
    a, b, i = z3.Ints('a b i')
    out = []
    def ob(name, hyps, goal):
        import time
        t = time.time(); ok = P.check(list(hyps) + [Not(skolem(goal))], 3, 8000) == z3.unsat
        out.append(dict(function='equal? specification', obligation=name, location=0, discharged=ok, seconds=round(time.time() - t, 2), detail=''))
    eq = lambda x, y: equalv(v, x, y)
    sym = lambda x, y: eq(x, y) == eq(y, x)
    ob('reflexive', [], eq(a, a))
    ob('eq? is reflexive and symmetric', [], And(eqv(v, a, a), eqv(v, a, b) == eqv(v, b, a)))
    ob('eq? objects are equal?', [eqv(v, a, b)], eq(a, b))
    base = [tag(a) == tag(b)]
    ob('symmetric: objects of different types', [tag(a) != tag(b)], sym(a, b))
    ob('symmetric: strings, step', base + [tag(a) == T['STRING']], sym(a, b))
    c = lambda x: v.read('PAIR.car', x); d = lambda x: v.read('PAIR.cdr', x)
    ob('symmetric: pairs, step', base + [tag(a) == T['PAIR'], sym(c(a), c(b)), sym(d(a), d(b))], sym(a, b))
    ob('symmetric: boxes, step', base + [tag(a) == T['BOX'], sym(v.read('BOX.ref', a), v.read('BOX.ref', b))], sym(a, b))
    ob('symmetric: vector elements, base', [Vl(v, a) == Vl(v, b), i >= Vl(v, a)], veqfrom(v, a, b, i) == veqfrom(v, b, a, i))
    ob('symmetric: vector elements, step', [Vl(v, a) == Vl(v, b), 0 <= i, i < Vl(v, a), sym(Sel(Ve(v, a), i), Sel(Ve(v, b), i)), veqfrom(v, a, b, i + 1) == veqfrom(v, b, a, i + 1)], veqfrom(v, a, b, i) == veqfrom(v, b, a, i))
    ob('symmetric: vectors, step', base + [tag(a) == T['VECTOR'], Implies(Vl(v, a) == Vl(v, b), veqfrom(v, a, b, IV(0)) == veqfrom(v, b, a, IV(0)))], sym(a, b))
    ob('symmetric: other types', base + [tag(a) != T[x] for x in ('STRING', 'PAIR', 'VECTOR', 'BOX')], sym(a, b))
    return out
def C06():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    req = lambda x: [('strings are terminated', allstr(x.pre))]
    from .lists import eqp_contract
    C['minim_eqp'] = eqp_contract()
    c('minim_equalp', req, lambda x: [('equal? as documented', (x.res != 0) == equalv(x.pre, x.a(0), x.a(1)))], result='int', inv=[t_veq])
    c('minim_vector_equalp', lambda x: req(x) + [('vectors', And(tag(x.a(0)) == T['VECTOR'], tag(x.a(1)) == T['VECTOR']))],
      lambda x: [('same length and equal elements', (x.res != 0) == And(Vl(x.pre, x.a(0)) == Vl(x.pre, x.a(1)), veqfrom(x.pre, x.a(0), x.a(1), IV(0))))], result='int', inv=[t_veq], optional=True)
    c('eq_proc', None, lambda x: [('eq?', x.res == bool_(eqv(x.pre, x.a(0), x.a(1))))])
    c('equal_proc', req, lambda x: [('equal?', x.res == bool_(equalv(x.pre, x.a(0), x.a(1))))])
    return C
@spec('C06')
def _(): return plain('C06', C06(), extra={'reflexive and symmetric': symmetry}, trusted=['libc strcmp and strlen (modelled in vc/cstr.py)'])
