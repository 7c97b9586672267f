from .common import *
from ..engine import tdiv, trem
from . import spec, plain
FV_ = lambda v, x: v.read('FIXNUM.v', x)
LMIN, LMAX = -2**63, 2**63 - 1
def isfix(x, *i): return [('fixnum', And(*[tag(x.a(k)) == T['FIXNUM'] for k in i]))]
def fixres(x, e): return [('fresh fixnum', And(tag(x.res) == T['FIXNUM'], fresh_ref(x, x.res))), ('value', FV_(x.post, x.res) == e)]
def C01():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, wrap='check', **k)
    c('Mfixnum', None, lambda x: fixres(x, x.a(0)))
    fits = lambda x, e: [('result fits', And(e >= LMIN, e <= LMAX))]
    one = lambda f: dict(requires=lambda x: isfix(x, 0) + fits(x, f(FV_(x.pre, x.a(0)))), ensures=lambda x: fixres(x, f(FV_(x.pre, x.a(0)))))
    c('fx_neg', **one(lambda a: -a))
    def two(f, nz=False):
        A = lambda x: (FV_(x.pre, x.a(0)), FV_(x.pre, x.a(1)))
        return dict(requires=lambda x: isfix(x, 0, 1) + ([('divisor not zero', A(x)[1] != 0)] if nz else []) + fits(x, f(*A(x))), ensures=lambda x: fixres(x, f(*A(x))))
    c('fx2_add', **two(lambda a, b: a + b)); c('fx2_sub', **two(lambda a, b: a - b)); c('fx2_mul', **two(lambda a, b: a * b))
    c('fx2_div', **two(tdiv, True)); c('fx_remainder', **two(trem, True)); 
    def modpost(x):
        a, b, z = FV_(x.pre, x.a(0)), FV_(x.pre, x.a(1)), FV_(x.post, x.res); q = tdiv(a, b)
        return fixres(x, z)[:1] + [('sign of the divisor, smaller than the divisor', Or(And(b > 0, 0 <= z, z < b), And(b < 0, b < z, z <= 0))),
                                   ('congruent to the dividend', Or(a - z == q * b, a - z == (q - 1) * b))]
    c('fx_modulo', lambda x: isfix(x, 0, 1) + [('divisor not zero', FV_(x.pre, x.a(1)) != 0)], modpost)
    for n, f in (('eq', lambda a, b: a == b), ('gt', lambda a, b: a > b), ('lt', lambda a, b: a < b), ('ge', lambda a, b: a >= b), ('le', lambda a, b: a <= b)):
        c('fx2_' + n, lambda x: isfix(x, 0, 1), lambda x, f=f: [('agrees with the order', x.res == bool_(f(FV_(x.pre, x.a(0)), FV_(x.pre, x.a(1)))))])
    return C
@spec('C01')
def _(): return plain('C01', C01())
