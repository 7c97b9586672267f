from ..oracle import oracle, expect, same, Fail
from .gen import *
MIN, MAX = -2**63, 2**63 - 1
def tq(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
OPS2 = {'fx2_add': lambda a, b: a + b, 'fx2_sub': lambda a, b: a - b, 'fx2_mul': lambda a, b: a * b,
        'fx2_div': tq, 'fx_remainder': lambda a, b: a - b * tq(a, b), 'fx_modulo': lambda a, b: a % b,
        'fx2_eq': lambda a, b: a == b, 'fx2_gt': lambda a, b: a > b, 'fx2_lt': lambda a, b: a < b, 'fx2_ge': lambda a, b: a >= b, 'fx2_le': lambda a, b: a <= b}
def vals(rng, tier):
    vs = set(FX) | set(range(-12, 13))
    for k in range(1, 64):
        for d in (-1, 0, 1):
            for s in (1, -1):
                v = s * (2 ** k + d)
                if MIN <= v <= MAX: vs.add(v)
    vs = sorted(vs)
    return vs
def check2(lib, f, a, b):
    w = OPS2[f](a, b)
    def t():
        x, y = lib.mk(a), lib.mk(b)
        same(lib.rd(lib.call(f, x, y)), w)
        same([lib.rd(x), lib.rd(y)], [a, b], 'the operands afterwards')
    return [f, a, b], t
def ok(f, a, b):
    if f in ('fx2_div', 'fx_remainder', 'fx_modulo') and b == 0: return False
    w = OPS2[f](a, b)
    return w is True or w is False or MIN <= w <= MAX
for _f in OPS2:
    def _mk(f):
        @oracle('C01', f)
        def _(lib, rng, tier):
            vs = vals(rng, tier)
            small = [v for v in vs if abs(v) <= 12] + [MIN, MIN + 1, MAX, MAX - 1, 2**31, -2**31, 2**32, 2**31 - 1]
            for a in small:
                for b in small:
                    if ok(f, a, b): yield check2(lib, f, a, b)
            for _ in range(N(tier, 3000, 60000)):
                k = rng.randrange(4)
                a = rng.choice(vs) if k & 1 else rng.randrange(MIN, MAX + 1) >> rng.randrange(64)
                b = rng.choice(vs) if k & 2 else rng.randrange(MIN, MAX + 1) >> rng.randrange(64)
                if rng.randrange(5) == 0: b = a
                if rng.randrange(8) == 0 and a: b = a // (abs(rng.choice(vs)) or 1)
                if rng.randrange(8) == 0 and b and MIN <= (a // b) * b <= MAX: a = (a // b) * b
                if ok(f, a, b): yield check2(lib, f, a, b)
    _mk(_f)
@oracle('C01', 'negation and construction')
def _(lib, rng, tier):
    for a in vals(rng, tier):
        if a == MIN: continue
        def t():
            x = lib.mk(a); same(lib.rd(lib.call('fx_neg', x)), -a); same(lib.rd(x), a, 'the operand afterwards')
        yield ['fx_neg', a], t
@oracle('C01', 'library arithmetic')
def _(lib, rng, tier):
    """the same functions through the variadic library procedures"""
    import functools
    small = list(range(-7, 8)) + [MAX, MIN, 2**31, -2**32, 10**12]
    def e1(text, w):
        def t(): same(lib.rd(lib.eval(text)), w)
        return [text], t
    for a in small:
        if a != MIN: yield e1('(- %d)' % a, -a)
        for b in small:
            for n, f in (('+', OPS2['fx2_add']), ('-', OPS2['fx2_sub']), ('*', OPS2['fx2_mul']), ('/', tq), ('remainder', OPS2['fx_remainder']), ('modulo', OPS2['fx_modulo']),
                         ('=', OPS2['fx2_eq']), ('<', OPS2['fx2_lt']), ('>', OPS2['fx2_gt']), ('<=', OPS2['fx2_le']), ('>=', OPS2['fx2_ge'])):
                if n in ('/', 'remainder', 'modulo') and b == 0: continue
                w = f(a, b)
                if w is not True and w is not False and not MIN <= w <= MAX: continue
                yield e1('(%s %d %d)' % (n, a, b), w)
    for _ in range(N(tier, 150, 3000)):
        xs = [rng.randrange(-9, 10) for _ in range(rng.randrange(3, 6))]
        j = ' '.join(map(str, xs))
        yield e1('(+ %s)' % j, sum(xs)); yield e1('(* %s)' % j, functools.reduce(lambda a, b: a * b, xs)); yield e1('(- %s)' % j, xs[0] - sum(xs[1:]))
        if all(xs[1:]): yield e1('(/ %s)' % j, functools.reduce(tq, xs))
        for n, f in (('=', lambda a, b: a == b), ('<', lambda a, b: a < b), ('>', lambda a, b: a > b), ('<=', lambda a, b: a <= b), ('>=', lambda a, b: a >= b)):
            ys = xs if rng.randrange(2) else sorted(xs, reverse=n[0] == '>')
            yield e1('(%s %s)' % (n, ' '.join(map(str, ys))), all(f(a, b) for a, b in zip(ys, ys[1:])))
