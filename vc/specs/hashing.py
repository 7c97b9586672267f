from .common import *
from ..cstr import *
from ..engine import wbytes, bufsize
from . import spec, plain
from .numbers import FV_
from .equality import allstr
k_ = z3.Int('k!h')
HINIT = 5381
def hasher(name, mul, w):
    """fold of the bytes a[i..n) by the step the documentation of the code gives"""
    @recdef(name, [ARR, I, I, I], I)
    def hb(v, a, i, n, h):
        return lambda t: [Implies(i >= n, t == h), Implies(i < n, t == hb(a, i + 1, n, (mul * h + z3.Select(a, i)) % w)), Implies(And(h >= 0, h < w), And(t >= 0, t < w))]
    return hb
hb = hasher('hb', 65, 2**64)
hb32 = hasher('hb32', 33, 2**32)
def t_hash(H):
    """hash of the bytes still to be read, from the running value, is the hash of all of them"""
    def t(info):
        out = []
        e = info.eng
        ps = [k for k in info.h.vars if e.vtypes.get(k, '').rstrip() in ('char*', 'unsigned char*')]
        for h in info.mi:
            eh = info.entry.vars[h]
            if not isinstance(eh, z3.ExprRef): continue
            for p in ps:
                w = e.bytes_at(info.entry, info.entry.vars.get(p))
                if w is None: continue
                a, o, _ = w
                if p not in info.mod:
                    for i in info.mi:
                        ei = info.entry.vars[i]
                        if i == h or not isinstance(ei, z3.ExprRef): continue
                        for n in info.ints:
                            en = info.entry.vars[n]
                            if n in (i, h) or n in info.mod or not isinstance(en, z3.ExprRef): continue
                            out.append(('hash(%s[%s..%s), %s) conserved' % (info.name(p), info.name(i), info.name(n), info.name(h)),
                                        lambda sv, a=a, o=o, i=i, n=n, h=h, ei=ei, en=en, eh=eh: H(a, z3.simplify(o + sv.term(i)), z3.simplify(o + en), sv.term(h)) == H(a, z3.simplify(o + ei), z3.simplify(o + en), eh)))
                else:
                    for n in info.ints:
                        en = info.entry.vars[n]
                        if n == h or not isinstance(en, z3.ExprRef): continue
                        def f(sv, p=p, n=n, h=h, a=a, o=o, en=en, eh=eh):
                            w = e.bytes_at(sv.st, sv.st.vars.get(p))
                            if w is None: return None
                            m = sv.term(n) if n in info.mod else en - (w[1] - o)
                            return And(w[1] - o == en - m, H(a, w[1], z3.simplify(o + en), sv.term(h)) == H(a, o, z3.simplify(o + en), eh))
                        out.append(('hash(%s.., %s) conserved' % (info.name(p), info.name(h)), f))
        return out
    return t
def eqcode(v, o):
    """documented eq-hash: the bytes of the fixnum, of the character, otherwise of the pointer"""
    return If(tag(o) == T['FIXNUM'], hb(wbytes(FV_(v, o)), 0, 8, HINIT), If(tag(o) == T['CHAR'], (65 * HINIT + v.read('CHAR.c', o)) % 2**64, hb(wbytes(o), 0, 8, HINIT))) / 4
def strcode(a): return hb(a, 0, slen(a, 0), HINIT) / 4
def symok(v, s):
    b = v.read('SYMBOL.str', s); return And(b > 0, terminated(v.read('BUF[]', b), 0, bufsize(b)))
def allsym(v):
    x = z3.Int('x!sy'); return ForAll([x], Implies(tag(x) == T['SYMBOL'], symok(v, x)), patterns=[v.read('SYMBOL.str', x)])
def laws(prog, P):
    v = View({}); out = []
    a, b, h, i, n = z3.Const('a', ARR), z3.Const('b', ARR), z3.Int('h'), z3.Int('i'), z3.Int('n')
    import time
    def ob(name, hyps, goal):
        t = time.time(); ok = P.check(list(hyps) + [Not(skolem(goal))], 3, 8000) == z3.unsat
        out.append(dict(function='hash codes', obligation=name, location=0, discharged=ok, seconds=round(time.time() - t, 2), detail=''))
    x, y = z3.Ints('x y')
    ob('eq? objects have the same eq-hash code', [eqv(v, x, y)], eqcode(v, x) == eqcode(v, y))
    ob('equal bytes hash alike: base', [i >= n], hb(a, i, n, h) == hb(b, i, n, h))
    ob('equal bytes hash alike: step', [i < n, z3.Select(a, i) == z3.Select(b, i), ForAll([h], hb(a, i + 1, n, h) == hb(b, i + 1, n, h), patterns=[hb(a, i + 1, n, h)])], hb(a, i, n, h) == hb(b, i, n, h))
    ob('codes are non-negative fixnums', [h >= 0, h < 2**64], And(h / 4 >= 0, h / 4 < 2**62))
    return out
def eq_hash_contract(): return Contract('eq_hash', None, lambda x: [('hash of the identity of the object', x.res == eqcode(x.pre, x.a(0))), ('non-negative fixnum', And(x.res >= 0, x.res < 2**62))], result='unsigned long', inv=[t_hash(hb)])
def C08():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    C['eq_hash'] = eq_hash_contract()
    num = lambda x, g: And(tag(x.res) == T['FIXNUM'], FV_(x.post, x.res) == g, g >= 0)
    c('eq_hash_proc', None, lambda x: [('the eq-hash code', num(x, eqcode(x.pre, x.a(0))))])
    c('equal_hash_proc', lambda x: [('strings are terminated', And(allstr(x.pre), allsym(x.pre)))],
      lambda x: [('strings: hash of the characters', Implies(tag(x.a(0)) == T['STRING'], num(x, strcode(x.pre.read('BUF[]', x.pre.read('STRING.str', x.a(0))))))),
                 ('symbols: hash of the name', Implies(tag(x.a(0)) == T['SYMBOL'], num(x, strcode(x.pre.read('BUF[]', x.pre.read('SYMBOL.str', x.a(0))))))),
                 ('other objects: the eq-hash code', Implies(And(tag(x.a(0)) != T['STRING'], tag(x.a(0)) != T['SYMBOL']), num(x, eqcode(x.pre, x.a(0)))))], inv=[t_hash(hb)])
    return C
@spec('C08')
def _(): return plain('C08', C08(), extra={'hash codes respect equality': laws}, trusted=['libc strlen (modelled in vc/cstr.py)', 'the bytes of a word are a function of its value'])
