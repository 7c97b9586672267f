from ..oracle import oracle, expect, same, Fail
from ..hlib import L, unl, Err
from .gen import *
from .equality import lit, ATOMS
from .strings import texts, q
import copy
def code(lib, f, p):
    """the code as the primitive and the C function give it"""
    r = lib.rd(lib.call(f, p)); expect(isinstance(r, int) and not isinstance(r, bool), 'code is not a fixnum: %r' % (r,)); expect(r >= 0, 'negative code %d' % r)
    return r
@oracle('C08', 'eq-hash')
def _(lib, rng, tier):
    vals = FX + [['c', c] for c in range(0, 128)] + [rng.randrange(-2**63, 2**63) for _ in range(N(tier, 200, 5000))]
    def t(v):
        xs = [lib.mk(v) for _ in range(3)]; hs = [code(lib, 'eq_hash_proc', x) for x in xs] + [lib.call('eq_hash', x) for x in xs] + [code(lib, 'equal_hash_proc', x) for x in xs]
        expect(len(set(hs)) == 1, 'eq? objects have different codes: %r' % hs)
        for x in xs: same(lib.rd(x), v, 'the object afterwards')
    for v in vals: yield ['value', v], lambda v=v: t(v)
    def u(v):
        x = lib.mk(v); h = code(lib, 'eq_hash_proc', x); w = lib.rd(x)
        same(lib.call('eq_hash', x), h, 'eq_hash and its primitive'); same(lib.rd(x), w, 'the object afterwards')
        for _ in range(5): lib.mk(atom(rng)); same(code(lib, 'eq_hash_proc', x), h, 'the code later')
        if isinstance(v, list) and v[0] == 'p': lib.call('set_car_proc' if False else 'Mcons', x, x); lib.l.vh_set_car(x, lib.mk(77)); lib.l.vh_set_cdr(x, lib.mk(['c', 65]))
        if isinstance(v, list) and v[0] == 'v' and v[1]: lib.l.vh_vset(x, 0, lib.mk(77))
        if isinstance(v, list) and v[0] == 'box': lib.l.vh_set_unbox(x, lib.mk(77))
        if isinstance(v, list) and v[0] == 's' and v[1]: lib.call('string_set', x, lib.mk(0), lib.mk(['c', 90]))
        same(code(lib, 'eq_hash_proc', x), h, 'the identity code after the contents changed')
    for v in ATOMS + [tree(rng, 3) for _ in range(N(tier, 60, 2000))]: yield ['object', v], lambda v=v: u(v)
@oracle('C08', 'equal-hash of strings')
def _(lib, rng, tier):
    def t(s):
        b = s.encode('latin1'); n = len(b)
        os = [lib.mk(['s', s]), lib.call('Mstring', lib.cstr(b)), lib.call('Mstring', lib.cstr(b + b'\0' + bytes([rng.randrange(1, 128) for _ in range(9)]))), lib.l.vh_string_n(b + b'\0' + b'garbage~', n + 9)]
        os.append(lib.call('symbol_to_string', lib.mk(['sym', s]))); os.append(lib.call('list_to_string', lib.call('string_to_list', os[0])))
        o = lib.call('Mstring2', n, 33)
        for i, c in enumerate(b): lib.call('string_set', o, lib.mk(i), lib.mk(['c', c]))
        os.append(o)
        hs = [code(lib, 'equal_hash_proc', x) for x in os]
        for i, h in enumerate(hs): same(h, hs[0], 'equal-hash of two strings with equal contents (%d)' % i)
        for x in os: same(lib.rd(x), ['s', s], 'the string afterwards'); same(code(lib, 'equal_hash_proc', x), hs[0], 'equal-hash of the unchanged string later')
        if s:
            lib.call('string_set', os[0], lib.mk(0), lib.mk(['c', 35])); code(lib, 'equal_hash_proc', os[0])
            lib.call('string_set', os[0], lib.mk(0), lib.mk(['c', b[0]])); same(code(lib, 'equal_hash_proc', os[0]), hs[0], 'equal-hash after a change was undone')
        y = lib.mk(['sym', s]); same(code(lib, 'equal_hash_proc', y), code(lib, 'equal_hash_proc', y), 'equal-hash of a symbol')
    for s in texts(rng, tier): yield ['string', s], lambda s=s: t(s)
@oracle('C08', 'library eq-hash and equal-hash')
def _(lib, rng, tier):
    vs = [v for v in ATOMS if v not in ('void', 'eof', 'values')] + [tree(rng, rng.randrange(1, 5)) for _ in range(N(tier, 150, 3000))]
    def ok(v): return 'void' not in str(v)
    def t(v):
        lib.boot()
        e = lit(v)
        r = lib.rd(lib.eval('(let-values ([(a) %s] [(b) %s]) (let-values ([(x) (equal-hash a)] [(y) (equal-hash b)]) (cons (equal? a b) (cons x (cons y (cons (equal-hash a) \'()))))))' % (e, e)))
        (eq, x, y, z), _ = unl(r)
        expect(eq is True, 'two copies are not equal?'); expect(isinstance(x, int) and x >= 0, 'code is not a non-negative fixnum: %r' % (x,)); same(y, x, 'equal-hash of an equal? object'); same(z, x, 'equal-hash again')
        r = lib.rd(lib.eval('(let-values ([(a) %s]) (let-values ([(x) (eq-hash a)]) (cons x (cons (equal-hash a) (cons (eq-hash a) \'())))))' % e))
        (x, _, y), _ = unl(r); same(y, x, 'eq-hash again')
    for v in vs:
        if ok(v): yield ['value', v], lambda v=v: t(v)
