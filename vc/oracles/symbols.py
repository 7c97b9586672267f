from ..oracle import oracle, expect, same, Fail
from ..hlib import L, unl, Err
from .gen import *
SIZES = [13, 29, 59, 113, 257, 509, 1031, 2053, 4099, 8209, 16411, 32771]
def h32(b):
    h = 5381
    for c in b: h = (h * 33 + (c - 256 if c > 127 else c)) & 0xffffffff
    return h
def names(rng, n):
    out = [b'', b'a', b'b', b'aa', b'ab', b'a ', b' a', b'\xff', b'\x80a', b'\x7f', b'x' * 100, b'x' * 101, b'lambda', b'quote', b'define', b'+', b'-', b'...', b'1', b'#t']
    pre = bytes(rng.randrange(1, 256) for _ in range(40))
    out += [pre[:k] for k in range(0, 41, 3)]
    while len(out) < n: out.append(bytes(rng.choice(b'abcxyz-!?0123\xe9') for _ in range(rng.randrange(1, 9))))
    return sorted(set(out), key=lambda b: (rng.random(), b))
def symname(lib, p):
    same(lib.tname(p), 'SYMBOL', 'type'); return lib.rd(p)[1].encode('latin1')
class Table:
    """names interned so far; every answer is compared with it"""
    def __init__(self, lib, itab): self.lib, self.it, self.m, self.objs = lib, itab, {}, {}
    def intern(self, b):
        lib = self.lib
        buf = lib.cstr(b); p = lib.call('intern_symbol', self.it, buf) if self.it else lib.l.vh_intern(b)
        if b in self.m: same(p, self.m[b], 'the symbol of %r, interned before' % b)
        else:
            expect(p not in self.objs, 'the new name %r gets the symbol of %r' % (b, self.objs.get(p))); same(symname(lib, p), b, 'name of the symbol'); self.m[b] = p; self.objs[p] = b
        return p
    def all(self):
        for b, p in list(self.m.items()):
            self.intern(b)
def grown(lib, count, step, order):
    t = Table(lib, lib.call('make_intern_table', raw=True) if False else lib.call('make_intern_table'))
    for i in range(count):
        t.intern(order(i))
        if i % step == step - 1:
            for k in range(0, i, max(1, i // 200)): t.intern(order(k))
    t.all()
    return t
@oracle('C09', 'interning')
def _(lib, rng, tier):
    for rep in range(N(tier, 12, 200)):
        ns = names(rng, 120)
        def t(glob=rep % 2):
            T = Table(lib, 0 if glob else lib.call('make_intern_table'))
            for b in ns:
                T.intern(b)
                if h32(b) % 3 == 0: T.intern(ns[h32(b) % len(ns)])
            T.all()
            for b in ns:
                if glob and b:
                    s = lib.call('Mstring', lib.cstr(b)); same(lib.call('string_to_symbol', s), T.m[b], 'string->symbol')
                    same(lib.call('string_to_symbol', lib.call('symbol_to_string', T.m[b])), T.m[b], 'symbol->string->symbol')
        yield ['names', rep], t
@oracle('C09', 'names in one bucket')
def _(lib, rng, tier):
    for size in (8209, 16411):
        want = {rng.randrange(size) for _ in range(3)}; got = {k: [] for k in want}
        for i in range(N(tier, 90000, 400000)):
            b = b'k%d' % i; k = h32(b) % size
            if k in got: got[k].append(b)
        for k, bs in got.items():
            def t(bs=bs):
                T = Table(lib, lib.call('make_intern_table'))
                for b in bs: T.intern(b)
                for b in reversed(bs): T.intern(b)
                for b in bs: T.intern(b + b'!')
                T.all()
            yield ['bucket', size, len(bs)], t
    # names of the same length and bucket that differ in a few characters somewhere
    for length in (5, 8, 9, 16, 17, 20, 33, 34, 47, 65, 80):
        for pos in sorted({0, length // 2, length - 4}):
            pairs = []; at = {}; w = bytearray(rng.choice(b'abcdefghijklmnopqrstuvwxyz0123456789') for _ in range(length))
            for a in range(6000):
                if len(pairs) >= 6: break
                w[pos:pos + 4] = b'%04d' % a; k = h32(w) % 8209
                if k in at: pairs.append((at[k], bytes(w)))
                at[k] = bytes(w)
            def t(pairs=pairs):
                T = Table(lib, lib.call('make_intern_table'))
                for x, y in pairs: T.intern(x); T.intern(y); T.intern(x)
                T.all()
            if pairs: yield ['few characters', length, pos, [[x.decode(), y.decode()] for x, y in pairs[:2]]], t
    # names one of which is a prefix of the other, in one bucket
    pre = b''; at = {}; pairs = []
    for i in range(3000):
        pre = pre + bytes([97 + i * 7 % 26]); k = h32(pre) % 8209
        if k in at: pairs.append((at[k], pre))
        at[k] = pre
    def t(pairs=pairs):
        T = Table(lib, lib.call('make_intern_table'))
        for x, y in pairs: T.intern(x); T.intern(y)
        for x, y in pairs: T.intern(y); T.intern(x)
    yield ['prefixes', len(pairs)], t
    # the same hash code altogether
    col = [b'aa', b'b@']   # 33*97+97 == 33*98+64
    def t():
        same(h32(col[0]), h32(col[1]), 'collision')
        T = Table(lib, lib.call('make_intern_table'))
        for k in range(6):
            for w in itertools.product(col, repeat=k): T.intern(b''.join(w))
        T.all()
    yield ['equal hash codes'], t
@oracle('C09', 'growth')
def _(lib, rng, tier):
    def t():
        grown(lib, N(tier, 13000, 30000), 1500, lambda i: b'g%d' % i)
    yield ['growth', 'dense'], t
    def t2():
        T = Table(lib, lib.call('make_intern_table')); r = [b'%x' % (i * 2654435761 % 2**32) for i in range(12500)]
        # every name around each growth point is interned again right after it
        for i, b in enumerate(r):
            T.intern(b)
            if 6140 < i < 6170 or 12290 < i < 12330:
                T.intern(b); T.intern(r[i - 1]); T.intern(r[0]); T.intern(r[i // 2])
        T.all()
    yield ['growth', 'points'], t2
@oracle('C09', 'generated symbols')
def _(lib, rng, tier):
    for rep in range(N(tier, 10, 100)):
        base = rng.choice([b'g', b'x', b'', b'temp', b'a' * 30])
        def t():
            seen = set()
            for k in range(12):
                g = lib.call('Mgensym', lib.cstr(base)); n = symname(lib, g); expect(n.startswith(base), 'name %r' % n)
                p = lib.l.vh_intern(n); expect(p != g, 'the generated symbol %r is found by its name' % n); same(symname(lib, p), n, 'name'); expect(g not in seen, 'the same symbol twice'); seen.add(g)
                same(lib.l.vh_intern(n), p, 'interned again'); expect(p not in seen, 'a generated symbol is found')
        yield ['gensym', rep, base.decode()], t
@oracle('C09', 'library')
def _(lib, rng, tier):
    def e1(text, w):
        def t(): same(lib.rd(lib.eval(text)), w)
        return [text], t
    for s in ('a', 'foo', 'x y', 'lambda', 'A'):
        yield e1('(eq? (string->symbol "%s") (string->symbol "%s"))' % (s, s), True)
        yield e1('(eq? (string->symbol "%s") (string->symbol "%sx"))' % (s, s), False)
        yield e1('(symbol->string (string->symbol "%s"))' % s, ['s', s])
    yield e1("(eq? 'abc (string->symbol \"abc\"))", True)
