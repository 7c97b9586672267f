from ..oracle import oracle, expect, same, Fail
from ..hlib import L, unl, Err
from .gen import *
def stree(rng, d):
    """data with syntax objects inside"""
    k = rng.randrange(10)
    if d <= 0 or k < 2: return atom(rng)
    if k < 4: return ['p', stree(rng, d - 1), stree(rng, d - 1)]
    if k == 4: return ['v', [stree(rng, d - 1) for _ in range(rng.randrange(0, 5))]]
    if k == 5: return ['box', stree(rng, d - 1)]
    if k == 6: return ['stx', stree(rng, d - 1), rng.choice([False, ['sym', 'loc']])]
    return L(*[stree(rng, d - 1) for _ in range(rng.randrange(0, 5))], tail=rng.choice(['nil', 'nil', 7, ['sym', 'z'], ['stx', 'nil', False], ['stx', L(1, 2), False], ['v', [1, 2]]]))
def strip(v):
    if not isinstance(v, list): return v
    if v[0] == 'stx': return strip(v[1])
    if v[0] == 'p':
        xs, t = unl(v); t = strip(t); return L(*[strip(x) for x in xs], tail=t)
    if v[0] == 'v': return ['v', [strip(x) for x in v[1]]]
    if v[0] == 'box': return ['box', strip(v[1])]
    return v
def snap(lib, p, seen=None):
    """(address, structure) of every reachable object"""
    out = {}; st = [p]; l = lib.l
    while st:
        q = st.pop()
        if q in out or q in lib.rsing or q == 0: continue
        t = lib.tname(q)
        ks = [l.vh_car(q), l.vh_cdr(q)] if t == 'PAIR' else [l.vh_vref(q, i) for i in range(l.vh_vlen(q))] if t == 'VECTOR' else [l.vh_unbox(q)] if t == 'BOX' else [l.vh_syntax_e(q), l.vh_syntax_loc(q)] if t == 'SYNTAX' else []
        out[q] = (t, ks); st += ks
    return out
def wrapped(lib, o, r, path='datum'):
    """r wraps every sub-datum of o exactly once"""
    l = lib.l
    while True:
        t = 'ATOM' if o in lib.rsing and lib.rsing[o] != 'emptyvec' else lib.tname(o)
        if t == 'SYNTAX': same(r, o, 'existing syntax at ' + path); return
        expect(r not in lib.rsing and lib.tname(r) == 'SYNTAX', '%s is not wrapped' % path)
        same(l.vh_syntax_loc(r), lib.sing['false'], 'location of ' + path); e = l.vh_syntax_e(r)
        if t == 'PAIR':
            i = 0
            while True:
                expect(e not in lib.rsing and lib.tname(e) == 'PAIR', '%s: list is cut at %d' % (path, i))
                wrapped(lib, l.vh_car(o), l.vh_car(e), path + '.%d' % i)
                o, e = l.vh_cdr(o), l.vh_cdr(e); i += 1
                if o == lib.sing['nil']: same(e, lib.sing['nil'], path + ' end'); return
                if o in lib.rsing or lib.tname(o) != 'PAIR': break
            r = e; path += '.tail'; continue
        if t == 'VECTOR':
            expect(lib.tname(e) == 'VECTOR', path + ' type'); same(l.vh_vlen(e), l.vh_vlen(o), path + ' length')
            for i in range(l.vh_vlen(o)): wrapped(lib, l.vh_vref(o, i), l.vh_vref(e, i), path + '#%d' % i)
            return
        if t == 'BOX': expect(lib.tname(e) == 'BOX', path + ' type'); o, r = l.vh_unbox(o), l.vh_unbox(e); path += '&'; continue
        same(e, o, 'atom at ' + path); return
FIX = [0, 'nil', True, ['s', 'x'], ['sym', 'a'], ['c', 65], ['v', []], ['v', [1, L(2, 3), ['v', [4]]]], ['box', L(1)], L(), L(1), L(1, 2, 3), L(1, tail=2), L(1, 2, tail=['v', [3]]), L(1, tail=['box', 4]),
       ['stx', 1, False], ['stx', L(1, 2), ['sym', 'l']], L(['stx', 1, False], 2), L(1, tail=['stx', L(2), False]), ['v', [['stx', 1, False], 2]], L(*range(300)), ['v', list(range(300))], L(L(L(L(1)), 2), 3), ['box', ['box', ['stx', 1, False]]], ['stx', ['stx', 1, False], False], L('nil', 'nil'), L(tail='nil')]
@oracle('C13', 'wrap and strip')
def _(lib, rng, tier):
    for v in FIX + [stree(rng, rng.randrange(1, 6)) for _ in range(N(tier, 300, 8000))]:
        def t():
            o = lib.mk(v); before = snap(lib, o)
            r = lib.call('to_syntax', o); wrapped(lib, o, r)
            s = lib.call('strip_syntax', r); same(lib.rd(s), strip(v), 'stripping the wrapped datum'); same(lib.rd(lib.call('strip_syntax', o)), strip(v), 'stripping')
            same(snap(lib, o), before, 'the input afterwards')
        yield ['wrap', v], t
@oracle('C13', 'flatten')
def _(lib, rng, tier):
    def flat(v):
        """elements of the (nested) syntax list, None when it is not one"""
        out = []
        once = lambda x: x[1] if isinstance(x, list) and x[0] == 'stx' else x
        v = once(v)
        while isinstance(v, list) and v[0] == 'p': out.append(v[1]); v = once(v[2])
        return out if v == 'nil' else None
    def slist(d):
        n = rng.randrange(0, 5); r = rng.choice(['nil', 'nil', 'nil', ['stx', 'nil', False], 5, ['sym', 'x'], ['v', []], ['stx', ['stx', 'nil', False], False], ['stx', 3, False]])
        for i in range(n):
            r = ['p', stree(rng, 1), r]
            if rng.random() < .4: r = ['stx', r, False]
            if rng.random() < .04: r = ['stx', r, False]
        return r
    for v in FIX + [slist(3) for _ in range(N(tier, 300, 8000))]:
        def t():
            o = lib.mk(v); before = snap(lib, o); r = lib.call('syntax_to_list', o); w = flat(v)
            if w is None: same(r, lib.sing['false'], 'not a list')
            else:
                es, tl = lib.lst(r); same(tl, lib.sing['nil'], 'terminator'); same([lib.rd(e) for e in es], [lib.rd(lib.mk(x)) for x in w], 'elements')
                # the elements are the objects themselves
                x = o; ids = []
                once = lambda q: lib.l.vh_syntax_e(q) if q not in lib.rsing and lib.tname(q) == 'SYNTAX' else q
                x = once(x)
                while x not in lib.rsing and lib.tname(x) == 'PAIR': ids.append(lib.l.vh_car(x)); x = once(lib.l.vh_cdr(x))
                same(es, ids, 'identity of the elements')
            same(snap(lib, o), before, 'the input afterwards')
        yield ['flatten', v], t
@oracle('C13', 'accessors and library')
def _(lib, rng, tier):
    for v in FIX:
        def t():
            e, l = lib.mk(v), lib.mk(['sym', 'here']); s = lib.call('Msyntax', e, l)
            same(lib.call('syntax_e_proc', s), e, 'datum'); same(lib.call('syntax_loc_proc', s), l, 'location'); same(lib.rd(lib.call('syntaxp_proc', s)), True, 'syntax?')
            same(lib.rd(lib.call('syntaxp_proc', e)), isinstance(v, list) and v[0] == 'stx', 'syntax? of the datum')
        yield ['access', v], t
    def e1(text, w):
        def t(): same(lib.rd(lib.eval(text)), w)
        return [text], t
    yield e1("(syntax->datum (datum->syntax (quote (a (b . c) #(1 2) \"x\"))))", L(['sym', 'a'], ['p', ['sym', 'b'], ['sym', 'c']], ['v', [1, 2]], ['s', 'x']))
    yield e1("(syntax->datum (quote-syntax (a (b . c) #(1 2) \"x\")))", L(['sym', 'a'], ['p', ['sym', 'b'], ['sym', 'c']], ['v', [1, 2]], ['s', 'x']))
    yield e1("(map syntax->datum (syntax->list (quote-syntax (1 (2 3) x))))", L(1, L(2, 3), ['sym', 'x']))
    yield e1("(syntax->list (quote-syntax (1 . 2)))", False)
