from .common import *
from ..cstr import *
from ..engine import bufsize, wsize, word_at, crem
from . import spec, plain
from .hashing import hb32, t_hash, symok
from .vectors import Sel
k_ = z3.Int('k!y')
# ---- names: a canonical number for every character sequence (conservative: equal sequences, equal numbers)
nlen = z3.Function('nlen', I, I); nhash = z3.Function('nhash', I, I); nchar = z3.Function('nchar', I, I, I)
ndiff = z3.Function('ndiff', ARR, ARR, I)
@recdef('nid', [ARR], I)
def nid(v, a):
    """what every array with these characters has in common; 'equal sequences hash alike' is proved under C08/C09 (see extra)"""
    return lambda t: [slen(a, 0) == nlen(t), hb32(a, 0, slen(a, 0), 5381) == nhash(t), 0 <= nhash(t), nhash(t) < 2**32,
                      ForAll([k_], Implies(And(0 <= k_, k_ < slen(a, 0)), Sel(a, k_) == nchar(t, k_)), patterns=[Sel(l, k_) for l in _leaves(a)])]
_a, _b = z3.Const('a!n', ARR), z3.Const('b!n', ARR)
_d = ndiff(_a, _b)
nid.axioms.append(ForAll([_a, _b], Or(nid(_a) == nid(_b), slen(_a, 0) != slen(_b, 0), And(0 <= _d, _d < slen(_a, 0), Sel(_a, _d) != Sel(_b, _d))), patterns=[z3.MultiPattern(nid(_a), nid(_b))]))
from ..cstr import _leaves
def nm(v, s): return nid(v.read('BUF[]', v.read('SYMBOL.str', s)))
# ---- the table
@recdef('bchain', [I], L, ('intern_table_bucket.sym', 'intern_table_bucket.next'))
def bchain(v, b): return lambda t: [Implies(b == 0, t == nil), Implies(b != 0, mem(v.read('intern_table_bucket.sym', b), t)), Implies(b != 0, t == cons(v.read('intern_table_bucket.sym', b), bchain(v, v.read('intern_table_bucket.next', b))))]
def fld(v, it, f): return v.read('intern_table.' + f, it)
def W(v, it): return v.read('WORDS[]', fld(v, it, 'buckets'))
def hidx(v, x, n): return crem(nhash(nm(v, x)), n)
x_, y_, j_ = z3.Ints('x!t y!t j!t')
def bch(v, w, j): return bchain(v, Sel(w, j))
BS = gconst('bucket_sizes')
def okptr(p, N=60): return And(p >= BS, p <= BS + 8 * (N - 2), (p - BS) % 8 == 0)
def tablefacts():
    """the size table (checked against its initialiser in the sources, see sizes_obl): entries but the last are positive and below 2^63"""
    p = z3.Int('p!b')
    return ForAll([p], Implies(okptr(p), And(word_at(p) > 0, word_at(p) < 2**62 + 2**60)), patterns=[word_at(p)])
def sym_in(v, w, n): return ForAll([x_, j_], Implies(And(0 <= j_, j_ < n, mem(x_, bch(v, w, j_))), And(tag(x_) == T['SYMBOL'], symok(v, x_), slen(v.read('BUF[]', v.read('SYMBOL.str', x_)), 0) < 2**31 - 1, hidx(v, x_, n) == j_)), patterns=[mem(x_, bch(v, w, j_))])
def uniq(v, w, n): return ForAll([x_, y_, j_], Implies(And(0 <= j_, j_ < n, mem(x_, bch(v, w, j_)), mem(y_, bch(v, w, j_)), nm(v, x_) == nm(v, y_)), x_ == y_), patterns=[z3.MultiPattern(mem(x_, bch(v, w, j_)), mem(y_, bch(v, w, j_)))])
def old(v, w, n, na): return ForAll([x_, j_], Implies(And(0 <= j_, j_ < n, mem(x_, bch(v, w, j_))), x_ <= na), patterns=[mem(x_, bch(v, w, j_))])
def wf(v, it, na, small=True):
    n, w = fld(v, it, 'alloc'), W(v, it)
    return [('size from the table', And(it > 0, okptr(fld(v, it, 'alloc_ptr')), n == word_at(fld(v, it, 'alloc_ptr')), n > 0)),
            ('bucket array', And(fld(v, it, 'buckets') > 0, wsize(fld(v, it, 'buckets')) == 8 * n)),
            ('every entry is a symbol in the bucket of its name', sym_in(v, w, n)), ('no two entries have the same name', uniq(v, w, n)), ('entries are allocated objects', old(v, w, n, na))]
def kept(v, w, n, v2, w2, n2):
    """the same symbols are in the table"""
    return And(ForAll([x_, j_], Implies(And(0 <= j_, j_ < n, mem(x_, bch(v, w, j_))), mem(x_, bch(v2, w2, hidx(v2, x_, n2)))), patterns=[mem(x_, bch(v, w, j_))]),
               ForAll([x_, j_], Implies(And(0 <= j_, j_ < n2, mem(x_, bch(v2, w2, j_))), mem(x_, bch(v, w, hidx(v, x_, n)))), patterns=[mem(x_, bch(v2, w2, j_))]))
def here(v, c): return Or(c == 0, mem(v.read('intern_table_bucket.sym', c), bchain(v, c)))
def localwords(sv, k):
    e, st = sv.eng, sv.st
    x = e.resolve(st, st.vars.get(k))
    if isinstance(x, LRef) and x.id not in st.ghost.get('pub', {}):
        o = st.locals[x.id]
        if o.elembase is None and o.tag() is None and not o.fields and not o.struct:
            o = st.lobj(x.id); o.elembase = 'words'; o.elems = z3.K(I, IV(0)) if o.zero else e.fresh('words', ARR)
        return o.elems if o.elembase == 'words' else None
    if isinstance(x, z3.ExprRef): return sv.v.read('WORDS[]', x)
    return None
def ptrkeys(info): return [k for k in info.h.vars if info.eng.is_ptr(info.eng.vtypes.get(k, ''))]
def t_zero(info):
    out = []
    for k in ptrkeys(info):
        if not info.eng.vtypes[k].endswith('**') or info.eng.vtypes[k] == 'void**': continue
        for i in info.mi:
            def f(sv, k=k, i=i):
                w = localwords(sv, k)
                return None if w is None else ForAll([k_], Implies(And(0 <= k_, k_ < sv.term(i)), Sel(w, k_) == 0), patterns=[Sel(w, k_)])
            out.append(('%s[0..%s) empty' % (info.name(k), info.name(i)), f))
        def g(sv, k=k):
            w = localwords(sv, k)
            return None if w is None else ForAll([k_], Sel(w, k_) == 0, patterns=[Sel(w, k_)])
        out.append(('%s is empty' % info.name(k), g))
    return out
def t_move(info):
    """rehashing: the new buckets hold exactly the entries visited so far"""
    out = []
    it = info.args[0]; v0 = info.pre; n0, w0 = fld(v0, it, 'alloc'), W(v0, it)
    sizes = [lambda sv, k=k: sv.term(k) for k in info.ints if k not in info.mod] + [lambda sv: word_at(fld(sv.v, it, 'alloc_ptr'))]
    for k in ptrkeys(info):
        if not info.eng.vtypes[k].startswith('struct') or not info.eng.vtypes[k].endswith('**'): continue
        for nf in sizes:
            def F(sv, k=k, nf=nf):
                w = localwords(sv, k); n = nf(sv)
                return None if w is None else ForAll([x_, j_], Implies(And(0 <= j_, j_ < n, mem(x_, bchain(sv.v, Sel(w, j_)))), And(hidx(v0, x_, n) == j_, hidx(v0, x_, n0) >= 0, hidx(v0, x_, n0) < n0, mem(x_, bch(v0, w0, hidx(v0, x_, n0))))), patterns=[mem(x_, bchain(sv.v, Sel(w, j_)))])
            out.append(('entries of %s come from the table' % info.name(k), F))
            for i in info.ints:
                def R(sv, k=k, nf=nf, i=i):
                    w = localwords(sv, k); n = nf(sv)
                    return None if w is None else ForAll([x_, j_], Implies(And(0 <= j_, j_ < sv.term(i), mem(x_, bch(v0, w0, j_))), mem(x_, bchain(sv.v, Sel(w, hidx(v0, x_, n))))), patterns=[mem(x_, bch(v0, w0, j_))])
                out.append(('entries of buckets below %s are in %s' % (info.name(i), info.name(k)), R))
                for b in info.mp:
                    if info.eng.vtypes[b] != info.eng.vtypes[k][:-1]: continue
                    out.append(('first entry of %s' % info.name(b), lambda sv, b=b: here(sv.v, sv.term(b))))
                    def R2(sv, k=k, nf=nf, i=i, b=b):
                        w = localwords(sv, k); n = nf(sv); c = sv.term(b)
                        return None if w is None or c is None else And(ForAll([x_], Implies(mem(x_, bch(v0, w0, sv.term(i))), Or(mem(x_, bchain(sv.v, c)), mem(x_, bchain(sv.v, Sel(w, hidx(v0, x_, n)))))), patterns=[mem(x_, bch(v0, w0, sv.term(i)))]),
                                                                        ForAll([x_], Implies(mem(x_, bchain(sv.v, c)), mem(x_, bch(v0, w0, sv.term(i)))), patterns=[mem(x_, bchain(sv.v, c)), mem(x_, bch(v0, w0, sv.term(i)))]))
                    out.append(('entries of bucket %s: still to come in %s or moved' % (info.name(i), info.name(b)), R2))
    return out
def t_seek(info):
    """search: entries passed do not have the name; the rest is part of the bucket"""
    out = []
    if len(info.args) < 2: return out
    it, a = info.args[0], info.args[1]
    v0 = info.pre; key = nid(v0.read('BUF[]', a))
    for b in info.mp:
        e0 = info.entry.vars[b]
        if not isinstance(e0, z3.ExprRef): continue
        if 'bucket' in info.eng.vtypes[b]: out.append(('first entry of %s' % info.name(b), lambda sv, b=b: here(sv.v, sv.term(b))))
        def f(sv, b=b, e0=e0):
            c = sv.term(b)
            return None if c is None else ForAll([x_], Implies(And(mem(x_, bchain(v0, e0)), nm(v0, x_) == key), mem(x_, bchain(sv.v, c))), patterns=[mem(x_, bchain(v0, e0))])
        def g(sv, b=b, e0=e0):
            c = sv.term(b)
            return None if c is None else ForAll([x_], Implies(mem(x_, bchain(sv.v, c)), mem(x_, bchain(v0, e0))), patterns=[mem(x_, bchain(sv.v, c)), mem(x_, bchain(v0, e0))])
        out.append(('the entries from %s on are part of the bucket' % info.name(b), g))
        out.append(('only entries with another name were passed before %s' % info.name(b), f))
    return out
def t_pfx(info):
    out = []
    e = info.eng
    ps = [k for k in info.h.vars if e.vtypes.get(k) == 'char*']
    for i in info.mi:
        for p in ps:
            for q in ps:
                if str(p) >= str(q): continue
                def f(sv, i=i, p=p, q=q):
                    a, b = e.bytes_at(sv.st, sv.st.vars.get(p)), e.bytes_at(sv.st, sv.st.vars.get(q))
                    if a is None or b is None: return None
                    return ForAll([k_], Implies(And(0 <= k_, k_ < sv.term(i)), Sel(a[0], k_) == Sel(b[0], k_)), patterns=[Sel(a[0], k_), Sel(b[0], k_)])
                out.append(('first %s characters of %s and %s agree' % (info.name(i), info.name(p), info.name(q)), f))
    return out
def cterm(x, i):
    a = x.pre.read('BUF[]', x.a(i)); return And(x.a(i) > 0, terminated(a, 0, bufsize(x.a(i))), slen(a, 0) < 2**31 - 1)
symof = z3.Function('symof', I, I)
def the_symbol(x, name):
    """the interned symbol with this literal name"""
    from ..engine import StrLit
    return symof(nid(x.pre.read('BUF[]', x.eng.strlit(x.st, StrLit(name)))))
def interned():
    """interning as other modules rely on it: proved under C09 (the one symbol with this name)"""
    return Contract('intern_symbol', None, lambda x: [('the symbol of that name', And(tag(x.res) == T['SYMBOL'], x.res == symof(nid(x.pre.read('BUF[]', x.a(1))))))], trusted=True)
TMPL = [t_hash(hb32), t_zero, t_move, t_seek, t_pfx]
def small(v, it): return fld(v, it, 'alloc_ptr') + 8 <= BS + 8 * 30
OPQ = {'hb32', 'slen'}
def C09():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    c('hash_bytes', lambda x: [('the bytes are readable', And(x.a(0) > 0, x.a(1) <= bufsize(x.a(0))))], lambda x: [('the hash of the bytes', x.res == hb32(x.pre.read('BUF[]', x.a(0)), 0, x.a(1), 5381))],
      inv=TMPL, result='unsigned int', optional=True, file='src/core/c/symbol.c', bufargs={0})
    c('Msymbol', lambda x: [('C string', cterm(x, 0))], lambda x: [('a fresh symbol', And(tag(x.res) == T['SYMBOL'], fresh_ref(x, x.res), symok(x.post, x.res), fresh_ref(x, x.post.read('SYMBOL.str', x.res)))),
        ('with this name', nm(x.post, x.res) == nid(x.pre.read('BUF[]', x.a(0))))])
    inv0 = lambda x: [('size table', tablefacts())] + wf(x.pre, x.a(0), x.na0) + [('the table is not at its last size', small(x.pre, x.a(0)))]
    flds = lambda x: [('intern_table.buckets', x.a(0)), ('intern_table.alloc_ptr', x.a(0)), ('intern_table.alloc', x.a(0))]
    def after(x): return wf(x.post, x.a(0), x.st.na)
    T_ = lambda v, it: (v, W(v, it), fld(v, it, 'alloc'))
    c('intern_table_resize', inv0, lambda x: after(x) + [('new buckets', fresh_ref(x, fld(x.post, x.a(0), 'buckets'))), ('exactly the same symbols', kept(*T_(x.pre, x.a(0)), *T_(x.post, x.a(0))))],
      inv=TMPL, modifies=flds, result='void', optional=True, timeout=9000, opaque=OPQ)
    key = lambda x: nid(x.pre.read('BUF[]', x.a(1)))
    def ipost(x):
        v, w, n = T_(x.pre, x.a(0)); v2, w2, n2 = T_(x.post, x.a(0))
        ino = lambda y: mem(y, bch(v, w, hidx(v, y, n))); inn = lambda y: mem(y, bch(v2, w2, hidx(v2, y, n2)))
        return after(x) + [('a symbol of this name', And(tag(x.res) == T['SYMBOL'], nm(x.post, x.res) == key(x))), ('found again ever after', inn(x.res)),
            ('the symbol already interned under this name', ForAll([x_, j_], Implies(And(0 <= j_, j_ < n, mem(x_, bch(v, w, j_)), nm(v, x_) == key(x)), x_ == x.res), patterns=[mem(x_, bch(v, w, j_))])),
            ('no interned symbol is lost', ForAll([x_, j_], Implies(And(0 <= j_, j_ < n, mem(x_, bch(v, w, j_))), inn(x_)), patterns=[mem(x_, bch(v, w, j_))])),
            ('nothing else is added', ForAll([x_, j_], Implies(And(0 <= j_, j_ < n2, mem(x_, bch(v2, w2, j_))), Or(x_ == x.res, ino(x_))), patterns=[mem(x_, bch(v2, w2, j_))])),
            ('an interned or a fresh symbol', Or(ino(x.res), fresh_ref(x, x.res)))]
    c('intern_symbol', lambda x: inv0(x) + [('C string', cterm(x, 1))], ipost, inv=TMPL,
      modifies=lambda x: flds(x) + [('intern_table.size', x.a(0)), ('WORDS[]', fld(x.pre, x.a(0), 'buckets'))], timeout=9000, opaque=OPQ)
    c('make_intern_table', lambda x: [('size table', tablefacts())], lambda x: wf(x.post, x.res, x.st.na) + [('empty', ForAll([j_], Implies(And(0 <= j_, j_ < fld(x.post, x.res, 'alloc')), bch(x.post, W(x.post, x.res), j_) == nil), patterns=[bch(x.post, W(x.post, x.res), j_)])), ('no entries counted', fld(x.post, x.res, 'size') == 0)], inv=TMPL)
    c('Mgensym', lambda x: [('C string', cterm(x, 0))], lambda x: [('a fresh symbol, in no table', And(tag(x.res) == T['SYMBOL'], fresh_ref(x, x.res), symok(x.post, x.res)))])
    return C
def sizes(prog):
    g = prog.tu('src/core/c/symbol.c').globals['bucket_sizes']
    out = []
    def lits(n):
        if n.get('kind') == 'IntegerLiteral': out.append(int(n['value']))
        for c in n.get('inner', []): lits(c)
    lits(g)
    return out
def sizes_obl(prog, P):
    """bucket_sizes in the current sources: 60 entries, positive except the terminator, increasing"""
    z = sizes(prog)
    def o(name, ok): return dict(function='bucket_sizes', obligation=name, location=0, discharged=bool(ok), seconds=0, detail=str(z[:5]))
    return [o('sixty entries ending in 0', len(z) == 60 and z[-1] == 0), o('positive and below 2^63', all(0 < x < 2**62 + 2**60 for x in z[:-1])), o('increasing', all(a < b for a, b in zip(z, z[1:-1]))),
            o('the last size is at least 2^62', len(z) > 1 and z[-2] >= 2**62)]
def hash32(prog, P):
    from .hashing import laws
    v = View({}); out = []
    a, b, h, i, n = z3.Const('a', ARR), z3.Const('b', ARR), z3.Int('h'), z3.Int('i'), z3.Int('n')
    import time
    def ob(name, hyps, goal):
        t = time.time(); ok = P.check(list(hyps) + [Not(skolem(goal))], 3, 8000) == z3.unsat
        out.append(dict(function='name hash', obligation=name, location=0, discharged=ok, seconds=round(time.time() - t, 2), detail=''))
    ob('equal characters hash alike: base', [i >= n], hb32(a, i, n, h) == hb32(b, i, n, h))
    ob('equal characters hash alike: step', [i < n, Sel(a, i) == Sel(b, i), ForAll([h], hb32(a, i + 1, n, h) == hb32(b, i + 1, n, h), patterns=[hb32(a, i + 1, n, h)])], hb32(a, i, n, h) == hb32(b, i, n, h))
    return out
@spec('C09')
def _(): return plain('C09', C09(), extra={'the table of sizes': sizes_obl, 'equal names hash alike': hash32}, trusted=['libc strlen, strncpy and snprintf (modelled in vc/cstr.py)', 'names are identified with canonical numbers (conservative definition nid)'],
    assume=['names are shorter than 2^31 characters', 'the table has not reached its thirtieth size (2^33 buckets)'])
