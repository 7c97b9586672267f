"""C strings: spec functions over character arrays and models (contracts) of the libc functions used. All trusted."""
import z3
from . import engine
from .engine import *
from .engine import skolem
from .logic import *
_k = z3.Int('k!c')
def _leaves(a):
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: return _leaves(a.arg(1)) + _leaves(a.arg(2))
    return [a]
@recdef('slen', [ARR, I], I)
def slen(v, a, o):
    """distance from o to the first NUL at or after o"""
    ps = [z3.Select(l, _k) for l in _leaves(a)]
    extra = []
    def at(a, t, k): return Implies(And(o <= k, z3.Select(a, k) == 0), And(t <= k - o, z3.Select(a, o + t) == 0))
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        b, i = a.arg(0), a.arg(1); t, u = slen(a, o), slen(b, o)
        extra = [at(a, t, i), at(a, t, o + u), at(b, u, o + t)]
    return lambda t: extra + [t >= 0, ForAll([_k], Implies(And(o <= _k, _k < o + t), z3.Select(a, _k) != 0), patterns=ps),
                      ForAll([_k], Implies(And(o <= _k, z3.Select(a, _k) == 0), And(t <= _k - o, z3.Select(a, o + t) == 0)), patterns=ps)]
isdec = z3.Function('isdec', ARR, I, I, B)      # the string at o is the decimal numeral of n
def u8(x): return If(x >= 0, x, x + 256)
def bufof(v, s): return v.read('STRING.str', s)
def chars(v, s): return v.read('BUF[]', v.read('STRING.str', s))
def terminated(a, o, n): return And(slen(a, o) >= 0, o + slen(a, o) < n, z3.Select(a, o + slen(a, o)) == 0)
def strok(v, s):
    """the representation of a string object: a NUL-terminated block"""
    b = bufof(v, s)
    return And(b > 0, terminated(v.read('BUF[]', b), 0, bufsize(b)))
def eqchars(a, i, b, j, n, tag_=''):
    k = z3.Int('k!e')
    d = z3.simplify(j - i) if isinstance(j, z3.ExprRef) or isinstance(i, z3.ExprRef) else IV(j - i)
    ps = [z3.Select(l, k) for l in _leaves(a)]
    if z3.is_int_value(d) and d.as_long() == 0: ps += [z3.Select(l, k) for l in _leaves(b)]
    return ForAll([k], Implies(And(i <= k, k < i + n), z3.Select(a, k) == z3.Select(b, k + d)), patterns=ps)
def streq(a, b):
    """same characters up to the terminating NUL"""
    return And(slen(a, 0) == slen(b, 0), eqchars(a, 0, b, 0, slen(a, 0)))

def _where(e, st, p):
    """-> (array term, offset, capacity or None) of a character pointer"""
    b, off = (p.base, p.off) if isinstance(p, PV) else (p, 0)
    off = e.zint(off)
    pub = st.ghost.get('pub', {})
    if isinstance(b, LRef) and b.id in pub: b = pub[b.id]
    if isinstance(b, LRef):
        o = st.locals[b.id]
        if o.elembase is None and o.tag() is None and not o.fields:
            o = st.lobj(b.id); o.elembase = 'buf'; o.elems = z3.K(I, IV(0)) if o.zero else e.fresh('buf', ARR)
        if o.elembase != 'buf': raise Unsupported('character access to another object')
        return o.elems, off, (e.zint(o.size) if o.size is not None else None), b
    if isinstance(b, StrLit):
        r = e.strlit(st, b)
        a = st.f('BUF[]').read(r)
        n = len(b.s.encode())
        st.assume(bufsize(r) == n + 1, slen(a, 0) == n)
        return a, off, IV(n + 1), r
    t = e.term(st, b)
    return st.f('BUF[]').read(t), off, bufsize(t), t
def _put(e, st, where, arr):
    b = where[3]
    if isinstance(b, LRef): st.lobj(b.id).elems = arr
    else: e.write_field(st, 'BUF[]', b, arr)
def _needstr(e, st, w, n):
    a, o, cap, b = w
    g = And(z3.Select(a, o + slen(a, o)) == 0, slen(a, o) >= 0)
    if cap is not None: g = And(g, o >= 0, o + slen(a, o) < cap)
    e.oblige(st, g, 'the string is NUL-terminated inside its block', n)
@builtin('strlen')
def b_strlen(e, args, st, n):
    w = _where(e, st, args[0]); _needstr(e, st, w, n)
    r = slen(w[0], w[1]); st.assume(r < OBJMAX)
    return [(st, r)]
def _copy(e, st, dst, src, cnt, n, zeropad=None):
    """cnt characters from src to dst; returns"""
    k = z3.Int('k!cp')
    a, o, cap, b = dst; s, p, scap, _ = src
    m = e.fresh('buf', ARR)
    if cap is not None: e.oblige(st, And(o >= 0, Or(cnt <= 0, o + cnt <= cap)), 'the copy stays inside the destination block', n)
    return m
@builtin('strncpy')
def b_strncpy(e, args, st, n):
    d, s = _where(e, st, args[0]), _where(e, st, args[1]); c = e.term(st, args[2])
    a, o, cap, b = d; sa, so, scap, _ = s
    # reading stops at the first NUL or after c characters
    g = Or(slen(sa, so) >= c, z3.Select(sa, so + slen(sa, so)) == 0)
    if scap is not None: g = And(g, so >= 0, Or(so + c <= scap, And(so + slen(sa, so) < scap, z3.Select(sa, so + slen(sa, so)) == 0)))
    e.oblige(st, g, 'the source of the copy is readable', n)
    m = _copy(e, st, d, s, c, n)
    k = z3.Int('k!cp')
    st.assume(ForAll([k], z3.Select(m, k) == If(And(o <= k, k < o + c), If(k - o < slen(sa, so), z3.Select(sa, so + (k - o)), 0), z3.Select(a, k)), patterns=[z3.Select(m, k)]))
    st.assume(Implies(slen(sa, so) < c, z3.Select(m, o + slen(sa, so)) == 0))
    if z3.is_int_value(z3.simplify(so - o)) and z3.simplify(so - o).as_long() == 0:
        st.assume(ForAll([k], Implies(And(o <= k, k < o + c, k - o < slen(sa, so)), z3.Select(m, k) == z3.Select(sa, k)), patterns=[z3.Select(l, k) for l in _leaves(sa)]))
    _put(e, st, d, m)
    return [(st, args[0])]
def b_memcpy(e, args, st, n):
    d, s = _where(e, st, args[0]), _where(e, st, args[1]); c = e.term(st, args[2])
    a, o, cap, b = d; sa, so, scap, _ = s
    if scap is not None: e.oblige(st, And(so >= 0, Or(c <= 0, so + c <= scap)), 'the source of the copy is readable', n)
    m = _copy(e, st, d, s, c, n)
    k = z3.Int('k!cp')
    st.assume(ForAll([k], z3.Select(m, k) == If(And(o <= k, k < o + c), z3.Select(sa, so + (k - o)), z3.Select(a, k)), patterns=[z3.Select(m, k)]))
    _put(e, st, d, m)
    return [(st, args[0])]
for _n in ('memcpy', 'memmove'): BUILTINS[_n] = b_memcpy
@builtin('strcpy')
def b_strcpy(e, args, st, n):
    s = _where(e, st, args[1]); _needstr(e, st, s, n)
    return b_memcpy(e, [args[0], args[1], slen(s[0], s[1]) + 1], st, n)
@builtin('memset')
def b_memset(e, args, st, n):
    d = _where(e, st, args[0]); x, c = e.term(st, args[1]), e.term(st, args[2])
    a, o, cap, b = d
    m = _copy(e, st, d, d, c, n); k = z3.Int('k!cp')
    xs = z3.simplify((x + 128) % 256 - 128)
    st.assume(ForAll([k], z3.Select(m, k) == If(And(o <= k, k < o + c), xs, z3.Select(a, k)), patterns=[z3.Select(m, k)]))
    _put(e, st, d, m)
    return [(st, args[0])]
@builtin('strcmp')
def b_strcmp(e, args, st, n):
    x, y = _where(e, st, args[0]), _where(e, st, args[1]); _needstr(e, st, x, n); _needstr(e, st, y, n)
    r = e.fresh('strcmp'); st.assume(r >= -2**31, r < 2**31)
    a, o, _, _ = x; b, p, _, _ = y
    same = And(slen(a, o) == slen(b, p), eqchars(a, o, b, p, slen(a, o)))
    w = e.fresh('diff')
    st.assume(Implies(r == 0, same), Implies(r != 0, And(w >= 0, w <= slen(a, o), w <= slen(b, p), z3.Select(a, o + w) != z3.Select(b, p + w))))
    return [(st, r)]
@builtin('strncmp', 'memcmp')
def b_strncmp(e, args, st, n): raise Unsupported('strncmp/memcmp')
def _fmt(e, args, st, n, dst, fi, cap):
    f = args[fi]
    if not isinstance(f, StrLit): raise Unsupported('computed format string')
    if f.s in ('%ld', '%d', '%li', '%i'):
        x = e.term(st, args[fi + 1])
        if f.s in ('%d', '%i'): x = e.convert(st, x, 'long', 'int')
        a, o, c, b = dst
        m = e.fresh('dec', ARR); k = z3.Int('k!cp')
        e.oblige(st, And(o >= 0, (o + 21 <= c) if c is not None else lit(True)), 'the numeral fits the destination block', n)
        st.assume(isdec(m, o, x), slen(m, o) >= 1, slen(m, o) <= 20, z3.Select(m, o + slen(m, o)) == 0,
                  ForAll([k], Implies(Or(k < o, k > o + slen(m, o)), z3.Select(m, k) == z3.Select(a, k)), patterns=[z3.Select(m, k)]))
        _put(e, st, dst, m)
        return [(st, slen(m, o))]
    raise Unsupported('format %r' % f.s)
@builtin('sprintf')
def b_sprintf(e, args, st, n): return _fmt(e, args, st, n, _where(e, st, args[0]), 1, None)
def strtol_(e, args, st, n):
    w = _where(e, st, args[0]); _needstr(e, st, w, n)
    a, o, _, _ = w
    x = z3.Int('n!d'); r = e.fresh('strtol')
    st.assume(r >= -2**63, r < 2**63, ForAll([x], Implies(And(isdec(a, o, x), -2**63 <= x, x < 2**63), r == x), patterns=[isdec(a, o, x)]))
    return [(st, r)]
@builtin('strtol', 'strtoll')
def b_strtol(e, args, st, n):
    base = e.term(st, args[2])
    if not (z3.is_int_value(base) and base.as_long() == 10): raise Unsupported('strtol in another base')
    e.oblige(st, e.term(st, args[1]) == 0, 'no end pointer', n)
    return strtol_(e, args, st, n)
@builtin('atol', 'atoll')
def b_atol(e, args, st, n): return strtol_(e, args, st, n)
@builtin('atoi')
def b_atoi(e, args, st, n): return [(s, e.convert(s, v, 'long', 'int')) for s, v in strtol_(e, args, st, n)]

@builtin('snprintf')
def b_snprintf(e, args, st, n):
    """writes at most the given number of characters, always NUL-terminated; the text itself is left unspecified"""
    r = e.fresh('snprintf'); st.assume(r >= 0, r < 2**31)
    size = e.term(st, args[1])
    if z3.is_int_value(size) and size.as_long() == 0: return [(st, r)]
    dst = _where(e, st, args[0]); a, o, cap, b = dst
    if cap is not None: e.oblige(st, And(o >= 0, o + size <= cap), 'the formatted text fits the destination block', n)
    e.oblige(st, size > 0, 'room for the terminator', n)
    m = e.fresh('fmt', ARR); k = z3.Int('k!cp')
    st.assume(slen(m, o) < size, slen(m, o) >= 0, z3.Select(m, o + slen(m, o)) == 0, ForAll([k], Implies(Or(k < o, k >= o + size), z3.Select(m, k) == z3.Select(a, k)), patterns=[z3.Select(m, k)]))
    _put(e, st, dst, m)
    return [(st, r)]
