from .common import *
from ..cstr import *
from . import spec, plain
from .lists import C03
from .numbers import FV_
from .vectors import k_, pats, Sel
S_ = T['STRING']
isstr = lambda x: [('string', tag(x.a(0)) == S_), ('terminated', strok(x.pre, x.a(0)))]
def clen(v, s): return slen(chars(v, s), 0)
def freshs(x): return ('fresh terminated string', And(tag(x.res) == S_, fresh_ref(x, x.res), fresh_ref(x, bufof(x.post, x.res)), strok(x.post, x.res)))
CR = lambda c: And(-128 <= c, c <= 127)
CN = lambda c: And(CR(c), c != 0)
def chr_(v, o): return v.read('CHAR.c', o)
def list_is_chars(v, s, arr, off, n):
    """s[k] is the character arr[off+k]"""
    return And(length(s) == n, ForAll([k_], Implies(And(0 <= k_, k_ < n), And(tag(nth(s, k_)) == T['CHAR'], chr_(v, nth(s, k_)) == Sel(arr, off + k_))), patterns=[nth(s, k_)]))
def strings(info):
    out = [(info.name(k), lambda sv, k=k: sv.term(k)) for k in info.h.vars if info.eng.is_ptr(info.eng.vtypes.get(k, ''))]
    return out
def localbuf(sv, k):
    """contents and capacity of the character block of a local string object, or of a shared one"""
    e, st = sv.eng, sv.st
    x = e.resolve(st, st.vars.get(k))
    if isinstance(x, LRef) and x.id not in st.ghost.get('pub', {}):
        o = st.locals[x.id]
        if o.elembase == 'buf': return o.elems, o.size
        b = o.fields.get((8, 8))
        if isinstance(b, PV): b = b.base
        if isinstance(b, LRef) and b.id not in st.ghost.get('pub', {}):
            o = st.locals[b.id]
            if o.elembase is None and o.tag() is None and not o.fields:
                o = st.lobj(b.id); o.elembase = 'buf'; o.elems = z3.K(I, IV(0)) if o.zero else e.fresh('buf', ARR)
            return (o.elems, o.size) if o.elembase == 'buf' else (None, None)
        if b is None: return None, None
        b = e.term(st, b)
        return sv.v.read('BUF[]', b), bufsize(b)
    if isinstance(x, PV): x = x.base
    if isinstance(x, LRef): x = e.term(st, x)
    if not isinstance(x, z3.ExprRef): return None, None
    return sv.v.read('BUF[]', sv.v.read('STRING.str', x)), bufsize(sv.v.read('STRING.str', x))
def t_strfill(info):
    """characters below the counter are what the arguments say"""
    out = []
    ks = [k for k in info.h.vars if info.eng.is_ptr(info.eng.vtypes.get(k, ''))]
    for i in info.mi:
        for k in ks:
            nm = info.name(k)
            for q, a in enumerate(info.args):
                def g(sv, i=i, k=k, a=a):
                    b, _ = localbuf(sv, k)
                    return None if b is None else ForAll([k_], Implies(And(0 <= k_, k_ < sv.term(i)), Sel(b, k_) == (a)), patterns=pats(b))
                out.append(('%s[0..%s) = argument %d' % (nm, info.name(i), q), g))
            for q, a in enumerate(info.args):
                s = lst(info.pre, a)
                def g(sv, i=i, k=k, s=s):
                    b, _ = localbuf(sv, k)
                    return None if b is None else ForAll([k_], Implies(And(0 <= k_, k_ < sv.term(i)), Sel(b, k_) == (chr_(info.pre, nth(s, k_)))), patterns=pats(b))
                out.append(('%s[0..%s) = the characters so far' % (nm, info.name(i)), g))
    for k in ks:
        def g(sv, k=k):
            if isinstance(sv.eng.resolve(sv.st, sv.st.vars.get(k)), LRef): return None
            x = sv.term(k)
            return None if x is None else tag(x) == S_
        out.append(('%s is a string' % info.name(k), g))
        for a in info.args:
            def g(sv, k=k, a=a):
                b, n = localbuf(sv, k)
                return None if n is None else sv.eng.zint(n) == length(lst(info.pre, a)) + 1
            out.append(('capacity of %s' % info.name(k), g))
    return out
def t_s2l(info):
    out = []
    for i in info.mi:
        for p in info.mp:
            for a in info.args:
                for d in (1, 0):
                    def g(sv, i=i, p=p, a=a, d=d):
                        t = sv.term(p)
                        if t is None: return None
                        arr = chars(info.pre, a); j = sv.term(i) + d
                        return And(0 <= j, list_is_chars(sv.v, lst(sv.v, t), arr, j, slen(arr, 0) - j))
                    out.append(('%s = characters from %s+%d' % (info.name(p), info.name(i), d), g))
    return out
from .vectors import t_l2v, t_v2l
def t_rest(info):
    out = []
    for i in info.mi:
        for a in info.args:
            s = lst(info.pre, a)
            for p in info.mp:
                def g(sv, i=i, p=p, s=s):
                    t = sv.term(p)
                    return None if t is None else lst(sv.v, t) == drop(s, sv.term(i))
                out.append(('%s = rest at %s' % (info.name(p), info.name(i)), g))
    return out
def allchars(v, s): return ForAll([k_], Implies(And(0 <= k_, k_ < length(s)), And(tag(nth(s, k_)) == T['CHAR'], CN(chr_(v, nth(s, k_))))), patterns=[nth(s, k_)])
def cterm(x, i):
    """argument i is a C string"""
    a = x.pre.read('BUF[]', x.a(i)); return And(x.a(i) > 0, terminated(a, 0, bufsize(x.a(i))))

def intern_contract():
    return Contract('intern_symbol', lambda x: [('C string', cterm(x, 1))],
                    lambda x: [('the symbol of that name', And(tag(x.res) == T['SYMBOL'], streq(x.post.read('BUF[]', x.post.read('SYMBOL.str', x.res)), x.pre.read('BUF[]', x.a(1)))))], trusted=True)
def C05():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    c('Mstring', lambda x: [('C string', cterm(x, 0))],
      lambda x: [freshs(x), ('same characters', streq(chars(x.post, x.res), x.pre.read('BUF[]', x.a(0))))])
    c('Mstring2', lambda x: [('length', And(0 <= x.a(0), x.a(0) < 2**59)), ('character', CR(x.a(1)))],
      lambda x: [('fresh string', And(tag(x.res) == S_, fresh_ref(x, x.res), fresh_ref(x, bufof(x.post, x.res)))), ('room', bufsize(bufof(x.post, x.res)) == x.a(0) + 1),
                 ('terminator', Sel(chars(x.post, x.res), x.a(0)) == 0),
                 ('every character', Implies(x.a(1) != 0, And(clen(x.post, x.res) == x.a(0), ForAll([k_], Implies(And(0 <= k_, k_ < x.a(0)), Sel(chars(x.post, x.res), k_) == (x.a(1))), patterns=pats(chars(x.post, x.res))))))],
      inv=[t_strfill])
    c('make_string', lambda x: [('length', And(tag(x.a(0)) == T['FIXNUM'], 0 <= FV_(x.pre, x.a(0)), FV_(x.pre, x.a(0)) < 2**59)), ('character', And(tag(x.a(1)) == T['CHAR'], CN(chr_(x.pre, x.a(1)))))],
      lambda x: [freshs(x), ('length', clen(x.post, x.res) == FV_(x.pre, x.a(0))),
                 ('every character', ForAll([k_], Implies(And(0 <= k_, k_ < FV_(x.pre, x.a(0))), Sel(chars(x.post, x.res), k_) == (chr_(x.pre, x.a(1)))), patterns=pats(chars(x.post, x.res))))])
    c('string_length', isstr, lambda x: [('number of characters', And(tag(x.res) == T['FIXNUM'], FV_(x.post, x.res) == clen(x.pre, x.a(0))))])
    inb = lambda x: isstr(x) + [('index', And(tag(x.a(1)) == T['FIXNUM'], 0 <= FV_(x.pre, x.a(1)), FV_(x.pre, x.a(1)) < clen(x.pre, x.a(0))))]
    c('string_ref', inb, lambda x: [('the character there', And(tag(x.res) == T['CHAR'], chr_(x.post, x.res) == Sel(chars(x.pre, x.a(0)), FV_(x.pre, x.a(1)))))])
    c('string_set', lambda x: inb(x) + [('character', And(tag(x.a(2)) == T['CHAR'], CN(chr_(x.pre, x.a(2)))))],
      lambda x: [('void', x.res == VOIDC), ('exactly this character', chars(x.post, x.a(0)) == z3.Store(chars(x.pre, x.a(0)), FV_(x.pre, x.a(1)), (chr_(x.pre, x.a(2))))),
                 ('same length', clen(x.post, x.a(0)) == clen(x.pre, x.a(0)))],
      modifies=lambda x: [('BUF[]', bufof(x.pre, x.a(0)))])
    c('number_to_string', lambda x: [('number', tag(x.a(0)) == T['FIXNUM'])],
      lambda x: [('fresh string', And(tag(x.res) == S_, fresh_ref(x, x.res))), ('terminated', strok(x.post, x.res)), ('the decimal numeral', isdec(chars(x.post, x.res), 0, FV_(x.pre, x.a(0))))])
    n_ = z3.Int('n?d')
    c('string_to_number', isstr, lambda x: [('inverts the decimal numeral', And(tag(x.res) == T['FIXNUM'], ForAll([n_], Implies(And(isdec(chars(x.pre, x.a(0)), 0, n_), -2**63 <= n_, n_ < 2**63), FV_(x.post, x.res) == n_))))])
    c('symbol_to_string', lambda x: [('symbol', tag(x.a(0)) == T['SYMBOL']), ('name is a C string', And(x.pre.read('SYMBOL.str', x.a(0)) > 0, terminated(x.pre.read('BUF[]', x.pre.read('SYMBOL.str', x.a(0))), 0, bufsize(x.pre.read('SYMBOL.str', x.a(0))))))],
      lambda x: [freshs(x), ('the name', streq(chars(x.post, x.res), x.pre.read('BUF[]', x.pre.read('SYMBOL.str', x.a(0)))))])
    C['intern_symbol'] = intern_contract()
    c('string_to_symbol', isstr, lambda x: [('the symbol of that name', And(tag(x.res) == T['SYMBOL'], streq(x.post.read('BUF[]', x.post.read('SYMBOL.str', x.res)), chars(x.pre, x.a(0)))))])
    c('list_to_string', lambda x: [('list', proper(x.pre, x.a(0))), ('length', length(lst(x.pre, x.a(0))) < 2**59), ('of characters', allchars(x.pre, lst(x.pre, x.a(0))))],
      lambda x: [freshs(x), ('length', clen(x.post, x.res) == length(lst(x.pre, x.a(0)))),
                 ('characters in order', ForAll([k_], Implies(And(0 <= k_, k_ < length(lst(x.pre, x.a(0)))), Sel(chars(x.post, x.res), k_) == (chr_(x.pre, nth(lst(x.pre, x.a(0)), k_)))), patterns=pats(chars(x.post, x.res))))],
      inv=[t_strfill, t_rest])
    c('string_to_list', isstr, lambda x: [('characters in order', list_is_chars(x.post, lst(x.post, x.res), chars(x.pre, x.a(0)), 0, clen(x.pre, x.a(0)))), ('list', proper(x.post, x.res))],
      inv=[t_s2l, t_inv('list', lambda v, p, a: proper(v, p))])
    c('char_to_integer', lambda x: [('character', tag(x.a(0)) == T['CHAR'])], lambda x: [('the code', And(tag(x.res) == T['FIXNUM'], FV_(x.post, x.res) == chr_(x.pre, x.a(0))))])
    c('integer_to_char', lambda x: [('code', And(tag(x.a(0)) == T['FIXNUM'], 0 <= FV_(x.pre, x.a(0)), FV_(x.pre, x.a(0)) < 128))], lambda x: [('the character', And(tag(x.res) == T['CHAR'], chr_(x.post, x.res) == FV_(x.pre, x.a(0))))])
    return C
@spec('C05')
def _(): return plain('C05', C05(), [C03()], trusted=['libc strlen, strncpy, strcmp, sprintf("%ld") and strtol behave as ISO C says (modelled in vc/cstr.py); strtol inverts sprintf("%ld")', 'contract of intern_symbol (proved under C09)'],
    assume=['characters are single bytes other than NUL (the char objects of this code base hold one byte); NUL cannot be stored in a string'])
