"""Logic layer: sorts, heap views, recursive specification functions unfolded by ground
instantiation, lemmas, and the Z3 back end."""
import z3, time, os

I = z3.IntSort()
B = z3.BoolSort()
_L = z3.Datatype('L')
_L.declare('nil')
_L.declare('cons', ('hd', I), ('tl', _L))
L = _L.create()
nil, cons, hd, tl = L.nil, L.cons, L.hd, L.tl
is_cons, is_nil = L.is_cons, L.is_nil
ARR = z3.ArraySort(I, I)
tag = z3.Function('tag', I, I)

TAGS = {n: i for i, n in enumerate(['SPECIAL', 'CHAR', 'FIXNUM', 'SYMBOL', 'STRING', 'PAIR', 'VECTOR', 'CLOSURE',
        'PORT', 'RECORD', 'BOX', 'HASHTABLE', 'SYNTAX', 'ENV', 'TOPENV', 'CONTINUATION', 'CODE'])}
TNAME = {v: k for k, v in TAGS.items()}

def IV(n): return z3.IntVal(n)
def lit(b): return z3.BoolVal(b)
def And(*a):
    a = [x for x in a if not (z3.is_expr(x) and z3.is_true(x))]
    return z3.And(*a) if len(a) > 1 else (a[0] if a else z3.BoolVal(True))
Or, Not, Implies, If, ForAll = z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll

def seq(*xs):
    r = nil
    for x in reversed(xs): r = cons(x, r)
    return r

# ---------------------------------------------------------------- heap views

class FV:
    """A version of one heap field: a root (uninterpreted function) or a store on a parent."""
    _n = 0
    def __init__(self, name, sort, parent=None, at=None, val=None):
        FV._n += 1
        self.name, self.sort, self.parent, self.at, self.val = name, sort, parent, at, val
        self.id = '%s#%d' % (name, FV._n) if parent is not None or FV._n else name
        if parent is None:
            self.fn = z3.Function('h_' + self.id, I, sort)
    def read(self, x):
        if self.parent is None: return self.fn(x)
        if z3.eq(self.at, x): return self.val
        # skip stores at a provably different constant
        p = self.parent.read(x)
        if z3.is_int_value(self.at) and z3.is_int_value(x) : return p
        return If(x == self.at, self.val, p)
    def store(self, at, val): return FV(self.name, self.sort, self, at, val)

def field_sort(name):
    return ARR if name.endswith('[]') else I

class View:
    """Immutable snapshot of the heap fields."""
    def __init__(self, d): self.d = d
    def f(self, name):
        if name not in self.d:
            self.d[name] = ROOTS(name)
        return self.d[name]
    def read(self, name, x): return self.f(name).read(x)
    def key(self, deps): return ','.join(self.f(n).id for n in deps)

_roots = {}
def ROOTS(name):
    if name not in _roots: _roots[name] = FV(name, field_sort(name))
    return _roots[name]

# ---------------------------------------------------------------- recursive definitions

ALLDEFS = []
_defs = {}      # z3 decl name -> (RecDef, view)
class RecDef:
    """name(view, args...) with an unfolding; heap fields it reads are listed in deps."""
    def __init__(self, name, sorts, res, deps=(), unfold=None):
        self.name, self.sorts, self.res, self.deps, self._unfold = name, sorts, res, tuple(deps), unfold
        self.cache = {}; self.laws = None; self.axioms = []
        ALLDEFS.append(self)
    def decl(self, view):
        k = view.key(self.deps) if self.deps else ''
        if k not in self.cache:
            d = z3.Function(self.name + ('@' + k if k else ''), *self.sorts, self.res)
            self.cache[k] = d
            _defs[d.name()] = (self, view)
        return self.cache[k]
    def __call__(self, view, *args):
        if not self.deps and not isinstance(view, View):
            args = (view,) + args; view = NOVIEW
        return self.decl(view)(*args)
    def unfold(self, fn):
        self._unfold = fn
        return fn
NOVIEW = View({})

def recdef(name, sorts, res, deps=()):
    def deco(fn):
        d = RecDef(name, sorts, res, deps, fn)
        return d
    return deco

# lists
@recdef('len', [L], I)
def length(v, s): return lambda t: [t >= 0, Implies(is_nil(s), t == 0), Implies(is_cons(s), t == 1 + length(tl(s))), Implies(is_cons(s), t > 0)]
@recdef('app', [L, L], L)
def app(v, a, b): return lambda t: [Implies(is_nil(a), t == b), Implies(is_cons(a), t == cons(hd(a), app(tl(a), b))), Implies(is_nil(b), t == a)]
@recdef('revapp', [L, L], L)
def revapp(v, a, b): return lambda t: [Implies(is_nil(a), t == b), Implies(is_cons(a), t == revapp(tl(a), cons(hd(a), b)))]
@recdef('rep', [I, I, L], L)
def rep(v, n, x, acc):   # n copies of x in front of acc
    return lambda t: [Implies(n <= 0, t == acc), Implies(n > 0, t == cons(x, rep(n - 1, x, acc)))]
@recdef('nth', [L, I], I)
def nth(v, s, i): return lambda t: [Implies(And(is_cons(s), i == 0), t == hd(s)), Implies(And(is_cons(s), i > 0), t == nth(tl(s), i - 1))]
@recdef('drop', [L, I], L)
def drop(v, s, i): return lambda t: [Implies(i <= 0, t == s), Implies(And(i > 0, is_cons(s)), t == drop(tl(s), i - 1)), Implies(And(i > 0, is_nil(s)), t == nil)]
@recdef('mem', [I, L], B)
def mem(v, x, s): return lambda t: [Implies(is_nil(s), Not(t)), Implies(is_cons(s), t == Or(x == hd(s), mem(x, tl(s))))]
@recdef('sl', [ARR, I, I], L)
def sl(v, a, i, j):     # a[i..j)
    return lambda t: [Implies(i >= j, t == nil), Implies(i < j, t == cons(z3.Select(a, i), sl(a, i + 1, j))),
                      Implies(i < j, t == app(sl(a, i, j - 1), cons(z3.Select(a, j - 1), nil)))]

# heap lists: elements of the cdr chain, and what terminates it
PAIR = TAGS['PAIR']
@recdef('lst', [I], L, ('PAIR.car', 'PAIR.cdr'))
def lst(v, x): return lambda t: [Implies(tag(x) == PAIR, t == cons(v.read('PAIR.car', x), lst(v, v.read('PAIR.cdr', x)))),
                                 Implies(tag(x) != PAIR, t == nil)]
@recdef('tail', [I], I, ('PAIR.car', 'PAIR.cdr'))
def tail(v, x): return lambda t: [Implies(tag(x) == PAIR, t == tail(v, v.read('PAIR.cdr', x))),
                                  Implies(tag(x) != PAIR, t == x), tag(t) != PAIR]

# ---------------------------------------------------------------- laws
class Law:
    """A lemma: forall vars. body, proved by induction on the list variable ind (see prove_laws)."""
    def __init__(self, name, vars, ind, body, pats, kids=None):
        """kids: for an induction over the (acyclic) structure of heap object ind, the components the hypothesis is used for"""
        self.name, self.vars, self.ind, self.body, self.pats, self.kids = name, vars, ind, body, pats, kids
    def formula(self): return ForAll(self.vars, self.body, patterns=[p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in self.pats])

_vars = {}
def V(n, sort):
    k = (n, str(sort))
    if k not in _vars: _vars[k] = z3.Const(n + '?', sort)
    return _vars[k]
def LV(n): return V(n, L)
def XV(n): return V(n, I)

def defrules(d, view):
    """the definition of d at the constructors of its first list argument, as rewrite rules"""
    if L not in d.sorts: return []
    k = d.sorts.index(L)
    decl = d.decl(view)
    out = []
    for con in ('nil', 'cons'):
        vs = []; args = []
        for i, so in enumerate(d.sorts):
            if i == k:
                if con == 'nil': args.append(nil)
                else: x, a = XV('hd'), LV('tl'); vs += [x, a]; args.append(cons(x, a))
            else: v = V('p%d' % i, so); vs.append(v); args.append(v)
        t = decl(*args)
        mk = d._unfold(view, *args); fs = mk(t) if callable(mk) else mk
        b = z3.simplify(And(*fs))
        if not vs: out.append(b)
        else: out.append(ForAll(vs, b, patterns=[t]))
    return out

def laws_of(d, view):
    return list(d.laws(view)) if d.laws else []

def law(d):
    def deco(fn): d.laws = fn; return fn
    return deco
a_, b_, c_ = LV('a'), LV('b'), LV('c')
@law(drop)
def _(v):
    i, j = XV('i'), XV('j'); n = length(a_); d = drop(a_, i)
    return [Law('drop-len', [a_, i], a_, Implies(And(0 <= i, i <= n), length(d) == n - i), [d]),
            Law('drop-nth', [a_, i], a_, Implies(And(0 <= i, i < n), And(is_cons(d), hd(d) == nth(a_, i))), [d]),
            Law('drop-next', [a_, i, j], a_, Implies(And(0 <= i, i < n, j == i + 1), drop(a_, j) == tl(d)), [(d, drop(a_, j))])]
@law(app)
def _(v): return [Law('app-assoc', [a_, b_, c_], a_, app(app(a_, b_), c_) == app(a_, app(b_, c_)), [app(app(a_, b_), c_)]),
                  Law('app-nil', [a_], a_, app(a_, nil) == a_, [app(a_, nil)])]
@law(length)
def _(v): return [Law('app-len', [a_, b_], a_, length(app(a_, b_)) == length(a_) + length(b_), [length(app(a_, b_))]),
                  Law('len-pos', [a_], a_, length(a_) >= 0, [length(a_)]),
                  Law('revapp-len', [a_, b_], a_, length(revapp(a_, b_)) == length(a_) + length(b_), [length(revapp(a_, b_))])]
@law(mem)
def _(v):
    x = XV('x')
    return [Law('mem-app', [x, a_, b_], a_, mem(x, app(a_, b_)) == Or(mem(x, a_), mem(x, b_)), [mem(x, app(a_, b_))]),
            Law('mem-revapp', [x, a_, b_], a_, mem(x, revapp(a_, b_)) == Or(mem(x, a_), mem(x, b_)), [mem(x, revapp(a_, b_))])]
@law(revapp)
def _(v): return [Law('revapp-app', [a_, b_, c_], a_, app(revapp(a_, b_), c_) == revapp(a_, app(b_, c_)), [app(revapp(a_, b_), c_)])]
def hom(d, extra=lambda vs: []):
    """d distributes over append: L-valued (map) or B-valued (conjunction)"""
    @law(d)
    def _(v):
        ps = [V('q%d' % i, so) for i, so in enumerate(d.sorts[1:])]
        f = lambda s: d.decl(v)(s, *ps)
        if d.res == L: body = f(app(a_, b_)) == app(f(a_), f(b_))
        else: body = f(app(a_, b_)) == And(f(a_), f(b_))
        return [Law('%s-app' % d.name, [a_, b_] + ps, a_, body, [f(app(a_, b_))])]

def prove_law(l, P):
    """induction on l.ind; -> True when both cases are discharged"""
    if l.kids is not None:
        o = z3.Int('io'); others = [v for v in l.vars if not z3.eq(v, l.ind)]
        sk = [z3.Const('sk_%d' % i, v.sort()) for i, v in enumerate(others)]
        ihs = []
        for kid in l.kids:
            kt = z3.substitute(kid, (l.ind, o))
            b = z3.substitute(l.body, (l.ind, kt))
            ps = [z3.substitute(p, (l.ind, kt)) if not isinstance(p, (list, tuple)) else z3.MultiPattern(*[z3.substitute(q, (l.ind, kt)) for q in p]) for p in l.pats]
            ihs.append(ForAll(others, b, patterns=ps) if others else b)
        goal = z3.substitute(l.body, (l.ind, o), *zip(others, sk))
        return P.check(ihs + [Not(goal)], 4, 8000, skip=l.name) == z3.unsat
    x, a = z3.Int('ix'), z3.Const('ia', L)
    others = [v for v in l.vars if not z3.eq(v, l.ind)]
    sk = [z3.Const('sk_%d' % i, v.sort()) for i, v in enumerate(others)]
    sub = lambda e, av, os: z3.substitute(e, (l.ind, av), *[(v, o) for v, o in zip(others, os)])
    base = sub(l.body, nil, sk)
    ih = sub(l.body, a, others)
    ihs = [sub(l.body, a, sk)]
    if others:
        sb = lambda p: z3.substitute(p, (l.ind, a))
        pats = [z3.MultiPattern(*[sb(q) for q in p]) if isinstance(p, (list, tuple)) else sb(p) for p in l.pats]
        ihs.append(ForAll(others, ih, patterns=pats) if pats else ForAll(others, ih))
    step = sub(l.body, cons(x, a), sk)
    return P.check([Not(base)], 4, 8000, skip=l.name) == z3.unsat and P.check(ihs + [Not(step)], 4, 8000, skip=l.name) == z3.unsat
