"""Verification-condition generator: symbolic execution of the real C functions against contracts."""
import z3, time, re, sys, os, itertools
from . import cast
from .logic import *
from .logic import _defs
from . import logic

U64 = 2 ** 64
OBJMAX = 2 ** 58

# ------------------------------------------------------------------ symbolic values
class LRef:
    """Pointer to an object allocated on this path and not yet published."""
    __slots__ = ('id',)
    def __init__(self, id): self.id = id
    def __repr__(self): return 'L%d' % self.id
class PV:
    """Interior pointer base+off; kind 'obj' (into an object) or 'buf' (char data)."""
    __slots__ = ('base', 'off', 'kind')
    def __init__(self, base, off, kind='obj'): self.base, self.off, self.kind = base, off, kind
    def __repr__(self): return 'PV(%s,%s,%s)' % (self.base, self.off, self.kind)
class VarAddr:
    __slots__ = ('key',)
    def __init__(self, key): self.key = key
class FuncVal:
    def __init__(self, name): self.name = name
class StrLit:
    def __init__(self, s): self.s = s
class Raw:
    """address inside a typed global array / struct: base name + byte offset"""
    def __init__(self, name, off): self.name, self.off = name, off

class Unsupported(Exception): pass

class LObj:
    """A local (unpublished) heap object."""
    def __init__(self, size=None, zero=False, atomic=False):
        self.size, self.zero, self.atomic = size, zero, atomic
        self.fields = {}          # (offset,size) or struct member -> SVal
        self.elems = None         # z3 array for the variable part (8-byte words) or bytes
        self.elembase = None      # byte offset at which the elements start
        self.struct = None
        self.seg = None           # (S term, end id): list segment ending at local object end
    def clone(self):
        o = LObj(self.size, self.zero, self.atomic)
        o.fields = dict(self.fields); o.elems = self.elems; o.elembase = self.elembase
        o.struct = self.struct; o.seg = self.seg
        return o
    def tag(self): return self.fields.get((0, 1))

# layout documented in minim.h: tag -> {(off,size): field}, element base
LAYOUT = {
 'CHAR': ({(4, 1): 'c'}, None), 'FIXNUM': ({(8, 8): 'v'}, None), 'SYMBOL': ({(8, 8): 'str'}, None),
 'STRING': ({(8, 8): 'str'}, None), 'PAIR': ({(8, 8): 'car', (16, 8): 'cdr'}, None),
 'VECTOR': ({(8, 8): 'len'}, 16), 'BOX': ({(8, 8): 'ref'}, None),
 'CLOSURE': ({(8, 8): 'env', (16, 8): 'code', (24, 8): 'name', (32, 8): 'count'}, 40),
 'PORT': ({(1, 1): 'flags', (8, 8): 'fp'}, None), 'SYNTAX': ({(8, 8): 'e', (16, 8): 'loc'}, None),
 'RECORD': ({(4, 4): 'count', (8, 8): 'rtd'}, 16),
 'HASHTABLE': ({(8, 8): 'buckets', (16, 8): 'ap', (24, 8): 'count'}, None),
 'TOPENV': ({(8, 8): 'buckets', (16, 8): 'ap', (24, 8): 'count'}, None),
 'ENV': ({}, 8),
 'CONTINUATION': ({(8, 8): 'prev', (16, 8): 'pc', (24, 8): 'env', (32, 8): 'sfp', (40, 8): 'cp', (48, 8): 'ac'}, None),
 'CODE': ({(8, 8): 'len', (16, 8): 'arity', (24, 8): 'reloc'}, 32),
}
OBJSIZE = {'CHAR': 8, 'FIXNUM': 16, 'SYMBOL': 16, 'STRING': 16, 'PAIR': 24, 'BOX': 16, 'PORT': 16, 'SYNTAX': 24,
           'HASHTABLE': 32, 'TOPENV': 32, 'CONTINUATION': 56}
LENFIELD = {'VECTOR': 'VECTOR.len', 'RECORD': 'RECORD.count', 'CLOSURE': 'CLOSURE.count', 'CODE': 'CODE.len'}
ELEM = {t: b for t, (f, b) in LAYOUT.items() if b is not None}

SINGLETONS = ['minim_null', 'minim_true', 'minim_false', 'minim_eof', 'minim_void', 'minim_values', 'minim_unbound',
              'minim_empty_vec', 'minim_base_rtd']
GCONST = {}
def gconst(n):
    if n not in GCONST: GCONST[n] = z3.Int('g_' + n)
    return GCONST[n]
def base_facts():
    cs = [gconst(n) for n in SINGLETONS]
    fs = []
    for i, c in enumerate(cs): fs.append(c == 8 * (i + 1))
    for n in SINGLETONS[:7]: fs.append(tag(gconst(n)) == TAGS['SPECIAL'])
    fs += [tag(gconst('minim_empty_vec')) == TAGS['VECTOR'], tag(gconst('minim_base_rtd')) == TAGS['RECORD']]
    return fs
NULLC = gconst('minim_null'); TRUEC = gconst('minim_true'); FALSEC = gconst('minim_false'); VOIDC = gconst('minim_void')

INT_RANGES = {'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1), 'int': (-2**31, 2**31 - 1),
              'unsigned int': (0, 2**32 - 1), 'char': (-128, 127), 'unsigned char': (0, 255), 'signed char': (-128, 127),
              'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 65535), 'long long': (-2**63, 2**63 - 1),
              'unsigned long long': (0, 2**64 - 1), '_Bool': (0, 1)}
SIZES = {'long': 8, 'unsigned long': 8, 'int': 4, 'unsigned int': 4, 'char': 1, 'unsigned char': 1, 'signed char': 1,
         'short': 2, 'unsigned short': 2, 'long long': 8, 'unsigned long long': 8, '_Bool': 1, 'double': 8, 'float': 4}

class State:
    __slots__ = ('vars', 'path', 'heap', 'locals', 'ghost', 'na', 'known', 'hist')
    def __init__(self):
        self.vars = {}; self.path = []; self.heap = {}; self.locals = {}; self.ghost = {}; self.na = None
        self.known = {}; self.hist = []
    def clone(self):
        s = State()
        s.vars = dict(self.vars); s.path = list(self.path); s.heap = dict(self.heap)
        s.locals = dict(self.locals); s.ghost = dict(self.ghost); s.na = self.na; s.known = dict(self.known)
        s.hist = list(self.hist)
        return s
    def view(self): return View(dict(self.heap))
    def f(self, name):
        if name not in self.heap: self.heap[name] = ROOTS(name)
        return self.heap[name]
    def lobj(self, id):      # for writing
        o = self.locals[id].clone(); self.locals[id] = o; return o
    def assume(self, *fs):
        for f in fs:
            if isinstance(f, bool): f = z3.BoolVal(f)
            if z3.is_true(f): continue
            self.path.append(f)
            if z3.is_and(f):
                for g in f.children(): self._learn(g)
            else: self._learn(f)
    def _learn(self, f):
        if z3.is_eq(f):
            a, b = f.children()
            if z3.is_int_value(a): a, b = b, a
            if z3.is_int_value(b) and z3.is_app(a) and a.decl().name() == 'tag':
                self.known[a.arg(0).get_id()] = (a.arg(0), b.as_long())

# ------------------------------------------------------------------ solver
_sk = itertools.count()
def skolem(g):
    """replace universally quantified variables of a goal by fresh constants (so that ground unfolding sees them)"""
    if z3.is_and(g): return And(*[skolem(c) for c in g.children()])
    if z3.is_or(g) and not any(z3.is_quantifier(c) and c.is_exists() for c in g.children()): return Or(*[skolem(c) for c in g.children()])
    if z3.is_implies(g): return Implies(g.arg(0), skolem(g.arg(1)))
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.Const('sk!%d' % next(_sk), g.var_sort(i)) for i in range(g.num_vars())]
        return skolem(z3.substitute_vars(g.body(), *reversed(vs)))
    return g
class Prover:
    def __init__(self, depth=3, timeout=6000, lemma_names=None, scale=1):
        self.scale = scale; self.only_laws = None
        self.depth, self.timeout = depth, timeout
        self.laws = {}; self.used_laws = {}
        self.time = 0.0; self.queries = 0
        self._dn = {}; self._apps = {}; self._facts = {}; self.keep = []
        self.extra_lemmas = []; self.opaque = set()
    def apps(self, e):
        k = e.get_id()
        if k in self._apps: return self._apps[k]
        out = {}; seen = set(); stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_quantifier(x): continue
            if z3.is_app(x):
                if x.decl().name() in _defs and x.decl().arity() > 0 : out[i] = x
                stack.extend(x.children())
        self._apps[k] = list(out.values()); self.keep.append(e)
        return self._apps[k]
    def decls_in(self, f):
        k = f.get_id()
        if k in self._dn: return self._dn[k]
        out = set(); stack = [f]; seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): stack.append(x.body())
            elif z3.is_app(x):
                if x.decl().name() in _defs: out.add(x.decl().name())
                stack += x.children()
        self._dn[k] = out; self.keep.append(f)
        return out
    def facts(self, a):
        k = a.get_id()
        if k not in self._facts:
            d, view = _defs[a.decl().name()]
            mk = d._unfold(view, *a.children())
            self._facts[k] = mk(a) if callable(mk) else list(mk)
            self.keep.append(a)
        return self._facts[k]
    def decl_laws(self, name):
        if name not in self.laws:
            self.laws[name] = []
            d, view = _defs[name]
            ls = logic.laws_of(d, view)
            for l in ls: self.used_laws.setdefault(l.name, (d, l))
            self.laws[name] = (logic.defrules(d, view), ls)
        return self.laws[name]
    def closure(self, fs, depth):
        done = set(); out = []; self.seen = seen = set()
        frontier = []
        for f in fs: frontier.extend(self.apps(f))
        for d in range(depth):
            new = []
            for a in frontier:
                if a.get_id() in done: continue
                done.add(a.get_id()); seen.add(a.decl().name())
                if self.opaque and a.decl().name().split('#')[0] in self.opaque: continue
                for g in self.facts(a):
                    out.append(g); new.extend(self.apps(g))
            frontier = new
            if not frontier: break
        for a in frontier: seen.add(a.decl().name())
        return out
    def check(self, fs, depth=None, timeout=None, want_model=False, skip=None, light=False):
        t = time.time()
        depth = self.depth if depth is None else depth
        s = z3.SimpleSolver()
        s.set('timeout', (timeout or self.timeout) * self.scale); s.set('mbqi', False); s.set('auto_config', False)
        s.add(*fs); s.add(*BASE)
        s.add(*self.closure(fs, depth))
        done = set(); todo = [] if light else list(self.seen)
        while todo:
            nm = todo.pop()
            if nm in done: continue
            done.add(nm)
            rules, laws = self.decl_laws(nm)
            for f in _defs[nm][0].axioms:
                s.add(f); todo += [n for n in self.decls_in(f) if n not in done]
            for f in rules + [l.formula() for l in laws if l.name != skip and (self.only_laws is None or l.name in self.only_laws)]:
                s.add(f)
                todo += [n for n in self.decls_in(f) if n not in done]
        if not light: s.add(*self.extra_lemmas)
        if os.environ.get('VC_DUMP'): open('/tmp/q%d.smt2' % self.queries, 'w').write(s.to_smt2())
        r = s.check()
        dt = time.time() - t
        if os.environ.get('VC_DUMP'): os.remove('/tmp/q%d.smt2' % self.queries) if r == z3.unsat else print('q', self.queries, r, '%.1f' % dt)
        self.time += dt; self.queries += 1
        if want_model:
            m = None
            try:
                if r != z3.unsat: m = s.model()
            except z3.Z3Exception: pass
            return r, m
        return r
    def entails(self, path, goal, depth=None, timeout=None):
        if z3.is_true(goal): return True
        return self.check(path + [z3.Not(skolem(goal))], depth, timeout) == z3.unsat
    def feasible(self, path):
        return self.check(path, 1, 1000, light=True) != z3.unsat
BASE = base_facts()

# ------------------------------------------------------------------ contracts
class Contract:
    """requires/ensures are functions of a context (see Ctx); kinds of parameters are inferred."""
    def __init__(self, name, requires=None, ensures=None, errs=None, inv=(), file=None, modifies=None, result='ref',
                 depth=3, timeout=6000, effects=None, wrap=False, inline=(), ghost_loops=None, local_result=None, unit=None,
                 noreturn=False, trusted=False, maxpaths=4000, params=None, use=None, optional=False, opaque=(), bufargs=()):
        self.bufargs = set(bufargs)
        self.optional = optional; self.opaque = set(opaque)
        self.name, self.requires, self.ensures, self.errs = name, requires, ensures, errs
        self.inv, self.file, self.modifies, self.result = list(inv), file, modifies, result
        self.depth, self.timeout, self.effects, self.wrap, self.inline = depth, timeout, effects, wrap, set(inline)
        self.local_result = local_result; self.noreturn = noreturn; self.trusted = trusted
        self.maxpaths = maxpaths; self.params = params; self.use = use

class Ctx:
    """What a contract sees: entry arguments, entry view, current view, result."""
    def __init__(self, eng, args, pre, post, res, st, na0):
        self.eng, self.args, self.pre, self.post, self.res, self.st, self.na0 = eng, args, pre, post, res, st, na0
    def a(self, i): return self.args[i]
    @property
    def ghost(self): return self.st.ghost

class Obl:
    def __init__(self, func, name, loc, ok, t, detail=''):
        self.func, self.name, self.loc, self.ok, self.t, self.detail = func, name, loc, ok, t, detail
    def as_dict(self): return dict(function=self.func, obligation=self.name, location=self.loc, discharged=self.ok,
                                   seconds=round(self.t, 3), detail=self.detail)

class SV:
    """State view given to invariant templates."""
    def __init__(self, eng, st, entry, chains):
        self.eng, self.st, self.entry, self.chains = eng, st, entry, chains
        self.v = st.view(); self.ghost = st.ghost
    def get(self, key):
        x = self.st.vars.get(key)
        return x
    def term(self, key):
        x = self.eng.resolve(self.st, self.st.vars.get(key))
        if isinstance(x, z3.ExprRef): return x
        if isinstance(x, LRef) and not any(key in hk for hk in self.chains): return self.eng.publish(self.st, x.id)
        return None

class VC:
    def __init__(self, prog, contracts, prover=None, verbose=False):
        self.prog, self.contracts = prog, contracts
        self.P = prover or Prover()
        self.verbose = verbose
        self.obls = []; self.quiet = 0; self.cnt = itertools.count()
        self.models = dict(BUILTINS)
        self.paths = 0
        self.called = set(); self.inlined = set()
        self.deadline = None
    # -------------------------------------------------- utilities
    def fresh(self, name='k', sort=I): return z3.Const('%s!%d' % (name, next(self.cnt)), sort)
    def log(self, *a):
        if self.verbose: print(*a, file=sys.stderr)
    def loc(self, n):
        def line(l):
            if 'line' in l: return l['line']
            for k in ('expansionLoc', 'spellingLoc'):
                if k in l and 'line' in l[k]: return l[k]['line']
            return None
        l = line(n.get('loc', {})) or line(n.get('range', {}).get('begin', {}))
        if l: self.curline = l
        return getattr(self, 'curline', 0)
    def oblige(self, st, goal, name, node=None):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if self.quiet:
            st.assume(goal); return True
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
        t = time.time()
        ok = self.P.entails(st.path, goal)
        dt = time.time() - t
        detail = ''
        if not ok:
            detail = 'path: ' + '; '.join(str(p).replace('\n', ' ')[:200] for p in st.path[-30:])[-1500:] + ' |- ' + str(goal).replace('\n', ' ')[:800]
            self.log('FAIL', self.cur, name, self.loc(node or {}), detail)
        self.obls.append(Obl(self.cur, name, self.loc(node or {}), ok, dt, detail))
        st.assume(goal)
        return ok
    def ctype(self, n):
        t = n.get('type', {})
        return self.resolve_type(t.get('desugaredQualType') or t.get('qualType', ''))
    def resolve_type(self, t):
        t = re.sub(r'\b(const|volatile|restrict|extern|static|register)\b', '', t).strip()
        t = re.sub(r'\s+', ' ', t)
        td = self.curtu.typedefs
        for _ in range(10):
            m = re.match(r'^([A-Za-z_]\w*)\b(.*)$', t)
            if m and m.group(1) in td and m.group(1) not in ('struct', 'enum', 'union'):
                base = re.sub(r'\b(const|volatile|restrict)\b', '', td[m.group(1)]).strip()
                t = (base + m.group(2)).strip()
            else: break
        return re.sub(r'\s+', ' ', t).replace(' *', '*').replace('* ', '*')
    def is_ptr(self, t): return t.endswith('*') or t.endswith(']')
    def sizeof(self, t):
        t = self.resolve_type(t)
        if t.endswith('*'): return 8
        if t in SIZES: return SIZES[t]
        if t.startswith('enum') : return 4
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m: return int(m.group(2)) * self.sizeof(m.group(1).strip())
        if t.startswith('struct '):
            r = self.curtu.records.get(t[7:])
            if r:
                off = 0; al = 1
                for c in r['inner']:
                    if c['kind'] == 'FieldDecl':
                        s = self.sizeof(c['type'].get('desugaredQualType') or c['type']['qualType']); a = min(s, 8)
                        off = (off + a - 1) // a * a + s; al = max(al, a)
                return (off + al - 1) // al * al
        if t == 'void': return 1
        if t in ('mobj_type', 'fasl_type'): return 4
        raise Unsupported('sizeof ' + t)
    def range_facts(self, v, t):
        if t in INT_RANGES:
            lo, hi = INT_RANGES[t]; return [v >= lo, v <= hi]
        if t.startswith('enum') : return [v >= 0, v <= 2**32 - 1]
        return []
    # -------------------------------------------------- terms of values
    def term(self, st, v):
        """z3 term of a value; publishes local objects."""
        if isinstance(v, z3.ExprRef): return v
        if isinstance(v, int): return IV(v)
        if isinstance(v, LRef): return self.publish(st, v.id)
        if isinstance(v, PV):
            if self.is_zero(v.off): return self.term(st, v.base)
            b = self.term(st, v.base)
            return b + v.off
        if isinstance(v, StrLit): return self.strlit(st, v)
        if isinstance(v, Raw): return gconst(v.name) + v.off
        if isinstance(v, FuncVal): return gconst('fn_' + v.name)
        if v is None: return self.fresh('uninit')
        raise Unsupported('term of %r' % (v,))
    def is_zero(self, o): return (isinstance(o, int) and o == 0) or (isinstance(o, z3.ExprRef) and z3.is_int_value(o) and o.as_long() == 0)
    def strlit(self, st, v):
        r = gconst('lit_' + v.s)
        a = st.f('BUF[]').read(r)
        if ('lit', v.s) not in st.ghost:
            st.ghost[('lit', v.s)] = True
            bs = v.s.encode() + b'\0'
            st.assume(*[z3.Select(a, i) == b for i, b in enumerate(bs)])
            st.assume(r > 0, r <= st.ghost['na0'])
        return r
    def new_local(self, st, size, zero=False, atomic=False):
        i = next(self.cnt)
        st.locals[i] = LObj(size, zero, atomic)
        return LRef(i)
    def publish(self, st, id):
        pub = st.ghost.setdefault('pub', {})
        if id in pub: return pub[id]
        o = st.locals[id]
        pub = dict(pub); st.ghost['pub'] = pub
        if o.seg:
            S, end = o.seg
            endr = self.publish(st, end)
            pub = dict(st.ghost['pub']); st.ghost['pub'] = pub
            r = self.fresh('seg')
            pub[id] = r
            v = st.view()
            st.assume(lst(v, r) == app(S, lst(v, endr)), tail(v, r) == tail(v, endr),
                      Implies(is_nil(S), r == endr), Implies(is_cons(S), tag(r) == PAIR), r > 0,
                      r > st.ghost['na0'])
            na = self.fresh('na'); st.assume(na >= st.na, na >= r); st.na = na
            for h in SEGLAWS: st.assume(*h(self, st, r, S, endr))
            return r
        r = self.fresh('obj')
        st.assume(r > st.na)
        st.na = r
        pub[id] = r
        if o.struct:
            for m, v in o.fields.items():
                t = self.term(st, v)
                st.assume(st.f('%s.%s' % (o.struct, m)).read(r) == t)
            return r
        tg = o.tag()
        if tg is None:
            # raw buffer
            if o.elems is not None and o.elembase == 'buf':
                st.assume(st.f('BUF[]').read(r) == o.elems)
                if o.size is not None: st.assume(bufsize(r) == o.size)
            elif o.elembase == 'words':
                st.assume(st.f('WORDS[]').read(r) == o.elems)
                if o.size is not None: st.assume(wsize(r) == o.size)
            else:
                if o.size is not None: st.assume(bufsize(r) == o.size, wsize(r) == o.size)
                if o.zero: st.assume(st.f('WORDS[]').read(r) == z3.K(I, IV(0)), st.f('BUF[]').read(r) == z3.K(I, IV(0)))
            return r
        tgv = tg if isinstance(tg, int) else (tg.as_long() if z3.is_int_value(tg) else None)
        if tgv is None: raise Unsupported('publishing an object of unknown type')
        tn = TNAME[tgv]
        st.assume(tag(r) == tgv)
        fl, eb = LAYOUT[tn] if tn in LAYOUT else ({}, None)
        if tn in OBJSIZE and o.size is not None and not self.quiet:
            sz = o.size if isinstance(o.size, z3.ExprRef) else IV(o.size)
            used = max([a + b for (a, b) in fl])
            self.oblige(st, sz >= used, 'allocation covers %s fields' % tn)
        for (off, sz), name in fl.items():
            v = o.fields.get((off, sz))
            if v is None:
                v = IV(0) if o.zero else None
            if v is None: continue
            t = self.term(st, v)
            st.assume(st.f('%s.%s' % (tn, name)).read(r) == t)
        if eb is not None and o.elems is not None:
            st.assume(st.f(tn + '[]').read(r) == o.elems)
        if tn == 'ENV' and o.size is not None: st.assume(envsize(r) * 8 + 8 == o.size)
        return r
    # -------------------------------------------------- memory access
    def load(self, st, base, off, size, t, node, kind='obj'):
        """-> [(st, value)]"""
        pub = st.ghost.get('pub', {})
        if isinstance(base, LRef) and base.id in pub: base = pub[base.id]
        if isinstance(base, LRef):
            return self.load_local(st, base, off, size, t, node)
        if isinstance(base, VarAddr):
            a, o, cap = self.bytes_at(st, PV(base, off, 'var'))
            if size != 1: raise Unsupported('wide read through the address of a variable')
            self.oblige(st, And(o >= 0, o < cap), 'read inside the variable', node)
            v = z3.Select(a, o); st.assume(v >= -128, v <= 127)
            return [(st, v)]
        if isinstance(base, StrLit): base = self.strlit(st, base)
        if isinstance(base, Raw): return [(st, self.load_global_array(st, base, off, size, t))]
        base = self.term(st, base)
        return [(st, self.load_shared(st, base, off, size, t, node, kind))]
    def c_off(self, off):
        if isinstance(off, int): return off
        if isinstance(off, z3.ExprRef):
            if z3.is_int_value(off): return off.as_long()
            s = z3.simplify(off)
            if z3.is_int_value(s): return s.as_long()
        return None
    def load_global_array(self, st, base, off, size, t):
        o = base.off + off
        o = z3.simplify(o) if isinstance(o, z3.ExprRef) else IV(o)
        if t == 'unsigned long': return self.load_word(st, z3.simplify(gconst(base.name) + o))
        f = z3.Function('garr_' + base.name, I, I)
        return f(o)
    def wrapval(self, st, v, t):
        """Wrap a loaded 64-bit word as a value of C type t."""
        if self.is_ptr(t):
            if t == 'char*': return PV(v, 0, 'buf')
            return v
        return v
    def load_local(self, st, ref, off, size, t, node):
        o = st.locals[ref.id]
        if o.seg: return self.unfold_seg(st, ref, lambda s, r: self.load(s, r, off, size, t, node))
        if isinstance(off, str):        # struct member
            v = o.fields.get(off)
            if v is None:
                v = IV(0) if o.zero else self.fresh('uninit')
            return [(st, v)]
        co = self.c_off(off)
        if o.elembase == 'buf' or o.elembase == 'words':
            self.bounds(st, o, off, size, node)
            idx = off if o.elembase == 'buf' else self.div8(off)
            return [(st, self.wrapval(st, z3.Select(o.elems, self.zint(idx)), t))]
        eb = self.elem_base(o)
        if co is not None and (eb is None or co < eb):
            self.bounds(st, o, co, size, node)
            v = o.fields.get((co, size))
            if v is None:
                if o.zero: v = IV(0)
                else:
                    v = self.fresh('uninit'); o = st.lobj(ref.id); o.fields[(co, size)] = v
            if t == 'char*' and isinstance(v, (LRef,)) : v = PV(v, 0, 'buf')
            elif t == 'char*' and isinstance(v, z3.ExprRef): v = PV(v, 0, 'buf')
            return [(st, v)]
        # variable part
        self.bounds(st, o, off, size, node)
        o = st.lobj(ref.id)
        if eb is None:
            if size == 1: o.elembase = 'buf'; eb = 0; o.elems = z3.K(I, IV(0)) if o.zero else self.fresh('buf', ARR)
            elif size == 8: o.elembase = 'words'; eb = 0; o.elems = z3.K(I, IV(0)) if o.zero else self.fresh('words', ARR)
            else: raise Unsupported('variable access to raw object')
            return self.load_local(st, ref, off, size, t, node)
        if o.elems is None: o.elems = z3.K(I, IV(0)) if o.zero else self.fresh('elems', ARR)
        return [(st, self.wrapval(st, z3.Select(o.elems, self.div8(self.zint(off) - eb)), t))]
    def elem_base(self, o):
        tg = o.tag()
        if tg is None: return None
        tgv = tg if isinstance(tg, int) else (tg.as_long() if z3.is_int_value(tg) else None)
        return ELEM.get(TNAME.get(tgv)) if tgv is not None else None
    def zint(self, x): return IV(x) if isinstance(x, int) else x
    def div8(self, off):
        s = z3.simplify(self.zint(off))
        if z3.is_int_value(s): return IV(s.as_long() // 8)
        # 8*i + c
        terms = s.children() if z3.is_add(s) else [s]
        out = []
        for x in terms:
            if z3.is_int_value(x):
                if x.as_long() % 8: break
                out.append(IV(x.as_long() // 8))
            elif z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() % 8 == 0:
                k = x.arg(0).as_long() // 8
                rest = x.children()[1:]
                r = rest[0]
                for q in rest[1:]: r = r * q
                out.append(r if k == 1 else k * r)
            else: break
        else:
            r = out[0]
            for q in out[1:]: r = r + q
            return z3.simplify(r)
        return s / 8
    def bounds(self, st, o, off, size, node):
        if o.size is None: return
        off = self.zint(off); sz = self.zint(o.size)
        g = z3.simplify(And(off >= 0, off + size <= sz))
        if z3.is_true(g): return
        self.oblige(st, g, 'access inside the allocated block', node)
    def known_tag(self, st, base):
        k = st.known.get(base.get_id())
        if k: return TNAME.get(k[1])
        for n in SINGLETONS:
            if z3.eq(base, gconst(n)): return {'minim_empty_vec': 'VECTOR', 'minim_base_rtd': 'RECORD'}.get(n, 'SPECIAL')
        return None
    def tag_cands(self, off, size, t):
        co = self.c_off(off)
        out = []
        for tn, (fl, eb) in LAYOUT.items():
            if co is not None and (co, size) in fl: out.append(tn)
            elif eb is not None and size == 8 and (co is None or co >= eb): out.append(tn)
        if co == 8 and size == 8:
            pref = {'char*': ['STRING', 'SYMBOL'], 'long': ['FIXNUM'], 'unsigned long': ['VECTOR', 'CODE'],
                    'struct _IO_FILE*': ['PORT']}.get(t, ['PAIR', 'BOX', 'SYNTAX', 'HASHTABLE', 'TOPENV', 'RECORD', 'CLOSURE', 'ENV', 'CONTINUATION'])
            out = [x for x in pref if x in out] 
        elif co == 16 and size == 8:
            pref = ['PAIR', 'VECTOR', 'RECORD', 'SYNTAX', 'HASHTABLE', 'TOPENV', 'CLOSURE', 'CODE', 'ENV', 'CONTINUATION']
            out = [x for x in pref if x in out]
        elif co is None:
            out = [x for x in ['VECTOR', 'RECORD', 'CLOSURE', 'ENV', 'CODE'] if x in out]
        return out
    def resolve_tag(self, st, base, off, size, t, node):
        c = self.tag_cands(off, size, t)
        k = self.known_tag(st, base)
        if k is not None and k in c: return k
        if k is not None and k not in c and not c: c = [k]
        for depth in (1, self.P.depth):
            for tn in c:
                if self.P.entails(st.path, tag(base) == TAGS[tn], depth):
                    st.known[base.get_id()] = (base, TAGS[tn])
                    return tn
        if not c:
            raise Unsupported('no object layout has a field at offset %s size %s' % (off, size))
        if k is not None and self.P.entails(st.path, tag(base) == TAGS[k], 1):
            # access through an object of another type
            self.oblige(st, lit(False), 'typed access: field at offset %s of a %s' % (off, k), node)
        else:
            self.oblige(st, tag(base) == TAGS[c[0]], 'typed access: object has a field of this type at offset %s (%s)' % (off, '/'.join(c)), node)
        st.known[base.get_id()] = (base, TAGS[c[0]])
        return c[0]
    def load_shared(self, st, base, off, size, t, node, kind):
        if isinstance(off, str):
            v = st.f(off).read(base)
            self.load_facts(st, v, t)
            return self.wrapval(st, v, t)
        co = self.c_off(off)
        if kind == 'buf':
            return self.load_buf(st, base, off, size, t, node)
        if kind == 'words':
            self.oblige(st, And(self.zint(off) >= 0, self.zint(off) + 8 <= wsize(base)), 'read inside the word block', node)
            v = z3.Select(st.f('WORDS[]').read(base), self.div8(off))
            self.load_facts(st, v, t)
            return self.wrapval(st, v, t)
        if co == 0 and size == 1 and t == 'unsigned char':
            v = tag(base); return v
        if t == 'char' and size == 1 and (co is None or self.known_tag(st, base) in ('FIXNUM', 'CHAR')):
            w = self.bytes_at(st, PV(base, off, 'obj'))
            if w is not None:
                a, o, cap = w
                self.oblige(st, And(o >= 0, o < cap), 'read inside the field', node)
                v = z3.Select(a, o); st.assume(v >= -128, v <= 127)
                return v
        tn = self.resolve_tag(st, base, off, size, t, node)
        fl, eb = LAYOUT[tn]
        if co is not None and (co, size) in fl:
            v = st.f('%s.%s' % (tn, fl[(co, size)])).read(base)
            self.load_facts(st, v, t)
            return self.wrapval(st, v, t)
        idx = self.div8(self.zint(off) - eb)
        self.elem_bounds(st, tn, base, idx, node)
        v = z3.Select(st.f(tn + '[]').read(base), idx)
        self.load_facts(st, v, t)
        return self.wrapval(st, v, t)
    def bytes_at(self, st, p):
        """the bytes a char pointer ranges over: (array, offset, capacity) or None"""
        if isinstance(p, VarAddr): p = PV(p, IV(0), 'var')
        if not isinstance(p, PV): return None
        off = self.zint(p.off); b = p.base
        pub = st.ghost.get('pub', {})
        if isinstance(b, LRef) and b.id in pub: b = pub[b.id]
        if isinstance(b, VarAddr):
            v = st.vars.get(b.key)
            if v is None: return None
            return wbytes(self.term(st, v)), off, IV(self.sizeof(self.vtypes[b.key]))
        if not isinstance(b, z3.ExprRef): return None
        if p.kind == 'buf': return st.f('BUF[]').read(b), off, bufsize(b)
        if p.kind != 'obj': return None
        tn = self.known_tag(st, b)
        if tn is None: return None
        s = z3.simplify(off); c = sum(x.as_long() for x in ([s] if not z3.is_add(s) else s.children()) if z3.is_int_value(x))
        for (o2, sz), f in LAYOUT[tn][0].items():
            if o2 <= c < o2 + sz:
                v = st.f('%s.%s' % (tn, f)).read(b)
                a = wbytes(v) if sz == 8 else z3.K(I, v)
                return a, z3.simplify(off - o2), IV(sz)
        return None
    def elem_bounds(self, st, tn, base, idx, node):
        if tn in LENFIELD: n = st.f(LENFIELD[tn]).read(base)
        else: n = envsize(base)
        self.oblige(st, And(idx >= 0, idx < n), 'index inside the %s' % tn.lower(), node)
    def load_facts(self, st, v, t):
        if not isinstance(v, z3.ExprRef) or z3.is_int_value(v): return
        fs = self.range_facts(v, t)
        if t == 'unsigned long': fs = [v >= 0, v < OBJMAX]     # sizes stored in objects
        if self.is_ptr(t): fs = [v >= 0, v <= st.na]
        st.assume(*fs)
    def load_buf(self, st, base, off, size, t, node):
        off = self.zint(off)
        self.oblige(st, And(off >= 0, off < bufsize(base)), 'read inside the character buffer', node)
        v = z3.Select(st.f('BUF[]').read(base), off)
        if size != 1: raise Unsupported('wide read of a character buffer')
        if t == 'unsigned char':
            st.assume(v >= -128, v <= 127)
            return If(v >= 0, v, v + 256)
        st.assume(v >= -128, v <= 127)
        return v
    def unfold_seg(self, st, ref, k):
        o = st.locals[ref.id]
        S, end = o.seg
        out = []
        s1 = st.clone(); s1.assume(is_nil(S))
        if self.P.feasible(s1.path): out += k(s1, LRef(end))
        s2 = st.clone(); s2.assume(is_cons(S))
        if self.P.feasible(s2.path):
            rest = self.new_local(s2, None)
            s2.locals[rest.id].seg = (tl(S), end)
            c = LObj(24); c.fields = {(0, 1): PAIR, (8, 8): hd(S), (16, 8): rest}
            s2.locals[ref.id] = c
            out += k(s2, ref)
        return out
    def store(self, st, base, off, size, t, val, node, kind='obj'):
        """-> [st]"""
        pub = st.ghost.get('pub', {})
        if isinstance(base, LRef) and base.id in pub: base = pub[base.id]
        if isinstance(base, LRef):
            o = st.locals[base.id]
            if o.seg:
                return self.unfold_seg(st, base, lambda s, r: self.store(s, r, off, size, t, val, node, kind))
            o = st.lobj(base.id)
            if isinstance(off, str):
                o.struct = off.split('.')[0]; o.fields[off.split('.')[1]] = val
                return [st]
            co = self.c_off(off)
            if o.elembase in ('buf', 'words'):
                self.bounds(st, o, off, size, node)
                idx = self.zint(off) if o.elembase == 'buf' else self.div8(off)
                o.elems = z3.Store(o.elems, idx, self.term(st, val)); return [st]
            eb = self.elem_base(o)
            if kind == 'buf' and o.tag() is None:
                o.elembase = 'buf'; o.elems = z3.K(I, IV(0)) if o.zero else self.fresh('buf', ARR)
                return self.store(st, base, off, size, t, val, node, kind)
            if co is not None and (eb is None or co < eb):
                self.bounds(st, o, co, size, node)
                if (co, size) == (0, 1) and isinstance(val, z3.ExprRef) and z3.is_int_value(val): val = val.as_long()
                if isinstance(val, PV) and self.is_zero(val.off): val = val.base
                o.fields[(co, size)] = val; return [st]
            if eb is None:
                o.elembase = 'words' if size == 8 else 'buf'
                o.elems = z3.K(I, IV(0)) if o.zero else self.fresh('raw', ARR)
                return self.store(st, base, off, size, t, val, node, kind)
            self.bounds(st, o, off, size, node)
            if o.elems is None: o.elems = z3.K(I, IV(0)) if o.zero else self.fresh('elems', ARR)
            tv = self.term(st, val)
            o = st.lobj(base.id)
            o.elems = z3.Store(o.elems, self.div8(self.zint(off) - eb), tv)
            return [st]
        base = self.term(st, base)
        tv = self.term(st, val)
        if isinstance(off, str):
            self.write_field(st, off, base, tv); return [st]
        co = self.c_off(off)
        if kind == 'buf':
            off = self.zint(off)
            self.oblige(st, And(off >= 0, off < bufsize(base)), 'write inside the character buffer', node)
            a = st.f('BUF[]').read(base)
            self.write_field(st, 'BUF[]', base, z3.Store(a, off, tv)); return [st]
        if kind == 'words':
            self.oblige(st, And(self.zint(off) >= 0, self.zint(off) + 8 <= wsize(base)), 'write inside the word block', node)
            a = st.f('WORDS[]').read(base)
            self.write_field(st, 'WORDS[]', base, z3.Store(a, self.div8(off), tv)); return [st]
        if co == 0 and size == 1: raise Unsupported('retagging a published object')
        tn = self.resolve_tag(st, base, off, size, t, node)
        fl, eb = LAYOUT[tn]
        if co is not None and (co, size) in fl:
            self.write_field(st, '%s.%s' % (tn, fl[(co, size)]), base, tv); return [st]
        idx = self.div8(self.zint(off) - eb)
        self.elem_bounds(st, tn, base, idx, node)
        a = st.f(tn + '[]').read(base)
        self.write_field(st, tn + '[]', base, z3.Store(a, idx, tv))
        return [st]
    def write_field(self, st, name, at, val):
        before = st.view()
        st.heap[name] = st.f(name).store(at, val)
        for h in WRITELAWS:
            st.assume(*h(self, st, name, at, val, before, st.view()))
    # -------------------------------------------------- expressions
    def ev(self, n, st):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Unsupported('expression %s at line %s' % (k, self.loc(n)))
        return m(n, st)
    def ev_ParenExpr(self, n, st): return self.ev(n['inner'][0], st)
    def ev_ConstantExpr(self, n, st): return self.ev(n['inner'][0], st)
    def ev_IntegerLiteral(self, n, st): return [(st, IV(int(n['value'])))]
    def ev_CharacterLiteral(self, n, st): return [(st, IV(int(n['value'])))]
    def ev_StringLiteral(self, n, st):
        import ast as pyast
        try: s = pyast.literal_eval(n['value'])
        except Exception: s = n['value']
        return [(st, StrLit(s))]
    def ev_FloatingLiteral(self, n, st): return [(st, self.fresh('flt'))]     # floating point values are unknown values
    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') != 'sizeof': raise Unsupported(n.get('name'))
        if 'argType' in n: return [(st, IV(self.sizeof(n['argType'].get('desugaredQualType') or n['argType']['qualType'])))]
        e = n['inner'][0]
        return [(st, IV(self.sizeof(e['type'].get('desugaredQualType') or e['type']['qualType'])))]
    def ev_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl': return [(st, IV(self.curtu.enums[d['name']]))]
        if d['kind'] == 'FunctionDecl': return [(st, FuncVal(d['name']))]
        return self.rvalue(n, st)
    def key(self, did): return (self.frame, did)
    # lvalues: ('var',key) | ('mem',base,off,kind) | ('glob',name)
    def lv(self, n, st):
        """-> [(st, lvalue)]"""
        k = n['kind']
        if k == 'ParenExpr': return self.lv(n['inner'][0], st)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            key = self.key(d['id'])
            if key in st.vars: return [(st, ('var', key))]
            return [(st, ('glob', d['name']))]
        if k == 'UnaryOperator' and n['opcode'] == '*':
            out = []
            for s, p in self.ev(n['inner'][0], st): out.append((s, self.deref(s, p, n['inner'][0])))
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            esz = self.sizeof(self.ctype(n))
            for s, p in self.ev(n['inner'][0], st):
                for s2, i in self.ev(n['inner'][1], s):
                    i = self.term(s2, i)
                    out.append((s2, self.deref(s2, self.padd(s2, p, z3.simplify(i * esz), n['inner'][0]), n['inner'][0])))
            return out
        if k == 'MemberExpr':
            out = []
            if n.get('isArrow'):
                bt = self.ctype(n['inner'][0])
                sn = bt.rstrip('*').replace('struct ', '').strip()
                for s, p in self.ev(n['inner'][0], st):
                    if isinstance(p, PV) and self.is_zero(p.off): p = p.base
                    if isinstance(p, z3.ExprRef):
                        self.oblige(s, p != 0, 'dereferenced pointer is not NULL', n)
                    out.append((s, ('mem', p, '%s.%s' % (sn, n['name']), 'struct')))
                return out
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'BitCast'):
            return self.lv(n['inner'][0], st)
        raise Unsupported('lvalue %s' % k)
    def deref(self, st, p, pn=None):
        if isinstance(p, PV): return ('mem', p.base, p.off, p.kind)
        if isinstance(p, VarAddr):
            if pn is not None and self.ctype(pn) in ('char*', 'unsigned char*') and self.vtypes.get(p.key) not in ('char', 'unsigned char'): return ('mem', p, 0, 'var')
            return ('var', p.key)
        if isinstance(p, Raw): return ('mem', p, 0, 'raw')
        if isinstance(p, StrLit): return ('mem', p, 0, 'buf')
        t = self.ctype(pn) if pn is not None else ''
        return ('mem', p, 0, 'obj')
    def padd(self, st, p, d, pn=None):
        if isinstance(p, VarAddr): return PV(p, d, 'var')
        if isinstance(p, PV):
            o = p.off + d if not (self.is_zero(p.off)) else d
            if isinstance(o, z3.ExprRef): o = z3.simplify(o)
            return PV(p.base, o, p.kind)
        if isinstance(p, Raw): return Raw(p.name, p.off + d)
        t = self.ctype(pn) if pn is not None else ''
        if t == 'char*' and (isinstance(p, LRef) or isinstance(p, StrLit)): return PV(p, d, 'buf')
        if isinstance(p, (LRef, StrLit)): return PV(p, d, 'obj')
        if isinstance(p, z3.ExprRef):
            if t in ('unsigned long*',): return z3.simplify(p + d)
            if re.match(r'^struct \w+\*\*$', t): return PV(p, d, 'words')
            return PV(p, d, 'buf' if t == 'char*' else 'obj')
        raise Unsupported('pointer arithmetic on %r' % (p,))
    def rvalue(self, n, st):
        out = []
        t = self.ctype(n)
        for s, l in self.lv(n, st):
            out += self.read_lv(s, l, t, n)
        return out
    def read_lv(self, s, l, t, n):
        if l[0] == 'var':
            v = s.vars[l[1]]
            if v is None:
                v = self.fresh('uninit'); s.vars[l[1]] = v
            return [(s, v)]
        if l[0] == 'glob': return [(s, self.read_global(s, l[1], t, n))]
        _, base, off, kind = l
        if kind == 'raw': return [(s, self.load_global_array(s, base, off, 8, t))]
        if kind == 'struct':
            if isinstance(base, LRef) and base.id not in s.ghost.get('pub', {}):
                return self.load_local(s, base, off.split('.')[1], 8, t, n)
            return self.load(s, base, off, 8, t, n)
        if t == 'unsigned long' and isinstance(base, z3.ExprRef) and kind == 'obj' and self.is_zero(off):
            return [(s, self.load_word(s, base))]
        if t.endswith(']'): return [(s, PV(base, off, kind))]
        return self.load(s, base, off, self.sizeof(t), t, n, kind)
    def load_word(self, s, addr):
        v = word_at(addr)
        s.assume(v >= 0, v < OBJMAX)
        return v
    def read_global(self, st, name, t, n):
        g = self.globals_model(st, name, t)
        return g
    def globals_model(self, st, name, t):
        if ('gv', name) in st.ghost: return st.ghost[('gv', name)]
        if t.endswith(']'): return gconst(name)
        c = gconst(name)
        if self.is_ptr(t) or name in SINGLETONS: 
            if name not in SINGLETONS: st.assume(c > 0, c <= st.ghost['na0'])
            if name.endswith('_symbol'):
                st.assume(tag(c) == TAGS['SYMBOL'], c == symconst(name))
        return c
    def write_lv(self, st, l, t, val, node):
        """-> [st]"""
        if l[0] == 'var': st.vars[l[1]] = val; return [st]
        if l[0] == 'glob': st.ghost[('gv', l[1])] = val; return [st]
        _, base, off, kind = l
        if kind == 'struct': return self.store(st, base, off, 8, t, val, node)
        return self.store(st, base, off, self.sizeof(t), t, val, node, kind)
    def ev_ArraySubscriptExpr(self, n, st): return self.rvalue(n, st)
    def ev_MemberExpr(self, n, st): return self.rvalue(n, st)
    def ev_ImplicitCastExpr(self, n, st): return self.ev_cast(n, st)
    def ev_CStyleCastExpr(self, n, st): return self.ev_cast(n, st)
    def ev_cast(self, n, st):
        ck = n.get('castKind'); e = n['inner'][0]
        if ck == 'LValueToRValue': return self.rvalue(e, st)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return self.ev(e, st)
        if ck == 'ArrayToPointerDecay':
            if e['kind'] == 'StringLiteral': return self.ev(e, st)
            out = []
            for s, l in self.lv(e, st):
                if l[0] == 'glob': out.append((s, Raw(l[1], IV(0)))); continue
                if l[0] == 'var': out.append((s, s.vars[l[1]])); continue
                out.append((s, PV(l[1], l[2], l[3])))
            return out
        if ck == 'NullToPointer': return [(st, IV(0))]
        if ck in ('BitCast', 'IntegralToPointer', 'PointerToIntegral', 'NoOp', 'ToVoid'):
            out = self.ev(e, st)
            return out
        if ck == 'IntegralCast':
            ft, tt = self.ctype(e), self.ctype(n)
            return [(s, self.convert(s, v, ft, tt)) for s, v in self.ev(e, st)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return [(s, If(b, IV(1), IV(0)) if not isinstance(b, bool) else IV(int(b))) for s, b in self.cond(e, st)]
        if ck in ('IntegralToFloating', 'FloatingCast'): return [(s, self.fresh('flt')) for s, v in self.ev(e, st)]
        raise Unsupported('cast %s' % ck)
    def convert(self, st, v, ft, tt):
        if not isinstance(v, z3.ExprRef): return v
        if tt not in INT_RANGES: return v
        lo, hi = INT_RANGES[tt]
        if z3.is_int_value(v):
            x = v.as_long(); w = hi - lo + 1
            return IV((x - lo) % w + lo)
        if ft in INT_RANGES:
            a, b = INT_RANGES[ft]
            if a >= lo and b <= hi: return v
        if self.P.entails(st.path, And(v >= lo, v <= hi), 1, 800): return v
        w = hi - lo + 1
        if lo == 0:
            if ft in INT_RANGES and INT_RANGES[ft][0] == -(w // 2): return If(v >= 0, v, v + w)
            return v % w
        if ft in INT_RANGES and INT_RANGES[ft] == (0, w - 1): return If(v <= hi, v, v - w)
        return (v - lo) % w + lo
    def ev_ConditionalOperator(self, n, st):
        out = []
        for s, b in self.cond(n['inner'][0], st):
            for s2, side in self.split(s, b):
                out += self.ev(n['inner'][1 if side else 2], s2)
        return out
    def split(self, st, b):
        """-> [(st, bool)]"""
        if isinstance(b, bool): return [(st, b)]
        b = z3.simplify(b)
        if z3.is_true(b): return [(st, True)]
        if z3.is_false(b): return [(st, False)]
        out = []
        nb = z3.simplify(Not(b))
        # cheap: contradiction with a known literal
        t_ok = self.P.feasible(st.path + [b])
        if t_ok:
            s1 = st.clone(); s1.assume(b); out.append((s1, True))
            if not self.P.feasible(st.path + [nb]): return out
        s2 = st.clone(); s2.assume(nb); out.append((s2, False))
        return out
    def cond(self, n, st):
        """-> [(st, Bool)]"""
        k = n['kind']
        if k == 'ParenExpr': return self.cond(n['inner'][0], st)
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp'): return self.cond(n['inner'][0], st)
        if k == 'ImplicitCastExpr' and n.get('castKind') == 'IntegralCast' and n['inner'][0]['kind'] in ('ParenExpr', 'BinaryOperator', 'UnaryOperator'):
            pass
        if k == 'UnaryOperator' and n['opcode'] == '!':
            return [(s, (not b) if isinstance(b, bool) else Not(b)) for s, b in self.cond(n['inner'][0], st)]
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('&&', '||'):
                out = []
                for s, b in self.cond(n['inner'][0], st):
                    for s2, side in self.split(s, b):
                        if (op == '&&') == side: out += self.cond(n['inner'][1], s2)
                        else: out.append((s2, side))
                return out
            if op in ('==', '!=', '<', '>', '<=', '>='):
                out = []
                for s, a in self.ev(n['inner'][0], st):
                    for s2, b in self.ev(n['inner'][1], s):
                        out.append((s2, self.compare(s2, op, a, b)))
                return out
        out = []
        for s, v in self.ev(n, st): out.append((s, self.truth(s, v)))
        return out
    def truth(self, s, v):
        if isinstance(v, (LRef, StrLit, FuncVal, Raw)): return True
        if isinstance(v, PV):
            if isinstance(v.base, z3.ExprRef) and self.is_zero(v.off): return v.base != 0
            return True
        if z3.is_bool(v): return v
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long(), v.arg(2).as_long()
            if a and not b: return v.arg(0)
        return v != 0
    def compare(self, st, op, a, b):
        if op in ('==', '!='):
            r = self.equal(st, a, b)
            if op == '==': return r
            return (not r) if isinstance(r, bool) else Not(r)
        x, y = self.term(st, a), self.term(st, b)
        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
    def equal(self, st, a, b):
        pub = st.ghost.get('pub', {})
        def norm(v):
            if isinstance(v, PV) and self.is_zero(v.off): v = v.base
            if isinstance(v, LRef) and v.id in pub: v = pub[v.id]
            return v
        a, b = norm(a), norm(b)
        la, lb = isinstance(a, LRef), isinstance(b, LRef)
        if la and lb:
            if a.id == b.id: return True
            if st.locals[a.id].seg or st.locals[b.id].seg:
                return self.term(st, a) == self.term(st, b)
            return False
        if la or lb:
            o = st.locals[(a if la else b).id]
            if o.seg: return self.term(st, a) == self.term(st, b)
            return False
        x, y = self.term(st, a), self.term(st, b)
        if z3.eq(x, y): return True
        return x == y
    def ev_UnaryOperator(self, n, st):
        op = n['opcode']; e = n['inner'][0]
        if op == '*': return self.rvalue(n, st)
        if op == '&':
            out = []
            for s, l in self.lv(e, st):
                if l[0] == 'var': out.append((s, VarAddr(l[1])))
                elif l[0] == 'glob': out.append((s, Raw(l[1], IV(0))))
                else:
                    _, b, o, k = l
                    if isinstance(b, Raw): out.append((s, Raw(b.name, b.off + o)))
                    elif isinstance(o, str): raise Unsupported('address of struct member')
                    elif isinstance(b, z3.ExprRef) and self.is_zero(o) and k == 'obj': out.append((s, b))
                    else: out.append((s, PV(b, o, k)))
            return out
        if op == '!':
            return [(s, IV(int(b)) if isinstance(b, bool) else If(b, IV(1), IV(0))) for s, b in self.cond(n, st)]
        if op == '-':
            return [(s, self.arith(s, '-', IV(0), self.term(s, v), self.ctype(n), n)) for s, v in self.ev(e, st)]
        if op == '+': return self.ev(e, st)
        if op == '~':
            t = self.ctype(n); out = []
            for s, v in self.ev(e, st):
                v = self.term(s, v)
                out.append((s, -1 - v if INT_RANGES[t][0] < 0 else INT_RANGES[t][1] - v))
            return out
        if op in ('++', '--'):
            out = []
            t = self.ctype(e)
            d = 1 if op == '++' else -1
            for s, l in self.lv(e, st):
                for s2, v in self.read_lv(s, l, t, n):
                    if self.is_ptr(t): nv = self.padd(s2, v, IV(d * self.sizeof(t[:-1].strip())), e)
                    else: nv = self.arith(s2, '+' if d > 0 else '-', self.term(s2, v), IV(1), t, n)
                    for s3 in self.write_lv(s2, l, t, nv, n):
                        out.append((s3, v if n.get('isPostfix') else nv))
            return out
        if op == '__extension__': return self.ev(e, st)
        raise Unsupported('unary ' + op)
    def arith(self, st, op, a, b, t, n):
        if t in ('double', 'float', 'long double'): return self.fresh('flt')
        if z3.is_bool(a): a = If(a, IV(1), IV(0))
        if z3.is_bool(b): b = If(b, IV(1), IV(0))
        lo, hi = INT_RANGES.get(t, (0, 2**32 - 1))
        w = hi - lo + 1
        ca = z3.is_int_value(a); cb = z3.is_int_value(b)
        if op in ('+', '-', '*'):
            r = a + b if op == '+' else a - b if op == '-' else a * b
            r = z3.simplify(r)
            if z3.is_int_value(r): return IV((r.as_long() - lo) % w + lo)
            if lo == 0 and (self.is_mod(a, w) or self.is_mod(b, w)):
                a, b = self.unmod(a, w), self.unmod(b, w)
                return z3.simplify(a + b if op == '+' else a - b if op == '-' else a * b) % w
            if lo == 0:
                if op == '+' and self.mode.wrap is not True and t == 'unsigned long' and not self.hashing:
                    if self.P.entails(st.path, r <= hi, 1, 800): return r
                elif self.P.entails(st.path, And(r >= lo, r <= hi), 1, 800): return r
                if op == '+': return If(r <= hi, r, r - w)
                if op == '-': return If(r >= 0, r, r + w)
                return r % w
            if self.mode.wrap == 'check':
                self.oblige(st, And(r >= lo, r <= hi), 'no signed overflow', n)
            return r
        if op in ('/', '%'):
            self.oblige(st, b != 0, 'divisor is not zero', n)
            if lo < 0 and self.mode.wrap == 'check':
                self.oblige(st, Not(And(a == lo, b == -1)), 'quotient representable', n)
            if cb and (lo == 0 or self.P.entails(st.path, a >= 0, 1, 500)):
                return a / b if op == '/' else a % b
            return tdiv(a, b) if op == '/' else trem(a, b)
        if op == '<<':
            if cb:
                r = a * (2 ** b.as_long())
                if self.P.entails(st.path, And(r >= lo, r <= hi), 1, 500): return r
                return r % w if lo == 0 else (r - lo) % w + lo
            return bshl(a, b)
        if op == '>>':
            if cb: return a / (2 ** b.as_long())
            return bshr(a, b)
        if op == '&':
            if ca and cb: return IV(a.as_long() & b.as_long())
            if ca: a, b, ca, cb = b, a, cb, ca
            if cb:
                m = b.as_long()
                if m >= 0 and (m & (m + 1)) == 0: return a % (m + 1)
                if m > 0 and (m & (m - 1)) == 0: return ((a / m) % 2) * m
            return band(a, b)
        if op == '|':
            if ca and cb: return IV(a.as_long() | b.as_long())
            if ca: a, b, ca, cb = b, a, cb, ca
            if cb and b.as_long() == 0: return a
            if cb and (b.as_long() & (b.as_long() - 1)) == 0:
                m = b.as_long()
                return If((a / m) % 2 == 1, a, a + m)
            if not ca and not cb and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(b.arg(i)) and b.arg(i).as_long() in (0, 1) for i in (1, 2)):
                return If(b == 0, a, If(a % 2 == 1, a, a + 1))
            return bor(a, b)
        if op == '^': return bxor(a, b)
        raise Unsupported('operator ' + op)
    hashing = False
    def is_mod(self, a, w):
        return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() == w
    def unmod(self, a, w):
        """an integer congruent to a modulo w, without its own reduction"""
        if self.is_mod(a, w): return a.arg(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            x, y = z3.simplify(a.arg(1) - a.arg(2)), a.arg(1)
            if z3.is_int_value(x) and x.as_long() in (w, -w): return y
        return a
    def ev_BinaryOperator(self, n, st):
        op = n['opcode']; l, r = n['inner']
        if op == '=':
            out = []
            for s, v in self.ev(r, st):
                for s2, lvv in self.lv(l, s):
                    for s3 in self.write_lv(s2, lvv, self.ctype(l), v, n): out.append((s3, v))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(l, st): out += self.ev(r, s)
            return out
        if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            return [(s, IV(int(b)) if isinstance(b, bool) else If(b, IV(1), IV(0))) for s, b in self.cond(n, st)]
        out = []
        t = self.ctype(n); tl_, tr_ = self.ctype(l), self.ctype(r)
        for s, a in self.ev(l, st):
            for s2, b in self.ev(r, s):
                if self.is_ptr(t) and op in '+-':
                    if self.is_ptr(tr_): a, b, pn, pt = b, a, r, tr_
                    else: pn, pt = l, tl_
                    b = self.term(s2, b)
                    sz = self.sizeof(pt[:-1].strip() if pt.endswith('*') else pt) if pt != 'void*' else 1
                    d = b * sz
                    if op == '-': d = -d
                    d = z3.simplify(d)
                    # void* arithmetic on object addresses
                    out.append((s2, self.padd(s2, a, d, pn)))
                    continue
                if self.is_ptr(tl_) and self.is_ptr(tr_) and op == '-':
                    if isinstance(a, PV) and isinstance(b, PV) and self.equal(s2, a.base, b.base) is True:
                        out.append((s2, (a.off - b.off) / self.sizeof(tl_[:-1].strip()))); continue
                    raise Unsupported('pointer difference')
                if isinstance(a, (LRef, PV)) and op in ('+', '-') and not self.is_ptr(t):
                    out.append((s2, self.padd(s2, a, self.term(s2, b) if op == '+' else -self.term(s2, b), l))); continue
                out.append((s2, self.arith(s2, op, self.term(s2, a), self.term(s2, b), t, n)))
        return out
    def ev_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]; l, r = n['inner']
        out = []
        t = self.ctype(l)
        ct = self.resolve_type((n.get('computeResultType') or n['type']).get('desugaredQualType') or (n.get('computeResultType') or n['type'])['qualType'])
        for s, v in self.ev(r, st):
            for s2, lvv in self.lv(l, s):
                for s3, cur in self.read_lv(s2, lvv, t, n):
                    if self.is_ptr(t):
                        d = self.term(s3, v) * self.sizeof(t[:-1].strip())
                        nv = self.padd(s3, cur, d if op == '+' else -d, l)
                    else:
                        nv = self.arith(s3, op, self.convert(s3, self.term(s3, cur), t, ct), self.term(s3, v), ct, n)
                        nv = self.convert(s3, nv, ct, t)
                    for s4 in self.write_lv(s3, lvv, t, nv, n): out.append((s4, nv))
        return out
    # -------------------------------------------------- calls
    def ev_CallExpr(self, n, st):
        fe = n['inner'][0]
        outs = [(st, [])]
        for a in n['inner'][1:]:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(a, s): nxt.append((s2, vs + [v]))
            outs = nxt
        res = []
        for s, vs in outs:
            for s2, f in self.ev(fe, s):
                if not isinstance(f, FuncVal): raise Unsupported('indirect call')
                res += self.call(f.name, vs, s2, n)
        return res
    def call(self, name, args, st, n):
        c = self.contracts.get(name)
        if c is not None and not (name in self.mode.inline):
            return self.call_contract(c, args, st, n)
        fn = self.prog.func(name, self.curtu)
        if name in self.models: return self.models[name](self, args, st, n)
        if fn is None: raise Unsupported('call of %s: no body, no contract' % name)
        if name in self.callstack: raise Unsupported('recursive call of %s without a contract' % name)
        return self.inline_call(fn, name, args, st, n)
    def inline_call(self, fn, name, args, st, n):
        self.inlined.add(name)
        saved = (self.frame, self.curtu)
        fr = next(self.cnt)
        ps = cast.params(fn)
        self.callstack.append(name)
        self.frame, self.curtu = fr, fn['_tu']
        try:
            for p, a in zip(ps, args): self.bind(st, p, a)
            outs = self.run_body(fn, st)
        finally:
            self.callstack.pop()
            self.frame, self.curtu = saved
        res = []
        for s, o in outs:
            if o[0] in ('ret', 'next'):
                for kx in [k for k in s.vars if k[0] == fr]: del s.vars[kx]
                res.append((s, o[1] if o[0] == 'ret' else None))
            else: raise Unsupported('outcome %s of call' % (o,))
        return res
    def bind(self, st, p, a):
        k = (self.frame, p['id'])
        st.vars[k] = a
        self.vtypes[k] = self.ctype(p)
        self.vnames[k] = p.get('name', '?')
    def call_contract(self, c, args, st, n):
        self.called.add(c.name)
        targs = []
        for a in args:
            if isinstance(a, VarAddr): targs.append(a); continue
            if isinstance(a, PV) and a.kind == 'buf' and not self.is_zero(a.off): targs.append(a); continue
            targs.append(self.term(st, a))
        pre = st.view(); na_pre = st.na
        g0 = dict(st.ghost)
        cx = Ctx(self, targs, pre, pre, None, st, na_pre); cx.ghost0 = g0
        if c.requires:
            for nm, g in c.requires(cx): self.oblige(st, g, 'precondition of %s: %s' % (c.name, nm), n)
        outs = []
        if c.effects:
            states = c.effects(self, cx, st)
            if states is not None: 
                return [(s, r) for s, r in states]
        res = None
        if c.result == 'ref':
            na = self.fresh('na'); st.assume(na >= st.na); st.na = na
            res = self.fresh('r_' + c.name); st.assume(res >= 0, res <= na)
        elif c.result in INT_RANGES:
            res = self.fresh('r_' + c.name); st.assume(*self.range_facts(res, c.result))
            na = self.fresh('na'); st.assume(na >= st.na); st.na = na
        elif c.result == 'void':
            na = self.fresh('na'); st.assume(na >= st.na); st.na = na
        if c.modifies:
            self.apply_modifies(c.modifies(cx), st)
        cx2 = Ctx(self, targs, pre, st.view(), res, st, na_pre); cx2.ghost0 = g0
        # error outcome
        if c.errs is not None:
            es = st.clone()
            ce = Ctx(self, targs, pre, pre, None, es, na_pre); ce.ghost0 = g0
            fs = c.errs(ce)
            if fs is not None:
                es.assume(*[f for _, f in fs])
                if self.P.feasible(es.path): self.on_error(es, n, c.name)
        if c.noreturn: return []
        if c.ensures:
            st.assume(*[g for _, g in c.ensures(cx2)])
        if c.result == 'buf': res = PV(res, 0, 'buf')
        return [(st, res)]
    def apply_modifies(self, mods, st):
        """mods: list of (field, ref | None | predicate)"""
        for field, at in mods:
            before = st.view()
            if at is None:
                nf = FV(field, field_sort(field)); st.heap[field] = nf
            elif callable(at):
                old = st.f(field); nf = FV(field, field_sort(field)); st.heap[field] = nf
                x = z3.Int('x!m')
                st.assume(ForAll([x], Implies(Not(at(x)), nf.fn(x) == old.read(x)), patterns=[nf.fn(x)]))
            else:
                nv = self.fresh('m', field_sort(field))
                st.heap[field] = st.f(field).store(at, nv)
            for h in WRITELAWS: st.assume(*h(self, st, field, at, None, before, st.view()))
    def on_error(self, st, n, who):
        self.errs.append((st, who, self.loc(n)))
    # -------------------------------------------------- statements
    def ex(self, n, st):
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        if m: return m(n, st)
        return [(s, ('next',)) for s, _ in self.ev(n, st)]
    def seqex(self, stmts, st):
        outs = [(st, ('next',))]
        i = 0
        done = []
        for idx, s in enumerate(stmts):
            if s['kind'] == 'LabelStmt' and self.has_goto(stmts[idx:], s['declId']):
                nxt = []
                for a, o in outs:
                    nxt += self.label_loop(s, stmts[idx + 1:], a)
                return done + nxt
            nxt = []
            for a, o in outs:
                for b, o2 in self.ex(s, a):
                    if o2[0] == 'next': nxt.append((b, o2))
                    else: done.append((b, o2))
            outs = nxt
            if not outs: break
            if len(outs) + len(done) > 3000: raise Unsupported('too many paths')
        return done + outs
    def has_goto(self, stmts, label):
        st = list(stmts)
        while st:
            x = st.pop()
            if x.get('kind') == 'GotoStmt' and x.get('targetLabelDeclId') == label: return True
            st += x.get('inner', [])
        return False
    def ex_CompoundStmt(self, n, st): return self.seqex(n.get('inner', []), st)
    def ex_LabelStmt(self, n, st): return self.ex(n['inner'][0], st)
    def ex_NullStmt(self, n, st): return [(st, ('next',))]
    def ex_DeclStmt(self, n, st):
        states = [st]
        for d in n['inner']:
            if d['kind'] != 'VarDecl': continue
            k = self.key(d['id']); t = self.ctype(d)
            self.vtypes[k] = t; self.vnames[k] = d.get('name', '?')
            init = [c for c in d.get('inner', []) if c['kind'] not in ('FullComment',)] if 'init' in d else []
            nxt = []
            for s in states:
                if init:
                    for s2, v in self.ev(init[0], s): s2.vars[k] = v; nxt.append(s2)
                else:
                    m = re.match(r'^(.*)\[(\d+)\]$', t)
                    if m:
                        r = self.new_local(s, int(m.group(2)) * self.sizeof(m.group(1)))
                        o = s.locals[r.id]; o.elembase = 'buf' if m.group(1).strip() == 'char' else 'words'; o.elems = self.fresh('arr', ARR)
                        s.vars[k] = PV(r, 0, 'buf') if m.group(1).strip() == 'char' else PV(r, 0, 'obj')
                    else: s.vars[k] = None
                    nxt.append(s)
            states = nxt
        return [(s, ('next',)) for s in states]
    def ex_ReturnStmt(self, n, st):
        if not n.get('inner'): return [(st, ('ret', None))]
        return [(s, ('ret', v)) for s, v in self.ev(n['inner'][0], st)]
    def ex_BreakStmt(self, n, st): return [(st, ('break',))]
    def ex_ContinueStmt(self, n, st): return [(st, ('cont',))]
    def ex_GotoStmt(self, n, st): return [(st, ('goto', n['targetLabelDeclId']))]
    def ex_IfStmt(self, n, st):
        inner = n['inner']
        out = []
        for s, b in self.cond(inner[0], st):
            for s2, side in self.split(s, b):
                if side: out += self.ex(inner[1], s2)
                elif len(inner) > 2: out += self.ex(inner[2], s2)
                else: out.append((s2, ('next',)))
        return out
    def ex_SwitchStmt(self, n, st):
        inner = n['inner']
        bodyn = inner[-1]
        out = []
        items = bodyn.get('inner', [])
        # flatten cases: list of (labels, stmts index)
        flat = []
        def add(x):
            if x['kind'] == 'CaseStmt':
                flat.append(('case', x['inner'][0])); add(x['inner'][-1])
            elif x['kind'] == 'DefaultStmt':
                flat.append(('default', None)); add(x['inner'][-1])
            else: flat.append(('stmt', x))
        for x in items: add(x)
        for s, v in self.ev(inner[0], st):
            v = self.term(s, v)
            vals = []
            for kind, x in flat:
                if kind == 'case':
                    (_, c), = self.ev(x, s)
                    vals.append(c)
            starts = []
            ci = 0
            for i, (kind, x) in enumerate(flat):
                if kind == 'case': starts.append((i, v == vals[ci])); ci += 1
                elif kind == 'default': starts.append((i, And(*[v != c for c in vals])))
            if not any(k == 'default' for k, _ in flat): starts.append((len(flat), And(*[v != c for c in vals])))
            for i, g in starts:
                if not self.P.feasible(s.path + [g]): continue
                s2 = s.clone(); s2.assume(g)
                for s3, o in self.seqex([x for kind, x in flat[i:] if kind == 'stmt'], s2):
                    if o[0] == 'break': out.append((s3, ('next',)))
                    else: out.append((s3, o))
        return out
    def ex_ForStmt(self, n, st):
        init, _, c, inc, bodyn = n['inner']
        out = []
        starts = self.ex(init, st) if init.get('kind') else [(st, ('next',))]
        for s, _ in starts: out += self.loop(n, s, c if c.get('kind') else None, bodyn, inc if inc.get('kind') else None)
        return out
    def ex_WhileStmt(self, n, st):
        c, bodyn = n['inner'][-2], n['inner'][-1]
        return self.loop(n, st, c, bodyn, None)
    def ex_DoStmt(self, n, st):
        bodyn, c = n['inner']
        return self.loop(n, st, c, bodyn, None, post=True)
    def label_loop(self, lab, rest, st):
        stmts = [lab['inner'][0]] + rest
        return self.loop(lab, st, None, dict(kind='CompoundStmt', inner=stmts), None, label=lab['declId'])
    # -------------------------------------------------- loops
    def assigned(self, nodes):
        out = set(); stack = [x for x in nodes if x]
        while stack:
            x = stack.pop()
            k = x.get('kind')
            if (k == 'BinaryOperator' and x['opcode'] == '=') or k == 'CompoundAssignOperator' or \
               (k == 'UnaryOperator' and x['opcode'] in ('++', '--', '&')):
                l = x['inner'][0]
                while l['kind'] in ('ParenExpr', 'ImplicitCastExpr'): l = l['inner'][0]
                if l['kind'] == 'DeclRefExpr': out.add(self.key(l['referencedDecl']['id']))
            stack += x.get('inner', [])
        return out
    def written_through(self, nodes, seen=None, tu=None):
        """Declared ids through which object fields are written: x in minim_cdr(x) = ..."""
        tu = tu or self.curtu
        out = set(); stack = [x for x in nodes if x]
        while stack:
            x = stack.pop(); k = x.get('kind')
            if (k == 'BinaryOperator' and x.get('opcode') == '=') or k == 'CompoundAssignOperator' or (k == 'UnaryOperator' and x.get('opcode') in ('++', '--')):
                r = self.deref_root(x['inner'][0])
                if r: out.add(r)
            if k == 'CallExpr':
                f = x['inner'][0]
                while f['kind'] in ('ParenExpr', 'ImplicitCastExpr'): f = f['inner'][0]
                if f['kind'] == 'DeclRefExpr' and f['referencedDecl']['kind'] == 'FunctionDecl':
                    for i in self.writes_params(f['referencedDecl']['name'], tu):
                        if i + 1 < len(x['inner']):
                            a = x['inner'][i + 1]
                            while a['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'): a = a['inner'][0]
                            if a['kind'] == 'DeclRefExpr': out.add(a['referencedDecl']['id'])
            stack += x.get('inner', [])
        return out
    _wp = {}
    def writes_params(self, name, tu):
        if name in self.contracts and self.contracts[name].params and 'writes' in self.contracts[name].params:
            return self.contracts[name].params['writes']
        if name in self.contracts: return ()
        fn = self.prog.func(name, tu)
        if fn is None: return ()
        k = (fn['_tu'].path, name)
        if k in self._wp: return self._wp[k]
        self._wp[k] = ()
        w = self.written_through([cast.body(fn)], tu=fn['_tu'])
        r = tuple(i for i, p in enumerate(cast.params(fn)) if p['id'] in w)
        self._wp[k] = r
        return r
    def deref_root(self, l):
        """root variable of an lvalue that goes through a dereference"""
        d = False
        while True:
            k = l['kind']
            if k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr'): l = l['inner'][0]
            elif k == 'UnaryOperator' and l['opcode'] == '*': d = True; l = l['inner'][0]
            elif k == 'ArraySubscriptExpr': d = True; l = l['inner'][0]
            elif k == 'MemberExpr': d = True; l = l['inner'][0]
            elif k == 'BinaryOperator' and l['opcode'] in '+-': l = l['inner'][0]
            elif k == 'DeclRefExpr': return l['referencedDecl']['id'] if d else None
            else: return None
    def resolve(self, st, v):
        pub = st.ghost.get('pub', {})
        if isinstance(v, PV) and self.is_zero(v.off) and v.kind == 'obj': v = v.base
        if isinstance(v, LRef) and v.id in pub: return pub[v.id]
        return v
    def loop(self, n, st0, condn, bodyn, incn, post=False, label=None):
        stamp = (next(self.cnt), FV._n)
        mod = {k for k in self.assigned([condn, bodyn, incn])}
        wt = {self.key(d) for d in self.written_through([self.curbody])}
        def step(st, final):
            """one iteration from a head state -> (back-edge states, exit outcomes)"""
            back, exits = [], []
            if post or condn is None: starts = [(st, True)]
            else:
                starts = []
                for s, b in self.cond(condn, st): starts += self.split(s, b)
            for s, side in starts:
                if not side: exits.append((s, ('next',))); continue
                for s2, o in self.ex(bodyn, s):
                    if o[0] in ('next', 'cont') and label is None:
                        if post:
                            for s3, b in self.cond(condn, s2):
                                for s4, sd in self.split(s3, b):
                                    (back if sd else exits).append(s4 if sd else (s4, ('next',)))
                        elif incn is not None: back += [s3 for s3, _ in self.ev(incn, s2)]
                        else: back.append(s2)
                    elif o[0] == 'break' and label is None: exits.append((s2, ('next',)))
                    elif o[0] == 'goto' and o[1] == label: back.append(s2)
                    else: exits.append((s2, o))
            return back, exits
        live = set(st0.vars)
        mod &= live
        # discover what the body changes (dry runs from progressively havocked states)
        heads = {}          # signature -> head
        def signature(s):
            sig = []
            for k in sorted(mod, key=str):
                v = self.resolve(s, s.vars[k])
                if isinstance(v, LRef) and k in wt and not self.same_entry(k, v, st0): sig.append((k, 'cell'))
                elif isinstance(v, LRef) and self.same_entry(k, v, st0): sig.append((k, 'same', v.id))
                elif isinstance(v, PV): sig.append((k, 'pv', v.kind, v.base.id if isinstance(v.base, LRef) else -1))
                else: sig.append((k, 'ref'))
            return tuple(sig)
        hmod, lmod, gmod = {}, {}, set()
        entry_errs = len(self.errs)
        def dry(st):
            self.quiet += 1
            saved = len(self.errs)
            try: return step(st.clone(), False)
            finally:
                self.quiet -= 1; del self.errs[saved:]
        st0 = st0.clone()
        # pre-publish: pointers in the mod set which are local but not written through
        for k in sorted(mod, key=str):
            v = self.resolve(st0, st0.vars[k])
            if isinstance(v, LRef) and k not in wt: st0.vars[k] = self.term(st0, v)
        def note_changes(head, s):
            ch = False
            for k in mod:
                a, b = head.vars.get(k), s.vars.get(k)
                if isinstance(a, PV) and isinstance(b, PV) and k not in pvhav and not self.same_val(a.base, b.base): pvhav.add(k); ch = True
            for f, fv in s.heap.items():
                base = head.heap.get(f) or ROOTS(f)
                if fv is not base:
                    refs = []
                    x = fv
                    while x is not None and x is not base: refs.append(x.at); x = x.parent
                    if x is None: refs = None
                    old = hmod.get(f, [])
                    if refs is None or old is None: new = None
                    else:
                        new = list(old)
                        for r in refs:
                            if not any(z3.eq(r, q) for q in new): new.append(r)
                    if f not in hmod or (new is None) != (old is None) or (new is not None and len(new) != len(old)):
                        hmod[f] = new; ch = True
            for i, o in s.locals.items():
                if i in head.locals:
                    h = head.locals[i]
                    if o is not h and i not in chain_ids:
                        d = lmod.setdefault(i, set())
                        for fk in set(o.fields) | set(h.fields):
                            if not self.same_val(o.fields.get(fk), h.fields.get(fk)) and fk not in d: d.add(fk); ch = True
                        if o.elems is not None and (h.elems is None or not z3.eq(o.elems, h.elems)) and 'elems' not in d:
                            d.add('elems'); ch = True
            for g, gv in s.ghost.items():
                if g in ('pub', 'na0') or (isinstance(g, tuple) and g[0] == 'lit'): continue
                hv = head.ghost.get(g)
                if isinstance(gv, z3.ExprRef) and hv is not None and isinstance(hv, z3.ExprRef) and not z3.eq(gv, hv) and g not in gmod:
                    gmod.add(g); ch = True
            return ch
        chain_ids = set(); pvhav = set()
        consts = {}     # (var, off) -> value when it is the same constant at every visit
        def canon(st, tmpl_sig):
            """Abstract a concrete head state: havoc the loop-changed parts."""
            s = st.clone()
            na = self.fresh('na'); s.assume(na >= s.na); s.na = na
            chains = []
            # chains ending at written-through cells
            celled = [k for k in sorted(mod, key=str) if (k, 'cell') in tmpl_sig]
            cellkeys = set(celled)
            newcell = {}
            for k in celled:
                cid = self.resolve(s, s.vars[k]).id
                co = s.locals[cid]
                if co.seg: raise Unsupported('loop variable designates a list segment')
                for hk, hv in list(s.vars.items()):
                    hv = self.resolve(s, hv)
                    if hk == k or not isinstance(hv, LRef): continue
                    if hk in cellkeys and hk != k: continue
                    S = self.chain(s, hv.id, cid)
                    if S is not None: chains.append((hk, k, hv.id))
                newcell[k] = cid
            for hk, k, hid in chains:
                chain_ids.add(hid)
                sid = next(self.cnt)
                s.locals[sid] = LObj(); s.locals[sid].seg = (self.fresh('S', L), ('cell', k))
                s.vars[hk] = LRef(sid)
            for k in celled:
                old = s.locals[newcell[k]]
                nid = next(self.cnt)
                o = LObj(old.size); o.fields = dict(old.fields)
                for fk in list(o.fields):
                    if fk == (0, 1): continue
                    cv = consts.get((k, fk), 'unset')
                    v = self.resolve(s, o.fields[fk])
                    if isinstance(cv, str): consts[(k, fk)] = v
                    elif cv is not None and not self.same_val(cv, v): consts[(k, fk)] = None
                    if consts[(k, fk)] is None or fk == (8, 8): o.fields[fk] = self.fresh('cellfld')
                s.locals[nid] = o; s.vars[k] = LRef(nid)
                chain_ids.add(newcell[k])
                for sid, so in s.locals.items():
                    if so.seg and so.seg[1] == ('cell', k): so.seg = (so.seg[0], nid)
            sig = dict((x[0], x[1:]) for x in tmpl_sig)
            for k in mod:
                if k in cellkeys or any(hk == k for hk, _, _ in chains): continue
                kind = sig[k]
                t = self.vtypes.get(k, '')
                if kind[0] == 'same': continue
                if kind[0] == 'pv':
                    v = s.vars[k]; b = v.base
                    if k in pvhav and isinstance(b, z3.ExprRef): b = self.fresh('base'); s.assume(b >= 0, b <= s.na)
                    s.vars[k] = PV(b, self.fresh('off'), v.kind); continue
                nv = self.fresh(self.vnames.get(k, 'v'))
                s.vars[k] = nv
                s.assume(*self.range_facts(nv, t))
                if self.is_ptr(t): s.assume(nv >= 0, nv <= s.na)
            for i, ch in lmod.items():
                if i not in s.locals or i in chain_ids: continue
                o = s.lobj(i)
                for fk in ch:
                    if fk == 'elems': o.elems = self.fresh('elems', ARR)
                    else: o.fields[fk] = self.fresh('lfld')
            for f, refs in hmod.items():
                before = s.view()
                if refs is None or any(not self.stable(r, stamp) for r in refs):
                    s.heap[f] = FV(f, field_sort(f))
                else:
                    fv = s.f(f)
                    for r in refs: fv = fv.store(r, self.fresh('hv', field_sort(f)))
                    s.heap[f] = fv
            for g in gmod:
                gv = s.ghost[g]; s.ghost[g] = self.fresh('gh', gv.sort())
            return s, [(hk, k) for hk, k, _ in chains]
        # rounds: find the modified set
        for rnd in range(4):
            heads = {}
            changed = False
            work = [st0]
            visited = set()
            while work:
                s = work.pop()
                sg = signature(s)
                if sg in visited and rnd > 0: continue
                if sg in visited: continue
                visited.add(sg)
                h, chains = canon(s, sg)
                back, _ = dry(h)
                for b in back:
                    if note_changes(h, b): changed = True
                    bs = signature(b)
                    for k in [x[0] for x in bs if x[1] == 'cell']:
                        c = b.locals[self.resolve(b, b.vars[k]).id]
                        for fk, v in c.fields.items():
                            if fk == (0, 1): continue
                            v = self.resolve(b, v); cv = consts.get((k, fk), 'unset')
                            if isinstance(cv, str): pass
                            elif cv is not None and not self.same_val(cv, v): consts[(k, fk)] = None; changed = True
                    if bs not in visited: work.append(b)
            if not changed: break
        # Houdini
        entry_sv = st0
        heads = {}
        def cand_set(s, chains):
            return self.candidates(s, st0, mod, chains, lmod, hmod)
        def add_head(s, sg, origin):
            h, chains = canon(s, sg)
            cands = cand_set(h, chains)
            sv = self.sv_for(s, st0, chains)
            keep = self.filter(s, sv, cands)
            heads[sg] = dict(sig=sg, tmpl=s, chains=chains, cands=keep)
        sg0 = signature(st0)
        add_head(st0, sg0, None)
        for it in range(40):
            changed = False
            for sg in list(heads):
                hd_ = heads[sg]
                h, chains = canon(hd_['tmpl'], sg)
                svh = self.sv_for(h, st0, chains)
                ids = set()
                for nm, c in hd_['cands']:
                    f = c(svh)
                    if f is not None and f.get_id() not in ids: ids.add(f.get_id()); h.assume(f)
                back, _ = dry(h)
                for b in back:
                    bs = signature(b)
                    if bs not in heads:
                        add_head(b, bs, sg); changed = True; continue
                    tgt = heads[bs]
                    svb = self.sv_for(b, st0, tgt['chains'])
                    keep = self.filter(b, svb, tgt['cands'])
                    if len(keep) != len(tgt['cands']): tgt['cands'] = keep; changed = True
            if not changed: break
        else: raise Unsupported('loop invariants do not stabilise')
        # final pass
        out = []
        for sg, hd_ in heads.items():
            h, chains = canon(hd_['tmpl'], sg)
            svh = self.sv_for(h, st0, chains)
            for nm, c in hd_['cands']:
                f = c(svh)
                if f is not None: h.assume(f)
            if not self.quiet:
                self.obls.append(Obl(self.cur, 'loop invariant (%d conjuncts) established and preserved' % len(hd_['cands']), self.loc(n), True, 0))
                self.log('  inv', self.cur, self.loc(n), [nm for nm, _ in hd_['cands']])
            back, exits = step(h, True)
            out += exits
        return out
    def same_entry(self, k, v, st0):
        w = self.resolve(st0, st0.vars.get(k)) if k in st0.vars else None
        return isinstance(w, LRef) and w.id == v.id
    def same_val(self, a, b):
        if a is b: return True
        if isinstance(a, LRef) and isinstance(b, LRef): return a.id == b.id
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return z3.eq(a, b)
        return a == b if isinstance(a, int) and isinstance(b, int) else False
    def stable(self, r, stamp):
        """a reference term that does not depend on anything the loop changes: all its symbols exist before the loop"""
        stack = [r]
        while stack:
            x = stack.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nme = x.decl().name()
                m = re.search(r'!(\d+)$', nme)
                if m and int(m.group(1)) >= stamp[0]: return False
                for m in re.findall(r'#(\d+)', nme):
                    if int(m) > stamp[1]:
                        # a root field version met for the first time inside the loop is the entry version
                        if not any(fv.id.endswith('#' + m) for fv in logic._roots.values()): return False
            stack += x.children()
        return True
    def chain(self, st, a, b):
        """contents (L term) of the cells from a up to, not including, b; None if b is not reached"""
        items = []; cur = a; n = 0
        while cur != b:
            o = st.locals.get(cur)
            if o is None or n > 20: return None
            n += 1
            if o.seg: items.append(('seg', o.seg[0])); cur = o.seg[1]; continue
            if o.tag() != PAIR and not (isinstance(o.tag(), z3.ExprRef) and z3.is_int_value(o.tag()) and o.tag().as_long() == PAIR): return None
            items.append(('car', o.fields.get((8, 8))))
            nx = self.resolve(st, o.fields.get((16, 8)))
            if not isinstance(nx, LRef): return None
            cur = nx.id
        S = nil
        for k, v in reversed(items):
            if k == 'seg': S = app(v, S) if not z3.eq(S, nil) else v
            else: S = cons(self.term(st, v), S)
        return S
    def sv_for(self, s, entry, chains):
        ch = {}
        for hk, k in chains:
            a, b = self.resolve(s, s.vars[hk]), self.resolve(s, s.vars[k])
            if not (isinstance(a, LRef) and isinstance(b, LRef)): continue
            S = self.chain(s, a.id, b.id)
            if S is None: continue
            car = s.locals[b.id].fields.get((8, 8))
            cdr = s.locals[b.id].fields.get((16, 8))
            ch[(hk, k)] = (S, self.term(s, car), cdr)
        return SV(self, s, entry, ch)
    def filter(self, s, sv, cands):
        insts = []
        for nm, c in cands:
            try: f = c(sv)
            except (TypeError, z3.Z3Exception): f = None   # a variable of the candidate has no value here
            if f is None: continue
            insts.append(((nm, c), f))
        if not insts: return []
        if not self.P.feasible(s.path): return [x for x, _ in insts]
        groups = {}
        for x, f in insts: groups.setdefault(f.get_id(), (f, []))[1].append(x)
        uniq = [((gi,), f) for gi, (f, _) in groups.items()]
        def rec(xs):
            if not xs: return []
            g = And(*[f for _, f in xs])
            if self.P.entails(s.path, g, None, 800 if len(xs) == 1 else 1000): return xs
            if len(xs) == 1: return []
            m = len(xs) // 2
            return rec(xs[:m]) + rec(xs[m:])
        ok = {k[0] for k, _ in rec(uniq)}
        return [x for x, f in insts if f.get_id() in ok]
    def candidates(self, h, entry, mod, chains, lmod, hmod):
        ints = [k for k in h.vars if self.vtypes.get(k) in INT_RANGES and isinstance(h.vars[k], z3.ExprRef)]
        ptrs = [k for k in h.vars if self.is_ptr(self.vtypes.get(k, '')) and isinstance(self.resolve(h, h.vars[k]), z3.ExprRef)]
        mi = [k for k in ints if k in mod]; mp = [k for k in ptrs if k in mod]
        cs = []
        def add(nm, f): cs.append((nm, f))
        nmz = lambda k: self.vnames.get(k, '?')
        for k in mi:
            e = entry.vars[k]
            if isinstance(e, z3.ExprRef):
                add('%s>=entry' % nmz(k), lambda sv, k=k, e=e: sv.term(k) >= e)
                add('%s<=entry' % nmz(k), lambda sv, k=k, e=e: sv.term(k) <= e)
            add('%s>=0' % nmz(k), lambda sv, k=k: sv.term(k) >= 0)
            add('%s>=-1' % nmz(k), lambda sv, k=k: sv.term(k) >= -1)
            for j in ints:
                if j != k and (j not in mod or str(j) > str(k)):
                    add('%s<=%s' % (nmz(k), nmz(j)), lambda sv, k=k, j=j: sv.term(k) <= sv.term(j))
                    add('%s>=%s' % (nmz(k), nmz(j)), lambda sv, k=k, j=j: sv.term(k) >= sv.term(j))
        for k in mp:
            e = entry.vars[k]
            if isinstance(e, z3.ExprRef):
                add('%s=entry' % nmz(k), lambda sv, k=k, e=e: (sv.term(k) == e) if sv.term(k) is not None else None)
        info = CandInfo(self, h, entry, mod, ints, ptrs, mi, mp, chains, lmod, hmod, self.entry_args, self.entry_view, self.entry_st)
        for t in self.mode.inv:
            for nm, f in t(info): add(nm, f)
        return cs
    # -------------------------------------------------- verification of one function
    def run_body(self, fn, st):
        saved = getattr(self, 'curbody', None)
        self.curbody = cast.body(fn)
        try: return self.ex(self.curbody, st)
        finally: self.curbody = saved
    def verify(self, name, fn=None):
        c = self.contracts[name]
        fn = fn or (self.prog.tu(c.file).funcs.get(name) if c.file else self.prog.find_any(name))
        if fn is None: raise Unsupported('function %s is not defined any more' % name)
        self.mode = c; self.cur = name; self.curtu = fn['_tu']; self.frame = next(self.cnt)
        self.vtypes = {}; self.vnames = {}; self.callstack = [name]; self.errs = []
        self.P.depth, self.P.timeout = c.depth, c.timeout
        self.P.opaque = c.opaque if self.P.scale == 1 else set()
        n0 = len(self.obls)
        st = State()
        st.na = z3.Int('NA0'); st.assume(st.na >= 100000)
        st.ghost['na0'] = st.na
        args = []
        for i, p in enumerate(cast.params(fn)):
            t = self.ctype(p)
            v = z3.Int('arg%d_%s' % (i, name))
            st.assume(*self.range_facts(v, t))
            if self.is_ptr(t): st.assume(v >= 0, v <= st.na)
            args.append(v)
            self.bind(st, p, PV(v, 0, 'buf') if t == 'char*' or i in c.bufargs else v)
        pre = st.view()
        cx = Ctx(self, args, pre, pre, None, st, st.na)
        if c.params and 'init' in c.params: c.params['init'](self, st, args)
        cx.ghost0 = dict(st.ghost)
        if c.requires:
            for nm, g in c.requires(cx): st.assume(g)
        # vacuity: the precondition must be satisfiable as far as the solver can tell
        r = self.P.check(st.path, None, 2000)
        self.obls.append(Obl(name, 'precondition is not contradictory', self.loc(fn), r != z3.unsat, 0))
        self.entry_args, self.entry_view, self.entry_st = args, pre, st.clone()
        ghost0 = dict(st.ghost)
        outs = self.run_body(fn, st)
        nret = 0
        for s, o in outs:
            if o[0] == 'ret': v = o[1]
            elif o[0] == 'next': v = None
            else: raise Unsupported('outcome %r' % (o,))
            if self.P.check(s.path, None, 1000) == z3.unsat: continue
            nret += 1
            res = None
            if v is not None:
                if isinstance(v, z3.ExprRef) and z3.is_bool(v): v = If(v, IV(1), IV(0))
                res = self.term(s, v)
            cx = Ctx(self, args, pre, s.view(), res, s, z3.Int('NA0')); cx.ghost0 = ghost0
            if c.ensures:
                for nm, g in c.ensures(cx): self.oblige(s, g, 'postcondition: ' + nm)
            self.frame_check(c, cx, s)
        nerr = 0
        for s, who, line in self.errs:
            if self.P.check(s.path, None, 1000) == z3.unsat: continue
            nerr += 1
            self.curline = line
            if c.errs is None: self.oblige(s, lit(False), 'no error is raised (%s)' % who)
            else:
                cx = Ctx(self, args, pre, s.view(), None, s, z3.Int('NA0')); cx.ghost0 = ghost0
                for nm, g in c.errs(cx) or []: self.oblige(s, g, 'error condition: %s (%s)' % (nm, who))
        if nret == 0 and not c.noreturn and nerr == 0:
            self.obls.append(Obl(name, 'some exit of the function is reachable', self.loc(fn), False, 0, 'every path is infeasible'))
        return self.obls[n0:]
    def frame_check(self, c, cx, s):
        """fields written on objects that existed at entry must be declared"""
        allowed = {}
        if c.modifies:
            for f, at in c.modifies(Ctx(self, cx.args, cx.pre, cx.pre, None, s, cx.na0)):
                allowed.setdefault(f, []).append(at)
        for f, fv in s.heap.items():
            base = self.entry_st.heap.get(f) or ROOTS(f)
            if fv is base: continue
            if f in allowed and any(a is None for a in allowed[f]): continue
            x = fv; ats = []
            while x is not None and x is not base: ats.append(x); x = x.parent
            z = self.fresh('any')
            ex = [z > 0, z <= cx.na0]
            for a in allowed.get(f, []):
                ex.append(Not(a(z)) if callable(a) else z != a)
            s2 = s.clone(); s2.assume(*ex)
            self.oblige(s2, fv.read(z) == base.read(z), 'frame: %s of pre-existing objects unchanged' % f)

class CandInfo:
    def __init__(self, eng, h, entry, mod, ints, ptrs, mi, mp, chains, lmod, hmod, args, pre, est):
        self.eng, self.h, self.entry, self.mod = eng, h, entry, mod
        self.ints, self.ptrs, self.mi, self.mp, self.chains = ints, ptrs, mi, mp, chains
        self.lmod, self.hmod, self.args, self.pre, self.est = lmod, hmod, args, pre, est
    def name(self, k): return self.eng.vnames.get(k, '?')

bufsize = z3.Function('bufsize', I, I)
wsize = z3.Function('wsize', I, I)      # bytes of a block of words
wbytes = z3.Function('wbytes', I, ARR)      # the bytes of a word (some fixed function of its value)
envsize = z3.Function('envsize', I, I)
word_at = z3.Function('word_at', I, I)
_symc = {}
def symconst(name):
    return gconst(name)
@recdef('cquo', [I, I], I)
def cquo(v, a, b): return lambda t: _divfacts(a, b)
@recdef('crem', [I, I], I)
def crem(v, a, b): return lambda t: _divfacts(a, b)
def _divfacts(a, b):
    """C division truncates towards zero: a = b*q + r, |r| < |b|, r has the sign of a"""
    q, r = cquo(a, b), crem(a, b); ab = If(b > 0, b, -b)
    return [Implies(b != 0, And(a == b * q + r, r < ab, -r < ab, Implies(a >= 0, r >= 0), Implies(a <= 0, r <= 0),
                                Implies(b == 1, q == a), Implies(b == -1, q == -a), Implies(And(a >= 0, b > 0), And(q >= 0, q <= a))))]
def tdiv(a, b):
    if z3.is_int_value(b): return If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
    return cquo(a, b)
def trem(a, b):
    if z3.is_int_value(b): return If(a >= 0, If(b > 0, a % b, a % (-b)), If(b > 0, -((-a) % b), -((-a) % (-b))))
    return crem(a, b)
band = z3.Function('band', I, I, I); bor = z3.Function('bor', I, I, I); bxor = z3.Function('bxor', I, I, I)
bshl = z3.Function('bshl', I, I, I); bshr = z3.Function('bshr', I, I, I)

SEGLAWS = []      # extra facts when a list segment is published
WRITELAWS = []    # frame lemmas for recursive views at a heap write

# ------------------------------------------------------------------ models of external functions
BUILTINS = {}
def builtin(*names):
    def deco(f):
        for n in names: BUILTINS[n] = f
        return f
    return deco
@builtin('GC_malloc')
def b_malloc(e, args, st, n): return [(st, e.new_local(st, z3.simplify(e.term(st, args[0])), zero=True))]
@builtin('GC_malloc_atomic')
def b_malloca(e, args, st, n): return [(st, e.new_local(st, z3.simplify(e.term(st, args[0])), zero=False, atomic=True))]
def b_error(e, args, st, n):
    e.on_error(st, n, 'error')
    return []
for _n in ('minim_error', 'minim_error1', 'minim_error2', 'minim_error3', 'bad_syntax_exn', 'bad_type_exn',
           'arity_mismatch_exn', 'result_arity_exn', 'exit', 'minim_shutdown', 'abort'):
    BUILTINS[_n] = b_error
@builtin('fprintf', 'printf')
def b_print(e, args, st, n): return [(st, e.fresh('pr'))]
@builtin('strlen')
def b_strlen(e, args, st, n):
    p = args[0]
    b, off = (p.base, p.off) if isinstance(p, PV) else (p, 0)
    return [(st, e.strlen(st, b, off))]
def _strlen(self, st, b, off):
    pub = st.ghost.get('pub', {})
    if isinstance(b, LRef) and b.id not in pub:
        o = st.locals[b.id]
        if o.elembase != 'buf': raise Unsupported('strlen of raw object')
        a = o.elems
    else:
        a = st.f('BUF[]').read(self.term(st, b))
    off = self.zint(off)
    r = self.fresh('strlen')
    k = z3.Int('k!s')
    st.assume(r >= 0, r < OBJMAX, z3.Select(a, off + r) == 0,
              ForAll([k], Implies(And(off <= k, k < off + r), z3.Select(a, k) != 0), patterns=[z3.Select(a, k)]))
    return r
VC.strlen = _strlen
