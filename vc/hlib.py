"""Replay library: /repo's current core sources as a shared object, driven from Python.

Runs inside a worker process (see oracle.py); every call of the real code is guarded, so that
error exits, crashes (AddressSanitizer) and hangs become outcomes instead of losing the check."""
import ctypes, os, subprocess, sys
from . import cast

def build(outdir, asan=True):
    """Compile /repo's current sources (scratch copy) into a shared library; -> path."""
    d = cast.workdir()
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness')
    inc = os.path.join(outdir, 'inc'); os.makedirs(os.path.join(inc, 'boehm-gc/include'), exist_ok=True)
    with open(os.path.join(here, 'gc_shim.h')) as f, open(os.path.join(inc, 'boehm-gc/include/gc.h'), 'w') as g: g.write(f.read())
    os.makedirs(os.path.join(d, 'vh'), exist_ok=True)
    with open(os.path.join(here, 'shim.c')) as f, open(os.path.join(d, 'vh/shim.c'), 'w') as g: g.write(f.read())
    srcs = [os.path.join(d, 'src/core/c', f) for f in sorted(os.listdir(os.path.join(d, 'src/core/c'))) if f.endswith('.c')]
    srcs += [os.path.join(d, 'src/boot/c', f) for f in sorted(os.listdir(os.path.join(d, 'src/boot/c'))) if f.endswith('.c') and f != 'minim.c']
    srcs.append(os.path.join(d, 'vh/shim.c'))
    flags = ['-std=gnu11', '-O1', '-g', '-w', '-fPIC', '-fno-omit-frame-pointer', '-Dexit=vh_exit', '-I' + inc]
    if asan: flags += ['-fsanitize=address']
    procs = []; objs = []
    for i, s in enumerate(srcs):
        o = os.path.join(outdir, 'o%d.o' % i); objs.append(o)
        procs.append((s, subprocess.Popen(['gcc'] + flags + ['-c', s, '-o', o], stderr=subprocess.PIPE)))
    for s, p in procs:
        _, err = p.communicate()
        if p.returncode: raise RuntimeError('cannot compile %s: %s' % (s, err.decode()[:600]))
    so = os.path.join(outdir, 'libreplay.so')
    r = subprocess.run(['gcc', '-shared', '-o', so] + objs + (['-fsanitize=address'] if asan else []), capture_output=True)
    if r.returncode: raise RuntimeError('cannot link the replay library: ' + r.stderr.decode()[:600])
    return so

U = ctypes.c_uint64
M64 = (1 << 64) - 1
def s64(x): x &= M64; return x - (1 << 64) if x >> 63 else x
def s32(x): x &= 0xffffffff; return x - (1 << 32) if x >> 31 else x

class Err(Exception):
    """error exit of the code under test"""
class Missing(Exception): pass
TN = ['SPECIAL', 'CHAR', 'FIXNUM', 'SYMBOL', 'STRING', 'PAIR', 'VECTOR', 'CLOSURE', 'PORT', 'RECORD', 'BOX', 'HASHTABLE', 'SYNTAX', 'ENV', 'TOPENV', 'CONTINUATION', 'CODE']
SING = {'nil': 'minim_null', 'true': 'minim_true', 'false': 'minim_false', 'void': 'minim_void', 'eof': 'minim_eof', 'unbound': 'minim_unbound', 'values': 'minim_values', 'emptyvec': 'minim_empty_vec', 'basertd': 'minim_base_rtd'}

def L(*xs, tail='nil'):
    r = tail
    for x in reversed(xs): r = ['p', x, r]
    return r
def unl(v):
    out = []
    while isinstance(v, list) and v and v[0] == 'p': out.append(v[1]); v = v[2]
    return out, v

class Lib:
    def __init__(self, path, quiet=True):
        self.l = ctypes.CDLL(path, mode=ctypes.RTLD_GLOBAL)
        for n in ('vh_type vh_car vh_cdr vh_fixnum vh_char vh_symbol vh_string vh_vlen vh_unbox vh_syntax_e vh_syntax_loc vh_rec_count vh_rec_rtd '
                  'vh_ht_buckets vh_ht_alloc vh_ht_count vh_te_buckets vh_te_alloc vh_te_count vh_code_len vh_code_arity vh_code_reloc vh_clo_env '
                  'vh_clo_code vh_clo_name vh_clo_count').split():
            f = getattr(self.l, n); f.argtypes = [U]; f.restype = U
        for n in 'vh_vref vh_rec_ref vh_clo_ref vh_code_ref'.split():
            f = getattr(self.l, n); f.argtypes = [U, ctypes.c_long]; f.restype = U
        for n in 'vh_vset vh_rec_set vh_clo_set vh_code_set'.split():
            f = getattr(self.l, n); f.argtypes = [U, ctypes.c_long, U]; f.restype = None
        for n in 'vh_set_car vh_set_cdr vh_set_unbox vh_set_clo_name vh_set_code_arity vh_set_code_reloc'.split():
            f = getattr(self.l, n); f.argtypes = [U, U]; f.restype = None
        self.l.vh_intern.argtypes = [ctypes.c_char_p]; self.l.vh_intern.restype = U
        self.l.vh_string_n.argtypes = [ctypes.c_char_p, ctypes.c_long]; self.l.vh_string_n.restype = U
        self.l.vh_call.argtypes = [U, ctypes.c_int, ctypes.POINTER(U), ctypes.POINTER(U)]; self.l.vh_call.restype = ctypes.c_int
        self.l.vh_errtext.restype = ctypes.c_char_p
        self.l.vh_tc.restype = U
        self.l.vh_tc_values.argtypes = [ctypes.c_long]; self.l.vh_tc_values.restype = U; self.l.vh_tc_vc.restype = U
        self.l.vh_fmem_r.argtypes = [ctypes.c_char_p, ctypes.c_long]; self.l.vh_fmem_r.restype = U
        self.l.vh_fmem_w.restype = U
        self.l.vh_fmem_len.argtypes = [U]; self.l.vh_fmem_len.restype = ctypes.c_long
        self.l.vh_fmem_buf.argtypes = [U]; self.l.vh_fmem_buf.restype = U
        self.l.vh_fclose.argtypes = [U]; self.l.vh_ftell.argtypes = [U]; self.l.vh_ftell.restype = ctypes.c_long
        self.l.vh_init(1 if quiet else 0)
        self.sing = {k: self.glob(v) for k, v in SING.items()}
        self.rsing = {v: k for k, v in self.sing.items()}
        self.fn = {}
        self.booted = False
        self.keep = []
    def glob(self, n): return U.in_dll(self.l, n).value
    def addr(self, name):
        if name not in self.fn:
            try: self.fn[name] = ctypes.cast(getattr(self.l, name), ctypes.c_void_p).value
            except AttributeError: raise Missing(name)
        return self.fn[name]
    def call(self, name, *args, raw=False):
        a = (U * max(1, len(args)))(*[x & M64 for x in args]); r = U()
        self.l.vh_errclear()
        if self.l.vh_call(self.addr(name), len(args), a, ctypes.byref(r)):
            raise Err(self.l.vh_errtext().decode('latin1')[:300])
        return r.value
    def icall(self, name, *args): return s32(self.call(name, *args))
    def lcall(self, name, *args): return s64(self.call(name, *args))
    def cstr(self, b):
        s = ctypes.create_string_buffer(b); self.keep.append(s); return ctypes.addressof(s)
    # ---- values
    def mk(self, v):
        if isinstance(v, bool): return self.sing['true' if v else 'false']
        if isinstance(v, int): return self.call('Mfixnum', v)
        if isinstance(v, str): return self.sing[v]
        t = v[0]
        if t == 'p':
            # iterative along the cdr
            items, tailv = unl(v)
            r = self.mk(tailv)
            for x in reversed(items): r = self.call('Mcons', self.mk(x), r)
            return r
        if t == 'c': return self.call('Mchar', v[1])
        if t == 'sym': return self.l.vh_intern(v[1].encode('latin1'))
        if t == 's': b = v[1].encode('latin1'); return self.l.vh_string_n(b, len(b))
        if t == 'v':
            if not v[1] : return self.call('Mvector', 0, 0)
            xs = [self.mk(x) for x in v[1]]
            o = self.call('Mvector', len(xs), self.sing['nil'])
            for i, x in enumerate(xs): self.l.vh_vset(o, i, x)
            return o
        if t == 'box': return self.call('Mbox', self.mk(v[1]))
        if t == 'stx': return self.call('Msyntax', self.mk(v[1]), self.mk(v[2]))
        if t == 'ptr': return v[1]
        raise ValueError(v)
    def tname(self, p):
        t = self.l.vh_type(p)
        return TN[t] if t < len(TN) else 'BAD%d' % t
    def rd(self, p, fuel=None):
        """structural value; pairs read iteratively along the cdr"""
        if fuel is None: fuel = [200000]
        fuel[0] -= 1
        if fuel[0] < 0: raise ValueError('structure too large (cyclic?)')
        if p == 0: return 'NULLPTR'
        if p in self.rsing:
            r = self.rsing[p]
            return ['v', []] if r == 'emptyvec' else True if r == 'true' else False if r == 'false' else r
        t = self.tname(p); l = self.l
        if t == 'FIXNUM': return s64(l.vh_fixnum(p))
        if t == 'CHAR': return ['c', s64(l.vh_char(p))]
        if t == 'SYMBOL': return ['sym', ctypes.string_at(l.vh_symbol(p)).decode('latin1')]
        if t == 'STRING': return ['s', ctypes.string_at(l.vh_string(p)).decode('latin1')]
        if t == 'PAIR':
            items = []
            while p not in self.rsing and p != 0 and self.tname(p) == 'PAIR':
                items.append(self.rd(l.vh_car(p), fuel)); p = l.vh_cdr(p); fuel[0] -= 1
                if fuel[0] < 0: raise ValueError('structure too large (cyclic?)')
            r = self.rd(p, fuel)
            for x in reversed(items): r = ['p', x, r]
            return r
        if t == 'VECTOR': return ['v', [self.rd(l.vh_vref(p, i), fuel) for i in range(l.vh_vlen(p))]]
        if t == 'BOX': return ['box', self.rd(l.vh_unbox(p), fuel)]
        if t == 'SYNTAX': return ['stx', self.rd(l.vh_syntax_e(p), fuel), self.rd(l.vh_syntax_loc(p), fuel)]
        return ['obj', t]
    def lst(self, p):
        out = []
        while p not in self.rsing and self.tname(p) == 'PAIR': out.append(self.l.vh_car(p)); p = self.l.vh_cdr(p)
        return out, p
    # ---- interpreter
    def boot(self):
        if not self.booted:
            tc = self.l.vh_tc()
            self.call('load_prelude', tc)
            self.booted = True
            self.l.vh_tc_save()
    def read_text(self, text):
        b = text.encode('latin1'); self.keep.append(b)
        f = self.l.vh_fmem_r(b, len(b))
        try: return self.call('read_object', f)
        finally: self.l.vh_fclose(f)
    def eval(self, text):
        """value of a Scheme expression in the booted prelude environment (raises Err on an error)"""
        self.boot()
        e = self.read_text(text)
        tc = self.l.vh_tc()
        try:
            self.call('check_expr', e)
            return self.call('eval_expr', tc, e)
        except Err:
            self.l.vh_tc_restore(); raise
