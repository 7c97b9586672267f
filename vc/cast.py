"""Extraction: the real sources of /repo through clang's JSON AST, on every run.

What the extraction drops: preprocessing (macros are expanded by clang exactly as for the
compiler), comments and layout. Nothing else: the function bodies are interpreted node by node.
"""
import json, os, shutil, subprocess, tempfile, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
_work = None

def workdir():
    """A scratch copy of /repo/src with the generated config headers (never written in /repo)."""
    global _work
    if _work: return _work
    d = tempfile.mkdtemp(prefix='vcsrc.')
    import atexit
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(d, ignore_errors=True))
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'),
                    ignore=shutil.ignore_patterns('*.o', '*.a', 'build', 'boehm-gc'))
    for sub, txt in (('src/core', '#define MINIM_X86_64 1\n#define PRELUDE_PATH "%s/src/core/s/prelude.min"\n' % d),
                     ('src/boot', '#define BOOT_DIR "%s/src/boot/s/"\n' % d),
                     ('src/gc', '// #define USE_MINIM_GC 1\n')):
        os.makedirs(os.path.join(d, sub, 'build'), exist_ok=True)
        with open(os.path.join(d, sub, 'build/config.h'), 'w') as f: f.write(txt)
    os.makedirs(os.path.join(d, 'shim/boehm-gc'))
    os.symlink('/usr/include', os.path.join(d, 'shim/boehm-gc/include'))
    _work = d
    return d

class TU:
    def __init__(self, path):
        self.path = path
        d = workdir()
        r = subprocess.run(['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-std=c11', '-w',
                            '-I' + os.path.join(d, 'shim'), os.path.join(d, path)],
                           capture_output=True)
        if not r.stdout.strip():
            raise RuntimeError('clang cannot parse %s: %s' % (path, r.stderr.decode()[:500]))
        if r.returncode != 0:
            raise RuntimeError('clang errors in %s: %s' % (path, r.stderr.decode()[:800]))
        self.root = json.loads(r.stdout)
        self.funcs = {}; self.globals = {}; self.records = {}; self.typedefs = {}; self.enums = {}
        for n in self.root['inner']:
            k = n['kind']
            if k == 'FunctionDecl':
                if any(c['kind'] == 'CompoundStmt' for c in n.get('inner', [])):
                    n['_tu'] = self
                    self.funcs[n['name']] = n
            elif k == 'VarDecl':
                if n['name'] not in self.globals or 'init' in n:
                    self.globals[n['name']] = n
            elif k == 'RecordDecl':
                if n.get('completeDefinition'): self.records[n.get('name') or n['id']] = n
            elif k == 'TypedefDecl':
                self.typedefs[n['name']] = n['type'].get('desugaredQualType', n['type']['qualType'])
            elif k == 'EnumDecl':
                v = 0
                for c in n.get('inner', []):
                    if c['kind'] == 'EnumConstantDecl':
                        x = find_const(c)
                        if x is not None: v = x
                        self.enums[c['name']] = v
                        v += 1

def find_const(n):
    if n.get('kind') == 'ConstantExpr' and 'value' in n:
        try: return int(n['value'])
        except ValueError: return None
    for c in n.get('inner', []):
        r = find_const(c)
        if r is not None: return r
    return None

class Program:
    """All translation units needed, parsed lazily."""
    CORE = ['box', 'char', 'check', 'env', 'error', 'eval', 'fasl', 'frame', 'global', 'hashtable', 'io', 'jit',
            'jitanalyze', 'jitcommon', 'jitcompile', 'jitopt', 'jitprims', 'list', 'number', 'object', 'prim',
            'print', 'procedure', 'read', 'record', 'string', 'symbol', 'syntax', 'system', 'thread', 'vector']
    def __init__(self, files=None, dirs=('src/core/c',)):
        self.tus = {}
        d = workdir()
        self.files = []
        if files is None:
            for dd in dirs:
                for f in sorted(os.listdir(os.path.join(d, dd))):
                    if f.endswith('.c'): self.files.append(dd + '/' + f)
        else: self.files = list(files)
        self._find = {}
    def tu(self, path):
        if path not in self.tus: self.tus[path] = TU(path)
        return self.tus[path]
    def load_all(self):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex: list(ex.map(self.tu, self.files))
    def preload(self): self.load_all()
    def func(self, name, tu=None):
        """Function definition visible under this name from translation unit tu."""
        if tu is not None and name in tu.funcs: return tu.funcs[name]
        for f in self.files:
            t = self.tu(f)
            if name in t.funcs and t.funcs[name].get('storageClass') != 'static': return t.funcs[name]
        return None
    def find_any(self, name):
        for f in self.files:
            t = self.tu(f)
            if name in t.funcs: return t.funcs[name]
        return None

def params(fn): return [c for c in fn.get('inner', []) if c['kind'] == 'ParmVarDecl']
def body(fn): return [c for c in fn['inner'] if c['kind'] == 'CompoundStmt'][0]
def digest(fn):
    def strip(n):
        if isinstance(n, dict):
            return {k: strip(v) for k, v in n.items() if k in ('kind', 'name', 'opcode', 'castKind', 'value', 'type', 'inner')}
        if isinstance(n, list): return [strip(x) for x in n]
        return n
    return hashlib.sha256(json.dumps(strip({k: v for k, v in fn.items() if k != '_tu'}), sort_keys=True).encode()).hexdigest()[:16]
