"""Registry: property -> contracts to prove."""
import importlib, os
class Spec:
    def __init__(self, contracts, targets, extra=None, trusted=(), assume=()):
        self.contracts, self.targets, self.extra, self.trusted, self.assume = contracts, list(targets), dict(extra or {}), trusted, assume
REG = {}        # pid -> factory
OWNER = {}      # function -> property whose check proves its contract
def spec(pid):
    def deco(f): REG[pid] = f; return f
    return deco
_loaded = False
def load():
    global _loaded
    if _loaded: return
    _loaded = True
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'): importlib.import_module('vc.specs.' + f[:-3])
_cache = {}
def get(pid):
    load()
    if pid not in REG: return None
    for p in sorted(REG):
        if p not in _cache:
            _cache[p] = s = REG[p]()
            for t in s.targets: OWNER.setdefault(t, p)
    return _cache[pid]
def plain(pid, C, uses=(), **k):
    """contracts C proved here; uses: contract dicts of other properties, for calls"""
    allc = {}
    for u in uses: allc.update(u)
    allc.update(C)
    return Spec(allc, [n for n in C if not C[n].trusted], **k)
