"""Shared input generators."""
from ..hlib import L, unl
import itertools
FX = [0, 1, -1, 2, 3, -2, 7, 10, 100, -100, 255, 256, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**53, 2**62, 2**63 - 1, -2**63, -2**63 + 1, 2**62 - 1, 1 << 40]
def atom(rng):
    k = rng.randrange(9)
    if k == 0: return rng.choice(FX)
    if k == 1: return rng.randrange(-5, 6)
    if k == 2: return ['c', rng.choice([0, 1, 10, 32, 65, 97, 127])]
    if k == 3: return ['sym', rng.choice(['a', 'b', 'foo', 'x-y', 'lambda', '+'])]
    if k == 4: return ['s', ''.join(rng.choice('abc "\\\n') for _ in range(rng.randrange(0, 6)))]
    return rng.choice([True, False, 'nil', 'void', 1, ['v', []]])
def tree(rng, d):
    if d <= 0: return atom(rng)
    k = rng.randrange(8)
    if k < 3: return atom(rng)
    if k < 5: return ['p', tree(rng, d - 1), tree(rng, d - 1)]
    if k == 5: return ['v', [tree(rng, d - 1) for _ in range(rng.randrange(0, 4))]]
    if k == 6: return ['box', tree(rng, d - 1)]
    return L(*[tree(rng, d - 1) for _ in range(rng.randrange(0, 4))])
def lists(rng, maxlen, n, big=()):
    for k in range(maxlen + 1): yield [i + 1 for i in range(k)]
    for _ in range(n): yield [atom(rng) for _ in range(rng.randrange(0, 12))]
    for b in big: yield list(range(b))
def N(tier, q, t): return t if tier == 'thorough' else q
