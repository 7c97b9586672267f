from ..oracle import oracle, expect, same, Fail
from ..hlib import L, unl, Err
from .gen import *
ALPH = [chr(c) for c in list(range(1, 128))]
def texts(rng, tier):
    out = ['', 'a', ' ', '"', '\\', '\n', 'hello', 'a"b\\c\n', 'x' * 24, 'x' * 25, '0', '-0', '(', '#t', ''.join(ALPH)]
    out += ['q' * n for n in (7, 8, 15, 16, 17, 31, 63, 64, 100, 255, 256, 1000)]
    for _ in range(N(tier, 60, 1500)): out.append(''.join(rng.choice(ALPH) for _ in range(rng.randrange(0, 40))))
    return out
def st(lib, p): same(lib.tname(p), 'STRING', 'type'); return lib.rd(p)[1]
@oracle('C05', 'string primitives')
def _(lib, rng, tier):
    for s in texts(rng, tier):
        def t():
            o = lib.mk(['s', s]); cs = [['c', ord(c)] for c in s]
            same(lib.rd(lib.call('string_length', o)), len(s), 'string-length')
            for i in range(len(s)) if len(s) < 140 else (0, len(s) - 1): same(lib.rd(lib.call('string_ref', o, lib.mk(i))), cs[i], 'string-ref %d' % i)
            l = lib.call('string_to_list', o); same(lib.rd(l), L(*cs), 'string->list'); same(st(lib, o), s, 'the string after string->list')
            b = lib.call('list_to_string', l); same(st(lib, b), s, 'list->string'); expect(b != o, 'list->string result is not a new string')
            same(lib.rd(l), L(*cs), 'the list after list->string'); same(lib.rd(lib.call('string_length', b)), len(s), 'length of list->string')
            y = lib.call('string_to_symbol', o); same(lib.rd(y), ['sym', s], 'string->symbol'); same(st(lib, o), s, 'the string after string->symbol')
            same(lib.call('string_to_symbol', lib.mk(['s', s])), y, 'string->symbol again')
            z = lib.call('symbol_to_string', y); same(st(lib, z), s, 'symbol->string')
            if s:
                lib.call('string_set', z, lib.mk(0), lib.mk(['c', 33])); same(lib.rd(y), ['sym', s], 'the symbol after the converted string is changed')
                lib.call('string_set', o, lib.mk(0), lib.mk(['c', 34])); same(lib.rd(y), ['sym', s], 'the symbol after its source string is changed'); same(st(lib, b), s, 'list->string result after the source is changed')
            w = lib.call('Mstring', lib.cstr(s.encode('latin1'))); same(st(lib, w), s, 'Mstring')
        yield ['string', s], t
@oracle('C05', 'string-set!')
def _(lib, rng, tier):
    for rep in range(N(tier, 80, 2000)):
        n = rng.choice([1, 2, 3, 8, 20, 100]); ops = [(rng.choice([0, n - 1, rng.randrange(n)]), rng.randrange(1, 128)) for _ in range(rng.randrange(1, 12))]
        c0 = rng.randrange(1, 128)
        def t():
            o = lib.call('make_string', lib.mk(n), lib.mk(['c', c0])); m = [chr(c0)] * n; same(st(lib, o), ''.join(m), 'make-string')
            q = lib.call('make_string', lib.mk(n), lib.mk(['c', c0]))
            for i, c in ops:
                same(lib.call('string_set', o, lib.mk(i), lib.mk(['c', c])), lib.sing['void'], 'string-set!'); m[i] = chr(c); same(st(lib, o), ''.join(m), 'contents')
                same(lib.rd(lib.call('string_ref', o, lib.mk(i))), ['c', c], 'string-ref'); same(lib.rd(lib.call('string_length', o)), n, 'length')
            same(st(lib, q), chr(c0) * n, 'another string')
        yield ['set', n, c0, ops], t
    for n in (0, 1, 2, 23, 24, 25, 100, 4096):
        for c in (1, 48, 97, 127):
            def t():
                o = lib.call('make_string', lib.mk(n), lib.mk(['c', c])); same(st(lib, o), chr(c) * n, 'make-string'); same(lib.rd(lib.call('string_length', o)), n, 'length')
                same(st(lib, lib.call('Mstring2', n, c)), chr(c) * n, 'Mstring2')
            yield ['make-string', n, c], t
NUMS = FX + [10**k for k in range(19)] + [-10**k for k in range(19)] + [10**k - 1 for k in range(1, 19)] + [-(2**63), 2**63 - 1]
@oracle('C05', 'number conversions')
def _(lib, rng, tier):
    for n in NUMS + [rng.randrange(-2**63, 2**63) for _ in range(N(tier, 200, 5000))] + [rng.randrange(-2**40, 2**40) for _ in range(100)]:
        def t():
            o = lib.mk(n); s = lib.call('number_to_string', o); same(st(lib, s), str(n), 'number->string'); same(lib.rd(o), n, 'the number afterwards')
            r = lib.call('string_to_number', s); same(lib.rd(r), n, 'string->number'); same(st(lib, s), str(n), 'the string afterwards')
            same(lib.rd(lib.call('string_length', s)), len(str(n)), 'length')
        yield ['number', n], t
@oracle('C05', 'char conversions')
def _(lib, rng, tier):
    for c in range(0, 128):
        def t():
            same(lib.rd(lib.call('char_to_integer', lib.mk(['c', c]))), c, 'char->integer'); same(lib.rd(lib.call('integer_to_char', lib.mk(c))), ['c', c], 'integer->char')
        yield ['char', c], t
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
@oracle('C05', 'library strings')
def _(lib, rng, tier):
    def e1(text, w):
        def t(): same(lib.rd(lib.eval(text)), w)
        return [text], t
    ts = ['', 'a', 'ab', 'hello world', 'a"b', 'x' * 30]
    for s in ts:
        yield e1('(string-length %s)' % q(s), len(s)); yield e1('(list->string (string->list %s))' % q(s), ['s', s])
        yield e1('(symbol->string (string->symbol %s))' % q(s), ['s', s]); yield e1('(string->list %s)' % q(s), L(*[['c', ord(c)] for c in s]))
        yield e1('(string->symbol %s)' % q(s), ['sym', s])
        for i in range(len(s)):
            yield e1('(string-ref %s %d)' % (q(s), i), ['c', ord(s[i])])
            yield e1('(let-values ([(s) (list->string (string->list %s))]) (let-values ([(r) (string-set! s %d #\\z)]) s))' % (q(s), i), ['s', s[:i] + 'z' + s[i + 1:]])
        for s2 in ts: yield e1('(string-append %s %s)' % (q(s), q(s2)), ['s', s + s2])
        yield e1('(string-append %s)' % q(s), ['s', s]); yield e1('(string-append %s %s %s "" "k")' % (q(s), q(s), q(s)), ['s', s * 3 + 'k'])
        yield e1('(equal? (string->number (number->string %d)) %d)' % (len(s) * 77 - 5, len(s) * 77 - 5), True)
    for n in (0, 1, 5, 24, 30): yield e1('(make-string %d #\\q)' % n, ['s', 'q' * n]); yield e1('(string %s)' % ' '.join(['#\\k'] * n), ['s', 'k' * n]); yield e1('(string-length (make-string %d))' % n, n)
    for n in (0, 7, -7, 123456789012, -123456789012): yield e1('(number->string (+ %d 0))' % n, ['s', str(n)]) if abs(n) < 10**9 else e1('(number->string (* %d 1000000))' % (n // 1000000), ['s', str(n // 1000000 * 1000000)])
    for s in ('0', '12', '-3', '9223372036854775807', '-9223372036854775808'): yield e1('(number->string (string->number "%s"))' % s, ['s', s])
