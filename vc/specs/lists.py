from .common import *
import itertools
from .. import engine

def pathof(name): return name[1:-1][::-1]       # cadr -> 'da' read right to left
def follow(v, x, ops):
    for c in ops: x = v.read('PAIR.car' if c == 'a' else 'PAIR.cdr', x)
    return x

def eqp_contract():
    return Contract('minim_eqp', None, lambda x: [('same object, equal characters or equal fixnums', (x.res != 0) == eqv(x.pre, x.a(0), x.a(1)))], result='int')

def C03():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    C['minim_eqp'] = eqp_contract()
    arglist = lambda x: [('list', proper(x.pre, x.a(0)))]
    c('list_reverse', arglist,
      lambda x: [('reversed', lst(x.post, x.res) == revapp(lst(x.pre, x.a(0)), nil)), ('list', proper(x.post, x.res))],
      inv=[t_tail, t_rev])
    c('copy_list', arglist,
      lambda x: [('same elements', lst(x.post, x.res) == lst(x.pre, x.a(0))), ('list', proper(x.post, x.res)),
                 ('fresh cells', Implies(x.a(0) != NULLC, fresh_ref(x, x.res)))],
      inv=[t_tail, t_copy])
    c('list_append2', arglist,
      lambda x: [('concatenated', lst(x.post, x.res) == app(lst(x.pre, x.a(0)), lst(x.pre, x.a(1)))),
                 ('tail', tail(x.post, x.res) == tail(x.pre, x.a(1))), ('second list when first is empty', Implies(x.a(0) == NULLC, x.res == x.a(1)))],
      inv=[t_tail, t_copy])
    c('list_length', None, lambda x: [('number of cells', x.res == length(lst(x.pre, x.a(0))))], result='long', inv=[t_tail, t_len])
    c('length_proc', None, lambda x: [('length', And(tag(x.res) == T['FIXNUM'], x.post.read('FIXNUM.v', x.res) == length(lst(x.pre, x.a(0)))))])
    c('minim_listp', None, lambda x: [('iff proper', (x.res != 0) == proper(x.pre, x.a(0)))], result='int', inv=[t_tail])
    c('listp_proc', None, lambda x: [('iff proper', x.res == bool_(proper(x.pre, x.a(0))))])
    c('make_list', None, lambda x: [('n copies', lst(x.post, x.res) == rep(x.a(0), x.a(1), nil)), ('list', proper(x.post, x.res))],
      inv=[t_tail, t_rep])
    c('make_list_proc', lambda x: [('length', And(tag(x.a(0)) == T['FIXNUM'], x.pre.read('FIXNUM.v', x.a(0)) >= 0))],
      lambda x: [('n copies', lst(x.post, x.res) == rep(x.pre.read('FIXNUM.v', x.a(0)), x.a(1), nil)), ('list', proper(x.post, x.res))])
    c('memq', arglist, lambda x: [('first tail with an eq? head', x.res == memqv(x.pre, x.a(0), x.a(1)))],
      inv=[t_tail, t_conserve('memq', lambda v, p, a: memqv(v, p, a[1]))])
    al = lambda x: [('list', proper(x.pre, x.a(0))), ('of pairs', allpair(lst(x.pre, x.a(0))))]
    pairs_left = t_inv('entries are pairs', lambda v, p, a: allpair(lst(v, p)))
    c('assq_ref', al, lambda x: [('first entry with an eq? key', x.res == assqv(x.pre, x.a(0), x.a(1)))],
      inv=[t_tail, pairs_left, t_conserve('assq', lambda v, p, a: assqv(v, p, a[1]))])
    def assq_inv(info):
        k, nv, s = info.args[1], info.args[2], lst(info.pre, info.args[0])
        na = info.est.na
        return (t_chainmap('keys', akeys, lambda v, s: usetk(v, s, k), usetk(info.pre, s, k))(info)
                + t_chainmap('values', avals, lambda v, s: usetv(v, s, k, nv), usetv(info.pre, s, k, nv))(info)
                + t_chainmap('entries', lambda v, s: olds(s, na), lambda v, s: useto(v, s, k), useto(info.pre, s, k))(info))
    c('assq_set', lambda x: al(x) + [('entries exist', alloc(lst(x.pre, x.a(0)), x.na0))],
      lambda x: [('keys', akeys(x.post, lst(x.post, x.res)) == usetk(x.pre, lst(x.pre, x.a(0)), x.a(1))),
                 ('values', avals(x.post, lst(x.post, x.res)) == usetv(x.pre, lst(x.pre, x.a(0)), x.a(1), x.a(2))),
                 ('other entries kept by identity', olds(lst(x.post, x.res), x.na0) == useto(x.pre, lst(x.pre, x.a(0)), x.a(1))),
                 ('entries are pairs', allpair(lst(x.post, x.res))), ('list', proper(x.post, x.res))],
      inv=[t_tail, pairs_left, assq_inv, t_inv('rest exists', lambda v, p, a: alloc(lst(v, p), z3.Int('NA0'))),
           t_chainpred('chain entries are pairs', lambda v, s: allpair(s))])
    return C

def C02():
    C = {}
    def c(name, *a, **k): C[name] = Contract(name, *a, **k)
    for n in ['car', 'cdr'] + ['c%sr' % ''.join(p) for k in (2, 3, 4) for p in itertools.product('ad', repeat=k)]:
        ops = pathof(n)
        def req(x, ops=ops): return [('path exists', And(*[tag(follow(x.pre, x.a(0), ops[:i])) == PAIR for i in range(len(ops))]))]
        c(n + '_proc', req, lambda x, ops=ops: [('the component the name spells', x.res == follow(x.pre, x.a(0), ops))])
    isp = lambda x: [('pair', tag(x.a(0)) == PAIR)]
    c('Mcons', None, lambda x: [('fresh pair', And(tag(x.res) == PAIR, fresh_ref(x, x.res))), ('car', x.post.read('PAIR.car', x.res) == x.a(0)), ('cdr', x.post.read('PAIR.cdr', x.res) == x.a(1))])
    c('set_car_proc', isp, lambda x: [('void', x.res == VOIDC), ('stored', x.post.read('PAIR.car', x.a(0)) == x.a(1))], modifies=lambda x: [('PAIR.car', x.a(0))])
    c('set_cdr_proc', isp, lambda x: [('void', x.res == VOIDC), ('stored', x.post.read('PAIR.cdr', x.a(0)) == x.a(1))], modifies=lambda x: [('PAIR.cdr', x.a(0))])
    for n in ('Mbox', 'box_proc'):
        c(n, None, lambda x: [('fresh box', And(tag(x.res) == T['BOX'], fresh_ref(x, x.res))), ('contents', x.post.read('BOX.ref', x.res) == x.a(0))])
    isb = lambda x: [('box', tag(x.a(0)) == T['BOX'])]
    c('unbox_proc', isb, lambda x: [('contents', x.res == x.pre.read('BOX.ref', x.a(0)))])
    c('box_set_proc', isb, lambda x: [('void', x.res == VOIDC), ('stored', x.post.read('BOX.ref', x.a(0)) == x.a(1))], modifies=lambda x: [('BOX.ref', x.a(0))])
    for n, tg in (('consp_proc', 'PAIR'), ('boxp_proc', 'BOX'), ('charp_proc', 'CHAR'), ('fixnump_proc', 'FIXNUM'), ('symbolp_proc', 'SYMBOL'), ('stringp_proc', 'STRING'),
                  ('vectorp_proc', 'VECTOR'), ('syntaxp_proc', 'SYNTAX'), ('hashtablep_proc', 'HASHTABLE'), ('procp_proc', 'CLOSURE'), ('environmentp_proc', 'TOPENV')):
        c(n, None, lambda x, tg=tg: [('exactly on objects of the type', x.res == bool_(tag(x.a(0)) == T[tg]))])
    for n, g in (('nullp_proc', 'minim_null'), ('voidp_proc', 'minim_void'), ('eofp_proc', 'minim_eof')):
        c(n, None, lambda x, g=g: [('exactly on the object', x.res == bool_(x.a(0) == gconst(g)))])
    c('boolp_proc', None, lambda x: [('exactly on booleans', x.res == bool_(Or(x.a(0) == TRUEC, x.a(0) == FALSEC)))])
    c('not_proc', None, lambda x: [('negation', x.res == bool_(x.a(0) == FALSEC))])
    return C

from . import spec, plain
@spec('C03')
def _(): return plain('C03', C03())
@spec('C02')
def _(): return plain('C02', C02())
