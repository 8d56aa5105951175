"""Models of the library functions the repository calls (std, async-std, async-process, ...)."""
import os
from program import Body
from engine import (PUSHED, UNIT, NONE, ABS, TRUE, FALSE, some, ok, err, ready, tup, Undecided, Infeasible, is_opaque)

REG = {}
FUT = {}


def reg(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


def fut(name):
    def d(f):
        FUT[name] = f
        return f
    return d


ORD = {'lt': ('a', 0, ()), 'eq': ('a', 1, ()), 'gt': ('a', 2, ())}

# ------------------------------------------------------------------ helpers


def tgt(e, st, v):
    """place behind a (possibly nested) reference"""
    a, p = e.deref(st, v)
    for _ in range(8):
        w = e.head(st, e.load(st, a, p))
        if w is not None and w[0] in ('r', 'dyn'):
            a, p = e.deref(st, w)
        else:
            break
    return a, p


def val(e, st, v):
    return e.derefv(st, v)


def seq_at(e, st, v):
    a, p = tgt(e, st, v)
    return a, p, e.as_seq(st, a, p)


def map_at(e, st, v):
    a, p = tgt(e, st, v)
    return a, p, e.as_map(st, a, p)


def seq_len(e, st, v):
    if v[0] == 's':
        return ('i', len(v[1].encode()))
    if v[0] != 'q':
        return ('t', 'len', e.norm(st, v))
    c = 0
    bases = []
    for s in v[1]:
        if s[0] == '1':
            c += 1
        elif s[1][0] == 'y' and s[1][1][0] == 'n' and s[1][1][2].startswith('arr#'):
            c += int(s[1][1][2][4:])
        elif not st.facts.get(('empty', s[1])):
            bases.append(s[1])
    if not bases:
        return ('i', c)
    return ('l', tuple(sorted(bases, key=repr)), c, False)


def is_zero(e, st, n):
    if n[0] == 'i':
        return ('b', int(n[1] == 0))
    if n[0] == 'l':
        r = e.lin_eq(st, n, 0)
        return ('t', 'eq', n, ('i', 0)) if r is None else ('b', int(r))
    return ('t', 'eq', n, ('i', 0)) if repr(n) < repr(('i', 0)) else e.eqkey(n, ('i', 0))


# ------------------------------------------------------------ byte strings
# an unknown run of bytes keeps its identity through slicing and appending:
# ('t', 'bytes', (('sl', base, lo, hi), ...)), hi None = up to the end of base

def is_bytes(e, C, v):
    """an unknown value used as a sequence of u8 at this call"""
    if v is None or v[0] not in ('y', 't'):
        return False
    if v[0] == 't' and v[1] == 'bytes':
        return True
    ta = C.t.get('ta') or []
    return bool(ta) and e.types[ta[0]].get('s') == 'u8'


def by_parts(v):
    if v == ('q', ()) or v == ('s', ''):
        return ()
    if v[0] == 't' and v[1] == 'bytes':
        return v[2]
    return (('sl', v, ('i', 0), None),)


def by_make(parts):
    out = []
    for x in parts:
        if x[3] is not None and x[2] == x[3]:
            continue
        if out and out[-1][1] == x[1] and out[-1][3] is not None and out[-1][3] == x[2]:
            out[-1] = ('sl', x[1], out[-1][2], x[3])
            continue
        out.append(x)
    if not out:
        return ('q', ())
    if len(out) == 1 and out[0][2] == ('i', 0) and out[0][3] is None:
        return out[0][1]
    return ('t', 'bytes', tuple(out))


def by_len(e, st, v):
    n = ('i', 0)
    for _, b, lo, hi in by_parts(v):
        h = hi if hi is not None else ('t', 'len', b)
        n = e.binop(st, 'Add', n, e.binop(st, 'Sub', h, lo))
    return n


def by_slice(e, st, v, lo, hi):
    """bytes lo..hi of v (hi None = to the end)"""
    lo = e.norm(st, lo)
    hi = None if hi is None else e.norm(st, hi)
    if hi is not None and hi == by_len(e, st, v):
        hi = None
    if lo == ('i', 0) and hi is None:
        return v
    ps = by_parts(v)
    if not ps:
        return v
    if len(ps) == 1:
        _, b, l, h = ps[0]
        return by_make((('sl', b, e.binop(st, 'Add', l, lo), h if hi is None else e.binop(st, 'Add', l, hi)),))
    return by_make((('sl', v, lo, hi),))


def by_cat(a, b):
    return by_make(tuple(by_parts(a)) + tuple(by_parts(b)))


def nonneg(t):
    """a sum that is certainly positive"""
    if t[0] == 'i':
        return t[1] > 0
    if t[0] == 't' and t[1] == 'Add':
        return any(nonneg(x) for x in t[2:])
    return False


def by_empty(e, st, v):
    v = e.norm(st, v)
    ps = by_parts(v)
    for _, b, lo, hi in ps:
        if hi is not None and (lo == ('i', 0) and (nonneg(hi) or st.facts.get(e.eqkey(hi, ('i', 0))) is False) or hi[0] == 't' and hi[1] == 'Add' and hi[2] == lo and nonneg(hi[3])):
            return FALSE
    if not ps:
        return TRUE
    return ('t', 'empty', v)


# ------------------------------------------------------- synthetic functions

_synth = {}
_sid = [-1]


def op_mv(l):
    return ('move', (l, (), 0))


def op_cp(l):
    return ('copy', (l, (), 0))


def op_fld(l, *fs):
    return ('move', (l, tuple(('fx', f) for f in fs), 0))


def a_use(l, op):
    return ('=', (l, (), 0), {'r': 'use', 'a': op}, '')


def a_ref(l, m):
    return ('=', (l, (), 0), {'r': 'ref', 'p': (m, (), 0), 'mut': True}, '')


def a_agg(l, ops, v=0):
    return ('=', (l, (), 0), {'r': 'mk', 'v': v, 'ops': ops}, '')


def a_const(l, v):
    return ('=', (l, (), 0), {'r': 'val', 'v': v}, '')


def t_call(f, args, dest, b, at=()):
    return {'t': 'call', 'f': f, 'a': args, 'at': list(at), 'd': (dest, (), 0), 'rt': None, 'b': b, 'sp': '', 'decl': ''}


def t_var(l, *targets):
    """branch on the variant index of local l"""
    return {'t': 'switch', 'd': ('variant', l), 'ty': 0, 'vs': list(enumerate(targets[:-1])), 'o': targets[-1]}


def t_bool(l, f, t):
    return {'t': 'switch', 'd': op_mv(l), 'ty': -1, 'vs': [(0, f)], 'o': t}


def t_goto(b):
    return {'t': 'goto', 'b': b}


RET = {'t': 'ret'}


def synth(e, key, nargs, bbs, name):
    B = _synth.get(key)
    if B is None:
        B = Body()
        _sid[0] -= 1
        B.id = _sid[0]
        B.nargs = nargs
        B.spread = -1
        B.locals = [0] * 20
        B.names = []
        B.span = ''
        B.inst = -1
        B.synth = True
        B.live_in = None
        B.name = name
        B.bbs = bbs
        e.P._heads(B)
        _synth[key] = B
    return B


def n_next(e, st, C):
    """next() on whatever iterator value is behind the reference (C.t['iter'] = its type)"""
    ti = C.t['iter']
    a, p = tgt(e, st, C.args[0])
    v = e.head(st, e.load(st, a, p))
    if v is not None and v[0] == 'I':
        return leaf_next(e, st, a, p, v, 0)
    it = e.P.iters.get(ti)
    if it and 'next' in it:
        r = e.invoke(st, it['next'], [('r', a, p)], C)
        raise _Direct(r)
    e.unknown_value(st, 'Iterator::next of ' + (e.types[ti]['s'] if ti is not None else '?'))
    s2 = st.fork()
    return [(st, NONE), (s2, some(s2.fresh('item')))]


class _Direct(Exception):
    """the callee arranged its own return"""


def t_next(it_ref, dest, b, ti):
    t = t_call(('native', n_next), [op_cp(it_ref)], dest, b)
    t['iter'] = ti
    return t


def n_force_opt(e, st, C):
    v = e.head(st, C.args[0])
    if is_opaque(v):
        s2 = st.fork()
        out = []
        for s, w in ((st, NONE), (s2, some(s2.fresh('item')))):
            if e.bindv(s, v, w):
                out.append((s, w))
        return out
    return v


def loop_over(e, key, name, ti, extra, bbs_of):
    """for x in iter {...}: bb0 next, bb1 force, bb2 branch -> 3 (done) / 4 (item in local 3)"""
    def mk():
        head = [
            ([a_ref(15, 1)], t_next(15, 14, 1, ti)),
            ([], t_call(('native', n_force_opt), [op_mv(14)], 14, 2)),
            ([], t_var(14, 3, 4)),
        ]
        return head + bbs_of
    B = _synth.get((key, ti))
    if B is None:
        B = synth(e, (key, ti), 3, mk(), name)
    return B


def start(e, st, C, B, args, conv=None):
    e.push(st, B, args, C.dest, C.target, conv, C.t.get('sp'))
    if 0 in B.heads and not e.loop_head(st):
        return []
    return PUSHED


# ------------------------------------------------------------ leaf iterators


def items_ref(e, st, a, p, q, mut=False):
    out = []
    for i, s in enumerate(q[1]):
        if s[0] == '1':
            out.append(('1', ('r', a, p + (('e', i),))))
        else:
            out.append(('m', rebase(e, st, s[1]), ('rm', a, p, i) if mut else ('r', s[2])))
    return tuple(out)


def items_val(e, st, q):
    return tuple(s if s[0] == '1' else ('m', rebase(e, st, s[1]), ('v', s[2])) for s in q[1])


def rebase(e, st, base):
    """an iteration consumes a copy of the length: lengths already taken now mean 'remaining'"""
    nb = st.fresh('rem')
    if st.facts.get(('empty', base)):
        st.facts[('empty', nb)] = True
    subst_lin(e, st, base, nb, 0)
    return nb


def subst_lin(e, st, base, nb, add):
    """in every length: base -> nb (or nothing when nb is None), + add"""
    def go(v):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'l':
            if base in v[1]:
                bs = list(v[1])
                bs.remove(base)
                if nb is not None:
                    bs.append(nb)
                c, p = v[2] + add, v[3]
                if not bs and not p:
                    return ('i', c)
                return ('l', tuple(sorted(bs, key=repr)), c, p)
            return v
        if v[0] in ('i', 'b', 's', 'y', 'fn', 'm'):
            return v
        ch = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = go(x)
                ch = ch or y is not x
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v
    for d in range(len(st.frames)):
        f = st.frames[d]
        chg = {}
        for l, v in f.L.items():
            w = go(v)
            if w is not v:
                chg[l] = w
        if chg:
            st.frame(d).L.update(chg)
    for a, v in list(st.heap.items()):
        w = go(v)
        if w is not v:
            st.heap[a] = w
    for k in list(st.facts):
        w = go(k)
        if w is not k:
            x = st.facts.pop(k)
            if w[0] == 't' and w[1] == 'eq' and w[2][0] == 'l':
                if e.lin_eq(st, w[2], w[3][1]) is None:
                    st.facts[w] = x


def gen(e, st, g, base):
    k = g[0]
    if k == 'v':
        return e.instantiate(st, g[1], 'item')
    if k == 'r':
        return e.mkref(st, e.instantiate(st, g[1], 'item'))
    if k == 'rm':
        q = e.as_seq(st, g[1], g[2])
        s = q[1][g[3]]
        st.ctr += 1
        a = ('H', st.ctr)
        st.heap[a] = e.instantiate(st, s[2], 'item')
        st.weak[a] = (g[1], g[2], g[3])
        return ('r', a, ())
    if k in ('kv', 'kr', 'k', 'vr', 'kval'):
        key = e.instantiate(st, g[1], 'key')
        v = e.instantiate(st, g[2], 'val')
        for ek in g[3]:
            if e.eq_static(st, key, ek) is True:
                raise Infeasible()
            if e.eq_static(st, key, ek) is None:
                e.assume_eq(st, key, ek, False)
        if k == 'kv':
            return tup(key, v)
        if k == 'k':
            return e.mkref(st, key)
        if k == 'kval':
            return key
        st.ctr += 1
        a = ('H', st.ctr)
        st.heap[a] = v
        r = ('r', a, ())
        if k == 'vr':
            return r
        return tup(e.mkref(st, key), r)
    raise Undecided('generator')


def leaf_next(e, st, a, p, v, end):
    items = v[1]
    if not items:
        return NONE
    i = -1 if end else 0
    s = items[i]
    rest = items[:-1] if end else items[1:]
    if s[0] == '1':
        e.store(st, a, p, ('I', rest))
        return some(s[1])
    # a summarised stretch: exhausted, or one more element
    base = s[1]
    out = []
    if not st.facts.get(('nonempty', base)):
        s1 = st.fork()
        subst_lin(e, s1, base, None, 0)
        e.store(s1, a, p, ('I', rest))
        try:
            r = leaf_next(e, s1, a, p, ('I', rest), end)
            out += r if isinstance(r, list) else [(s1, r)]
        except Infeasible:
            pass
    if not st.facts.get(('empty', base)):
        s2 = st.fork()
        s2.facts.pop(('nonempty', base), None)
        nb = s2.fresh('rem')
        subst_lin(e, s2, base, nb, 1)
        its = list(items)
        its[i] = ('m', nb, s[2])
        e.store(s2, a, p, ('I', tuple(its)))
        try:
            out.append((s2, some(gen(e, s2, s[2], base))))
        except Infeasible:
            pass
    return out


LEAF = ['slice::Iter', 'slice::IterMut', 'vec::IntoIter', 'array::IntoIter', 'hash_map::Iter', 'hash_map::IterMut', 'hash_map::IntoIter', 'hash_map::Keys',
        'hash_map::Values', 'hash_map::ValuesMut', 'hash_map::IntoKeys', 'hash_map::IntoValues', 'hash_set::Iter', 'hash_set::IntoIter', 'btree_map::Iter', 'btree_map::IterMut', 'btree_map::IntoIter', 'btree_map::IntoKeys', 'btree_map::IntoValues',
        'btree_map::Keys', 'btree_map::Values', 'btree_map::ValuesMut', 'vec_deque::Iter', 'vec_deque::IntoIter', 'vec::Drain', 'btree_set::Iter', 'btree_set::IntoIter', 'clap::Values', 'env::VarsOs', 'env::Vars', 'hash_set::Drain', 'hash_map::Drain',
        'VarsOs', 'Vars', 'Values', 'IntoIter', 'Iter']


def n_leaf_next(e, st, C):
    a, p = tgt(e, st, C.args[0])
    v = e.head(st, e.load(st, a, p))
    if is_opaque(v):
        w = ('I', (('m', ('y', ('g', v)), ('v', ('y', ('tv', 0)))),))
        if e.bindv(st, v, w):
            v = w
    if v is None or v[0] != 'I':
        return NotImplemented
    return leaf_next(e, st, a, p, v, 0)


def n_leaf_next_back(e, st, C):
    a, p = tgt(e, st, C.args[0])
    v = e.head(st, e.load(st, a, p))
    if v is None or v[0] != 'I':
        return NotImplemented
    return leaf_next(e, st, a, p, v, 1)


def n_leaf_len(e, st, C):
    v = val(e, st, C.args[0])
    if v is None or v[0] != 'I':
        return NotImplemented
    return seq_len(e, st, ('q', v[1]))


for _k in LEAF:
    REG[_k + '.Iterator::next'] = n_leaf_next
    REG[_k + '.DoubleEndedIterator::next_back'] = n_leaf_next_back
    REG[_k + '.ExactSizeIterator::len'] = n_leaf_len


def self_iter_ti(e, C):
    """type of the iterator a by-value / by-&mut Iterator method is called on"""
    ti = C.t['at'][0]
    T = e.types[ti]
    while T['k'] == 'ref':
        ti = T['e']
        T = e.types[ti]
    return ti


def by_value_iter(e, st, v):
    v = e.head(st, v)
    if v is not None and v[0] == 'r':
        return v, True
    return v, False


# provided Iterator methods, as loops over next()
def it_fold(e, st, C):
    ti = self_iter_ti(e, C)
    fi = C.t['at'][2]
    B = loop_over(e, ('fold', fi), 'Iterator::fold', ti, None, [
        ([a_use(0, op_mv(2))], RET),
        ([a_ref(13, 3)], t_call(('callfn', fi), [op_cp(13), op_mv(2), op_fld(14, 0)], 2, 0)),
    ])
    return start(e, st, C, B, [C.args[0], C.args[1], C.args[2]])


def it_bool(kind):
    def f(e, st, C):
        ti = self_iter_ti(e, C)
        fi = C.t['at'][1]
        # locals: 1 iter (or reference to it) 2 closure
        stop = {'any': TRUE, 'all': FALSE}[kind]
        end = {'any': FALSE, 'all': TRUE}[kind]
        bb = [
            ([a_const(0, end)], RET),
            ([a_ref(13, 2)], t_call(('callfn', fi), [op_cp(13), op_fld(14, 0)], 12, 5)),
            ([], t_bool(12, 0, 6) if kind == 'any' else t_bool(12, 6, 0)),
            ([a_const(0, stop)], RET),
        ]
        B = loop_over(e, (kind, fi), 'Iterator::' + kind, ti, None, bb)
        return start(e, st, C, B, [C.args[0], C.args[1]])
    return f


def it_find(e, st, C):
    ti = self_iter_ti(e, C)
    fi = C.t['at'][1]
    bb = [
        ([a_const(0, NONE)], RET),
        ([a_ref(13, 2), a_use(11, op_fld(14, 0)), a_ref(10, 11)], t_call(('callfn', fi), [op_cp(13), op_cp(10)], 12, 5)),
        ([], t_bool(12, 0, 6)),
        ([a_agg(0, [op_mv(11)], 1)], RET),
    ]
    B = loop_over(e, ('find', fi), 'Iterator::find', ti, None, bb)
    return start(e, st, C, B, [C.args[0], C.args[1]])


def it_find_map(e, st, C):
    ti = self_iter_ti(e, C)
    fi = C.t['at'][1]
    bb = [
        ([a_const(0, NONE)], RET),
        ([a_ref(13, 2)], t_call(('callfn', fi), [op_cp(13), op_fld(14, 0)], 12, 5)),
        ([], t_call(('native', n_force_opt), [op_mv(12)], 12, 6)),
        ([], t_var(12, 0, 7)),
        ([a_use(0, op_mv(12))], RET),
    ]
    B = loop_over(e, ('find_map', fi), 'Iterator::find_map', ti, None, bb)
    return start(e, st, C, B, [C.args[0], C.args[1]])


def it_for_each(e, st, C):
    ti = self_iter_ti(e, C)
    fi = C.t['at'][1]
    bb = [
        ([a_const(0, UNIT)], RET),
        ([a_ref(13, 2)], t_call(('callfn', fi), [op_cp(13), op_fld(14, 0)], 12, 0)),
    ]
    B = loop_over(e, ('for_each', fi), 'Iterator::for_each', ti, None, bb)
    return start(e, st, C, B, [C.args[0], C.args[1]])


def n_inc(e, st, C):
    return e.binop(st, 'Add', C.args[0], ('i', 1))


def it_position(e, st, C):
    ti = self_iter_ti(e, C)
    fi = C.t['at'][1]
    bb = [
        ([a_const(0, NONE)], RET),
        ([a_ref(13, 2)], t_call(('callfn', fi), [op_cp(13), op_fld(14, 0)], 12, 5)),
        ([], t_bool(12, 7, 6)),
        ([a_agg(0, [op_mv(3)], 1)], RET),
        ([], t_call(('native', n_inc), [op_mv(3)], 3, 0)),
    ]
    B = loop_over(e, ('position', fi), 'Iterator::position', ti, None, bb)
    return start(e, st, C, B, [C.args[0], C.args[1], ('i', 0)])


def it_count(e, st, C):
    ti = self_iter_ti(e, C)
    bb = [
        ([a_use(0, op_mv(2))], RET),
        ([], t_call(('native', n_inc), [op_mv(2)], 2, 0)),
    ]
    B = loop_over(e, ('count',), 'Iterator::count', ti, None, bb)
    return start(e, st, C, B, [C.args[0], ('i', 0)])


def it_last(e, st, C):
    ti = self_iter_ti(e, C)
    bb = [
        ([a_use(0, op_mv(2))], RET),
        ([a_agg(2, [op_fld(14, 0)], 1)], t_goto(0)),
    ]
    B = loop_over(e, ('last',), 'Iterator::last', ti, None, bb)
    return start(e, st, C, B, [C.args[0], NONE])


def it_collect(e, st, C):
    return collect_into(e, st, C, C.t['rt'], C.args[0], C.t['at'][0])


for _k in LEAF + ['Iterator']:
    pre = _k + '.Iterator::' if _k != 'Iterator' else 'Iterator::'
    for nm, fn in (('fold', it_fold), ('any', it_bool('any')), ('all', it_bool('all')), ('find', it_find), ('find_map', it_find_map), ('for_each', it_for_each),
                   ('position', it_position), ('count', it_count), ('last', it_last)):
        if _k != 'Iterator' or nm in ('any', 'all', 'find', 'find_map', 'for_each', 'position', 'count', 'last', 'fold'):
            REG[pre + nm] = fn
for nm, fn in (('fold', it_fold), ('any', it_bool('any')), ('all', it_bool('all')), ('find', it_find), ('find_map', it_find_map), ('for_each', it_for_each),
               ('position', it_position), ('count', it_count), ('last', it_last)):
    REG['iterator::Iterator::' + nm] = fn


def to_iter(e, st, v, ti):
    """IntoIterator::into_iter on a value; -> (iterator value, its type)"""
    h = e.head(st, v)
    T = e.types[ti] if ti is not None else {'k': '?'}
    if T['k'] == 'ref':
        if h is not None and h[0] == 'r':
            a, p = tgt(e, st, h)
            w = e.head(st, e.load(st, a, p))
            if w is not None and w[0] == 'q' or is_opaque(w) and e.types[T['e']]['k'] in ('slice', 'array') or is_opaque(w) and e.types[T['e']].get('name') in ('Vec', 'VecDeque'):
                q = e.as_seq(st, a, p)
                return ('I', items_ref(e, st, a, p, q, T.get('mut'))), ti
            if w is not None and w[0] == 'h' or is_opaque(w) and e.types[T['e']].get('name') in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
                m = e.as_map(st, a, p)
                return ('I', map_items(e, st, a, p, m, 'k' if e.types[T['e']].get('name') in ('HashSet', 'BTreeSet') else 'kr', e.types[T['e']].get('name', '').startswith('BTree'))), ti
    nm = T.get('name')
    if is_opaque(h):
        if nm in ('Vec', 'VecDeque') or T['k'] == 'array':
            w = ('q', (('m', ('y', ('g', h)), ('y', ('tv', 0))),))
            e.bindv(st, h, w)
            h = w
        elif nm in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            w = ('h', (('y', ('g', h)), ('y', ('tv', 0)), ('y', ('tv', 1))), ())
            e.bindv(st, h, w)
            h = w
    if h is not None and h[0] == 'q':
        return ('I', items_val(e, st, h)), ti
    if h is not None and h[0] == 'h':
        return ('I', map_items(e, st, None, None, h, 'kval' if nm in ('HashSet', 'BTreeSet') else 'kv', nm.startswith('BTree'))), ti
    if nm in ('Option', 'Result') and h is not None and h[0] == 'a':
        yes = h[1] == (1 if nm == 'Option' else 0)
        return ('I', (('1', h[2][0]),) if yes else ()), ti
    it = e.P.iters.get(ti)
    if it and 'into' in it and it['into'] != ti and h is not None and h[0] in ('I', 'a'):
        return h, it['into']
    return h, ti


def map_items(e, st, a, p, m, kind, bt=False):
    out = []
    if bt and m[1] is None and len(m[2]) > 1:
        ks = [e.norm(st, k) for k, v in m[2]]
        if all(k[0] in 'si' for k in ks):
            m = (m[0], m[1], tuple(x for _, x in sorted(zip(ks, m[2]), key=lambda y: y[0])))
    keys = tuple(k for k, v in m[2])
    g = None
    if m[1] is not None:
        g = (kind, m[1][1], m[1][2], keys)
        out.append(('m', st.fresh('rem'), g))
    for k, v in m[2]:
        if v == ABS:
            continue
        kr = None
        if kind == 'kv':
            x = tup(k, v)
        elif kind == 'kval':
            x = k
        elif kind == 'k':
            x = e.mkref(st, k)
        else:
            r = ('r', a, p + (('k', k),))
            x = r if kind == 'vr' else tup(e.mkref(st, k), r)
        out.append(('1', x))
        if m[1] is not None:
            out.append(('m', st.fresh('rem'), g))
    return tuple(out)


# --------------------------------------------------------------- collecting


def n_push_to(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    e.store(st, a, p, ('q', q[1] + (('1', C.args[1]),)))
    return UNIT


def n_map_ins(e, st, C):
    kv = e.head(st, C.args[1])
    return [(s, UNIT) for s, old in map_insert(e, st, C.args[0], kv[2][0], kv[2][1])]


def n_set_ins(e, st, C):
    return [(s, UNIT) for s, old in map_insert(e, st, C.args[0], C.args[1], UNIT)]


def n_str_ins(e, st, C):
    a, p = tgt(e, st, C.args[0])
    w = val(e, st, C.args[1])
    e.store(st, a, p, str_cat(e, st, e.load(st, a, p), ('s', chr(w[1])) if w is not None and w[0] == 'i' else C.args[1]))
    return UNIT


def str_cat(e, st, x, y):
    x = val(e, st, x)
    y = val(e, st, y)
    if x[0] == 's' and y[0] == 's':
        return ('s', x[1] + y[1])
    if x == ('s', ''):
        return y
    if y == ('s', ''):
        return x
    r = ('t', 'cat', e.norm(st, x), e.norm(st, y))
    return r if e.depth(r) < 8 else st.fresh('str')


def whole(e, st, v, ti):
    """the unknown byte string that this iterator walks from its start to its end, copied item by item"""
    v = e.head(st, v)
    while v is not None and v[0] == 'a' and e.types[ti].get('name') in ('Copied', 'Cloned') and len(v[2]) == 1:
        v = e.head(st, v[2][0])
        ti = None
        break
    if ti is None and v is not None and v[0] == 'I' and len(v) == 3:
        return v[2]
    return None


def collect_into(e, st, C, rt, it, ti, init=None, by_ref=None, keep=None):
    T = e.types[rt] if rt is not None else {}
    nm = T.get('name')
    ins, empty = {'Vec': (n_push_to, ('q', ())), 'VecDeque': (n_push_to, ('q', ())), 'HashMap': (n_map_ins, ('h', None, ())), 'BTreeMap': (n_map_ins, ('h', None, ())),
                  'HashSet': (n_set_ins, ('h', None, ())), 'BTreeSet': (n_set_ins, ('h', None, ())), 'String': (n_str_ins, ('s', ''))}.get(nm, (None, None))
    if ins is None:
        return NotImplemented
    v, ti2 = to_iter(e, st, it, ti)
    if by_ref is None and nm in ('Vec', 'VecDeque'):
        o = whole(e, st, v, ti2)
        if o is not None:
            return o
    if by_ref is None:
        bb = [
            ([a_use(0, op_mv(2))], RET),
            ([a_ref(13, 2)], t_call(('native', ins), [op_cp(13), op_fld(14, 0)], 12, 0)),
        ]
        B = loop_over(e, ('collect', nm), 'FromIterator for ' + nm, ti2, None, bb)
        return start(e, st, C, B, [v, empty])
    bb = [
        ([a_const(0, UNIT)], RET),
        ([], t_call(('native', ins), [op_cp(2), op_fld(14, 0)], 12, 0)),
    ]
    B = loop_over(e, ('extend', nm), 'Extend for ' + nm, ti2, None, bb)
    return start(e, st, C, B, [v, by_ref])


def n_from_iter(e, st, C):
    return collect_into(e, st, C, C.t['rt'], C.args[0], C.t['at'][0])


def n_extend(e, st, C):
    ti = C.t['at'][0]
    ti = e.types[ti].get('e', ti)
    return collect_into(e, st, C, ti, C.args[1], C.t['at'][1], by_ref=C.args[0])


for _k in ('Vec', 'VecDeque', 'HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'String'):
    REG[_k + '.FromIterator::from_iter'] = n_from_iter
    REG[_k + '.Extend::extend'] = n_extend
    REG[_k + '.From::from'] = lambda e, st, C: n_from_conv(e, st, C)


def n_from_conv(e, st, C):
    v = e.head(st, C.args[0])
    T = e.types[C.t['rt']]
    if T.get('name') in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'Vec', 'VecDeque'):
        v = e.derefv(st, v)
        if v is not None and v[0] == 'q' and T['name'] in ('Vec', 'VecDeque'):
            return v
        return collect_into(e, st, C, C.t['rt'], v, C.t['at'][0])
    return e.derefv(st, v)


# ---------------------------------------------------------------- sequences


@reg('Vec::new', 'Vec.Default::default', 'VecDeque::new', 'VecDeque.Default::default', 'Vec::with_capacity', 'VecDeque::with_capacity')
def n_vec_new(e, st, C):
    return ('q', ())


@reg('isize::max_value', 'i64::max_value')
def n_imax(e, st, C):
    return ('i', (1 << 63) - 1)


@reg('isize::min_value', 'i64::min_value')
def n_imin(e, st, C):
    return ('i', -(1 << 63))


@reg('usize::max_value', 'u64::max_value')
def n_umax(e, st, C):
    return ('i', (1 << 64) - 1)


@reg('RandomState.Default::default', 'RandomState::new')
def n_random_state(e, st, C):
    return ('a', 0, ())


@reg('String::new', 'String.Default::default', 'String::with_capacity', 'str.Default::default')
def n_string_new(e, st, C):
    return ('s', '')


@reg('HashMap::new', 'HashMap.Default::default', 'HashSet::new', 'HashSet.Default::default', 'BTreeMap::new', 'BTreeMap.Default::default', 'BTreeSet::new', 'HashMap::with_capacity', 'HashSet::with_capacity', 'BTreeSet.Default::default', 'HashMap::with_capacity_and_hasher', 'HashSet::with_capacity_and_hasher', 'HashMap::with_hasher', 'HashSet::with_hasher')
def n_map_new(e, st, C):
    return ('h', None, ())


@reg('Vec.Deref::deref', 'Vec.DerefMut::deref_mut', 'String.Deref::deref', 'String.DerefMut::deref_mut', 'Box.Deref::deref', 'Box.DerefMut::deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice',
     'String::as_str', 'String::as_bytes', 'str::as_bytes', 'Vec.AsRef::as_ref', 'String.AsRef::as_ref', 'str.AsRef::as_ref', 'String.Borrow::borrow', 'T.Borrow::borrow', 'PathBuf.Deref::deref',
     'Box.AsRef::as_ref', 'Box.AsMut::as_mut', 'Vec.Borrow::borrow', 'OsString.AsRef::as_ref', 'OsStr.AsRef::as_ref', 'OsString.Deref::deref', 'OsString::as_os_str', 'Path::new', 'OsStr::new', 'PathBuf.AsRef::as_ref', 'Path.AsRef::as_ref',
     'Rc.Deref::deref', 'Arc.Deref::deref', '[T;N].AsRef::as_ref', '[T;N]::as_slice', '[T].AsRef::as_ref', 'T.BorrowMut::borrow_mut', 'Cow.Deref::deref')
def n_same_ref(e, st, C):
    return C.args[0]


@reg('hint::must_use', 'convert::identity', 'T.Into::into', 'T.From::from', 'Box::new', 'Box::pin', 'boxed::box_assume_init_into_vec_unsafe', 'Rc::new', 'Arc::new', 'Pin::new', 'Pin::new_unchecked', 'Box::into_pin', 'hint::black_box',
     'I.IntoFuture::into_future', 'F.IntoFuture::into_future', 'String::into_boxed_str', 'Vec::into_boxed_slice', '[T]::into_vec', 'slice::into_vec', 'str::into_string', 'String::into_bytes', 'mem::ManuallyDrop::new', 'ManuallyDrop::new', 'Pin.From::from', 'pin::pin', 'Box.From::from')
def n_ident(e, st, C):
    return e.head(st, C.args[0])


@reg('Box::new_uninit')
def n_uninit(e, st, C):
    return None


@reg('mem::drop', 'mem::forget')
def n_drop(e, st, C):
    return UNIT


@reg('String.Clone::clone', 'Vec.Clone::clone', 'HashMap.Clone::clone', 'HashSet.Clone::clone', 'BTreeMap.Clone::clone', 'Sender.Clone::clone', 'Receiver.Clone::clone', 'VecDeque.Clone::clone', 'isize.Clone::clone', 'usize.Clone::clone',
     'Clone::clone', 'T.ToOwned::to_owned', 'str.ToOwned::to_owned', '[T]::to_vec', '[T].ToOwned::to_owned', 'Box.Clone::clone', 'PathBuf.Clone::clone', 'OsString.Clone::clone', 'bool.Clone::clone', 'u8.Clone::clone', 'Rc.Clone::clone', 'Arc.Clone::clone', 'Instant.Clone::clone',
     'OsStr::to_os_string', 'OsStr::to_owned', 'str::to_owned', 'i32.Clone::clone', 'u64.Clone::clone', 'char.Clone::clone', 'Duration.Clone::clone', 'Path::to_path_buf', 'slice::to_vec', 'OsStr.ToOwned::to_owned')
def n_clone(e, st, C):
    v = val(e, st, C.args[0])
    return v


@reg('Vec::push', 'VecDeque::push_back')
def n_push(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    e.store(st, a, p, ('q', q[1] + (('1', C.args[1]),)))
    return UNIT


@reg('VecDeque::push_front')
def n_push_front(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    e.store(st, a, p, ('q', (('1', C.args[1]),) + q[1]))
    return UNIT


@reg('Vec::insert')
def n_insert(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    i = e.head(st, C.args[1])
    n = seq_len(e, st, q)
    if i == n:
        e.store(st, a, p, ('q', q[1] + (('1', C.args[2]),)))
    elif i[0] == 'i' and all(s[0] == '1' for s in q[1][:i[1]]) and i[1] <= len(q[1]):
        e.store(st, a, p, ('q', q[1][:i[1]] + (('1', C.args[2]),) + q[1][i[1]:]))
    else:
        raise Undecided('insert at an unknown index')
    return UNIT


def take_end(e, st, v, back):
    a, p, q = seq_at(e, st, v)
    segs = q[1]
    if not segs:
        return [(st, NONE)]
    i = len(segs) - 1 if back else 0
    s = segs[i]
    rest = segs[:i] + segs[i + 1:]
    if s[0] == '1':
        e.store(st, a, p, ('q', rest))
        return [(st, some(s[1]))]
    s1 = st.fork()
    e.store(s1, a, p, ('q', rest))
    out = take_end(e, s1, ('r', a, p), back)
    if not st.facts.get(('empty', s[1])):
        s2 = st.fork()
        x = e.instantiate(s2, s[2], 'elem')
        e.store(s2, a, p, ('q', segs[:i] + (('m', s2.fresh('rest'), s[2]),) + segs[i + 1:]))
        out.append((s2, some(x)))
    return out


@reg('Vec::pop', 'VecDeque::pop_back')
def n_pop(e, st, C):
    return take_end(e, st, C.args[0], True)


@reg('VecDeque::pop_front')
def n_pop_front(e, st, C):
    return take_end(e, st, C.args[0], False)


@reg('Vec::clear', 'VecDeque::clear')
def n_clear(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    e.store(st, a, p, ('q', ()))
    return UNIT


@reg('HashMap::clear', 'HashSet::clear', 'BTreeMap::clear')
def n_mclear(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.store(st, a, p, ('h', None, ()))
    return UNIT


@reg('String::clear')
def n_sclear(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.store(st, a, p, ('s', ''))
    return UNIT


@reg('Vec::append', 'VecDeque::append')
def n_append(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    b, p2, q2 = seq_at(e, st, C.args[1])
    e.store(st, b, p2, ('q', ()))
    e.store(st, a, p, ('q', q[1] + q2[1]))
    return UNIT


@reg('Vec::extend_from_slice')
def n_efs(e, st, C):
    a, p = tgt(e, st, C.args[0])
    x, y = e.head(st, e.load(st, a, p)), val(e, st, C.args[1])
    if is_bytes(e, C, y) or is_bytes(e, C, x) and not (y[0] == 'q' and y[1]):
        e.store(st, a, p, by_cat(e.norm(st, x), e.norm(st, y)))
        return UNIT
    a, p, q = seq_at(e, st, C.args[0])
    b, p2, q2 = seq_at(e, st, C.args[1])
    e.store(st, a, p, ('q', q[1] + q2[1]))
    return UNIT


@reg('Vec::len', '[T]::len', 'VecDeque::len', 'slice::len', 'str::len', 'String::len', '[T;N]::len')
def n_len(e, st, C):
    a, p = tgt(e, st, C.args[0])
    v = e.head(st, e.load(st, a, p))
    if is_bytes(e, C, v):
        return by_len(e, st, e.norm(st, v))
    if is_opaque(v) and C.inst >= 0 and ('str' in e.insts[C.inst]['short'] or 'String' in e.insts[C.inst]['short']):
        return ('t', 'len', e.norm(st, v))
    if is_opaque(v):
        v = e.as_seq(st, a, p)
    return seq_len(e, st, v)


@reg('Vec::is_empty', '[T]::is_empty', 'VecDeque::is_empty')
def n_vempty(e, st, C):
    v = val(e, st, C.args[0])
    if is_bytes(e, C, v):
        return by_empty(e, st, v)
    a, p, q = seq_at(e, st, C.args[0])
    return is_zero(e, st, seq_len(e, st, q))


@reg('String::is_empty', 'str::is_empty', 'OsStr::is_empty')
def n_sempty(e, st, C):
    v = val(e, st, C.args[0])
    if v[0] == 's':
        return ('b', int(v[1] == ''))
    if v[0] == 't' and v[1] == 'fmt' and any(isinstance(x, tuple) and x and x[0] == 's' and x[1] for x in v[2:]):
        return FALSE
    return e.eqkey(e.norm(st, v), ('s', ''))


@reg('HashMap::is_empty', 'HashSet::is_empty', 'BTreeMap::is_empty', 'BTreeSet::is_empty')
def n_mempty(e, st, C):
    a, p, m = map_at(e, st, C.args[0])
    if any(v != ABS for k, v in m[2]):
        return FALSE
    if m[1] is None:
        return TRUE
    return ('t', 'mapempty', m[1][0])


@reg('HashMap::len', 'HashSet::len', 'BTreeMap::len', 'BTreeSet::len')
def n_mlen(e, st, C):
    a, p, m = map_at(e, st, C.args[0])
    c = sum(1 for k, v in m[2] if v != ABS)
    if m[1] is None:
        return ('i', c)
    return ('l', (m[1][0],), c, False)


@reg('[T]::iter', 'Vec::iter', '&Vec.IntoIterator::into_iter', '&[T].IntoIterator::into_iter', 'VecDeque::iter', '&VecDeque.IntoIterator::into_iter', '&[T;N].IntoIterator::into_iter', 'slice::iter')
def n_iter(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    it = ('I', items_ref(e, st, a, p, q))
    if len(q[1]) == 1 and q[1][0][0] == 'm' and q[1][0][1][0] == 'y' and q[1][0][1][1][0] == 'g' and q[1][0][2] == ('y', ('tv', 0)):
        it += (q[1][0][1][1][1],)         # all of this unknown sequence (see whole)
    return it


@reg('[T]::iter_mut', '&mut Vec.IntoIterator::into_iter', '&mut [T].IntoIterator::into_iter', 'VecDeque::iter_mut', 'slice::iter_mut', '&mut [T;N].IntoIterator::into_iter')
def n_iter_mut(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    return ('I', items_ref(e, st, a, p, q, True))


@reg('Vec.IntoIterator::into_iter', '[T;N].IntoIterator::into_iter', 'VecDeque.IntoIterator::into_iter', 'HashMap.IntoIterator::into_iter', 'BTreeMap.IntoIterator::into_iter', 'HashSet.IntoIterator::into_iter', 'BTreeSet.IntoIterator::into_iter',
     '&HashMap.IntoIterator::into_iter', '&HashSet.IntoIterator::into_iter', '&BTreeMap.IntoIterator::into_iter', '&mut HashMap.IntoIterator::into_iter', '&mut BTreeMap.IntoIterator::into_iter', '&BTreeSet.IntoIterator::into_iter')
def n_into_iter(e, st, C):
    v, _ = to_iter(e, st, C.args[0], C.t['at'][0])
    return v


@reg('Vec::drain', 'VecDeque::drain')
def n_drain(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    T = e.types[C.t['at'][1]]
    if T.get('name') != 'RangeFull':
        r = range_of(e, st, C, q)
        if r is None:
            return NotImplemented
        if r == ():
            e.panic(st, 'drain out of bounds')
            return []
        e.store(st, a, p, ('q', q[1][:r[0]] + q[1][r[1]:]))
        return ('I', items_val(e, st, ('q', q[1][r[0]:r[1]])))
    e.store(st, a, p, ('q', ()))
    return ('I', items_val(e, st, q))


@reg('HashMap::drain', 'HashSet::drain')
def n_mdrain(e, st, C):
    a, p, m = map_at(e, st, C.args[0])
    e.store(st, a, p, ('h', None, ()))
    return ('I', map_items(e, st, None, None, m, 'kv' if 'Map' in e.insts[C.inst]['short'] else 'kval', 'BTree' in e.insts[C.inst]['short']))


def end_ref(e, st, v, back, mut):
    a, p, q = seq_at(e, st, v)
    segs = q[1]

    def at(s, i):
        sg = segs[i]
        if sg[0] == '1':
            return [(s, some(('r', a, p + (('e', i),))))]
        out = []
        j = i - 1 if back else i + 1
        s1 = s.fork()
        out += at(s1, j) if 0 <= j < len(segs) else [(s1, NONE)]
        if not s.facts.get(('empty', sg[1])):
            # materialise the end element so that writes to it are kept
            s2 = s.fork()
            x = e.instantiate(s2, sg[2], 'elem')
            rest = ('m', s2.fresh('rest'), sg[2])
            new = (rest, ('1', x)) if back else (('1', x), rest)
            e.store(s2, a, p, ('q', segs[:i] + new + segs[i + 1:]))
            out.append((s2, some(('r', a, p + (('e', i + 1 if back else i),)))))
        return out
    if not segs:
        return [(st, NONE)]
    return at(st, len(segs) - 1 if back else 0)


@reg('[T]::last', '[T]::last_mut', 'VecDeque::back', 'VecDeque::back_mut')
def n_last(e, st, C):
    return end_ref(e, st, C.args[0], True, True)


@reg('[T]::first', '[T]::first_mut', 'VecDeque::front', 'VecDeque::front_mut')
def n_first(e, st, C):
    return end_ref(e, st, C.args[0], False, True)


@reg('[T]::get', '[T]::get_mut', 'VecDeque::get', 'VecDeque::get_mut')
def n_get(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    i = e.head(st, C.args[1])
    if i[0] == 'a':
        r = range_of(e, st, C, q)
        return NotImplemented if r is None else NONE if r == () else some(sub_ref(e, st, a, p, q, *r))
    if i[0] == 'i':
        if all(s[0] == '1' for s in q[1][:i[1] + 1]):
            return some(('r', a, p + (('e', i[1]),))) if i[1] < len(q[1]) else NONE
        if i[1] == 0:
            return end_ref(e, st, C.args[0], False, True)
    if i[0] not in ('i', 'l', 'y', 't'):
        return NotImplemented
    # an unknown position: any element, or none
    out = []
    s0 = st.fork()
    out.append((s0, NONE))
    for j, sg in enumerate(q[1]):
        s = st.fork()
        if sg[0] == '1':
            out.append((s, some(('r', a, p + (('e', j),)))))
        elif not s.facts.get(('empty', sg[1])):
            x = e.instantiate(s, sg[2], 'elem')
            e.store(s, a, p, ('q', q[1][:j] + (('m', s.fresh('rest'), sg[2]), ('1', x), ('m', s.fresh('rest'), sg[2])) + q[1][j + 1:]))
            out.append((s, some(('r', a, p + (('e', j + 1),)))))
    return out


def range_of(e, st, C, q, arg=1):
    """(lo, hi) of a range argument over exact elements; () out of bounds, None unknown"""
    T = e.types[C.t['at'][arg]]
    f = e.head(st, C.args[arg])
    n = len(q[1])
    nm = T.get('name')
    if f[0] != 'a' or any(s[0] != '1' for s in q[1]):
        return None
    fs = [e.norm(st, x) for x in f[2]]
    if any(x[0] not in ('i', 'b') for x in fs):
        return None
    fs = [x[1] for x in fs]
    lo, hi = {'Range': lambda: (fs[0], fs[1]), 'RangeTo': lambda: (0, fs[0]), 'RangeFrom': lambda: (fs[0], n), 'RangeFull': lambda: (0, n), 'RangeInclusive': lambda: (fs[0], fs[1] + 1),
              'RangeToInclusive': lambda: (0, fs[0] + 1)}.get(nm, lambda: (None, None))()
    if lo is None:
        return None
    return () if lo > hi or hi > n else (lo, hi)


def sub_ref(e, st, a, p, q, lo, hi):
    """a slice of exact elements (a copy: writing through it is not followed)"""
    return e.mkref(st, ('q', q[1][lo:hi]))


@reg('Vec.Index::index', 'Vec.IndexMut::index_mut', '[T].Index::index', '[T].IndexMut::index_mut', 'VecDeque.Index::index', '[T;N].Index::index')
def n_index(e, st, C):
    T = e.types[C.t['at'][1]]
    if T['k'] not in ('uint', 'int'):
        if T.get('name') == 'RangeFull':
            return C.args[0]
        v = val(e, st, C.args[0])
        rg = e.head(st, C.args[1])
        if T.get('name') in ('Range', 'RangeTo', 'RangeFrom') and rg[0] == 'a':
            lo, hi = {'Range': lambda f: (f[0], f[1]), 'RangeTo': lambda f: (('i', 0), f[0]), 'RangeFrom': lambda f: (f[0], None)}[T['name']](rg[2])
            if is_bytes(e, C, v):
                return e.mkref(st, by_slice(e, st, e.norm(st, v), lo, hi))
            a, p, q = seq_at(e, st, C.args[0])
            r = range_of(e, st, C, q)
            if r:
                return sub_ref(e, st, a, p, q, *r)
            if r == ():
                e.panic(st, 'range out of bounds')
                return []
        return NotImplemented
    r = n_get(e, st, C)
    if r is NotImplemented:
        return r
    if not isinstance(r, list):
        r = [(st, r)]
    out = []
    for s, v in r:
        if v[1] == 1:
            out.append((s, v[2][0]))
        else:
            e.panic(s, 'index out of bounds')
    return out


@reg('Vec::remove', 'Vec::swap_remove')
def n_remove(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    i = e.head(st, C.args[1])
    out = []
    if i[0] == 'i':
        if all(s[0] == '1' for s in q[1][:i[1] + 1]):
            if i[1] < len(q[1]):
                e.store(st, a, p, ('q', q[1][:i[1]] + q[1][i[1] + 1:]))
                return q[1][i[1]][1]
            e.panic(st, 'remove out of bounds')
            return []
    for j, sg in enumerate(q[1]):
        s = st.fork()
        if sg[0] == '1':
            e.store(s, a, p, ('q', q[1][:j] + q[1][j + 1:]))
            if len(q[1]) > 1:
                s.mark('removal at an unknown index')
            out.append((s, sg[1]))
        elif not s.facts.get(('empty', sg[1])):
            x = e.instantiate(s, sg[2], 'elem')
            out.append((s, x))
    return out


@reg('Vec::truncate')
def n_truncate(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    k = e.head(st, C.args[1])
    if k[0] == 'i' and (k[1] == 0 or all(s[0] == '1' for s in q[1][:k[1]])):
        e.store(st, a, p, ('q', q[1][:k[1]]))
        return UNIT
    return NotImplemented


@reg('Vec::retain')
def n_retain(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    fi = C.t['at'][1]
    it = ('I', items_val(e, st, q))
    e.store(st, a, p, ('q', ()))
    bb = [
        ([a_const(0, UNIT)], RET),
        ([a_ref(13, 2), a_use(11, op_fld(14, 0)), a_ref(10, 11)], t_call(('callfn', fi), [op_cp(13), op_cp(10)], 12, 5)),
        ([], t_bool(12, 0, 6)),
        ([], t_call(('native', n_push_to), [op_cp(3), op_mv(11)], 12, 0)),
    ]
    B = loop_over(e, ('retain', fi), 'Vec::retain', None, None, bb)
    return start(e, st, C, B, [it, C.args[1], ('r', a, p)])


@reg('[T]::contains', 'VecDeque::contains')
def n_contains(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    x = val(e, st, C.args[1])
    out = []
    cur = [st]
    for sg in q[1]:
        nxt = []
        for s in cur:
            if sg[0] == '1':
                for s2, b in e.eq_cases(s, sg[1], x):
                    if b:
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            else:
                k = ('t', 'among', sg[1], e.norm(s, x))
                for s2, b in e.cases(s, k):
                    if b:
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
        cur = nxt
    out += [(s, FALSE) for s in cur]
    return out


def sort_exact(e, st, C, a, p, segs):
    """a few exact elements: a stable compare-exchange network driven by the program's own comparator"""
    n = len(segs)
    refs = [e.mkref(st, s[1]) for s in segs]
    fi = C.t['at'][1]
    # locals: 1 = closure, 2 = target slice, 3.. = references to the elements, 14 = ordering
    swaps = [(j, j + 1) for i in range(n) for j in range(n - 1 - i)]
    bbs = []
    for k, (i, j) in enumerate(swaps):
        b = len(bbs)
        bbs.append(([a_ref(13, 1)], t_call(('callfn', fi), [op_cp(13), op_cp(3 + i), op_cp(3 + j)], 14, b + 1)))
        bbs.append(([], t_var(14, b + 3, b + 3, b + 2)))
        bbs.append(([a_use(15, op_cp(3 + i)), a_use(3 + i, op_cp(3 + j)), a_use(3 + j, op_cp(15))], t_goto(b + 3)))
    b = len(bbs)
    bbs.append(([], t_call(('native', n_sorted), [op_cp(2)] + [op_cp(3 + i) for i in range(n)], 12, b + 1)))
    bbs.append(([a_const(0, UNIT)], RET))
    B = synth(e, ('sort', fi, n), 2 + n, bbs, '[T]::sort_by')
    return start(e, st, C, B, [C.args[1], ('r', a, p)] + refs)


def sort_by_keys(e, st, C, a, p, segs):
    n = len(segs)
    refs = [e.mkref(st, s[1]) for s in segs]
    fi = C.t['at'][1]
    bbs = []
    for k in range(n):
        bbs.append(([a_ref(13, 1)], t_call(('callfn', fi), [op_cp(13), op_cp(3 + k)], 14 + k, k + 1)))

    def done(e2, s, C2):
        xs = [e2.derefv(s, r) for r in C2.args[1:1 + n]]
        return sort_now(e2, s, a, p, xs, list(C2.args[1 + n:]))
    bbs.append(([], t_call(('native', done), [op_cp(2)] + [op_cp(3 + i) for i in range(n)] + [op_cp(14 + i) for i in range(n)], 12, n + 1)))
    bbs.append(([a_const(0, UNIT)], RET))
    _uid[0] += 1
    B = synth(e, ('sortkey', _uid[0]), 2 + n, bbs, '[T]::sort_by_key')
    return start(e, st, C, B, [C.args[1], ('r', a, p)] + refs)


_uid = [0]


def sort_now(e, st, a, p, xs, keys):
    """stable insertion sort by keys; an unknown comparison goes both ways"""
    done = []
    cur = [(st, [])]
    for k in range(len(xs)):
        nxt = []
        for s, order in cur:
            # find the place from the right
            work = [(s, len(order))]
            while work:
                s2, j = work.pop()
                if j == 0:
                    nxt.append((s2, [k] + order))
                    continue
                for s3, o in cmp_cases(e, s2, keys[order[j - 1]], keys[k]):
                    if o == ORD['gt']:
                        work.append((s3, j - 1))
                    else:
                        nxt.append((s3, order[:j] + [k] + order[j:]))
        cur = nxt
    for s, order in cur:
        e.store(s, a, p, ('q', tuple(('1', xs[i]) for i in order)))
        done.append((s, UNIT))
    return done


def n_sorted(e, st, C):
    a, p = e.deref(st, C.args[0])
    e.store(st, a, p, ('q', tuple(('1', e.derefv(st, r)) for r in C.args[1:])))
    return UNIT


@reg('[T]::sort_by', '[T]::sort_by_key', '[T]::sort', '[T]::sort_unstable', '[T]::sort_unstable_by', '[T]::sort_unstable_by_key', 'slice::sort', 'slice::sort_by', '[T]::sort_by_cached_key')
def n_sort(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    e.emit(st, ('sort', C.args[1:] and C.args[1]))
    segs = q[1]
    if len(segs) <= 1 and all(s[0] == '1' for s in segs):
        return UNIT
    if len(segs) > 9 and getattr(e, 'SORT_KEEP', False) and all(s[0] == '1' for s in segs):
        return UNIT
    if len(segs) <= 9 and all(s[0] == '1' for s in segs) and (len(segs) <= 3 or "('y'," not in repr([e.norm(st, deep(e, st, s[1])) for s in segs])) and len(C.args) > 1 and 'sort_by' in e.insts[C.inst]['path'] and 'key' not in e.insts[C.inst]['path'].split('::')[-1]:
        return sort_exact(e, st, C, a, p, segs)
    if len(segs) <= (4 if len(C.args) > 1 else 40) and all(s[0] == '1' for s in segs) and (len(segs) <= 4 or all(e.norm(st, s[1])[0] in 'si' for s in segs)):
        rev = False
        if len(C.args) > 1:
            if 'key' in e.insts[C.inst]['path'].split('::')[-1]:
                return sort_by_keys(e, st, C, a, p, segs)
        else:
            return sort_now(e, st, a, p, [s[1] for s in segs], [s[1] for s in segs])
    st.mark('sort of a sequence of unknown length') if len(segs) > 1 else None
    if len(segs) > 1 and not (len(segs) == 3 and segs[0][0] == 'm' and segs[2][0] == 'm' and segs[0][2] == segs[2][2]):
        ones = [s for s in segs if s[0] == '1']
        stars = [s for s in ones if e.starred(e.norm(st, s[1]))]
        rest = [s for s in segs if s not in stars]
        t = e.collapse(st, rest)
        if len(stars) > 1 or len(t) != 1:
            # any order of the exact elements
            import itertools
            if all(s[0] == '1' for s in segs) and len(segs) <= 4:
                out = []
                for perm in itertools.permutations(segs):
                    s = st.fork()
                    e.store(s, a, p, ('q', tuple(perm)))
                    out.append((s, UNIT))
                return out
            raise Undecided('sort of a mixed sequence')
        m = t[0] if t[0][0] == 'm' else ('m', st.fresh('len'), t[0][1])
        e.store(st, a, p, ('q', (m,) + tuple(stars) + ((('m', st.fresh('len'), m[2]),) if stars else ())))
    return UNIT


@reg('[T]::reverse')
def n_reverse(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    e.store(st, a, p, ('q', tuple(reversed(q[1]))))
    return UNIT


@reg('[T]::split_at', '[T]::split_at_mut')
def n_split_at(e, st, C):
    v = val(e, st, C.args[0])
    k = e.head(st, C.args[1])
    if is_bytes(e, C, v):
        v = e.norm(st, v)
        return tup(e.mkref(st, by_slice(e, st, v, ('i', 0), k)), e.mkref(st, by_slice(e, st, v, k, None)))
    a, p, q = seq_at(e, st, C.args[0])
    if k == seq_len(e, st, q):
        return tup(e.mkref(st, q), e.mkref(st, ('q', ())))
    if k[0] == 'i' and all(s[0] == '1' for s in q[1][:k[1]]) and len(q[1]) >= k[1]:
        return tup(e.mkref(st, ('q', q[1][:k[1]])), e.mkref(st, ('q', q[1][k[1]:])))
    raise Undecided('split_at of a summarised sequence')


def n_chunks(e, st, C):
    """parts of at most n elements: none, one or (standing for several) two"""
    v = val(e, st, C.args[0])
    n = e.norm(st, C.args[1])
    if is_bytes(e, C, v):
        v = e.norm(st, v)
        out = []
        for s, none in e.cases(st, by_empty(e, st, v)):
            if none:
                out.append((s, ('I', ())))
                continue
            for s2, more in e.cases(s, e.binop(s, 'Lt', n, by_len(e, s, v))):
                parts = (by_slice(e, s2, v, ('i', 0), n), by_slice(e, s2, v, n, None)) if more else (v,)
                out.append((s2, ('I', tuple(('1', e.mkref(s2, x)) for x in parts))))
        return out
    return NotImplemented


@reg('String::from_utf8_lossy')
def n_lossy(e, st, C):
    v = e.norm(st, deep(e, st, C.args[0]))
    if v[0] == 's':
        return v
    if v[0] == 'q' and all(x[0] == '1' and x[1][0] == 'i' and x[1][1] < 128 for x in v[1]):
        return ('s', ''.join(chr(x[1][1]) for x in v[1]))
    if v[0] not in ('y', 't'):
        raise Undecided('text of a summarised sequence')
    out = []
    for s, good in e.cases(st, ('t', 'utf8', v)):
        out.append((s, v if good else ('t', 'lossy', v)))
    return out



@reg('Vec::split_off')
def n_split_off(e, st, C):
    a, p = tgt(e, st, C.args[0])
    v = e.head(st, e.load(st, a, p))
    k = e.head(st, C.args[1])
    if is_bytes(e, C, v):
        v = e.norm(st, v)
        e.store(st, a, p, by_slice(e, st, v, ('i', 0), k))
        return by_slice(e, st, v, k, None)
    q = e.as_seq(st, a, p)
    if k[0] == 'i' and all(s[0] == '1' for s in q[1][:k[1]]) and len(q[1]) >= k[1]:
        e.store(st, a, p, ('q', q[1][:k[1]]))
        return ('q', q[1][k[1]:])
    raise Undecided('split_off of a summarised sequence')


@reg('[T]::split_first', '[T]::split_last')
def n_split_first(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    if not all(s[0] == '1' for s in q[1]):
        raise Undecided('split_first of a summarised sequence')
    if not q[1]:
        return NONE
    if 'first' in e.insts[C.inst]['path']:
        return some(tup(('r', a, p + (('e', 0),)), e.mkref(st, ('q', q[1][1:]))))
    return some(tup(('r', a, p + (('e', len(q[1]) - 1),)), e.mkref(st, ('q', q[1][:-1]))))


@reg('[T]::join', '[T]::concat', 'slice::join', 'slice::concat')
def n_join(e, st, C):
    v = val(e, st, C.args[0])
    sep = val(e, st, C.args[1]) if len(C.args) > 1 else ('s', '')
    if v[0] == 'q' and all(s[0] == '1' and val(e, st, s[1])[0] == 's' for s in v[1]) and sep[0] == 's':
        return ('s', sep[1].join(val(e, st, s[1])[1] for s in v[1]))
    return ('t', 'join', deep(e, st, v), sep)


def deep(e, st, v, n=6):
    """value with references replaced by what they point to (for messages)"""
    v = e.head(st, v)
    if v is None or not isinstance(v, tuple) or n == 0:
        return v
    if v[0] in ('r', 'dyn'):
        try:
            return deep(e, st, e.derefv(st, v), n - 1)
        except Undecided:
            return v
    if v[0] == 'a':
        return ('a', v[1], tuple(deep(e, st, x, n - 1) for x in v[2]))
    if v[0] == 'q':
        return ('q', tuple((s[0], deep(e, st, s[1], n - 1)) if s[0] == '1' else s for s in v[1]))
    if v[0] == 't':
        return e.norm(st, v)
    return v


# --------------------------------------------------------------------- maps


def map_find(e, st, a, p, key):
    """[(state, index | None)]; unknown contents get a recorded entry"""
    m = e.as_map(st, a, p)
    cur = [st]
    out = []
    for i, (k, v) in enumerate(m[2]):
        nxt = []
        for s in cur:
            for s2, b in e.eq_cases(s, k, key):
                if b:
                    out.append((s2, None if v == ABS else i))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        if m[1] is None:
            out.append((s, None))
            continue
        k = val(e, s, key)
        s1 = s.fork()
        e.store(s1, a, p, ('h', m[1], m[2] + ((k, ABS),)))
        out.append((s1, None))
        if not s.facts.get(('t', 'mapempty', m[1][0])):
            s2 = s.fork()
            x = e.instantiate(s2, m[1][2], 'val')
            if is_opaque(x):
                x = ('y', ('c', ('t', 'at', m[1][0], e.norm(s2, k)), 0))
            e.store(s2, a, p, ('h', m[1], m[2] + ((k, x),)))
            # the key itself may carry structure (template)
            out.append((s2, len(m[2])))
    return out


@reg('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'BTreeMap::get_mut')
def n_mget(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.as_map(st, a, p)
    key = val(e, st, C.args[1])
    out = []
    for s, i in map_find(e, st, a, p, key):
        if i is None:
            out.append((s, NONE))
        else:
            m = e.head(s, e.load(s, a, p))
            out.append((s, some(('r', a, p + (('k', m[2][i][0]),)))))
    return out


@reg('HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key', 'BTreeSet::contains')
def n_mcontains(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.as_map(st, a, p)
    return [(s, ('b', int(i is not None))) for s, i in map_find(e, st, a, p, val(e, st, C.args[1]))]


@reg('HashMap.Index::index', 'BTreeMap.Index::index')
def n_mindex(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.as_map(st, a, p)
    out = []
    for s, i in map_find(e, st, a, p, val(e, st, C.args[1])):
        if i is None:
            e.panic(s, 'no entry for key')
        else:
            m = e.head(s, e.load(s, a, p))
            out.append((s, ('r', a, p + (('k', m[2][i][0]),))))
    return out


def map_insert(e, st, ref, key, v):
    """[(state, old value | ABS)]"""
    a, p = tgt(e, st, ref)
    e.as_map(st, a, p)
    key = e.head(st, key)
    out = []
    for s, i in map_find(e, st, a, p, key):
        m = e.head(s, e.load(s, a, p))
        if i is None:
            ents = tuple((k, x) for k, x in m[2] if not (x == ABS and e.eq_static(s, k, key)))
            e.store(s, a, p, ('h', m[1], ents + ((key, v),)))
            out.append((s, ABS))
        else:
            ents = list(m[2])
            old = ents[i][1]
            ents[i] = (ents[i][0], v)
            e.store(s, a, p, ('h', m[1], tuple(ents)))
            out.append((s, old))
    return out


@reg('HashMap::insert', 'BTreeMap::insert')
def n_minsert(e, st, C):
    return [(s, NONE if o == ABS else some(o)) for s, o in map_insert(e, st, C.args[0], C.args[1], C.args[2])]


@reg('HashSet::insert', 'BTreeSet::insert')
def n_sinsert(e, st, C):
    return [(s, ('b', int(o == ABS))) for s, o in map_insert(e, st, C.args[0], C.args[1], UNIT)]


@reg('HashMap::remove', 'BTreeMap::remove', 'HashSet::remove', 'BTreeSet::remove')
def n_mremove(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.as_map(st, a, p)
    isset = 'Set' in e.insts[C.inst]['short']
    out = []
    for s, i in map_find(e, st, a, p, val(e, st, C.args[1])):
        m = e.head(s, e.load(s, a, p))
        if i is None:
            out.append((s, FALSE if isset else NONE))
        else:
            ents = list(m[2])
            old = ents[i][1]
            if m[1] is None:
                del ents[i]
            else:
                ents[i] = (ents[i][0], ABS)
            e.store(s, a, p, ('h', m[1], tuple(ents)))
            out.append((s, TRUE if isset else some(old)))
    return out


def n_miter(kind):
    def f(e, st, C):
        a, p, m = map_at(e, st, C.args[0])
        return ('I', map_items(e, st, a, p, m, kind, 'BTree' in e.insts[C.inst]['short']))
    return f


for _k in ('HashMap', 'BTreeMap'):
    REG[_k + '::iter'] = n_miter('kr')
    REG[_k + '::iter_mut'] = n_miter('kr')
    REG[_k + '::keys'] = n_miter('k')
    REG[_k + '::values'] = n_miter('vr')
    REG[_k + '::values_mut'] = n_miter('vr')
    REG[_k + '::into_values'] = lambda e, st, C: ('I', tuple(x if x[0] != '1' else ('1', e.head(st, x[1])[2][1]) for x in map_items(e, st, None, None, e.as_map(st, *C_cell(e, st, C.args[0])), 'kv', 'BTree' in e.insts[C.inst]['short']) if x[0] == '1')) if exact_map(e, st, C) else NotImplemented
    REG[_k + '::into_keys'] = lambda e, st, C: ('I', map_items(e, st, None, None, e.as_map(st, *C_cell(e, st, C.args[0])), 'kval', 'BTree' in e.insts[C.inst]['short']))
for _k in ('HashSet', 'BTreeSet'):
    REG[_k + '::iter'] = n_miter('k')


def exact_map(e, st, C):
    return e.as_map(st, *C_cell(e, st, C.args[0]))[1] is None


def C_cell(e, st, v):
    r = e.mkref(st, v)
    return r[1], r[2]


# entries: ('a', 0 occupied / 1 vacant, (mapref, key))
@reg('HashMap::entry', 'BTreeMap::entry')
def n_entry(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.as_map(st, a, p)
    key = e.head(st, C.args[1])
    out = []
    for s, i in map_find(e, st, a, p, key):
        occ = int('BTree' in e.insts[C.inst]['short'])
        if i is not None:
            m = e.head(s, e.load(s, a, p))
            out.append((s, ('a', occ, (('ent', 1, ('r', a, p), m[2][i][0]),))))
        else:
            out.append((s, ('a', 1 - occ, (('ent', 0, ('r', a, p), key),))))
    return out


def ent(e, st, v):
    v = e.head(st, v)
    if v is not None and v[0] == 'a':
        v = e.head(st, v[2][0])
    if v is None or v[0] != 'ent':
        raise Undecided('map entry')
    return v


@reg('hash_map::Entry::or_insert', 'btree_map::Entry::or_insert')
def n_or_insert(e, st, C):
    x = ent(e, st, C.args[0])
    _, a, p = x[2]
    if x[1]:
        return ('r', a, p + (('k', x[3]),))
    return [(s, ('r', a, p + (('k', x[3]),))) for s, _ in map_insert(e, st, x[2], x[3], C.args[1])]


@reg('hash_map::Entry::or_insert_with', 'btree_map::Entry::or_insert_with', 'hash_map::Entry::or_default', 'btree_map::Entry::or_default')
def n_or_insert_with(e, st, C):
    x = ent(e, st, C.args[0])
    _, a, p = x[2]
    if x[1]:
        return ('r', a, p + (('k', x[3]),))
    if len(C.args) == 1:
        T = e.types[e.types[C.t['rt']]['e']]
        d = default_of(e, st, T)
        return [(s, ('r', a, p + (('k', x[3]),))) for s, _ in map_insert(e, st, x[2], x[3], d)]

    def conv(e2, s, v):
        return [(s2, ('r', a, p + (('k', x[3]),))) for s2, _ in map_insert(e2, s, x[2], x[3], v)]
    fi = C.t['at'][1]
    B = synth(e, ('call0', fi), 1, [([a_ref(13, 1)], t_call(('callfn', fi), [op_cp(13)], 0, 1)), ([], RET)], 'call')
    return start(e, st, C, B, [C.args[1]], conv)


def default_of(e, st, T):
    nm = T.get('name')
    if nm in ('Vec', 'VecDeque'):
        return ('q', ())
    if nm in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'):
        return ('h', None, ())
    if nm == 'String':
        return ('s', '')
    if nm == 'Option':
        return NONE
    if T['k'] in ('int', 'uint'):
        return ('i', 0)
    if T['k'] == 'bool':
        return FALSE
    raise Undecided('default of ' + T['s'])


@reg('hash_map::Entry::and_modify', 'btree_map::Entry::and_modify')
def n_and_modify(e, st, C):
    x = ent(e, st, C.args[0])
    if not x[1]:
        return C.args[0]
    _, a, p = x[2]
    entry = C.args[0]
    fi = C.t['at'][1]
    B = synth(e, ('call1', fi), 2, [([a_ref(13, 1)], t_call(('callfn', fi), [op_cp(13), op_mv(2)], 0, 1)), ([], RET)], 'call')
    return start(e, st, C, B, [C.args[1], ('r', a, p + (('k', x[3]),))], lambda e2, s, v: entry)


@reg('hash_map::Entry::key', 'btree_map::Entry::key', 'OccupiedEntry::key', 'VacantEntry::key')
def n_ekey(e, st, C):
    x = ent(e, st, val(e, st, C.args[0]))
    return e.mkref(st, x[3])


# ---------------------------------------------------------------- equality


def n_eq(e, st, C):
    a = val(e, st, C.args[0])
    b = val(e, st, C.args[1])
    return eq_value(e, st, a, b)


def eq_value(e, st, a, b):
    r = e.eq_static(st, a, b)
    if r is not None:
        return ('b', int(r))
    a, b = e.norm(st, a), e.norm(st, b)
    if a is None or b is None:
        raise Undecided('comparison of unset')
    if a[0] in ('r', 'a', 'q') or b[0] in ('r', 'a', 'q'):
        return e.eqkey(deep(e, st, a), deep(e, st, b))
    return e.eqkey(a, b)


def n_ne(e, st, C):
    return e.not_(n_eq(e, st, C))


for _k in ('String', 'str', 'Vec', '[T]', '[T;N]', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'OsStr', 'OsString', 'RecvError', 'SendError', 'TryRecvError', 'usize', 'isize', 'bool', 'u8', 'char', 'VecDeque', 'Instant', 'Duration', '&str', 'i32', 'u64', 'Path', 'PathBuf', 'Cow', 'ErrorKind'):
    REG[_k + '.PartialEq::eq'] = n_eq
    REG[_k + '.PartialEq::ne'] = n_ne
REG['SpecFromElem'] = n_eq


@reg('usize.Ord::cmp', 'isize.Ord::cmp', 'Duration.Ord::cmp', 'String.Ord::cmp', 'str.Ord::cmp', 'Instant.Ord::cmp', 'i32.Ord::cmp', 'u64.Ord::cmp', 'bool.Ord::cmp')
def n_cmp(e, st, C):
    a, b = val(e, st, C.args[0]), val(e, st, C.args[1])
    return cmp_cases(e, st, a, b)


def cmp_cases(e, st, a, b):
    out = []
    a, b = e.head(st, a), e.head(st, b)
    for _ in range(4):
        a, b = [e.head(st, e.derefv(st, x)) if x is not None and x[0] == 'r' else x for x in (a, b)]
    if a is not None and b is not None and a[0] == 's' and b[0] == 's':
        return [(st, ORD['lt' if a[1] < b[1] else 'gt' if a[1] > b[1] else 'eq'])]
    if a is not None and b is not None and a[0] == 'a' and b[0] == 'a':
        if a[1] != b[1]:
            return [(st, ORD['lt' if a[1] < b[1] else 'gt'])]
        cur = [(st, ORD['eq'])]
        for x, y in zip(a[2], b[2]):
            nxt = []
            for s, o in cur:
                nxt += cmp_cases(e, s, x, y) if o == ORD['eq'] else [(s, o)]
            cur = nxt
        return cur
    for s, q in e.eq_cases(st, a, b):
        if q:
            out.append((s, ORD['eq']))
        else:
            x = e.lt(s, e.head(s, a), e.head(s, b))
            for s2, l in e.cases(s, x):
                out.append((s2, ORD['lt' if l else 'gt']))
    return out


@reg('usize.PartialOrd::partial_cmp', 'isize.PartialOrd::partial_cmp', 'Duration.PartialOrd::partial_cmp', 'Instant.PartialOrd::partial_cmp')
def n_pcmp(e, st, C):
    return [(s, some(v)) for s, v in n_cmp(e, st, C)]


for _t in ('usize', 'isize', 'Duration', 'Instant', 'u64', 'i32'):
    for _n in ('lt', 'le', 'gt', 'ge'):
        REG['%s.PartialOrd::%s' % (_t, _n)] = (lambda n: lambda e, st, C: e.binop(st, n.capitalize(), val(e, st, C.args[0]), val(e, st, C.args[1])))(_n)


# ------------------------------------------------------------------ strings


@reg('T.ToString::to_string', 'char.ToString::to_string', 'bool.ToString::to_string', 'String.ToString::to_string', 'str.ToString::to_string')
def n_to_string(e, st, C):
    v = val(e, st, C.args[0])
    T = e.types[C.t['at'][0]]
    while T['k'] == 'ref':
        T = e.types[T['e']]
    if v[0] == 's' or T['k'] == 'str' or T.get('name') == 'String':
        return v
    if v[0] == 'i' and T['k'] in ('int', 'uint'):
        return ('s', str(v[1]))
    if v[0] == 'b':
        return ('s', 'true' if v[1] else 'false')
    if v[0] == 'i' and T['s'] == 'char':
        return ('s', chr(v[1]))
    return ('t', 'show', deep(e, st, v))


@reg('Argument::new_display')
def n_disp(e, st, C):
    v = deep(e, st, C.args[0])
    if v[0] in 'ib':
        T = {'s': ''}
        for t in C.t['at']:
            if isinstance(t, int) and e.types[t]['k'] != 'region':
                T = e.types[t]
        while T.get('k') == 'ref':
            T = e.types[T['e']]
        if T['s'] == 'char' and v[0] == 'i':
            return ('t', 'disp', ('s', chr(v[1])))
        if v[0] == 'b':
            return ('t', 'disp', ('s', 'true' if v[1] else 'false'))
    return ('t', 'disp', v)


@reg('Argument::new_debug')
def n_dbg(e, st, C):
    return ('t', 'dbg', deep(e, st, C.args[0]))


@reg('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def n_fstr(e, st, C):
    v = val(e, st, C.args[0])
    return v


def parse_template(b):
    """pieces of the compiled format template: literal runs and argument slots"""
    return b


@reg('Arguments::new')
def n_fargs(e, st, C):
    t = deep(e, st, C.args[0])
    a = val(e, st, C.args[1]) if len(C.args) > 1 else ('q', ())
    parts = template(t)
    args = [s[1] for s in a[1]] if a[0] == 'q' else []
    if parts is not None:
        out = []
        for x in parts:
            if x[0] == 'lit':
                out.append(('s', x[1]))
            else:
                if x[1] >= len(args):
                    return ('t', 'fmt', t) + tuple(args)
                y = e.head(st, args[x[1]])
                if len(x) > 2:
                    y = ('t', 'spec', x[2], y)
                elif y[0] == 't' and y[1] == 'disp' and y[2][0] == 's':
                    y = y[2]
                elif y[0] == 't' and y[1] == 'disp' and y[2][0] == 'i':
                    y = ('s', str(y[2][1]))
                out.append(y)
        res = []
        for x in out:
            if x[0] == 's' and res and res[-1][0] == 's':
                res[-1] = ('s', res[-1][1] + x[1])
            elif x == ('s', ''):
                pass
            else:
                res.append(x)
        if not res:
            return ('s', '')
        if len(res) == 1 and res[0][0] == 's':
            return res[0]
        return ('t', 'fmt') + tuple(res)
    return ('t', 'fmt', t) + tuple(args)


def template(t):
    """decode core::fmt's byte template; None when it is not understood"""
    if t[0] == 'y' and t[1][0] == '*':
        t = t[1][1]
    if t[0] != 't' or t[1] != 'bytes':
        return None
    b = t[2]
    if isinstance(b, str):
        try:
            b = eval(b)
        except Exception:
            return None
    out = []
    i = 0
    arg = 0
    n = len(b)
    while i < n:
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            s = bytes(b[i:i + c])
            i += c
            out.append(('lit', s.decode('utf8', 'replace')))
        elif c == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(('lit', bytes(b[i:i + ln]).decode('utf8', 'replace')))
            i += ln
        elif c == 0xC0:
            out.append(('arg', arg))
            arg += 1
        elif c & 0xC0 == 0xC0:
            at = i
            if c & 1:
                i += 4
            if c & 2:
                i += 2
            if c & 4:
                i += 2
            spec = tuple(b[at:i])
            if c & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            out.append(('arg', arg) + ((spec,) if spec else ()))
            arg += 1
        else:
            return None
    return out


@reg('fmt::format', 'fmt::format::format_inner')
def n_format(e, st, C):
    return e.head(st, C.args[0])


@reg('String::push_str', 'String.AddAssign::add_assign')
def n_push_str(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.store(st, a, p, str_cat(e, st, e.load(st, a, p), C.args[1]))
    return UNIT


@reg('String.Add::add')
def n_sadd(e, st, C):
    return str_cat(e, st, C.args[0], C.args[1])


@reg('[T]::ends_with')
def n_bends(e, st, C):
    v, w = e.norm(st, val(e, st, C.args[0])), e.norm(st, deep(e, st, C.args[1]))
    if w[0] == 't' and w[1] == 'bytes' and isinstance(w[2], tuple) and w[2] and isinstance(w[2][0], int):
        w = ('q', tuple(('1', ('i', x)) for x in w[2]))
    k = e.norm(st, seq_len(e, st, w)) if w[0] == 'q' else ('i', len(w[1].encode())) if w[0] == 's' else None
    if v == w:
        return TRUE
    if v[0] == 'q' and w[0] == 'q' and all(x[0] == '1' for x in v[1] + w[1]):
        if len(w[1]) > len(v[1]):
            return FALSE
        d = [e.eq_static(st, x[1], y[1]) for x, y in zip(v[1][len(v[1]) - len(w[1]):], w[1])]
        if None not in d:
            return ('b', int(all(d)))
    return ('t', 'ends', v, w)


@reg('str::ends_with', 'str::starts_with', 'str::contains')
def n_ends(e, st, C):
    a, b = val(e, st, C.args[0]), val(e, st, C.args[1])
    if a[0] == 's' and pat(e, st, b) is not None:
        b = ('s', pat(e, st, b))
    m = e.insts[C.inst]['short'].split('::')[-1]
    if a[0] == 's' and b[0] == 's':
        r = a[1].endswith(b[1]) if m == 'ends_with' else a[1].startswith(b[1]) if m == 'starts_with' else b[1] in a[1]
        return ('b', int(r))
    return ('t', m, e.norm(st, a), e.norm(st, b))


@reg('str::parse')
def n_parse(e, st, C):
    v = e.norm(st, val(e, st, C.args[0]))
    if v[0] == 's':
        import re
        T = re.search(r'Result<([iu])(8|16|32|64|size),', e.types[C.t['rt']]['s'])
        if T:
            w = 64 if T.group(2) == 'size' else int(T.group(2))
            lo, hi = (0, 2 ** w - 1) if T.group(1) == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            if re.fullmatch(r'\+?[0-9]+|-[0-9]+', v[1]) and lo <= int(v[1]) <= hi and (v[1][0] != '-' or lo):
                return ok(('i', int(v[1])))
            return err(('t', 'parse_err', v))
    t = ('t', 'parse', v, e.types[C.t['rt']]['s'])
    s2 = st.fork()
    return [(st, ok(t)), (s2, err(('t', 'parse_err', v)))]


def pat(e, st, v):
    """a concrete pattern: a character or a string"""
    v = e.norm(st, val(e, st, v))
    if v[0] == 'i' and 0 <= v[1] < 0x110000:
        return chr(v[1])
    return v[1] if v[0] == 's' else None


@reg('str::split_once')
def n_split_once(e, st, C):
    v = e.norm(st, val(e, st, C.args[0]))
    sep = pat(e, st, C.args[1])
    if v[0] == 's' and sep is not None:
        i = v[1].find(sep)
        return NONE if i < 0 else some(tup(('s', v[1][:i]), ('s', v[1][i + len(sep):])))
    s2 = st.fork()
    sep = e.norm(st, val(e, st, C.args[1]))
    return [(st, NONE), (s2, some(tup(('t', 'before', v, sep), ('t', 'after', v, sep))))]


@reg('str::trim', 'str::trim_end', 'str::trim_start', 'str::to_lowercase', 'str::to_uppercase', 'String::into_string')
def n_strfn(e, st, C):
    v = e.norm(st, val(e, st, C.args[0]))
    m = e.insts[C.inst]['short'].split('::')[-1]
    if v[0] == 's' and v[1].isascii():
        x = v[1]
        return ('s', {'trim': x.strip, 'trim_end': x.rstrip, 'trim_start': x.lstrip, 'to_lowercase': x.lower, 'to_uppercase': x.upper, 'into_string': x.__str__}[m](*((' \t\n\r\x0b\x0c',) if m.startswith('trim') else ())))
    return ('t', e.insts[C.inst]['short'], e.norm(st, val(e, st, C.args[0])))


@reg('OsStr::to_str', 'Path::to_str')
def n_to_str(e, st, C):
    v = e.norm(st, val(e, st, C.args[0]))
    if v[0] == 's':
        return some(v)
    s2 = st.fork()
    return [(st, some(v)), (s2, NONE)]


@reg('OsStr::to_string_lossy', 'Path::to_string_lossy', 'Path::display')
def n_lossy(e, st, C):
    return val(e, st, C.args[0])


# ------------------------------------------------------------ mem / misc


@reg('intrinsics::typed_swap_nonoverlapping', 'mem::swap')
def n_swap(e, st, C):
    a, p = e.deref(st, C.args[0])
    b, q = e.deref(st, C.args[1])
    x, y = e.load(st, a, p), e.load(st, b, q)
    e.store(st, a, p, y)
    e.store(st, b, q, x)
    return UNIT


@reg('mem::replace')
def n_replace(e, st, C):
    a, p = e.deref(st, C.args[0])
    x = e.load(st, a, p)
    e.store(st, a, p, C.args[1])
    return x


@reg('Option::take')
def n_otake(e, st, C):
    a, p = tgt_once(e, st, C.args[0])
    x = e.load(st, a, p)
    e.store(st, a, p, NONE)
    return x


def tgt_once(e, st, v):
    return e.deref(st, v)


@reg('Instant::now')
def n_now(e, st, C):
    return st.fresh('now')


@reg('Instant::duration_since', 'Instant::elapsed', 'Instant.Sub::sub')
def n_since(e, st, C):
    return ('t', 'since') + tuple(e.norm(st, val(e, st, x)) for x in C.args)


@reg('Duration::from_millis', 'Duration::from_secs', 'Duration::from_micros')
def n_dur(e, st, C):
    return ('t', 'dur', e.insts[C.inst]['short'], e.norm(st, e.head(st, C.args[0])))


@reg('panicking::panic', 'rt::panic_fmt', 'rt::begin_panic', 'option::unwrap_failed', 'unwrap_failed::unwrap_failed_inner', 'panicking::panic_fmt', 'option::expect_failed', 'result::unwrap_failed', 'panicking::unreachable_display', 'panicking::panic_explicit',
     'panicking::assert_failed', 'option::expect_failed::expect_failed', 'panicking::panic_display', 'panicking::panic_str_2015', 'panicking::panic_nounwind')
def n_panic(e, st, C):
    m = ''
    if C.args:
        try:
            v = deep(e, st, C.args[0])
            m = v[1] if v and v[0] == 's' else ''
        except Undecided:
            pass
    e.panic(st, '%s %s' % (e.insts[C.inst]['short'], m))
    return []


@reg('usize::unchecked_add::precondition_check', 'usize::unchecked_sub::precondition_check', 'precondition_check', 'ub_checks::check_language_ub')
def n_unit(e, st, C):
    return UNIT


@reg('process::exit')
def n_exit(e, st, C):
    e.emit(st, ('exit', e.head(st, C.args[0])))
    return []


@reg('io::_print')
def n_print(e, st, C):
    e.emit(st, ('print', e.norm(st, deep(e, st, C.args[0]))))
    return UNIT


@reg('io::_eprint')
def n_eprint(e, st, C):
    e.emit(st, ('eprint', e.norm(st, deep(e, st, C.args[0]))))
    return UNIT


@reg('io::Error::kind')
def n_kind(e, st, C):
    return ('t', 'errkind', e.norm(st, val(e, st, C.args[0])))


@reg('env::current_dir')
def n_cwd(e, st, C):
    s2 = st.fork()
    return [(st, ok(('t', 'cwd'))), (s2, err(s2.fresh('cwd_err')))]


@reg('env::vars_os', 'env::vars')
def n_vars(e, st, C):
    return ('t', 'vars_os')


# ---------------------------------------------------------------- channels


def new_chan(e, st, cap, site=None):
    nm = st.x.pop('chan', None)
    if nm is not None:
        return ('y', ('in', nm))
    return ('t', 'chan', st.fresh('chan'), cap, site)


@reg('channel::bounded', 'async_channel::bounded')
def n_bounded(e, st, C):
    cap = e.norm(st, e.head(st, C.args[0]))
    ch = new_chan(e, st, cap, C.t.get('sp'))
    e.emit(st, ('newchan', ch, cap))
    return tup(('t', 'Sender', ch), ('t', 'Receiver', ch))


@reg('channel::unbounded', 'async_channel::unbounded')
def n_unbounded(e, st, C):
    ch = new_chan(e, st, ('s', 'unbounded'), C.t.get('sp'))
    e.emit(st, ('newchan', ch, ('s', 'unbounded')))
    return tup(('t', 'Sender', ch), ('t', 'Receiver', ch))


@reg('Sender::send')
def n_send(e, st, C):
    return ('F', 'send', val(e, st, C.args[0]), C.args[1])


@fut('send')
def f_send(e, st, f, C):
    ch, msg = e.norm(st, f[2]), f[3]
    s2 = st.fork()
    e.emit(st, ('send', ch, e.norm(st, deep(e, st, msg)), True))
    e.emit(s2, ('send', ch, e.norm(s2, deep(e, s2, msg)), False))
    return [(st, ok(UNIT)), (s2, err(('a', 0, (msg,))))]


@reg('Sender::try_send')
def n_try_send(e, st, C):
    ch = e.norm(st, val(e, st, C.args[0]))
    out = []
    for r in (None, 0, 1):
        s = st.fork()
        e.emit(s, ('try_send', ch, e.norm(s, deep(e, s, C.args[1])), r is None))
        out.append((s, ok(UNIT) if r is None else err(('a', r, (C.args[1],)))))
    return out


@reg('Receiver::recv')
def n_recv(e, st, C):
    return ('F', 'recv', val(e, st, C.args[0]))


@fut('recv')
def f_recv(e, st, f, C):
    ch = e.norm(st, f[2])
    s2 = st.fork()
    out = []
    for s, m in messages(e, st, ch):
        e.emit(s, ('recv', ch, m))
        out.append((s, ok(m)))
    e.emit(s2, ('recv', ch, None))
    return out + [(s2, err(UNIT))]


def messages(e, st, ch):
    """what may come out of a channel: anything, or one of the kinds of message known to go into it"""
    sh = e.shapes(ch[2] if ch[0] == 't' and ch[1] == 'Receiver' else ch) if e.shapes else None
    if sh is None:
        return [(st, st.fresh('msg'))]
    out = []
    for i, (v, n) in enumerate(sorted(sh)):
        s = st if i == len(sh) - 1 else st.fork()
        if v == 'val':
            out.append((s, n))
            continue
        out.append((s, ('a', v, tuple(s.fresh('msg') for _ in range(n)))))
        if len(sh) > 1:
            s.mark('kind of message')
    return out


@reg('Receiver::try_recv')
def n_try_recv(e, st, C):
    ch = e.norm(st, val(e, st, C.args[0]))
    s2, s3 = st.fork(), st.fork()
    out = []
    for s, m in messages(e, st, ch):
        e.emit(s, ('try_recv', ch, m))
        out.append((s, ok(m)))
    e.emit(s2, ('try_recv', ch, 'empty'))
    e.emit(s3, ('try_recv', ch, 'closed'))
    return out + [(s2, err(('a', 0, ()))), (s3, err(('a', 1, ())))]


@reg('Sender::close', 'Receiver::close')
def n_close(e, st, C):
    e.emit(st, ('close', e.norm(st, val(e, st, C.args[0]))))
    return st.fresh('closed')


@reg('Sender::is_closed', 'Receiver::is_closed', 'Receiver::is_empty', 'Sender::is_empty', 'Sender::is_full', 'Receiver::is_full', 'Receiver::len', 'Sender::len')
def n_chq(e, st, C):
    v = st.fresh(e.insts[C.inst]['short'])
    e.emit(st, ('query', e.insts[C.inst]['short'], e.norm(st, val(e, st, C.args[0])), v))
    return v


@reg('Sender::capacity', 'Receiver::capacity')
def n_capacity(e, st, C):
    ch = e.norm(st, val(e, st, C.args[0]))
    while ch[0] == 't' and ch[1] in ('Sender', 'Receiver'):
        ch = e.norm(st, ch[2])
    if ch[0] == 't' and ch[1] == 'chan':
        return NONE if ch[3] == ('s', 'unbounded') else some(ch[3])
    s2 = st.fork()
    return [(st, some(st.fresh('capacity'))), (s2, NONE)]


# ------------------------------------------------------------------ futures


def n_poll_native(e, st, C):
    r = e.poll(st, C.args[0], C)
    return r


def await_body(e):
    """_0 = (poll(_1) as Ready).0"""
    return synth(e, 'await', 1, [
        ([], t_call(('native', n_poll_native), [op_cp(1)], 2, 1)),
        ([a_use(0, op_fld(2, 0))], RET),
    ], 'await')


@reg('task::block_on', 'block_on::block_on', 'executor::block_on')
def n_block_on(e, st, C):
    r = e.mkref(st, C.args[0])
    return start(e, st, C, await_body(e), [r])


@reg('FutureExt::join', 'future::FutureExt::join', 'FutureExt::try_join')
def n_fjoin(e, st, C):
    return ('F', 'join', C.args[0], C.args[1])


_par = {}


def n_par(mark):
    def f(e, st, C):
        e.emit(st, ('par', mark))
        return blur(e, st, C.args[0]) if C.args else UNIT
    if mark not in _par:
        _par[mark] = f
    return _par[mark]


def blur(e, st, v):
    """counts in the result of one branch: any number (keeps the other branches from multiplying)"""
    v = e.head(st, v)
    if v is None:
        return v
    if v[0] == 'i' or v[0] == 'l' or v[0] == 't' and v[1] in ('Add', 'Sub', 'Mul'):
        return st.fresh('n')
    if v[0] == 'a':
        return ('a', v[1], tuple(blur(e, st, x) for x in v[2]))
    return v


@fut('join')
def f_join(e, st, f, C):
    r1, r2 = e.mkref(st, f[2]), e.mkref(st, f[3])
    B = synth(e, 'join', 2, [
        ([], t_call(('native', n_par('[')), [], 5, 3)),
        ([], t_call(('native', n_poll_native), [op_cp(2)], 4, 4)),
        ([a_agg(0, [op_fld(6, 0), op_fld(7, 0)])], RET),
        ([], t_call(('native', n_poll_native), [op_cp(1)], 3, 5)),
        ([], t_call(('native', n_par(']')), [op_cp(4)], 7, 2)),
        ([], t_call(('native', n_par('|')), [op_cp(3)], 6, 1)),
    ], 'join')
    e.push(st, B, [r1, r2], C.dest, C.target, lambda e2, s, v: ready(v), C.t.get('sp'))
    return PUSHED


def n_joinN(e, st, C):
    return ('F', 'joinN', ('a', 0, tuple(C.args)))


for _n in ('join', 'join3', 'join4', 'join5'):
    for _p in ('future::join::', 'future::', 'future::future::'):
        REG[_p + _n] = n_joinN
        REG['futures_util::' + _p + _n] = n_joinN


@fut('joinN')
def f_joinN(e, st, f, C):
    fs = e.head(st, f[2])[2]
    n = len(fs)
    bbs, order = [], list(range(n))
    g = n + 1
    for i in order:
        bbs.append(([], t_call(('native', n_par('(' if i == 0 else '}')), [], 4 * n + 1, len(bbs) + 1)))
        bbs.append(([], t_call(('native', n_par('{')), [], 4 * n + 1, len(bbs) + 1)))
        bbs.append(([], t_call(('native', n_poll_native), [op_cp(i + 1)], g + i, len(bbs) + 1)))
    bbs.append(([], t_call(('native', n_par('}')), [], 4 * n + 1, len(bbs) + 1)))
    bbs.append(([], t_call(('native', n_par(')')), [], 4 * n + 1, len(bbs) + 1)))
    bbs.append(([a_agg(0, [op_fld(g + i, 0) for i in range(n)])], RET))
    B = synth(e, ('joinN', n), n, bbs, 'join')
    e.push(st, B, [e.mkref(st, x) for x in fs], C.dest, C.target, lambda e2, s, v: ready(v), C.t.get('sp'))
    return PUSHED


@reg('future::ready', 'ready::ready', 'future::ready::ready')
def n_ready(e, st, C):
    return ('F', 'ready', C.args[0])


@fut('ready')
def f_ready(e, st, f, C):
    return f[2]


@reg('task::yield_now')
def n_yield(e, st, C):
    return ('F', 'sleep', ('i', 0))


def awaited(e, st, v, C, wrap):
    """poll a future to its end; wrap(value) is what the call returns"""
    B = synth(e, 'await', 1, [
        ([], t_call(('native', n_poll_native), [op_cp(1)], 2, 1)),
        ([a_use(0, op_fld(2, 0))], RET),
    ], 'await')
    e.push(st, B, [e.mkref(st, v)], C.dest, C.target, lambda e2, s, r: wrap(r), C.t.get('sp'))
    return PUSHED


@reg('future::timeout')
def n_timeout(e, st, C):
    return ('F', 'timeout', C.args[0], C.args[1])


@reg('FutureExt::timeout')
def n_timeout2(e, st, C):
    return ('F', 'timeout', C.args[1], C.args[0])


@fut('timeout')
def f_timeout(e, st, f, C):
    s2 = st.fork()
    v = e.head(s2, f[3])
    if not (v and v[0] == 'F' and v[1] in ('send', 'recv', 'sleep')):
        s2.mark('timeout in the middle of something')
    e.emit(s2, ('now',))
    r = awaited(e, st, f[3], C, lambda x: ready(ok(x)))
    return [(st, r), (s2, err(UNIT))]


@reg('join_all::join_all', 'future::join_all')
def n_join_all(e, st, C):
    v, ti = to_iter(e, st, C.args[0], C.t['at'][0])
    return ('F', 'join_all', v, ti)


@fut('join_all')
def f_join_all(e, st, f, C):
    bb = [
        ([a_use(0, op_mv(2))], RET),
        ([a_use(11, op_fld(14, 0)), a_ref(10, 11)], t_call(('native', n_par('{')), [], 7, 6)),
        ([a_ref(13, 2), a_use(9, op_fld(12, 0))], t_call(('native', n_push_to), [op_cp(13), op_mv(9)], 8, 0)),
        ([], t_call(('native', n_poll_native), [op_cp(10)], 6, 7)),
        ([], t_call(('native', n_par('}')), [op_cp(6)], 12, 5)),
    ]
    B = loop_over(e, 'join_all', 'join_all', f[3], None, bb)

    def done(e2, s, v):
        e2.emit(s, ('par', ')'))
        return ready(v)
    e.emit(st, ('par', '('))
    e.push(st, B, [f[2], ('q', ())], C.dest, C.target, done, C.t.get('sp'))
    if 0 in B.heads and not e.loop_head(st):
        return []
    return PUSHED


@reg('task::sleep')
def n_sleep(e, st, C):
    return ('F', 'sleep', C.args[0])


@fut('sleep')
def f_sleep(e, st, f, C):
    e.emit(st, ('sleep', e.norm(st, f[2])))
    return UNIT


# ------------------------------------------------------------------ file io


def io_result(e, st, okv, ev):
    s2 = st.fork()
    ee = ('t', 'ioerr', s2.fresh('io'))
    e.emit(st, ev + (True,))
    e.emit(s2, ev + (False,))
    return [(st, ok(okv)), (s2, err(ee))]


REG['async_std::fs::File::open'] = lambda e, st, C: ('F', 'open', val(e, st, C.args[0]))
REG['async_std::fs::File::create'] = lambda e, st, C: ('F', 'create', val(e, st, C.args[0]))
for _k in ('async_std::fs::File::open::<P>', 'async_std::fs::File::create::<P>'):
    REG[_k] = REG[_k.replace('::<P>', '')]


@fut('open')
def f_open(e, st, f, C):
    pth = e.norm(st, f[2])
    return io_result(e, st, ('t', 'file', 'r', pth), ('open', 'r', pth))


@fut('create')
def f_create(e, st, f, C):
    pth = e.norm(st, f[2])
    return io_result(e, st, ('t', 'file', 'w', pth), ('open', 'w', pth))


# the ways to open a file besides File::open and File::create
OPTS = ('read', 'write', 'append', 'truncate', 'create', 'create_new')


@reg('async_std::fs::OpenOptions::new')
def n_opts(e, st, C):
    return ('a', 0, (('b', 0),) * len(OPTS))


def opt_set(i):
    def f(e, st, C):
        a, p = tgt(e, st, C.args[0])
        o = e.head(st, e.load(st, a, p))
        b = e.norm(st, C.args[1])
        if o is None or o[0] != 'a' or len(o[2]) != len(OPTS) or b[0] != 'b':
            raise Undecided('how a file is opened')
        e.store(st, a, p, ('a', 0, o[2][:i] + (b,) + o[2][i + 1:]))
        return C.args[0]
    return f


for _i, _k in enumerate(OPTS):
    REG['async_std::fs::OpenOptions::' + _k] = opt_set(_i)


@reg('async_std::fs::OpenOptions::open')
def n_opts_open(e, st, C):
    o = e.norm(st, val(e, st, C.args[0]))
    if o[0] != 'a' or len(o[2]) != len(OPTS):
        raise Undecided('how a file is opened')
    on = tuple(k for k, b in zip(OPTS, o[2]) if b[1])
    mode = {('read',): 'r', ('write', 'truncate', 'create'): 'w'}.get(on, '+'.join(on))
    return ('F', 'openas', val(e, st, C.args[1]), ('s', mode))


@fut('openas')
def f_openas(e, st, f, C):
    pth = e.norm(st, f[2])
    return io_result(e, st, ('t', 'file', f[3][1], pth), ('open', f[3][1], pth))


REG['async_std::io::stdin'] = lambda e, st, C: ('t', 'stdio', 'stdin')
REG['async_std::io::stdout'] = lambda e, st, C: ('t', 'stdio', 'stdout')
REG['async_std::io::stderr'] = lambda e, st, C: ('t', 'stdio', 'stderr')
REG['std::io::stdin'] = lambda e, st, C: ('t', 'stdio', 'stdin')
REG['std::io::stdout'] = lambda e, st, C: ('t', 'stdio', 'stdout')


@reg('BufWriter::new')
def n_bufw(e, st, C):
    return ('t', 'bufwriter', e.head(st, C.args[0]))


def io_target(e, st, v):
    return e.norm(st, val(e, st, v))


def n_io(kind):
    def f(e, st, C):
        return ('F', kind, C.args[0]) + tuple(C.args[1:])
    return f


for _k in ('write_all', 'write', 'flush', 'close'):
    for _t in ('WriteExt', 'AsyncWriteExt', 'io::WriteExt'):
        REG['%s::%s' % (_t, _k)] = n_io(_k)
for _k in ('read', 'read_exact', 'read_to_end'):
    for _t in ('ReadExt', 'AsyncReadExt'):
        REG['%s::%s' % (_t, _k)] = n_io(_k)


@fut('write_all')
def f_write_all(e, st, f, C):
    w, d = io_target(e, st, f[2]), e.norm(st, deep(e, st, f[3]))
    return io_result(e, st, UNIT, ('write_all', w, d))


@fut('write')
def f_write(e, st, f, C):
    w, d = io_target(e, st, f[2]), e.norm(st, deep(e, st, f[3]))
    n = st.fresh('written')
    return io_result(e, st, n, ('write', w, d))


@fut('flush')
def f_flush(e, st, f, C):
    return io_result(e, st, UNIT, ('flush', io_target(e, st, f[2])))


@fut('close')
def f_close(e, st, f, C):
    return io_result(e, st, UNIT, ('ioclose', io_target(e, st, f[2])))


@fut('read')
def f_read(e, st, f, C):
    a, p = tgt(e, st, f[3])
    src = io_target(e, st, f[2])
    cap = None
    if e.read_script:
        try:
            cap = e.norm(st, seq_len(e, st, e.as_seq(st, a, p)))
        except Undecided:
            pass
    b, n = st.fresh('buf'), st.fresh('nread')
    e.store(st, a, p, b)
    if cap is not None and cap[0] == 'i' and cap[1] > 0:
        # a given sequence: reads that fill all there is, then the end
        k = ('nreads', src)
        i = st.facts.get(k, 0)
        st.facts[k] = i + 1
        n = cap if e.read_script[min(i, len(e.read_script) - 1)] == 'full' else ('i', 0)
        e.emit(st, ('read', src, n, b))
        return ok(n)
    s0, s2 = st.fork(), st.fork()
    st.facts[e.eqkey(n, ('i', 0))] = False
    e.emit(st, ('read', src, n, b))
    e.emit(s0, ('read', src, ('i', 0), b))
    x = ('t', 'ioerr', s2.fresh('io'))
    e.emit(s2, ('read', src, None, x))
    return [(st, ok(n)), (s0, ok(('i', 0))), (s2, err(x))]


REG['fs::File::open'] = lambda e, st, C: io_result(e, st, ('t', 'file', 'r', e.norm(st, val(e, st, C.args[0]))), ('open', 'r', e.norm(st, val(e, st, C.args[0]))))


@reg('fs::File.Read::read_to_string', 'io::Stdin.Read::read_to_string', 'Stdin.Read::read_to_string')
def n_read_to_string(e, st, C):
    src = e.norm(st, val(e, st, C.args[0]))
    a, p = tgt(e, st, C.args[1])
    s2 = st.fork()
    e.store(st, a, p, ('t', 'contents', src))
    e.emit(st, ('readall', src, True))
    e.emit(s2, ('readall', src, False))
    return [(st, ok(st.fresh('n'))), (s2, err(('t', 'ioerr', s2.fresh('io'))))]


# ---------------------------------------------------------------- processes
# a command: ('a', 0, (program, args, env, dir, stdin, stdout, stderr))
CMD = ('program', 'args', 'env', 'dir', 'stdin', 'stdout', 'stderr')


@reg('process::Command::new')
def n_cmd_new(e, st, C):
    return ('a', 0, (e.norm(st, val(e, st, C.args[0])), ('q', ()), ('q', ()), ('s', '<inherit>'), ('s', '<inherit>'), ('s', '<inherit>'), ('s', '<inherit>')))


def cmd_set(i, add=False):
    def f(e, st, C):
        a, p = tgt(e, st, C.args[0])
        c = e.head(st, e.load(st, a, p))
        if c is None or c[0] != 'a' or len(c[2]) != 7:
            raise Undecided('command builder')
        fs = list(c[2])
        x = e.norm(st, deep(e, st, C.args[1] if len(C.args) == 2 else tup(*C.args[1:])))
        if add:
            fs[i] = ('q', e.head(st, fs[i])[1] + (('1', x),))
        else:
            fs[i] = x
        e.store(st, a, p, ('a', 0, tuple(fs)))
        return C.args[0]
    return f


REG['process::Command::args'] = cmd_set(1, True)
REG['process::Command::arg'] = cmd_set(1, True)
REG['process::Command::envs'] = cmd_set(2, True)
REG['process::Command::env'] = cmd_set(2, True)
REG['process::Command::current_dir'] = cmd_set(3)
REG['process::Command::stdin'] = cmd_set(4)
REG['process::Command::stdout'] = cmd_set(5)
REG['process::Command::stderr'] = cmd_set(6)
REG['Stdio::null'] = lambda e, st, C: ('s', 'null')
REG['Stdio::piped'] = lambda e, st, C: ('s', 'piped')
REG['Stdio::inherit'] = lambda e, st, C: ('s', 'inherit')


@reg('process::Command::env_clear')
def n_env_clear(e, st, C):
    a, p = tgt(e, st, C.args[0])
    c = e.head(st, e.load(st, a, p))
    fs = list(c[2])
    fs[2] = ('q', e.head(st, fs[2])[1] + (('1', ('s', '<clear>')),))
    e.store(st, a, p, ('a', 0, tuple(fs)))
    return C.args[0]


@reg('process::Command::spawn')
def n_spawn(e, st, C):
    c = e.norm(st, deep(e, st, C.args[0]))
    s2 = st.fork()
    ident = st.fresh('child')
    e.emit(st, ('spawn', c, True))
    e.emit(s2, ('spawn', c, False))

    def io(i, nm):
        return some(('t', nm, ident)) if c[2][i] == ('s', 'piped') else NONE
    child = ('a', 0, (io(4, 'ChildStdin'), io(5, 'ChildStdout'), io(6, 'ChildStderr'), ('t', 'child', ident)))
    return [(st, ok(child)), (s2, err(('t', 'ioerr', s2.fresh('spawn'))))]


@reg('process::Child::status')
def n_status(e, st, C):
    return ('F', 'status', e.norm(st, deep(e, st, C.args[0])))


@fut('status')
def f_status(e, st, f, C):
    return io_result(e, st, ('t', 'status', f[2]), ('wait', f[2]))


@reg('ExitStatus::code')
def n_code(e, st, C):
    v = e.norm(st, val(e, st, C.args[0]))
    s2 = st.fork()
    e.emit(st, ('exitcode', True))
    e.emit(s2, ('exitcode', False))
    return [(st, some(('t', 'code', v))), (s2, NONE)]


@reg('ExitStatus::success')
def n_success(e, st, C):
    return ('t', 'success', e.norm(st, val(e, st, C.args[0])))


# --------------------------------------------------------------- formatters


def n_fmt_ok(e, st, C):
    s2 = st.fork()
    return [(st, ok(UNIT))]


for _n in ('write_fmt', 'write_str', 'debug_c_like_enum_write_str', 'pad') + tuple('debug_tuple_field%d_finish' % i for i in range(1, 6)) + tuple('debug_struct_field%d_finish' % i for i in range(1, 6)) + ('debug_struct_fields_finish', 'debug_tuple_fields_finish'):
    REG['Formatter::' + _n] = n_fmt_ok


# --------------------------------------------------------- serde, clap, misc


def n_serde_from(e, st, C):
    v = e.norm(st, val(e, st, C.args[0]))
    fn = e.insts[C.inst]['short']
    s2 = st.fork()
    e.emit(st, ('deserialize', fn, v, True))
    e.emit(s2, ('deserialize', fn, v, False))
    return [(st, ok(('y', ('c', ('t', fn, v), 0)))), (s2, err(('t', 'serde_err', fn, v)))]


REG['serde_json::from_str'] = n_serde_from
REG['serde_yaml::from_str'] = n_serde_from


def n_serde_to(e, st, C):
    v = e.norm(st, deep(e, st, C.args[0]))
    fn = e.insts[C.inst]['short']
    s2 = st.fork()
    st.facts = dict(st.facts)
    st.facts[('t', 'eq', ('s', ''), ('t', fn, v))] = False        # never an empty text
    return [(st, ok(('t', fn, v))), (s2, err(('t', 'serde_err', fn)))]


for _k in ('serde_json::to_string', 'serde_yaml::to_string', 'serde_json::to_string_pretty'):
    REG[_k] = n_serde_to


def term_fn(e, st, C):
    return ('t', e.insts[C.inst]['short']) + tuple(e.norm(st, deep(e, st, x)) for x in C.args)


for _k in ('Node::new', 'Stmt.From::from', 'PrinterContext.Default::default', 'Graph.DotPrinter::print'):
    REG[_k] = term_fn


# ------------------------------------------------------------ integer helpers


def both(e, st, t):
    """split on an unknown truth value -> [(state, bool)]"""
    t = e.norm(st, t)
    if t[0] == 'b':
        return [(st, bool(t[1]))]
    out = []
    for x in (True, False):
        s = st.fork()
        if e.assume(s, t, x):
            out.append((s, x))
    return out


def n_minmax(small):
    def f(e, st, C):
        a, b = (e.norm(st, val(e, st, x)) for x in C.args[:2])
        return [(s, (a if x == small else b)) for s, x in both(e, st, e.binop(st, 'Lt', a, b))]
    return f


for _k in ('intrinsics::integer_min', 'usize::min', 'isize::min', 'cmp::min', 'usize.Ord::min', 'isize.Ord::min', 'i32.Ord::min'):
    REG[_k] = n_minmax(True)
for _k in ('intrinsics::integer_max', 'usize::max', 'isize::max', 'cmp::max', 'usize.Ord::max', 'isize.Ord::max', 'i32.Ord::max'):
    REG[_k] = n_minmax(False)


def n_satsub(e, st, C):
    a, b = (e.norm(st, val(e, st, x)) for x in C.args[:2])
    return [(s, ('i', 0) if x else e.binop(s, 'Sub', a, b)) for s, x in both(e, st, e.binop(st, 'Lt', a, b))]


def n_arith(op):
    return lambda e, st, C: e.binop(st, op, *(val(e, st, x) for x in C.args[:2]))


for _t in ('usize', 'u8', 'u32', 'u64'):
    for _p in ('intrinsics', _t):
        REG[_p + '::saturating_sub'] = n_satsub
for _t in ('usize', 'u8', 'u32', 'u64', 'isize', 'i32', 'i64', 'intrinsics'):
    REG[_t + '::saturating_add'] = n_arith('Add')
    REG[_t + '::wrapping_add'] = n_arith('Add')
    REG[_t + '::wrapping_sub'] = n_arith('Sub')
