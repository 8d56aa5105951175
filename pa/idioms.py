"""Models of further library functions: the ones a change to the repository is likely to reach for.
Each works on exact (fully known) sequences, maps and strings, and declines otherwise."""
from natives import *
from natives import (REG, reg, seq_at, map_at, val, tgt, pat, range_of, sub_ref, items_val, items_ref, n_leaf_next, n_leaf_next_back, n_leaf_len, loop_over, start, synth, op_mv, op_cp, op_fld,
                     a_use, a_ref, a_const, t_call, t_bool, t_goto, RET, cmp_cases, ORD, map_find, map_items, ent, map_insert, both, str_cat, _uid, deep, n_push_to, C_cell, eq_value, seq_len)
from engine import UNIT, NONE, ABS, TRUE, FALSE, some, ok, err, tup, Undecided


def exact(q):
    return all(s[0] == '1' for s in q[1])


def exact_seq(f):
    """f(e, st, C, a, p, values)"""
    def g(e, st, C):
        a, p, q = seq_at(e, st, C.args[0])
        if not exact(q):
            return NotImplemented
        return f(e, st, C, a, p, [s[1] for s in q[1]])
    return g


def put(e, st, a, p, xs):
    e.store(st, a, p, ('q', tuple(('1', x) for x in xs)))


def num(e, st, v):
    v = e.norm(st, val(e, st, v))
    return v[1] if v[0] == 'i' else None


# ------------------------------------------------------------------- slices

def d_swap(e, st, C, a, p, xs):
    i, j = num(e, st, C.args[1]), num(e, st, C.args[2])
    if i is None or j is None:
        return NotImplemented
    if max(i, j) >= len(xs):
        e.panic(st, 'swap out of bounds')
        return []
    xs[i], xs[j] = xs[j], xs[i]
    put(e, st, a, p, xs)
    return UNIT


def d_rot(left):
    def f(e, st, C, a, p, xs):
        k = num(e, st, C.args[1])
        if k is None or k > len(xs):
            return NotImplemented
        k = k if left else len(xs) - k
        put(e, st, a, p, xs[k:] + xs[:k])
        return UNIT
    return exact_seq(f)


for _k in ('[T]', 'VecDeque'):
    REG[_k + '::swap'] = exact_seq(d_swap)
    REG[_k + '::rotate_left'] = d_rot(True)
    REG[_k + '::rotate_right'] = d_rot(False)


def pieces(kind):
    def f(e, st, C, a, p, xs):
        k = num(e, st, C.args[1])
        if not k:
            return NotImplemented
        n = len(xs)
        rs = {'windows': [(i, i + k) for i in range(n - k + 1)], 'chunks': [(i, min(i + k, n)) for i in range(0, n, k)], 'chunks_exact': [(i, i + k) for i in range(0, n - k + 1, k)]}[kind]
        return ('I', tuple(('1', e.mkref(st, ('q', tuple(('1', x) for x in xs[i:j])))) for i, j in rs))
    return exact_seq(f)


for _k in ('windows', 'chunks', 'chunks_exact'):
    REG['[T]::' + _k] = pieces(_k)


def d_chunks(e, st, C, known=REG['[T]::chunks']):
    r = n_chunks(e, st, C)
    return known(e, st, C) if r is NotImplemented else r


REG['[T]::chunks'] = d_chunks
for _k in ("Range", "Windows", "Chunks", 'ChunksExact', 'slice::Split', 'Split', 'Chars', 'Bytes', 'Difference', 'Intersection', 'Union', 'SymmetricDifference', 'btree_map::Range', 'CharIndices', 'Lines', 'SplitWhitespace', 'RSplit',
           'SplitN', 'SplitTerminator'):
    REG[_k + '.Iterator::next'] = n_leaf_next
    REG[_k + '.DoubleEndedIterator::next_back'] = n_leaf_next_back


def n_size_hint(e, st, C):
    v = e.head(st, val(e, st, C.args[0]))
    if v is None or v[0] != 'I':
        return tup(('i', 0), NONE)
    n = seq_len(e, st, ('q', v[1]))
    return tup(n, some(n))


for _k in list(REG):
    if _k.endswith('.Iterator::next'):
        REG[_k[:-4] + 'size_hint'] = n_size_hint


def split_slice(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    if not exact(q):
        return NotImplemented
    n = len(q[1])
    if n > 8:
        return NotImplemented
    fi = C.t['at'][1]
    bbs = []
    for k in range(n):
        bbs.append(([a_ref(13, 1)], t_call(('callfn', fi), [op_cp(13), ('const', ('r', a, p + (('e', k),)))] if False else [op_cp(13), op_cp(2 + k)], 2 + k, k + 1)))

    def done(e2, s, C2):
        seps = [e2.head(s, x) for x in C2.args]
        if any(x[0] != 'b' for x in seps):
            raise Undecided('split by an unknown')
        out, cur = [], []
        for x, b in zip(q[1], seps):
            if b[1]:
                out.append(cur)
                cur = []
            else:
                cur.append(x)
        out.append(cur)
        return ('I', tuple(('1', e2.mkref(s, ('q', tuple(c)))) for c in out))
    bbs.append(([], t_call(('native', done), [op_cp(2 + i) for i in range(n)], 0, n + 1)))
    bbs.append(([], RET))
    _uid[0] += 1
    B = synth(e, ('splitby', _uid[0]), 1 + n, bbs, '[T]::split')
    return start(e, st, C, B, [C.args[1]] + [('r', a, p + (('e', k),)) for k in range(n)])


REG['[T]::split'] = split_slice


# ------------------------------------------------------------------ vectors

@reg('Vec::dedup')
def n_dedup(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    if not exact(q):
        return NotImplemented
    cur = [(st, [])]
    for sg in q[1]:
        nxt = []
        for s, xs in cur:
            if not xs:
                nxt.append((s, [sg[1]]))
                continue
            for s2, b in e.eq_cases(s, xs[-1], sg[1]):
                nxt.append((s2, xs if b else xs + [sg[1]]))
        cur = nxt
    for s, xs in cur:
        put(e, s, a, p, xs)
    return [(s, UNIT) for s, _ in cur]


def dedup_with(key):
    def f(e, st, C):
        a, p, q = seq_at(e, st, C.args[0])
        n = len(q[1])
        if not exact(q) or n > 8:
            return NotImplemented
        if n < 2:
            return UNIT
        fi = C.t['at'][1]
        bbs = []
        # locals: 1 closure, 2.. references to the elements, 11.. results
        if key:
            for k in range(n):
                bbs.append(([a_ref(12, 1)], t_call(('callfn', fi), [op_cp(12), op_cp(2 + k)], 2 + k, k + 1)))

            def done(e2, s, C2):
                cur = [(s, [0])]
                for k in range(1, n):
                    cur = [(s2, ix if b else ix + [k]) for s1, ix in cur for s2, b in e2.eq_cases(s1, C2.args[ix[-1]], C2.args[k])]
                for s2, ix in cur:
                    put(e2, s2, a, p, [q[1][i][1] for i in ix])
                return [(s2, UNIT) for s2, _ in cur]
            bbs.append(([], t_call(('native', done), [op_cp(2 + i) for i in range(n)], 0, n + 1)))
            bbs.append(([], RET))
        else:
            # 11 = the last element kept, 10 = list of kept values
            bbs.append(([a_use(11, op_cp(2)), a_const(10, ('q', (('1', q[1][0][1]),)))], t_goto(1)))
            for k in range(1, n):
                b = len(bbs)
                bbs.append(([a_ref(12, 1)], t_call(('callfn', fi), [op_cp(12), op_cp(2 + k), op_cp(11)], 13, b + 1)))
                bbs.append(([], t_bool(13, b + 2, b + 3)))
                bbs.append(([a_use(11, op_cp(2 + k)), a_ref(14, 10)], t_call(('native', lambda e2, s, C2: n_push_to(e2, s, _with(C2, e2.derefv(s, C2.args[1])))), [op_cp(14), op_cp(2 + k)], 15, b + 3)))
            b = len(bbs)

            def done2(e2, s, C2):
                e2.store(s, a, p, e2.head(s, C2.args[0]))
                return UNIT
            bbs.append(([], t_call(('native', done2), [op_cp(10)], 0, b + 1)))
            bbs.append(([], RET))
        _uid[0] += 1
        B = synth(e, ('dedup', _uid[0]), 1 + n, bbs, 'Vec::dedup_by')
        return start(e, st, C, B, [C.args[1]] + [('r', a, p + (('e', k),)) for k in range(n)])
    return f


def _with(C, v):
    C.args = [C.args[0], v]
    return C


REG['Vec::dedup_by'] = dedup_with(False)
REG['Vec::dedup_by_key'] = dedup_with(True)


@reg('Vec::resize')
def n_resize(e, st, C):
    a, p, q = seq_at(e, st, C.args[0])
    k = num(e, st, C.args[1])
    if not exact(q) or k is None or k > 64:
        return NotImplemented
    xs = [s[1] for s in q[1]]
    put(e, st, a, p, (xs + [C.args[2]] * k)[:k])
    return UNIT


REG['Vec.Extend::extend_one'] = n_push_to
REG['Vec.Extend::extend_one_unchecked'] = n_push_to
REG['Vec.Extend::extend_reserve'] = lambda e, st, C: UNIT
REG['intrinsics::cold_path'] = lambda e, st, C: UNIT
REG['[T]::fill'] = exact_seq(lambda e, st, C, a, p, xs: (put(e, st, a, p, [C.args[1]] * len(xs)), UNIT)[1])
REG['[T]::starts_with'] = lambda e, st, C: _prefix(e, st, C)


def _prefix(e, st, C):
    a, b = val(e, st, C.args[0]), val(e, st, C.args[1])
    if not (a[0] == 'q' and b[0] == 'q' and exact(a) and exact(b)):
        return NotImplemented
    if len(b[1]) > len(a[1]):
        return FALSE
    return eq_value(e, st, ('q', a[1][:len(b[1])]), b)


# --------------------------------------------------------------------- maps

def retain_map(isset):
    def f(e, st, C):
        a, p, m = map_at(e, st, C.args[0])
        if m[1] is not None:
            return NotImplemented
        ents = [(k, v) for k, v in m[2] if v != ABS]
        n = len(ents)
        if n > 8:
            return NotImplemented
        fi = C.t['at'][1]
        bbs = []
        for k in range(n):
            args = [op_cp(2 + k)] if isset else [op_cp(2 + k), ('move', (2 + k, (('fx', 1),), 0))]
            if not isset:
                args = [('move', (2 + k, (('fx', 0),), 0)), ('move', (2 + k, (('fx', 1),), 0))]
            bbs.append(([a_ref(13, 1)], t_call(('callfn', fi), [op_cp(13)] + args, 2 + k, k + 1)))

        def done(e2, s, C2):
            cur = [(s, [])]
            for (k, v), b in zip(ents, C2.args):
                nxt = []
                for s1, ks in cur:
                    for s2, t in both(e2, s1, b):
                        nxt.append((s2, ks + [k] if t else ks))
                cur = nxt
            for s1, ks in cur:
                now = e2.head(s1, e2.load(s1, a, p))
                e2.store(s1, a, p, ('h', None, tuple((k, v) for k, v in now[2] if k in ks)))
            return [(s1, UNIT) for s1, _ in cur]
        bbs.append(([], t_call(('native', done), [op_cp(2 + i) for i in range(n)], 0, n + 1)))
        bbs.append(([], RET))
        _uid[0] += 1
        B = synth(e, ('mretain', _uid[0]), 1 + n, bbs, 'retain')
        items = [e.mkref(st, k) if isset else tup(e.mkref(st, k), ('r', a, p + (('k', k),))) for k, _ in ents]
        return start(e, st, C, B, [C.args[1]] + items)
    return f


for _k in ('HashMap', 'BTreeMap'):
    REG[_k + '::retain'] = retain_map(False)
for _k in ('HashSet', 'BTreeSet'):
    REG[_k + '::retain'] = retain_map(True)


@reg('HashMap::get_key_value', 'BTreeMap::get_key_value', 'HashSet::get', 'BTreeSet::get')
def n_gkv(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.as_map(st, a, p)
    isset = 'Set' in e.insts[C.inst]['short']
    out = []
    for s, i in map_find(e, st, a, p, val(e, st, C.args[1])):
        if i is None:
            out.append((s, NONE))
        else:
            m = e.head(s, e.load(s, a, p))
            k = m[2][i][0]
            out.append((s, some(e.mkref(s, k) if isset else tup(e.mkref(s, k), ('r', a, p + (('k', k),))))))
    return out


@reg('HashMap::remove_entry', 'BTreeMap::remove_entry')
def n_rme(e, st, C):
    a, p = tgt(e, st, C.args[0])
    if e.as_map(st, a, p)[1] is not None:
        return NotImplemented
    out = []
    for s, i in map_find(e, st, a, p, val(e, st, C.args[1])):
        m = e.head(s, e.load(s, a, p))
        if i is None:
            out.append((s, NONE))
        else:
            k, v = m[2][i]
            e.store(s, a, p, ('h', None, m[2][:i] + m[2][i + 1:]))
            out.append((s, some(tup(k, v))))
    return out


def ordered(e, st, ref):
    a, p, m = map_at(e, st, ref)
    if m[1] is not None:
        return None
    return a, p, [x[1] for x in map_items(e, st, a, p, m, 'kr', True)]


def end_entry(last, pop):
    def f(e, st, C):
        o = ordered(e, st, C.args[0])
        if o is None:
            return NotImplemented
        a, p, xs = o
        isset = 'Set' in e.insts[C.inst]['short']
        if not xs:
            return NONE
        x = xs[-1 if last else 0]
        kref, vref = e.head(st, x)[2]
        if not pop:
            return some(kref if isset else x)
        k = e.derefv(st, kref)
        m = e.as_map(st, a, p)
        v = [y for kk, y in m[2] if kk == k][0]
        e.store(st, a, p, ('h', None, tuple((kk, y) for kk, y in m[2] if kk != k)))
        return some(k if isset else tup(k, v))
    return f


REG['BTreeMap::first_key_value'] = REG['BTreeSet::first'] = end_entry(False, False)
REG['BTreeMap::last_key_value'] = REG['BTreeSet::last'] = end_entry(True, False)
REG['BTreeMap::pop_first'] = REG['BTreeSet::pop_first'] = end_entry(False, True)
REG['BTreeMap::pop_last'] = REG['BTreeSet::pop_last'] = end_entry(True, True)


@reg('BTreeMap::range')
def n_brange(e, st, C):
    o = ordered(e, st, C.args[0])
    T = e.types[C.t['at'][1]]
    f = e.head(st, C.args[1])
    if o is None or f[0] != 'a':
        return NotImplemented
    fs = [e.norm(st, val(e, st, x)) for x in f[2]]
    nm = T.get('name')
    out = []
    for x in o[2]:
        k = e.norm(st, e.derefv(st, e.head(st, x)[2][0]))
        if any(y[0] not in ('s', 'i') for y in [k] + fs[:2]):
            return NotImplemented
        lo, hi, inc = {'Range': (0, 1, False), 'RangeFrom': (0, None, False), 'RangeTo': (None, 0, False), 'RangeFull': (None, None, False), 'RangeInclusive': (0, 1, True), 'RangeToInclusive': (None, 0, True)}.get(nm, (9, 9, 9))
        if lo == 9:
            return NotImplemented
        if lo is not None and k[1] < fs[lo][1] or hi is not None and (k[1] > fs[hi][1] or k[1] == fs[hi][1] and not inc):
            continue
        out.append(('1', x))
    return ('I', tuple(out))


def set_op(kind):
    def f(e, st, C):
        (a, p, m), (_, _, w) = map_at(e, st, C.args[0]), map_at(e, st, C.args[1])
        if m[1] is not None or w[1] is not None:
            return NotImplemented
        bt = 'BTree' in e.insts[C.inst]['short']

        def refs(ref):
            aa, pp, mm = map_at(e, st, ref)
            return [x[1] for x in map_items(e, st, aa, pp, mm, 'k', bt)]
        A, B = refs(C.args[0]), refs(C.args[1])
        cur = [(st, [])]

        def member(s, x, L):
            work, out = [s], []
            for y in L:
                nw = []
                for s1 in work:
                    for s2, b in e.eq_cases(s1, e.derefv(s1, x), e.derefv(s1, y)):
                        (out.append((s2, True)) if b else nw.append(s2))
                work = nw
            return out + [(s1, False) for s1 in work]
        for x in A:
            if kind == 'union':
                cur = [(s, xs + [x]) for s, xs in cur]
            else:
                cur = [(s2, xs + [x] if b == (kind == 'intersection') else xs) for s, xs in cur for s2, b in member(s, x, B)]
        if kind in ('union', 'symmetric_difference'):
            for x in B:
                cur = [(s2, xs if b else xs + [x]) for s, xs in cur for s2, b in member(s, x, A)]
        if bt and kind in ('union', 'symmetric_difference'):
            return NotImplemented
        return [(s, ('I', tuple(('1', x) for x in xs))) for s, xs in cur]
    return f


def set_rel(kind):
    def f(e, st, C):
        (a, p, m), (_, _, w) = map_at(e, st, C.args[0]), map_at(e, st, C.args[1])
        if m[1] is not None or w[1] is not None:
            return NotImplemented
        A, B = ([k for k, v in x[2] if v != ABS] for x in (m, w))
        if kind == 'superset':
            A, B = B, A
        r = []
        for x in A:
            es = [e.eq_static(st, x, y) for y in B]
            r.append(True if True in es else None if None in es else False)
        if None in r:
            return NotImplemented
        return ('b', int(not any(r) if kind == 'disjoint' else all(r)))
    return f


for _k in ('HashSet', 'BTreeSet'):
    for _o in ('difference', 'intersection', 'union', 'symmetric_difference'):
        REG['%s::%s' % (_k, _o)] = set_op(_o)
    for _o in ('subset', 'superset', 'disjoint'):
        REG['%s::is_%s' % (_k, _o)] = set_rel(_o)


# entries taken apart by a match
@reg('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def n_oget(e, st, C):
    x = ent(e, st, val(e, st, C.args[0]) if e.head(st, C.args[0])[0] == 'r' else C.args[0])
    _, a, p = x[2]
    return ('r', a, p + (('k', x[3]),))


@reg('OccupiedEntry::insert')
def n_oins(e, st, C):
    x = ent(e, st, val(e, st, C.args[0]))
    return [(s, o) for s, o in map_insert(e, st, x[2], x[3], C.args[1])]


@reg('OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def n_orem(e, st, C):
    x = ent(e, st, C.args[0])
    _, a, p = x[2]
    m = e.as_map(st, a, p)
    if m[1] is not None:
        return NotImplemented
    v = [y for k, y in m[2] if k == x[3]][0]
    e.store(st, a, p, ('h', None, tuple((k, y) for k, y in m[2] if k != x[3])))
    return tup(x[3], v) if e.insts[C.inst]['short'].endswith('entry') else v


@reg('VacantEntry::insert')
def n_vins(e, st, C):
    x = ent(e, st, C.args[0])
    _, a, p = x[2]
    return [(s, ('r', a, p + (('k', x[3]),))) for s, _ in map_insert(e, st, x[2], x[3], C.args[1])]


REG['VacantEntry::into_key'] = lambda e, st, C: ent(e, st, C.args[0])[3]


# ------------------------------------------------------------------ strings

def sval(e, st, v):
    v = e.norm(st, val(e, st, v))
    return v[1] if v[0] == 's' else None


@reg('str::strip_prefix', 'str::strip_suffix')
def n_strip(e, st, C):
    x, t = sval(e, st, C.args[0]), pat(e, st, C.args[1])
    m = e.insts[C.inst]['short'].split('::')[-1]
    if x is None or t is None:
        v = e.norm(st, val(e, st, C.args[0]))
        if t is None:
            return NotImplemented
        w = ('t', 'starts_with' if m == 'strip_prefix' else 'ends_with', v, ('s', t))
        return [(s, some(('t', m, v, ('s', t))) if b else NONE) for s, b in both(e, st, w)]
    if m == 'strip_prefix':
        return some(('s', x[len(t):])) if x.startswith(t) else NONE
    return some(('s', x[:len(x) - len(t)])) if x.endswith(t) else NONE


@reg('str::replace')
def n_srepl(e, st, C):
    x, t, w = sval(e, st, C.args[0]), pat(e, st, C.args[1]), sval(e, st, C.args[2])
    if None in (x, t, w):
        return ('t', 'str::replace') + tuple(e.norm(st, val(e, st, y)) for y in C.args)
    return ('s', x.replace(t, w))


@reg('str::repeat')
def n_srep(e, st, C):
    x, k = sval(e, st, C.args[0]), num(e, st, C.args[1])
    return ('s', x * k) if None not in (x, k) and k < 1000 else ('t', 'str::repeat') + tuple(e.norm(st, val(e, st, y)) for y in C.args)


def str_iter(f):
    def g(e, st, C):
        x = sval(e, st, C.args[0])
        t = pat(e, st, C.args[1]) if len(C.args) > 1 else ''
        if x is None or t is None:
            return NotImplemented
        return ('I', tuple(('1', y) for y in f(x, t)))
    return g


S = lambda xs: [('s', y) for y in xs]
REG['str::split'] = str_iter(lambda x, t: S(x.split(t) if t else [''] + list(x) + ['']))
REG['str::rsplit'] = str_iter(lambda x, t: S(list(reversed(x.split(t)))))
REG['str::split_terminator'] = str_iter(lambda x, t: S((x[:-len(t)] if x.endswith(t) else x).split(t) if x else []))
REG['str::lines'] = str_iter(lambda x, t: S([l[:-1] if l.endswith('\r') else l for l in (x[:-1] if x.endswith('\n') else x).split('\n')] if x else []))
REG['str::split_whitespace'] = str_iter(lambda x, t: S(x.split()))
REG['str::chars'] = str_iter(lambda x, t: [('i', ord(y)) for y in x])
REG['str::bytes'] = str_iter(lambda x, t: [('i', y) for y in x.encode()])
REG['str::char_indices'] = str_iter(lambda x, t: [tup(('i', len(x[:i].encode())), ('i', ord(y))) for i, y in enumerate(x)])


@reg('str::find', 'str::rfind')
def n_sfind(e, st, C):
    x, t = sval(e, st, C.args[0]), pat(e, st, C.args[1])
    if x is None or t is None:
        return NotImplemented
    i = x.rfind(t) if e.insts[C.inst]['short'].endswith('rfind') else x.find(t)
    return NONE if i < 0 else some(('i', len(x[:i].encode())))


@reg('str::rsplit_once')
def n_rsplit_once(e, st, C):
    x, t = sval(e, st, C.args[0]), pat(e, st, C.args[1])
    if x is None or t is None:
        return NotImplemented
    i = x.rfind(t)
    return NONE if i < 0 else some(tup(('s', x[:i]), ('s', x[i + len(t):])))


@reg('str::eq_ignore_ascii_case')
def n_eqi(e, st, C):
    x, y = sval(e, st, C.args[0]), sval(e, st, C.args[1])
    if None in (x, y):
        return ('t', 'eq_ignore_case', e.norm(st, val(e, st, C.args[0])), e.norm(st, val(e, st, C.args[1])))
    return ('b', int(x.isascii() and y.isascii() and x.lower() == y.lower() or x == y))


@reg('String::push')
def n_spush(e, st, C):
    a, p = tgt(e, st, C.args[0])
    c = num(e, st, C.args[1])
    if c is None:
        return NotImplemented
    e.store(st, a, p, str_cat(e, st, e.load(st, a, p), ('s', chr(c))))
    return UNIT


@reg('String::pop')
def n_spop(e, st, C):
    a, p = tgt(e, st, C.args[0])
    x = sval(e, st, C.args[0])
    if x is None:
        return NotImplemented
    if not x:
        return NONE
    e.store(st, a, p, ('s', x[:-1]))
    return some(('i', ord(x[-1])))


@reg('String::clear')
def n_sclr(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.store(st, a, p, ('s', ''))
    return UNIT


@reg('String::truncate')
def n_strunc(e, st, C):
    a, p = tgt(e, st, C.args[0])
    x, k = sval(e, st, C.args[0]), num(e, st, C.args[1])
    if None in (x, k):
        return NotImplemented
    e.store(st, a, p, ('s', x.encode()[:k].decode('utf8', 'replace')))
    return UNIT


@reg('String::insert_str', 'String::insert')
def n_sinss(e, st, C):
    a, p = tgt(e, st, C.args[0])
    x, k, t = sval(e, st, C.args[0]), num(e, st, C.args[1]), pat(e, st, C.args[2])
    if None in (x, k, t):
        return NotImplemented
    e.store(st, a, p, ('s', x[:k] + t + x[k:]))
    return UNIT


# a String grows by characters when they are collected
def n_str_items(e, st, C):
    a, p = tgt(e, st, C.args[0])
    v = e.head(st, C.args[1])
    x = num(e, st, v)
    e.store(st, a, p, str_cat(e, st, e.load(st, a, p), ('s', chr(x)) if x is not None else v))
    return UNIT


# ------------------------------------------------------------------ numbers

def checked(op, saturate=None):
    def f(e, st, C):
        x, y = (e.norm(st, val(e, st, a)) for a in C.args[:2])
        if op == 'Sub':
            return [(s, NONE if b else some(e.binop(s, 'Sub', x, y))) for s, b in both(e, st, e.binop(st, 'Lt', x, y))]
        return some(e.binop(st, op, x, y))
    return f


for _t in ('usize', 'u8', 'u16', 'u32', 'u64'):
    REG[_t + '::checked_sub'] = checked('Sub')
    REG[_t + '::checked_add'] = checked('Add')
    for _m in ('Sub', 'Add', 'Mul'):
        pass


@reg('usize::abs_diff')
def n_absdiff(e, st, C):
    x, y = (e.norm(st, val(e, st, a)) for a in C.args[:2])
    return [(s, e.binop(s, 'Sub', y, x) if b else e.binop(s, 'Sub', x, y)) for s, b in both(e, st, e.binop(st, 'Lt', x, y))]


# -------------------------------------------------- cells, locks, boxed calls

for _k in ('RefCell::new', 'Cell::new', 'Mutex::new', 'RwLock::new', 'sync::Mutex::new', 'UnsafeCell::new', 'OnceCell::new'):
    REG[_k] = lambda e, st, C: ('a', 0, (C.args[0],))


def inner(e, st, v):
    a, p = tgt(e, st, v)
    w = e.head(st, e.load(st, a, p))
    if w is None or w[0] != 'a' or len(w[2]) != 1:
        raise Undecided('cell of unknown content')
    return ('r', a, p + (0,))


for _k in ('RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::get_mut', 'UnsafeCell::get', 'RefCell::as_ptr'):
    REG[_k] = lambda e, st, C: inner(e, st, C.args[0])
for _k in ('Mutex::lock', 'RwLock::read', 'RwLock::write', 'Mutex::get_mut', 'sync::Mutex::lock'):
    REG[_k] = lambda e, st, C: ok(inner(e, st, C.args[0])) if e.types[C.t['rt']].get('name') == 'Result' else NotImplemented
for _k in ('RefCell::into_inner', 'Cell::into_inner'):
    REG[_k] = lambda e, st, C: e.head(st, C.args[0])[2][0]
REG['Mutex::into_inner'] = lambda e, st, C: ok(e.head(st, C.args[0])[2][0])
for _k in ('RefMut', 'Ref', 'MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard'):
    REG[_k + '.Deref::deref'] = REG[_k + '.DerefMut::deref_mut'] = lambda e, st, C: e.derefv1(st, C.args[0]) if hasattr(e, 'derefv1') else _guard(e, st, C)


def _guard(e, st, C):
    v = e.head(st, C.args[0])
    a, p = e.deref(st, v)
    w = e.head(st, e.load(st, a, p))
    return w if w is not None and w[0] == 'r' else v


@reg('Cell::get')
def n_cget(e, st, C):
    return e.derefv(st, inner(e, st, C.args[0]))


@reg('Cell::set', 'Cell::replace', 'RefCell::replace')
def n_cset(e, st, C):
    r = inner(e, st, C.args[0])
    old = e.load(st, r[1], r[2])
    e.store(st, r[1], r[2], C.args[1])
    return UNIT if e.insts[C.inst]['short'].endswith('set') else old


@reg('Box.Fn::call', 'Box.FnMut::call_mut', 'Box.FnOnce::call_once')
def n_boxcall(e, st, C):
    from natives import _Direct
    f = e.head(st, C.args[0])
    for _ in range(4):
        if f is not None and f[0] in ('r', 'dyn'):
            f = e.head(st, e.derefv(st, f)) if f[0] == 'r' else e.head(st, e.derefv(st, f[1]))
    if f is None or f[0] not in ('cl', 'fn'):
        return NotImplemented
    raise _Direct(e.invoke(st, f[1], [f[2], C.args[1]], C) if f[0] == 'cl' else e.call_value(st, f, e.untuple(st, C.args[1]), C))


# --------------------------------------------------------------------- paths

import posixpath


@reg('PathBuf.From::from', 'Path::new', 'PathBuf::from', 'Path::to_path_buf', 'PathBuf::as_path', 'Path::to_owned')
def n_path(e, st, C):
    return val(e, st, C.args[0])


@reg('Path::join')
def n_pjoin(e, st, C):
    x, y = e.norm(st, val(e, st, C.args[0])), e.norm(st, val(e, st, C.args[1]))
    if x[0] == 's' and y[0] == 's':
        return ('s', posixpath.join(x[1], y[1]))
    return ('t', 'path_join', x, y)


@reg('PathBuf::push')
def n_ppush(e, st, C):
    a, p = tgt(e, st, C.args[0])
    e.store(st, a, p, n_pjoin(e, st, C))
    return UNIT


@reg('Path::parent')
def n_pparent(e, st, C):
    x = e.norm(st, val(e, st, C.args[0]))
    if x[0] == 's':
        y = x[1].rstrip('/')
        return NONE if not y else some(('s', posixpath.dirname(y)))
    s2 = st.fork()
    return [(st, some(('t', 'path_parent', x))), (s2, NONE)]


@reg('Path::is_absolute', 'Path::exists', 'Path::is_dir', 'Path::is_file', 'Path::is_relative')
def n_pq(e, st, C):
    return ('t', e.insts[C.inst]['short'], e.norm(st, val(e, st, C.args[0])))


REG['Path::file_name'] = lambda e, st, C: (lambda x: some(('s', posixpath.basename(x[1]))) if x[0] == 's' and posixpath.basename(x[1]) not in ('', '..') else some(('t', 'file_name', x)))(e.norm(st, val(e, st, C.args[0])))
REG['String.PartialOrd::partial_cmp'] = REG['str.PartialOrd::partial_cmp'] = lambda e, st, C: [(s, some(o)) for s, o in cmp_cases(e, st, val(e, st, C.args[0]), val(e, st, C.args[1]))]


@reg('intrinsics::discriminant_value')
def n_discr(e, st, C):
    v = val(e, st, C.args[0])
    T = e.types[C.t['ta'][0]]
    if v[0] != 'a' or not T.get('vs'):
        return NotImplemented
    d = T['vs'][v[1]]['d']
    return ('i', d - 256 if T['name'] == 'Ordering' and d > 127 else d)


@reg('NonZero::new')
def n_nz(e, st, C):
    x = e.norm(st, e.head(st, C.args[0]))
    return [(s, NONE if b else some(x)) for s, b in both(e, st, e.binop(st, 'Eq', x, ('i', 0)))]


REG['NonZero::get'] = lambda e, st, C: C.args[0]
REG['NonZero::new_unchecked'] = lambda e, st, C: C.args[0]


for _n, _t in (('lt', (0,)), ('le', (0, 1)), ('gt', (2,)), ('ge', (1, 2)), ('eq', (1,)), ('ne', (0, 2))):
    REG['Ordering::is_' + _n] = (lambda t: lambda e, st, C: ('b', int(e.head(st, C.args[0])[1] in t)) if e.head(st, C.args[0])[0] == 'a' else NotImplemented)(_t)


def n_advance(e, st, C):
    """next() n times"""
    from natives import self_iter_ti, n_next, n_force_opt, t_var, a_agg
    ti = self_iter_ti(e, C)

    def dec(e2, s, C2):
        return e2.binop(s, 'Sub', C2.args[0], ('i', 1))

    def zero(e2, s, C2):
        return [(s2, ('b', int(b))) for s2, b in both(e2, s, e2.binop(s, 'Eq', C2.args[0], ('i', 0)))]
    nx = t_call(('native', n_next), [op_cp(1)], 14, 3)
    nx['iter'] = ti
    bbs = [
        ([], t_call(('native', zero), [op_cp(2)], 12, 1)),
        ([], t_bool(12, 2, 6)),
        ([], nx),
        ([], t_call(('native', n_force_opt), [op_mv(14)], 14, 4)),
        ([], t_var(14, 5, 7)),
        ([a_agg(0, [op_cp(2)], 1)], RET),
        ([a_const(0, ok(UNIT))], RET),
        ([], t_call(('native', dec), [op_cp(2)], 2, 0)),
    ]
    B = synth(e, ('advance', ti), 2, bbs, 'Iterator::advance_by')
    return start(e, st, C, B, [C.args[0], C.args[1]])


def n_unchecked(e, st, C):
    v = e.head(st, val(e, st, C.args[0]))
    k = num(e, st, C.args[1])
    if v is None or v[0] != 'I' or k is None or any(x[0] != '1' for x in v[1]) or k >= len(v[1]):
        return NotImplemented
    return v[1][k][1]


REG['Iterator::advance_by'] = REG['iterator::Iterator::advance_by'] = n_advance
for _k in [x for x in REG if x.endswith('.Iterator::next')]:
    REG[_k[:-4] + 'advance_by'] = n_advance
    REG[_k[:-4] + '__iterator_get_unchecked'] = n_unchecked


# ------------------------------------------------------------------ more strings and characters

def str_map(names, f, n=0):
    """a pure function of a text (and a pattern): exact on known texts, a term of its own on others"""
    def g(e, st, C):
        x = sval(e, st, C.args[0])
        m = e.insts[C.inst]['short'].split('::')[-1]
        ts = [pat(e, st, a) for a in C.args[1:1 + n]]
        if None in ts:
            return NotImplemented
        if x is None:
            return ('t', 'str::' + m, e.norm(st, val(e, st, C.args[0]))) + tuple(('s', t) for t in ts)
        r = f(m, x, *ts)
        return NotImplemented if r is None else r
    for k in names:
        REG.setdefault(k, g)


def _trim(m, x, t):
    if t:
        while m in ('trim_start_matches', 'trim_left_matches', 'trim_matches') and x.startswith(t):
            x = x[len(t):]
        while m in ('trim_end_matches', 'trim_right_matches', 'trim_matches') and x.endswith(t):
            x = x[:-len(t)]
    return ('s', x)


str_map(['str::trim_start_matches', 'str::trim_end_matches', 'str::trim_matches', 'str::trim_left_matches', 'str::trim_right_matches'], _trim, 1)
str_map(['str::to_ascii_lowercase', 'str::to_ascii_uppercase'], lambda m, x: ('s', ''.join((c.lower() if 'lower' in m else c.upper()) if c.isascii() else c for c in x)))
str_map(['str::is_ascii'], lambda m, x: ('b', int(x.isascii())))
REG.setdefault('str::matches', str_iter(lambda x, t: S([t] * x.count(t))))
REG.setdefault('str::split_ascii_whitespace', str_iter(lambda x, t: S(x.split())))


@reg('str::splitn', 'str::rsplitn')
def n_splitn(e, st, C):
    x, k, t = sval(e, st, C.args[0]), num(e, st, C.args[1]), pat(e, st, C.args[2])
    if None in (x, k, t) or not t or k < 1:
        return NotImplemented
    if e.insts[C.inst]['short'].endswith('rsplitn'):
        return ('I', tuple(('1', ('s', y)) for y in reversed(x.rsplit(t, k - 1))))
    return ('I', tuple(('1', ('s', y)) for y in x.split(t, k - 1)))


def _range(e, st, v, n):
    """a range of known ends -> (from, to)"""
    v = e.norm(st, val(e, st, v))
    if v[0] != 'a' or any(x[0] != 'i' for x in v[2][:2]):
        return None
    return [x[1] for x in v[2]]


CHAR = {
    'is_alphanumeric': str.isalnum, 'is_alphabetic': str.isalpha, 'is_numeric': str.isnumeric, 'is_whitespace': str.isspace, 'is_uppercase': str.isupper, 'is_lowercase': str.islower,
    'is_ascii': str.isascii, 'is_ascii_digit': lambda c: c in '0123456789', 'is_ascii_alphabetic': lambda c: c.isascii() and c.isalpha(), 'is_ascii_alphanumeric': lambda c: c.isascii() and c.isalnum(),
    'is_ascii_uppercase': lambda c: c.isascii() and c.isupper(), 'is_ascii_lowercase': lambda c: c.isascii() and c.islower(), 'is_ascii_whitespace': lambda c: c in ' \t\n\r\x0c',
    'is_ascii_punctuation': lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != ' ', 'is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160, 'is_ascii_control': lambda c: ord(c) < 32 or ord(c) == 127,
    'is_ascii_graphic': lambda c: 33 <= ord(c) <= 126, 'is_ascii_hexdigit': lambda c: c in '0123456789abcdefABCDEF',
}


def n_char(e, st, C):
    v = e.norm(st, val(e, st, C.args[0]))
    m = e.insts[C.inst]['short'].split('::')[-1]
    if v[0] != 'i':
        return ('t', 'char::' + m, v)
    return ('b', int(CHAR[m](chr(v[1]))))


def n_charmap(e, st, C):
    v = e.norm(st, val(e, st, C.args[0]))
    m = e.insts[C.inst]['short'].split('::')[-1]
    if v[0] != 'i' or v[1] > 127:
        return ('t', 'char::' + m, v)
    return ('i', ord(chr(v[1]).lower() if 'lower' in m else chr(v[1]).upper()))


for _k in CHAR:
    REG.setdefault('char::' + _k, n_char)
    REG.setdefault('u8::' + _k, n_char)
for _k in ('to_ascii_lowercase', 'to_ascii_uppercase'):
    REG.setdefault('char::' + _k, n_charmap)
    REG.setdefault('u8::' + _k, n_charmap)


# ------------------------------------------------------------------ patterns: a text, a character, a set of characters, a function

def _spans(x, p):
    """places in x where a known pattern matches, from the left"""
    out, i = [], 0
    if callable(p):
        return [(k, k + 1) for k, c in enumerate(x) if p(k, c)]
    if p == '':
        return [(k, k) for k in range(len(x) + 1)]
    while True:
        i = x.find(p, i)
        if i < 0:
            return out
        out.append((i, i + len(p)))
        i += len(p)


def pattern(e, st, v):
    """a known pattern as a text or a function of (place, character); None: not known"""
    t = pat(e, st, v)
    if t is not None:
        return t
    v = e.norm(st, deep(e, st, v))
    if v[0] == 'q' and all(s[0] == '1' and s[1][0] == 'i' for s in v[1]):
        cs = {chr(s[1][1]) for s in v[1]}
        return lambda k, c: c in cs
    return None


def _off(x, i):
    return ('i', len(x[:i].encode()))


def _pieces(x, sp):
    out, i = [], 0
    for a, b in sp:
        out.append(x[i:a])
        i = b
    return out + [x[i:]]


def _answer(e, st, C, m, x, p):
    sp = _spans(x, p)
    I = lambda xs: ('I', tuple(('1', y) for y in xs))
    if m == 'find':
        return some(_off(x, sp[0][0])) if sp else NONE
    if m in ('rfind', 'rsplit_once') and not callable(p):
        i = x.rfind(p)
        sp = [(i, i + len(p))] if i >= 0 else []
    if m == 'rfind':
        return some(_off(x, sp[-1][0])) if sp else NONE
    if m == 'contains':
        return ('b', int(bool(sp)))
    first = sp and sp[0][0] == 0
    last = x.endswith(p) if not callable(p) else bool(sp) and sp[-1][1] == len(x)
    n = 1 if callable(p) else len(p)
    if m == 'starts_with':
        return ('b', int(bool(first)))
    if m == 'ends_with':
        return ('b', int(bool(last)))
    if m == 'strip_prefix':
        return some(('s', x[n:])) if first else NONE
    if m == 'strip_suffix':
        return some(('s', x[:len(x) - n])) if last else NONE
    if m in ('split_once', 'rsplit_once'):
        if not sp:
            return NONE
        a, b = sp[0] if m == 'split_once' else sp[-1]
        return some(tup(('s', x[:a]), ('s', x[b:])))
    if m.startswith('trim'):
        if not callable(p):
            return _trim(m, x, p)
        ks = {a for a, b in sp}
        a, b = 0, len(x)
        if m in ('trim_start_matches', 'trim_left_matches', 'trim_matches'):
            while a < b and a in ks:
                a += 1
        if m in ('trim_end_matches', 'trim_right_matches', 'trim_matches'):
            while b > a and b - 1 in ks:
                b -= 1
        return ('s', x[a:b])
    if m == 'split':
        return I(S(_pieces(x, sp)))
    if m == 'rsplit':
        return I(S(list(reversed(_pieces(x, sp)))))
    if m == 'split_terminator':
        y = _pieces(x, sp)
        return I(S(y[:-1] if y[-1] == '' else y))
    if m == 'split_inclusive':
        y, i = [], 0
        for a, b in sp:
            y.append(x[i:b])
            i = b
        return I(S(y + ([x[i:]] if x[i:] else [])))
    if m == 'matches':
        return I(S([x[a:b] for a, b in sp]))
    if m == 'match_indices':
        return I([tup(_off(x, a), ('s', x[a:b])) for a, b in sp])
    return NotImplemented


PATTERN = ('find', 'rfind', 'contains', 'starts_with', 'ends_with', 'strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once', 'trim_matches', 'trim_start_matches', 'trim_end_matches',
           'trim_left_matches', 'trim_right_matches', 'split', 'rsplit', 'split_terminator', 'split_inclusive', 'matches', 'match_indices')
_before = {m: REG.get('str::' + m) for m in PATTERN}


def n_pattern(e, st, C):
    m = e.insts[C.inst]['short'].split('::')[-1]
    x, p = sval(e, st, C.args[0]), pattern(e, st, C.args[1])
    if x is not None and p is not None and not (p == '' and m not in ('contains', 'starts_with', 'ends_with')):
        return _answer(e, st, C, m, x, p)
    f = e.norm(st, val(e, st, C.args[1]))
    ts = [t for t in C.t['at'] if isinstance(t, int) and e.types[t]['k'] in ('closure', 'fndef', 'fnptr')]
    if x is not None and len(x) <= 12 and len(ts) == 1 and p is None:
        # the function is asked about every character
        bbs = []
        for k in range(len(x)):
            bbs.append(([a_ref(17, 1)], t_call(('callfn', ts[0]), [op_cp(17), op_cp(3 + k)] if len(x) else [], 3 + k, k + 1)))

        def done(e2, s, C2):
            cur = [(s, [])]
            for r in C2.args:
                cur = [(s3, bs + [b]) for s2, bs in cur for s3, b in both(e2, s2, e2.norm(s2, r))]
            out = []
            for s2, bs in cur:
                r = _answer(e2, s2, C2, m, x, lambda k, c: bs[k])
                if r is NotImplemented:
                    raise Undecided('pattern in ' + m)
                out.append((s2, r))
            return out
        bbs.append(([], t_call(('native', done), [op_cp(3 + i) for i in range(len(x))], 0, len(x) + 1)))
        bbs.append(([], RET))
        _pid[0] += 1
        B = synth(e, ('pattern', _pid[0]), 2 + len(x), bbs, 'str::' + m)
        return start(e, st, C, B, [C.args[1], UNIT] + [('i', ord(c)) for c in x])
    if ts and x is not None:
        return NotImplemented
    g = _before.get(m)
    return g(e, st, C) if g else NotImplemented


_pid = [0]
for _m in PATTERN:
    REG['str::' + _m] = n_pattern


@reg('str::replacen')
def n_repln(e, st, C):
    x, t, w, k = sval(e, st, C.args[0]), pat(e, st, C.args[1]), sval(e, st, C.args[2]), num(e, st, C.args[3])
    return NotImplemented if None in (x, t, w, k) else ('s', x.replace(t, w, k))


@reg('str::is_char_boundary')
def n_icb(e, st, C):
    x, k = sval(e, st, C.args[0]), num(e, st, C.args[1])
    if None in (x, k):
        return NotImplemented
    b = x.encode()
    return ('b', int(k <= len(b) and (k == len(b) or b[k] & 0xc0 != 0x80)))


def _slice(e, st, C):
    """part of a known text -> text, False when there is none, None when not known"""
    x, r = sval(e, st, C.args[0]), e.norm(st, deep(e, st, C.args[1]))
    T = e.types[[t for t in C.t['at'] if isinstance(t, int) and 'ops::Range' in e.types[t].get('s', '')][-1]]['s'] if any(isinstance(t, int) and 'ops::Range' in e.types[t].get('s', '') for t in C.t['at']) else ''
    if x is None or 'ops::Range' not in T or r[0] != 'a' or any(y[0] not in 'ib' for y in r[2]):
        return None
    b = x.encode()
    n = [y[1] for y in r[2]]
    if 'RangeFull' in T:
        a, z = 0, len(b)
    elif 'RangeFrom' in T:
        a, z = n[0], len(b)
    elif 'RangeToInclusive' in T:
        a, z = 0, n[0] + 1
    elif 'RangeTo' in T:
        a, z = 0, n[0]
    elif 'RangeInclusive' in T:
        a, z = n[0], n[1] + 1
    else:
        a, z = n[0], n[1]
    if a > z or z > len(b):
        return False
    try:
        return ('s', b[a:z].decode())
    except UnicodeDecodeError:
        return False


@reg('str::get')
def n_sget(e, st, C):
    r = _slice(e, st, C)
    return NotImplemented if r is None else some(r) if r else NONE


_old_index = REG.get('String.Index::index'), REG.get('str.Index::index')


def n_sindex(e, st, C):
    r = _slice(e, st, C)
    if r:
        return r
    if r is False:
        e.panic(st, 'slice of a text out of range')
        return []
    g = _old_index[0 if e.insts[C.inst]['short'].startswith('String') else 1]
    return g(e, st, C) if g else NotImplemented


REG['String.Index::index'] = REG['str.Index::index'] = n_sindex


# ------------------------------------------------------------------ arithmetic through references, Cow, writing into a text

def n_refop(e, st, C):
    m = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}[e.insts[C.inst]['short'].split('::')[-1]]
    a, b = e.norm(st, val(e, st, C.args[0])), e.norm(st, val(e, st, C.args[1]))
    if a[0] == b[0] == 'i':
        if m in ('Div', 'Rem') and b[1] == 0:
            e.panic(st, 'division by zero')
            return []
        r = {'Add': lambda: a[1] + b[1], 'Sub': lambda: a[1] - b[1], 'Mul': lambda: a[1] * b[1], 'Div': lambda: int(a[1] / b[1]), 'Rem': lambda: a[1] % b[1]}[m]()
        if r < 0 and 'usize' in e.insts[C.inst]['short']:
            e.panic(st, 'attempt to subtract with overflow')
            return []
        return ('i', r)
    return e.binop(st, m, a, b)


for _t in ('usize', 'isize', 'i32', 'u64', 'i64', 'u32', 'u8'):
    for _o in ('Add::add', 'Sub::sub', 'Mul::mul', 'Div::div', 'Rem::rem'):
        REG.setdefault('%s.%s' % (_t, _o), n_refop)
        REG.setdefault('&%s.%s' % (_t, _o), n_refop)


@reg('Cow::into_owned')
def n_cow_own(e, st, C):
    v = e.head(st, C.args[0])
    return e.norm(st, deep(e, st, v[2][0])) if v[0] == 'a' else NotImplemented


@reg('Write::write_fmt', 'String.Write::write_fmt', 'String.Write::write_str')
def n_swrite(e, st, C):
    v = e.norm(st, val(e, st, C.args[0]))
    if v[0] != 's' and not (v[0] == 't' and v[1] in ('fmt', 'cat')):
        return NotImplemented
    a, p = tgt(e, st, C.args[0])
    e.store(st, a, p, str_cat(e, st, e.load(st, a, p), e.norm(st, deep(e, st, C.args[1]))))
    return ok(UNIT)
