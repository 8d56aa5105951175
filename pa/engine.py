"""Path-sensitive interprocedural dataflow over the dumped MIR.

Abstract values (immutable tuples):
  ('i',n) known int/char   ('b',0|1) known bool      ('s',text) known text
  ('l',bases,c,p) a length: sum of unknown non-negative bases + c (+ some amount >= 1 when p)
  ('a',variant,fields) struct/enum/tuple/closure     ('c',inst,state,items) coroutine
  ('q',segs) sequence; segs are ('1',value) or ('m',id,template): any number of elements
  ('h',rest,entries) map or set                      ('I',items) leaf iterator
  ('r',addr,path) reference                          ('dyn',ref,type) reference to a trait object
  ('fn',inst) function                               ('F',kind,args) library future
  ('y',name) unknown                                 ('t',op,args...) uninterpreted application
  ('D',value,type) the discriminant of an unknown
Loops are iterated to a fixpoint: states met again at a loop head (up to renaming of
unknowns) are not followed twice, and growing values are widened there.
"""
import os
import time
import sys
from program import Program

sys.setrecursionlimit(20000)
TRUE = ('b', 1)
FALSE = ('b', 0)
UNIT = ('a', 0, ())
NONE = ('a', 0, ())
ABS = ('abs',)


def some(v):
    return ('a', 1, (v,))


def ok(v):
    return ('a', 0, (v,))


def err(v):
    return ('a', 1, (v,))


def ready(v):
    return ('a', 0, (v,))


def tup(*v):
    return ('a', 0, tuple(v))


class Undecided(Exception):
    pass


class Frame:
    __slots__ = ('body', 'bb', 'ip', 'L', 'dest', 'target', 'owner', 'conv', 'span')

    def copy(self, owner):
        f = Frame()
        f.body = self.body
        f.bb = self.bb
        f.ip = self.ip
        f.L = dict(self.L)
        f.dest = self.dest
        f.target = self.target
        f.conv = self.conv
        f.span = self.span
        f.owner = owner
        return f


class State:
    __slots__ = ('frames', 'heap', 'bind', 'facts', 'mon', 'trace', 'ctr', 'taint', 'lv', 'weak', 'owner', 'x', 'dead')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.bind = {}
        self.facts = {}
        self.mon = None
        self.trace = None
        self.ctr = 0
        self.taint = None
        self.lv = []
        self.weak = {}
        self.x = {}
        self.dead = False
        self.owner = object()

    def fork(self):
        s = State.__new__(State)
        s.frames = list(self.frames)
        s.heap = dict(self.heap)
        s.bind = dict(self.bind)
        s.facts = dict(self.facts)
        s.mon = self.mon
        s.trace = self.trace
        s.ctr = self.ctr
        s.taint = self.taint
        s.lv = list(self.lv)
        s.weak = dict(self.weak)
        s.x = dict(self.x)
        s.dead = self.dead
        s.owner = object()
        self.owner = object()
        return s

    def frame(self, d=-1):
        f = self.frames[d]
        if f.owner is not self.owner:
            f = f.copy(self.owner)
            self.frames[d] = f
        return f

    def fresh(self, label):
        self.ctr += 1
        return ('y', ('n', self.ctr, label))

    def mark(self, name):
        """from here on the path is not exact"""
        self.taint = (self.taint or frozenset()) | {name}

    def note(self, what):
        self.trace = (self.trace, what)

    def notes(self):
        r = []
        t = self.trace
        while t is not None:
            r.append(t[1])
            t = t[0]
        return r[::-1]


def root(n):
    while n[0] in ('c', '*', 'g'):
        n = n[1]
        if n and n[0] in ('y', 't'):
            if n[0] == 't':
                return n
            n = n[1]
    return n


def is_opaque(v):
    return v is not None and v[0] in ('y', 't')


class Engine:
    WIDEN = 2
    WSEQ = 5
    WINT = 4
    MAXHEAD = 12000

    def __init__(self, prog, spec=None, natives=None):
        self.P = prog
        self.types = prog.types
        self.insts = prog.insts
        import natives as N
        import idioms
        self.N = N
        self.natives = N.REG
        self.hooks = {}
        self.inst_hooks = {}
        self.spec = spec
        self.tsteps = 0
        self.max_tainted = 400000
        self.stats = dict(steps=0, paths=0, forks=0, loop_visits=0, loop_heads=0, cut=0, calls=0, tainted=0, undecided=0)
        self.undecided = []
        self.unmodelled = {}
        self.functions = set()
        self.seen = {}
        self.max_steps = 8000000
        self.deadline = None
        self.read_script = None
        self.WBYTES = 0
        self.max_paths = 200000
        self.on_ret = None
        self.on_panic = None
        self.on_event = None
        self.on_drop = None
        self.star = ()
        self.static = {}
        self.on_edge = None

    # ---------------------------------------------------------------- values
    def head(self, st, v):
        while v is not None and v[0] in ('y', 't') and v in st.bind:
            v = st.bind[v]
        return v

    def norm(self, st, v):
        """resolve every bound unknown inside v"""
        if v is None or not isinstance(v, tuple) or not v:
            return v
        t = v[0]
        if t in ('y', 't'):
            w = self.head(st, v)
            if w is not v:
                return self.norm(st, w)
            if t == 'y':
                return v
        elif t in ('i', 'b', 's', 'fn', 'l'):
            return v
        changed = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = self.norm(st, x)
                if y is not x:
                    changed = True
                out.append(y)
            else:
                out.append(x)
        if not changed:
            return v
        w = tuple(out)
        if t == 't' and w in st.bind:
            return self.norm(st, st.bind[w])
        return w

    def bindv(self, st, v, w):
        st.bind[v] = w
        if st.facts:
            nf = {}
            for k, x in st.facts.items():
                k2 = self.norm(st, k) if k[0] == 't' else k
                if k2[0] == 'b':
                    if bool(k2[1]) != x:
                        return False
                    continue
                if k2[0] == 't' and k2[1] == 'eq' and k2 is not k:
                    d = self.eq_static(st, k2[2], k2[3])
                    if d is not None:
                        if d != x:
                            return False
                        continue
                nf[k2] = x
            nv = st.facts.get(('notv', v))
            if nv is not None and w[0] == 'a' and w[1] in nv:
                return False
            if nv is not None and w[0] == 'i' and w in nv:
                return False
            st.facts = nf
        return True

    # addresses -----------------------------------------------------------
    def cell(self, st, addr):
        k = addr[0]
        if k == 'L':
            return st.frames[addr[1]].L.get(addr[2])
        if k == 'K':
            return addr[1]
        v = st.heap.get(addr)
        if v is None and k == '*':
            v = st.heap[addr] = ('y', ('*', addr[1]))
        return v

    def setcell(self, st, addr, v):
        k = addr[0]
        if k == 'L':
            st.frame(addr[1]).L[addr[2]] = v
        elif k == 'K':
            raise Undecided('store into constant')
        else:
            st.heap[addr] = v
            w = st.weak.get(addr)
            if w is not None:
                wa, wp, idx = w
                q = self.head(st, self.load(st, wa, wp))
                if q[0] == 'q' and idx < len(q[1]) and q[1][idx][0] == 'm':
                    segs = list(q[1])
                    segs[idx] = ('m', segs[idx][1], ('y', ('tv', 0)))
                    self.store(st, wa, wp, ('q', tuple(segs)))

    def proj(self, st, v, s):
        v = self.head(st, v)
        if v is None:
            return None
        t = v[0]
        if isinstance(s, int):
            if t == 'a':
                return v[2][s] if s < len(v[2]) else None
            if t == 'c':
                for k, x in v[3]:
                    if k == s:
                        return x
                return None
            if t in ('y', 't'):
                return ('y', ('c', v, s))
            if t == 'D':
                raise Undecided('field of discriminant')
            return ('y', ('c', v, s))
        if s[0] == 'v':
            if t == 'c':
                k2 = (s[1], s[2])
                for k, x in v[3]:
                    if k == k2:
                        return x
            return None
        if s[0] == 'e':
            if t == 'q':
                if s[1] < len(v[1]) and v[1][s[1]][0] == '1':
                    return v[1][s[1]][1]
                raise Undecided('element of summarised sequence')
            if t == 's':
                return ('i', v[1].encode()[s[1]])
            raise Undecided('element of %s' % (t,))
        if s[0] == 'k':
            if t == 'h':
                for k, x in v[2]:
                    if k == s[1]:
                        return x
                s1 = self.norm(st, s[1])
                for k, x in v[2]:
                    if self.norm(st, k) == s1:
                        return x
            raise Undecided('map slot')
        raise Undecided('projection %r' % (s,))

    def upd(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        v = self.head(st, v)
        if isinstance(s, int):
            if v is None:
                v = ('a', 0, ())
            if v[0] == 'a':
                f = list(v[2])
                while len(f) <= s:
                    f.append(None)
                f[s] = self.upd(st, f[s], path[1:], val)
                return ('a', v[1], tuple(f))
            if v[0] == 'c':
                return ('c', v[1], v[2], self._setitem(st, v[3], s, path, val))
            raise Undecided('store into field of unknown')
        if s[0] == 'v':
            if v[0] != 'c':
                raise Undecided('coroutine slot')
            return ('c', v[1], v[2], self._setitem(st, v[3], (s[1], s[2]), path, val))
        if s[0] == 'e':
            segs = list(v[1])
            if segs[s[1]][0] != '1':
                raise Undecided('store into summarised element')
            segs[s[1]] = ('1', self.upd(st, segs[s[1]][1], path[1:], val))
            return ('q', tuple(segs))
        if s[0] == 'k':
            out = []
            hit = False
            s1 = self.norm(st, s[1])
            for k, x in v[2]:
                if not hit and (k == s[1] or self.norm(st, k) == s1):
                    hit = True
                    x = self.upd(st, x, path[1:], val)
                out.append((k, x))
            if not hit:
                raise Undecided('map slot')
            return ('h', v[1], tuple(out))
        raise Undecided('update %r' % (s,))

    def _setitem(self, st, items, k, path, val):
        out = []
        hit = False
        for kk, x in items:
            if kk == k:
                x = self.upd(st, x, path[1:], val)
                hit = True
            out.append((kk, x))
        if not hit:
            out.append((k, self.upd(st, None, path[1:], val)))
            out.sort(key=lambda z: (0, z[0], 0) if isinstance(z[0], int) else (1,) + z[0])
        return tuple(out)

    def load(self, st, addr, path):
        v = self.cell(st, addr)
        for s in path:
            v = self.proj(st, v, s)
        return v

    def store(self, st, addr, path, val):
        if not path:
            self.setcell(st, addr, val)
        else:
            self.setcell(st, addr, self.upd(st, self.cell(st, addr), path, val))

    def deref(self, st, v):
        """value of pointer type -> (addr, path)"""
        v = self.head(st, v)
        if v is None:
            raise Undecided('dereference of a moved value')
        if v[0] == 'r':
            return v[1], v[2]
        if v[0] == 'dyn':
            return self.deref(st, v[1])
        if v[0] in ('y', 't'):
            return ('*', v), ()
        return ('K', v), ()

    def derefv(self, st, v):
        """the value behind a reference, following references to references"""
        for _ in range(8):
            v = self.head(st, v)
            if v is None or v[0] not in ('r', 'dyn'):
                return v
            a, p = self.deref(st, v)
            v = self.load(st, a, p)
        return v

    def mkref(self, st, v):
        v = self.head(st, v)
        if v is not None and v[0] in ('s', 'i', 'b', 'fn'):
            return ('r', ('K', v), ())
        st.ctr += 1
        a = ('H', st.ctr)
        st.heap[a] = v
        return ('r', a, ())

    def expand(self, st, v, ti, variant=None):
        """bind an unknown of a known struct (or one variant of an enum) type to its shape"""
        v = self.head(st, v)
        if v is None or v[0] not in ('y', 't'):
            return v
        T = self.types[ti]
        if T['k'] == 'adt' and 'vs' in T and T['ak'] != 'union':
            if T['ak'] == 'enum':
                if variant is None:
                    return v
            else:
                variant = 0
            if T['name'] in ('Vec', 'String', 'Command', 'Child', 'Sender', 'Receiver', 'HashMap', 'HashSet', 'BTreeMap', 'VecDeque', 'Rc', 'Arc', 'Instant', 'Duration'):
                return v
            fs = T['vs'][variant]['f']
            w = ('a', variant, tuple(('y', ('c', v, variant, i, f[0])) for i, f in enumerate(fs)))
        elif T['k'] == 'tuple':
            w = ('a', 0, tuple(('y', ('c', v, 0, i, str(i))) for i in range(len(T['es']))))
        else:
            return v
        if not self.bindv(st, v, w):
            raise Infeasible()
        return w

    def resolve(self, st, fr_d, place):
        """(addr, path) of a place, expanding unknown structs on the way"""
        loc, steps, _ = place
        addr, path = ('L', fr_d, loc), ()
        for s in steps:
            k = s[0]
            if k == '*':
                v = self.head(st, self.load(st, addr, path))
                if v is None:
                    raise Undecided('dereference of unset place')
                if v[0] == 'r':
                    addr, path = v[1], v[2]
                elif v[0] == 'dyn':
                    addr, path = self.deref(st, v)
                elif v[0] in ('y', 't'):
                    addr, path = ('*', v), ()
                elif self.types[s[1]]['k'] in ('ref', 'ptr'):
                    addr, path = ('K', v), ()
                # else Box: same place
            elif k == 'f':
                T = self.types[s[2]]
                if T['k'] in ('adt', 'tuple'):
                    v = self.load(st, addr, path)
                    if is_opaque(v):
                        self.expand(st, v, s[2], s[3])
                path = path + (s[1],)
            elif k == 'fx':
                path = path + (s[1],)
            elif k == 'sv':
                path = path + (('v', s[1], s[2]),)
            elif k == 'i':
                idx = self.head(st, self.cell(st, ('L', fr_d, s[1])))
                path = path + (self.elem_step(st, addr, path, idx),)
            elif k == 'ci':
                q = self.as_seq(st, addr, path)
                n = len(q[1])
                if any(x[0] == 'm' for x in q[1]):
                    raise Undecided('constant index into summarised sequence')
                path = path + (('e', n - s[1] if s[3] else s[1]),)
            elif k == 'sub':
                q = self.as_seq(st, addr, path)
                n = len(q[1])
                if any(x[0] == 'm' for x in q[1]):
                    raise Undecided('part of a summarised sequence')
                r = self.mkref(st, ('q', q[1][s[1]:n - s[2] if s[3] else s[2]]))
                addr, path = r[1], r[2]
            else:
                raise Undecided('projection %r' % (s,))
        return addr, path

    def as_seq(self, st, addr, path):
        v = self.head(st, self.load(st, addr, path))
        if v is not None and v[0] in ('y', 't'):
            w = ('q', (('m', ('y', ('g', v)), ('y', ('tv', 0))),))
            self.bindv(st, v, w)
            return w
        if v is not None and v[0] == 's':
            return ('q', tuple(('1', ('i', x)) for x in v[1].encode()))
        if v is None or v[0] != 'q':
            raise Undecided('expected a sequence, got %s' % (v[0] if v else v))
        return v

    def as_map(self, st, addr, path):
        v = self.head(st, self.load(st, addr, path))
        if v is not None and v[0] in ('y', 't'):
            w = ('h', (('y', ('g', v)), ('y', ('tv', 0)), ('y', ('tv', 1))), ())
            self.bindv(st, v, w)
            return w
        if v is None or v[0] != 'h':
            raise Undecided('expected a map, got %s' % (v[0] if v else v))
        return v

    def elem_step(self, st, addr, path, idx):
        q = self.as_seq(st, addr, path)
        if idx[0] == 'i':
            if all(x[0] == '1' for x in q[1][:idx[1] + 1]) and idx[1] < len(q[1]):
                return ('e', idx[1])
        raise Undecided('index into summarised sequence')

    def instantiate(self, st, tmpl, label):
        m = {}

        def go(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == 'y' and isinstance(v[1], tuple) and v[1][0] == 'tv':
                if v not in m:
                    m[v] = st.fresh(label)
                return m[v]
            if v[0] == 'm' and len(v) == 3:
                return ('m', go(v[1]), v[2])
            if v[0] == 'h' and len(v) == 3 and v[1]:
                return ('h', (go(v[1][0]),) + tuple(v[1][1:]), go(v[2]))
            return tuple(go(x) if isinstance(x, tuple) else x for x in v)
        return go(tmpl)

    # ------------------------------------------------------------ operands
    def const(self, st, c):
        k = c['c']
        if k == 'int':
            T = self.types[c['t']]
            if T['k'] == 'bool':
                return ('b', c['v'])
            if T['k'] == 'adt':
                if T.get('ak') == 'enum':
                    for i, v in enumerate(T.get('vs', [])):
                        if v['d'] == c['v'] and not v['f']:
                            return ('a', i, ())
                    for i, v in enumerate(T.get('vs', [])):
                        if v['d'] == c['v']:
                            return ('a', i, tuple(('i', c['v']) for _ in v['f']))
                if T.get('tr'):
                    return ('i', c['v'])
                if T.get('vs') and T.get('ak') == 'struct':
                    n = len(T['vs'][0]['f'])
                    if n == 1:
                        return self._wrapconst(T, c['v'])
                return ('y', ('const', T['s'], c['v']))
            return ('i', c['v'])
        if k == 'str':
            return ('s', c['v'])
        if k == 'bytes':
            return ('t', 'bytes', c['v'])
        if k == 'fn':
            T = self.types[c['t']]
            return ('fn', T.get('inst', -1), c['t'])
        if k == 'zst':
            T = self.types[c['t']]
            if T['k'] in ('adt',) and T.get('ak') == 'struct':
                return ('a', 0, tuple(UNIT for _ in T['vs'][0]['f'])) if T.get('vs') else UNIT
            if T['k'] == 'fndef':
                return ('fn', T.get('inst', -1), c['t'])
            return UNIT
        if k == 'body':
            return self.eval_const_body(c['b'])
        if 'bytes' in c and not c.get('relocs'):
            return ('t', 'bytes', tuple(c['bytes']))
        return ('t', 'const', c.get('s', '?'))

    def _wrapconst(self, T, n):
        ft = self.types[T['vs'][0]['f'][0][1]]
        if ft['k'] == 'adt' and ft.get('ak') == 'struct' and ft.get('vs'):
            return ('a', 0, (self._wrapconst(ft, n),))
        return ('a', 0, (('i', n),))

    def eval_const_body(self, b):
        if b in self.static:
            return self.static[b]
        sub = Engine(self.P)
        st = State()
        res = []
        sub.on_ret = lambda e, s, v: res.append((s, v))
        sub.push(st, sub.P.body(b), [], None, -1)
        sub.explore([st])
        v = ('y', ('constbody', b))
        if len(res) == 1:
            s, v0 = res[0]

            def conv(v):
                if not isinstance(v, tuple) or not v:
                    return v
                v = sub.head(s, v)
                if v[0] == 'r':
                    return ('r', ('K', conv(sub.load(s, v[1], v[2]))), ()) if v[1][0] != 'K' or v[2] else v
                return tuple(conv(x) if isinstance(x, tuple) else x for x in v)
            # locals of the promoted body are gone: take them from the kept frame
            v = conv(v0)
        self.static[b] = v
        return v

    def operand(self, st, d, o):
        k = o[0]
        if k == 'const':
            return self.const(st, o[1])
        if k == 'rt':
            return FALSE
        loc, steps, _ = o[1]
        if not steps:
            f = st.frames[d]
            v = f.L.get(loc)
            if k == 'move':
                st.frame(d).L.pop(loc, None)
            return v
        addr, path = self.resolve(st, d, o[1])
        v = self.load(st, addr, path)
        if k == 'move' and addr[0] == 'L' and path and v is not None and v[0] not in ('i', 'b'):
            # moved-out slots are forgotten so that they do not distinguish states
            try:
                if not (isinstance(path[-1], tuple) and path[-1][0] in ('e', 'k')):
                    self.store(st, addr, path, None)
            except Undecided:
                pass
        elif k == 'move' and addr[0] == 'H' and path and v is not None and isinstance(path[-1], tuple) and path[-1][0] == 'v':
            self.store(st, addr, path, None)
        return v

    def peek(self, st, d, o):
        return self.operand(st, d, ('copy', o[1]) if o[0] == 'move' else o)

    # --------------------------------------------------------- comparisons
    def eq_static(self, st, a, b):
        """True / False / None (unknown)"""
        a = self.head(st, a)
        b = self.head(st, b)
        if a == b:
            return True
        if a is None or b is None:
            return None
        ta, tb = a[0], b[0]
        if ta == 'r' or ta == 'dyn':
            return self.eq_static(st, self.derefv(st, a), b)
        if tb == 'r' or tb == 'dyn':
            return self.eq_static(st, a, self.derefv(st, b))
        if ta in ('i', 'b', 's') and tb in ('i', 'b', 's'):
            return a == b
        if ta == 'a' and tb == 'a':
            if a[1] != b[1]:
                return False
            if len(a[2]) != len(b[2]):
                return None
            r = True
            for x, y in zip(a[2], b[2]):
                e = self.eq_static(st, x, y)
                if e is False:
                    return False
                if e is None:
                    r = None
            return r
        if ta == 'q' and tb == 'q':
            ca = all(s[0] == '1' for s in a[1])
            cb = all(s[0] == '1' for s in b[1])
            if ca and cb:
                if len(a[1]) != len(b[1]):
                    return False
                r = True
                for x, y in zip(a[1], b[1]):
                    e = self.eq_static(st, x[1], y[1])
                    if e is False:
                        return False
                    if e is None:
                        r = None
                return r
            return None
        if ta == 'l' or tb == 'l':
            if ta == 'l' and tb == 'i':
                return self.lin_eq(st, a, b[1])
            if tb == 'l' and ta == 'i':
                return self.lin_eq(st, b, a[1])
            return None
        na, nb = self.norm(st, a), self.norm(st, b)
        if na == nb:
            return True
        k = self.eqkey(na, nb)
        r = st.facts.get(k)
        if r is None:
            if st.facts.get(('t', 'lt', na, nb)) or st.facts.get(('t', 'lt', nb, na)):
                return False
            # unknown strings built from differing literals are left undecided
            if na[0] == 'a' and nb[0] in ('y', 't') or nb[0] == 'a' and na[0] in ('y', 't'):
                o, c = (na, nb) if na[0] != 'a' else (nb, na)
                nv = st.facts.get(('notv', o))
                if nv is not None and c[1] in nv:
                    return False
            if na[0] == 'i' and nb[0] in ('y', 't') or nb[0] == 'i' and na[0] in ('y', 't'):
                o, c = (na, nb) if na[0] != 'i' else (nb, na)
                nv = st.facts.get(('notv', o))
                if nv is not None and c in nv:
                    return False
        return r

    def eqkey(self, a, b):
        return ('t', 'eq', a, b) if repr(a) <= repr(b) else ('t', 'eq', b, a)

    def lin_eq(self, st, l, n):
        bases, c, p = l[1], l[2], l[3]
        bases = tuple(b for b in bases if not st.facts.get(('empty', b)))
        if not bases:
            if not p:
                return c == n
            if c + 1 > n:
                return False
            return st.facts.get(('t', 'eq', l, ('i', n)))
        if c + (1 if p else 0) > n:
            return False
        return st.facts.get(('t', 'eq', l, ('i', n)))

    def assume_eq(self, st, a, b, val):
        """narrow st with a == b (or !=); False if impossible"""
        a = self.norm(st, self.derefv(st, a))
        b = self.norm(st, self.derefv(st, b))
        e = self.eq_static(st, a, b)
        if e is not None:
            return e == val
        if a[0] == 'l' or b[0] == 'l':
            l, n = (a, b) if a[0] == 'l' else (b, a)
            if n[0] == 'i':
                st.facts[('t', 'eq', l, n)] = val
                if val and n[1] == l[2] and not l[3]:
                    for x in l[1]:
                        st.facts[('empty', x)] = True
                return True
            st.facts[self.eqkey(a, b)] = val
            return True
        if a[0] == 't' and a[1] == 'bytes' or b[0] == 't' and b[1] == 'bytes':
            st.facts[self.eqkey(a, b)] = val
            return True
        if val:
            if is_opaque(a) and is_opaque(b):
                # bind the younger / more derived unknown to the other
                if self.older(a, b):
                    a, b = b, a
                if self.occurs(a, b):
                    if self.occurs(b, a):
                        st.facts[self.eqkey(a, b)] = True
                        return True
                    a, b = b, a
                return self.bindv(st, a, b)
            if is_opaque(a):
                if self.occurs(a, b):
                    st.facts[self.eqkey(a, b)] = True
                    return True
                return self.bindv(st, a, b)
            if is_opaque(b):
                return self.assume_eq(st, b, a, True)
            if a[0] == 'a' and b[0] == 'a':
                for x, y in zip(a[2], b[2]):
                    if not self.assume_eq(st, x, y, True):
                        return False
                return True
        else:
            if a[0] == 'a' and b[0] == 'a' and len(a[2]) == len(b[2]):
                und = [(x, y) for x, y in zip(a[2], b[2]) if self.eq_static(st, x, y) is None]
                if len(und) == 1:
                    return self.assume_eq(st, und[0][0], und[0][1], False)
        st.facts[self.eqkey(a, b)] = val
        return True

    def occurs(self, s, v):
        if v == s:
            return True
        if isinstance(v, tuple):
            return any(self.occurs(s, x) for x in v if isinstance(x, tuple))
        return False

    def older(self, a, b):
        """a should be kept as the representative"""
        def rank(v):
            if v[0] == 't':
                return (1, 0)
            r = root(v[1])
            if r[0] == 'in':
                return (0, 0)
            if r[0] == 'n':
                return (1, r[1])
            return (1, 0)
        return rank(a) < rank(b)

    def binop(self, st, op, a, b):
        """-> value, possibly an unknown boolean ('t','eq'|'lt'|'not'|...)"""
        a = self.head(st, a)
        b = self.head(st, b)
        if a is None or b is None:
            raise Undecided('operand unset')
        if a[0] == 'D':
            a = self.disc_now(st, a)
        if b[0] == 'D':
            b = self.disc_now(st, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Eq', 'Ne'):
            if a[0] == 'D' or b[0] == 'D':
                raise NeedFork([x for x in (a, b) if x[0] == 'D'])
            e = self.eq_static(st, a, b)
            if e is None:
                if a[0] == 'b' or b[0] == 'b':
                    k, o = (a, b) if a[0] == 'b' else (b, a)
                    v = o if k[1] else self.not_(o)
                else:
                    v = self.eqkey(self.norm(st, a), self.norm(st, b)) if a[0] != 'l' and b[0] != 'l' else (('t', 'eq', a, b) if a[0] == 'l' else ('t', 'eq', b, a))
                return v if base == 'Eq' else self.not_(v)
            return ('b', int(e == (base == 'Eq')))
        if a[0] == 'D' or b[0] == 'D':
            raise NeedFork([x for x in (a, b) if x[0] == 'D'])
        if base in ('Lt', 'Le', 'Gt', 'Ge'):
            if base == 'Gt':
                return self.lt(st, b, a)
            if base == 'Le':
                return self.not_(self.lt(st, b, a))
            if base == 'Ge':
                return self.not_(self.lt(st, a, b))
            return self.lt(st, a, b)
        if base in ('BitAnd', 'BitOr', 'BitXor') and (a[0] == 'b' or b[0] == 'b'):
            if a[0] == 'b' and b[0] == 'b':
                x, y = a[1], b[1]
                return ('b', x & y if base == 'BitAnd' else x | y if base == 'BitOr' else x ^ y)
            k, o = (a, b) if a[0] == 'b' else (b, a)
            if base == 'BitAnd':
                return o if k[1] else FALSE
            if base == 'BitOr':
                return TRUE if k[1] else o
            return self.not_(o) if k[1] else o
        r = None
        ovf = FALSE
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            if base == 'Add':
                r = ('i', x + y)
            elif base == 'Sub':
                r = ('i', x - y)
                if x - y < 0 and 'WithOverflow' in op:
                    ovf = ('t', 'subovf', a, b)
            elif base == 'Mul':
                r = ('i', x * y)
            elif base == 'Div' and y:
                r = ('i', int(x / y))
            elif base == 'Rem' and y:
                r = ('i', x % y)
            elif base == 'BitAnd':
                r = ('i', x & y)
            elif base == 'BitOr':
                r = ('i', x | y)
        elif base in ('Add', 'Sub') and (a[0] == 'l' and b[0] == 'i' or base == 'Add' and a[0] == 'i' and b[0] == 'l'):
            l, n = (a, b[1]) if a[0] == 'l' else (b, a[1])
            c = l[2] + (n if base == 'Add' else -n)
            r = ('l', l[1], c, l[3])
        elif base == 'Add' and a[0] == 'i' and a[1] == 0:
            r = b
        elif base in ('Add', 'Sub') and b[0] == 'i' and b[1] == 0:
            r = a
        elif base in ('Add', 'Sub'):
            r = self.linear(st, base, a, b)
        if base == 'Cmp':
            if a[0] == 'i' and b[0] == 'i':
                return ('a', 0 if a[1] < b[1] else 1 if a[1] == b[1] else 2, ())
            return ('t', 'cmp', self.norm(st, a), self.norm(st, b))
        if r is None:
            r = ('t', base, self.norm(st, a), self.norm(st, b))
            if self.depth(r) > 6:
                r = st.fresh('arith')
        if 'WithOverflow' in op:
            return ('a', 0, (r, ovf))
        return r

    def linear(self, st, op, a, b):
        """sums and differences in one canonical form: atoms in a fixed order, one constant"""
        at = {}
        k = 0

        def add(v, sg):
            nonlocal k
            if v[0] == 'i':
                k += sg * v[1]
            elif v[0] == 't' and v[1] in ('Add', 'Sub'):
                add(v[2], sg)
                add(v[3], sg if v[1] == 'Add' else -sg)
            else:
                at[v] = at.get(v, 0) + sg
        a, b = self.norm(st, a), self.norm(st, b)
        if a[0] == 'l' or b[0] == 'l':
            return None
        add(a, 1)
        add(b, 1 if op == 'Add' else -1)
        at = {v: c for v, c in at.items() if c}
        if any(abs(c) != 1 for c in at.values()) or len(at) > 5 or not any(c > 0 for c in at.values()):
            return ('i', k) if not at else None
        pos = sorted([v for v, c in at.items() if c > 0], key=repr)
        r = pos[0]
        for v in pos[1:]:
            r = ('t', 'Add', r, v)
        for v in sorted([v for v, c in at.items() if c < 0], key=repr):
            r = ('t', 'Sub', r, v)
        return r if k == 0 else ('t', 'Add', r, ('i', k)) if k > 0 else ('t', 'Sub', r, ('i', -k))

    def depth(self, v):
        if not isinstance(v, tuple):
            return 0
        if v and v[0] in ('y', 's', 'i'):
            return 1
        return 1 + max([self.depth(x) for x in v] or [0])

    def not_(self, v):
        if v[0] == 'b':
            return ('b', 1 - v[1])
        if v[0] == 't' and v[1] == 'not':
            return v[2]
        return ('t', 'not', v)

    def lt(self, st, a, b):
        if a[0] == 'i' and b[0] == 'i':
            return ('b', int(a[1] < b[1]))
        if a[0] == 'l' and b[0] == 'i':
            lo = a[2] + (1 if a[3] else 0)
            if lo >= b[1]:
                return FALSE
            if not a[1] and not a[3]:
                return ('b', int(a[2] < b[1]))
            if b[1] == 1:
                return ('t', 'eq', a, ('i', 0))
        if b[0] == 'l' and a[0] == 'i':
            lo = b[2] + (1 if b[3] else 0)
            if a[1] < lo:
                return TRUE
            if not b[1] and not b[3]:
                return ('b', int(a[1] < b[2]))
            if a[1] == 0:
                return ('t', 'not', ('t', 'eq', b, ('i', 0)))
        if b == ('i', 0) and a[0] == 't' and a[1] in ('len',):
            return FALSE
        na, nb = self.norm(st, a), self.norm(st, b)
        if na == nb:
            return FALSE
        k = ('t', 'lt', na, nb)
        if k in st.facts:
            return ('b', int(st.facts[k]))
        if st.facts.get(('t', 'lt', nb, na)):
            return FALSE
        if st.facts.get(self.eqkey(na, nb)):
            return FALSE
        return k

    def disc_now(self, st, d):
        v = self.head(st, d[1])
        if v[0] == 'a':
            return ('i', self.types[d[2]]['vs'][v[1]]['d'] if self.types[d[2]].get('vs') else v[1])
        if v[0] == 'c':
            return ('i', v[2])
        return d

    def variants(self, st, v, ti):
        """variants an unknown of type ti may still have"""
        T = self.types[ti]
        nv = st.facts.get(('notv', v), ())
        out = []
        for i, x in enumerate(T.get('vs') or []):
            if i in nv:
                continue
            if any(self.types[f[1]]['k'] == 'never' for f in x['f']):
                continue
            if any(self.types[f[1]]['k'] == 'adt' and self.types[f[1]]['name'] == 'Infallible' for f in x['f']):
                continue
            out.append(i)
        return out

    def truth(self, st, v):
        """True/False/None for a boolean value"""
        v = self.head(st, v)
        if v[0] == 'b':
            return bool(v[1])
        if v[0] == 't' and v[1] == 'not':
            r = self.truth(st, v[2])
            return None if r is None else not r
        if v[0] == 't' and v[1] == 'eq':
            return self.eq_static(st, v[2], v[3])
        if v[0] == 't' and v[1] == 'lt':
            w = self.lt(st, self.head(st, v[2]), self.head(st, v[3]))
            return bool(w[1]) if w[0] == 'b' else st.facts.get(self.norm(st, v))
        return st.facts.get(self.norm(st, v))

    def assume(self, st, v, val):
        v = self.head(st, v)
        r = self.truth(st, v)
        if r is not None:
            return r == val
        if v[0] == 't' and v[1] == 'not':
            return self.assume(st, v[2], not val)
        if v[0] == 't' and v[1] == 'eq':
            return self.assume_eq(st, v[2], v[3], val)
        if v[0] in ('y', 't') and v[1] not in ('lt',):
            if v[0] == 'y':
                return self.bindv(st, v, ('b', int(val)))
        st.facts[self.norm(st, v)] = val
        return True

    def cases(self, st, v):
        """[(state, bool)] for a boolean value"""
        r = self.truth(st, v)
        if r is not None:
            return [(st, r)]
        out = []
        for val in (True, False):
            s = st.fork()
            if self.assume(s, v, val):
                out.append((s, val))
        self.stats['forks'] += 1
        return out

    def eq_cases(self, st, a, b):
        r = self.eq_static(st, a, b)
        if r is not None:
            return [(st, r)]
        out = []
        for val in (True, False):
            s = st.fork()
            if self.assume_eq(s, a, b, val):
                out.append((s, val))
        self.stats['forks'] += 1
        return out

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, d, r):
        k = r['r']
        if k == 'use':
            return self.operand(st, d, r['a'])
        if k == 'ref':
            a, p = self.resolve(st, d, r['p'])
            if self.types[r['p'][2]]['k'] == 'str':
                v = self.head(st, self.load(st, a, p))
                if v is not None and v[0] == 's':
                    return v
            if self.types[r['p'][2]]['k'] == 'dyn' and r['p'][1] and r['p'][1][-1][0] == '*':
                # reborrow of a trait object
                a2, p2 = self.resolve(st, d, (r['p'][0], r['p'][1][:-1], None))
                v = self.head(st, self.load(st, a2, p2))
                if v is not None and v[0] == 'dyn':
                    return v
            return ('r', a, p)
        if k == 'agg':
            ops = [self.operand(st, d, o) for o in r['ops']]
            T = self.types[r['t']]
            if r['k'] == 'array':
                return ('q', tuple(('1', x) for x in ops))
            if r['k'] == 'coroutine':
                return ('c', T['inst'], 0, tuple((i, x) for i, x in enumerate(ops)))
            if r['k'] == 'adt':
                if T.get('tr'):
                    return ops[0] if ops else UNIT
                if T['ak'] == 'union':
                    return ops[0] if ops else None
            if r['k'] == 'rawptr':
                return ops[0]
            return ('a', r['v'], tuple(ops))
        if k == 'discr':
            a, p = self.resolve(st, d, r['p'])
            v = self.head(st, self.load(st, a, p))
            if v is None:
                T = self.types[r['t']]
                inh = [i for i, x in enumerate(T.get('vs') or ()) if not any(self.types[f[1]]['s'] in ('!', 'std::convert::Infallible') for f in x['f'])]
                if len(inh) != 1:
                    raise Undecided('discriminant of unset place')
                v = ('a', inh[0], ())
            if v[0] == 'a':
                T = self.types[r['t']]
                return ('i', T['vs'][v[1]]['d'] if T.get('vs') else v[1])
            if v[0] == 'c':
                return ('i', v[2])
            if v[0] in ('y', 't'):
                vs = self.variants(st, v, r['t'])
                if len(vs) == 1:
                    self.expand(st, v, r['t'], vs[0])
                    return ('i', self.types[r['t']]['vs'][vs[0]]['d'])
                return ('D', v, r['t'])
            raise Undecided('discriminant of %s' % v[0])
        if k == 'bin':
            a = self.peek(st, d, r['a'])
            b = self.peek(st, d, r['b'])
            return self.binop(st, r['op'], a, b)
        if k == 'un':
            a = self.head(st, self.operand(st, d, r['a']))
            if r['op'] == 'Not':
                if a[0] == 'i':
                    return ('i', ~a[1])
                return self.not_(a)
            if r['op'] == 'Neg' and a[0] == 'i':
                return ('i', -a[1])
            if r['op'] == 'PtrMetadata':
                ad, pa = self.deref(st, a)
                return self.N.seq_len(self, st, self.head(st, self.load(st, ad, pa)))
            return ('t', r['op'], self.norm(st, a))
        if k == 'cast':
            ck = r['k']
            if ck.startswith('BoxDeref'):
                a, p = self.resolve(st, d, r['a'][1])
                return ('r', a, p)
            v = self.peek(st, d, r['a'])
            if 'Unsize' in ck:
                to = self.types[r['t']]
                if to['k'] in ('ref', 'ptr') and self.types[to['e']]['k'] == 'dyn':
                    fr = self.types[r['st']]
                    return ('dyn', v, fr.get('e', r['st']))
                fr = self.types[r['st']]
                if to['k'] == 'adt' and fr['k'] == 'adt' and to.get('args') and self.types[to['args'][0]]['k'] == 'dyn':
                    T = self.types[fr['args'][0]]
                    if T['k'] == 'closure':
                        return ('cl', T['inst'], v)
                    if T['k'] == 'fndef' and T.get('inst', -1) >= 0:
                        return ('fn', T['inst'])
                return v
            if 'ReifyFnPointer' in ck or 'ClosureFnPointer' in ck:
                if 'Closure' in ck:
                    T = self.types[r['st']]
                    return ('cl', T['inst'], v)
                return v
            if ck.startswith('Transmute') and self.types[r['t']]['k'] in ('int', 'uint'):
                w = self.head(st, v)
                if w is not None and w[0] in ('r', 'dyn', 'y', 's', 'q'):
                    return ('y', ('addr',))
            if ck.startswith('IntToInt') or ck.startswith('Transmute') or ck.startswith('Ptr'):
                w = self.head(st, v)
                if w is not None and w[0] == 'D':
                    w = self.disc_now(st, w)
                    if w[0] == 'D':
                        raise NeedFork([w])
                    return w
                if w is not None and w[0] == 'b' and self.types[r['t']]['k'] in ('int', 'uint'):
                    return ('i', w[1])
                return v
            return v
        if k == 'mk':
            return ('a', r['v'], tuple(self.operand(st, d, o) for o in r['ops']))
        if k == 'val':
            return r['v']
        if k == 'repeat':
            v = self.operand(st, d, r['a'])
            if 0 <= r['n'] <= 8:
                return ('q', tuple(('1', v) for _ in range(r['n'])))
            return ('q', (('m', st.fresh('arr#%d' % r['n'] if r['n'] >= 0 else 'arr'), v),))
        raise Undecided('rvalue %s' % k)

    # ----------------------------------------------------------- execution
    def push(self, st, body, args, dest, target, conv=None, span=None):
        f = Frame()
        f.body = body
        f.bb = 0
        f.ip = 0
        f.L = {}
        f.dest = dest
        f.target = target
        f.conv = conv
        f.owner = st.owner
        f.span = span
        for i, a in enumerate(args):
            f.L[i + 1] = a
        if len(st.frames) > 90:
            raise Undecided('recursion too deep')
        st.frames.append(f)
        if body.inst >= 0:
            self.functions.add(body.inst)

    def loc(self, st):
        return tuple((f.body.id, f.bb, f.ip) for f in st.frames)

    def where(self, st):
        """innermost source position in the repository"""
        for f in reversed(st.frames):
            bb = f.body.bbs[f.bb]
            sp = None
            if f.ip < len(bb[0]):
                s = bb[0][f.ip]
                sp = s[3] if s[0] == '=' else None
            if sp is None:
                sp = bb[1].get('sp') or f.body.span
            if sp and sp.startswith('src/'):
                return sp
        return '?'

    def explore(self, states):
        work = list(states)
        while work:
            st = work.pop()
            if self.stats['steps'] > self.max_steps or self.stats['paths'] > self.max_paths or self.deadline and time.time() > self.deadline:
                self.undecided.append('budget exhausted')
                self.stats['undecided'] += 1
                return
            # a path that has left the models can raise no alarm: it is followed only a little way
            if st.taint and self.tsteps > self.max_tainted:
                if 'not followed further: ' not in ''.join(self.undecided[-1:]):
                    self.undecided.append('not followed further: ' + ', '.join(sorted(st.taint)))
                self.stats['undecided'] += 1
                continue
            n0 = self.stats['steps']
            try:
                nxt = self.run(st)
                if st.taint:
                    self.tsteps += self.stats['steps'] - n0
            except Undecided as e:
                self.stats['undecided'] += 1
                self.undecided.append('%s at %s' % (e, self.where(st)))
                continue
            except Infeasible:
                continue
            work.extend(reversed(nxt))

    def run(self, st):
        """run until the path forks or ends; returns successor states"""
        P = self.P
        while True:
            if not st.frames or st.dead:
                return []
            d = len(st.frames) - 1
            f = st.frame(d)
            bb = f.body.bbs[f.bb]
            if bb is None:
                return []
            ss, t = bb
            n = len(ss)
            while f.ip < n:
                s = ss[f.ip]
                self.stats['steps'] += 1
                k = s[0]
                if k == '=':
                    try:
                        if s[2]['r'] in ('bin', 'cast'):
                            snap = None
                        v = self.rvalue(st, d, s[2])
                    except NeedFork as e:
                        return self.force(st, e.args[0])
                    f = st.frame(d)
                    pl = s[1]
                    if not pl[1]:
                        f.L[pl[0]] = v
                    else:
                        a, p = self.resolve(st, d, pl)
                        self.store(st, a, p, v)
                        f = st.frame(d)
                elif k == 'dead' or k == 'live':
                    f.L.pop(s[1], None)
                elif k == 'sd':
                    a, p = self.resolve(st, d, s[1])
                    v = self.head(st, self.load(st, a, p))
                    if v is not None and v[0] == 'c':
                        self.store(st, a, p, ('c', v[1], s[2], v[3] if s[2] != 1 else ()))
                    else:
                        self.store(st, a, p, ('a', s[2], v[2] if v is not None and v[0] == 'a' else ()))
                    f = st.frame(d)
                f.ip += 1
            self.stats['steps'] += 1
            k = t['t']
            if k == 'goto' or k == 'drop':
                if k == 'drop':
                    self.drop(st, d, t['p'])
                    f = st.frame(d)
                if not self.jump(st, t['b']):
                    return []
            elif k == 'switch':
                r = self.switch(st, d, t)
                if r is not None:
                    return r
                if not st.frames:
                    return []
            elif k == 'call':
                r = self.call(st, d, t)
                if r is not None:
                    return r
            elif k == 'ret':
                r = self.ret(st)
                if r is not None:
                    return r
            elif k == 'assert':
                c = self.operand(st, d, t['c'])
                r = self.truth(st, c)
                if r is None:
                    # arithmetic overflow and debug pointer checks of unknowns are assumed to pass
                    if not t['m'].startswith('Overflow') and not 'Pointer' in t['m'] and not t['m'].startswith(('Misaligned', 'Null', 'Bounds')):
                        pass
                    if not self.jump(st, t['b']):
                        return []
                elif r == bool(t['e']):
                    if not self.jump(st, t['b']):
                        return []
                else:
                    return self.panic(st, 'assertion ' + t['m'])
            elif k == 'unr':
                return []
            else:
                raise Undecided('terminator %s' % t)

    def drop(self, st, d, pl):
        try:
            a, p = self.resolve(st, d, pl)
            v = self.load(st, a, p)
        except Undecided:
            return
        if v is None:
            return
        if self.on_drop is not None:
            self.on_drop(self, st, v)
        if not pl[1]:
            st.frame(d).L.pop(pl[0], None)
        elif a[0] != 'K' and not any(isinstance(x, tuple) and x[0] in ('e', 'k') for x in p):
            try:
                if self.head(st, v)[0] not in ('i', 'b', 's'):
                    self.store(st, a, p, None)
            except Undecided:
                pass

    def force(self, st, ds):
        """fork on the variants of the unknowns behind the discriminants ds; the statement is retried"""
        D = ds[0]
        out = []
        v = self.head(st, D[1])
        for i in self.variants(st, v, D[2]):
            s = st.fork()
            try:
                self.expand(s, v, D[2], i)
            except Infeasible:
                continue
            # operands may have been moved out: put nothing back, comparisons only copy
            out.append(s)
        self.stats['forks'] += 1
        return out

    def jump(self, st, bb):
        f = st.frame()
        f.bb = bb
        f.ip = 0
        if self.on_edge is not None:
            self.on_edge(self, st, f.body, bb)
        if bb in f.body.heads:
            return self.loop_head(st)
        return True

    def switch(self, st, d, t):
        if t['d'][0] == 'variant':
            v = self.head(st, st.frames[d].L.get(t['d'][1]))
            if v is None or v[0] != 'a':
                raise Undecided('branch on unknown variant')
            v = ('i', v[1])
        else:
            v = self.head(st, self.operand(st, d, t['d']))
        if v is None:
            raise Undecided('switch on unset place')
        if v[0] == 'D':
            v2 = self.disc_now(st, v)
            if v2[0] == 'D':
                return self.switch_disc(st, t, v)
            v = v2
        if v[0] in ('i', 'b'):
            tgt = t['o']
            for val, b in t['vs']:
                if val == v[1] or (v[1] < 0 and val == v[1] % (1 << 128)) or (v[1] < 0 and val in (v[1] % (1 << 64), v[1] % (1 << 32), v[1] % 256)):
                    tgt = b
                    break
            return None if self.jump(st, tgt) else []
        if t['ty'] == -1 or self.types[t['ty']]['k'] == 'bool':
            out = []
            for s, val in self.cases(st, v):
                tgt = t['o']
                for x, b in t['vs']:
                    if x == int(val):
                        tgt = b
                s_ok = self.jump(s, tgt)
                if s_ok:
                    out.append(s)
            if len(out) == 1 and out[0] is st:
                return None
            return out
        out = []
        for val, b in t['vs']:
            s = st.fork()
            if self.assume_eq(s, v, ('i', val), True) and self.jump(s, b):
                out.append(s)
        s = st.fork()
        feas = True
        for val, b in t['vs']:
            if not self.assume_eq(s, v, ('i', val), False):
                feas = False
                break
        if feas and self.jump(s, t['o']):
            out.append(s)
        self.stats['forks'] += 1
        return out

    def switch_disc(self, st, t, D):
        v, ti = self.head(st, D[1]), D[2]
        T = self.types[ti]
        poss = self.variants(st, v, ti)
        out = []
        rest = []
        tg = dict(t['vs'])
        for i in poss:
            dv = T['vs'][i]['d']
            key = next((x for x in (dv, dv % 256, dv % (1 << 32), dv % (1 << 64), dv % (1 << 128)) if x in tg), dv) if dv < 0 else dv
            if key in tg:
                s = st.fork()
                try:
                    self.expand(s, v, ti, i)
                except Infeasible:
                    continue
                if self.jump(s, tg[key]):
                    out.append(s)
            else:
                rest.append(i)
        if rest:
            s = st.fork()
            okk = True
            if len(rest) == 1:
                try:
                    self.expand(s, v, ti, rest[0])
                except Infeasible:
                    okk = False
            else:
                s.facts[('notv', v)] = frozenset(i for i in range(len(T['vs'])) if i not in rest)
            if okk and self.jump(s, t['o']):
                out.append(s)
        self.stats['forks'] += 1
        return out

    def panic(self, st, msg):
        self.stats['paths'] += 1
        if self.on_panic:
            self.on_panic(self, st, msg)
        return []

    def ret(self, st):
        f = st.frames[-1]
        v = f.L.get(0)
        if v is None:
            v = UNIT
        if len(st.frames) == 1:
            self.stats['paths'] += 1
            if st.taint:
                self.stats['tainted'] += 1
            if self.on_ret:
                self.on_ret(self, st, v)
            return []
        # references to this frame's locals cannot outlive it
        st.frames.pop()
        if f.conv is not None:
            r = f.conv(self, st, v)
            return self.finish(st, r, f.dest, f.target)
        return self.complete(st, v, f.dest, f.target)

    def complete(self, st, v, dest, target):
        """write a call's result into the caller and go on; None to continue in place"""
        d = len(st.frames) - 1
        if target is None or target < 0:
            return []
        if dest is not None:
            if not dest[1]:
                st.frame(d).L[dest[0]] = v
            else:
                a, p = self.resolve(st, d, dest)
                self.store(st, a, p, v)
        return None if self.jump(st, target) else []

    def finish(self, st, r, dest, target):
        """r: value | ('PUSH',...) marker None | list of (state, value)"""
        if r is PUSHED:
            return None
        if isinstance(r, list):
            out = []
            for s, v in r:
                if s.dead:
                    continue
                if v is PUSHED:
                    out.append(s)
                    continue
                c = self.complete(s, v, dest, target)
                if c is None:
                    out.append(s)
            if len(out) == 1 and out[0] is st:
                return None
            return out
        return self.complete(st, r, dest, target)

    def call(self, st, d, t):
        self.stats['calls'] += 1
        fo = t['f']
        args = [self.operand(st, d, a) for a in t['a']]
        inst = t.get('inst', -1)
        C = Call(t, args, t['d'], t['b'], d)
        if fo[0] == 'native':
            try:
                r = fo[1](self, st, C)
            except self.N._Direct as x:
                return x.args[0]
            return self.finish(st, r, t['d'], t['b'])
        if fo[0] == 'callfn':
            return self.call_fn(st, fo[1], args, C)
        if fo[0] == 'callinst':
            return self.invoke(st, fo[1], args, C)
        if inst < 0:
            if fo[0] == 'const':
                return self.unknown(st, C, t.get('decl', '?'))
            fv = self.head(st, self.operand(st, d, fo))
            return self.call_value(st, fv, args, C)
        return self.invoke(st, inst, args, C)

    def call_value(self, st, fv, args, C):
        fv = self.head(st, fv)
        if fv is not None and fv[0] == 'r':
            fv = self.derefv(st, fv)
        if fv is not None and fv[0] == 'fn' and fv[1] >= 0:
            return self.invoke(st, fv[1], args, C)
        if fv is not None and fv[0] == 'cl':
            return self.invoke(st, fv[1], [fv[2]] + args, C)
        return self.unknown(st, C, 'call of an unknown function value')

    def invoke(self, st, inst, args, C):
        I = self.insts[inst]
        h = self.inst_hooks.get(inst) or self.hooks.get(I['path']) or self.hooks.get(I['short'])
        C.inst = inst
        C.args = args
        if h is not None:
            r = h(self, st, C)
            if r is not NotImplemented:
                return self.finish(st, r, C.dest, C.target)
        k = I['kind']
        if C.t.get('decl', '').endswith('Future::poll') and self.pollable(st, args[0]):
            return self.finish(st, self.poll(st, args[0], C), C.dest, C.target)
        if k == 'virtual':
            return self.virtual(st, I, args, C)
        if k == 'fnptr_shim':
            f0 = self.types[I['args'][0]]
            rest = self.untuple(st, args[1])
            if f0['k'] == 'fndef' and f0.get('inst', -1) >= 0:
                return self.invoke(st, f0['inst'], rest, C)
            return self.call_value(st, args[0], rest, C)
        if k == 'clone_shim':
            return self.finish(st, self.derefv(st, args[0]), C.dest, C.target)
        if I['dk'] in ('Ctor(Variant, Fn)', 'Ctor(Struct, Fn)') or I['dk'].startswith('Ctor'):
            v = self.ctor(inst, C, args)
            return self.finish(st, v, C.dest, C.target)
        n = self.natives.get(I['path']) or self.natives.get(I['short'])
        if n is not None and not (I['local'] and I['body'] >= 0):
            try:
                r = n(self, st, C)
            except self.N._Direct as x:
                return x.args[0]
            if r is not NotImplemented:
                return self.finish(st, r, C.dest, C.target)
        if I['body'] < 0:
            return self.unknown(st, C, I['path'])
        B = self.P.body(I['body'])
        if I['dk'] == 'Closure' and C.t.get('decl', '').split('::')[-1] in ('call', 'call_mut', 'call_once') and len(args) == 2 and k == 'item':
            args = [args[0]] + self.untuple(st, args[1])
            args[0] = self.closure_self(st, B, args[0])
        elif k == 'closure_once':
            args = [args[0]] + ([args[1]] if B.nargs == 2 and B.spread < 0 and len(args) == 2 else list(args[1:]))
        if B.spread >= 0 and len(args) > B.spread:
            pass
        if len(args) != B.nargs and len(args) == 2 and B.nargs >= 1 and args[1] is not None and args[1][0] == 'a':
            args = [args[0]] + self.untuple(st, args[1])
        if len(args) != B.nargs:
            raise Undecided('arity of %s: %d for %d' % (I['path'], len(args), B.nargs))
        self.push(st, B, args, C.dest, C.target, None, C.t.get('sp'))
        if 0 in B.heads and not self.loop_head(st):
            return []
        return None

    def ctor(self, inst, C, args):
        rt = C.t.get('rt')
        I = self.insts[inst]
        name = I['path'].split('::')[-1]
        if rt is not None:
            T = self.types[rt]
            if T['k'] == 'adt':
                for i, v in enumerate(T.get('vs') or []):
                    if v['n'] == name:
                        return ('a', i, tuple(args))
        # through the parent's type
        par = split_last(I['path'])
        for T in self.types:
            if T['k'] == 'adt' and T.get('vs') and (T['path'] == par or T['path'] == I['path']):
                for i, v in enumerate(T['vs']):
                    if v['n'] == name:
                        return ('a', i, tuple(args))
        raise Undecided('constructor ' + I['path'])

    def untuple(self, st, v):
        v = self.head(st, v)
        if v is None or v[0] != 'a':
            raise Undecided('argument tuple')
        return list(v[2])

    def virtual(self, st, I, args, C):
        m = I['path'].split('::')[-1]
        if I['short'].endswith('Future::poll'):
            return self.finish(st, self.poll(st, args[0], C), C.dest, C.target)
        v = args[0]
        for _ in range(6):
            v = self.head(st, v)
            if v is None or v[0] == 'dyn':
                break
            if v[0] == 'r':
                v = self.load(st, v[1], v[2])
            else:
                break
        if v is not None and v[0] == 'dyn':
            ts = self.types[v[2]]
            base = split_gen(ts.get('path', ts['s']))
            tr = split_gen('::'.join(I['path'].split('::')[:-1]))
            for key, ns in self.P.impls.items():
                if key[0] == base and key[1] == tr and key[2] == m:
                    return self.invoke(st, ns[0], [v[1]] + args[1:], C)
            for n, J in enumerate(self.insts):
                if J['body'] >= 0 and J['kind'] == 'item' and J['path'].endswith('::' + m) and split_gen(J['path']).startswith(base + '::') and J['dk'] == 'AssocFn':
                    return self.invoke(st, n, [v[1]] + args[1:], C)
        if os.environ.get('PA_VIRT'): print('VIRT', args[0], v, v and v[0]=='dyn' and self.types[v[2]].get('s'), self.where(st), [(self.head(st,x)) for x in [args[0]]])
        return self.unknown(st, C, I['path'])

    def poll(self, st, ref, C):
        """drive a future to completion; returns a result for finish() or None when a frame was pushed"""
        v = self.head(st, ref)
        addr = path = None
        for _ in range(10):
            if v is None:
                raise Undecided('poll of unset future')
            if v[0] in ('r', 'dyn'):
                addr, path = self.deref(st, v)
                v = self.head(st, self.load(st, addr, path))
            else:
                break
        if v[0] == 'c':
            I = self.insts[v[1]]
            h = self.inst_hooks.get(v[1]) or self.hooks.get(I['path'])
            if h is not None:
                C.fut = v
                C.inst = v[1]
                ups = dict(v[3])
                C.ups = [ups.get(i) for i in range(len([k for k in ups if isinstance(k, int)]))]
                C.self_ref = ('r', addr, path)
                r = h(self, st, C)
                if r is not NotImplemented:
                    self.store_done(st, addr, path)
                    return wrap_ready(self, st, r)
            if I['body'] < 0:
                n = self.natives.get(I['path'] + '!poll') or self.natives.get(I['short'] + '!poll')
                if n:
                    C.ups = [x for _, x in v[3]]
                    return wrap_ready(self, st, n(self, st, C))
                self.unknown_value(st, I['path'])
                return ready(st.fresh('poll ' + I['short']))
            self.push(st, self.P.body(I['body']), [('r', addr, path), ('y', ('cx',))], C.dest, C.target, None, C.t.get('sp'))
            return PUSHED
        if v[0] == 'F':
            fn = self.N.FUT.get(v[1])
            if fn is None:
                raise Undecided('future %s' % v[1])
            C.fut = v
            C.self_ref = ('r', addr, path)
            return wrap_ready(self, st, fn(self, st, v, C))
        if v[0] in ('y', 't'):
            return ready(st.fresh('poll'))
        raise Undecided('poll of %s' % v[0])

    def pollable(self, st, ref):
        v = self.head(st, ref)
        for _ in range(10):
            if v is None:
                return False
            if v[0] in ('r', 'dyn'):
                v = self.head(st, self.load(st, *self.deref(st, v)))
            else:
                break
        return v is not None and v[0] in ('c', 'F', 'y', 't')

    shapes = None      # channel -> kinds of message (variant, number of fields) sent into it, or None if unknown

    def emit(self, st, ev):
        if self.on_event is not None and not st.dead:
            try:
                self.on_event(self, st, ev)
            except Infeasible:
                st.dead = True        # this branch ends here; its siblings go on

    def call_fn(self, st, ti, args, C):
        """call a value of closure / fn item / fn pointer / reference-to-those type"""
        f = args[0]
        T = self.types[ti]
        while T['k'] in ('ref', 'ptr') or T['k'] == 'adt' and T.get('tr'):
            ti = T['e'] if T['k'] in ('ref', 'ptr') else T['args'][0]
            T = self.types[ti]
        C.args = args
        if T['k'] == 'fndef' and T.get('inst', -1) >= 0:
            return self.invoke(st, T['inst'], args[1:], C)
        if T['k'] == 'closure':
            I = self.insts[T['inst']]
            if I['body'] < 0:
                return self.unknown(st, C, I['path'])
            B = self.P.body(I['body'])
            a0 = self.closure_self(st, B, f)
            h = self.hooks.get(I['path'])
            if h is not None:
                r = h(self, st, C)
                if r is not NotImplemented:
                    return self.finish(st, r, C.dest, C.target)
            self.push(st, B, [a0] + args[1:], C.dest, C.target, None, C.t.get('sp'))
            return None
        return self.call_value(st, f, args[1:], C)

    def closure_self(self, st, B, f):
        v = self.head(st, f)
        if self.types[B.locals[1]]['k'] in ('ref', 'ptr'):
            if v is None or v[0] not in ('r', 'dyn'):
                return self.mkref(st, v)
            while True:
                w = self.head(st, self.load(st, *self.deref(st, v)))
                if w is not None and w[0] == 'r':
                    v = w
                else:
                    return v
        return self.derefv(st, v)

    def store_done(self, st, addr, path):
        if addr is not None and addr[0] != 'K':
            try:
                v = self.head(st, self.load(st, addr, path))
                if v is not None and v[0] == 'c':
                    self.store(st, addr, path, ('c', v[1], 1, ()))
            except Undecided:
                pass

    def unknown_value(self, st, name):
        st.mark(name)
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1

    def unknown(self, st, C, name):
        """no body and no model: the result and everything reachable by &mut is unknown"""
        self.unknown_value(st, name)
        at = C.t.get('at', [])
        for a, ti in zip(C.args, at):
            T = self.types[ti]
            if T['k'] == 'ref' and T.get('mut'):
                try:
                    ad, pa = self.deref(st, a)
                    if ad[0] != 'K':
                        self.store(st, ad, pa, st.fresh('havoc'))
                except Undecided:
                    pass
        v = st.fresh('ret ' + name.split('::')[-1])
        return self.finish(st, v, C.dest, C.target)

    # --------------------------------------------------------- loop heads
    def loop_head(self, st):
        self.stats['loop_visits'] += 1
        loc = self.loc(st)
        self.trim(st)
        for k in [k for k, v in st.facts.items() if self.bytefact(k) and not (v is True and k[1] in ('eq', 'empty'))]:
            del st.facts[k]
        lv = st.lv
        for i, (l, c, snap) in enumerate(lv):
            if l == loc:
                del lv[i + 1:]
                c += 1
                if c >= self.WIDEN:
                    self.widen(st, snap, c)
                lv[i] = (loc, c, self.snap(st))
                break
        else:
            lv.append((loc, 1, self.snap(st)))
        key = self.canon(st)
        S = self.seen.setdefault(loc, set())
        if not S:
            self.stats['loop_heads'] += 1
        if key in S:
            self.stats['cut'] += 1
            return False
        S.add(key)
        if len(S) > self.MAXHEAD:
            raise Undecided('no fixpoint within bounds')
        return True

    _bf = {}

    def bytefact(self, k):
        """a fact about the content or length of a byte string (kept only while no loop head is crossed)"""
        r = self._bf.get(k)
        if r is None:
            def has(v):
                return isinstance(v, tuple) and (len(v) > 1 and v[0] == 't' and v[1] in ('bytes', 'len', 'empty') or any(has(x) for x in v if isinstance(x, tuple)))
            r = self._bf[k] = k[0] == 't' and has(k)
        return r

    def trim(self, st):
        """forget locals and coroutine slots that are dead and not referred to"""
        active = {}
        roots = []
        n = len(st.frames)
        marked = set()
        for d, f in enumerate(st.frames):
            B = f.body
            live = self.P.live(B)
            if d == n - 1:
                lv = live[f.bb]
            else:
                t = B.bbs[f.bb][1]
                lv = set(live[t['b']] or ()) if t['b'] is not None and t['b'] >= 0 else set()
                dst = t['d']
                if dst[1]:
                    # the destination's base is needed to store the result
                    lv.add(dst[0])
            slots = set()
            for x in lv:
                if isinstance(x, tuple):
                    slots.add(x[1])
                else:
                    roots.append((d, x))
            if B.alias:
                v = f.L.get(1)
                v = self.head(st, v)
                if v is not None and v[0] == 'r':
                    active[(v[1], v[2])] = slots
                    roots.append((d, 1))
                for a in B.alias:
                    roots.append((d, a))
            if B.nargs >= 1 and B.synth:
                for a in range(1, B.nargs + 1):
                    roots.append((d, a))
        done_slots = {k: set() for k in active}
        todo = []
        seenH = set()
        seenv = set()

        def mark_local(d, l):
            if (d, l) in marked:
                return
            marked.add((d, l))
            v = st.frames[d].L.get(l)
            if v is not None:
                todo.append((v, ('L', d, l), ()))

        def mark_slot(key, s):
            if s in done_slots[key]:
                return
            done_slots[key].add(s)
            v = self.head(st, self.load(st, key[0], key[1]))
            if v is not None and v[0] == 'c':
                kk = (s[1], s[2]) if isinstance(s, tuple) else s
                for k, x in v[3]:
                    if k == kk and x is not None:
                        todo.append((x, key[0], key[1] + (s,)))

        def mark_ref(a, p):
            if a[0] == 'L':
                mark_local(a[1], a[2])
            elif a[0] != 'K':
                if a not in seenH:
                    seenH.add(a)
                    v = st.heap.get(a)
                    if v is not None:
                        todo.append((v, a, ()))
                w = st.weak.get(a)
                if w is not None:
                    mark_ref(w[0], w[1])
            elif isinstance(a[1], tuple):
                todo.append((a[1], a, ()))
            for key in active:
                if key[0] == a and len(p) > len(key[1]) and p[:len(key[1])] == key[1]:
                    mark_slot(key, p[len(key[1])])

        for d, l in roots:
            mark_local(d, l)
        for a in st.heap:
            if a[0] == '*':
                mark_ref(a, ())
        for key, sl in active.items():
            for s in sl:
                mark_slot(key, s)
        while todo:
            v, a, p = todo.pop()
            v = self.head(st, v)
            if v is None or not isinstance(v, tuple) or not v:
                continue
            t = v[0]
            if t in ('i', 'b', 's', 'fn', 'l', 'y'):
                continue
            if t == 'r' and len(v) == 3:
                mark_ref(v[1], v[2])
            elif t == 'c':
                if (a, p) in active:
                    continue
                for k, x in v[3]:
                    if x is not None:
                        todo.append((x, a, p + ((('v',) + k) if isinstance(k, tuple) else k,)))
            elif t == 'a':
                for i, x in enumerate(v[2]):
                    if x is not None:
                        todo.append((x, a, p + (i,)))
            elif t == 'q' or t == 'h':
                self.refs_in(st, v, mark_ref)
            else:
                self.refs_in(st, v, mark_ref)
        for d, f in enumerate(st.frames):
            kill = [l for l in f.L if (d, l) not in marked]
            if kill:
                L = st.frame(d).L
                for l in kill:
                    del L[l]
        for key, keep in done_slots.items():
            v = self.head(st, self.load(st, key[0], key[1]))
            if v is not None and v[0] == 'c':
                items = tuple((k, x) for k, x in v[3] if ((('v',) + k) if isinstance(k, tuple) else k) in keep)
                if len(items) != len(v[3]):
                    self.store(st, key[0], key[1], ('c', v[1], v[2], items))

    def refs_in(self, st, v, f):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] in ('y', 't') and v in st.bind:
            v = self.head(st, v)
        if v[0] == 'y':
            return
        if v[0] == 'r' and len(v) == 3 and isinstance(v[1], tuple):
            f(v[1], v[2])
            return
        if v[0] == 'rm' and len(v) == 4:
            f(v[1], v[2])
            return
        for x in v:
            if isinstance(x, tuple):
                self.refs_in(st, x, f)

    def snap(self, st):
        return ([dict(f.L) for f in st.frames], dict(st.heap), st.mon)

    def starred(self, v):
        if not isinstance(v, tuple) or not v:
            return False
        if v[0] == 'in' and len(v) > 1 and isinstance(v[1], str) and v[1].startswith('*'):
            return True
        return any(self.starred(x) for x in v if isinstance(x, tuple))

    def widen(self, st, snap, c):
        Ls, heap, mon = snap
        memo = {}
        for d, f in enumerate(st.frames):
            if d >= len(Ls):
                break
            ch = {}
            for l, v in f.L.items():
                o = Ls[d].get(l)
                if o is not v and o is not None:
                    w = self.wv(st, o, v, c, memo)
                    if w is not v:
                        ch[l] = w
            if ch:
                st.frame(d).L.update(ch)
        for a, v in list(st.heap.items()):
            o = heap.get(a)
            if o is not None and o is not v:
                st.heap[a] = self.wv(st, o, v, c, memo)
        if mon and st.mon and mon != st.mon and len(mon) == len(st.mon):
            # what a rule remembers about data ('G' entries) widens together with the program's own data:
            # a change the program's data went through too gets the same unknown, any other one is labelled 'g?'
            self.wlabel = 'g?'
            st.mon = tuple(('G', self.wv(st, o[1], n[1], c, memo)) if isinstance(n, tuple) and n and n[0] == 'G' and isinstance(o, tuple) and o and o[0] == 'G' else n for o, n in zip(mon, st.mon))
            self.wlabel = 'w'

    wlabel = 'w'
    WSUM = 0

    def wv(self, st, o, n, c, memo):
        o = self.head(st, o)
        n0 = n
        n = self.head(st, n)
        if o == n or o is None or n is None:
            return n0
        to, tn = o[0], n[0]
        if tn == 'i':
            if to == 'i' and 0 <= n[1] < o[1]:
                # counting down ends by itself
                return n0
            if to == 'i' and c < self.WINT:
                return n0
            if to == 'i' or to in ('y', 't'):
                return self.wfresh(st, o, n, memo)
            return n0
        if tn == 'l':
            if to == 'l' and o[1] == n[1] and n[2] < o[2]:
                return self.wfresh(st, o, n, memo)
            if to == 'l':
                return ('l', n[1], 1, True) if n[2] > 1 else n0
            return n0
        if tn == 't' and n[1] == 'bytes':
            if c < self.WBYTES:
                return n0
            return self.wfresh(st, o, n, memo)
        if tn == 't' and n[1] in ('Add', 'Sub') and c < self.WSUM:
            return n0
        if tn == 't':
            if to in ('i', 't', 'y', 's') and (c > 5 or self.depth(n) > self.depth(o)):
                return self.wfresh(st, o, n, memo)
            return n0
        if tn == 's' and to == 's':
            return self.wfresh(st, o, n, memo) if c > 6 else n0
        if tn == 'a' and to == 'a' and o[1] == n[1] and len(o[2]) == len(n[2]):
            if len(n[2]) == 2 and all(x is not None and x[0] == 'i' for x in n[2] + o[2]) and (n[2][0] == o[2][0]) != (n[2][1] == o[2][1]) and 0 <= n[2][1][1] - n[2][0][1] < o[2][1][1] - o[2][0][1] <= 8:
                # a small exact range being consumed ends by itself
                return n0
            fs = tuple(self.wv(st, x, y, c, memo) for x, y in zip(o[2], n[2]))
            return ('a', n[1], fs)
        if tn == 'c' and to == 'c' and o[1] == n[1]:
            od = dict(o[3])
            return ('c', n[1], n[2], tuple((k, self.wv(st, od.get(k), v, c, memo)) for k, v in n[3]))
        if tn == 'q' and to == 'q':
            return self.wseq(st, o, n, c, memo)
        if tn == 'h' and to == 'h':
            return self.wmap(st, o, n, c, memo)
        return n0

    def wfresh(self, st, o, n, memo):
        k = (o, n)
        if k not in memo and self.wlabel != 'w':
            # a consumed part of the same data is no growth
            if len(memo) < 99 and st.lv and st.lv[-1][1] <= 5 and bases(n) <= bases(o):
                return n
        if k not in memo:
            memo[k] = st.fresh(self.wlabel)
        return memo[k]

    def wseq(self, st, o, n, c, memo):
        so, sn = o[1], n[1]
        if len(so) == len(sn) and all(x[0] == y[0] for x, y in zip(so, sn)):
            out = []
            for x, y in zip(so, sn):
                if y[0] == '1':
                    out.append(('1', self.wv(st, x[1], y[1], c, memo)))
                elif x[2] == y[2]:
                    out.append(y)
                else:
                    out.append(('m', y[1], self.lgg(st, [x[2], y[2]])))
            return ('q', tuple(out))
        if len(sn) < len(so) or c < self.WSEQ:
            return n
        return ('q', self.collapse(st, sn))

    def collapse(self, st, segs):
        out = []
        run = []

        def flush():
            if run:
                if len(run) == 1 and run[0][0] == 'm':
                    out.append(run[0])
                else:
                    out.append(('m', st.fresh('len'), self.lgg(st, [x[1] if x[0] == '1' else x[2] for x in run])))
                del run[:]
        for s in segs:
            if s[0] == '1' and self.starred(self.norm(st, s[1])):
                flush()
                out.append(s)
            else:
                run.append(s)
        flush()
        return tuple(out)

    def wmap(self, st, o, n, c, memo):
        if len(n[2]) <= len(o[2]) and n[1] == o[1]:
            od = dict(o[2])
            return ('h', n[1], tuple((k, self.wv(st, od.get(k), v, c, memo) if v != ABS else v) for k, v in n[2]))
        keep = []
        ks = [n[1][1]] if n[1] else []
        vs = [n[1][2]] if n[1] else []
        for k, v in n[2]:
            if self.starred(self.norm(st, k)):
                keep.append((k, v))
            elif v != ABS:
                ks.append(k)
                vs.append(v)
            elif n[1] is None:
                pass
        if not ks:
            return ('h', n[1], tuple(keep))
        return ('h', (st.fresh('rest'), self.lgg(st, ks), self.lgg(st, vs)), tuple(keep))

    def lgg(self, st, vs):
        """least general template covering the values"""
        m = {}
        cnt = [0]

        def go(xs):
            xs = [self.head(st, x) if isinstance(x, tuple) else x for x in xs]
            a = xs[0]
            if all(x == a for x in xs[1:]) and not self._pathfresh(a):
                return a
            if all(x is not None and x[0] == 'a' and a[0] == 'a' and x[1] == a[1] and len(x[2]) == len(a[2]) for x in xs):
                return ('a', a[1], tuple(go([x[2][i] for x in xs]) for i in range(len(a[2]))))
            if all(x is not None and x[0] == 'q' for x in xs):
                if all(len(x[1]) == len(a[1]) for x in xs) and all(s[0] == '1' for x in xs for s in x[1]):
                    return ('q', tuple(('1', go([x[1][i][1] for x in xs])) for i in range(len(a[1]))))
                inner = [s[1] if s[0] == '1' else s[2] for x in xs for s in x[1]]
                ids = tuple(x[1][0][1] if len(x[1]) == 1 and x[1][0][0] == 'm' else None for x in xs)
                if None not in ids and all(i == ids[0] for i in ids):
                    return ('q', (('m', ids[0], self.lgg(st, inner)),))
                k = ('len',) + tuple(xs)
                if k not in m:
                    m[k] = ('y', ('tv', cnt[0]))
                    cnt[0] += 1
                return ('q', (('m', m[k], self.lgg(st, inner)),))
            k = tuple(xs)
            if k not in m:
                m[k] = ('y', ('tv', cnt[0]))
                cnt[0] += 1
            return m[k]
        if len(vs) == 1:
            # one sample: keep its shape, unknowns inside become variables
            return self._gen1(st, vs[0])
        return go(vs)

    def _pathfresh(self, v):
        return False

    def _gen1(self, st, v):
        return v

    # ------------------------------------------------------------- canonical
    def canon(self, st):
        memo = {}
        reach = []
        seen_heap = {}
        todo = []

        def name(n):
            # n: symbol name tuple
            k = n[0]
            if k in ('in', 'tv', 'const', 'cx', 'addr', 'constbody'):
                return n
            if k in ('c', '*', 'g'):
                p = n[1]
                if p[0] == 'y':
                    p = ('y', name(p[1]))
                elif p[0] == 't':
                    p = tuple(val(x) if isinstance(x, tuple) else x for x in p)
                else:
                    p = val(p)
                return (k, p) + tuple(n[2:])
            if k == 'n':
                if n not in memo:
                    memo[n] = len(memo)
                return ('n', memo[n])
            return n

        def ad(a):
            if a[0] == 'H':
                if a not in seen_heap:
                    seen_heap[a] = len(seen_heap)
                    todo.append(a)
                return ('H', seen_heap[a])
            if a[0] == '*':
                if a not in seen_heap:
                    seen_heap[a] = -1
                    todo.append(a)
                return ('*', val(a[1]))
            if a[0] == 'K':
                return ('K', val(a[1]))
            return a

        def val(v):
            if not isinstance(v, tuple) or not v:
                return v
            v = self.head(st, v)
            if v is None:
                return v
            t = v[0]
            if t == 'y':
                return ('y', name(v[1]))
            if t in ('i', 'b', 's', 'fn'):
                return v
            if t == 'r' and len(v) == 3:
                return ('r', ad(v[1]), tuple(val(x) if isinstance(x, tuple) else x for x in v[2]))
            if t == 'rm':
                return ('rm', ad(v[1]), v[2], v[3])
            if t == 'l':
                return ('l', tuple(val(x) for x in v[1]), v[2], v[3])
            return tuple(val(x) if isinstance(x, tuple) else x for x in v)

        out = []
        for f in st.frames:
            out.append(tuple((l, val(v)) for l, v in sorted(f.L.items()) if v is not None))
        i = 0
        while i < len(todo):
            a = todo[i]
            i += 1
            out.append((ad(a), val(st.heap.get(a, None))))
        # garbage: heap cells nobody refers to
        for a in list(st.heap):
            if a not in seen_heap and a[0] == 'H':
                del st.heap[a]
                st.weak.pop(a, None)
        ins = []
        for k in list(st.bind):
            if k[0] == 'y':
                r = root(k[1])
                if r[0] == 'in':
                    ins.append((repr(k), val(st.bind[k])))
        ins.sort(key=lambda x: x[0])
        m = val(st.mon) if isinstance(st.mon, tuple) else st.mon
        fs = []
        for k, x in list(st.facts.items()):
            if self.reachable(st, k, memo):
                fs.append(repr((val(k), x)))
            else:
                del st.facts[k]
        fs.sort()
        return (tuple(out), tuple(ins), tuple(fs), m, st.taint)

    def reachable(self, st, v, memo):
        """every fresh unknown in a fact is still referred to"""
        if not isinstance(v, tuple):
            return True
        if v and v[0] == 'n' and len(v) == 3 and isinstance(v[1], int):
            return v in memo
        return all(self.reachable(st, x, memo) for x in v if isinstance(x, tuple))


def bases(v):
    """what a byte string is made of"""
    if v[0] == 't' and v[1] == 'bytes':
        return set(x[1] for x in v[2])
    if v[0] == 'y':
        return {v}
    return set()


class Call:
    __slots__ = ('t', 'args', 'dest', 'target', 'depth', 'inst', 'fut', 'self_ref', 'ups')

    def __init__(self, t, args, dest, target, depth):
        self.t = t
        self.args = args
        self.dest = dest
        self.target = target
        self.depth = depth
        self.inst = -1
        self.fut = None
        self.self_ref = None
        self.ups = None


class NeedFork(Exception):
    pass


class Infeasible(Exception):
    pass


class _P:
    def __repr__(self):
        return 'PUSHED'


PUSHED = _P()


def wrap_ready(eng, st, r):
    if r is None or r is PUSHED:
        return r
    if isinstance(r, list):
        return [(s, v if v is PUSHED else ready(v)) for s, v in r]
    return ready(r)


def split_last(p):
    from program import split_generics
    return split_generics(p).rsplit('::', 1)[0]


def split_gen(p):
    from program import split_generics
    return split_generics(p)
