"""Scenarios: what a specification asks the analysis to run, and small conveniences.

A scenario is a synthetic body that builds a component through its public interface (so private
fields, helpers and their names do not matter), then drives it.  Inputs are unknowns; `many` is a
loop taken any number of times; `choice` is an unknown decision."""
import re
from engine import *
import engine as EN
import natives as N
from program import split_generics


class Anchor(Exception):
    """something public a rule starts from is not there any more"""


def sym(name):
    return ('y', ('in', name))


def star(name):
    return ('y', ('in', '*' + name))


TRUE, FALSE = ('b', 1), ('b', 0)


class Lab:
    def __init__(self, prog):
        self.P = prog
        self.types = prog.types

    # ---- anchors
    def fn(self, path, must=True):
        """the one body-bearing item with this path"""
        r = [i for i in self.P.insts if i['body'] >= 0 and i['kind'] == 'item' and (i['path'] == path or split_generics(i['path']) == path)]
        if not r and must:
            raise Anchor(path)
        return r[0] if r else None

    def method(self, ty, m, must=True):
        """method m of type ty (inherent or of a trait), whatever its generics"""
        r = []
        for i in self.P.insts:
            if i['body'] < 0 or i['kind'] != 'item' or i['dk'] != 'AssocFn':
                continue
            p = i['path']
            if not p.endswith('::' + m):
                continue
            if p.startswith('<'):
                if split_generics(p[1:].split(' as ')[0]) == ty:
                    r.append(i)
            elif split_generics(p) == ty + '::' + m:
                r.append(i)
        if not r and must:
            raise Anchor(ty + '::' + m)
        return r[0] if r else None

    def adt(self, name):
        r = self.P.adt(name)
        if not r:
            raise Anchor('type ' + name)
        return self.types[r[0]]

    # ---- values
    def variant(self, ty, name, *fields):
        T = self.adt(ty)
        for i, v in enumerate(T['vs']):
            if v['n'] == name:
                if len(v['f']) != len(fields):
                    raise Anchor('%s::%s has %d fields' % (ty, name, len(v['f'])))
                return ('a', i, tuple(fields))
        raise Anchor('%s::%s' % (ty, name))

    def vname(self, ty, v):
        return self.adt(ty)['vs'][v[1]]['n']

    def struct(self, ty, **kw):
        T = self.adt(ty)
        fs = T['vs'][0]['f']
        names = [f[0] for f in fs]
        if set(names) != set(kw):
            raise Anchor('fields of %s: %s' % (ty, names))
        return ('a', 0, tuple(kw[n] for n in names))

    def field(self, ty, name, variant=0):
        T = self.adt(ty)
        for i, f in enumerate(T['vs'][variant]['f']):
            if f[0] == name:
                return i
        raise Anchor('field %s of %s' % (name, ty))

    def engine(self):
        return Engine(self.P)

    # ---- domain conveniences
    def receiver(self, name, src=None, dst=None):
        j = self.struct('motion::PullJourney', src=src or sym(name + '.src'), dst=dst or sym(name + '.dst'))
        return self.variant('motion::Pull', 'Receiver', j, ('t', 'Receiver', sym(name)))

    def breakable(self, n):
        return self.variant('connectable::Breakable', n)

    def port(self, n):
        return self.variant('connectable::OutputPort', n)


def ref(st, v):
    st.ctr += 1
    a = ('H', st.ctr)
    st.heap[a] = v
    return ('r', a, ())


def n_any(e, st, C):
    s2 = st.fork()
    return [(st, TRUE), (s2, FALSE)]


_uid = [0]


class Scn:
    """builder of a synthetic body"""

    def __init__(self, e, name):
        _uid[0] += 1
        self.e = e
        self.name = name
        self.uid = _uid[0]
        self.bbs = [([], None)]
        self.cur = 0
        self.n = 1          # locals (0 = return value)

    def loc(self):
        self.n += 1
        return self.n - 1

    def _open(self):
        return self.bbs[self.cur][0]

    def _new(self):
        self.bbs.append(([], None))
        return len(self.bbs) - 1

    def _term(self, t, nxt=None):
        self.bbs[self.cur] = (self.bbs[self.cur][0], t)
        if nxt is not None:
            self.cur = nxt

    def val(self, v):
        l = self.loc()
        self._open().append(N.a_const(l, v))
        return l

    def ref(self, l):
        r = self.loc()
        self._open().append(N.a_ref(r, l))
        return r

    def move(self, l):
        r = self.loc()
        self._open().append(N.a_use(r, N.op_mv(l)))
        return r

    def field(self, l, *fs):
        r = self.loc()
        self._open().append(N.a_use(r, N.op_fld(l, *fs)))
        return r

    def call(self, inst, args, move=True):
        """args: local numbers; references (created by ref) are passed by copy"""
        d = self.loc()
        b = self._new()
        f = ('callinst', inst['id']) if isinstance(inst, dict) else ('native', inst)
        self._term(N.t_call(f, [N.op_cp(a) for a in args], d, b), b)
        return d

    def await_(self, inst, args):
        f = self.call(inst, args)
        r = self.ref(f)
        p = self.call(N.n_poll_native, [r])
        return self.field(p, 0)

    def do(self, fn, args=()):
        """fn(e, st, values) -> value | None | [(st, v)]"""
        def nat(e, st, C):
            r = fn(e, st, [e.head(st, a) for a in C.args])
            return UNIT if r is None else r
        return self.call(nat, list(args))

    def choice(self, *alts):
        end = self._new()
        for i, a in enumerate(alts):
            if i == len(alts) - 1:
                a()
                self._term(N.t_goto(end), end)
            else:
                c = self.call(n_any, [])
                y, n = self._new(), self._new()
                self._term(N.t_bool(c, n, y), y)
                a()
                self._term(N.t_goto(end), n)

    def many(self, body):
        h, b, x = self._new(), self._new(), self._new()
        self._term(N.t_goto(h), h)
        c = self.call(n_any, [])
        self._term(N.t_bool(c, x, b), b)
        body()
        self._term(N.t_goto(h), x)

    def ret(self, l=None):
        if l is not None:
            self._open().append(N.a_use(0, N.op_cp(l)))
        self._term(N.RET)

    def body(self):
        if self.bbs[self.cur][1] is None:
            self.ret()
        B = N.synth(self.e, ('scn', self.uid), 0, self.bbs, self.name)
        B.locals = [0] * (self.n + 2)
        return B

    def state(self):
        st = State()
        self.e.push(st, self.body(), [], None, -1)
        return st


# ---- channels

def chan_of(v):
    """identity of the channel behind a Sender/Receiver value"""
    if isinstance(v, tuple) and v and v[0] == 't' and v[1] in ('Sender', 'Receiver'):
        return v[2]
    return v


def name_next_channel(name):
    def f(e, st, vs):
        st.x['chan'] = name
    return f


def holds(e, st, v, want, seen=None):
    """some value reachable by ownership (not through a borrow of something else) satisfies want"""
    seen = set() if seen is None else seen
    v = e.head(st, v)
    if v is None or not isinstance(v, tuple) or not v:
        return False
    if want(v):
        return True
    t = v[0]
    if t in ('i', 'b', 's', 'fn', 'l', 'y'):
        return False
    if t in ('r', 'dyn'):
        try:
            a, p = e.deref(st, v)
        except Undecided:
            return False
        if (a, p) in seen:
            return False
        seen.add((a, p))
        try:
            return holds(e, st, e.load(st, a, p), want, seen)
        except Undecided:
            return False
    if t == 'a':
        return any(holds(e, st, x, want, seen) for x in v[2])
    if t == 'c':
        return any(holds(e, st, x, want, seen) for _, x in v[3])
    if t == 'q':
        return any(holds(e, st, s[-1], want, seen) for s in v[1])
    return any(holds(e, st, x, want, seen) for x in v[1:] if isinstance(x, tuple))


def run_async(e, st, inst, args, conv=None):
    """start an async fn: the wrapper builds the coroutine, a poll drives it"""
    co = e.P.insts[inst]
    cid = co['id']
    body = e.P.body(co['body'])
    B = N.synth(e, ('runasync', cid), body.nargs, [
        ([], dict(N.t_call(('callinst', cid), [N.op_mv(i + 1) for i in range(body.nargs)], 18, 1))),
        ([N.a_ref(17, 18)], N.t_call(('native', N.n_poll_native), [N.op_cp(17)], 16, 2)),
        ([N.a_use(0, N.op_fld(16, 0))], N.RET),
    ], 'poll ' + co['path'])
    e.push(st, B, args, None, -1)
    return st
