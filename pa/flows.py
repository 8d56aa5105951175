"""Scenarios around the runtime components: build one through its public interface, connect it, start it."""
from lab import *

MOD = 'pipeawesome2::'
TY = {
    'faucet': MOD + 'faucet::Faucet', 'drain': MOD + 'drain::Drain', 'buffer': MOD + 'buffer::Buffer',
    'junction': MOD + 'junction::Junction', 'regulator': MOD + 'regulator::Regulator', 'launch': MOD + 'launch::Launch',
}


def new(lab, s, kind, location=None):
    I = lab.method(TY[kind], 'new')
    if kind in ('faucet', 'drain'):
        args = [s.val(location if location is not None else sym('location'))]
    elif kind == 'launch':
        args = [s.val(sym('id')), s.val(sym('env')), s.val(sym('path')), s.val(sym('command')), s.val(sym('args'))]
    else:
        args = []
    return s.call(I, args)


def unwrap(e, st, vs):
    v = vs[0]
    v = e.head(st, v)
    if v is None or v[0] != 'a':
        raise Undecided('result')
    if v[1] != 0:
        raise Infeasible()
    return v[2][0]


def add_output(lab, s, kind, c, name, breakable=None, port='Out'):
    I = lab.method(TY[kind], 'add_output')
    if name:
        s.do(name_next_channel(name))
    r = s.call(I, [s.ref(c), s.val(lab.port(port)), s.val(breakable) if breakable else s.do(lambda e, st, vs: st.fresh('breakable')), s.val(sym('src')), s.do(lambda e, st, vs: st.fresh('dst'))])
    return s.do(unwrap, [r])


def add_input(lab, s, kind, c, name, prio=None):
    I = lab.method(TY[kind], 'add_input')
    r = s.call(I, [s.ref(c), s.val(lab.receiver(name)), s.val(prio if prio is not None else ('i', 0))])
    s.do(unwrap, [r])


def start(lab, s, kind, c, spy=None):
    I = lab.method(TY[kind], 'start')
    return s.await_(I, [s.ref(c), s.val(spy if spy is not None else NONE)])


# ---- a whole waiter

WAITER = MOD + 'waiter::Waiter'
KINDS = ('faucet', 'drain', 'buffer', 'junction', 'regulator', 'launch')


def marked(lab, s, kind, name):
    """a component that can be recognised by a symbol it owns"""
    mk = sym('mk:' + name)
    if kind in ('faucet', 'drain'):
        return new(lab, s, kind, mk)
    if kind == 'launch':
        I = lab.method(TY['launch'], 'new')
        return s.call(I, [s.val(sym('id')), s.val(NONE), s.val(NONE), s.val(mk), s.val(NONE)])
    c = new(lab, s, kind)
    add_input(lab, s, kind, c, 'mk:' + name)
    return c


def waiter_of(lab, s, parts):
    """parts: (kind, name)"""
    w = s.call(lab.method(WAITER, 'new'), [])
    for kind, name in parts:
        c = marked(lab, s, kind, name)
        s.call(lab.method(WAITER, 'add_' + kind), [s.ref(w), s.val(('s', name)), s.move(c)])
    return w


def which(e, st, v, names):
    for n in names:
        mk = sym('mk:' + n)
        if holds(e, st, v, lambda x: x == mk):
            return n
    return None


def hook_starts(lab, e, names, on):
    """on(e, st, kind, name) instead of the body of every component's start"""
    for k in TY:
        I = lab.method(TY[k], 'start')

        def h(e, st, C, k=k):
            if C.ups is None:
                return NotImplemented       # the call of poll: asked again once the future is known
            n = which(e, st, C.ups[0], names)
            if n is None:
                raise Undecided('which component was started')
            return on(e, st, k, n)
        e.hooks[I['path'] + '::{closure#0}'] = h
