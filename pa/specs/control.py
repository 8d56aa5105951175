"""Rules about order and control: junction priorities (C22), the pause gate (C24), the buffer's fill level (C29)."""
import os
from ctx import *
import flows as F
import natives as N
from specs.flow import is_in, add_in, control, payload, same


def chname(ch):
    ch = chan_of(ch)
    return ch[1][1] if ch[0] == 'y' and ch[1][0] == 'in' else None


# ------------------------------------------------------------------ C22

class Order:
    """which inputs were looked at since this one was last taken from"""

    def __init__(self, run, prios):
        self.run, self.prios = run, prios
        self.names = ['in%d' % i for i in range(len(prios))]

    def new(self):
        n = len(self.prios)
        return ('M', (True,) * n, tuple(('init',) * n for _ in range(n)))

    def event(self, e, st, x):
        k = x[0]
        if k in ('send', 'try_send') and not x[3]:
            raise Infeasible()                  # closed outputs are another property's business
        if k not in ('recv', 'try_recv', 'close'):
            return
        nm = chname(x[1])
        if nm not in self.names:
            return
        i = self.names.index(nm)
        st.note(x[:2] + (x[2] if len(x) > 2 and x[2] in ('empty', 'closed', None) else 'message',))
        _, opened, seen = st.mon
        if k == 'close':
            st.mon = ('M', opened[:i] + (False,) + opened[i + 1:], seen)
            return
        m = x[2]
        if m is None or m == 'closed':
            st.mon = ('M', opened[:i] + (False,) + opened[i + 1:], seen)
            return
        what = 'empty' if m == 'empty' else 'message'
        seen = [list(r) for r in seen]
        if what == 'message':
            self.run.count('messages taken')
            for j, p in enumerate(self.prios):
                if j == i or not opened[j]:
                    continue
                if p < self.prios[i] and seen[i][j] != 'empty':
                    self.run.fail(st, 'overtaken', 'a junction takes a message from an input of priority %d although the input of priority %d, which is still open, was not found empty since the last message from that input' % (self.prios[i], p))
                if p == self.prios[i] and seen[i][j] == 'not':
                    self.run.fail(st, 'turns', 'a junction takes two messages in a row from one input without looking at another input of the same priority')
            seen[i] = ['not'] * len(self.prios)
        for r in seen:
            r[i] = what
        seen[i][i] = '-'
        st.mon = ('M', opened, tuple(tuple(r) for r in seen))

    def end(self, e, st, vs):
        r = e.head(st, vs[0])
        if r[0] != 'a':
            raise Undecided('result')
        self.run.count('returns Ok' if r[1] == 0 else 'returns Err')
        if r[1] == 0 and any(st.mon[1]):
            self.run.fail(st, 'stops-early', 'a junction finishes although an input of priority %d is still open' % [p for p, o in zip(self.prios, st.mon[1]) if o][0])


def junction(run, prios):
    lab, e = run.lab, run.e
    s = Scn(e, 'junction order')
    c = F.new(lab, s, 'junction')
    F.add_output(lab, s, 'junction', c, '*out', lab.breakable('Terminate'))
    o = Order(run, prios)
    for n, p in zip(o.names, prios):
        add_in(lab, s, 'junction', c, n, ('i', p))
    r = F.start(lab, s, 'junction', c)
    s.do(o.end, [r])
    e.on_event = o.event
    st = s.state()
    st.mon = o.new()
    run.explore(st)


def jobs_C22(tier):
    P = [(0, 0, 0), (2, 0, 1), (1, 1, 0), (0, 0, 1), (0, 5, 5), (0, 0), (0, 1), (1, 0), (-1, 0), (0,)]
    if tier == 'thorough':
        P += [(0, 1, 2), (-1, 3, 0), (2, 1, 0), (1, 0, 1), (0, 0, 0, 0), (1, 0, 1, 0), (3, 2, 1, 0)]
    return [('junction with inputs of priority %s' % ', '.join(map(str, p)), junction, (p,)) for p in P]


# ------------------------------------------------------------------ C24

class Gate:
    """a paused component moves nothing until it is resumed"""
    # mon: ('M', state, polled, gone, moved) state: 'open' | 'paused'

    def __init__(self, run, kind):
        self.run, self.kind = run, kind

    def event(self, e, st, x):
        k = x[0]
        if k in ('par', 'now', 'query'):
            return
        st.note(x)
        _, state, polled, gone, moved = st.mon
        if k in ('recv', 'try_recv') and chname(x[1]) == 'control':
            m = x[2]
            if m is None or m == 'closed':
                st.mon = ('M', 'open', True, True, moved)
            elif m == 'empty':
                st.mon = ('M', state, True, gone, moved)
            elif state == 'open':
                self.run.count('pauses')
                st.mon = ('M', 'paused', True, gone, moved)
            else:
                self.run.count('resumes')
                st.mon = ('M', 'open', True, gone, moved)
            return
        src = k in ('recv', 'try_recv') and chname(x[1]) == 'in' and x[2] not in (None, 'closed', 'empty') or k == 'read' and x[2] not in (None, ('i', 0))
        out = k in ('send', 'try_send') and chname(x[1]) == '*out'
        if state == 'paused' and (src or out):
            self.run.fail(st, 'moves-while-paused:' + self.kind, 'a %s %s although it has been told to pause and not yet to resume' % (self.kind, 'takes data' if src else 'sends data'))
        step = out if self.kind == 'faucet' else src
        if step:
            self.run.count('messages moved')
            if moved and not polled and not gone:
                self.run.fail(st, 'control-ignored:' + self.kind, 'a %s moves two messages without looking at its control in between' % self.kind)
            st.mon = ('M', state, False, gone, True)


def gate(run, kind, brk):
    lab, e = run.lab, run.e
    s = Scn(e, 'gate ' + kind)
    c = F.new(lab, s, kind, ('s', '-'))
    F.add_output(lab, s, kind, c, '*out', lab.breakable(brk))
    if kind == 'regulator':
        add_in(lab, s, kind, c, 'in', ('i', 0))
    ctl = control(lab, s, kind, c)
    g = Gate(run, kind)
    r = F.start(lab, s, kind, c)

    def end(e, st, vs):
        r = e.head(st, vs[0])
        if r[0] == 'a':
            run.count('returns Ok' if r[1] == 0 else 'returns Err')
    s.do(end, [r, ctl])
    e.on_event = g.event
    st = s.state()
    st.mon = ('M', 'open', False, False, False)
    run.explore(st)


def toggles(run, kind):
    """pause and resume, called any number of times in any order"""
    lab, e = run.lab, run.e
    ty = {'regulator': 'pipeawesome2::regulator::RegulatorControl', 'faucet': 'pipeawesome2::faucet::FaucetControl'}[kind]
    s = Scn(e, 'toggle ' + kind)
    c = F.new(lab, s, kind)
    ctl = control(lab, s, kind, c)
    P, R = lab.method(ty, 'pause'), lab.method(ty, 'resume')

    # mon: ('M', paused, signals in this call)
    def begin(e, st, vs):
        st.mon = ('M', st.mon[1], 0)

    def finish(want):
        nm = 'pause' if want else 'resume'

        def f(e, st, vs):
            _, paused, n = st.mon
            run.count('calls of ' + nm)
            if paused == want and n:
                run.fail(st, 'signal-again:%s:%s' % (kind, nm), '%s of a %s control signals again although it is already %s' % (nm, kind, 'paused' if want else 'running'))
            if paused != want and n != 1:
                run.fail(st, 'no-signal:%s:%s' % (kind, nm), '%s of a %s control sends %d signals instead of one' % (nm, kind, n))
            st.mon = ('M', want, 0)
        return f

    def call(I, want):
        def f():
            s.do(begin)
            r = s.await_(I, [s.ref(ctl)])
            s.do(finish(want), [r])
        return f
    s.many(lambda: s.choice(call(P, True), call(R, False)))
    s.do(lambda e, st, vs: None, [c])

    def ev(e, st, x):
        if x[0] in ('send', 'try_send') and chname(x[1]) == 'control':
            st.note(x)
            st.mon = ('M', st.mon[1], min(3, st.mon[2] + 1))
    e.on_event = ev
    st = s.state()
    st.mon = ('M', False, 0)
    run.explore(st)


def jobs_C24(tier):
    J = [('%s with a control, output %s' % (k, b), gate, (k, b)) for k in ('regulator', 'faucet') for b in ('Terminate', 'Finish', 'Consume')]
    return J + [('the control of a %s' % k, toggles, (k,)) for k in ('regulator', 'faucet')]


# ------------------------------------------------------------------ C29

def learn(run, build):
    """a first pass: what kinds of message go into each internal channel, and which channels carry what"""
    kinds = {}
    # of the same scenario: after which event is something else sent
    role = {}

    def ev(e, st, x):
        if x[0] == 'par':
            st.mon = ('M', None)
        if x[0] in ('recv', 'try_recv') and x[2] not in (None, 'empty', 'closed'):
            nm = chname(x[1])
            st.mon = ('M', ('+' if nm == 'in' else '-', x[2]) if nm == 'in' or chan_of(x[1])[0] == 't' else None)
        if x[0] in ('send', 'try_send'):
            ch, msg = chan_of(x[1]), x[2]
            if ch[0] == 't' and ch[1] == 'chan':
                m = e.head(st, msg)
                kinds.setdefault(ch[4], set()).add((m[1], len(m[2])) if m[0] == 'a' else None)
                last = st.mon[1]
                if last:
                    role.setdefault(ch[4], set()).add('data' if same(e, st, msg, last[1]) else last[0])
    e = run.lab.engine()
    e.max_steps, e.deadline, e.on_event = run.e.max_steps, run.e.deadline, ev
    e.on_panic = lambda *a: None
    st = build(e)
    st.mon = ('M', None)
    e.explore([st])
    return kinds, role


class Level:
    """the fill level of a buffer, and what it reports
    mon: ('M', ('G', level), ('G', reported), pending) pending: the notification the last move still owes ('+', '-' or None)"""

    def __init__(self, run, role):
        self.run, self.role = run, role

    def kind_of(self, ch):
        if ch[0] == 't' and ch[1] == 'chan':
            r = self.role.get(ch[4], set())
            for k in ('data', '+', '-'):
                if k in r:
                    return k
        return None

    def exact(self, v):
        if not isinstance(v, tuple):
            return True
        if len(v) == 3 and v[0] == 'n' and isinstance(v[1], int):
            return v[2] != 'g?'
        return all(self.exact(x) for x in v)

    def owe(self, st, why):
        _, g, r, p = st.mon
        if p in ('+', '-'):
            self.run.fail(st, 'uncounted' + p, 'a buffer %s without counting the message that just %s it' % (why, 'entered' if p == '+' else 'left'))

    def event(self, e, st, x):
        run = self.run
        k = x[0]
        if k in ('now', 'query'):
            return
        st.note(x)
        _, g, rep, p = st.mon
        if k == 'par':
            st.mon = ('M', g, rep, None)
            return
        if k in ('send', 'try_send') and not x[3]:
            raise Infeasible()                   # somebody stopped: the level no longer matters
        if k in ('recv', 'try_recv'):
            nm, kd, m = chname(x[1]), self.kind_of(chan_of(x[1])), x[2]
            got = m not in (None, 'empty', 'closed')
            if nm == 'in' or kd == 'data':
                self.owe(st, 'takes another message')
                if got:
                    run.count('messages in' if nm == 'in' else 'messages out')
                    st.mon = ('M', g, rep, '+' if nm == 'in' else '-')
                else:
                    st.mon = ('M', g, rep, None)
            elif kd in ('+', '-') and got:
                v = e.binop(st, 'Add' if kd == '+' else 'Sub', e.norm(st, g[1]), ('i', 1))
                if v[0] == 'i' and v[1] < 0:
                    raise Infeasible()           # a message does not leave before it entered
                st.mon = ('M', ('G', v), rep, p)
        elif k in ('send', 'try_send'):
            nm, kd = chname(x[1]), self.kind_of(chan_of(x[1]))
            if kd in ('+', '-'):
                if p == kd:
                    run.count('notifications')
                    st.mon = ('M', g, rep, 'done' + kd)
                elif p == 'done' + kd:
                    run.fail(st, 'counted-twice' + kd, 'a buffer counts one message twice when it %s' % ('enters' if kd == '+' else 'leaves'))
            elif nm == 'monitor':
                v = payload(e, st, x[2])
                G = e.norm(st, g[1])
                run.count('levels reported')
                if v != G and self.exact(v) and self.exact(G):
                    run.fail(st, 'wrong-level', 'a buffer reports a level of %s when it is %s' % (short(v, 60), short(G, 60)))
                st.mon = ('M', g, ('G', v), p)
        elif k == 'sleep':
            self.settled(e, st, 'waits')

    def settled(self, e, st, why):
        _, g, rep, p = st.mon
        a, b = e.norm(st, g[1]), e.norm(st, rep[1])
        if a == b:
            self.run.count('levels up to date')
            return
        if self.exact(a) and self.exact(b) and not (a[0] == 'y' and b[0] == 'y'):
            self.run.fail(st, 'stale-level', 'a buffer %s although the level it reported last (%s) is not the current one (%s)' % (why, short(b, 60), short(a, 60)))


def level(run, monitored):
    lab, e = run.lab, run.e

    def build(e):
        s = Scn(e, 'buffer level')
        c = F.new(lab, s, 'buffer')
        F.add_output(lab, s, 'buffer', c, '*out', lab.breakable('Terminate'))
        add_in(lab, s, 'buffer', c, 'in', ('i', 0))
        s.do(name_next_channel('monitor'))
        s.call(lab.method(F.TY['buffer'], 'add_buffer_size_monitor'), [s.ref(c)])
        F.start(lab, s, 'buffer', c)
        return s.state()
    kinds, role = learn(run, build)
    if 'data' not in set(x for r in role.values() for x in r):
        raise Anchor('the channel inside the buffer')
    e.shapes = lambda ch: kinds.get(ch[4]) if ch[0] == 't' and ch[1] == 'chan' and None not in kinds.get(ch[4], {None}) and role.get(ch[4]) != {'data'} else None
    L = Level(run, role)
    e.on_event = L.event
    e.on_panic = lambda e, st, m: run.fail(st, 'panics', 'a buffer panics while it keeps count of its messages', stop=False)
    st = build(e)
    st.mon = ('M', ('G', ('i', 0)), ('G', ('i', 0)), None)
    run.explore(st)


def jobs_C29(tier):
    return [('a monitored buffer', level, (True,))]


# ------------------------------------------------------------------ C23

def atoms(v):
    d = {}

    def go(v, sg):
        if v[0] == 'i':
            d[1] = d.get(1, 0) + sg * v[1]
        elif v[0] == 't' and v[1] in ('Add', 'Sub'):
            go(v[2], sg)
            go(v[3], sg if v[1] == 'Add' else -sg)
        else:
            d[v] = d.get(v, 0) + sg
    go(v, 1)
    return {k: c for k, c in d.items() if c}


class Marks:
    """a regulator pauses at the high mark and resumes at the low mark
    mon: ('M', paused, sizes, polled, deaf, ended); sizes: ((channel, last size), ...)"""

    def __init__(self, run, n):
        self.run, self.n = run, n

    def total(self, e, st, sizes):
        t = ('i', 0)
        for _, v in sizes:
            t = e.binop(st, 'Add', t, payload(e, st, v))
        return t

    def less(self, e, st, a, b):
        """what the path knows about a < b; sums in any order"""
        r = e.truth(st, e.lt(st, a, b))
        if r is not None:
            return r
        a, b = atoms(e.norm(st, a)), atoms(e.norm(st, b))
        for k, v in st.facts.items():
            if k[0] == 't' and k[1] == 'lt' and atoms(e.norm(st, k[2])) == a and atoms(e.norm(st, k[3])) == b:
                return v
        return None

    def where(self, e, st, t):
        """(at the high mark?, at the low mark?) each True, False or None"""
        hi, lo = self.less(e, st, t, HIGH), self.less(e, st, LOW, t)
        hi, lo = None if hi is None else not hi, None if lo is None else not lo
        if hi and lo:
            raise Infeasible()       # the level is not both low and high
        return (False if lo else hi), (False if hi else lo)

    def event(self, e, st, x):
        run, k = self.run, x[0]
        if k in ('now', 'query', 'par', 'newchan', 'close'):
            return
        _, paused, sizes, polled, deaf, ended = st.mon
        if k in ('recv', 'try_recv'):
            ch = chan_of(x[1])
            m = x[2]
            st.note((k, m if m in (None, 'empty', 'closed') else 'a size'))
            if ch in polled:
                # a new round: the decision for the previous one must have been taken
                self.decided(e, st)
                polled = ()
            if m is None or m == 'closed':
                sizes = tuple(s for s in sizes if s[0] != ch)
                ended = tuple(sorted(set(ended) | {ch}, key=repr))
            elif m != 'empty':
                v = m
                run.count('levels received')
                sizes = tuple(sorted([s for s in sizes if s[0] != ch] + [(ch, v)], key=lambda s: repr(s[0])))
            st.mon = ('M', paused, sizes, tuple(sorted(polled + (ch,), key=repr)), deaf, ended)
        elif k == 'sleep':
            st.note((k,))
            self.decided(e, st)
        elif k in ('send', 'try_send'):
            st.note((k, x[3]))
            t = self.total(e, st, sizes)
            hi, lo = self.where(e, st, t)
            run.count('pauses' if not paused else 'resumes')
            if not paused and not hi:
                run.fail(st, 'early-pause', 'a regulator is paused although its buffers may hold less than the high mark')
            if paused and not lo:
                run.fail(st, 'early-resume', 'a regulator is resumed although its buffers may hold more than the low mark')
            st.mon = ('M', not paused, sizes, polled, deaf or not x[3], ended)

    def decided(self, e, st):
        _, paused, sizes, polled, deaf, ended = st.mon
        if deaf:
            return
        if len(set(polled) | set(ended)) < self.n:
            self.run.fail(st, 'unwatched', 'a regulator decides without looking at one of the buffers it monitors')
        t = self.total(e, st, sizes)
        hi, lo = self.where(e, st, t)
        self.run.count('decisions')
        if not paused and hi is not False:
            self.run.fail(st, 'no-pause', 'a regulator is not paused although its buffers may hold as many messages as the high mark')
        if paused and lo is not False:
            self.run.fail(st, 'no-resume', 'a regulator is not resumed although its buffers may hold no more messages than the low mark')

    def end(self, e, st, vs):
        _, paused, sizes, polled, deaf, ended = st.mon
        self.run.count('ends')
        if paused and not deaf:
            self.run.fail(st, 'left-paused', 'a regulator is left paused for ever when its buffers have ended')


LOW, HIGH = sym('low'), sym('high')


def sane_marks(st):
    """low < high, neither negative"""
    st.facts[('t', 'lt', LOW, ('i', 0))] = False
    st.facts[('t', 'lt', ('i', 0), HIGH)] = True
    st.facts[('t', 'lt', LOW, HIGH)] = True


def marks(run, n, k=0):
    lab, e = run.lab, run.e
    W = 'pipeawesome2::waiter::Waiter'
    s = Scn(e, 'marks')
    w = s.call(lab.method(W, 'new'), [])
    names = ['b%d' % i for i in range(n)]
    r = F.new(lab, s, 'regulator')
    s.call(lab.method(W, 'add_regulator'), [s.ref(w), s.val(('s', 'r')), s.move(r)])
    for b in names:
        s.call(lab.method(W, 'add_buffer'), [s.ref(w), s.val(('s', b)), s.move(F.new(lab, s, 'buffer'))])
    s.call(lab.method(W, 'configure_regulator'), [s.ref(w), s.val(('s', 'r')), s.val(('q', tuple(('1', ('s', b)) for b in names))), s.val(LOW), s.val(HIGH)])
    m = Marks(run, n)
    r = s.await_(lab.method(W, 'start'), [s.ref(w), s.val(NONE)])
    s.do(m.end, [r])
    e.on_event = m.event
    e.on_panic = lambda e, st, m: run.fail(st, 'panics', 'what manages a regulator panics', stop=False)
    e.WSUM = 6
    st = s.state()
    sane_marks(st)
    st.mon = ('M', False, (), (), False, ())
    run.explore(st)


def jobs_C23(tier):
    J = [('one monitored buffer', marks, (1,)), ('two monitored buffers', marks, (2,))]
    if tier == 'thorough':
        J += [('three monitored buffers', marks, (3,))]
    return J
