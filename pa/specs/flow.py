"""Rules about data moving through one component.

One scenario builds a component through its public interface, connects it, starts it and lets the
environment do anything: every receive may deliver, be empty or be at its end, every send, write,
flush and read may fail.  The monitor below watches the resulting events."""
import os
from ctx import *
import flows as F
import natives as N

BRK = ('Terminate', 'Finish', 'Consume')


def is_in(ch, *names):
    return ch[0] == 'y' and ch[1][0] == 'in' and ch[1][1] in names


def payload(e, st, v):
    """strip one-field wrappers"""
    v = e.norm(st, v)
    while v[0] == 'a' and len(v[2]) == 1:
        v = e.norm(st, v[2][0])
    return v


def same(e, st, a, b):
    """two payloads are the same unknown (a message is a one-field wrapper around its bytes)"""
    a, b = payload(e, st, a), payload(e, st, b)
    if a == b:
        return True
    for x, y in ((a, b), (b, a)):
        if x[0] == 'y' and x[1][0] == 'c' and e.norm(st, x[1][1]) == y:
            return True
    return False


def exact(v):
    """a byte-string term that contains nothing the analysis made up while widening"""
    if not isinstance(v, tuple):
        return True
    if len(v) == 3 and v[0] == 'n' and isinstance(v[1], int):
        return v[2] in ('buf', 'nread', 'msg', 'child', 'w')
    return all(exact(x) for x in v)


class Mon:
    """what is remembered about one path"""
    F = ('pend', 'sent', 'data', 'ended', 'dead', 'wrote', 'flushed', 'wfail', 'rfail', 'closed', 'touched', 'G', 'spy')
    D = dict(pend=None, sent=False, data=(), ended=(), dead=False, wrote=False, flushed=False, wfail=False, rfail=False, closed=(), touched=False, G=('G', ('q', ())), spy=())

    @staticmethod
    def new():
        return ('M',) + tuple(Mon.D[k] for k in Mon.F)

    def __init__(self, st):
        self.__dict__.update(zip(Mon.F, st.mon[1:]))

    def put(self, st):
        st.mon = ('M',) + tuple(getattr(self, k) for k in Mon.F)


class Watch:
    """the rules, over the events of one scenario"""

    def __init__(self, run, prop, kind, brk, nout=1, sink=None, out='*out', ins=('in',)):
        self.run, self.prop, self.kind, self.brk, self.nout, self.sink, self.out, self.ins = run, prop, kind, brk, nout, sink, out, ins
        self.reader = kind in ('faucet', 'launch-out', 'launch-err')

    def fail(self, st, prop, key, msg):
        if prop == self.prop:
            self.run.fail(st, '%s:%s' % (key, self.kind), '%s %s' % (self.kind, msg))

    def event(self, e, st, x):
        run, kind = self.run, self.kind
        if x[0] not in ('par', 'sleep', 'now'):
            st.note(x)
        m = Mon(st)
        k = x[0]
        if k in ('recv', 'try_recv'):
            ch, msg = chan_of(x[1]), x[2]
            if ch[0] == 't' and k == 'try_recv' and ch not in m.data:
                return                       # bookkeeping inside the component
            if is_in(ch, 'control'):
                return
            if msg is None or msg == 'closed':
                m.ended = tuple(sorted(set(m.ended) | {ch}, key=repr))
                m.put(st)
                return
            if msg == 'empty':
                return
            run.count('messages taken')
            self.next(e, st, m)
            m.pend, m.sent = msg, False
            m.put(st)
        elif k in ('send', 'try_send'):
            ch, msg, okk = chan_of(x[1]), x[2], x[3]
            if is_in(ch, self.out):
                run.count('sends to the watched output')
                if self.reader:
                    self.sent_bytes(e, st, m, msg, okk)
                else:
                    if m.pend is None or not same(e, st, msg, m.pend):
                        self.fail(st, 'C01', 'altered', 'sends something on an output that is not the message it just took')
                    if m.sent:
                        self.fail(st, 'C01', 'duplicated', 'sends one message twice to the same output')
                    if k == 'try_send' and not okk:
                        self.fail(st, 'C01', 'dropped-when-full', 'drops a message when the output is full')
                m.sent = True
                if not okk:
                    m.dead = True
                m.put(st)
            elif not self.reader and m.pend is not None and ch[0] == 't' and ch[1] == 'chan' and same(e, st, msg, m.pend):
                if m.sent:
                    self.fail(st, 'C01', 'duplicated-inside', 'queues one message twice')
                m.sent = True
                m.data = tuple(sorted(set(m.data) | {ch}, key=repr))
                if not okk:
                    m.dead = m.dead or self.kind == 'buffer'
                m.put(st)
        elif k in ('write_all', 'write'):
            w, d = x[1], x[2]
            if self.sink is None or m.pend is None and not self.is_sink(w):
                return
            run.count('writes')
            if not self.is_sink(w):
                self.fail(st, 'C02', 'wrong-place', 'writes a message to %s' % (short(w, 60),))
                return
            if m.sent is True:
                self.fail(st, 'C02', 'duplicated', 'writes one message twice')
            if m.pend is None or not same(e, st, d, m.pend):
                if m.sent != 'partial':
                    self.fail(st, 'C02', 'altered', 'writes something that is not the message it just took')
            m.sent = True if k == 'write_all' or m.sent == 'partial' else 'partial'
            m.wrote, m.flushed = True, False
            if not x[-1]:
                m.wfail = True
            m.put(st)
        elif k == 'flush':
            if self.sink is not None and self.is_sink(x[1]):
                run.count('flushes')
                m.flushed = bool(x[-1])
                if not x[-1]:
                    m.wfail = 'flush'
                m.put(st)
        elif k == 'read':
            if self.reader and self.is_source(x[1]):
                run.count('reads')
                if x[2] is None:
                    m.rfail = True
                elif x[2] == ('i', 0):
                    m.ended = (x[1],)
                else:
                    if m.dead and self.brk != 'Consume':
                        self.fail(st, 'C06', 'reads-on', 'goes on reading its input after its %s output was closed' % self.brk)
                    m.G = ('G', N.by_cat(e.norm(st, m.G[1]), N.by_make((('sl', x[3], ('i', 0), x[2]),))))
                m.put(st)
        if k in ('send', 'try_send') and not x[3] and not is_in(chan_of(x[1]), self.out) and chan_of(x[1]) not in Mon(st).data:
            m = Mon(st)
            m.touched = True
            m.put(st)
        if k == 'close':
            ch = chan_of(x[1])
            m.closed = tuple(sorted(set(m.closed) | {ch}, key=repr))
            m.put(st)

    def is_sink(self, w):
        return w == self.sink or w[0] == 't' and w[1] == 'bufwriter' and w[2] == self.sink or self.sink[0] == '?' and w[0] == 't' and w[1] == self.sink[1]

    def is_source(self, w):
        return not (w[0] == 't' and w[1] == 'ChildStdout' and self.kind == 'launch-err' or w[0] == 't' and w[1] == 'ChildStderr' and self.kind == 'launch-out')

    def next(self, e, st, m):
        """another message is about to be handled"""
        if m.pend is not None and not m.sent:
            if self.sink is None:
                self.fail(st, 'C01', 'lost', 'takes another message before the previous one was sent to every connected output')
            elif self.sink != ('none',):
                self.fail(st, 'C02', 'lost', 'takes another message before the previous one was written')
        if m.sent == 'partial':
            self.fail(st, 'C02', 'partial', 'may write only the first part of a message (a single write, not all of it)')
        if m.wfail and self.sink is not None:
            self.fail(st, 'C02', 'goes-on', 'takes another message although writing the previous one failed')
        if m.dead and self.nout == 1 and self.kind != 'buffer':
            if self.brk == 'Terminate':
                self.fail(st, 'C06', 'T-goes-on', 'goes on taking messages although its terminate output was closed')
            if self.brk == 'Finish' and len(self.ins) == 1:
                self.fail(st, 'C06', 'F-goes-on', 'goes on taking messages although its only output was closed and asks to finish')

    def sent_bytes(self, e, st, m, msg, okk):
        """a chunk of what was read goes out: it must be the next unsent bytes, ending at a line end or at the end of input"""
        v = payload(e, st, msg)
        G = e.norm(st, m.G[1])
        rest = None
        k = None
        if v == G:
            rest = ('q', ())
        elif v[0] == 't' and v[1] == 'bytes' and len(v[2]) == 1 and v[2][0][2] == ('i', 0):
            _, b, lo, hi = v[2][0]
            gp = N.by_parts(G)
            if hi is None:
                pass
            elif b == G:
                rest, k = N.by_slice(e, st, G, hi, None), hi
            elif len(gp) >= 1 and gp[0][1] == b and gp[0][2] == ('i', 0) and (len(gp) == 1 or False):
                rest, k = N.by_make((('sl', b, hi, gp[0][3]),) + tuple(gp[1:])), hi
        if rest is None and v[0] == 't' and v[1] == 'bytes' and len(v[2]) == 1:
            _, b, lo, hi = v[2][0]
            gp = N.by_parts(G)
            if len(gp) == 1 and gp[0][1] == b and gp[0][2] == lo and hi is not None:
                rest, k = N.by_make((('sl', b, hi, gp[0][3]),)), hi
        if rest is None:
            if exact(v) and exact(G):
                self.fail(st, 'C03', 'bytes', 'sends bytes that are not the next bytes it read (sends %s, next unsent are %s)' % (short(v, 90), short(G, 90)))
            if os.environ.get('PA_DEV'):
                print('ACC', v, '|||', G)
            st.mark('byte accounting')
            m.G = ('G', st.fresh('unknown bytes'))
            return
        self.run.count('chunks accounted for')
        # where the chunk ends
        if m.ended:
            pass
        elif rest == ('q', ()) and k is None:
            # everything read so far, although the input has not ended
            if not self.at_line_end(e, st, v, None):
                self.fail(st, 'C03', 'boundary', 'sends a chunk that ends neither at a line end nor at the end of the input')
        elif not self.at_line_end(e, st, v, k):
            self.fail(st, 'C03', 'boundary', 'sends a chunk that does not end at a line end')
        m.G = ('G', rest)

    def at_line_end(self, e, st, v, k):
        """the path has compared the last bytes of v with a line end"""
        for f, t in st.facts.items():
            if f[0] == 't' and f[1] == 'eq' and t is True:
                for a, lit in ((f[2], f[3]), (f[3], f[2])):
                    b = text(lit)
                    if b and b.endswith('\n') and a[0] == 't' and a[1] == 'bytes' and len(a[2]) == 1:
                        hi = a[2][0][3]
                        if k is None or hi == k or hi is None:
                            return True
        return False

    def end(self, e, st, vs):
        """the component has returned"""
        r = e.head(st, vs[0])
        c = vs[1]
        if r[0] != 'a':
            raise Undecided('result')
        good = r[1] == 0
        m = Mon(st)
        run = self.run
        run.count('returns Ok' if good else 'returns Err')
        n = len(self.ins)
        watched_ended = all(any(is_in(ch, i) for ch in m.ended) for i in self.ins) if not self.reader else bool(m.ended)
        if self.sink is None:
            if good and not self.reader:
                if m.pend is not None and not m.sent:
                    self.fail(st, 'C01', 'undelivered-at-end', 'finishes successfully although the last message it took was not sent')
                for ch in m.data:
                    if ch not in m.ended and not (m.dead and self.brk == 'Finish'):
                        self.fail(st, 'C01', 'left-inside', 'finishes successfully with messages still queued inside')
            if good and self.reader:
                G = e.norm(st, m.G[1])
                if not (m.dead and self.brk == 'Finish') and m.ended and not m.rfail and G != ('q', ()) and not st.facts.get(('t', 'empty', G)) and exact(G):
                    self.fail(st, 'C03', 'unsent', 'finishes without sending the last bytes it read')
                if not m.ended and not m.rfail and not m.dead:
                    self.fail(st, 'C03', 'stops-reading', 'finishes successfully before its input has ended')
                if m.rfail:
                    self.fail(st, 'C03', 'read-error-ignored', 'finishes successfully although reading failed')
            if good and not watched_ended and not (m.dead and self.brk == 'Finish'):
                if m.dead and self.brk == 'Consume':
                    self.fail(st, 'C06', 'C-stops', 'stops although its closed output asks to consume the rest')
                elif not m.dead:
                    self.fail(st, 'C06', 'stops-early', 'finishes successfully before its input has ended')
            if good and m.dead and self.brk == 'Terminate':
                self.fail(st, 'C06', 'T-silent', 'finishes successfully although its terminate output was closed')
            if not good and m.dead and self.brk != 'Terminate' and not m.touched and not m.rfail and not m.wfail and self.pure:
                self.fail(st, 'C06', '%s-error' % self.brk[0], 'fails because an output that should be ignored when closed was closed')
            # releasing
            if self.out and not m.dead:
                me = ('t', 'Sender', ('y', ('in', self.out)))
                if not any(is_in(ch, self.out) for ch in m.closed) and holds(e, st, c, lambda v: e.norm(st, v) == me if v[0] == 't' and v[1] == 'Sender' else False):
                    self.fail(st, 'C05', 'output-held', 'has stopped (%s) but still holds its output open' % ('normally' if good else 'with an error'))
                else:
                    run.count('outputs released')
            ctl = ('t', 'Receiver', ('y', ('in', 'control')))
            if holds(e, st, c, lambda v: v[0] == 't' and v[1] == 'Receiver' and e.norm(st, v) == ctl) and not any(is_in(ch, 'control') for ch in m.closed):
                self.fail(st, 'C05', 'control-held', 'has stopped but still holds its control channel open')
        else:
            if good:
                if self.sink != ('none',) and m.pend is not None and not m.sent:
                    self.fail(st, 'C02', 'unwritten-at-end', 'finishes successfully although the last message it took was not written')
                if m.sent == 'partial':
                    self.fail(st, 'C02', 'partial', 'may write only the first part of a message (a single write, not all of it)')
                if m.wfail is True and self.brk == 'Terminate':
                    self.fail(st, 'C02', 'write-error-ignored', 'finishes successfully although a write failed')
                if m.wfail == 'flush':
                    self.fail(st, 'C04', 'flush-error-ignored', 'finishes successfully although flushing failed')
                if m.wrote and not m.flushed and not m.wfail:
                    self.fail(st, 'C04', 'not-flushed', 'finishes successfully without flushing what it wrote')
                if not watched_ended and not m.wfail:
                    self.fail(st, 'C02', 'stops-early', 'finishes successfully before its input has ended')

    pure = True


def text(v):
    """literal bytes of a term"""
    if v[0] == 's':
        return v[1]
    if v[0] == 'q' and all(x[0] == '1' and x[1][0] == 'i' for x in v[1]):
        return ''.join(chr(x[1][1]) for x in v[1])
    return None


# ----------------------------------------------------------------- scenarios

def add_in(lab, s, kind, c, name='in', prio=None):
    I = lab.method(F.TY[kind], 'add_input')

    def mk(e, st, vs):
        j = lab.struct('motion::PullJourney', src=st.fresh('src'), dst=st.fresh('dst'))
        return lab.variant('motion::Pull', 'Receiver', j, ('t', 'Receiver', ('y', ('in', name))))
    pull = s.do(mk)
    p = s.val(prio) if prio is not None else s.do(lambda e, st, vs: st.fresh('prio'))
    r = s.call(I, [s.ref(c), pull, p])
    s.do(F.unwrap, [r])


def control(lab, s, kind, c):
    s.do(name_next_channel('control'))
    return s.call(lab.method(F.TY[kind], 'get_control'), [s.ref(c)])


def pipe(run, prop, kind, brk, before=0, after=0, ins=1, ctl=False):
    """kind: regulator, buffer, junction: messages in, messages out"""
    lab, e = run.lab, run.e
    s = Scn(e, '%s %s' % (prop, kind))
    c = F.new(lab, s, kind)
    for i in range(before):
        F.add_output(lab, s, kind, c, 'pre%d' % i)
    F.add_output(lab, s, kind, c, '*out', lab.breakable(brk))
    for i in range(after):
        F.add_output(lab, s, kind, c, 'post%d' % i)
    names = ['in%d' % i for i in range(ins)]
    for n in names:
        add_in(lab, s, kind, c, n, None if kind == 'junction' else ('i', 0))
    if ctl:
        control(lab, s, kind, c)
    r = F.start(lab, s, kind, c)
    w = Watch(run, prop, kind, brk, nout=1 + before + after, ins=tuple(names))
    w.pure = before + after == 0
    s.do(w.end, [r, c])
    e.on_event = w.event
    st = s.state()
    st.mon = Mon.new()
    run.explore(st)


def faucet(run, prop, brk, loc=None, ctl=False, script=None):
    lab, e = run.lab, run.e
    s = Scn(e, '%s faucet' % prop)
    c = F.new(lab, s, 'faucet', ('s', loc) if loc is not None else None)
    F.add_output(lab, s, 'faucet', c, '*out', lab.breakable(brk))
    if ctl:
        control(lab, s, 'faucet', c)
    r = F.start(lab, s, 'faucet', c)
    w = Watch(run, prop, 'faucet', brk, ins=())
    base = w.event

    def ev(e, st, x):
        if x[0] == 'open' and not x[-1]:
            m = Mon(st)
            m.rfail = True
            m.put(st)
        if script and x[0] == 'send' and is_in(chan_of(x[1]), '*out') and st.facts.get(('nreads', ('t', 'stdio', 'stdin')), 0) < len(script):
            raise Infeasible()              # only a line longer than everything read is looked at here
        base(e, st, x)
    s.do(w.end, [r, c])
    e.on_event = ev
    if script:
        e.read_script, e.WBYTES = script, 4
    st = s.state()
    st.mon = Mon.new()
    run.explore(st)


def drain(run, prop, loc, sink):
    lab, e = run.lab, run.e
    s = Scn(e, '%s drain %s' % (prop, loc))
    c = F.new(lab, s, 'drain', ('s', loc) if loc is not None else ('s', 'some.file'))
    add_in(lab, s, 'drain', c, 'in', ('i', 0))
    r = F.start(lab, s, 'drain', c)
    w = Watch(run, prop, 'drain', 'Terminate', sink=sink)
    s.do(w.end, [r, c])
    e.on_event = w.event
    st = s.state()
    st.mon = Mon.new()
    run.explore(st)


def launch(lab, s, ports, brk=None, inp=True):
    """a launch with the given output ports; the watched one is called *out"""
    c = F.new(lab, s, 'launch')
    for port, name, b in ports:
        F.add_output(lab, s, 'launch', c, name, lab.breakable(b) if b else None, port)
    if inp:
        add_in(lab, s, 'launch', c, 'in', ('i', 0))
    return c


def fix_launch(st):
    """the optional parts of a program's description do not matter here"""
    return st


def launch_in(run, prop):
    lab, e = run.lab, run.e
    s = Scn(e, '%s launch stdin' % prop)
    c = launch_plain(lab, s)
    add_in(lab, s, 'launch', c, 'in', ('i', 0))
    r = F.start(lab, s, 'launch', c)
    w = Watch(run, prop, 'launch stdin', 'Finish', sink=('?', 'ChildStdin'))
    s.do(w.end, [r, c])
    e.on_event = w.event
    st = s.state()
    st.mon = Mon.new()
    run.explore(st)


def launch_plain(lab, s):
    I = lab.method(F.TY['launch'], 'new')
    return s.call(I, [s.val(sym('id')), s.val(NONE), s.val(NONE), s.val(sym('command')), s.val(NONE)])


def launch_out(run, prop, port, brk, script=None):
    lab, e = run.lab, run.e
    kind = {'Out': 'launch-out', 'Err': 'launch-err'}[port]
    s = Scn(e, '%s %s' % (prop, kind))
    c = launch_plain(lab, s)
    F.add_output(lab, s, 'launch', c, '*out', lab.breakable(brk), port)
    r = F.start(lab, s, 'launch', c)
    w = Watch(run, prop, kind, brk, ins=())

    def end(e, st, vs):
        w.end(e, st, vs)
    base = w.event

    def ev(e, st, x):
        if x[0] == 'spawn' and not x[-1]:
            m = Mon(st)
            m.rfail = True
            m.put(st)
        base(e, st, x)
    s.do(end, [r, c])
    e.on_event = ev
    if script:
        e.read_script, e.WBYTES = script, 4
    st = s.state()
    st.mon = Mon.new()
    run.explore(st)


def pipes(prop, tier):
    J = []
    for b in BRK:
        J.append(('buffer, output %s' % b, pipe, (prop, 'buffer', b)))
    for b in BRK:
        for bef, aft, ins in ((0, 0, 2), (1, 0, 1), (0, 1, 1), (0, 0, 1)):
            J.append(('junction, output %s, %d outputs before it, %d after, %d inputs' % (b, bef, aft, ins), pipe, (prop, 'junction', b, bef, aft, ins)))
    for b in BRK:
        J.append(('regulator, output %s' % b, pipe, (prop, 'regulator', b)))
        J.append(('regulator with a control, output %s' % b, pipe, (prop, 'regulator', b, 0, 0, 1, True)))
    if tier == 'thorough':
        for b in BRK:
            for bef, aft, ins in ((1, 1, 1), (1, 0, 2), (0, 1, 2)):
                J.append(('junction, output %s, %d outputs before it, %d after, %d inputs' % (b, bef, aft, ins), pipe, (prop, 'junction', b, bef, aft, ins)))
    return J


def readers(prop, tier):
    J = []
    for b in BRK:
        J.append(('faucet on standard input, output %s' % b, faucet, (prop, b, '-')))
        J.append(('faucet with a control on a file, output %s' % b, faucet, (prop, b, 'some.file', True)))
        J.append(('launch standard output %s' % b, launch_out, (prop, 'Out', b)))
        J.append(('launch standard error %s' % b, launch_out, (prop, 'Err', b)))
    return J


def sinks(prop, tier):
    return [('drain to standard output', drain, (prop, '-', ('t', 'stdio', 'stdout'))),
            ('drain to standard error', drain, (prop, '_', ('t', 'stdio', 'stderr'))),
            ('drain to a file', drain, (prop, 'some.file', ('t', 'file', 'w', ('s', 'some.file')))),
            ('launch standard input', launch_in, (prop,))]


def jobs_C01(tier):
    return pipes('C01', tier)


def jobs_C02(tier):
    return sinks('C02', tier)


def jobs_C03(tier):
    J = readers('C03', tier)
    for sc in (('full', 'end'), ('full', 'full', 'end')):
        J.append(('faucet, one long line: %s' % ' then '.join(sc), faucet, ('C03', 'Terminate', '-', False, sc)))
    return J


def jobs_C04(tier):
    return sinks('C04', tier)


def launch_exit(run, prop, brk, spy):
    """the exit status: however the launch stops, the reader of that port sees its end"""
    lab, e = run.lab, run.e
    s = Scn(e, '%s exit' % prop)
    c = launch_plain(lab, s)
    F.add_output(lab, s, 'launch', c, 'exit', lab.breakable(brk), 'Exit')
    r = F.start(lab, s, 'launch', c, some(('t', 'Sender', sym('spy'))) if spy else None)

    def event(e, st, x):
        if x[0] == 'close' and is_in(chan_of(x[1]), 'exit'):
            st.mon = ('M', True, st.mon[2])
        elif x[0] == 'send' and is_in(chan_of(x[1]), 'exit') and not x[-1]:
            st.mon = ('M', st.mon[1], True)

    def end(e, st, vs):
        good = e.head(st, vs[0])[1] == 0
        run.count('returns Ok' if good else 'returns Err')
        me = ('t', 'Sender', ('y', ('in', 'exit')))
        closed, dead = st.mon[1:]
        if dead:
            return
        if not closed and holds(e, st, vs[1], lambda v: v[0] == 't' and v[1] == 'Sender' and e.norm(st, v) == me):
            run.fail(st, 'exit-held', 'a launch has stopped (%s) but still holds its exit status output open' % ('normally' if good else 'with an error'))
        else:
            run.count('outputs released')
    s.do(end, [r, c])
    e.on_event = event
    st = s.state()
    st.mon = ('M', False, False)
    run.explore(st)


def jobs_C05(tier):
    J = [('launch exit status %s%s' % (b, ', watched' if spy else ''), launch_exit, ('C05', b, spy)) for b in BRK for spy in (False, True)]
    return pipes('C05', tier) + readers('C05', tier) + J


def jobs_C06(tier):
    return pipes('C06', tier) + readers('C06', tier)
