"""Rules about watching a pipeline (C32): what is told to whoever watches."""
from ctx import *
import flows as F
import natives as N
from specs.flow import Watch, Mon, is_in, same, payload, add_in, control, launch_plain, BRK


class Spy(Watch):
    """outs: {name: (src, dst, port name)}; told: ((name, message not told yet, must be told), ...) and the finished ones"""

    def __init__(self, run, kind, brk, outs, ins, **kw):
        Watch.__init__(self, run, 'C32', kind, brk, nout=len(outs), ins=ins, **kw)
        self.outs = outs

    def fail(self, st, prop, key, msg):
        if prop in ('C01', 'C03', 'C06'):
            self.run.fail(st, 'watched:%s:%s' % (key, self.kind), '%s, while it is watched, %s' % (self.kind, msg))
        elif prop == 'C32':
            self.run.fail(st, '%s:%s' % (key, self.kind), '%s %s' % (self.kind, msg))

    def get(self, st):
        m = Mon(st)
        return m, dict(m.spy)

    def put(self, st, m, d):
        m.spy = tuple(sorted(d.items(), key=repr))
        m.put(st)

    def event(self, e, st, x):
        run, lab = self.run, self.run.lab
        k = x[0]
        if k in ('send', 'try_send') and is_in(chan_of(x[1]), 'spy'):
            st.note(x)
            m, d = self.get(st)
            v = e.head(st, x[2])
            T = [f[0] for f in lab.adt(F.MOD + 'motion::SpyMessage')['vs'][0]['f']]
            f = dict(zip(T, [e.norm(st, e.head(st, y)) for y in v[2]]))
            at = [n for n, o in self.outs.items() if o == (f['src'], f['dst'], f['src_port'])]
            if len(at) != 1:
                self.fail(st, 'C32', 'connection', 'tells something about a connection that it does not have')
                return
            n = at[0]
            if k == 'try_send' and not x[3]:
                self.fail(st, 'C32', 'dropped', 'leaves something untold when the watcher is slow')
            msg = e.head(st, f['msg'])
            what = lab.vname(F.MOD + 'motion::IODataWrapper', msg)
            if what == 'IOData':
                run.count('messages told')
                p = d.get(n)
                if p is None or not same(e, st, msg, p[0]):
                    self.fail(st, 'C32', 'untrue', 'tells of a message that was not just passed on there')
                d.pop(n, None)
            elif what == 'Finished':
                run.count('ends told')
                if not m.ended:
                    self.fail(st, 'C32', 'early-end', 'tells that a connection has finished although no input has ended')
                d['fin ' + n] = True
                if d.get(n, (0, False))[1]:
                    self.fail(st, 'C32', 'untold', 'does not tell of a message it passed on')
            else:
                self.fail(st, 'C32', 'nothing', 'tells of a message where there was none')
            if not x[3]:
                m.touched = True
                d['gone'] = True
            self.put(st, m, d)
            return
        Watch.event(self, e, st, x)
        if k in ('send', 'try_send'):
            n = [n for n in self.outs if is_in(chan_of(x[1]), n)]
            if n:
                m, d = self.get(st)
                if d.get(n[0], (0, False))[1]:
                    self.fail(st, 'C32', 'untold', 'does not tell of a message it passed on')
                d[n[0]] = (x[2], x[3])
                if not x[3]:
                    d['shut ' + n[0]] = True
                self.put(st, m, d)
        elif k in ('recv', 'try_recv') and x[2] is not None and x[2] != 'empty' and self.kind in ('junction', 'regulator') and not is_in(chan_of(x[1]), 'control'):
            m, d = self.get(st)
            for n in self.outs:
                if d.get(n, (0, False))[1]:
                    self.fail(st, 'C32', 'untold', 'does not tell of a message it passed on')

    def end(self, e, st, vs):
        m, d = self.get(st)
        r = e.head(st, vs[0])
        if r[0] != 'a':
            raise Undecided('result')
        Watch.end(self, e, st, vs)
        if r[1] == 0:
            for n in self.outs:
                self.run.count('connections watched to their end')
                if d.get(n, (0, False))[1]:
                    self.fail(st, 'C32', 'untold', 'does not tell of the last message it passed on')
                if 'fin ' + n not in d and 'shut ' + n not in d and self.outs[n][2] != self.run.lab.port('Exit'):
                    self.fail(st, 'C32', 'end-untold', 'does not tell that it has finished')
            if d.get('gone'):
                pass


SPY = ('a', 1, (('t', 'Sender', ('y', ('in', 'spy'))),))


def out(lab, s, kind, c, outs, name, brk, port='Out'):
    I = lab.method(F.TY[kind], 'add_output')
    s.do(name_next_channel(name))
    src, dst = sym('src'), sym('dst of ' + name)
    r = s.call(I, [s.ref(c), s.val(lab.port(port)), s.val(lab.breakable(brk)), s.val(src), s.val(dst)])
    outs[name] = (src, dst, lab.port(port))
    s.do(F.unwrap, [r])


def go(run, s, c, kind, w, extra=None):
    r = F.start(run.lab, s, kind, c, SPY)
    s.do(w.end, [r, c])

    def ev(e, st, x):
        if x[0] in ('open', 'spawn') and not x[-1]:
            m = Mon(st)
            m.rfail = True
            m.put(st)
        w.event(e, st, x)
    run.e.on_event = ev
    st = s.state()
    st.mon = Mon.new()
    run.explore(st)


def pipe(run, kind, brks, ins=1, ctl=False):
    lab, e = run.lab, run.e
    s = Scn(e, 'watched %s' % kind)
    c = F.new(lab, s, kind)
    outs = {}
    for i, b in enumerate(brks):
        out(lab, s, kind, c, outs, '*out' if i == 0 else 'out%d' % i, b)
    names = ['in%d' % i for i in range(ins)]
    for n in names:
        add_in(lab, s, kind, c, n, None if kind == 'junction' else ('i', 0))
    if ctl:
        control(lab, s, kind, c)
    w = Spy(run, kind, brks[0], outs, tuple(names))
    w.pure = len(brks) == 1
    go(run, s, c, kind, w)


def faucet(run, brk, loc):
    lab, e = run.lab, run.e
    s = Scn(e, 'watched faucet')
    c = F.new(lab, s, 'faucet', ('s', loc))
    outs = {}
    out(lab, s, 'faucet', c, outs, '*out', brk)
    go(run, s, c, 'faucet', Spy(run, 'faucet', brk, outs, ()))


def launch(run, port, brk):
    lab, e = run.lab, run.e
    s = Scn(e, 'watched launch')
    c = launch_plain(lab, s)
    outs = {}
    out(lab, s, 'launch', c, outs, '*out', brk, port)
    if port == 'Exit':
        w = Exit(run, 'launch-exit', brk, outs, ())
    else:
        w = Spy(run, {'Out': 'launch-out', 'Err': 'launch-err'}[port], brk, outs, ())
    go(run, s, c, 'launch', w)


class Exit(Spy):
    """the exit status is made up by the launch itself: only the telling is looked at"""

    def fail(self, st, prop, key, msg):
        if prop == 'C32':
            Spy.fail(self, st, prop, key, msg)

    def end(self, e, st, vs):
        m, d = self.get(st)
        r = e.head(st, vs[0])
        if r[0] == 'a' and r[1] == 0:
            self.run.count('connections watched to their end')
            for n in self.outs:
                if d.get(n, (0, False))[1]:
                    self.fail(st, 'C32', 'untold', 'does not tell of the exit status')


def all_watched(run):
    """starting a pipeline with a watcher hands it to everything that passes something on"""
    lab, e = run.lab, run.e
    s = Scn(e, 'watched pipeline')
    parts = [(k, k + n) for k in F.KINDS for n in ('1', '2')]
    w = F.waiter_of(lab, s, parts)
    names = [n for k, n in parts]

    def h_for(k):
        def h(e, st, C):
            if C.ups is None:
                return NotImplemented
            n = F.which(e, st, C.ups[0], names)
            if n is None:
                raise Undecided('which component was started')
            v = e.norm(st, N.deep(e, st, C.ups[1]))
            run.count('components started')
            if k != 'drain' and v != e.norm(st, SPY):
                if v[0] != 'a':
                    raise Undecided('watcher %s' % short(v))
                run.fail(st, 'unwatched:' + k, 'a %s is not watched when the pipeline is' % k)
            return ('a', 0, (('i', 1),))
        return h
    for k in F.TY:
        e.hooks[lab.method(F.TY[k], 'start')['path'] + '::{closure#0}'] = h_for(k)
    r = s.await_(lab.method(F.WAITER, 'start'), [s.ref(w), s.val(SPY)])
    run.explore(s.state())


def jobs_C32(tier):
    J = []
    for b in BRK:
        J.append(('buffer, output %s' % b, pipe, ('buffer', (b,))))
        J.append(('regulator, output %s' % b, pipe, ('regulator', (b,))))
        J.append(('junction, output %s' % b, pipe, ('junction', (b,))))
        J.append(('junction, two inputs, output %s' % b, pipe, ('junction', (b,), 2)))
        for c in BRK if tier == 'thorough' else ('Terminate', 'Consume'):
            J.append(('junction, outputs %s and %s' % (b, c), pipe, ('junction', (b, c))))
        J.append(('faucet on standard input, output %s' % b, faucet, (b, '-')))
        J.append(('faucet on a file, output %s' % b, faucet, (b, 'some.file')))
        for p in ('Out', 'Err', 'Exit'):
            J.append(('launch output %s, %s' % (p, b), launch, (p, b)))
    J.append(('regulator with a control', pipe, ('regulator', ('Terminate',), 1, True)))
    J.append(('the whole pipeline', all_watched, ()))
    return J


EXPLAIN = {'C32': 'What is sent to the watcher is compared with what was sent to the connection just before.'}
