"""Rules over all components together: no panics (C31), bounded queues (C20), nothing blocks (C21)."""
from ctx import *
import flows as F
import natives as N
from specs import flow, place, control
from specs.flow import add_in

# ------------------------------------------------------------------ C31


def calm(run, fn, *args):
    """run another rule's scenario; only its panics count"""
    real = run.fail
    run.fail = lambda *a, **k: None

    def on_panic(e, st, m):
        where = run.fnname(st)
        short_fn = where.replace('pipeawesome2::', '').split('::{')[0]
        real(st, 'panic:%s' % short_fn, 'a running component panics (%s)' % str(m)[:120], stop=False)
    run.on_panic = on_panic
    run.count('scenarios')
    fn(run, *args)


def jobs_C31(tier):
    J = []
    for n, f, a in flow.pipes('C31', tier) + flow.readers('C31', tier) + flow.sinks('C31', tier):
        # a buffer needs to know which messages its inner channels carry: the scenario of C29 has that
        if not n.startswith('buffer') and (tier != 'quick' or 'output Finish' not in n):
            J.append((n, f, a))
    J += control.jobs_C22('quick')[2:6] + control.jobs_C24(tier) + control.jobs_C29(tier) + control.jobs_C23('quick')
    J += place.jobs_C09(tier)
    return [(n, calm, (f,) + a) for n, f, a in J]


# ------------------------------------------------------------------ C20


def bounded(run, kind, size):
    """every queue a component creates, from its construction to its end"""
    lab, e = run.lab, run.e
    roles = {}
    if kind == 'buffer':
        kinds, roles = control.learn(run, lambda e: chans(run, e, kind, None))
        if not any('data' in r for r in roles.values()):
            raise Anchor('the channel inside the buffer')

    def on_newchan(e, st, x):
        cap = e.norm(st, x[2])
        site = x[1][4] if x[1][0] == 't' else None
        data = 'data' in roles.get(site, ())
        run.count('queues')
        if data:
            if cap != ('s', 'unbounded'):
                run.fail(st, 'buffer-is-bounded', 'a buffer holds only %s messages: it makes its input wait for its output' % short(cap, 40), stop=False)
            else:
                run.count('unbounded queues inside a buffer')
            return
        if cap == ('s', 'unbounded') or cap[0] == 'i' and cap[1] > 1 << 20:
            run.fail(st, 'unbounded:' + kind, 'a %s queues any number of messages instead of making what comes before it wait' % kind, stop=False)
        elif cap[0] != 'i' and cap != SIZE and cap[0] != 'y':
            run.fail(st, 'size:' + kind, 'the size of a queue of a %s depends on %s' % (kind, short(cap, 60)), stop=False)
    run.on_newchan = on_newchan
    st = chans(run, e, kind, size)
    st.mon = ('M', None)
    run.explore(st)


SIZE = sym('size')


def chans(run, e, kind, size):
    lab = run.lab
    kind, _, only = kind.partition(' ')
    s = Scn(e, 'queues ' + kind)
    if kind == 'launch':
        c = flow.launch_plain(lab, s)
    else:
        c = F.new(lab, s, kind, ('s', '-'))
    if size:
        s.call(lab.method(F.TY[kind], size), [s.ref(c), s.val(SIZE)])
    for port in (only,) if only else ('Out',) if kind != 'drain' else ():
        s.do(name_next_channel('out ' + port))
        s.call(lab.method(F.TY[kind], 'add_output'), [s.ref(c), s.val(lab.port(port)), s.val(lab.breakable('Terminate')), s.val(sym('src')), s.val(sym('dst'))])
    if kind != 'faucet':
        add_in(lab, s, kind, c, 'in', ('i', 0))
    if kind in ('faucet', 'regulator') and size is None:
        flow.control(lab, s, kind, c)
    if kind == 'buffer':
        s.do(name_next_channel('monitor'))
        s.call(lab.method(F.TY[kind], 'add_buffer_size_monitor'), [s.ref(c)])
    F.start(lab, s, kind, c)
    return s.state()


def jobs_C20(tier):
    J = [('the queues of a %s' % k, bounded, (k, None)) for k in ('faucet', 'drain', 'buffer', 'junction', 'regulator', 'launch Out', 'launch Err', 'launch Exit')]
    for k in ('faucet', 'junction', 'buffer', 'regulator'):
        J.append(('the queues of a %s after set_stdout_size' % k, bounded, (k, 'set_stdout_size')))
    return J


# ------------------------------------------------------------------ C21
import re
from program import split_generics
BLOCKS = [re.compile(x) for x in (
    r'^std::thread::(sleep|sleep_ms|sleep_until|park|park_timeout)$', r'^std::thread::JoinHandle::join$',
    r'^std::fs::(File|OpenOptions)::(open|create|create_new|open_buffered|create_buffered|sync_all|sync_data)$',
    r'^std::fs::(read|write|read_to_string|copy|rename|remove_file|create_dir|create_dir_all|read_dir|metadata|canonicalize)$',
    r'^std::process::Command::(status|output)$', r'^std::process::Child::(wait|wait_with_output)$',
    r'^std::sync::mpsc::Receiver::(recv|recv_timeout|iter)$', r'^std::sync::mpsc::SyncSender::send$', r'^std::sync::Condvar::wait\w*$', r'^std::sync::Barrier::wait$',
    r'^(async_std::task|futures::executor|futures_executor|futures_executor::local_pool|futures_lite::future|async_io|async_global_executor|smol|pollster|block_on)(::\w+)*::block_on$',
    r'^async_channel::(Sender|Receiver)::(send_blocking|recv_blocking)$',
    r'^std::io::(Stdin|StdinLock)::(read_line|lines)$', r'^std::io::read_to_string$',
    r'^std::net::(TcpStream|TcpListener|UdpSocket)::')]
READS = re.compile(r'^<(&mut )?std::(fs::File|io::Stdin|io::StdinLock\S*|process::ChildStd\w+|net::TcpStream) as std::io::(Read|Write|BufRead)>::')
ELSEWHERE = re.compile(r'(spawn_blocking|^std::thread::spawn|^std::thread::Builder::spawn|^blocking::unblock|^std::thread::scope)$')


def blocks(path):
    p = split_generics(path)
    p = p if isinstance(p, str) else p[0]
    return any(r.match(p) for r in BLOCKS) or READS.match(path) is not None


def mentioned(P, raw):
    """(callee instance, where) for everything a body calls, closes over or names; what runs on another thread is left out"""
    out, away = {}, set()

    def ty(ti, to, sp, seen):
        if ti is None or ti in seen:
            return
        seen.add(ti)
        T = P.types[ti]
        if T.get('inst', -1) is not None and T.get('inst', -1) >= 0:
            to.setdefault(T['inst'], sp)
        for k in ('args', 'es', 'e', 'ups'):
            v = T.get(k)
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, int) and not isinstance(x, bool):
                    ty(x, to, sp, seen)
    B = P.body(raw)
    for bb in B.bbs:
        if bb is None:
            continue
        t = bb[1]
        if t.get('t') != 'call':
            continue
        i = t.get('inst')
        there = i is not None and i >= 0 and ELSEWHERE.search(base(P.insts[i]['path']))
        if i is not None and i >= 0:
            out.setdefault(i, t.get('sp'))
        for a in (t.get('at') or []) + (t.get('ta') or []):
            d = {}
            ty(a, d, t.get('sp'), set())
            if there:
                away |= set(d)
            else:
                for k, v in d.items():
                    out.setdefault(k, v)
    for ti in B.locals:
        ty(ti if isinstance(ti, int) else ti[0], out, B.span, set())
    return {i: sp for i, sp in out.items() if i not in away}


def base(path):
    p = split_generics(path)
    return p if isinstance(p, str) else p[0]


def nothing_blocks(run, kinds=None):
    lab, P = run.lab, run.lab.P
    roots = [('Waiter::start', lab.method(WAITER, 'start'))]
    for k in F.TY:
        roots.append((k, lab.method(F.TY[k], 'start')))
    P.by_trait = {}
    for (ty, tr, m), ns in P.impls.items():
        P.by_trait.setdefault((tr, m), []).extend(ns)
    seen, todo = {}, []
    for n, i in roots:
        i = i['id'] if isinstance(i, dict) else i
        seen[i] = (None, None)
        todo.append(i)
    while todo:
        i = todo.pop()
        I = P.insts[i]
        if I['body'] is None or I['body'] < 0:
            # a call through a trait object: every implementation
            tr, _, name = base(I['path']).rpartition('::')
            for n in P.by_trait.get((tr, name), ()):
                if n not in seen:
                    seen[n] = (i, None)
                    todo.append(n)
            if blocks(I['path']):
                chain, j, at = [], i, None
                while j is not None:
                    chain.append(P.insts[j]['path'].replace('pipeawesome2::', ''))
                    if at is None and seen[j][0] is not None and P.insts[seen[j][0]]['local']:
                        at = seen[j]
                    j = seen[j][0]
                where = at[1] if at else '?'
                fn = P.insts[at[0]]['path'] if at else '?'
                key = 'blocks:' + base(I['path'])
                run.viol.setdefault(key, dict(message='while the pipeline runs, %s is called: it stops the thread that all components share' % base(I['path']), where=str(where), at=fn, scenario=run.name, path=list(reversed(chain)), taint=[]))
            continue
        run.count('functions reached')
        for c, sp in mentioned(P, I['body']).items():
            run.count('calls and closures checked')
            if c not in seen:
                seen[c] = (i, sp)
                todo.append(c)
    run.e.functions |= set(i for i in seen if P.insts[i]['body'] is not None and P.insts[i]['body'] >= 0)


WAITER = F.MOD + 'waiter::Waiter'


class Together:
    """what has been started, and beside what"""

    def __init__(self, run, n):
        self.run, self.n = run, n

    def new(self):
        return ('M', 0, (), ())

    def event(self, e, st, x):
        _, n, stack, first = st.mon
        if x[0] == 'par':
            m = x[1]
            if m in '[(':
                stack, n = stack + ((n, 0),), n + 1
            elif m in '|{':
                stack = stack[:-1] + ((stack[-1][0], stack[-1][1] + 1),)
            elif m in ')]':
                stack = stack[:-1]
            st.mon = ('M', n, stack, first)
            return
        what = None
        if x[0] == 'started':
            what = (x[1], x[2])
        elif x[0] in ('recv', 'try_recv'):            # the components themselves are replaced: this is what manages a regulator
            what = ('the manager of', 'the regulator')
        if what is None or what in [f[0] for f in first]:
            return
        st.note(what)
        for other, s2 in first:
            self.run.count('pairs of components compared')
            ok = False
            for (a, i), (b, j) in zip(stack, s2):
                if a != b:
                    break
                if i != j:
                    ok = True
                    break
            if not ok:
                self.run.fail(st, 'one-after-the-other', 'the %s is started only after the %s has finished, so neither can wait for the other' % (what[0] + ' ' + what[1], other[0] + ' ' + other[1]), stop=False)
        st.mon = ('M', n, stack, first + ((what, stack),))

    def end(self, e, st, vs):
        self.run.count('complete starts')
        if len(st.mon[3]) < self.n:
            self.run.fail(st, 'not-started', 'the pipeline finishes without having started every component', stop=False)


PARTS = [('faucet', 'f1'), ('faucet', 'f2'), ('drain', 'd1'), ('drain', 'd2'), ('junction', 'j1'), ('junction', 'j2'), ('regulator', 'r1'), ('regulator', 'r2'),
         ('buffer', 'b1'), ('buffer', 'b2'), ('launch', 'l1'), ('launch', 'l2')]


def together(run, parts, monitored):
    lab, e = run.lab, run.e
    s = Scn(e, 'together')
    w = F.waiter_of(lab, s, parts)
    t = Together(run, len(parts) + (1 if monitored else 0))
    if monitored:
        s.call(lab.method(WAITER, 'configure_regulator'), [s.ref(w), s.val(('s', 'r1')), s.val(('q', (('1', ('s', 'b1')),))), s.val(('i', 1)), s.val(('i', 5))])

    def on(e, st, k, n):
        e.emit(st, ('started', k, n))
        return ('a', 0, (('i', 0),))
    F.hook_starts(lab, e, [n for _, n in parts], on)
    r = s.await_(lab.method(WAITER, 'start'), [s.ref(w), s.val(NONE)])
    s.do(t.end, [r])
    e.on_event = t.event
    st = s.state()
    st.mon = t.new()
    run.explore(st)


STREAMS = {'ChildStdout': 'reading its output', 'ChildStderr': 'reading its error output'}


class Streams(Together):
    """the parts of one component: the first thing each does, with every stream ending at once"""

    def event(self, e, st, x):
        _, n, stack, first = st.mon
        k, what = x[0], None
        if k == 'par':
            return Together.event(self, e, st, x)
        if k in ('recv', 'try_recv'):
            nm = chname(x[1])
            if nm == 'in':
                what = 'taking its input'
            else:
                what = 'passing on' if k == 'recv' else None
            if x[2] not in (None, 'closed') and (nm == 'in' or k == 'recv'):
                raise Infeasible()
        elif k == 'read' and x[1][0] == 't' and x[1][1] in STREAMS:
            what = STREAMS[x[1][1]]
            if x[2] != ('i', 0):
                raise Infeasible()
        elif k == 'wait':
            what = 'waiting for its end'
        elif k in ('spawn', 'flush', 'send') and not x[-1]:
            raise Infeasible()
        if what is None or what in [f[0] for f in first]:
            return
        st.note((what,))
        for other, s2 in first:
            self.run.count('pairs of streams compared')
            ok = what == 'waiting for its end'
            for (a, i), (b, j) in zip(stack, s2):
                if a != b:
                    break
                if i != j:
                    ok = True
                    break
            if not ok:
                self.run.fail(st, 'streams:' + self.kind, 'a %s begins %s only after it has finished %s: a full pipe or queue makes them wait for each other for ever' % (self.kind, what, other), stop=False)
        st.mon = ('M', n, stack, first + ((what, stack),))

    def end(self, e, st, vs):
        self.run.count('complete runs')
        if len(st.mon[3]) < self.n:
            self.run.count('runs without one of the streams')


def streams(run, kind, ports):
    lab, e = run.lab, run.e
    s = Scn(e, 'streams ' + kind)
    c = flow.launch_plain(lab, s) if kind == 'launch' else F.new(lab, s, kind)
    for p in ports:
        F.add_output(lab, s, kind, c, 'out ' + p, lab.breakable('Terminate'), p)
    add_in(lab, s, kind, c, 'in', ('i', 0))
    r = F.start(lab, s, kind, c)
    m = Streams(run, 3 if kind == 'launch' else 2)
    m.kind = {'launch': 'launched program'}.get(kind, kind)
    s.do(m.end, [r])
    e.on_event = m.event
    st = s.state()
    st.mon = m.new()
    run.explore(st)


def chname(ch):
    ch = chan_of(ch)
    return ch[1][1] if ch[0] == 'y' and ch[1][0] == 'in' else None


LOOKS = 4       # a channel found empty this often with nothing in between: the loop never gives way


class Idle:
    """a component that finds nothing to do gives the others a turn before it looks again"""

    def __init__(self, run):
        self.run = run

    def event(self, e, st, x):
        k = x[0]
        if k == 'try_recv':
            ch = chan_of(x[1])
            if x[2] in ('empty', 'closed'):
                self.run.count('looks at an empty queue')
                d = dict(st.mon[1])
                d[ch] = d.get(ch, 0) + 1
                st.note(('empty',))
                if d[ch] >= LOOKS:
                    self.run.fail(st, 'spins', 'a component that finds nothing to do looks again and again without letting the others run')
                st.mon = ('M', tuple(sorted(d.items(), key=repr)))
            else:
                st.mon = ('M', ())
        elif k in ('sleep', 'recv', 'send', 'read', 'write', 'write_all', 'flush', 'wait', 'open', 'spawn'):
            if k == 'sleep':
                st.note(('sleep',))
                self.run.count('turns given')
            st.mon = ('M', ())


def idle(run, kind, n=1):
    lab, e = run.lab, run.e
    s = Scn(e, 'idle ' + kind)
    if kind == 'manager':
        w = F.waiter_of(lab, s, [('regulator', 'r'), ('buffer', 'b1'), ('buffer', 'b2')][:n + 1])
        s.call(lab.method(WAITER, 'configure_regulator'), [s.ref(w), s.val(('s', 'r')), s.val(('q', (('1', ('s', 'b1')), ('1', ('s', 'b2')))[:n])), s.val(control.LOW), s.val(control.HIGH)])
        F.hook_starts(lab, e, ['r', 'b1', 'b2'], lambda e, st, k, n: ('a', 0, (('i', 0),)))
        s.await_(lab.method(WAITER, 'start'), [s.ref(w), s.val(NONE)])
    else:
        c = F.new(lab, s, kind)
        F.add_output(lab, s, kind, c, '*out', lab.breakable('Terminate'))
        for i in range(2 if kind == 'junction' else 1):
            add_in(lab, s, kind, c, 'in%d' % i, ('i', 0))
        if kind == 'buffer':
            s.call(lab.method(F.TY[kind], 'add_buffer_size_monitor'), [s.ref(c)])
        F.start(lab, s, kind, c)
    m = Idle(run)
    e.on_event = m.event
    e.WSUM = 6
    st = s.state()
    st.mon = ('M', ())
    if kind == 'manager':
        control.sane_marks(st)
    run.explore(st)


def jobs_C21(tier):
    return [('nothing blocks the shared thread', nothing_blocks, ()), ('all components run together', together, (PARTS, False)),
            ('a managed regulator runs with the rest', together, ([p for p in PARTS if p[1] in ('r1', 'b1', 'f1', 'l1', 'd1', 'j1')], True)),
            ('the streams of a launch', streams, ('launch', ('Out', 'Err'))), ('the streams of a launch with exit status', streams, ('launch', ('Out', 'Err', 'Exit'))),
            ('the halves of a buffer', streams, ('buffer', ('Out',)))] + \
        [('an idle %s gives way' % k, idle, (k,)) for k in ('junction', 'buffer', 'manager')] + \
        ([('an idle manager of two buffers gives way', idle, ('manager', 2))] if tier == 'thorough' else [])
