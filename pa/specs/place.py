"""Rules about what a component is connected to: allocation of ports and inputs (C10), sources and destinations (C11),
the streams of a launched program (C09) and the program itself (C08)."""
import os
from ctx import *
import flows as F
import natives as N

SAME = {}


def keep(e, st, v):
    return e.norm(st, v)


def has_chan(e, st, c, what, name):
    me = ('t', what, ('y', ('in', name)))
    return holds(e, st, c, lambda v: v[0] == 't' and v[1] == what and e.norm(st, v) == me)


# ------------------------------------------------------------------ C10

def res(e, st, v):
    v = e.head(st, v)
    if v is None or v[0] != 'a':
        raise Undecided('result')
    return v


def err_kind(run, e, st, r, ty):
    x = e.head(st, r[2][0])
    if x is None or x[0] != 'a':
        raise Undecided('error value')
    return run.lab.vname(ty, x)


def alloc_output(run, kind, port, first, second):
    """connect an output `port` twice; first/second: expected outcome ('ok', 'unsupported', 'allocated')"""
    lab, e = run.lab, run.e
    s = Scn(e, 'alloc')
    c = new_plain(lab, s, kind)
    I = lab.method(F.TY[kind], 'add_output')

    def one(name):
        s.do(name_next_channel(name))
        return s.call(I, [s.ref(c), s.val(lab.port(port)), s.val(sym('breakable:' + name)), s.val(sym('src:' + name)), s.val(sym('dst:' + name))])

    def judge(want, nth, name):
        def f(e, st, vs):
            r = res(e, st, vs[0])
            if r[1] == 0:
                run.count('connections accepted')
                if want != 'ok':
                    run.fail(st, 'accepted:%s:%s:%d' % (kind, port, nth), 'a %s accepts a connection of output %s that it must refuse (%s)' % (kind, port, want))
                # the two ends belong to the same channel
                me = ('t', 'Receiver', ('y', ('in', name)))
                if not holds(e, st, r[2][0], lambda v: v[0] == 't' and v[1] == 'Receiver' and e.norm(st, v) == me):
                    run.fail(st, 'unconnected:%s' % kind, 'the pipe returned by a %s is not the other end of the output it stored' % kind)
                if not has_chan(e, st, vs[1], 'Sender', name):
                    run.fail(st, 'not-stored:%s' % kind, 'a %s forgets an output it accepted' % kind)
            else:
                run.count('connections refused')
                if want == 'ok':
                    run.fail(st, 'refused:%s:%s:%d' % (kind, port, nth), 'a %s refuses a connection of output %s that it must accept' % (kind, port))
            if nth == 2 and first == 'ok' and not has_chan(e, st, vs[1], 'Sender', 'o1'):
                run.fail(st, 'lost-first:%s:%s' % (kind, port), 'connecting output %s of a %s a second time disconnects the first' % (port, kind))
        return f
    r = one('o1')
    s.do(judge(first, 1, 'o1'), [r, c])
    r = one('o2')
    s.do(judge(second, 2, 'o2'), [r, c])
    run.explore(s.state())


def alloc_two_ports(run, p1, p2):
    """different ports of a program are independent"""
    lab, e = run.lab, run.e
    s = Scn(e, 'alloc2')
    c = new_plain(lab, s, 'launch')
    I = lab.method(F.TY['launch'], 'add_output')
    for p, n in ((p1, 'o1'), (p2, 'o2')):
        s.do(name_next_channel(n))
        r = s.call(I, [s.ref(c), s.val(lab.port(p)), s.val(sym('breakable')), s.val(sym('src')), s.val(sym('dst'))])

        def f(e, st, vs, p=p, n=n):
            if res(e, st, vs[0])[1] != 0:
                run.fail(st, 'refused:launch:%s+%s' % (p1, p2), 'a launch refuses output %s because output %s is connected' % (p2, p1))
            run.count('connections accepted')
            for m in ('o1', 'o2')[:1 if n == 'o1' else 2]:
                if not has_chan(e, st, vs[1], 'Sender', m):
                    run.fail(st, 'lost:launch:%s+%s' % (p1, p2), 'connecting outputs %s and %s of a launch loses one of them' % (p1, p2))
        s.do(f, [r, c])
    run.explore(s.state())


def alloc_input(run, kind, many):
    lab, e = run.lab, run.e
    s = Scn(e, 'allocin')
    c = new_plain(lab, s, kind)
    I = lab.method(F.TY[kind], 'add_input')

    def one(name, prio):
        return s.call(I, [s.ref(c), s.val(lab.receiver(name)), s.val(prio)])
    prio = sym('prio')

    def first(e, st, vs):
        r = res(e, st, vs[0])
        z = e.norm(st, prio)
        zero = z == ('i', 0) or st.facts.get(('t', 'eq', z, ('i', 0))) or st.facts.get(('t', 'eq', ('i', 0), z))
        if kind == 'faucet':
            if r[1] == 0:
                run.fail(st, 'accepted-input:faucet', 'a faucet accepts an input')
            run.count('inputs refused')
            return
        if kind == 'junction' or z == ('i', 0):
            if r[1] != 0:
                run.fail(st, 'refused-input:%s' % kind, 'a %s refuses its first input' % kind)
            run.count('inputs accepted')
            if not has_chan(e, st, vs[1], 'Receiver', 'i1'):
                run.fail(st, 'input-not-stored:%s' % kind, 'a %s forgets an input it accepted' % kind)
        elif r[1] == 0 and not zero:
            run.fail(st, 'priority-ignored:%s' % kind, 'a %s accepts an input with a priority although it cannot respect it' % kind)
        else:
            run.count('inputs refused')
    r = one('i1', prio)
    s.do(first, [r, c])

    def second(e, st, vs):
        r1, r2 = res(e, st, vs[0]), res(e, st, vs[1])
        if r1[1] != 0:
            return
        if many and r2[1] != 0:
            run.fail(st, 'refused-second:%s' % kind, 'a %s refuses a second input' % kind)
        if not many and r2[1] == 0:
            run.fail(st, 'accepted-second:%s' % kind, 'a %s accepts a second input' % kind)
        run.count('second inputs')
        if not has_chan(e, st, vs[2], 'Receiver', 'i1'):
            run.fail(st, 'input-lost:%s' % kind, 'connecting a second input to a %s loses the first' % kind)
        if many and not has_chan(e, st, vs[2], 'Receiver', 'i2'):
            run.fail(st, 'input-not-stored:%s' % kind, 'a %s forgets an input it accepted' % kind)
    r2 = one('i2', ('i', 0))
    s.do(second, [r, r2, c])
    run.explore(s.state())


def new_plain(lab, s, kind):
    if kind == 'launch':
        return s.call(lab.method(F.TY['launch'], 'new'), [s.val(sym('id')), s.val(NONE), s.val(NONE), s.val(sym('command')), s.val(NONE)])
    return F.new(lab, s, kind)


def jobs_C10(tier):
    J = []
    for k, tab in dict(faucet=dict(Out='ok'), regulator=dict(Out='ok'), buffer=dict(Out='ok'), junction=dict(Out='ok'), drain={}, launch=dict(Out='ok', Err='ok', Exit='ok')).items():
        for p in ('Out', 'Err', 'Exit'):
            if k in ('buffer', 'junction') and p != 'Out':
                continue          # neither documented nor relied on
            first = tab.get(p, 'unsupported')
            second = 'unsupported' if first != 'ok' else 'ok' if k == 'junction' else 'already connected'
            J.append(('%s output %s twice' % (k, p), alloc_output, (k, p, first, second)))
        J.append(('%s inputs' % k, alloc_input, (k, k == 'junction')))
    for a in ('Out', 'Err', 'Exit'):
        for b in ('Out', 'Err', 'Exit'):
            if a != b:
                J.append(('launch outputs %s and %s' % (a, b), alloc_two_ports, (a, b)))
    return J


# ------------------------------------------------------------------ C11

def lit_of(e, st, v):
    """what this path knows about the text v: the literal it is, or the set of literals it is not"""
    n = e.norm(st, v)
    if n[0] == 's':
        return n[1], set()
    yes, no = None, set()
    for f, t in st.facts.items():
        if f[0] == 't' and f[1] == 'eq':
            for a, b in ((f[2], f[3]), (f[3], f[2])):
                if e.norm(st, a) == n and b[0] == 's':
                    if t is True:
                        yes = b[1]
                    else:
                        no.add(b[1])
        if f[0] == 't' and f[1] == 'empty' and e.norm(st, f[2]) == n:
            if t is True:
                yes = ''
            else:
                no.add('')
    return yes, no


def sources(run, kind, loc):
    """loc: a text, or None for any text that is none of the special ones"""
    lab, e = run.lab, run.e
    s = Scn(e, 'loc %s' % loc)
    special = ('', '-') if kind == 'faucet' else ('', '/dev/null', '-', '_')
    L = ('s', loc) if loc is not None else sym('location')
    c = F.new(lab, s, kind, L)
    if kind == 'faucet':
        F.add_output(lab, s, kind, c, '*out', lab.breakable('Terminate'))
    else:
        F.add_input(lab, s, kind, c, 'in')
    r = F.start(lab, s, kind, c)

    def want():
        if kind == 'faucet':
            return {'-': ('t', 'stdio', 'stdin'), '': None}.get(loc, 'file')
        return {'-': ('t', 'stdio', 'stdout'), '_': ('t', 'stdio', 'stderr'), '': None, '/dev/null': None}.get(loc, 'file')
    W = want()
    end = 'read from' if kind == 'faucet' else 'written to'
    label = repr(loc) if loc is not None else 'any other'

    def known_special(st):
        if loc is not None:
            return False
        yes, no = lit_of(e, st, L)
        return yes in special

    def ev(e, st, x):
        k = x[0]
        if k == 'open':
            if known_special(st):
                raise Infeasible()
            st.note(x)
            run.count('files opened')
            mode, path, okk = x[1], x[2], x[3]
            if W != 'file':
                run.fail(st, 'opened:%s:%s' % (kind, label), 'a %s with location %s opens a file' % (kind, label))
            if e.norm(st, path) != e.norm(st, L):
                run.fail(st, 'other-file:%s' % kind, 'a %s opens a file other than the one configured' % kind)
            if mode != ('r' if kind == 'faucet' else 'w'):
                run.fail(st, 'mode:%s' % kind, 'a %s opens its file in mode %s' % (kind, mode))
            st.mon = ('M', True)
        elif k in ('read', 'readall', 'write', 'write_all'):
            if known_special(st):
                raise Infeasible()
            st.note(x)
            w = x[1]
            run.count('reads and writes')
            if W is None:
                run.fail(st, 'used:%s:%s' % (kind, label), 'with location %s something is %s' % (label, end))
            elif W == 'file':
                base = w[2] if w[0] == 't' and w[1] == 'bufwriter' else w
                while base[0] == 't' and base[1] in ('bufwriter', 'bufreader'):
                    base = base[2]
                if not (base[0] == 't' and base[1] == 'file'):
                    run.fail(st, 'wrong:%s:%s' % (kind, label), 'with location %s %s is %s instead of the file' % (label, short(w, 50), end))
            elif w != W:
                run.fail(st, 'wrong:%s:%s' % (kind, label), 'with location %s %s is %s' % (label, short(w, 60), end))
            st.mon = ('M', st.mon[1] or k)

    def end_(e, st, vs):
        if known_special(st):
            return
        r = res(e, st, vs[0])
        run.count('runs ended')
        if W == 'file' and not st.mon[1]:
            run.fail(st, 'not-opened:%s' % kind, 'a %s given a file name does not open it' % kind)
        if r[1] != 0 and W is None:
            run.fail(st, 'failed:%s:%s' % (kind, label), 'a %s with location %s fails' % (kind, label))
    s.do(end_, [r, c])
    e.on_event = ev
    st = s.state()
    st.mon = ('M', False)
    run.explore(st)


def jobs_C11(tier):
    return [('faucet location %r' % (l,), sources, ('faucet', l)) for l in ('-', '', None)] + \
           [('drain location %r' % (l,), sources, ('drain', l)) for l in ('-', '_', '', '/dev/null', None)]


# ------------------------------------------------------------------ C09

def stdio(run, inp, out, err, exit_, short_=False):
    lab, e = run.lab, run.e
    s = Scn(e, 'stdio')
    c = new_plain(lab, s, 'launch')
    names = {}
    for p, on, n in (('Out', out, 'out'), ('Err', err, 'err'), ('Exit', exit_, 'exit')):
        if on:
            F.add_output(lab, s, 'launch', c, n, lab.breakable('Terminate'), p)
    if inp:
        F.add_input(lab, s, 'launch', c, 'in')
    r = F.start(lab, s, 'launch', c)
    want = {4: inp, 5: out, 6: err}
    word = {4: 'input', 5: 'output', 6: 'error output'}
    pipe = {'ChildStdout': 'out', 'ChildStderr': 'err'}

    def ev(e, st, x):
        k = x[0]
        m = dict(st.mon[1])
        if k == 'spawn':
            st.note(x)
            run.count('programs started')
            if m.get('spawned'):
                run.fail(st, 'started-twice', 'a program is started twice')
            m['spawned'] = True
            for i, w in want.items():
                got = x[1][2][i]
                if w and got != ('s', 'piped'):
                    run.fail(st, 'not-piped:%d' % i, 'the standard %s of a program is connected but not piped (%s)' % (word[i], short(got, 40)))
                if not w and got != ('s', 'null'):
                    run.fail(st, 'not-null:%d' % i, 'the standard %s of a program that is not connected is not closed off: the program shares ours (%s)' % (word[i], short(got, 40)))
            if not x[2]:
                m['failed'] = True
        elif k == 'read':
            src = x[1]
            m['from'] = src[1] if src[0] == 't' else '?'
            if x[2] == ('i', 0) or x[2] is None:
                m[m['from'] + '.end'] = True
            elif short_ and m.get(m['from']):
                raise Infeasible()
            else:
                m[m['from']] = True
        elif k == 'send':
            ch = chan_of(x[1])
            st.note(x)
            if ch[0] == 'y' and ch[1][0] == 'in':
                n = ch[1][1]
                run.count('sends to ' + n)
                if n in ('out', 'err'):
                    if pipe.get(m.get('from')) != n:
                        run.fail(st, 'crossed', 'what is read from %s is sent to the output connected as %s' % (m.get('from'), n))
                elif n == 'exit':
                    if not m.get('status'):
                        run.fail(st, 'status-before-end', 'an exit status is sent before the program has ended')
                    if m.get('sent'):
                        run.fail(st, 'status-twice', 'the exit status is sent twice')
                    if out and not m.get('ChildStdout.end') and not m.get('outfail') or err and not m.get('ChildStderr.end') and not m.get('outfail'):
                        run.fail(st, 'status-before-output', 'the exit status is sent before the output of the program has ended')
                    m['sent'] = True
                    check_status(run, e, st, m, x[2])
                if not x[3]:
                    m['outfail'] = True
        elif k in ('write', 'write_all', 'flush'):
            if not x[-1]:
                m['outfail'] = True
        elif k == 'exitcode':
            m['code'] = x[1]
        elif k == 'wait':
            st.note(x)
            m['status'] = x[-1] if len(x) > 2 else True
        st.mon = ('M', tuple(sorted(m.items(), key=repr)))

    def end(e, st, vs):
        rr = res(e, st, vs[0])
        m = dict(st.mon[1])
        run.count('runs ended')
        if rr[1] == 0 and not m.get('spawned'):
            run.fail(st, 'not-started', 'a launch succeeds without starting its program')
        if rr[1] == 0 and m.get('failed'):
            run.fail(st, 'spawn-error-ignored', 'a launch succeeds although its program could not be started')
        if exit_ and rr[1] == 0 and not m.get('sent'):
            run.fail(st, 'status-missing', 'a launch ends successfully without sending the exit status')
    s.do(end, [r, c])
    e.on_event = ev
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


def origin(v):
    if v[0] == 'q' and len(v[1]) == 1 and v[1][0][0] == 'm' and v[1][0][1][:1] == ('y',) and v[1][0][1][1][0] == 'g':
        return origin(v[1][0][1][1][1])
    if v[0] == 'q' and all(x[0] == '1' and x[1][0] == 'i' for x in v[1]):
        return ('s', ''.join(chr(x[1][1]) for x in v[1]))
    return v


def mentions(v, what):
    return isinstance(v, tuple) and (v[:len(what)] == what or any(mentions(x, what) for x in v))


def check_status(run, e, st, m, msg):
    msg = e.norm(st, msg)
    v = origin(msg[2][0]) if msg[0] == 'a' and len(msg[2]) == 1 else ('t', 'unknown')
    run.count('exit statuses')
    code = m.get('code')
    if v[0] == 's':
        if code and v[1] != '':
            run.fail(st, 'status-fixed', 'the text %r is sent as the exit status of a program that ended by itself' % v[1])
        if v[1] != '_':
            run.fail(st, 'status-killed', 'the text %r is sent as the exit status of a program that was killed' % v[1])
        return
    plain = v
    while plain[0] == 't' and plain[1] in ('fmt', 'dbg', 'disp', 'show', 'to_string') and len(plain) == 3:
        plain = plain[2]
    if plain[0] == 't' and plain[1] == 'code':
        return
    if mentions(v, ('t', 'code')) or mentions(v, ('t', 'success')) or plain[0] == 'y' and plain[1][0] == 'n' and plain[1][-1] == 'arith':
        run.fail(st, 'status-changed', 'what is sent as the exit status is not just the exit status: %s' % short(v, 200))
    run.count('exit statuses of unknown form')
    if os.environ.get('PA_DEV'):
        print('STATUS', short(v, 300))


def jobs_C09(tier):
    J = []
    for i in range(16):
        a = tuple(bool(i >> k & 1) for k in range(4))
        J.append(('launch with %s' % (', '.join(n for n, on in zip(('input', 'output', 'error output', 'exit status'), a) if on) or 'nothing connected'), stdio, a + (tier == 'quick' and a[1] + a[2] == 2,)))
    return J
