"""Rules about what a description means: the pipeline that is built (C07, C08), what is reported (C13)."""
from ctx import *
import flows as F
import natives as N

TYPES = {'faucet': 'Faucet', 'launch': 'Launch', 'junction': 'Junction', 'buffer': 'Buffer', 'drain': 'Drain', 'regulator': 'Regulator'}


def ctype(lab, kind):
    return lab.variant('config::ComponentType', TYPES[kind])


def vstruct(lab, ty, variant, **kw):
    """an enum variant with named fields"""
    T = lab.adt(ty)
    for i, v in enumerate(T['vs']):
        if v['n'] == variant:
            names = [f[0] for f in v['f']]
            if set(names) != set(kw):
                raise Anchor('fields of %s::%s: %s' % (ty, variant, names))
            return ('a', i, tuple(kw[n] for n in names))
    raise Anchor('%s::%s' % (ty, variant))


def connection(lab, kind, name, inp=None, out=None, cset=NONE):
    """inp: (priority, breakable) values; out: port value"""
    kw = dict(component_type=ctype(lab, kind), component_name=('s', name), connection_set=cset)
    if inp is not None:
        kw['input_port'] = lab.struct('connectable::InputPort', priority=inp[0], breakable=inp[1])
    if out is not None:
        kw['output_port'] = out
    return vstruct(lab, 'config::Connection', 'MiddleConnection' if inp and out else 'StartConnection' if out else 'EndConnection', **kw)


def hm(d):
    return ('h', None, tuple((('s', k), v) for k, v in d.items()))


def seq(vs):
    return ('q', tuple(('1', v) for v in vs))


def config(lab, connections, faucet={}, drain={}, launch={}, regulator={}):
    """connections: {set: [connection values]}"""
    return lab.struct('config::Config',
                      faucet=hm({k: lab.struct('config::FaucetConfig', source=v) for k, v in faucet.items()}),
                      drain=hm({k: lab.struct('config::DrainConfig', destination=v) for k, v in drain.items()}),
                      launch=hm({k: lab.struct('config::LaunchConfig', **v) for k, v in launch.items()}),
                      regulator=hm({k: lab.struct('config::RegulatorConfig', buffered=v[0], monitored_buffers=v[1]) for k, v in regulator.items()}),
                      connection=hm({k: lab.variant('config::DeserializedConnection', 'Connections', seq(v)) for k, v in sorted(connections.items())}))


# ------------------------------------------------------------------ C07

class Stubs:
    """components replaced by names: what is built and how it is connected becomes visible"""

    def __init__(self, lab, e):
        self.lab, self.e = lab, e
        for k in F.TY:
            e.hooks[lab.method(F.TY[k], 'new')['path']] = lambda e, st, C, k=k: self.new(e, st, C, k)
            for m in ('add_output', 'add_input'):
                e.hooks[lab.method(F.TY[k], m)['path']] = lambda e, st, C, k=k, m=m: getattr(self, m)(e, st, C, k)
        e.hooks[lab.method(F.WAITER, 'configure_regulator')['path']] = self.configure

    def put(self, st, x):
        st.mon = ('M', st.mon[1] + (x,))
        st.note(x)

    def new(self, e, st, C, k):
        n = len(st.mon[1])
        self.put(st, ('new', n, k, tuple(e.norm(st, N.deep(e, st, a)) for a in C.args)))
        return ('t', 'component', k, n)

    def who(self, e, st, v):
        v = e.derefv(st, v)
        if v[0] == 't' and v[1] == 'component':
            return v[3]
        raise Undecided('which component %s' % short(v))

    def add_output(self, e, st, C, k):
        w = self.who(e, st, C.args[0])
        n = len(st.mon[1])
        self.put(st, ('out', n, w) + tuple(e.norm(st, N.deep(e, st, a)) for a in C.args[1:]))
        return ('a', 0, (('t', 'pull', n),))

    def add_input(self, e, st, C, k):
        w = self.who(e, st, C.args[0])
        self.put(st, ('in', w, e.head(st, C.args[1]), e.norm(st, C.args[2])))
        return ('a', 0, (UNIT,))

    def configure(self, e, st, C):
        self.put(st, ('manage',) + tuple(e.norm(st, N.deep(e, st, a)) for a in C.args[1:]))
        return TRUE


PORTS = ('Out', 'Err', 'Exit')


def build(run, sets, name):
    """sets: {set: [(kind, name, has input, has output)]}"""
    lab, e = run.lab, run.e
    s = Scn(e, 'build ' + name)
    stubs = Stubs(lab, e)
    want_joins, conns, comps = [], {}, []
    i = 0
    for cs, cc in sorted(sets.items()):
        last = None
        conns[cs] = []
        for kind, nm, hi, ho in cc:
            prio, brk, port = sym('prio%d' % i), sym('brk%d' % i), sym('port%d' % i)
            conns[cs].append(connection(lab, kind, nm, (prio, brk) if hi else None, port if ho else None))
            if (kind, nm) not in comps:
                comps.append((kind, nm))
            if last is not None and hi:
                want_joins.append((last[0], last[1], (kind, nm), prio, brk))
            last = ((kind, nm), port) if ho else None
            i += 1
    faucets = {n: sym('src:' + n) for k, n in comps if k == 'faucet'}
    drains = {n: sym('dst:' + n) for k, n in comps if k == 'drain'}
    launches = {n: dict(command=('a', 1, (sym('cmd:' + n),)), path=NONE, env=hm({}), arg=('q', ())) for k, n in comps if k == 'launch'}
    regs = {n: (('a', 1, (('a', 0, (sym('low:' + n), sym('high:' + n))),)), seq([('s', b) for kk, b in comps if kk == 'buffer'])) for k, n in comps if k == 'regulator'}
    if len(regs) > 1:
        regs = {n: v if i == 0 else (NONE, ('q', ())) for i, (n, v) in enumerate(sorted(regs.items()))}
    cfg = config(lab, conns, faucets, drains, launches, regs)
    e.WIDEN = 200
    r = s.call(lab.fn(F.MOD + 'waiter::get_waiter'), [s.val(cfg)])

    def end(e, st, vs):
        run.count('pipelines built')
        w = vs[0]
        ev = st.mon[1]
        news = {}
        for x in ev:
            if x[0] == 'new':
                news.setdefault(x[2], []).append(x)
        ident = {}
        left = list(comps)
        for m in e.head(st, w)[2]:
            m = e.head(st, m)
            if m is None or m[0] != 'h':
                continue
            for kk, c in m[2]:
                c = e.head(st, c)
                if c is None or c[0] != 't' or c[1] != 'component':
                    continue
                nm = e.norm(st, kk)
                if (c[2], nm[1]) not in left:
                    run.fail(st, 'extra', 'a %s that no connection names is part of the pipeline' % c[2])
                left.remove((c[2], nm[1]))
                ident[c[3]] = (c[2], nm[1])
                run.count('components found')
        if left:
            run.fail(st, 'missing', 'a %s named in the connections is not part of the pipeline' % left[0][0])
        used = [x for x in ev if x[0] in ('out', 'in')]
        for x in used:
            w = x[2] if x[0] == 'out' else x[1]
            if w not in ident:
                run.fail(st, 'lost', 'a component is connected and then replaced by another one of the same name')
        got = []
        pulls = {}
        for x in ev:
            if x[0] == 'out':
                pulls[x[1]] = x
            elif x[0] == 'in':
                pl = x[2]
                if pl[0] != 't' or pl[1] != 'pull' or pl[2] not in pulls:
                    run.fail(st, 'wrong-pull', 'an input is not given what the connection brings')
                o = pulls.pop(pl[2])
                got.append((ident[o[2]], o[3], ident[x[1]], x[3], o[4], o[5], o[6]))
        if pulls:
            run.fail(st, 'dangling', 'an output is opened and connected to nothing')
        left = list(got)
        for wj in want_joins:
            hit = [g for g in left if g[:5] == wj]
            if not hit:
                near = [g for g in left if g[0] == wj[0] and g[2] == wj[2]]
                if not near:
                    run.fail(st, 'not-connected', 'the %s is not connected to the %s that follows it' % (wj[0][0], wj[2][0]))
                g = near[0]
                what = 'output port' if g[1] != wj[1] else 'priority' if g[3] != wj[3] else 'way of closing'
                run.fail(st, 'join:' + what, 'the %s of a connection is not the one described (%s)' % (what, short(g, 200)))
            left.remove(hit[0])
            run.count('connections compared')
            for what, idv, comp in (('source', hit[0][5], hit[0][0]), ('destination', hit[0][6], hit[0][2])):
                nm = e.head(st, vs[1])
                if nm is None or nm[0] != 'a' or nm[1] != 1:
                    run.fail(st, 'no-ids', 'the names behind the numbers in error messages are not kept')
                mm = e.head(st, nm[2][0])
                t = [e.norm(st, N.deep(e, st, v)) for kk, v in mm[2] if e.norm(st, kk) == idv]
                run.count('names of ids')
                if t != [('a', 0, (ctype(lab, comp[0]), ('s', comp[1])))]:
                    run.fail(st, 'id', 'a connection names its %s with a number that stands for something else' % what)
        if left:
            run.fail(st, 'extra-connection', 'the %s and the %s are connected although no connection says so' % (left[0][0][0], left[0][2][0]))
        for x in ev:
            if x[0] == 'new' and x[1] in ident:
                k, nm = ident[x[1]]
                if k in ('faucet', 'drain'):
                    run.count('sources and destinations')
                    if x[3] != (sym(('src:' if k == 'faucet' else 'dst:') + nm),):
                        run.fail(st, 'place:' + k, 'a %s is given another place than the one configured for it' % k)
                if k == 'launch' and not any(holds(e, st, a, lambda v: v == sym('cmd:' + nm)) for a in x[3]):
                    run.fail(st, 'command', 'a launch is given another command than the one configured for it')
        man = sorted([x[1:] for x in ev if x[0] == 'manage'], key=repr)
        wantm = sorted([(('s', n), v[1], v[0][2][0][2][0], v[0][2][0][2][1]) for n, v in regs.items() if v[0] != NONE], key=repr)
        run.count('regulators compared', len(wantm))
        if [tuple(e.norm(st, y) for y in x) for x in man] != wantm:
            run.fail(st, 'regulator', 'a regulator is not given the buffers and marks configured for it (%s)' % short(man, 200))

    def okay(e, st, vs):
        v = e.head(st, vs[0])
        if v[1] != 0:
            run.fail(st, 'refused', 'a description that is complete is refused (%s)' % short(e.norm(st, N.deep(e, st, v[2][0]))))
        return v[2][0]
    w = s.do(okay, [r])
    ids = s.call(lab.method(F.WAITER, 'get_id_to_component_type_name'), [s.ref(w)])
    s.do(end, [w, ids])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'building the pipeline panics (%s)' % str(m)[:100], stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


def refused(run, sets, fault):
    """whatever cannot be built is an error, not a pipeline with something missing"""
    lab, e = run.lab, run.e
    s = Scn(e, 'refused ' + fault)
    stubs = Stubs(lab, e)
    conns, comps = {}, []
    for cs, cc in sorted(sets.items()):
        conns[cs] = []
        for kind, nm, hi, ho in cc:
            conns[cs].append(connection(lab, kind, nm, (sym('prio'), sym('brk')) if hi else None, sym('port') if ho else None))
            if (kind, nm) not in comps:
                comps.append((kind, nm))
    launches = {n: dict(command=('a', 1, (sym('cmd:' + n),)), path=NONE, env=hm({}), arg=('q', ())) for k, n in comps if k == 'launch'}
    bufs = [('s', b) for k, b in comps if k == 'buffer']
    regs = {n: (('a', 1, (('a', 0, (sym('low:' + n), sym('high:' + n))),)), seq(bufs)) for k, n in comps if k == 'regulator'}
    if fault != 'monitored twice' and len(regs) > 1:
        regs = {n: v if i == 0 else (NONE, ('q', ())) for i, (n, v) in enumerate(sorted(regs.items()))}
    if fault == 'no such program':
        launches.popitem()
    if fault == 'no command':
        n = list(launches)[-1]
        launches[n] = dict(launches[n], command=NONE)
    if fault in ('output', 'input'):
        m = 'add_' + fault
        bad = lab.variant('connectable::ConnectableAddOutputError', 'UnsupportedPort', lab.port('Err')) if fault == 'output' else lab.variant('connectable::ConnectableAddInputError', 'AlreadyAllocated')
        for k in F.TY:
            h = e.hooks[lab.method(F.TY[k], m)['path']]

            def one(e, st, C, h=h):
                if any(x[0] == 'refused' for x in st.mon[1]):
                    return h(e, st, C)
                s2 = st.fork()
                stubs.put(s2, ('refused', fault))
                return [(st, h(e, st, C)), (s2, ('a', 1, (bad,)))]
            e.hooks[lab.method(F.TY[k], m)['path']] = one
    e.WIDEN = 200
    r = s.call(lab.fn(F.MOD + 'waiter::get_waiter'), [s.val(config(lab, conns, {}, {}, launches, regs))])

    def end(e, st, vs):
        bad = any(x[0] == 'refused' for x in st.mon[1]) or fault not in ('output', 'input')
        ok = e.head(st, vs[0])[1] == 0
        run.count('faulty descriptions' if bad else 'sound descriptions')
        if bad and ok:
            run.fail(st, 'accepted:' + fault, 'a description that cannot be built (%s) is accepted' % fault)
        if not bad and not ok:
            run.fail(st, 'refused', 'a description that is complete is refused')
    s.do(end, [r])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'a description that cannot be built is met with a panic (%s)' % str(m)[:100], stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


CHAINS = {
    'one chain': {'a': [('faucet', 'f', 0, 1), ('launch', 'l', 1, 1), ('drain', 'd', 1, 0)]},
    'every kind': {'a': [('faucet', 'f', 0, 1), ('regulator', 'r', 1, 1), ('launch', 'l', 1, 1), ('buffer', 'b', 1, 1), ('junction', 'j', 1, 1), ('drain', 'd', 1, 0)]},
    'two sets that meet': {'a': [('faucet', 'f', 0, 1), ('junction', 'j', 1, 0)], 'b': [('faucet', 'g', 0, 1), ('junction', 'j', 1, 0)], 'c': [('junction', 'j', 0, 1), ('drain', 'd', 1, 0)]},
    'branches and the same names': {'a': [('faucet', 'x', 0, 1), ('launch', 'x', 1, 1), ('drain', 'x', 1, 0)], 'b': [('launch', 'x', 0, 1), ('drain', 'y', 1, 0)], 'c': [('launch', 'x', 0, 1), ('junction', 'x', 1, 1), ('drain', 'z', 1, 0)]},
    'a loop': {'a': [('faucet', 'f', 0, 1), ('junction', 'j', 1, 1), ('launch', 'l', 1, 1), ('buffer', 'b', 1, 1), ('junction', 'j', 1, 0)], 'b': [('launch', 'l', 0, 1), ('drain', 'd', 1, 0)]},
    'two regulators': {'a': [('faucet', 'f', 0, 1), ('regulator', 'r', 1, 1), ('buffer', 'b', 1, 1), ('buffer', 'c', 1, 1), ('drain', 'd', 1, 0)], 'b': [('faucet', 'g', 0, 1), ('regulator', 's', 1, 1), ('drain', 'e', 1, 0)]},
}


_E = ('regulator', 'launch', 'buffer', 'junction')
CHAINS['a long chain'] = {'a': [('faucet', 'f', 0, 1)] + [(_E[i % 4], 'n%d' % i, 1, 1) for i in range(16)] + [('drain', 'd', 1, 0)]}
CHAINS['many connections of the same two'] = {c: [('launch', 'l', 0, 1), ('junction', 'j', 1, 0)] for c in 'abcde'}
CHAINS['many branches'] = {'a%d' % i: [('faucet', 'f%d' % i, 0, 1), (_E[i % 4], 'm%d' % i, 1, 1), ('junction', 'j', 1, 1), (_E[(i + 1) % 4], 'o%d' % i, 1, 1), ('drain', 'd%d' % (i % 3), 1, 0)] for i in range(9)}
CHAINS['names'] = {n: [('faucet', n, 0, 1), ('launch', n, 1, 1), ('buffer', n, 1, 1), ('drain', n, 1, 0)] for n in ('junction_1', 'dyn_drain_1', '_', 'X', 'a b', '0', 'faucet', 'aa', 'a')}


START = ('faucet', 'launch', 'junction', 'buffer', 'regulator')
MID = ('launch', 'junction', 'buffer', 'regulator')
END = ('drain', 'launch', 'junction', 'buffer')


def _chain(kinds, names):
    n = len(kinds)
    return [(k, names[i], int(i > 0), int(i < n - 1)) for i, k in enumerate(kinds)]


def topologies(tier):
    """chains of up to 2 (thorough 3) components in between; the same name given to all, or a name each; pairs of chains
    that share a component, in both orders of their names"""
    import itertools
    for n in range(3 if tier == 'quick' else 4):
        for a in START:
            for mid in itertools.product(MID, repeat=n):
                for z in END:
                    k = (a,) + mid + (z,)
                    yield 'chain ' + '-'.join(k), {'a': _chain(k, ['n%d' % i for i in range(len(k))])}
                    if n < 2:
                        yield 'one name ' + '-'.join(k), {'a': _chain(k, ['x'] * len(k))}
    for a in START:
        for z in END:
            for m in MID:
                one, two = _chain((a, m), 'am'), _chain((m, z), 'mz')
                yield 'split %s-%s-%s' % (a, m, z), {'a': one, 'b': two}
                yield 'split back %s-%s-%s' % (a, m, z), {'a': two, 'b': one}
                if tier != 'quick':
                    for y in END:
                        yield 'fork %s-%s-%s' % (a, m, z), {'1': _chain((a, m, z), 'amz'), '2': _chain((m, y), 'my')}
                        yield 'three %s-%s-%s' % (a, m, z), {'1': two, '2': one, '3': _chain((a, m, y), 'wmy')}


def jobs_C07(tier):
    J = [(n, build, (c, n)) for n, c in CHAINS.items()]
    T = [(n, build, (c, n)) for n, c in topologies(tier)]
    for i in range(16):
        J.append(('all small pipelines, part %d' % (i + 1), batch, (T[i::16],)))
    for f in ('no such program', 'no command'):
        J.append(('cannot be built: ' + f, refused, (CHAINS['branches and the same names'], f)))
    for f in ('output', 'input'):
        J.append(('cannot be built: ' + f, batch, ([(n, refused, (c, f)) for n, c in CHAINS.items()],)))
    J.append(('cannot be built: two regulators for a buffer', refused, (CHAINS['two regulators'], 'monitored twice')))
    return J


# ------------------------------------------------------------------ C08

def started(lab, e, s, w, on=None):
    """start a waiter whose other components are stood in for"""
    for k in F.TY:
        if k != 'launch':
            e.hooks[lab.method(F.TY[k], 'start')['path'] + '::{closure#0}'] = lambda e, st, C: NotImplemented if C.ups is None else ('a', 0, (('i', 0),))
    return s.await_(lab.method(F.WAITER, 'start'), [s.ref(w), s.val(NONE)])


def flat(e, st, v):
    """the elements of something iterable, or None"""
    v = e.head(st, v)
    if v is None:
        return None
    if v[0] == 'q' and all(x[0] == '1' for x in v[1]):
        return [e.norm(st, N.deep(e, st, x[1])) for x in v[1]]
    if v[0] == 'I' and all(x[0] == '1' for x in v[1]):
        return [e.norm(st, N.deep(e, st, x[1])) for x in v[1]]
    if v[0] == 'h' and v[1] is None:
        return [('a', 0, (e.norm(st, k), e.norm(st, N.deep(e, st, x)))) for k, x in v[2]]
    if v[0] == 'a' and v[1] == 1 and len(v[2]) == 1:
        return flat(e, st, v[2][0])
    if v == NONE:
        return []
    return None


def program(run, progs, name, texts=None):
    """progs: {name: (path given, env entries, arguments)}; texts: what they are, where it matters"""
    lab, e = run.lab, run.e
    s = Scn(e, 'program ' + name)
    cfg, want = {}, {}

    def what(kind, n, i=0):
        return ('s', texts[(i + {'cmd': 1, 'path': 2, 'env': 3, 'arg': 0}[kind]) % len(texts)]) if texts else sym('%s:%s%s' % (kind, n, '' if kind in ('cmd', 'path') else i))
    for n, (path, nenv, narg) in progs.items():
        env = hm({'%s%d' % (n, i): what('env', n, i) for i in range(nenv)})
        arg = seq([what('arg', n, i) for i in range(narg)])
        cfg[n] = dict(command=('a', 1, (what('cmd', n),)), path=('a', 1, (what('path', n),)) if path else NONE, env=env, arg=arg)
        want[what('cmd', n)] = n
    cc = [('faucet', 'f', 0, 1)] + [('launch', n, 1, 1) for n in progs] + [('drain', 'd', 1, 0)]
    conns = [connection(lab, k, n, (('i', 0), lab.breakable('Terminate')) if hi else None, lab.port('Out') if ho else None) for k, n, hi, ho in cc]
    e.WIDEN = 200
    r = s.call(lab.fn(F.MOD + 'waiter::get_waiter'), [s.val(config(lab, {'a': conns}, launch=cfg))])
    w = s.do(F.unwrap, [r])

    def ev(e, st, x):
        if x[0] != 'spawn':
            return
        c = x[1][2]
        n = want.get(c[0])
        run.count('programs started')
        if n is None:
            run.fail(st, 'command', 'a launch runs something else than its configured command')
        if n in st.mon[1]:
            run.fail(st, 'twice', 'a command is run more than once')
        st.mon = ('M', st.mon[1] + (n,))
        path, nenv, narg = progs[n]
        if path and c[3] != what('path', n):
            run.fail(st, 'directory', 'a program is not run in its configured directory')
        if not path and c[3] not in (('s', '<inherit>'), ('t', 'cwd')):
            run.fail(st, 'directory', 'a program without a configured directory is run elsewhere')
        got = []
        for sg in c[1][1]:
            y = sg[-1]
            f = flat(e, st, y)
            got += f if f is not None else [y]
        if got != [what('arg', n, i) for i in range(narg)]:
            run.fail(st, 'arguments', 'a program is not given exactly its configured arguments in order (%s)' % short(got, 200))
        env = {}
        own = True
        for sg in c[2][1]:
            y = sg[-1]
            if y == ('s', '<clear>'):
                env, own = {}, False
                continue
            if holds(e, st, y, lambda v: v == ('t', 'vars_os')):
                own = True
                env = {}          # the inherited values come last and win
                continue
            f = flat(e, st, y)
            if f is None:
                f = [y]
            for z in f:
                if z[0] == 'a' and len(z[2]) == 2:
                    env[z[2][0]] = z[2][1]
                else:
                    raise Undecided('environment ' + short(y))
        if not own:
            run.fail(st, 'inherited', 'a program does not see the environment pipeawesome was started with')
        if env != {('s', '%s%d' % (n, i)): what('env', n, i) for i in range(nenv)}:
            run.fail(st, 'environment', 'a program does not get exactly its configured environment variables (%s)' % short(env, 200))
        if x[2]:
            raise Infeasible()      # what happens once it runs is the subject of C09
    e.on_event = ev
    s.do(lambda e, st, vs: setattr(e, 'WIDEN', 2))
    r = started(lab, e, s, w)

    def end(e, st, vs):
        run.count('runs')
        if len(st.mon[1]) != len(progs):
            run.fail(st, 'not-started', 'a configured program is never started')
    s.do(end, [r])
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


def jobs_C08(tier):
    P = []
    for path in (False, True):
        for nenv in range(3 if tier == 'quick' else 4):
            for narg in range(4 if tier == 'quick' else 5):
                P.append(('%d arguments, %d variables%s' % (narg, nenv, ', a directory' if path else ''), {'p': (path, nenv, narg)}))
    P += [('two programs', {'p': (True, 1, 2), 'q': (False, 2, 1)}), ('two programs, one plain', {'p': (False, 0, 0), 'q': (True, 1, 1)}), ('two programs, the other plain', {'p': (True, 1, 1), 'q': (False, 0, 0)})]
    P.append(('many arguments and variables', {'p': (True, 12, 14)}))
    P.append(('many programs', {n: (i % 2 == 0, i % 3, i % 4) for i, n in enumerate('pqrstuvw')}))
    J = [(n, program, (c, n)) for n, c in P]
    # texts that could be taken for something else, each in every place
    todo = [('text %d' % i, program, ({'p': (True, 4, 8)}, 'text %d' % i, TEXTS[i:] + TEXTS[:i])) for i in range(len(TEXTS))]
    return J + parts(todo, 4, 'texts')


TEXTS = ('', ' ', '.', './', '/', 's', 'a b', '-n', '--', '$HOME', '~', '*', '"q"', "'", '\\', 'a/../b', '..', 'A=B', '=', 'a\nb', '\n', 'UPPER', '0', '\t', ';', '|', '>x', 'a/', '%s', '{}')


# ------------------------------------------------------------------ C13

def failure(lab, n, i):
    """an error value that can be recognised"""
    mk = sym('err:' + n)
    if i % 3 == 2:
        return lab.variant('motion::MotionError', 'LaunchSpawnError', ('a', 1, (mk,)))
    j = lab.struct('motion::PullJourney', src=sym('src'), dst=sym('dst'))
    return lab.variant('motion::MotionError', ('OpenIOError', 'ReadIOError')[i % 3], j, sym('when:' + n), mk)


def all_errors(run, parts, most, only=None):
    """whatever fails is reported by start, once, under its own name; only: these fail, no others"""
    lab, e = run.lab, run.e
    s = Scn(e, 'errors')
    names = [n for _, n in parts]
    w = F.waiter_of(lab, s, parts)

    def on(e, st, k, n):
        run.count('components ended')
        fails = st.mon[1]
        good = ('a', 0, (('i', 0),))
        if len(fails) >= most or (only is not None and n not in only):
            return good
        if only is not None:
            st.mon = ('M', fails + ((k, n),))
            return ('a', 1, (failure(lab, n, names.index(n)),))
        s2 = st.fork()
        s2.mon = ('M', fails + ((k, n),))
        return [(st, good), (s2, ('a', 1, (failure(lab, n, names.index(n)),)))]
    F.hook_starts(lab, e, names, on)
    e.WIDEN = 50
    e.SORT_KEEP = only is not None  # their order is left to others
    r = s.await_(lab.method(F.WAITER, 'start'), [s.ref(w), s.val(NONE)])

    def end(e, st, vs):
        run.count('outcomes')
        v = e.norm(st, N.deep(e, st, vs[0]))
        fails = list(st.mon[1])
        if v[1] == 0:
            if fails:
                run.fail(st, 'swallowed', 'the run is reported as a success although a %s failed' % fails[0][0])
            return
        if not fails:
            run.fail(st, 'made-up', 'the run is reported as failed although no component failed')
        q = e.head(st, v[2][0])
        if q[0] != 'q' or any(x[0] != '1' for x in q[1]):
            raise Undecided('list of errors ' + short(q))
        got = [e.norm(st, N.deep(e, st, x[1])) for x in q[1]]
        for k, n in fails:
            want = lab.variant(MODW + 'WaiterError', 'CausedByError', ctype(lab, k), ('s', n), failure(lab, n, names.index(n)))
            mine = [g for g in got if holds(e, st, g, lambda v: v == sym('err:' + n))]
            run.count('errors compared')
            if not mine and not any(holds(e, st, g, lambda v: v == ('s', n)) for g in got):
                run.fail(st, 'lost', 'the error of a %s is not reported' % k)
            if want not in got:
                same = [g for g in got if holds(e, st, g, lambda v: v == ('s', n))]
                run.fail(st, 'name', 'the error of a %s is reported under another name or kind (%s)' % (k, short((same or mine)[:1], 150)))
            got.remove(want)
        if got:
            run.fail(st, 'repeated', 'an error is reported more than once')
    s.do(end, [r])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'reporting errors panics (%s)' % str(m)[:100], stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


MODW = 'waiter::'


def outcome(run, what):
    """the program's own outcome: every error is printed and the exit status says so"""
    lab, e = run.lab, run.e
    s = Scn(e, 'outcome ' + what)
    RESP = 'UserResponse'
    okv, errv = lambda v: ('a', 0, (v,)), lambda v: ('a', 1, (v,))
    texts, prints = [], []
    n = {'one error': 1, 'two errors': 2, 'three errors': 3, 'forty errors': 40}.get(what, 0)
    resp = None
    if what == 'bad request':
        texts = [('t', 'text', 0)]
        resp = errv(texts[0])
    elif what == 'configuration':
        resp = okv(lab.variant(RESP, 'Config', sym('config')))
    else:
        resp = okv(lab.variant(RESP, 'Process', sym('config')))
    hk = lab.fn('process_user_config_action')['path'], lab.fn('get_user_config_action')['path'], lab.fn('get_clap_app')['path']
    e.hooks[hk[0]] = lambda e, st, C: resp
    e.hooks[hk[1]] = lambda e, st, C: ('t', 'request')
    e.hooks[hk[2]] = lambda e, st, C: ('t', 'app')
    for i in lab.P.insts:
        if i['path'].startswith('clap::') and i['path'].endswith('::get_matches'):
            e.hooks[i['path']] = lambda e, st, C: ('t', 'matches')
    if what == 'cannot be built':
        texts = [('t', 'text', 0)]
        e.hooks[F.MOD + 'waiter::get_waiter'] = lambda e, st, C: errv(texts[0])
    else:
        e.hooks[F.MOD + 'waiter::get_waiter'] = lambda e, st, C: okv(('t', 'waiter'))
    e.hooks[lab.method(F.WAITER, 'get_id_to_component_type_name')['path']] = lambda e, st, C: ('a', 1, (hm({}),))
    if n:
        texts = [('t', 'text', i) for i in range(n)]
    e.hooks[lab.method(F.WAITER, 'start')['path'] + '::{closure#0}'] = lambda e, st, C: NotImplemented if C.ups is None else errv(seq([('t', 'error', i) for i in range(n)])) if n else okv(sym('count'))
    e.hooks[lab.fn(F.MOD + 'bin_support::waiter_error_to_string')['path']] = lambda e, st, C: ('t', 'text', e.norm(st, N.deep(e, st, C.args[0]))[2])
    e.WIDEN = 50

    def end(e, st):
        ev = st.mon[1]
        run.count('outcomes')
        ex = [x for x in ev if x[0] == 'exit']
        pr = [x for x in ev if x[0] == 'eprint']
        if texts:
            for t in texts:
                run.count('messages looked for')
                k = [x for x in pr if holds(e, st, x[1], lambda v: v == t)]
                if not k:
                    run.fail(st, 'not-printed', 'an error is not printed to standard error')
                if len(k) > 1:
                    run.fail(st, 'printed-twice', 'an error is printed more than once')
            if not ex:
                run.fail(st, 'no-exit', 'pipeawesome ends with status 0 although there were errors')
            if ex[0][1] == ('i', 0):
                run.fail(st, 'exit-0', 'pipeawesome exits with status 0 although there were errors')
        elif what == 'configuration' and ex:
            if ex[0][1] == ('i', 0) or not pr:
                run.fail(st, 'silent', 'a configuration that cannot be written out is not an error')
        else:
            if what == 'configuration' and len([x for x in ev if x[0] == 'print']) > 1:
                run.fail(st, 'prints', 'something besides the new configuration is written to standard output')
            if what == 'configuration' and not [x for x in ev if x[0] == 'print' and holds(e, st, x[1], lambda v: v == sym('config'))]:
                run.fail(st, 'not-shown', 'the new configuration is not printed')
            if ex and ex[0][1] != ('i', 0):
                run.fail(st, 'exit-1', 'pipeawesome exits with an error status although nothing failed')
            if pr:
                run.fail(st, 'stderr', 'something is printed to standard error although nothing failed')

    def on(e, st, x):
        if x[0] in ('eprint', 'print', 'exit'):
            st.mon = ('M', st.mon[1] + (x,))
        if x[0] == 'exit':
            end(e, st)
    e.on_event = on
    s.call(lab.fn('main'), [])
    s.do(lambda e, st, vs: end(e, st))
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'the outcome is met with a panic (%s)' % str(m)[:100], stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


def text(run, variant, known):
    """the text of an error names a component and tells what happened"""
    lab, e = run.lab, run.e
    T = lab.adt('motion::MotionError')
    j = {'src': ('i', 1), 'dst': ('i', 2)}
    fs = []
    v = [v for v in T['vs'] if v['n'] == variant][0]

    def mk(ti, name):
        ty = lab.types[ti] if isinstance(ti, int) else {}
        if ty.get('ak') == 'struct' and len(ty['vs'][0]['f']) < 5 and 'src' in str(described(ti)):
            return ('a', 0, tuple(mk(x[1], x[0]) for x in ty['vs'][0]['f']))
        return j.get(name) or sym('field:' + name)

    def described(ti, deep=4):
        ty = lab.types[ti] if isinstance(ti, int) else {}
        return [(x[0], described(x[1], deep - 1)) for x in ty['vs'][0]['f']] if ty.get('ak') == 'struct' and deep and len(ty['vs'][0]['f']) < 5 else ()
    for n, f in enumerate(v['f']):
        fs.append(mk(f[1], str(n)))
    s = Scn(e, 'text of ' + variant)
    err = lab.variant('waiter::WaiterError', 'CausedByError', ctype(lab, 'drain'), sym('name:self'), lab.variant('motion::MotionError', variant, *fs))
    ids = ('h', None, tuple((('i', k), ('a', 0, (ctype(lab, c), sym('name:' + n)))) for k, c, n in [(10 + i, c, 'other%d' % i) for i, c in enumerate(F.KINDS)] + [(1, 'faucet', 'src'), (2, 'drain', 'self')] + [(20 + i, c, 'more%d' % i) for i, c in enumerate(F.KINDS)])) if known else hm({})
    m = s.val(ids)
    r = s.call(lab.fn(F.MOD + 'bin_support::waiter_error_to_string'), [s.val(err), s.ref(m)])

    def end(e, st, vs):
        run.count('texts')
        t = e.norm(st, N.deep(e, st, vs[0]))
        has = lambda n: holds(e, st, t, lambda v: v == sym('name:' + n))
        if not has('self') and not (known and has('src')):
            run.fail(st, 'nameless', 'the text of an error (%s) names no component' % variant)
        if holds(e, st, t, lambda v: v[0] == 'y' and str(v[1]).startswith(('name:other', 'name:more'))):
            run.fail(st, 'wrong-name', 'the text of an error (%s) names a component that has nothing to do with it' % variant)
        lits = []
        holds(e, st, t, lambda v: lits.append(v[1]) if v[0] == 's' else None)
        if v['f'] and not any(variant in x for x in lits) and not holds(e, st, t, lambda v: v[0] == 'y' and 'field:' in str(v)):
            run.fail(st, 'what', 'the text of an error (%s) does not tell what happened' % variant)
    s.do(end, [r])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'the text of an error (%s) panics (%s)' % (variant, str(m)[:100]), stop=False)
    run.explore(s.state())


def texts(run):
    batch(run, [(v['n'], text, (v['n'], k)) for v in run.lab.adt('motion::MotionError')['vs'] for k in (True, False)])


def distinct(run):
    """failures that are no component's own have texts of their own"""
    lab, e = run.lab, run.e
    s = Scn(e, 'texts of other failures')
    got = {}
    vs = [('CouldNotPause', ()), ('CouldNotResume', ()), ('SettingsForMissingRegulator', (sym('name:r'),)), ('SettingsRefersMissingBuffer', (sym('name:r'), sym('name:b')))]
    m = s.val(hm({}))
    for n, a in vs:
        r = s.call(lab.fn(F.MOD + 'bin_support::waiter_error_to_string'), [s.val(lab.variant('waiter::WaiterError', n, *a)), s.ref(m)])

        def end(e, st, v, n=n, a=a):
            run.count('texts')
            t = e.norm(st, N.deep(e, st, v[0]))
            for x in a:
                if not holds(e, st, t, lambda v: v == x):
                    run.fail(st, 'nameless:' + n, 'the text of %s does not name what is concerned' % n)
            if t in got.values():
                run.fail(st, 'same:' + n, 'the text of %s is that of %s' % (n, [k for k in got if got[k] == t][0]))
            got[n] = t
        s.do(end, [r])
    run.explore(s.state())


def jobs_C13(tier):
    P = [('one of each kind', [(k, k[0] + '0') for k in F.KINDS], 2 if tier == 'quick' else 3)]
    for k in F.KINDS:
        P.append(('two of the kind ' + k, [(k, 'x'), (k, 'y')], 3))
    P.append(('three launches', [('launch', 'x'), ('launch', 'y'), ('launch', 'z')], 3))
    P.append(('one name', [('faucet', 'x'), ('drain', 'y'), ('launch', 'z')], 3))
    J = [(n, all_errors, (c, m)) for n, c, m in P]
    lots = [(k, '%s%d' % (k[0], i)) for i in range(7) for k in F.KINDS]
    J.append(('many components that all fail', all_errors, (lots, 99, tuple(n for _, n in lots))))
    J.append(('many components of which some fail', all_errors, (lots, 99, tuple(n for i, (_, n) in enumerate(lots) if i % 3))))
    J.append(('texts of component failures', texts, ()))
    J.append(('texts of other failures', distinct, ()))
    for w in ('nothing wrong', 'one error', 'two errors', 'three errors', 'forty errors', 'cannot be built', 'bad request', 'configuration'):
        J.append(('outcome: ' + w, outcome, (w,)))
    return J


# ------------------------------------------------------------------ C16

FORMAT = 'config_io::ConfigFormat'


def base(lab):
    return lab.struct('UserConfigOptionBase', id=sym('id'), config_in=sym('file'), config_format=sym('format'))


EDITS = {   # request -> (section, settings changed)
    'FaucetSrc': ('faucet', dict(src='source')),
    'DrainDst': ('drain', dict(dst='destination')),
    'LaunchCommand': ('launch', dict(command='command')),
    'LaunchPath': ('launch', dict(path='path')),
    'LaunchArgs': ('launch', dict(args='arg')),
    'LaunchEnv': ('launch', dict(env='env')),
    'RegulatorWatermark': ('regulator', dict(min='buffered', max='buffered')),
    'ConnectionJoin': ('connection', dict(join=None)),
}


CONFIGS = {'faucet': 'config::FaucetConfig', 'drain': 'config::DrainConfig', 'launch': 'config::LaunchConfig', 'regulator': 'config::RegulatorConfig'}
EMPTY = {'command': NONE, 'path': NONE, 'env': hm({}), 'arg': ('q', ()), 'monitored_buffers': ('q', ()), 'buffered': NONE}


def unreadable(e, lab, cfg):
    """reading the description: it is there, or there is an error"""
    def h(e, st, C):
        s2 = st.fork()
        s2.mon = ('M', s2.mon[1] + ('unreadable',))
        return [(st, ('a', 0, (cfg,))), (s2, ('a', 1, (sym('unreadable'),)))]
    e.hooks[lab.fn(F.MOD + 'config_io::read_config')['path']] = h


def same_map(e, st, a, b):
    a, b = e.head(st, a), e.head(st, b)
    if a == b:
        return True
    if a is None or b is None or a[0] != 'h' or b[0] != 'h' or a[1] != b[1]:
        return False
    n = lambda m: sorted(((e.norm(st, k), e.norm(st, N.deep(e, st, v))) for k, v in m[2]), key=repr)
    return n(a) == n(b)


def edit(run, req, there):
    """a request changes what it names and nothing else"""
    lab, e = run.lab, run.e
    s = Scn(e, 'edit ' + req)
    section, kw = EDITS[req]
    ident = ('s', 'id')
    b = lab.struct('UserConfigOptionBase', id=ident, config_in=sym('file'), config_format=sym('format'))
    args = {k: sym(k) for k in kw}
    r = vstruct(lab, 'UserRequest', req, base_options=b, **args)
    old = {'faucet': sym('faucets'), 'drain': sym('drains'), 'launch': sym('launches'), 'regulator': sym('regulators'), 'connection': sym('connections')}
    if section == 'connection':
        was = {None: sym('was')}
        wasv = was[None]
    else:
        names = [f[0] for f in lab.adt(CONFIGS[section])['vs'][0]['f']]
        was = {n: sym('was:' + n) for n in names}
        wasv = lab.struct(CONFIGS[section], **was)
    ent = ((('s', 'aa'), sym('aa')), (ident, wasv), (('s', 'zz'), sym('zz'))) if there else ((('s', 'aa'), sym('aa')), (('s', 'zz'), sym('zz')))
    old[section] = ('h', None, ent)
    cfg = lab.struct('config::Config', **old)
    unreadable(e, lab, cfg)

    def grammar(e, st, C):
        s2 = st.fork()
        st.mon = ('M', st.mon[1] + ('joined',))
        return [(st, ('a', 0, (sym('parsed'),))), (s2, ('a', 1, (sym('parse error'),)))]
    e.hooks[lab.fn(F.MOD + 'config::load_connection_from_string')['path']] = grammar

    def on(e, st, x):
        if x[0] == 'print':
            run.fail(st, 'prints', 'something besides the new configuration is written to standard output')
        if x[0] == 'deserialize' and x[3]:
            st.mon = ('M', st.mon[1] + ('read',))
    e.on_event = on
    v = s.call(lab.fn('process_user_config_action'), [s.val(('a', 0, (r,)))])

    def end(e, st, vs):
        run.count('requests followed')
        res = e.head(st, vs[0])
        bad = 'unreadable' in st.mon[1] or req == 'ConnectionJoin' and not ({'joined', 'read'} & set(st.mon[1]))
        if res[1] == 1:
            if not bad:
                run.fail(st, 'refused', 'a change is refused although the configuration and the new value can be read')
            return
        if bad:
            run.fail(st, 'accepted', 'what could not be read is not an error')
        rv = e.head(st, res[2][0])
        if lab.vname('UserResponse', rv) != 'Config':
            run.fail(st, 'response', 'the changed configuration is not what is answered')
        c = e.head(st, rv[2][0])
        for f in lab.adt('config::Config')['vs'][0]['f']:
            i = lab.field('config::Config', f[0])
            new = c[2][i] if c[0] == 'a' else None
            if f[0] != section:
                run.count('other sections compared')
                if not same_map(e, st, new, old[f[0]]):
                    run.fail(st, 'other-section', 'the section %s is changed too' % f[0])
                continue
            m = e.head(st, new)
            ents = {e.norm(st, k): e.norm(st, N.deep(e, st, x)) for k, x in m[2]}
            for k in ('aa', 'zz'):
                run.count('other entries compared')
                if ents.pop(('s', k), None) != sym(k):
                    run.fail(st, 'other-entry', 'an entry that was not named is changed too')
            now = ents.pop(ident, None)
            if ents:
                run.fail(st, 'new-entry', 'an entry that was not named is added')
            if now is None:
                run.fail(st, 'removed', 'the entry to be changed is removed')
            if section == 'connection':
                want = lab.variant('config::DeserializedConnection', 'JoinString', sym('join'))
                if 'joined' in st.mon[1] and now != want:
                    run.fail(st, 'value', 'the connection is not the one given (%s)' % short(now))
                if 'joined' not in st.mon[1] and not holds(e, st, now, lambda v: v[0] == 'y' and "::from_str', %r" % (sym('join'),) in repr(v)):
                    run.fail(st, 'value', 'the connection is not the one given (%s)' % short(now))
                continue
            if now[0] != 'a':
                run.fail(st, 'value', 'the setting named is not changed')
            for n in was:
                x = e.norm(st, N.deep(e, st, now[2][lab.field(CONFIGS[section], n)]))
                if n in kw.values():
                    run.count('settings compared')
                    a = [args[k] for k in kw]
                    if n == 'command' or n == 'path':
                        ok = x == ('a', 1, (a[0],))
                    elif n == 'buffered':
                        low, high = sym('min'), sym('max')
                        lt = lambda p, q: st.facts.get(('t', 'lt', p, q))
                        if lt(low, high) is False and lt(high, low) is False:
                            ok = x[0] == 'a' and x[1] == 1 and x[2][0][0] == 'a' and all(y in (low, high) for y in x[2][0][2])
                        else:
                            ok = x == ('a', 1, (('a', 0, (low, high)),)) and lt(high, low) is not True or x == ('a', 1, (('a', 0, (high, low)),)) and lt(low, high) is not False and lt(high, low) is not False
                    else:
                        ok = x == a[0]
                    if not ok:
                        run.fail(st, 'value', 'the setting %s does not get the value given (%s)' % (n, short(x)))
                else:
                    run.count('other settings compared')
                    if x != (was[n] if there else EMPTY[n]):
                        run.fail(st, 'other-setting', 'the setting %s, which was not named, is changed too' % n)
    s.do(end, [v])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'a change panics (%s)' % str(m)[:100], stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


def jobs_C16(tier):
    return [('%s, %s' % (k, 'changed' if t else 'new'), edit, (k, t)) for k in EDITS for t in (True, False)] + [('the answer', outcome, ('configuration',))]


# ------------------------------------------------------------------ C14, C15

NEEDS = ('faucet', 'drain', 'launch', 'regulator')


def describe(lab, conf, flow, mon=(), bad=()):
    """a description: conf: names configured {(kind, name)}; flow: {set: [(kind, name, in, out)]} where a set may be
    ('join', ...) to be given as text; mon: {(regulator, buffer)}; bad: sets whose text cannot be parsed
    -> (config, {text: connections})"""
    conns, texts = {}, {}
    for cs, cc in flow.items():
        asjoin = cc and cc[0] == 'join'
        vs = [connection(lab, k, n, (('i', 0), lab.breakable('Terminate')) if hi else None, lab.port('Out') if ho else None) for k, n, hi, ho in (cc[1:] if asjoin else cc)]
        if asjoin:
            texts['text of ' + cs] = vs
            conns[cs] = lab.variant('config::DeserializedConnection', 'JoinString', ('s', 'text of ' + cs))
        else:
            conns[cs] = lab.variant('config::DeserializedConnection', 'Connections', seq(vs))
    for cs in bad:
        conns[cs] = lab.variant('config::DeserializedConnection', 'JoinString', ('s', 'bad text of ' + cs))
    mk = dict(faucet=lambda n: lab.struct('config::FaucetConfig', source=sym('src:' + n)),
              drain=lambda n: lab.struct('config::DrainConfig', destination=sym('dst:' + n)),
              launch=lambda n: lab.struct('config::LaunchConfig', command=('a', 1, (sym('cmd:' + n),)), path=NONE, env=hm({}), arg=('q', ())),
              regulator=lambda n: lab.struct('config::RegulatorConfig', buffered=('a', 1, (('a', 0, (sym('low:' + n), sym('high:' + n))),)), monitored_buffers=seq([('s', b) for r, b in mon if r == n])))
    c = lab.struct('config::Config', connection=hm(dict(sorted(conns.items()))), **{k: hm({n: mk[k](n) for kk, n in conf if kk == k}) for k in NEEDS})
    return c, texts


def faults(conf, flow, mon, bad):
    """what is wrong with a description"""
    if bad:
        return {('InvalidConnection', None, b) for b in bad}
    comps = {(x[0], x[1]) for cc in flow.values() for x in (cc[1:] if cc and cc[0] == 'join' else cc)}
    out = {('InConfigButMissingFlowConnection', k, n) for k, n in conf if (k, n) not in comps}
    out |= {('InFlowConnectionButMissingConfig', k, n) for k, n in comps if k in NEEDS and (k, n) not in conf}
    out |= {('RegulatorWatchingMissingBuffer', 'buffer', b) for r, b in mon if ('buffer', b) not in comps}
    return out


def grammar_of(lab, e, texts):
    def h(e, st, C):
        t = e.norm(st, e.derefv(st, C.args[0]))
        if t[0] == 's' and t[1] in texts:
            return ('a', 0, (seq(texts[t[1]]),))
        return ('a', 1, (sym('parse error'),))
    e.hooks[lab.fn(F.MOD + 'config::load_connection_from_string')['path']] = h


WARN = 'config::ConfigLintWarning'


def warnings(lab, e, st, v):
    """a set of warnings -> {(variant, kind, name)}"""
    v = e.head(st, v)
    if v[0] == 'h' and v[1] is None:
        xs = [k for k, _ in v[2]]
    elif v[0] == 'q' and all(x[0] == '1' for x in v[1]):
        xs = [x[1] for x in v[1]]
    else:
        raise Undecided('set of warnings ' + short(v))
    out = []
    kinds = {ctype(lab, k): k for k in TYPES}
    for x in xs:
        x = e.norm(st, N.deep(e, st, x))
        V = lab.adt(WARN)['vs'][x[1]]
        f = {n[0]: x[2][i] for i, n in enumerate(V['f'])}
        if V['n'] == 'InvalidConnection':
            out.append((V['n'], None, f['id'][1]))
        else:
            out.append((V['n'], kinds[f['component_type']], f['component_name'][1]))
    return out


def lint(run, conf, flow, mon=(), bad=()):
    lab, e = run.lab, run.e
    s = Scn(e, 'lint')
    c, texts = describe(lab, conf, flow, mon, bad)
    grammar_of(lab, e, texts)
    e.WIDEN = 200
    w = s.val(c)
    r = s.call(lab.fn(F.MOD + 'config::Config::lint'), [s.ref(w)])
    want = faults(conf, flow, mon, bad)

    def end(e, st, vs):
        got = warnings(lab, e, st, vs[0])
        run.count('descriptions judged')
        run.count('faults expected', len(want))
        for x in want - set(got):
            run.fail(st, 'missed:' + x[0], 'a fault is not found: %s of a %s' % (x[0], x[1] or 'connection'))
        for x in set(got) - want:
            run.fail(st, 'made-up:' + x[0], 'a fault is reported that is not there: %s of a %s' % (x[0], x[1] or 'connection'))
    s.do(end, [r])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'looking for faults panics (%s)' % str(m)[:100], stop=False)
    run.explore(s.state())


def role(kind, i):
    """somewhere a component of that kind can stand"""
    return {'faucet': (0, 1), 'drain': (1, 0)}.get(kind) or ((0, 1), (1, 1), (1, 0))[i % 3]


def descriptions(tier):
    """every combination of: configured / in the connections / both / neither, for the four kinds that need configuration;
    monitored buffers that exist or not; names used for several kinds; connections given as text"""
    import itertools
    n = 0
    for combo in itertools.product(range(4), repeat=4):
        conf = [(k, 'x') for k, c in zip(NEEDS, combo) if c & 1]
        flow = {'c%d' % i: [(k, 'x') + role(k, n + i)] for i, (k, c) in enumerate(zip(NEEDS, combo)) if c & 2}
        if n % 4 == 1:
            flow = {cs: ['join'] + cc for cs, cc in flow.items()}
        mon = []
        if ('regulator', 'x') in conf:
            q = n // 4
            mon = [[], [('x', 'b')], [('x', 'b'), ('x', 'c')]][q % 3]
            if q % 2:
                flow['bb'] = [('buffer', 'b', 1, 1)]
            else:
                flow['bb'] = [('junction', 'b', 1, 1), ('buffer', 'other', 1, 1)]
            if q % 5 == 4:
                mon = mon[::-1]
        n += 1
        yield conf, flow, mon, ()
    # several components of a kind, names that belong to another kind
    for k in NEEDS:
        for k2 in NEEDS:
            yield [(k, 'x'), (k, 'y')], {'a': [(k2, 'x') + role(k2, 0), (k2, 'y') + role(k2, 1)], 'b': [(k, 'y') + role(k, 2)]}, (), ()
            yield [(k, 'x')], {'a': [(k, 'y') + role(k, 0)], 'b': ['join', (k2, 'x') + role(k2, 1)]}, (), ()
            yield [(k, 'y'), (k, 'x'), (k, 'z'), (k2, 'w')], {'a': [(k2, 'x') + role(k2, 0), (k, 'y') + role(k, 1)]}, (), ()
        for a in range(3):
            yield [(k, 'x')], {'a': [('junction', 'x', 1, 1), (k, 'x') + role(k, a), ('buffer', 'x', 1, 1)]}, (), ()
            yield [], {'a': [('faucet', 'f', 0, 1), (k, 'x') + role(k, a)]}, (), ()
    yield [('faucet', 'x')], {'a': [('faucet', 'x', 0, 1)]}, (), ('bad',)
    yield [('faucet', 'x')], {'a': ['join', ('faucet', 'x', 0, 1)]}, (), ('bad', 'worse')
    yield [], {}, (), ('bad',)
    yield [], {}, (), ()
    yield [('regulator', 'x'), ('regulator', 'y')], {'a': [('regulator', 'x', 1, 1), ('regulator', 'y', 1, 1), ('buffer', 'b', 1, 1)]}, [('x', 'b'), ('y', 'c')], ()


AWKWARD = ('junction_1', 'dyn_drain_1', 'dyn_connection_1', '_', 'X', 'x y', 'a.b', '0', 'launch', 'd', 'stdin', 'aa', 'a')


def many():
    """many of everything, with one of them different; names that could be mistaken for something"""
    for k in NEEDS:
        for odd in (None, 0, 4, 8):
            ns = ['n%d' % i for i in range(9)]
            on = ns if odd is None else [n for i, n in enumerate(ns) if i != odd]
            yield [(k, n) for n in ns], {'a': [(k, n) + role(k, 0) for n in on]} if odd is not None else {}, (), ()
            yield [(k, n) for n in on] if odd is not None else [], {'s' + n: [(k, n) + role(k, i)] for i, n in enumerate(ns)}, (), ()
        yield [(k, n) for n in AWKWARD], {}, (), ()
        yield [], {'c' + n: ['join', (k, n) + role(k, 0)] for n in AWKWARD}, (), ()
        yield [(k, n) for n in AWKWARD], {'c' + n: ['join', (k, n) + role(k, 0)] for n in AWKWARD}, (), ()
        yield [(k, n) for n in AWKWARD[1::2]], {'c' + n: ['join', (k, n) + role(k, 0)] for n in AWKWARD[::2]}, (), ()
    bs = ['b%d' % i for i in range(9)]
    for odd in (None, 0, 4, 8):
        on = [n for i, n in enumerate(bs) if (i == odd) != (odd == 4)] if odd is not None else []
        f = {'r': [('regulator', 'r', 1, 1), ('regulator', 's', 1, 1), ('regulator', 't', 1, 1)]}
        f.update({'x' + n: [('buffer', n, 1, 1)] for n in on})
        yield [('regulator', 'r'), ('regulator', 's'), ('regulator', 't')], f, [('r', b) for b in bs], ()
        yield [('regulator', 'r'), ('regulator', 's'), ('regulator', 't')], f, [(r, b) for r, b in zip('rstrstrst', bs)], ()
    yield [('regulator', 'r')], {'r': [('regulator', 'r', 1, 1)]}, [('r', b) for b in AWKWARD], ()
    yield [('regulator', 'r')], {'r': [('regulator', 'r', 1, 1)] + [(('junction', 'launch', 'faucet', 'drain')[i % 4], b, 1, 1) for i, b in enumerate(AWKWARD)]}, [('r', b) for b in AWKWARD], ()
    yield [], {'a': [('faucet', 'x', 0, 1)]}, (), tuple('bad%d' % i for i in range(9))
    yield [], {}, (), AWKWARD
    yield [(k, 'y%d' % i) for k in NEEDS for i in range(4)], {'c%d' % i: [(k, 'x%d' % i) + role(k, i)] for i, k in enumerate(NEEDS * 4)}, (), ()


def parts(todo, n, what):
    return [('%s, part %d' % (what, i + 1), batch, (todo[i::n],)) for i in range(n) if todo[i::n]]


def jobs_C15(tier):
    return parts([('description %d' % i, lint, d) for i, d in enumerate(list(descriptions(tier)) + list(many()))], 16, 'descriptions')


def unchained(flow):
    """sets that do not lead from a start to an end"""
    out = []
    for cs, cc in flow.items():
        cc = cc[1:] if cc and cc[0] == 'join' else cc
        if len(cc) == 1 or any(not hi for k, n, hi, ho in cc[1:]) or any(not ho for k, n, hi, ho in cc[:-1]):
            out.append(cs)
    return out


def chained(d):
    """the same description with every set cut where it does not lead on, and each piece led from a junction and to one where it would dangle"""
    conf, flow, mon, bad = d
    f = {}
    for cs, cc in flow.items():
        j = ['join'] if cc and cc[0] == 'join' else []
        pieces = []
        for x in cc[len(j):]:
            if not pieces or not x[2] or not pieces[-1][-1][3]:
                pieces.append([])
            pieces[-1].append(x)
        for i, p in enumerate(pieces):
            if p[0][2] or len(p) == 1 and p[0][3] is p[0][2]:
                p = [('junction', 'starts', 0, 1)] + p
            if p[-1][3] or len(p) == 1:
                p = p + [('junction', 'ends', 1, 0)]
            p = [(k, n, int(n2 > 0), int(n2 < len(p) - 1)) for n2, (k, n, hi, ho) in enumerate(p)]
            f[cs if len(pieces) == 1 else '%s%d' % (cs, i)] = j + p
    return conf, f, mon, bad


def gate(run, req, conf, flow, mon=(), bad=()):
    """a request on a description with faults is refused with all of them; without, it is answered"""
    lab, e = run.lab, run.e
    s = Scn(e, 'gate ' + req)
    c, texts = describe(lab, conf, flow, mon, bad)
    grammar_of(lab, e, texts)
    e.WIDEN = 200
    unreadable(e, lab, c)
    kw = dict(config_in=sym('file'), config_format=sym('format'))
    if req == 'Graph':
        kw['mode'] = sym('mode')
    v = s.call(lab.fn('process_user_config_action'), [s.val(('a', 0, (vstruct(lab, 'UserRequest', req, **kw),)))])
    want = faults(conf, flow, mon, bad)
    if not bad and req in ('Process', 'Manipulate') and unchained(flow):
        want = {('NotAChain', None, cs) for cs in unchained(flow)}
    if req in ('Process', 'Graph'):
        want = {x for x in want if x[0] != 'InConfigButMissingFlowConnection'}
    if req == 'Manipulate':
        want = {x for x in want if x[0] in ('InvalidConnection', 'NotAChain')}
    wantresp = {'ConfigLintShow': 'Config', 'Manipulate': 'Config'}.get(req, req)

    def on(e, st, x):
        if x[0] == 'print':
            run.fail(st, 'prints', 'something besides the answer is written to standard output')
    e.on_event = on

    def end(e, st, vs):
        run.count('requests followed')
        res = e.head(st, vs[0])
        if 'unreadable' in st.mon[1]:
            if res[1] == 0:
                run.fail(st, 'unreadable', 'a description that cannot be read is not an error')
            if not holds(e, st, res[2][0], lambda v: v == sym('unreadable')):
                run.fail(st, 'unreadable', 'the reason why a description cannot be read is not passed on')
            return
        if res[1] == 0:
            if want:
                run.fail(st, 'accepted:' + req, 'a description with a fault (%s of a %s) is accepted' % sorted(want, key=repr)[0][:2])
            rv = e.head(st, res[2][0])
            if lab.vname('UserResponse', rv) != wantresp:
                run.fail(st, 'response', 'a request is answered as another one')
            for ds in conns_of(lab, e, st, rv):
                run.count('connection sets of the answer')
                if lab.vname('config::DeserializedConnection', ds) != 'Connections':
                    run.fail(st, 'text', 'a connection given as text is still text when it is to be used')
            return
        if not want:
            run.fail(st, 'refused:' + req, 'a description without such faults is refused')
        lits = []
        t = e.norm(st, N.deep(e, st, res[2][0]))
        holds(e, st, t, lambda v: lits.append(v[1]) if v[0] == 's' else None)
        text = ' '.join(lits)
        kinds = set()
        holds(e, st, t, lambda v: kinds.add(v))
        for x in want:
            run.count('faults looked for in the message')
            if x[2] not in text:
                run.fail(st, 'silent:' + x[0], 'a description is refused without naming the fault')
    s.do(end, [v])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'a description is met with a panic (%s)' % str(m)[:100], stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


def conns_of(lab, e, st, v):
    """the connection sets of the configuration inside an answer"""
    C = lab.field('config::Config', 'connection')
    n = len(lab.adt('config::Config')['vs'][0]['f'])
    v = e.head(st, v)
    for x in v[2]:
        x = e.head(st, x)
        if x is not None and x[0] == 'a' and x[1] == 0 and len(x[2]) == 2:
            x = e.head(st, x[2][0])
        if x is not None and x[0] == 'a' and len(x[2]) == n:
            m = e.head(st, x[2][C])
            if m[0] == 'h':
                return [e.head(st, d) for _, d in m[2]]
    return []


def told_apart(d):
    """the same description with names that occur in no other text"""
    conf, flow, mon, bad = d
    q = lambda n: 'zq%s9' % n
    return ([(k, q(n)) for k, n in conf], {q(cs): [x if x == 'join' else (x[0], q(x[1])) + x[2:] for x in cc] for cs, cc in flow.items()},
            [(q(r), q(b)) for r, b in mon], tuple(q(b) for b in bad))


def jobs_C14(tier):
    D = [('description %d' % i, d) for i, d in enumerate(descriptions(tier))]
    D = [(n, told_apart(d)) for n, d in D[::7] + [(n + ' in chains', chained(d)) for n, d in D]]
    L = [('many %d' % i, told_apart(d)) for i, d in enumerate(many())]
    D += [x for n, d in L for x in ((n, d), (n + ' in chains', chained(d)))]
    # a name that the rewriting would choose itself does not hide a fault
    D += [('taken name %s' % k, ([('faucet', 'f'), ('launch', 'l')], {'a': [('faucet', 'f', 0, 1), ('launch', 'l', 1, 1), (k, k2, 1, 0)]}, (), ())) for k, k2 in (('drain', 'dyn_drain_1'), ('launch', 'junction_1'))]
    J = []
    for r in ('Process', 'Graph', 'ConfigLintShow', 'Manipulate'):
        todo = [(n + ' ' + r, gate, (r,) + d) for i, (n, d) in enumerate(D) if tier != 'quick' or r == 'Process' or i % 5 == 2 or i > 300]
        J += parts(todo, 8 if r == 'Process' else 2, r)
    return J


# ------------------------------------------------------------------ C26

def edges_of(lab, e, st, cfg):
    """the adjacent pairs of every connection set: [(from, port, to, priority, way of closing)]; sets that are no sequence: None"""
    out = []
    C = lab.adt('config::Connection')
    kinds = {ctype(lab, k): k for k in TYPES}
    for ds in cfg:
        if lab.vname('config::DeserializedConnection', ds) != 'Connections':
            return None
        cs = [e.norm(st, N.deep(e, st, x[1])) for x in e.head(st, ds[2][0])[1]]
        last = None
        for i, c in enumerate(cs):
            V = C['vs'][c[1]]
            f = {n[0]: c[2][k] for k, n in enumerate(V['f'])}
            me = (kinds[f['component_type']], f['component_name'][1])
            if (last is not None) != ('input_port' in f):
                return None
            if last is not None:
                p = f['input_port']
                out.append((last[0], last[1], me, p[2][lab.field('connectable::InputPort', 'priority')], p[2][lab.field('connectable::InputPort', 'breakable')]))
            last = (me, lab.vname('connectable::OutputPort', f['output_port'])) if 'output_port' in f else None
        if last is not None:
            return None
    return out


def rewritten(run, req, flow, mon=()):
    """rewriting a description keeps what it connects"""
    lab, e = run.lab, run.e
    s = Scn(e, 'rewriting')
    conns, want, comps = {}, [], []
    i = 0
    for cs, cc in flow.items():
        vs, last = [], None
        for k, n, hi, port in cc:
            prio, brk = sym('prio%d' % i), sym('brk%d' % i)
            i += 1
            vs.append(connection(lab, k, n, (prio, brk) if hi else None, lab.port(port) if port else None))
            if last:
                want.append((last[0], last[1], (k, n), prio, brk))
            last = ((k, n), port) if port else None
            if (k, n) not in comps:
                comps.append((k, n))
        conns[cs] = lab.variant('config::DeserializedConnection', 'Connections', seq(vs))
    mk = dict(faucet=lambda n: lab.struct('config::FaucetConfig', source=sym('src:' + n)),
              drain=lambda n: lab.struct('config::DrainConfig', destination=sym('dst:' + n)),
              launch=lambda n: lab.struct('config::LaunchConfig', command=('a', 1, (sym('cmd:' + n),)), path=NONE, env=hm({}), arg=('q', ())),
              regulator=lambda n: lab.struct('config::RegulatorConfig', buffered=('a', 1, (('a', 0, (sym('low:' + n), sym('high:' + n))),)), monitored_buffers=('q', ())))
    old = {k: {n: mk[k](n) for kk, n in comps if kk == k} for k in NEEDS}
    c = lab.struct('config::Config', connection=hm(dict(sorted(conns.items()))), **{k: hm(old[k]) for k in NEEDS})
    e.WIDEN = 200
    unreadable(e, lab, c)
    v = s.call(lab.fn('process_user_config_action'), [s.val(('a', 0, (vstruct(lab, 'UserRequest', req, config_in=sym('file'), config_format=sym('format')),)))])

    def end(e, st, vs):
        res = e.head(st, vs[0])
        if 'unreadable' in st.mon[1]:
            return
        run.count('descriptions rewritten')
        if res[1] != 0:
            run.fail(st, 'refused', 'a description without faults is refused')
        rv = e.head(st, res[2][0])
        got = edges_of(lab, e, st, conns_of(lab, e, st, rv))
        if got is None:
            run.fail(st, 'form', 'a set of the result does not lead from a start to an end')
        cfg = e.head(st, rv[2][0])
        for k in NEEDS:
            m = e.norm(st, N.deep(e, st, cfg[2][lab.field('config::Config', k)]))
            ents = {kk[1]: x for kk, x in m[2]}
            run.count('settings compared')
            for n, x in old[k].items():
                if ents.pop(n, None) != e.norm(st, x):
                    run.fail(st, 'setting', 'the configuration of a %s is not kept' % k)
            if k != 'drain' and ents:
                run.fail(st, 'new-setting', 'a %s is configured that the description does not have' % k)
            newdrains = ents
        added = set()
        uses, users = {}, {}
        for g in got:
            uses.setdefault((g[0], g[1]), []).append(g)
            users.setdefault(g[2], []).append(g)
            for x in (g[0], g[2]):
                if x not in comps:
                    added.add(x)
        # what was added: junctions, and a drain for the exit status of every launch that connects it nowhere
        spied = []
        for a in sorted(added):
            if a[0] == 'drain':
                u = users.get(a, [])
                run.count('exit statuses followed')
                if len(u) != 1 or u[0][0][0] != 'launch' or u[0][1] != 'Exit':
                    run.fail(st, 'added-drain', 'a drain is added that does not take the exit status of a launch')
                x = [y for n, y in old['drain'].items() if n == a[1]]
                d = [kk for kk in e.norm(st, N.deep(e, st, cfg[2][lab.field('config::Config', 'drain')]))[2] if kk[0][1] == a[1]]
                if not d or d[0][1] != lab.struct('config::DrainConfig', destination=('s', '/dev/null')):
                    run.fail(st, 'added-drain-place', 'what takes exit statuses nobody asked for does not throw them away')
                spied.append(u[0])
            elif a[0] != 'junction':
                run.fail(st, 'added', 'a %s is added that the description does not have' % a[0])
        got = [g for g in got if g not in spied]
        if req == 'Process':
            need = [c for c in comps if c[0] == 'launch' and not any(w[0] == c and w[1] == 'Exit' for w in want)]
            if sorted(need) != sorted(g[0] for g in spied):
                run.fail(st, 'exit', 'the exit statuses that are taken are not those of the launches that connect theirs nowhere')
        elif added:
            run.fail(st, 'added', 'a component is added that the description does not have')
        # every way from a described component over added ones to the next described one
        routes = []

        def walk(path):
            g = path[-1]
            if g[2] not in added:
                routes.append(tuple(path))
                return
            if len(path) > 6:
                run.fail(st, 'round', 'added junctions lead back to themselves')
            nxt = [h for h in range(len(got)) if got[h][0] == g[2]]
            if not nxt:
                run.fail(st, 'nowhere', 'an added junction leads nowhere')
            for h in nxt:
                walk(path + [got[h] + (h,)])
        for h, g in enumerate(got):
            if g[0] not in added:
                walk([g + (h,)])
        n = {}
        for r in routes:
            for g in r:
                n[g[5]] = n.get(g[5], 0) + 1
        if any(h not in n for h in range(len(got))):
            run.fail(st, 'unfed', 'an added junction is fed by nothing')
        left = list(want)
        for r in routes:
            run.count('connections followed')
            hit = [w for w in left if w[0] == r[0][0] and w[1] == r[0][1] and w[2] == r[-1][2]]
            if not hit:
                run.fail(st, 'new-way', 'data from the %s of a %s reaches a %s, which is not described' % (r[0][1], r[0][0][0], r[-1][2][0]))
            own = [w for w in hit if any(g[3:5] == w[3:5] and n[g[5]] == 1 for g in r)]
            if not own:
                run.fail(st, 'lost-order', 'the priority and the way of closing of a connection are not kept where its data meets other data')
            left.remove(own[0])
            for g in r:
                if n[g[5]] > 1 and g[4] != lab.breakable('Finish'):
                    run.fail(st, 'added-brk', 'a connection that several described ones share does not finish quietly when it is closed')
        if left:
            run.fail(st, 'lost-way', 'data from the %s of a %s does not reach the %s it is connected to' % (left[0][1], left[0][0][0], left[0][2][0]))
        if req == 'Process':
            run.count('ports looked at', len(uses) + len(users))
            for (c, p), g in uses.items():
                if len(g) > 1 and c[0] != 'junction':
                    run.fail(st, 'port-twice', 'the %s of a %s is connected twice' % (p, c[0]))
            for c, g in users.items():
                if len(g) > 1 and c[0] != 'junction':
                    run.fail(st, 'input-twice', 'the input of a %s is connected twice' % c[0])
    s.do(end, [v])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'rewriting panics (%s)' % str(m)[:100], stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


def flows_to_rewrite(tier):
    import itertools
    src = [('faucet', 'f', 'Out'), ('launch', 'l', 'Out'), ('launch', 'l', 'Err'), ('launch', 'l', 'Exit'), ('junction', 'j', 'Out'), ('buffer', 'b', 'Out'), ('regulator', 'r', 'Out')]
    dst = [('drain', 'd'), ('launch', 'l'), ('launch', 'm'), ('junction', 'j'), ('junction', 'k'), ('buffer', 'b'), ('regulator', 'r')]
    mk = lambda x, y: [(x[0], x[1], 0, x[2]), (y[0], y[1], 1, None)]
    E = [mk(x, y) for x in src for y in dst]
    for i, a in enumerate(E):
        yield {'a': a}
        for b in E[i:]:
            if a[0] == b[0] or a[1] == b[1] or a[0][:2] == b[1][:2] or tier != 'quick':
                yield {'a': a, 'a_1': b}
    few = [mk(x, y) for x in (src if tier != 'quick' else src[:2] + src[3:5]) for y in (dst[0], dst[2], dst[3])]
    for a, b, c in itertools.combinations_with_replacement(few, 3):
        yield {'a': a, 'b': b, 'c': c}
    # longer sets that share components
    mid = [('launch', 'm', 1, 'Out'), ('junction', 'j', 1, 'Out'), ('buffer', 'b', 1, 'Out'), ('launch', 'l', 1, 'Err'), ('regulator', 'r', 1, 'Out')]
    for m1 in mid:
        for m2 in mid:
            yield {'a': [('faucet', 'f', 0, 'Out'), m1, ('drain', 'd', 1, None)], 'b': [('faucet', 'f', 0, 'Out'), m2, ('drain', 'd', 1, None)]}
            yield {'a': [('faucet', 'f', 0, 'Out'), m1, m2, ('drain', 'd', 1, None)], 'b': [('faucet', 'g', 0, 'Out'), m2, ('drain', 'e', 1, None)]}
            yield {'a': [('faucet', 'f', 0, 'Out'), m1, m2, m1, ('drain', 'd', 1, None)]}
    # many of everything
    yield {'c%d' % i: mk(('faucet', 'f', 'Out'), ('drain', 'd%d' % i)) for i in range(7)}
    yield {'c%d' % i: mk(('faucet', 'f%d' % i, 'Out'), ('drain', 'd')) for i in range(7)}
    yield {'c%d%d' % (i, k): mk(('launch', 'l%d' % i, 'Out' if i else 'Exit'), ('drain', 'd%d%d' % (i, k))) for i in range(4) for k in range(2)}
    yield {'c%d' % i: mk(('launch', 'l%d' % i, ('Out', 'Err', 'Exit')[i % 3]), ('launch', 'l%d' % (i + 1))) for i in range(12)}
    yield {'c%d%d' % (i, k): mk(('faucet', 'f%d' % i, 'Out'), ('buffer', 'b%d' % k)) for i in range(3) for k in range(3)}
    yield {n: mk(('faucet', n, 'Out'), ('launch', n)) for n in AWKWARD}
    yield {n: [('faucet', 'f', 0, 'Out'), ('launch', n, 1, 'Out'), ('drain', 'd', 1, None)] for n in AWKWARD[:5]}
    # names that the rewriting would choose itself
    yield {'dyn_connection_1': mk(src[1], dst[2]), 'dyn_connection_2': mk(('launch', 'l', 'Out'), ('drain', 'dyn_drain_1')), 'x': mk(('launch', 'l', 'Out'), ('drain', 'dyn_drain_2'))}
    yield {'a': mk(src[0], ('junction', 'junction_1')), 'b': mk(src[0], ('junction', 'junction_2')), 'c': mk(('junction', 'junction_1', 'Out'), dst[2]), 'd': mk(('junction', 'junction_2', 'Out'), dst[2])}
    yield {'a': [('faucet', 'f', 0, 'Out'), ('launch', 'm', 1, 'Out'), ('drain', 'd', 1, None)], 'a_1': [('faucet', 'f', 0, 'Out'), ('launch', 'l', 1, 'Out'), ('drain', 'd', 1, None)], 'a_2': mk(('launch', 'm', 'Exit'), ('drain', 'd'))}


def jobs_C26(tier):
    T = list(flows_to_rewrite(tier))
    J = parts([('description %d' % i, rewritten, ('Process', f)) for i, f in enumerate(T)], 14, 'to be run')
    J += parts([('description %d' % i, rewritten, ('Manipulate', f)) for i, f in enumerate(T) if i % 3 == 1 or any(len(x) > 2 for x in f.values())], 2, 'to be written')
    return J
