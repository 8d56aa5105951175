"""Rules about the command line: what each command asks for (C30)."""
from ctx import *
import flows as F
import natives as N
from specs.config import batch, parts, seq, hm

REQ = 'UserRequest'
NEUTRAL = ('help', 'long_help', 'about', 'long_about', 'author', 'version', 'after_help', 'before_help', 'value_name', 'short', 'name', 'visible_alias', 'alias', 'display_order', 'hide_default_value')


# ------------------------------------------------- the advertised command line

def builder(lab, e):
    """clap's App and Arg as plain values"""
    shorts = set(i['short'] for i in lab.P.insts if '::' in (i['short'] or '') and 'clap::' in i['path'])
    s = lambda e, st, v: e.norm(st, N.deep(e, st, v))
    new = lambda kind: lambda e, st, C: ('t', kind, s(e, st, C.args[0]), ())

    def add(what):
        def h(e, st, C):
            a = e.norm(st, N.deep(e, st, C.args[0]))
            if a[:1] != ('t',) or a[1] not in ('App', 'Arg'):
                raise Undecided('clap builder %s' % short(a))
            return a[:3] + (a[3] + ((what,) + tuple(s(e, st, x) for x in C.args[1:]),),)
        return h
    for k in shorts:
        ty, m = k.rsplit('::', 1)
        if (ty, m) in (('App', 'new'), ('SubCommand', 'with_name')):
            e.hooks[k] = new('App')
        elif (ty, m) == ('Arg', 'with_name'):
            e.hooks[k] = new('Arg')
        elif ty in ('App', 'Arg') and not m.startswith('get_matches'):
            e.hooks[k] = add(m)


def text_of(v):
    if v[0] != 's':
        raise Undecided('name in the command line %s' % short(v))
    return v[1]


def arg_of(a):
    d = dict(name=text_of(a[2]), long=None, index=None, takes=False, multiple=False, default=None, values=None, required=False)
    for p in a[3]:
        k, v = p[0], p[1] if len(p) > 1 else None
        if k in NEUTRAL:
            continue
        if k == 'long':
            d['long'] = text_of(v).lstrip('-')
        elif k == 'index':
            d['index'] = v[1]
        elif k in ('takes_value', 'required', 'multiple'):
            d['takes' if k == 'takes_value' else k] = v == TRUE
        elif k == 'default_value':
            d['default'] = v
            d['takes'] = True
        elif k == 'possible_values':
            d['values'] = [x[1] for x in v[1]]
            d['takes'] = True
        elif k == 'allow_hyphen_values':
            pass
        else:
            raise Anchor('clap Arg::%s' % k)
    return d


def tree_of(a):
    t = dict(name=text_of(a[2]), args=[], subs={})
    for p in a[3]:
        if p[0] in NEUTRAL:
            continue
        if p[0] == 'arg':
            t['args'].append(arg_of(p[1]))
        elif p[0] == 'args':
            t['args'] += [arg_of(x[1]) for x in p[1][1]]
        elif p[0] == 'subcommand':
            c = tree_of(p[1])
            t['subs'][c['name']] = c
        elif p[0] == 'subcommands':
            for x in p[1][1]:
                c = tree_of(x[1])
                t['subs'][c['name']] = c
        else:
            raise Anchor('clap App::%s' % p[0])
    n = 0
    for d in t['args']:
        if d['long'] is None and d['index'] is None and d['takes'] is False and not any(True for _ in ()):
            n += 1
            d['index'] = n          # clap numbers the positional arguments that have no index
    return t


def advertised(lab):
    """the command line that is offered, read from the code that builds it"""
    e = Engine(lab.P)
    guard(e)
    builder(lab, e)
    out = []
    s = Scn(e, 'command line')
    v = s.call(lab.fn('get_clap_app'), [])
    s.do(lambda e, st, vs: out.append(e.norm(st, N.deep(e, st, vs[0]))), [v])
    e.explore([s.state()])
    if len(out) != 1:
        raise Anchor('the command line (%d ways, %s)' % (len(out), '; '.join(sorted(set(e.undecided)))[:200]))
    return tree_of(out[0])


# ------------------------------------------------------------- what was given

LEAVES = {       # command -> (request, what it needs besides the options)
    ('process',): ('Process', ()),
    ('graph',): ('Graph', ()),
    ('config', 'lint'): ('ConfigLintShow', ()),
    ('config', 'manipulate'): ('Manipulate', ()),
    ('config', 'faucet', 'source'): ('FaucetSrc', ('src',)),
    ('config', 'drain', 'destination'): ('DrainDst', ('dst',)),
    ('config', 'regulator', 'watermark'): ('RegulatorWatermark', ('min', 'max')),
    ('config', 'connection', 'join'): ('ConnectionJoin', ('join',)),
    ('config', 'launch', 'command'): ('LaunchCommand', ('command',)),
    ('config', 'launch', 'path'): ('LaunchPath', ('path',)),
    ('config', 'launch', 'args'): ('LaunchArgs', ('args',)),
    ('config', 'launch', 'env'): ('LaunchEnv', ('env',)),
}
MANY = ('args', 'env')


class Given:
    """one command line as clap hands it on"""

    def __init__(self, tree, path, options, positional):
        """options: per level {long: value | count}; positional: list of values"""
        self.levels = []
        t = tree
        self.miss = None
        for d, n in enumerate((None,) + tuple(path)):
            if n is not None:
                t = t['subs'].get(n)
                if t is None:
                    self.miss = ('no-command', 'the command %s is not offered' % ' '.join(path))
                    return
            vals, occ = {}, {}
            o = dict(options.get(d, {}))
            for a in t['args']:
                if a['default'] is not None:
                    vals[a['name']] = [a['default']]
                if a['long'] in o:
                    x = o.pop(a['long'])
                    if isinstance(x, int):
                        if a['takes']:
                            self.miss = ('takes-value', '--%s asks for a value' % a['long'])
                            return
                        occ[a['name']] = x
                    else:
                        if not a['takes'] or a['values'] is not None and x not in a['values']:
                            self.miss = ('value', '%s is not accepted for --%s' % (short(x), a['long']))
                            return
                        vals[a['name']] = [x]
                        occ[a['name']] = 1
            if o:
                self.miss = ('no-option', 'there is no --%s for %s' % (sorted(o)[0], ' '.join(path[:d]) or 'pipeawesome'))
                return
            if d == len(path):
                pos = sorted([a for a in t['args'] if a['long'] is None], key=lambda a: a['index'])
                left = list(positional)
                for a in pos:
                    if not left:
                        break
                    k = len(left) if a['multiple'] else 1
                    vals[a['name']] = left[:k]
                    occ[a['name']] = k
                    left = left[k:]
                if left:
                    self.miss = ('too-many', '%s does not take %d values' % (' '.join(path), len(positional)))
                    return
            self.levels.append((vals, occ, path[d] if d < len(path) else None))

    def hook(self, lab, e):
        def level(e, st, v):
            v = e.head(st, v)
            while v is not None and v[0] == 'r':
                v = e.head(st, e.load(st, *e.deref(st, v)))
            if v is not None and v[0] == 'y' and v[1][0] == '*':
                v = v[1][1]
            if v is None or v[:2] != ('t', 'matches'):
                raise Undecided('matches %s' % short(v))
            return v[2], self.levels[v[2]]

        def name(e, st, C):
            return text_of(e.norm(st, N.val(e, st, C.args[1])))

        def subcommand(e, st, C):
            i, (v, o, n) = level(e, st, C.args[0])
            return N.tup(('s', n or ''), N.NONE if n is None else N.some(('t', 'matches', i + 1)))

        def subcommand_name(e, st, C):
            i, (v, o, n) = level(e, st, C.args[0])
            return N.NONE if n is None else N.some(('s', n))

        def subcommand_matches(e, st, C):
            i, (v, o, n) = level(e, st, C.args[0])
            return N.some(('t', 'matches', i + 1)) if n is not None and n == name(e, st, C) else N.NONE

        def value_of(e, st, C):
            v = level(e, st, C.args[0])[1][0].get(name(e, st, C))
            return N.some(ref(st, v[0])) if v else N.NONE

        def values_of(e, st, C):
            v = level(e, st, C.args[0])[1][0].get(name(e, st, C))
            return N.some(('I', seq([ref(st, x) for x in v])[1])) if v else N.NONE

        def occurrences_of(e, st, C):
            return ('i', level(e, st, C.args[0])[1][1].get(name(e, st, C), 0))

        def is_present(e, st, C):
            i, (v, o, n) = level(e, st, C.args[0])
            k = name(e, st, C)
            return ('b', 1 if k in v or o.get(k, 0) or k == n else 0)
        for k, f in dict(subcommand=subcommand, subcommand_name=subcommand_name, subcommand_matches=subcommand_matches, value_of=value_of,
                         values_of=values_of, occurrences_of=occurrences_of, is_present=is_present).items():
            e.hooks['ArgMatches::' + k] = f


# ------------------------------------------------------------------ requests

def fields(lab, v):
    """(variant, {field: value}) of a request"""
    T = lab.adt(REQ)['vs'][v[1]]
    return T['n'], dict(zip([f[0] for f in T['f']], v[2]))


def ask(run, tree, path, options, positional, want):
    """want: None (an error), 'help' (no command), or dict of fields"""
    lab, e = run.lab, run.e
    g = Given(tree, path, options, positional)
    cmd = ' '.join(path) or 'no command'
    s = Scn(e, 'ask ' + run.name)
    if g.miss:
        s.do(lambda e, st, vs: run.fail(st, g.miss[0] + ':' + cmd, g.miss[1]))
        st = s.state()
        st.mon = ('M', ())
        run.explore(st)
        return
    g.hook(lab, e)
    e.WIDEN = 60

    def on(e, st, x):
        if x[0] in ('eprint', 'print', 'exit'):
            st.mon = ('M', st.mon[1] + (x,))
        if x[0] == 'print':
            run.fail(st, 'prints', 'reading the command line writes to standard output')
        if x[0] == 'exit':
            run.count('command lines read')
            if want == 'help':
                if x[1] == ('i', 0) or not [y for y in st.mon[1] if y[0] == 'eprint']:
                    run.fail(st, 'help', 'no command: neither a message nor an error status')
            else:
                run.fail(st, 'exits:' + cmd, 'reading "%s" ends the program' % cmd)
    e.on_event = on
    v = s.call(lab.fn('get_user_config_action'), [s.val(('t', 'matches', 0))])

    def end(e, st, vs):
        run.count('command lines read')
        r = e.head(st, vs[0])
        if r[1] == 1:
            if want is not None:
                run.fail(st, 'refused:' + cmd, '"%s" is refused' % cmd)
            return
        if want is None:
            run.fail(st, 'accepted:' + cmd, '"%s" is accepted although something needed is missing or wrong' % cmd)
        if want == 'help':
            run.fail(st, 'no-command', 'something is done although no command is given')
        n, fs = fields(lab, e.head(st, r[2][0]))
        if n != LEAVES[path][0]:
            run.fail(st, 'request:' + cmd, '"%s" is taken as %s' % (cmd, n))
        fs = {k: e.norm(st, N.deep(e, st, x)) for k, x in fs.items()}
        if 'base_options' in fs:
            b = fs.pop('base_options')
            fs.update({f[0]: b[2][i] for i, f in enumerate(lab.adt('UserConfigOptionBase')['vs'][0]['f'])})
        for k, w in sorted(want.items()):
            run.count('values compared')
            x = fs.pop(k, None)
            ok = x == w
            if k == 'min' and not ok and 'max' in fs:
                ok = x == want['max'] and fs['max'] == w
            if k == 'max' and not ok and 'min' in fs:
                ok = x == want['min'] and fs['min'] == w
            if k == 'max' or k == 'min':
                fs[k] = x
            if isinstance(w, list):
                ok = x in w
            if k == 'env' and x is not None and x[0] == 'h' and x[1] is None:
                ok = sorted(x[2], key=repr) == sorted(w[2], key=repr)
            if not ok:
                run.fail(st, 'value:%s:%s' % (cmd, k), '"%s": %s is %s, not %s' % (cmd, k, short(x), short(w)))
        if set(fs) - {'min', 'max'}:
            raise Anchor('fields of %s: %s' % (n, sorted(fs)))
    s.do(end, [v])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic:' + cmd, 'reading "%s" panics (%s)' % (cmd, str(m)[:100]), stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


NAMES = ('c.yaml', 'c.yml', 'c.json', 'c', '-', '')
S = lambda x: ('s', x)


def fmt(lab, n):
    return lab.variant('config_io::ConfigFormat', n)


def inputs(lab):
    """(options of the first level, configuration read, format)"""
    J, Y = fmt(lab, 'Json'), fmt(lab, 'Yaml')
    out = [({}, S('-'), Y)]
    for f, v in (('json', J), ('yaml', Y)):
        out.append(({'config': sym('file'), 'format': S(f)}, sym('file'), v))
        out.append(({'format': S(f)}, S('-'), v))
        for n in NAMES:
            out.append(({'config': S(n), 'format': S(f)}, S(n), v))
    for n in NAMES:
        # without a format: the advertised default, or what the name says
        out.append(({'config': S(n)}, S(n), [J, Y] if n.endswith('json') else Y))
    return out


TEXTS = (sym('value'), S(''), S('-'), S('_'), S('a b'), S('launch'), S("it's"), S('x=y'), S('日本'))
ENV = (
    (['A=1'], {'A': '1'}), (['A=1=2'], {'A': '1=2'}), (['A='], {'A': ''}), (['A=1', 'B=2', 'C=3'], {'A': '1', 'B': '2', 'C': '3'}),
    (['A=1', 'A=2'], {'A': '2'}), (['A=2', 'B=1', 'A='], {'A': '', 'B': '1'}), (['A= '], {'A': ' '}), (['A=='], {'A': '='}),
    (['a b=c d'], {'a b': 'c d'}), (['Ä=日本'], {'Ä': '日本'}), (['a=1', 'A=2'], {'a': '1', 'A': '2'}), ([' =1'], {' ': '1'}),
    (['A=1', 'A=2', 'A=3'], {'A': '3'}), (['V%d=%d' % (i, i) for i in range(12)], {'V%d' % i: '%d' % i for i in range(12)}),
    (['='], None), (['=1'], None), (['A'], None), ([''], None), (['A=1', 'B'], None), (['A', 'B=1'], None), (['A=1', '=2'], None), (['A=1', 'B', 'C=3'], None),
)
NUMBERS = (
    ('3', '7', True), ('0', '0', True), ('7', '3', True), ('007', '+8', True), ('18446744073709551615', '1', True), ('5', '5', True), ('4294967296', '9007199254740993', True), ('65536', '256', True), ('10', '9', True),
    ('x', '1', False), ('1', 'x', False), ('', '1', False), ('1', '', False), ('-1', '1', False), ('1', '-1', False), ('1.5', '2', False),
    ('1', '18446744073709551616', False), (' 1', '2', False), ('1', '2 ', False), ('1e3', '2', False), ('0x10', '2', False),
)


def values(lab, path):
    """(positional values, what is wanted)"""
    kind, need = LEAVES[path]
    if need == ('min', 'max'):
        for a, b, okay in NUMBERS:
            yield [S(a), S(b)], dict(min=('i', int(a)), max=('i', int(b))) if okay else None
    elif need == ('args',):
        for t in TEXTS:
            yield [t], dict(args=seq([t]))
        for n in (2, 3, 12):
            v = [sym('arg%d' % i) for i in range(n)]
            yield v, dict(args=seq(v))
        for v in ([S('a'), S('a')], [S('-n'), S('2'), S('')], [S(''), S('')], [S('b'), S('a')], [S('a=b'), S('a b')]):
            yield v, dict(args=seq(v))
    elif need == ('env',):
        for v, w in ENV:
            yield [S(x) for x in v], None if w is None else dict(env=hm({k: S(x) for k, x in w.items()}))
    elif need:
        for t in TEXTS:
            yield [t], {need[0]: t}
    else:
        yield [], {}


def lines(lab):
    """all command lines that are followed"""
    ins = inputs(lab)
    for path in sorted(LEAVES):
        ident = len(path) == 3
        lv = lambda o, i=sym('id'): {1: o, 2: {'id': i}} if ident else {1: o}
        # the option only of a manipulating command names the component
        vals = list(values(lab, path))
        for o, c, f in ins:
            pos, w = vals[0]
            w = dict(w, config_in=c, config_format=f)
            if ident:
                w['id'] = sym('id')
            if path == ('graph',):
                for x in range(8):
                    fl = {k: 1 for j, k in enumerate(('legend-only', 'diagram-only', 'legend-border')) if x >> j & 1}
                    lo, do, b = x & 1, x >> 1 & 1, ('b', x >> 2 & 1)
                    m = lab.variant('GraphMode', 'LegendOnly', b) if lo and not do else lab.variant('GraphMode', 'DiagramOnly') if do and not lo else lab.variant('GraphMode', 'Full', b)
                    yield path, {1: dict(o, **fl)}, pos, dict(w, mode=m)
                continue
            yield path, lv(o), pos, w
        for pos, w in vals[1:]:
            if w is not None:
                w = dict(w, config_in=sym('file'), config_format=fmt(lab, 'Json'))
                if ident:
                    w['id'] = sym('id')
            yield path, lv({'config': sym('file'), 'format': S('json')}), pos, w
        if ident:
            for i in TEXTS[1:]:
                pos, w = vals[0]
                yield path, lv({}, i), pos, dict(w, config_in=S('-'), config_format=fmt(lab, 'Yaml'), id=i)
            yield path, {}, vals[0][0], None
            yield path, {1: {'config': sym('file'), 'format': S('json')}}, vals[0][0], None
    yield (), {}, [], 'help'
    for path in ((('config',),) + tuple(sorted(set(p[:2] for p in LEAVES if len(p) == 3)))):
        yield path, {}, [], None
        if len(path) == 2:
            yield path, {2: {'id': sym('id')}}, [], None


def asked(run, lo, hi):
    tree = advertised(run.lab)
    todo = []
    for i, (path, o, pos, w) in enumerate(lines(run.lab)):
        if i % hi == lo:
            todo.append(('%s %s %s' % (' '.join(path), short(o, 60), short(pos, 60)), ask, (tree, path, o, pos, w)))
    batch(run, todo)


def offered(run):
    """every command that is offered does something"""
    lab, e = run.lab, run.e
    tree = advertised(lab)

    def leaves(t, path):
        if not t['subs']:
            yield path, t
        for n in sorted(t['subs']):
            yield from leaves(t['subs'][n], path + (n,))
    todo = []
    for path, t in leaves(tree, ()):
        run.count('commands offered')
        if path in LEAVES:
            continue
        o = {d: {'id': sym('id')} for d in range(1, len(path) + 1)}
        x, d = tree, 0
        for n in path:
            x, d = x['subs'][n], d + 1
            o[d] = {a['long']: sym('id') for a in x['args'] if a['long'] == 'id'}
        pos = [sym('value') for a in t['args'] if a['long'] is None]
        todo.append((' '.join(path), unheard, (tree, path, o, pos)))
    batch(run, todo)


def unheard(run, tree, path, o, pos):
    lab, e = run.lab, run.e
    g = Given(tree, path, o, pos)
    if g.miss:
        raise Anchor(g.miss[1])
    g.hook(lab, e)
    s = Scn(e, 'offered')
    v = s.call(lab.fn('get_user_config_action'), [s.val(('t', 'matches', 0))])

    def end(e, st, vs):
        if e.head(st, vs[0])[1] == 1:
            run.fail(st, 'offered:' + '/'.join(path), 'the command "%s" is offered but refused whatever is given' % ' '.join(path))
    s.do(end, [v])
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


# --------------------------------------------------------- reading the input

def reading(run, which, form):
    """the description comes from the named file, or from standard input when it is named -"""
    lab, e = run.lab, run.e
    name = {'named': sym('file'), 'stdin': S('-'), 'file': S('some.yaml'), 'dashes': S('--'), 'nothing': S('')}[which]
    s = Scn(e, 'read ' + which)

    def on(e, st, x):
        if x[0] in ('open', 'readall', 'deserialize', 'print', 'eprint', 'exit', 'read'):
            st.mon = ('M', st.mon[1] + (x,))
    e.on_event = on
    f = fmt(lab, form)
    v = s.call(lab.fn(F.MOD + 'config_io::read_config'), [s.ref(s.val(f)), s.ref(s.val(name))])

    def end(e, st, vs):
        run.count('ways of reading')
        ev = st.mon[1]
        r = e.head(st, vs[0])
        dash = name == S('-')
        if name[0] == 'y':
            x = e.norm(st, name)
            dash = x == S('-') if x != name else st.facts.get(e.eqkey(name, S('-')))
            if dash is None:
                raise Undecided('is the name - or not: %s' % short(sorted(st.facts, key=repr)))
        files = [x for x in ev if x[0] == 'open']
        whole = [x for x in ev if x[0] == 'readall']
        des = [x for x in ev if x[0] == 'deserialize']
        if dash and files:
            run.fail(st, 'file-for-stdin', 'standard input was asked for and a file is opened')
        if not dash and (not files or files[0][1] != 'r' or files[0][2] != name):
            run.fail(st, 'not-the-file', 'the file that was named is not opened')
        good = all(x[-1] is not False and x[-1] is not None for x in files + whole + des) and len(whole) == 1
        if r[1] == 0:
            if not good:
                run.fail(st, 'unread', 'a description that could not be read is taken as good')
            src = whole[0][1]
            if holds(e, st, src, lambda v: v[:2] == ('t', 'file')) == dash:
                run.fail(st, 'source', 'what is read is not what was named')
            lib = 'serde_json' if form == 'Json' else 'serde_yaml'
            if not des or not des[-1][3] or not des[-1][1].startswith(lib) or des[-1][2] != ('t', 'contents', src):
                if not (form == 'Json' and des and des[-1][1].startswith('serde_yaml') and des[-1][2] == ('t', 'contents', src)):
                    run.fail(st, 'format', 'the description is not read in the format that was asked for')
            if not holds(e, st, vs[0], lambda v: v[0] == 'y' and repr(src) in repr(v)):
                run.fail(st, 'content', 'what is answered is not what was read')
        else:
            run.count('failures to read')
            if good and des and des[-1][3]:
                run.fail(st, 'refused', 'a description that was read is refused')
            if not dash and not des and not holds(e, st, vs[0], lambda v: v == name or v[0] == name[0] == 's' and name[1] in v[1]):
                run.fail(st, 'unnamed', 'the error for a file that cannot be read does not name it')
    s.do(end, [v])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'reading a description panics (%s)' % str(m)[:100], stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


def jobs_C30(tier):
    return [('command lines %d of 8' % (i + 1), asked, (i, 8)) for i in range(8)] + [('commands offered', offered, ())] + \
        [('reading %s as %s' % (w, f), reading, (w, f)) for w in ('named', 'stdin', 'file', 'dashes', 'nothing') for f in ('Json', 'Yaml')]


EXPLAIN = {'C30': 'The command line that is offered is read from the code that builds it; for every command, with its options given or not, the request made from it is compared with the one the command stands for.'}


# ------------------------------------------------------------ connection texts

TYPES = {'faucet': 'Faucet', 'drain': 'Drain', 'regulator': 'Regulator', 'junction': 'Junction', 'buffer': 'Buffer', 'launch': 'Launch'}
PIPES = {'|': 'Terminate', '|T|': 'Terminate', '|C|': 'Consume', '|F|': 'Finish'}
OUTS = {None: 'Out', 'O': 'Out', 'E': 'Err', 'X': 'Exit'}


def parsing(e):
    """the few operations the generated parser has on the text"""
    Failed = ('a', 1, ())
    matched = lambda p, v: ('a', 0, (('i', p), v))

    def txt(e, st, v):
        v = e.norm(st, N.val(e, st, v))
        if v[0] != 's':
            raise Undecided('text to parse %s' % short(v))
        return v[1].encode()

    def pos(e, st, v):
        v = e.norm(st, v)
        if v[0] != 'i':
            raise Undecided('position %s' % short(v))
        return v[1]

    def literal(e, st, C):
        t, p, l = txt(e, st, C.args[0]), pos(e, st, C.args[1]), txt(e, st, C.args[2])
        return matched(p + len(l), UNIT) if t[p:p + len(l)] == l else Failed

    def elem(e, st, C):
        t, p = txt(e, st, C.args[0]), pos(e, st, C.args[1])
        r = t[p:].decode()
        return matched(p + len(r[0].encode()), ('i', ord(r[0]))) if r else Failed

    def piece(e, st, C):
        t, p, q = txt(e, st, C.args[0]), pos(e, st, C.args[1]), pos(e, st, C.args[2])
        return ('s', t[p:q].decode())
    e.hooks['str.Parse::start'] = lambda e, st, C: ('i', 0)
    e.hooks['str.Parse::is_eof'] = lambda e, st, C: ('b', 1 if pos(e, st, C.args[1]) >= len(txt(e, st, C.args[0])) else 0)
    e.hooks['str.ParseLiteral::parse_string_literal'] = literal
    e.hooks['str.ParseElem::parse_elem'] = elem
    e.hooks['str.ParseSlice::parse_slice'] = piece
    e.hooks['ErrorState::new'] = lambda e, st, C: ('t', 'parse state')
    e.hooks['ErrorState::mark_failure'] = lambda e, st, C: Failed
    e.hooks['ErrorState::mark_failure_slow_path'] = lambda e, st, C: Failed
    e.hooks['ErrorState::reparse_for_error'] = lambda e, st, C: UNIT
    e.hooks['ErrorState::into_parse_error'] = lambda e, st, C: ('t', 'parse error')


def line(comps, pipes):
    """comps: (type as written, name, priority as written or None, output or None); pipes: (kind, spaces before, after)"""
    out = ''
    for i, (t, n, p, o) in enumerate(comps):
        if i:
            k, a, b = pipes[i - 1]
            out += ' ' * a + k + ' ' * b
        out += ('' if p is None else '[%s]' % p) + t + ':' + n + ('' if o is None else '[%s]' % o)
    return out


def conns(lab, comps, pipes):
    from specs.config import connection
    out = []
    for i, (t, n, p, o) in enumerate(comps):
        kind = [k for k in TYPES if k == t or k[0] == t][0]
        inp = (('i', int(p or 0)), lab.variant('connectable::Breakable', PIPES[pipes[i - 1][0]])) if i else None
        out.append(connection(lab, kind, n, inp, lab.port(OUTS[o]) if i < len(comps) - 1 else None))
    return seq(out)


def parse(run, text, want):
    lab, e = run.lab, run.e
    parsing(e)
    e.WIDEN = 400
    s = Scn(e, 'parse')
    v = s.call(lab.fn(F.MOD + 'config::load_connection_from_string'), [s.val(S(text))])

    def end(e, st, vs):
        run.count('texts followed')
        r = e.head(st, vs[0])
        if r[1] == 1:
            if want is not None:
                run.fail(st, 'refused', 'the connection "%s" is refused' % text)
            return
        if want is None:
            run.fail(st, 'accepted', '"%s" is accepted as a connection' % text)
        got = e.norm(st, N.deep(e, st, r[2][0]))
        if got == want:
            return
        if got[0] != 'q' or any(g[0] != '1' for g in got[1]):
            raise Undecided('connections %s' % short(got))
        if len(got[1]) != len(want[1]):
            run.fail(st, 'number', '"%s": %d components are read and %d are written' % (text, len(got[1]), len(want[1])))
        for i, (a, b) in enumerate(zip(got[1], want[1])):
            if a != b:
                run.fail(st, 'component', '"%s": component %d is read as %s, not %s' % (text, i + 1, short(a[1]), short(b[1])))
    s.do(end, [v])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'reading the connection "%s" panics (%s)' % (text, str(m)[:100]), stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


PRIO = (None, '0', '5', '-3', '22', '-1', '007', '1000')
NAME = ('a', 'z', 'A', 'Z', '0', '9', '_', 'mM5_n', 'faucet', 'f', 'l', 'T', 'E', 'launch_1', '_x', '9a', 'drain', 'a' * 40, 'C', 'F', 'X', 'O', 'node')
WRONG = ('l:a', 'l:a |', '| l:a', 'l:a l:b', 'l:a || l:b', 'l:a | | l:b', 'x:a | l:b', 'l:a | x:b', 'l a | l:b', 'l: | l:b', ':a | l:b', 'l:a | l:', 'l:a[Q] | l:b', 'l:a[] | l:b',
         'l:a[EE] | l:b', 'l:a |Q| l:b', 'l:a | [x]l:b', 'l:a | 5l:b', 'l:a | [5l:b', 'l:a | 5]l:b', 'l:a-b | l:c', 'l:a | l:c-d', 'l:a | l:b x', 'l:a | l:b | ', 'l:a | l:b |', 'la | lb',
         'launchx:a | l:b', 'l:a, l:b', 'l:a > l:b', 'l:é | l:b', 'l:a | l:b | l', 'l:a[E | l:b', 'l:aE] | l:b', 'l:a |T l:b', 'L:a | l:b', 'F:a | l:b', 'Launch:a | l:b', 'l:a[e] | l:b',
         'l:a | [1.5]l:b', 'l:a | [--1]l:b', 'l:a | [1-]l:b', 'l:a | [ 1]l:b', 'l::a | l:b', 'l:a b | l:c', 'l:a |TC| l:b', 'l:a | l:b\n;', 'l:a |t| l:b', 'l.a | l:b', 'l:a` | l:b', 'l:a{ | l:b',
         'l:a@ | l:b', 'l:a[[E] | l:b', 'l:a/ | l:b', 'l:a: | l:b', 'q', '[5]')


def texts(lab):
    """(text, what it says or None)"""
    def t(comps, pipes=None):
        pipes = pipes or [('|', 1, 1)] * (len(comps) - 1)
        return line(comps, pipes), conns(lab, comps, pipes)
    first, last = ('f', 'a', None, None), ('d', 'z', None, None)
    words = [w for k in sorted(TYPES) for w in (k, k[0])]
    for w in words:
        for p in PRIO if w in ('l', 'junction') else PRIO[:4:3] + PRIO[4:5]:
            for o in OUTS:
                for k in PIPES if len(w) == 1 else ('|',):
                    yield t([first, (w, 'm', p, o), last], [(k, 1, 1), ('|', 1, 1)])
        for o in OUTS:
            for k in PIPES:
                yield t([(w, 'm', None, o), last], [(k, 1, 1)])
        for p in PRIO:
            for k in PIPES:
                yield t([first, (w, 'm', p, None)], [(k, 1, 1)])
    for n in NAME:
        for w in ('l', 'launch'):
            yield t([(w, n, None, None), last])
            yield t([(w, n, None, 'E'), ('j', n, None, 'X'), ('b', n, '-7', None), (w, n, '3', None)])
            yield t([(w, n, None, None), (w, n, '3', None)], [('|T|', 0, 0)])
    for a in (0, 1, 3):
        for b in (0, 1, 3):
            for k in PIPES:
                for k2 in PIPES:
                    yield t([('l', 'a', None, 'E'), ('j', 'T', '1', None), ('l', 'c', '-1', None)], [(k, a, b), (k2, b, a)])
                    yield t([('l', 'a', None, None), ('j', 'T', None, 'E'), ('l', 'c', None, None)], [(k, a, b), (k2, b, a)])
    for n in (4, 5, 6, 8, 12):
        c = [(words[i % len(words)], 'n%d' % i, PRIO[i % len(PRIO)] if i else None, (None, 'O', 'E', 'X')[i // 2 % 4] if i < n - 1 else None) for i in range(n)]
        for x in range(4):
            yield t(c, [(sorted(PIPES)[(i + x) % 4], i % 2, x % 2) for i in range(n - 1)])
    for c in map(chr, range(1, 128)):
        # every character at every place where one decides
        name = c.isalnum() or c == '_'
        yield ('l:x%sy | l:b' % c, t([('l', 'x%sy' % c, None, None), ('l', 'b', None, None)])[1] if name else None)
        yield ('l:b | l:%s' % c, t([('l', 'b', None, None), ('l', c, None, None)])[1] if name else None)
        yield ('l:b | [1%s2]l:c' % c, t([('l', 'b', None, None), ('l', 'c', '1%s2' % c, None)])[1] if c.isdigit() else None)
        yield ('%s:x | l:b' % c, t([(c, 'x', None, None), ('l', 'b', None, None)])[1] if c in 'fdrjbl' else None)
        yield ('l:x[%s] | l:b' % c, t([('l', 'x', None, c), ('l', 'b', None, None)])[1] if c in 'OEX' else None)
        yield ('l:x |%s| l:b' % c, t([('l', 'x', None, None), ('l', 'b', None, None)], [('|%s|' % c, 1, 1)])[1] if c in 'TCF' else None)
    yield '', seq([])
    for w in WRONG:
        yield w, None


def parsed(run, lo, hi):
    batch(run, [('"%s"' % a, parse, (a, b)) for i, (a, b) in enumerate(texts(run.lab)) if i % hi == lo])


def jobs_C28(tier):
    return [('connection texts %d of 16' % (i + 1), parsed, (i, 16)) for i in range(16)]


EXPLAIN['C28'] = 'The generated parser (its code, not the grammar text) is followed for each text; it only compares characters with constants, so that the texts stand for all with other name characters and digits.'
