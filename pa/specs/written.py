"""Rules about the form in which a description is written down and read (C17)."""
from ctx import *
import flows as F
import natives as N
from specs.config import connection, config, seq, hm, vstruct, batch, parts

VALUE = 'serde_json::Value'


def derived(lab, ty, trait, method, by):
    """the implementation of a serde trait for a type of the library, written by hand or derived"""
    for i in lab.P.insts:
        if i['body'] < 0 or not i['local'] or not i['path'].endswith('>::' + method):
            continue
        p = i['path']
        own = p[:-len('>::' + method)]
        if not (own.endswith('for ' + F.MOD + ty) or own.split(' as ')[0].endswith('<' + F.MOD + ty)):
            continue
        if [lab.types[a].get('path') for a in i['args']] == [by]:
            return i
    raise Anchor('%s of %s' % (trait, ty))


def alike(e, st, a, b):
    a, b = e.norm(st, e.head(st, a)), e.norm(st, e.head(st, b))
    if a == b:
        return True
    if a is None or b is None or a[0] != b[0]:
        return False
    if a[0] == 'a':
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(alike(e, st, x, y) for x, y in zip(a[2], b[2]))
    if a[0] == 'q':
        return len(a[1]) == len(b[1]) and all(x[0] == '1' == y[0] and alike(e, st, x[1], y[1]) for x, y in zip(a[1], b[1]))
    if a[0] == 'h':
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return False
        d = {e.norm(st, k): v for k, v in b[2]}
        return all(e.norm(st, k) in d and alike(e, st, v, d[e.norm(st, k)]) for k, v in a[2])
    return False


def prepare(e, lab):
    """serde's helpers that only affect how much memory is set aside, and its errors"""
    e.WIDEN = 400
    e.hooks['serde::ser::iterator_len_hint'] = lambda e, st, C: NONE
    e.hooks['serde::__private::size_hint::cautious'] = lambda e, st, C: ('i', 0)
    e.hooks['serde::__private::size_hint::helper'] = lambda e, st, C: NONE
    for n in ('custom', 'invalid_type', 'missing_field', 'duplicate_field', 'invalid_length', 'invalid_value', 'unknown_field', 'unknown_variant'):
        e.hooks['<serde_json::Error as serde::de::Error>::' + n] = lambda e, st, C: st.fresh('error')

    def number(e, st, C):
        if lab.types[C.t['rt']].get('path') != 'serde_json::Number':
            return NotImplemented
        v = e.head(st, C.args[0])
        if v[0] != 'i':
            raise Undecided('a number that is not known')
        return ('a', 0, (('a', 0 if v[1] >= 0 else 1, (v,)),))
    e.hooks['T.Into::into'] = number


def shown(e, st, v):
    return short(N.deep(e, st, v), 300)


def there_and_back(run, cfg, name):
    lab, e = run.lab, run.e
    ser = derived(lab, 'config::Config', 'Serialize', 'serialize', 'serde_json::value::Serializer')
    de = derived(lab, 'config::Config', 'Deserialize', 'deserialize', VALUE)
    prepare(e, lab)
    s = Scn(e, name)
    c = s.val(cfg)
    w = s.call(ser, [s.ref(c), s.val(('a', 0, ()))])

    def good(e, st, vs):
        v = e.head(st, vs[0])
        if v[1] == 1:
            run.fail(st, 'not-written', 'a description cannot be written (%s)' % name)
        run.count('descriptions written')
        return v[2][0]
    j = s.do(good, [w])
    b = s.call(de, [j])

    def end(e, st, vs):
        v = e.head(st, vs[0])
        if v[1] == 1:
            run.fail(st, 'not-read', 'a description cannot be read in the form in which it was written (%s)' % name)
        run.count('descriptions read back')
        if not alike(e, st, v[2][0], cfg):
            run.fail(st, 'other', 'a description that was written and read again is another one (%s): %s' % (name, shown(e, st, v[2][0])))
    s.do(end, [b])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'reading or writing panics (%s: %s)' % (name, str(m)[:100]), stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


FORMS = ('Null', 'Bool', 'Number', 'String', 'Array', 'Object')     # the public enum serde_json::Value


def value(lab, v):
    """a value of the file"""
    form = lambda n, *f: ('a', FORMS.index(n), f)
    if v is None:
        return form('Null')
    if isinstance(v, bool):
        return form('Bool', TRUE if v else FALSE)
    if isinstance(v, int):
        return form('Number', ('a', 0, (('a', 0 if v >= 0 else 1, (('i', v),)),)))
    if isinstance(v, str):
        return form('String', sym(v[1:]) if v[:1] == '$' else ('s', v))
    if isinstance(v, list):
        return form('Array', seq([value(lab, x) for x in v]))
    return form('Object', ('a', 0, (('h', None, tuple((('s', k), value(lab, x)) for k, x in sorted(v.items()))),)))


def reading(run, what, want, name):
    """want: the description meant, or None if it must be refused"""
    lab, e = run.lab, run.e
    de = derived(lab, 'config::Config', 'Deserialize', 'deserialize', VALUE)
    prepare(e, lab)
    s = Scn(e, name)
    b = s.call(de, [s.val(value(lab, what))])

    def end(e, st, vs):
        v = e.head(st, vs[0])
        if v[1] == 1:
            if want is not None:
                run.fail(st, 'refused', 'a description that leaves out what may be left out is refused (%s)' % name)
            run.count('descriptions refused')
            return
        if want is None:
            run.fail(st, 'accepted', 'a description in which something needed is missing or of another kind is taken as something else (%s): %s' % (name, shown(e, st, v[2][0])))
        run.count('descriptions read')
        if not alike(e, st, v[2][0], want):
            run.fail(st, 'meaning', 'a description is not read as what it says (%s): %s' % (name, shown(e, st, v[2][0])))
    s.do(end, [b])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'reading panics (%s: %s)' % (name, str(m)[:100]), stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


PORTS = {'Out': 'out', 'Err': 'err', 'Exit': 'exit'}
BREAKABLE = {'Consume': 'consume', 'Finish': 'finish', 'Terminate': 'terminate'}
KINDS = ('faucet', 'launch', 'junction', 'buffer', 'drain', 'regulator')
NO = dict(command=NONE, path=NONE, env=hm({}), arg=seq([]))


def some_(v):
    return ('a', 1, (v,))


def jobs_C17(tier):
    big = tier != 'quick'

    def launches(run, at, of):
        lab = run.lab
        todo = []
        for c in (None, '$c'):
            for p in (None, '$p'):
                for n in (0, 1, 2):
                    for m in (0, 1, 2):
                        l = dict(command=some_(sym('c')) if c else NONE, path=some_(sym('p')) if p else NONE,
                                 env=hm({'k%d' % i: sym('v%d' % i) for i in range(n)}), arg=seq([sym('a%d' % i) for i in range(m)]))
                        name = 'launch with%s%s %d variables %d arguments' % (' command' if c else '', ' directory' if p else '', n, m)
                        todo.append((name, there_and_back, (config(lab, {}, launch={'l': l}), name)))
                        f = {'cmd': c, 'env': {'k%d' % i: '$v%d' % i for i in range(n)}, 'arg': ['$a%d' % i for i in range(m)]}
                        if p:
                            f['path'] = p
                        if not n:
                            del f['env']
                        if not m:
                            del f['arg']
                        todo.append(('read ' + name, reading, ({'launch': {'l': f}}, config(lab, {}, launch={'l': l}), name)))
        batch(run, todo[at::of])

    def others(run, at, of):
        lab = run.lab
        todo = []
        for b in (None, (0, 0), (3, 7), (1, 1000000)):
            for n in (0, 1, 3):
                v = (some_(('a', 0, (('i', b[0]), ('i', b[1])))) if b else NONE, seq([sym('m%d' % i) for i in range(n)]))
                name = 'regulator with %s and %d buffers' % (b, n)
                c = config(lab, {}, regulator={'r': v})
                todo.append((name, there_and_back, (c, name)))
                f = {'monitored_buffers': ['$m%d' % i for i in range(n)]}
                if b:
                    f['buffered'] = list(b)
                if not n:
                    del f['monitored_buffers']
                todo.append(('read ' + name, reading, ({'regulator': {'r': f}}, c, name)))
        for n in (0, 1, 2, 3):
            c = config(lab, {}, faucet={'f%d' % i: sym('s%d' % i) for i in range(n)}, drain={'f%d' % i: sym('d%d' % i) for i in range(n)},
                       launch={'f%d' % i: dict(NO, command=some_(sym('c%d' % i))) for i in range(n)}, regulator={'f%d' % i: (NONE, seq([sym('r%d' % i)])) for i in range(n)})
            name = '%d of each' % n
            todo.append((name, there_and_back, (c, name)))
            f = {'faucet': {'f%d' % i: {'source': '$s%d' % i} for i in range(n)}, 'drain': {'f%d' % i: {'destination': '$d%d' % i} for i in range(n)},
                 'launch': {'f%d' % i: {'cmd': '$c%d' % i} for i in range(n)}, 'regulator': {'f%d' % i: {'monitored_buffers': ['$r%d' % i]} for i in range(n)}}
            todo.append(('read ' + name, reading, (f, c, name)))
        todo.append(('nothing', reading, ({}, config(lab, {}), 'nothing')))
        todo.append(('standard output', reading, ({'drain': {'d': {}}}, config(lab, {}, drain={'d': ('s', '-')}), 'a drain without a destination')))
        for name, f in (('a faucet without a source', {'faucet': {'f': {}}}), ('a source that is a number', {'faucet': {'f': {'source': 3}}}), ('a destination that is a list', {'drain': {'d': {'destination': ['a']}}}),
                        ('a command that is a list', {'launch': {'l': {'cmd': ['a']}}}), ('arguments that are a text', {'launch': {'l': {'cmd': 'a', 'arg': 'b'}}}), ('an argument that is a number', {'launch': {'l': {'cmd': 'a', 'arg': ['b', 3]}}}),
                        ('variables that are a list', {'launch': {'l': {'cmd': 'a', 'env': ['b']}}}), ('one watermark', {'regulator': {'r': {'buffered': [3]}}}), ('three watermarks', {'regulator': {'r': {'buffered': [3, 4, 5]}}}),
                        ('a watermark below zero', {'regulator': {'r': {'buffered': [-1, 4]}}}), ('a watermark that is a text', {'regulator': {'r': {'buffered': ['1', '4']}}}), ('monitored buffers that are a text', {'regulator': {'r': {'monitored_buffers': 'b'}}}),
                        ('a section that is a list', {'launch': []}), ('a description that is a list of texts', ['a']), ('a connection that is a number', {'connection': {'a': 3}}),
                        ('a connection of an unknown kind', {'connection': {'a': [{'component_type': 'tap', 'component_name': 'x', 'output_port': 'out'}]}}),
                        ('a connection without a name', {'connection': {'a': [{'component_type': 'faucet', 'output_port': 'out'}]}}),
                        ('a connection without a kind', {'connection': {'a': [{'component_name': 'x', 'output_port': 'out'}]}}),
                        ('an unknown output', {'connection': {'a': [{'component_type': 'faucet', 'component_name': 'x', 'output_port': 'side'}]}}),
                        ('an unknown way of closing', {'connection': {'a': [{'component_type': 'drain', 'component_name': 'x', 'priority': 1, 'breakable': 'sometimes'}]}}),
                        ('a connection with neither end', {'connection': {'a': [{'component_type': 'drain', 'component_name': 'x'}]}})):
            todo.append((name, reading, (f, None, name)))
        batch(run, todo[at::of])

    def connections(run, at, of):
        lab = run.lab
        todo = []
        P = lab.port
        texts = lambda v: lab.variant('config::DeserializedConnection', 'JoinString', v)
        lst = lambda v: lab.variant('config::DeserializedConnection', 'Connections', seq(v))

        def whole(sets):
            c = config(lab, {})
            i = lab.field('config::Config', 'connection')
            return c[:2] + (c[2][:i] + (hm(sets),) + c[2][i + 1:],)
        conns = []
        for k in KINDS:
            for p in PORTS:
                conns.append((dict(out=P(p)), {'output_port': PORTS[p]}, k))
            for b in BREAKABLE:
                for pr in (0, 1, -4):
                    i = (('i', pr), lab.breakable(b))
                    f = {'priority': pr, 'breakable': BREAKABLE[b]}
                    conns.append((dict(inp=i), f, k))
                    for p in PORTS if big or k in ('launch', 'junction') and pr < 1 else ('Out',):
                        conns.append((dict(inp=i, out=P(p)), dict(f, output_port=PORTS[p]), k))
        for n, (a, f, k) in enumerate(conns):
            for cs in (None, '$set') if big or n % 3 == 0 else (None,):
                v = connection(lab, k, 'x', cset=some_(sym('set')) if cs else NONE, **a)
                name = 'connection of a %s: %s%s' % (k, sorted(f.items()), ' in a set' if cs else '')
                c = whole({'s': lst([v])})
                todo.append((name, there_and_back, (c, name)))
                g = dict(f, component_type=k, component_name='x')
                if cs:
                    g['connection_set'] = cs
                todo.append(('read ' + name, reading, ({'connection': {'s': [g]}}, c, name)))
                if g.get('breakable') == 'terminate':
                    h = dict(g)
                    del h['breakable']
                    todo.append(('read without closing: ' + name, reading, ({'connection': {'s': [h]}}, c, name)))
        m = lambda k, n: connection(lab, k, n, inp=(('i', 2), lab.breakable('Finish')), out=P('Out'))
        seq1 = [connection(lab, 'faucet', 'a', out=P('Out')), m('launch', 'b'), m('junction', 'c'), connection(lab, 'drain', 'd', inp=(('i', 0), lab.breakable('Terminate')))]
        for name, sets in (('a text', {'s': texts(sym('text'))}), ('two texts', {'s': texts(sym('text')), 't': texts(sym('other'))}), ('a list', {'s': lst(seq1)}), ('an empty list', {'s': lst([])}),
                           ('a text and lists', {'a': lst(seq1), 's': texts(sym('text')), 't': lst(seq1[:1] + seq1[3:])})):
            todo.append((name, there_and_back, (whole(sets), name)))
        todo.append(('read a text', reading, ({'connection': {'s': '$text'}}, whole({'s': texts(sym('text'))}), 'a text')))
        batch(run, todo[at::of])
    return ([('launches %d' % i, launches, (i, 3)) for i in range(3)] + [('other components %d' % i, others, (i, 3)) for i in range(3)] +
            [('connections %d' % i, connections, (i, 10)) for i in range(10)])


EXPLAIN = {'C17': 'The code that writes a description and the code that reads it, as generated or written for each type and instantiated for a tree of values, are interpreted one after the other, with the texts unknown; what is read must be what was written. Trees under the stated names must be read as the description they stand for, or refused.'}
