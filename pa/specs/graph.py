"""Rules about drawings (C27)."""
import re
from ctx import *
import flows as F
import natives as N
from specs.config import batch, connection, config, AWKWARD

KINDS = ('faucet', 'launch', 'junction', 'buffer', 'regulator', 'drain')
KEYWORDS = ('node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')


def plain(v):
    """the characters of a text that is known"""
    if v[0] == 's':
        return v[1]
    if v[0] == 't' and v[1] == 'fmt':
        return ''.join(plain(x) for x in v[2:])
    if v[0] == 't' and v[1] == 'disp':
        return plain(v[2])
    if v[0] == 't' and v[1] == 'dbg' and v[2][0] == 'a' and not v[2][2]:
        return 'variant%d' % v[2][1]
    raise Undecided('text %s' % short(v))


class Dot:
    """a drawing as Graphviz would read it"""

    def __init__(self, run, st, g):
        self.run, self.st, self.lab = run, st, run.lab
        n, f = self.case('Graph', g)
        self.directed = n == 'DiGraph'
        self.strict = f['strict'] == TRUE
        self.nodes, self.edges, self.subs = [], [], []
        self.walk(f['stmts'], ())

    def case(self, ty, v):
        T = self.lab.adt('dot_structures::' + ty)['vs'][v[1]]
        return T['n'], dict(zip([x[0] for x in T['f']], v[2]))

    def ident(self, v):
        n, f = self.case('Id', v)
        s = plain(f['0'])
        if n == 'Anonymous':
            return ''
        if n == 'Html':
            return '<%s>' % s
        if len(s) > 1 and s[0] == '"' == s[-1]:
            b = s[1:-1]
            if re.search(r'(?<!\\)(\\\\)*"', b) or re.search(r'(?<!\\)(\\\\)*\\$', b):
                self.run.fail(self.st, 'unreadable', 'Graphviz cannot read the text %s' % s)
            return b.replace('\\"', '"').replace('\\\\', '\\')
        if not re.fullmatch(r'[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_\u0080-\U0010ffff]*|-?(\.[0-9]+|[0-9]+(\.[0-9]*)?)', s) or s.lower() in KEYWORDS:
            self.run.fail(self.st, 'unreadable', 'Graphviz cannot read the name %s' % s)
        return s

    def attrs(self, q):
        out = {}
        for x in self.items(q):
            n, f = self.case('Attribute', x)
            out[self.ident(f['0'])] = self.ident(f['1'])
        return out

    def items(self, q):
        if q[0] != 'q' or any(x[0] != '1' for x in q[1]):
            raise Undecided('list %s' % short(q))
        return [x[1] for x in q[1]]

    def node_id(self, v):
        n, f = self.case('NodeId', v)
        return self.ident(f['0'])

    def vertex(self, v):
        n, f = self.case('Vertex', v)
        if n != 'N':
            raise Undecided('an edge of a subgraph')
        return self.node_id(f['0'])

    def walk(self, stmts, inside):
        for s in self.items(stmts):
            n, f = self.case('Stmt', s)
            x = f['0']
            if n == 'Node':
                n, f = self.case('Node', x)
                self.nodes.append((self.node_id(f['id']), self.attrs(f['attributes']), inside))
            elif n == 'Subgraph':
                n, f = self.case('Subgraph', x)
                i = [self.ident(f['id']), {}]
                self.subs.append((i, inside))
                self.walk(f['stmts'], inside + (i,))
            elif n == 'Attribute':
                n, f = self.case('Attribute', x)
                if inside:
                    inside[-1][1][self.ident(f['0'])] = self.ident(f['1'])
                else:
                    self.ident(f['0'])
                    self.ident(f['1'])
            elif n == 'Edge':
                n, f = self.case('Edge', x)
                a = self.attrs(f['attributes'])
                k, t = self.case('EdgeTy', f['ty'])
                vs = [self.vertex(t['0']), self.vertex(t['1'])] if k == 'Pair' else [self.vertex(y) for y in self.items(t['0'])]
                for p, q in zip(vs, vs[1:]):
                    self.edges.append((p, q, a, inside))


def printing(e):
    def show(e, st, C):
        v = ('t', 'dot', e.norm(st, N.deep(e, st, C.args[0])))
        return ('t', 'fmt', ('s', 'digraph '), ('t', 'disp', v))
    e.hooks['Graph.DotPrinter::print'] = show
    e.hooks['PrinterContext.Default::default'] = lambda e, st, C: ('t', 'printer')
    e.hooks['PrinterContext::default'] = e.hooks['PrinterContext.Default::default']
    e.hooks['Node::new'] = lambda e, st, C: ('a', 0, tuple(e.norm(st, N.deep(e, st, a)) for a in C.args))

    def stmt(e, st, C):
        ty = re.search(r'From<dot_structures::(\w+)>', e.insts[C.inst]['path'])
        if not ty:
            raise Undecided('a part of a drawing')
        n = {'GraphAttributes': 'GAttribute'}.get(ty.group(1), ty.group(1))
        return printing.lab.variant('dot_structures::Stmt', n, e.norm(st, N.deep(e, st, C.args[0])))
    e.hooks['Stmt.From::from'] = stmt


def drawn(run, flow, mode):
    """flow: {set: [(kind, name, output or None)]}"""
    lab, e = run.lab, run.e
    printing.lab = lab
    printing(e)
    e.WIDEN = 100
    s = Scn(e, 'draw')
    cs = {}
    comps, want = set(), []
    for k in sorted(flow):
        last, cs[k] = None, []
        for i, (kind, name, out) in enumerate(flow[k]):
            inp = (('i', 0), lab.breakable('Terminate')) if i else None
            cs[k].append(connection(lab, kind, name, inp, lab.port(out) if out else None))
            comps.add((kind, name))
            if last:
                want.append((last[:2], (kind, name), last[2]))
            last = (kind, name, out) if out else None
    cfg = config(lab, cs)
    m, border = mode
    mv = lab.variant('GraphMode', m) if m == 'DiagramOnly' else lab.variant('GraphMode', m, border)
    resp = ('a', 0, (lab.variant('UserResponse', 'Graph', N.tup(cfg, mv)),))
    e.hooks[lab.fn('process_user_config_action')['path']] = lambda e, st, C: resp
    e.hooks[lab.fn('get_user_config_action')['path']] = lambda e, st, C: ('t', 'request')
    e.hooks[lab.fn('get_clap_app')['path']] = lambda e, st, C: ('t', 'app')
    for i in lab.P.insts:
        if i['path'].startswith('clap::') and i['path'].endswith('::get_matches'):
            e.hooks[i['path']] = lambda e, st, C: ('t', 'matches')
    fail = lambda st, k, t: run.fail(st, k, t)

    def on(e, st, x):
        if x[0] in ('eprint', 'print', 'exit'):
            st.mon = ('M', st.mon[1] + (x,))
        if x[0] == 'exit' and x[1] != ('i', 0):
            fail(st, 'exit', 'a drawing ends with an error status')
    e.on_event = on
    s.call(lab.fn('main'), [])

    def dot_in(v):
        if isinstance(v, tuple):
            if v[:2] == ('t', 'dot'):
                return v[2]
            for x in v:
                r = dot_in(x)
                if r is not None:
                    return r

    def end(e, st, vs):
        run.count('drawings followed')
        prints = [x for x in st.mon[1] if x[0] == 'print']
        if len(prints) != 1:
            fail(st, 'printed', 'the drawing is printed %d times' % len(prints))
        g = dot_in(prints[0])
        if g is None:
            raise Undecided('what is printed %s' % short(prints[0]))
        d = Dot(run, st, g)
        legend = [i for i, ins in d.subs if not ins and i[1].get('label') == 'Legend']
        of = lambda ins: bool(ins) and ins[0] in legend
        if (m == 'DiagramOnly') == bool(legend):
            fail(st, 'legend', 'the legend is %sdrawn' % ('' if legend else 'not '))
        if legend and legend[0][0].startswith('cluster') != (border == TRUE):
            fail(st, 'border', 'the border of the legend is %sdrawn' % ('' if legend[0][0].startswith('cluster') else 'not '))
        look = {}
        if legend:
            for k in KINDS:
                x = [a for n, a, ins in d.nodes if of(ins) and ins[-1][1].get('label') == k and ins[-1] not in legend]
                if len(x) != 1:
                    fail(st, 'legend-kind', 'the legend does not explain %s' % k)
                look[k] = (x[0].get('shape'), x[0].get('fillcolor'))
            if len(set(look.values())) != len(KINDS) or len(set(x[0] for x in look.values())) != len(KINDS):
                fail(st, 'legend-alike', 'two kinds look alike in the legend')
            lab.look = look
        run.count('kinds explained', len(look))
        look = lab.look
        nodes = [(n, a, ins) for n, a, ins in d.nodes if not of(ins)]
        edges = [x for x in d.edges if not of(x[3])]
        if m == 'LegendOnly':
            if nodes or edges:
                fail(st, 'diagram', 'the diagram is drawn although only the legend was asked for')
            return
        if not d.directed:
            fail(st, 'direction', 'the connections have no direction')
        ids = {}
        for n, a, ins in nodes:
            ids.setdefault(n, []).append((a, ins))
        legend_ids = set(n for n, a, ins in d.nodes if of(ins))
        seen = {}
        for n in ids:
            if n in legend_ids:
                fail(st, 'same-id', 'a component and the legend share the node %s' % n)
            las = set((a.get('shape'), a.get('fillcolor'), a.get('label', n)) for a, ins in ids[n])
            if len(las) > 1:
                fail(st, 'same-id', 'two components are one in the drawing: %s' % sorted(las, key=repr))
            sh, col, la = las.pop()
            run.count('components compared')
            k = [c for c in comps if c[1] == la and look[c[0]] == (sh, col)]
            if len(k) != 1:
                fail(st, 'node', 'a node %s that is %s and %s is drawn: no component of that name looks so in the legend' % (la, sh, col))
            if k[0] in seen.values():
                fail(st, 'twice', '%s %s is drawn twice' % k[0])
            seen[n] = k[0]
            for a, ins in ids[n]:
                cl = [i for i in ins if i[0].startswith('cluster')]
                sets = [x for x in flow if any(c[:2] == k[0] for c in flow[x])]
                if cl and not any(cl[-1][1].get('label', '').startswith(x) for x in sets):
                    fail(st, 'set', '%s %s is drawn in the connection set %s' % (k[0] + (cl[-1][1].get('label'),)))
                edge = k[0][0] == 'junction' and any(k[0] in (flow[x][0][:2], flow[x][-1][:2]) for x in sets)
                if not cl and '' not in sets and not edge:
                    fail(st, 'set', '%s %s is drawn in no connection set' % k[0])
        for c in comps:
            if c not in seen.values():
                fail(st, 'missing', '%s %s is not drawn' % c)
        cl = {}
        for i, ins in d.subs:
            if i[0].startswith('cluster'):
                if cl.setdefault(i[0], i[1].get('label')) != i[1].get('label'):
                    fail(st, 'same-set', 'two connection sets are one in the drawing: %s' % i[0])
        got = []
        for p, q, a, ins in edges:
            if p not in seen or q not in seen:
                fail(st, 'edge', 'a connection of something that is no component is drawn: %s -> %s' % (p, q))
            got.append((seen[p], seen[q], a.get('label', '')))
        run.count('connections compared', len(want))
        cut = lambda q: sorted((a, b) for a, b, c in q)
        if cut(got) != cut(want):
            miss = [x for x in cut(want) if cut(want).count(x) > cut(got).count(x)]
            more = [x for x in cut(got) if cut(got).count(x) > cut(want).count(x)]
            fail(st, 'connections', 'the connections drawn are not those described: missing %s, in addition %s' % (miss[:3], more[:3]))
        if d.strict and len(set(cut(got))) != len(got):
            fail(st, 'merged', 'several connections between the same two components are drawn as one')
        names = {}
        for p in sorted(set((a, b) for a, b, c in want)):
            l1 = sorted(names.setdefault(c, set()) and c or c for a, b, c in want if (a, b) == p)
            l2 = sorted(c for a, b, c in got if (a, b) == p)
            if len(set(l1)) == 1:
                for c in l2:
                    names[l1[0]].add(c)
            elif len(set(l1)) != len(set(l2)) or sorted(l1.count(c) for c in set(l1)) != sorted(l2.count(c) for c in set(l2)):
                fail(st, 'labels', 'outputs cannot be told apart: %s' % l2)
        for c in names:
            if c == 'Out' and names[c] - {''} or c != 'Out' and ('' in names[c] or len(names[c]) > 1):
                fail(st, 'label', 'a connection that leaves output %s is called %s' % (c, sorted(names[c])))
        if names.get('Err') and names.get('Err') == names.get('Exit'):
            fail(st, 'labels', 'outputs cannot be told apart: %s' % sorted(names['Err']))
    s.do(end, [])
    e.on_panic = lambda e, st, m: run.fail(st, 'panic', 'drawing panics (%s)' % str(m)[:100], stop=False)
    st = s.state()
    st.mon = ('M', ())
    run.explore(st)


def flows_to_draw(tier):
    O = 'Out'
    out = []
    # every two kinds, every output
    for a in KINDS[:-1]:
        for b in KINDS[1:]:
            for o in ('Out', 'Err', 'Exit') if a == 'launch' else (O,):
                out.append({'s': [(a, 'a', o), (b, 'b', None)]})
                out.append({'s': [(a, 'x', o), (b, 'x', None)]})
    chain = [('faucet', 'f', O), ('launch', 'l', O), ('junction', 'j', O), ('buffer', 'b', O), ('regulator', 'r', O), ('drain', 'd', None)]
    out.append({'s': chain})
    for n in range(1, 5):
        out.append({'s': chain[:n] + [chain[n][:2] + (None,)], 't': chain[n:]})
        out.append({'t': chain[:n] + [chain[n][:2] + (None,)], 's': chain[n:]})
    for i in range(1, 4):
        for k in range(i + 1, 5):
            out.append({'a': chain[:i] + [chain[i][:2] + (None,)], 'b': chain[i:k] + [chain[k][:2] + (None,)], 'c': chain[k:]})
            out.append({'c': chain[:i] + [chain[i][:2] + (None,)], 'a': chain[i:k] + [chain[k][:2] + (None,)], 'b': chain[k:]})
    f, d = ('faucet', 'f', O), ('drain', 'd', None)
    l = lambda o: ('launch', 'l', o)
    j = ('junction', 'j', O)
    J = ('junction', 'j', None)
    # several connections between the same two, loops, sharing
    out.append({'s': [f, l(O), j, d], 't': [l('Err'), J]})
    out.append({'s': [f, l(O), j, d], 't': [l('Err'), J], 'u': [l('Exit'), J]})
    out.append({'s': [f, l(O), j, d], 't': [l(O), J]})
    out.append({'s': [f, l(O), j, d], 't': [l('Err'), J], 'u': [l('Err'), J], 'v': [l('Exit'), J]})
    out.append({'s': [f, j, l(O), d], 't': [l('Err'), J]})
    out.append({'s': [f, j, l(O), j, d]})
    out.append({'s': [f, l(O), d], 't': [l('Err'), ('drain', 'e', None)], 'u': [l('Exit'), ('drain', 'x', None)]})
    out.append({'s': [f, l(O), d], 't': [l('Err'), d]})
    out.append({'s': [f, j, j, d]})
    out.append({'s': [f, ('launch', 'a', O), J], 't': [f, ('launch', 'b', O), J], 'u': [j, d]})
    # the same name for every kind, many of everything
    out.append({'s': [(k, 'x', o) for k, n, o in chain]})
    out.append({'s': [('faucet', 'x', O), ('launch', 'x', O), ('launch', 'y', O), ('junction', 'y', O), ('buffer', 'y', O), ('drain', 'y', None)]})
    out.append({'s%d' % i: [('faucet', 'f%d' % i, O), ('launch', 'l%d' % (i // 2), ('Out', 'Err')[i % 2]), ('drain', 'd%d' % i, None)] for i in range(12)})
    out.append({'s%d' % i: [('junction', 'j', O), ('launch', 'l%d' % i, O), J] for i in range(6)})
    out.append({'s': [f] + [('launch', 'l%d' % i, O) for i in range(14)] + [d]})
    out.append({'s%d' % i: [('launch', 'l%d' % i, O), ('launch', 'l%d' % (i + 1), None)] for i in range(11)})
    # components of the same name in different sets
    for a in KINDS:
        for b in KINDS:
            if a < b:
                one = {'faucet': [(a, 'x', O), ('junction', 'j', O), d], 'drain': [f, ('junction', 'j', O), (a, 'x', None)]}.get(a, [f, ('launch', 'm', O), (a, 'x', O), d])
                two = {'faucet': [(b, 'x', O), ('launch', 'k', O), d], 'drain': [('junction', 'j', O), ('launch', 'k', O), (b, 'x', None)]}.get(b, [('faucet', 'g', O), ('launch', 'k', O), (b, 'x', O), ('drain', 'e', None)])
                out.append({'s': one, 't': two})
                out.append({'t': one, 's': two})
    # sets with and without ends of the pipeline
    out.append({'mid': [l(O), J], 'top': [f, l(None)], 'end': [j, d]})
    out.append({'a': [f, J], 'b': [('faucet', 'g', O), J], 'c': [j, d], 'd': [j, ('drain', 'e', None)]})
    out.append({'none': [], 's': [f, d]})
    out.append({})
    # names that mean something to Graphviz or to the program
    names = ('a_long_name', 'node', 'Graph', 'edge', 'digraph', 'subgraph', 'strict', '2x', '-1', '1.5', 'my-name', 'a b', 'a.b', 'a"b', 'a\\b', 'a\\', '"', '', '<b>', 'é', 'l_l', 'a;b', '{x}', 'legend_launch', 'a->b', 'a:b', 'x,y', '#')
    for n in names:
        out.append({'s': [('faucet', n, O), ('launch', n, O), ('drain', n, None)]})
        out.append({n: [('faucet', 'f', O), ('launch', 'l', O), ('drain', 'd', None)], n + '2': [('launch', 'l', 'Err'), ('drain', 'e', None)]})
    out.append({'s': [('launch', 'l_x', O), ('launch', 'x', O), ('launch', 'b_x', O), ('buffer', 'x', None)]})
    out.append({'a"': [f, l(O), d], 'a': [l('Err'), ('drain', 'e', None)], 'a\\"': [l('Exit'), ('drain', 'x', None)]})
    for n in AWKWARD:
        out.append({n: [('faucet', n, O), ('launch', n, O), ('drain', n, None)]})
    return out


MODES = (('Full', FALSE), ('Full', TRUE), ('DiagramOnly', FALSE), ('LegendOnly', FALSE), ('LegendOnly', TRUE))


def drawings(run, lo, hi, tier):
    todo = [('LegendOnly', drawn, ({}, ('LegendOnly', FALSE)))]
    for i, fl in enumerate(flows_to_draw(tier)):
        for k, m in enumerate(MODES):
            # the modes for some, both parts for all
            if (k == 0 or i % 16 == 3) and i % hi == lo:
                todo.append(('%s %s' % (m[0], short(fl, 100)), drawn, (fl, m)))
    batch(run, todo)


def jobs_C27(tier):
    return [('drawings %d of 16' % (i + 1), drawings, (i, 16, tier)) for i in range(16)]


EXPLAIN = {'C27': 'The drawing is the value that is handed to the DOT printer; its text parts are read by the rules of the DOT language.'}
