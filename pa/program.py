"""The program under analysis: types, instances and MIR bodies read from the dump."""
import json, re

TRANSPARENT = {'Box', 'Unique', 'NonNull', 'Pin', 'ManuallyDrop', 'MaybeUninit', 'MaybeDangling'}


def split_generics(s):
    """drop every <...> group that follows a path component (a::<T>::b, A<T>)"""
    out = []
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>' and s[i - 1] not in '-=':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::').rstrip(':')


def top_split(s, sep):
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            depth += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            depth -= 1
        elif depth == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
        i += 1
    return None


def match_angle(s):
    depth = 0
    for i, c in enumerate(s):
        if c == '<':
            depth += 1
        elif c == '>' and s[i - 1] not in '-=':
            depth -= 1
            if depth == 0:
                return i
    return -1


def short_type(s):
    s = s.strip()
    pre = ''
    while True:
        m = re.match(r"^&('\w+ )?(mut )?", s)
        if m and m.group(0):
            pre += '&' + ('mut ' if m.group(2) else '')
            s = s[len(m.group(0)):]
            continue
        break
    if s.startswith('['):
        return pre + ('[T;N]' if re.search(r'; \w+\]$', s) else '[T]')
    s = split_generics(s)
    comps = s.split('::')
    last = comps[-1]
    if len(comps) > 1 and last in ('Entry', 'Iter', 'IterMut', 'IntoIter', 'Keys', 'Values', 'Error', 'File', 'Stdin', 'Stdout', 'Child', 'Command', 'ValuesMut', 'IntoKeys', 'IntoValues', 'Drain'):
        last = comps[-2] + '::' + last
    return pre + last


def short_path(p):
    """std::vec::Vec::<T, A>::push -> Vec::push; <X as Tr>::m -> X.Tr::m; core::slice::<impl [T]>::len -> [T]::len"""
    tail = ''
    if p.startswith('<'):
        e = match_angle(p)
        inner, rest = p[1:e], p[e + 1:].lstrip(':')
        sp = top_split(inner, ' as ')
        if sp:
            tr = split_generics(sp[1]).split('::')[-1]
            return '%s.%s::%s' % (short_type(sp[0]), tr, split_generics(rest))
        return '%s::%s' % (short_type(inner), split_generics(rest))
    i = p.find('<impl ')
    if i >= 0:
        e = i + match_angle(p[i:])
        inner, rest = p[i + 6:e], p[e + 1:].lstrip(':')
        sp = top_split(inner, ' for ')
        if sp:
            tr = split_generics(sp[0]).split('::')[-1]
            return '%s.%s::%s' % (short_type(sp[1]), tr, split_generics(rest))
        return '%s::%s' % (short_type(inner), split_generics(rest))
    s = split_generics(p)
    comps = s.split('::')
    if len(comps) >= 3 and comps[-2] in ('Entry', 'File', 'Stdin', 'Child', 'Command', 'Error'):
        return '::'.join(comps[-3:])
    m = re.search(r'\{closure#\d+\}$', s)
    if m:
        return '::'.join(comps[-3:])
    return '::'.join(comps[-2:])


class Body:
    __slots__ = ('id', 'nargs', 'spread', 'locals', 'names', 'span', 'bbs', 'heads', 'inst', 'synth', 'preds', 'name', 'live_in', 'alias')


class Program:
    def __init__(self, path):
        D = json.load(open(path))
        self.types = D['types']
        for T in self.types:
            if T.get('abs') == 'core::cmp::Ordering':
                for v in T['vs']:
                    v['d'] = -1 if v['d'] == 255 else v['d']
        self.insts = D['insts']
        self.raw = D['bodies']
        self.iters = {int(k): v for k, v in D['iters'].items()}
        self.roots = D['roots']
        self._b = {}
        self.by_path = {}
        for n, i in enumerate(self.insts):
            i['id'] = n
            self.by_path.setdefault(i['path'], []).append(n)
        for n, i in enumerate(self.insts):
            i['short'] = short_path(i['path'])
        for t in self.types:
            if t['k'] == 'adt':
                t['name'] = short_type(t['path'])
                t['tr'] = t['path'].split('::')[-1] in TRANSPARENT
        self.impls = {}
        for n, i in enumerate(self.insts):
            p = i['path']
            if p.startswith('<') and i['body'] >= 0 and i['kind'] == 'item':
                e = match_angle(p)
                sp = top_split(p[1:e], ' as ')
                if sp:
                    m = p[e + 1:].lstrip(':')
                    self.impls.setdefault((split_generics(sp[0]), split_generics(sp[1]), m), []).append(n)

    # -- lookups -------------------------------------------------------------
    def find(self, suffix, local=True):
        """instances (with a body) whose path ends with the given suffix at a :: boundary"""
        r = []
        for p, ns in self.by_path.items():
            q = p
            if q == suffix or q.endswith('::' + suffix) or split_generics(q).endswith('::' + suffix) or split_generics(q) == suffix:
                r += [n for n in ns if self.insts[n]['body'] >= 0 and (self.insts[n]['local'] or not local) and self.insts[n]['kind'] == 'item']
        return r

    def ty_s(self, i):
        return self.types[i]['s']

    def adt(self, name):
        return [i for i, t in enumerate(self.types) if t['k'] == 'adt' and (t['path'] == name or t['path'].endswith('::' + name))]

    # -- bodies --------------------------------------------------------------
    def body(self, b):
        r = self._b.get(b)
        if r is None:
            r = self._b[b] = self._compile(b)
        return r

    def _compile(self, b):
        R = self.raw[b]
        B = Body()
        B.id = b
        B.synth = False
        B.live_in = None
        B.inst = R.get('inst', -1)
        B.nargs = R['args']
        B.spread = R['spread']
        B.locals = R['locals']
        B.names = R['names']
        B.span = R['span']
        B.name = self.insts[B.inst]['path'] if B.inst >= 0 else 'const@' + str(R['span'])
        B.bbs = []
        for bb in R['bbs']:
            if bb is None:
                B.bbs.append(None)
                continue
            ss = []
            for s in bb['s']:
                if s[0] == '=':
                    ss.append(('=', self.place(B, s[1]), self.rv(B, s[2]), s[3]))
                elif s[0] == 'sd':
                    ss.append(('sd', self.place(B, s[1]), s[2]))
                elif s[0] in ('dead', 'live'):
                    ss.append((s[0], s[1]))
            t = dict(bb['t'])
            k = t['t']
            if k == 'switch':
                t['d'] = self.op(B, t['d'])
                t['vs'] = [(int(v), x) for v, x in t['vs']]
            elif k == 'drop':
                t['p'] = self.place(B, t['p'])
            elif k == 'assert':
                t['c'] = self.op(B, t['c'])
            elif k == 'call':
                t['f'] = self.op(B, t['f'])
                t['a'] = [self.op(B, x) for x in t['a']]
                t['d'] = self.place(B, t['d'])
            B.bbs.append((ss, t))
        self._heads(B)
        return B

    def succ(self, t):
        k = t['t']
        if k == 'switch':
            return [x for _, x in t['vs']] + [t['o']]
        if k in ('goto', 'drop', 'assert'):
            return [t['b']]
        if k == 'call':
            return [t['b']] if t['b'] >= 0 else []
        return []

    def _heads(self, B):
        heads = set()
        color = {}
        stack = [(0, iter(self.succ(B.bbs[0][1])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if B.bbs[m] is None:
                    continue
                c = color.get(m, 0)
                if c == 0:
                    color[m] = 1
                    stack.append((m, iter(self.succ(B.bbs[m][1]))))
                    break
                if c == 1:
                    heads.add(m)
            else:
                color[n] = 2
                stack.pop()
        B.heads = heads

    def live(self, B):
        """live-in sets per block over locals and (for coroutine bodies) the coroutine's own slots"""
        if B.live_in is not None:
            return B.live_in
        alias = set()
        cor = B.nargs >= 1 and B.inst >= 0 and self._is_coroutine_body(B)
        if cor:
            alias.add(1)
            for bb in B.bbs:
                for s in bb[0] if bb else ():
                    if s[0] == '=' and not s[1][1] and s[2]['r'] in ('use', 'cast') and s[2]['a'][0] in ('copy', 'move') and s[2]['a'][1][0] == 1:
                        alias.add(s[1][0])
        B.alias = alias

        def acc(pl):
            """(local-ish, extra uses, is whole)"""
            loc, steps = pl[0], pl[1]
            ex = [s[1] for s in steps if s[0] == 'i']
            if loc in alias:
                i = 0
                if i < len(steps) and steps[i][0] == 'f':
                    i += 1
                if i < len(steps) and steps[i][0] == '*':
                    i += 1
                    if i < len(steps):
                        st = steps[i]
                        sl = ('S', ('v', st[1], st[2])) if st[0] == 'sv' else ('S', st[1]) if st[0] in ('f', 'fx') else None
                        if sl is not None:
                            rest = steps[i + 1:]
                            return sl, ex + [loc], not rest, any(x[0] == '*' for x in rest)
                return loc, ex, not steps, bool(steps)
            return loc, ex, not steps, any(x[0] == '*' for x in steps)

        def use(pl, S):
            l, ex, whole, d = acc(pl)
            S.add(l)
            S.update(ex)

        def deff(pl, S):
            l, ex, whole, d = acc(pl)
            if whole:
                S.discard(l)
            elif d:
                S.add(l)
            S.update(ex)

        def opu(o, S):
            if o[0] in ('copy', 'move'):
                use(o[1], S)

        def rvu(r, S):
            for k in ('a', 'b'):
                if k in r and isinstance(r[k], tuple):
                    opu(r[k], S)
            if 'p' in r:
                use(r['p'], S)
            for o in r.get('ops', ()):
                opu(o, S)

        n = len(B.bbs)
        live = [None] * n
        preds = {}
        for i, bb in enumerate(B.bbs):
            if bb is None:
                continue
            for m in self.succ(bb[1]):
                preds.setdefault(m, set()).add(i)
        work = [i for i in range(n) if B.bbs[i] is not None]
        while work:
            i = work.pop()
            ss, t = B.bbs[i]
            S = set()
            for m in self.succ(t):
                if live[m]:
                    S |= live[m]
            k = t['t']
            if k == 'ret':
                S.add(0)
            elif k == 'call':
                deff(t['d'], S)
                for o in t['a']:
                    opu(o, S)
                if t['f'][0] in ('copy', 'move'):
                    opu(t['f'], S)
            elif k == 'switch':
                if t['d'][0] == 'variant':
                    S.add(t['d'][1])
                else:
                    opu(t['d'], S)
            elif k == 'assert':
                opu(t['c'], S)
            elif k == 'drop':
                use(t['p'], S)
            for s in reversed(ss):
                if s[0] == '=':
                    deff(s[1], S)
                    rvu(s[2], S)
                elif s[0] in ('dead', 'live'):
                    S.discard(s[1])
            if live[i] is None or live[i] != S:
                live[i] = S
                work.extend(preds.get(i, ()))
        B.live_in = live
        return live

    def _is_coroutine_body(self, B):
        T = self.types[B.locals[1]]
        for _ in range(3):
            if T['k'] in ('ref', 'ptr'):
                T = self.types[T['e']]
            elif T['k'] == 'adt' and T.get('tr'):
                T = self.types[T['args'][0]]
        return T['k'] == 'coroutine'

    def place(self, B, p):
        """-> (local, steps); steps: ('*', refty, pointee) ('f', i, ownerty, variant) ('sv', variant, i) ('i', local) ('ci', ..) ('sub', ..)"""
        cur = B.locals[p[0]]
        steps = []
        var = None
        for e in p[1:]:
            T = self.types[cur]
            if e[0] == '*':
                if T['k'] in ('ref', 'ptr'):
                    nxt = T['e']
                elif T['k'] == 'adt' and T.get('args'):
                    nxt = T['args'][0]
                else:
                    nxt = cur
                steps.append(('*', cur, nxt))
                cur = nxt
                var = None
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'f':
                if T['k'] == 'coroutine':
                    steps.append(('f', e[1], cur, None) if var is None else ('sv', var, e[1]))
                elif T['k'] == 'adt' and T.get('tr'):
                    pass
                else:
                    steps.append(('f', e[1], cur, var))
                cur = e[2]
                var = None
            elif e[0] == 'i':
                steps.append(('i', e[1]))
                cur = T.get('e', cur)
            elif e[0] in ('ci', 'sub'):
                steps.append(tuple(e))
                cur = T.get('e', cur) if e[0] == 'ci' else cur
            else:
                steps.append(('o',))
        return (p[0], tuple(steps), cur)

    def op(self, B, o):
        if o['o'] in ('copy', 'move'):
            return (o['o'], self.place(B, o['p']))
        if o['o'] == 'const':
            return ('const', o['v'])
        return ('rt',)

    def rv(self, B, r):
        r = dict(r)
        for k in ('a', 'b'):
            if k in r and isinstance(r[k], dict):
                r[k] = self.op(B, r[k])
        if 'p' in r:
            r['p'] = self.place(B, r['p'])
        if 'ops' in r:
            r['ops'] = [self.op(B, x) for x in r['ops']]
        return r
