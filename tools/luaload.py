"""Lua-table documents: random ones, and single defects of them, for
LoadLua.tla.

A value is None, a bool, a number, a string, a T (table) or an X (some other
value, as Lua text).
"""
import copy, random


class T:
    def __init__(self, *a, **h):
        self.a, self.h = list(a), h


class X:
    def __init__(self, text):
        self.text = text


def lit(x, r):
    """A value as Lua text."""
    if x is None:
        return 'nil'
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, (int, float)):
        return repr(x)
    if isinstance(x, X):
        return x.text
    if isinstance(x, str):
        q = r.random()
        if q < .1 and ']' not in x:
            return '[[%s]]' % x
        q = "'" if q < .8 else '"'
        return q + x.replace('\\', '\\\\').replace(q, '\\' + q) + q
    out = [lit(v, r) for v in x.a]
    for k, v in x.h.items():
        out.append('%s=%s' % ('[ %s ]' % lit(k, r) if not k.isidentifier() or r.random() < .2 else k, lit(v, r)))
    return '{%s}' % r.choice([', ', ',\n ', ';']).join(out)


def js(x):
    """A value as LoadLua.tla reads it."""
    if x is None:
        return {'k': 'nil'}
    if isinstance(x, bool):
        return {'k': 'b', 'v': x}
    if isinstance(x, (int, float)):
        return {'k': 'n', 'v': repr(x)}
    if isinstance(x, str):
        return {'k': 's', 'v': x}
    if isinstance(x, X):
        return {'k': 'o'}
    a = [js(v) for v in x.a]
    while a and a[-1]['k'] == 'nil':
        a.pop()
    return {'k': 't', 'a': a, 'h': {k: js(v) for k, v in x.h.items() if v is not None}, 'o': False}


class Gen:
    def __init__(self, r, depth=3):
        self.r, self.n, self.max = r, 0, depth

    def id(self, pre):
        self.n += 1
        q = self.r.random()
        if q < .03:
            return self.n
        if q < .06:
            return '%s%s%d' % (pre, self.r.choice('.@<'), self.n)
        return '%s%d' % (pre, self.n)

    def maybe(self, p, x):
        return x if self.r.random() < p else None

    def media(self):
        r = self.r
        props = None
        if r.random() < .7:
            props = T()
            for n in r.sample(['left', 'top', 'width', 'zIndex', 'foo', 'explicitDur', 'x.y', 'Foo'], r.randint(0, 3)):
                props.h[n] = r.choice(['10%', '0', '3s', 'abc', '', 5, 2.5])
            if r.random() < .4:
                props.h[r.choice(['src', 'src', 'SRC'])] = r.choice(['a.png', 'sub/b.mp4', 'http://h/c.png', '/tmp/d.png'])
            if r.random() < .3:
                t = T(type=r.choice(['barWipe', 'fade']))
                for n in r.sample(['subtype', 'dur', 'startProgress', 'endProgress', 'direction', 'fadeColor',
                                   'horzRepeat', 'vertRepeat', 'borderWidth', 'borderColor', 'other'], r.randint(0, 4)):
                    t.h[n] = r.choice(['1s', 'x', 2, 0.5])
                props.h[r.choice(['transIn', 'transOut', 'transin'])] = t
        areas = None
        if r.random() < .5:
            areas = T(*[T('a%d' % k, *r.choice([(), ('1s',), ('1s', '3s'), (None, '2s'), (2, 4), ('0.5', '00:00:02'),
                                               (1.5,)])) for k in range(r.randint(0, 3))])
        return self.trim(T('media', self.id('m'), props, areas))

    def trim(self, t):
        while t.a and t.a[-1] is None and self.r.random() < .7:
            t.a.pop()
        return t

    def any(self, depth):
        q = self.r.random()
        if depth <= 0 or q < .6:
            return self.media()
        return self.context(depth - 1) if q < .85 else self.switch(depth - 1)

    def kids(self, depth):
        return [self.any(depth) for _ in range(self.r.randint(0, 3))]

    def switch(self, depth):
        ks = self.kids(depth)
        rules = [T(k.a[1], self.pred([])) for k in ks for _ in range(self.r.randint(0, 2))]
        self.r.shuffle(rules)
        return self.trim(T('switch', self.id('s'), T(*ks), self.maybe(.8, T(*rules))))

    def events(self, k):
        """Names of the events of a child."""
        i = k.a[1]
        evs = ['%s@%s' % (i, self.r.choice(['lambda', 'lambda', '@lambda', 'LAMBDA']))]
        if k.a[0] == 'media' and len(k.a) > 3 and k.a[3]:
            evs += ['%s@%s' % (i, a.a[0]) for a in k.a[3].a]
        if k.a[0] != 'switch' and len(k.a) > 2 and k.a[2]:
            evs += ['%s.%s' % (i, 'uri' if n.lower() == 'src' and k.a[0] == 'media' else n) for n in k.a[2].h]
        return evs

    def event(self, ks):
        r = self.r
        k = r.choice(ks)
        if r.random() < .2:
            return '%s<%s>' % (k.a[1], r.choice(['RED', 'BLUE', '', '0']))
        return r.choice(self.events(k))

    def pred(self, ks, depth=2):
        r = self.r
        q = r.random()
        if depth <= 0 or q < .35:
            if q < .1:
                return T(r.random() < .5)
            l = r.choice(['1', 'x', 3] + ['$' + self.events(k)[-1] for k in ks])
            return T(l, r.choice(['==', '!=', '<', '<=', '>', '>=']), r.choice(['1', 'y', 2.5, '']))
        if q < .5:
            return T(r.choice(['not', 'NOT']), self.pred(ks, depth - 1))
        return T(r.choice(['and', 'or', 'And']), self.pred(ks, depth - 1), self.pred(ks, depth - 1))

    def link(self, ks):
        r = self.r
        tr = ['start', 'stop', 'pause', 'resume', 'abort', 'Start', 'set']
        conds = [self.trim(T(r.choice(tr), self.event(ks), self.maybe(.4, self.pred(ks))))
                 for _ in range(r.randint(1, 3))]
        acts = []
        for _ in range(r.randint(1, 3)):
            par = None
            if r.random() < .4:
                par = T()
                if r.random() < .7:
                    par.h['delay'] = r.choice(['1s', '0s', 2, '$m1.x'])
                if r.random() < .5:
                    par.h['duration'] = r.choice(['1s', 0.5])
            acts.append(self.trim(T(r.choice(tr), self.event(ks), self.maybe(.4, r.choice(['v', '', 7, '$a.b'])), par)))
        return T(T(*conds), T(*acts))

    def context(self, depth):
        r = self.r
        ks = self.kids(depth)
        props = T(**{n: r.choice(['1', 'x', 4]) for n in r.sample(['p', 'q', 'z'], r.randint(0, 2))})
        me = self.id('c')
        kids = T(*ks)
        if ks and r.random() < .1:   # a child with a name
            kids.h['last'] = kids.a.pop()
        t = T('context', me, self.maybe(.6, props),
              self.maybe(.7, T(*[r.choice(self.events(r.choice(ks))) for _ in range(r.randint(0, 3))] if ks else [])),
              self.maybe(.95, kids) if not ks else kids,
              T(*[self.link(ks) for _ in range(r.randint(0, 2))]) if ks else self.maybe(.5, T()))
        return self.trim(t)

    def doc(self):
        t = self.context(self.max)
        t.a[1] = self.r.choice(['ncl', 'doc', 'n'])
        return t


def slots(x, path=()):
    """All places of a table tree."""
    out = []
    for k, v in list(enumerate(x.a)) + list(x.h.items()):
        out.append(path + (k,))
        if isinstance(v, T):
            out += slots(v, path + (k,))
    return out


def get(x, path):
    for k in path:
        x = x.a[k] if isinstance(k, int) else x.h[k]
    return x


OTHERS = [None, True, False, 0, 7, 'foo', '', T(), T('foo'), T(T()), X('print'), T(foo='bar')]


def texts(s, ids):
    """What a string may be mistaken for."""
    out = [s + 'x', s[:-1], s.upper(), s + '@lambda', s + '.x', s + '<', s + '>', s + '<K>', '@' + s, '.' + s, '<' + s + '>',
           s.replace('@', '.'), s.replace('@', '@@'), s.replace('.', '@'), s.replace('<', '@'), s.replace('>', ''),
           ' ' + s, '__settings__@lambda', '__settings__.service.currentFocus', '__settings__.x', '__root__@lambda',
           '==', '>=', 'not', 'and', 'start', 'media', 'context', 'switch', 'lookat', '1s', 'x1s', '-', '$']
    out += ids
    for i in ids:
        for sep in '@.<':
            if sep in s:
                out.append(i + sep + s.split(sep, 1)[1])
    return [x for x in dict.fromkeys(out) if x != s]


def put(root, path, v):
    p = get(root, path[:-1])
    if isinstance(path[-1], int):
        p.a[path[-1]] = v
    else:
        p.h[path[-1]] = v


def defects(root):
    """All single defects of a document."""
    ids = []

    def collect(x):
        if isinstance(x, T):
            if len(x.a) > 1 and x.a[0] in ('media', 'context', 'switch'):
                ids.append(str(x.a[1]))
            for v in x.a + list(x.h.values()):
                collect(v)
    collect(root)
    out = []
    for p in slots(root):
        v = get(root, p)
        out += [(p, 'put', o) for o in OTHERS]
        if isinstance(v, str):
            out += [(p, 'put', o) for o in texts(v, ids)]
        out.append((p, 'drop', None))
        out.append((p, 'dup', None))
        if isinstance(v, T):
            out += [(p, 'add', o) for o in OTHERS] + [(p, 'key', o) for o in OTHERS]
    return out


def apply(root, d):
    p, op, v = d
    root = copy.deepcopy(root)
    v = copy.deepcopy(v)
    par, k = get(root, p[:-1]), p[-1]
    if op == 'put':
        put(root, p, v)
    elif op == 'drop':
        if isinstance(k, int):
            par.a.pop(k)
        else:
            par.h.pop(k)
    elif op == 'dup':
        if isinstance(k, int):
            par.a.insert(k, copy.deepcopy(par.a[k]))
        else:
            par.h[k + '2'] = copy.deepcopy(par.h[k])
    elif op == 'add':
        get(root, p).a.append(v)
    elif op == 'key':
        get(root, p).h['extra'] = v
    return root


MAINS = ['main.lua', 'sub/main.lua']


def scn(i, root, r, main=None):
    t = lit(root, r)
    text = r.choice(['return %s', 'ncl = %s\nreturn ncl', 'local x = %s return x, 1', '-- c\nncl=%s return ncl\n'])
    main = r.choice(MAINS + ['']) if main is None else main
    return {'id': i, 'kind': 'parselua', 'ncl': text % t, 'tab': js(root), 'main': main, 'files': {}}


CHUNKS = ['', 'return', 'return nil', 'return 3', 'error({})', 'error()', 'error("x")', 'error(true)', 'return print',
          'return "context"', 'return {}, {}', 'x x', 'return {', 'return {[0]="context"}', 'return setmetatable({}, {})',
          'local t = {"context", "n"} t[5] = {t} return t',
          'local p = {"not"} p[2] = p return {"context", "n", nil, nil, {{"media", "m"}}, {{{{"start", "m@lambda", p}}, '
          '{{"stop", "m@lambda"}}}}}', 'return {"context", "n", [3] = {[1.5] = "x"}}',
          'return {"context", "n", nil, nil, {{"media", "m", {[{}] = "x"}}}}', 'return coroutine.create(print)', '\\', '\0']


def scenarios(seed, n, prefix, depth=3, n_defects=6):
    out = []
    i = 0
    while len(out) < n:
        r = random.Random('%s/%s/%d' % (seed, prefix, i))
        root = Gen(r, depth).doc()
        out.append(scn('%s%d' % (prefix, i), root, r))
        ds = defects(root)
        for k in range(min(n_defects, len(ds))):
            out.append(scn('%s%d.%d' % (prefix, i, k), apply(root, r.choice(ds)), r))
        t = out[-1]['ncl']
        cut = t[:r.randrange(max(1, t.rfind('return')))]
        out.append(dict(out[-1], id='%s%d.c' % (prefix, i), ncl=cut, tab=js(None)))
        i += 1
    return out[:n]


CORE = T('context', 'n', T(p='1', q=2), T('m1@lambda', 'm1@a1', 'c1@lambda', 's1@LAMBDA', 'm1.x', 'm1@lambda'), T(
    T('media', 'm1', T(src='a.png', x='1', transIn=T(type='fade', dur='1s'), transOut=T(type='barWipe', subtype='l', dur=2)),
      T(T('a1', '1s', '2.5s'), T('a2', None, '3s'), T('a3'))),
    T('context', 'c1', T(z='0'), T('m2@lambda'), T(T('media', 'm2'), T('context', 'c2', None, None, T(T('media', 'm3')))),
      T(T(T(T('stop', 'm2@lambda')), T(T('start', 'c2@lambda'))))),
    T('switch', 's1', T(T('media', 'm4'), T('context', 'c3', None, T('m5@lambda'), T(T('media', 'm5'))),
                        T('switch', 's2', T(T('media', 'm6')), T(T('m6', T(True))))),
      T(T('m4', T('$m1.x', '==', '1')), T('c3', T('and', T('not', T('x', '<', 'y')), T('or', T(True), T(False)))),
        T('s2', T('1', '>=', 2)))),
    T('media', 'm7', None, T(T('b1', 1, '00:00:04')))),
    T(T(T(T('start', 'm1@a1', T('or', T('1', '!=', '2'), T(True))), T('set', 'm1.x'), T('stop', 'm7<RED>'),
          T('pause', 'c1@lambda')),
        T(T('set', 'm1.x', 'v', T(delay='1s', duration='2s')), T('stop', 's1@lambda'), T('resume', 'm1.uri', 5),
          T('abort', 'm7@b1', None, T(delay=1)))),
      T(T(T('start', 'm7<>')), T(T('start', 'm1@@lambda')))))


def core(seed, prefix, limit=None):
    r = random.Random('%s/%s' % (seed, prefix))
    out = [scn(prefix, CORE, r, 'main.lua')]
    ds = defects(CORE)
    if limit and len(ds) > limit:
        ds = r.sample(ds, limit)
    out += [scn('%s-%d' % (prefix, k), apply(CORE, d), r, 'main.lua') for k, d in enumerate(ds)]
    out += [{'id': '%s-c%d' % (prefix, k), 'kind': 'parselua', 'ncl': t, 'tab': js(None), 'main': m, 'files': {}}
            for k, (t, m) in enumerate((t, m) for t in CHUNKS for m in ('', 'main.lua'))]
    return out
