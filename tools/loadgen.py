"""Documents for Load.tla: the ones of gen.py made richer (regions, descriptors,
transitions, imports, connectors of all shapes), and single defects of them.

Elements are [tag, attributes, children]; text and comments are strings.
"""
import copy, posixpath, random
import xml.etree.ElementTree as ET
from xml.sax.saxutils import quoteattr
import gen, load

W, H = load.W, load.H


def parse(text):
    def conv(e):
        return [e.tag, dict(e.attrib), [conv(c) for c in e]]
    return conv(ET.fromstring(text))


def render(e):
    if isinstance(e, str):
        return e
    a = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in e[1].items())
    if not e[2]:
        return '<%s%s/>' % (e[0], a)
    return '<%s%s>%s</%s>' % (e[0], a, ''.join(render(c) for c in e[2]), e[0])


def walk(e, par=None):
    if isinstance(e, str):
        return
    yield e, par
    for c in e[2]:
        yield from walk(c, e)


def kids(e, t):
    return [c for c in e[2] if c[0] == t]


def all_of(root, *ts):
    return [e for e, _ in walk(root) if e[0] in ts]


# --------------------------------------------------------------------------

BASE = dict(p_regions=.5, p_trans=.4, p_imports=.25, p_shuffle=.3, p_noise=.2, p_conn=.4, p_main=.4, p_odd_ids=.1,
            p_descs=.5, p_defects=.5, scope=None, depth=3, p_ctx=.35, p_switch=.3, p_refer=.25, p_settings=.5,
            p_guard=.35, p_sel=.25, p_look=.1, kids=(1, 3), subkids=(1, 2), links=(0, 3), sublinks=(0, 1), p_self=.2,
            p_delay=.3, n_imports=(1, 3))

SIZES_W = ['0', '40', '80', '100', '160', '400', '50%', '25%', '10%', '12.5%', '100%', '7.5%', '240.4']
TR = ['barWipe', 'fade', 'irisWipe']


class Doc:
    def __init__(self, rng, o):
        self.r, self.o = rng, o
        g = gen.Gen(rng, **{k: v for k, v in o.items() if k in gen.BASE})
        self.root = parse(gen.render(g.doc()))
        self.files = {}
        self.n = 0
        self.ids = {e[1]['id'] for e, _ in walk(self.root) if 'id' in e[1]}
        heads = kids(self.root, 'head')
        if not heads:
            self.root[2].insert(0, ['head', {}, []])
        self.head = kids(self.root, 'head')[0]
        self.body = kids(self.root, 'body')[0]
        if self.p('p_trans'):
            self.transitions()
        if self.p('p_regions'):
            self.regions()
        if self.p('p_descs'):
            self.descriptors()
        self.connectors()
        self.extras()
        if self.p('p_odd_ids'):
            self.odd_ids()
        if self.p('p_imports'):
            for _ in range(rng.randint(*o['n_imports'])):
                self.externalise(self.root, '')
        if self.p('p_shuffle'):
            for e, _ in walk(self.root):
                if e[0] in ('head', 'body', 'context', 'media', 'switch', 'link', 'bind', 'regionBase', 'region',
                            'descriptorBase', 'descriptor', 'ncl') and rng.random() < .6:
                    rng.shuffle(e[2])
        if self.p('p_noise'):
            self.noise()

    def p(self, k):
        return self.r.random() < self.o[k]

    def fresh(self, pre):
        self.n += 1
        return '%s%d' % (pre, self.n)

    def base(self, t, where=None):
        bs = kids(self.head, t)
        if bs and self.r.random() < .8:
            return self.r.choice(bs)
        b = [t, {'id': self.fresh('base')} if self.r.random() < .3 else {}, []]
        self.head[2].insert(self.r.randint(0, len(self.head[2])), b)
        return b

    def transitions(self):
        r = self.r
        for _ in range(r.randint(1, 3)):
            a = {'id': self.fresh('tr'), 'type': r.choice(TR)}
            for n, vs in (('subtype', ['topToBottom', 'crossfade']), ('dur', ['1s', '2', '']),
                          ('startProgress', ['0.5']), ('endProgress', ['1']), ('direction', ['reverse', 'forward']),
                          ('fadeColor', ['red', '']), ('horzRepeat', ['2']), ('vertRepeat', ['3']),
                          ('borderWidth', ['1']), ('borderColor', ['blue'])):
                if r.random() < .25:
                    a[n] = r.choice(vs)
            self.base('transitionBase')[2].append(['transition', a, []])

    def region(self, depth):
        r = self.r
        a = {'id': self.fresh('rg')}
        for n in ('left', 'top', 'width', 'height', 'right', 'bottom'):
            if r.random() < .45:
                a[n] = r.choice(SIZES_W)
        if r.random() < .5:
            a['zIndex'] = str(r.randint(0, 5))
        if r.random() < .2:
            a['title'] = 'a title'
        return ['region', a, [self.region(depth - 1) for _ in range(r.randint(0, 2))] if depth else []]

    def regions(self):
        for _ in range(self.r.randint(1, 3)):
            self.base('regionBase')[2].append(self.region(2))

    def descriptors(self):
        r = self.r
        regs = [e[1]['id'] for e in all_of(self.head, 'region')]
        trs = [e[1]['id'] for e in all_of(self.head, 'transition')]
        names = ['x', 'y', 'left', 'width', 'explicitDur', 'zIndex', 'soundLevel', 'background', 'fit']
        ds = []
        for _ in range(r.randint(1, 3)):
            a = {'id': self.fresh('ds')}
            ds.append(a['id'])
            if regs and r.random() < .7:
                a['region'] = r.choice(regs)
            for n in ('transIn', 'transOut'):
                if trs and r.random() < .4:
                    a[n] = r.choice(trs)
            for n, vs in (('explicitDur', ['5s', '7s', '']), ('freeze', ['true', 'false']), ('player', ['p']),
                          ('moveLeft', ['1']), ('moveUp', ['2']), ('focusIndex', ['1', '']),
                          ('focusBorderColor', ['red']), ('left', ['10', '10%']), ('width', ['50%']),
                          ('zIndex', ['4'])):
                if r.random() < .2:
                    a[n] = r.choice(vs)
            ps = [['descriptorParam', {'name': r.choice(names), 'value': r.choice(['1', '', '50%', 'blue', '2s'])}, []]
                  for _ in range(r.choice([0, 0, 1, 2, 3]))]
            self.base('descriptorBase')[2].append(['descriptor', a, ps])
        for m in all_of(self.body, 'media'):
            if r.random() < .55:
                m[1]['descriptor'] = r.choice(ds)

    # connectors and links: the same meaning in other shapes, or another one
    def connectors(self):
        r = self.r
        links = all_of(self.body, 'link')
        by = {c[1]['id']: c for c in all_of(self.head, 'causalConnector')}
        for c in by.values():
            if self.p('p_conn'):
                self.reshape(c)
        for l in links:
            if not self.p('p_conn'):
                continue
            k = r.random()
            binds = kids(l, 'bind')
            if k < .2:     # the same connector in two links
                l2 = copy.deepcopy(l)
                for e, par in walk(self.body):
                    if e is l:
                        par[2].insert(r.randint(0, len(par[2])), l2)
                        break
                r.shuffle(l2[2])
            elif k < .4:   # more binds
                b = copy.deepcopy(r.choice(binds))
                l[2].append(b)
            elif k < .6:   # parameters of link and bind of the same name
                for e, _ in list(walk(l)):
                    if e[0] == 'bindParam' and r.random() < .5:
                        l[2].insert(0, ['linkParam', {'name': e[1]['name'], 'value': 'other'}, []])
                        break
                else:
                    l[2].append(['linkParam', {'name': 'unused', 'value': ''}, []])
            elif k < .8:   # parameters given twice, unused, empty
                for e, par in list(walk(l)):
                    if e[0] in ('bindParam', 'linkParam'):
                        par[2].append([e[0], {'name': e[1]['name'], 'value': r.choice(['', 'w', e[1]['value']])}, []])
                        break
            else:
                l[1]['id'] = self.fresh('ln')

    def reshape(self, c):
        r = self.r
        for e, _ in list(walk(c)):
            if e[0] in ('simpleCondition', 'simpleAction'):
                role = e[1]['role']
                tr = 'transition' if e[0] == 'simpleCondition' else 'actionType'
                if role in gen.RESERVED and r.random() < .3:
                    ty, t = gen.RESERVED[role]
                    if r.random() < .7:
                        e[1]['eventType'] = ty
                    if r.random() < .7:
                        e[1][tr] = t + r.choice(['', 's'])
                elif tr in e[1] and r.random() < .3:
                    e[1][tr] += 's'
                if e[0] == 'simpleCondition' and r.random() < .15:
                    e[1]['delay'] = '1s'
                if r.random() < .1:
                    e[1]['max'] = 'unbounded'
        for e, par in list(walk(c)):
            # wrap
            if r.random() > .25 or par is None or isinstance(e, str):
                continue
            k = par[2].index(e)
            if e[0] in ('simpleCondition', 'compoundCondition'):
                par[2][k] = ['compoundCondition', {'operator': r.choice(['and', 'or'])}, [e]]
            elif e[0] in ('simpleAction', 'compoundAction'):
                par[2][k] = ['compoundAction', {'operator': r.choice(['seq', 'par'])}, [e]]
            elif e[0] in ('assessmentStatement', 'compoundStatement'):
                par[2][k] = ['compoundStatement', {'operator': 'not'}, [e]] if r.random() < .5 else \
                    ['compoundStatement', {'operator': r.choice(['and', 'or']),
                                           'isNegated': r.choice(['false', 'true', 'TRUE', 'False'])},
                     [e, ['assessmentStatement', {'comparator': 'eq'},
                          [['valueAssessment', {'value': '1'}, []], ['valueAssessment', {'value': ''}, []]]]]]
        if r.random() < .2:
            c[2].insert(r.randint(0, len(c[2])), ['connectorParam', {'name': 'val'}, []])
        if r.random() < .3:
            r.shuffle(c[2])
        if r.random() < .12:    # two roles of one name
            xs = all_of(c, 'simpleCondition', 'simpleAction')
            r.choice(xs)[1]['role'] = r.choice(xs)[1]['role']

    def extras(self):
        r = self.r
        for e, par in list(walk(self.body)):
            if e[0] == 'media':
                if 'refer' not in e[1] and 'src' not in e[1] and 'type' not in e[1] and r.random() < .3:
                    e[1]['src'] = r.choice(['a.png', 'sub/b.mp4', '/tmp/c.txt', 'http://h/d.png', 'file:///e.png', ''])
                if 'refer' not in e[1] and 'type' not in e[1] and r.random() < .2:
                    e[1]['type'] = r.choice(['image/png', 'text/plain', 'application/x-ginga-timer', ''])
                if 'refer' in e[1] and r.random() < .3:
                    e[1]['instance'] = r.choice(['new', 'instSame'])
            elif e[0] == 'area' and r.random() < .4:
                k = r.random()
                if k < .3:
                    e[1].update({n: r.choice(['00:00:01', '0:1:0.5', '1.250s', '2', '', '10s ', '01:00:00']) for n in
                                 ('begin', 'end') if n in e[1]})
                elif k < .6:
                    e[1]['label'] = ''
                else:
                    e[1].pop('begin', None)
            elif e[0] == 'port' and r.random() < .25:
                par[2].append([e[0], dict(e[1], id=self.fresh('q')), []])
            elif e[0] == 'property' and r.random() < .2:
                par[2].append(['property', dict(e[1]) if r.random() < .3 else
                               {'name': e[1]['name'], 'value': r.choice(['', 'other'])}, []])
                if r.random() < .3:
                    del par[2][-1][1]['value']
            elif e[0] in ('context', 'body') and r.random() < .2 and len(e[2]):
                k = r.choice(e[2])
                if k[0] in ('media', 'context', 'switch'):
                    # something only a wider scope can see
                    e[2].append(['port', {'id': self.fresh('q'), 'component': r.choice(sorted(self.ids))}, []]
                                if r.random() < .25 else
                                ['port', {'id': self.fresh('q'), 'component': k[1]['id']}, []])
        if r.random() < .2:
            self.root[1].pop('id', None)
        if r.random() < .2:
            self.body[1].pop('id', None)
            self.sub_refs({'body': None})
        if r.random() < .3:
            self.root[1]['xmlns'] = 'http://www.ncl.org.br/NCL3.0/EDTVProfile'
        if r.random() < .1:
            self.head[2].insert(0, ['fontBase', {}, []])

    def sub_refs(self, m):
        """Drops what refers to the body by its id."""
        for e, par in list(walk(self.body)):
            if e[1].get('component') in m and par is not None:
                par[2].remove(e)

    def odd_ids(self):
        """Renames an object everywhere."""
        r = self.r
        ids = sorted(e[1]['id'] for e in all_of(self.body, 'media', 'context', 'switch'))
        if not ids:
            return
        a = r.choice(ids)
        b = r.choice(['a.b', 'a:b', '-', '#', '9', 'x' * 70, 'port', '__unamed-0__', '__unamed-1__', '_', 'a-B_c'])
        for e, _ in walk(self.root):
            for n in ('id', 'component', 'constituent', 'refer'):
                if e[1].get(n) == a:
                    e[1][n] = b

    # imports
    REFS = {'connectorBase': ('xconnector',), 'ruleBase': ('rule',), 'descriptorBase': ('descriptor',),
            'regionBase': ('region',), 'transitionBase': ('transIn', 'transOut')}

    def externalise(self, root, path):
        """Moves some elements of a base to another file."""
        r = self.r
        head = kids(root, 'head')[0]
        bases = [b for b in head[2] if b[0] in self.REFS and any(c[0] != 'importBase' for c in b[2])]
        if not bases:
            return
        b = r.choice(bases)
        moved = [c for c in b[2] if c[0] != 'importBase' and r.random() < .6] or \
            [[c for c in b[2] if c[0] != 'importBase'][0]]
        name = r.choice(['', '', 'sub/', 'sub/deep/', 'oth er/']) + self.fresh('f') + '.ncl'
        alias = r.choice([self.fresh('al'), self.fresh('al'), 'al', self.fresh('A-')])
        hd = ['head', {}, [[b[0], {'id': 'b'} if r.random() < .2 else {}, [copy.deepcopy(c) for c in moved]]]]
        if b[0] == 'descriptorBase':
            hd[2] += [copy.deepcopy(x) for x in head[2] if x[0] in ('regionBase', 'transitionBase')]
            for x in hd[2]:
                for e in all_of(x, 'importBase'):
                    self.rebase(e, path, name)
        elif r.random() < .3:   # other bases are not imported
            hd[2].append(['connectorBase', {}, [['causalConnector', {'id': 'bad'}, []]]]
                         if b[0] != 'connectorBase' else ['ruleBase', {}, [['rule', {'id': 'bad', 'var': 'v'}, []]]])
        doc = ['ncl', {'id': 'doc'} if r.random() < .5 else {}, [hd]]
        if r.random() < .3:
            doc[2].append(['body', {}, [['media', {'id': 'm1'}, []], ['port', {'id': 'p', 'component': 'nothing'}, []]]])
        if r.random() < .2:     # unused elements of the same names as local ones
            extra = copy.deepcopy(r.choice(moved))
            for e, _ in walk(extra):
                if 'id' in e[1]:
                    e[1]['id'] = self.fresh('u')
            hd[2][0][2].append(extra)
        names = {e[1]['id'] for m in moved for e, _ in walk(m) if 'id' in e[1]}
        b[2][:] = [c for c in b[2] if not any(c is m for m in moved)]
        imp = ['importBase', {'alias': alias, 'documentURI': self.uri(path, name)}, []]
        b[2].insert(r.randint(0, len(b[2])), imp)
        for e, par in walk(root):
            for n in self.REFS[b[0]]:
                if e[1].get(n) in names:
                    e[1][n] = alias + '#' + e[1][n]
        self.files[name] = doc
        if r.random() < .4:
            self.externalise(doc, name)

    def uri(self, path, name):
        if self.r.random() < .12:
            return self.r.choice(['@/', 'file://@/']) + name
        return posixpath.relpath(name, posixpath.dirname(path) or '.')

    def rebase(self, imp, old, new):
        u = imp[1]['documentURI']
        if '@/' not in u:
            full = posixpath.normpath(posixpath.join(posixpath.dirname(old), u))
            imp[1]['documentURI'] = posixpath.relpath(full, posixpath.dirname(new) or '.')

    def noise(self):
        r = self.r
        for e, _ in list(walk(self.root)):
            if e[2] and r.random() < .2:
                e[2].insert(r.randint(0, len(e[2])), r.choice(['<!-- <media id="no"/> -->', '\n  ', 'text', '<?pi x?>',
                                                               '<![CDATA[<x/>]]>', '&amp;']))


# --------------------------------------------------------------------------
# Single defects.

SYN = {
    'ncl': 'id title schemaLocation', 'head': '', 'regionBase': 'id device region',
    'region': 'id title left right top bottom height width zIndex', 'descriptorBase': 'id',
    'descriptor': 'id player explicitDur region freeze moveLeft focusIndex transIn transOut left zIndex',
    'descriptorParam': 'name value', 'connectorBase': 'id', 'causalConnector': 'id', 'connectorParam': 'name type',
    'compoundCondition': 'operator delay', 'simpleCondition': 'role eventType key transition delay qualifier',
    'compoundAction': 'operator delay', 'simpleAction': 'role eventType actionType duration value delay repeat by',
    'compoundStatement': 'operator isNegated', 'assessmentStatement': 'comparator',
    'attributeAssessment': 'role eventType key attributeType offset', 'valueAssessment': 'value', 'ruleBase': 'id',
    'compositeRule': 'id operator', 'rule': 'id var comparator value', 'transitionBase': 'id',
    'transition': 'id type subtype dur direction', 'importBase': 'alias documentURI region baseId', 'fontBase': '',
    'font': 'fontFamily src', 'body': 'id', 'context': 'id refer', 'port': 'id component interface',
    'switch': 'id refer', 'switchPort': 'id', 'mapping': 'component interface', 'bindRule': 'constituent rule',
    'defaultComponent': 'component', 'media': 'id src type descriptor refer instance', 'area': 'id begin end label',
    'property': 'name value', 'link': 'id xconnector', 'linkParam': 'name value', 'bind': 'role component interface',
    'bindParam': 'name value'}
IDREFS = {'id', 'component', 'interface', 'refer', 'xconnector', 'rule', 'constituent', 'descriptor', 'region',
          'transIn', 'transOut', 'role', 'name', 'alias', 'var'}
ENUMS = {'operator': ['and', 'or', 'not', 'xor', 'seq', 'AND'], 'comparator': ['eq', 'ne', 'lt', 'lte', 'gt', 'gte', 'is',
                                                                          'EQ'],
         'eventType': ['presentation', 'attribution', 'selection', 'lookat', 'composition', 'Presentation'],
         'transition': ['starts', 'stops', 'pauses', 'resumes', 'aborts', 'begin', 'ends'],
         'actionType': ['start', 'stop', 'pause', 'resume', 'abort', 'set', 'go'],
         'isNegated': ['true', 'false', 'yes', '1', 'True'],
         'begin': ['1s', 'abc', '1:2', '1:2:3', '5', 'x5s', 's'], 'end': ['1s', 'abc', '1:2', '0:0:1s', '5', ''],
         'left': ['1%', '10'], 'zIndex': ['1'], 'label': ['', 'l'],
         'type': [gen.SETTINGS, 'application/x-ncl-settings', 'x'],
         'role': ['onBegin', 'onEnd', 'onSelection', 'onBeginAttribution', 'start', 'stop', 'set', 'onFoo', 'begin']}
ROOTS = {'ncl'}


class Mutator:
    """Enumerates the single defects (and harmless changes) of a document."""

    def __init__(self, root, rng):
        self.root, self.r = root, rng
        self.pool = sorted({v for e, _ in walk(root) for k, v in e[1].items() if k in IDREFS and v}
                           | {'nosuch', '__root__', '__settings__'})

    def muts(self, scope=None):
        """Descriptions of single changes: (path of the element, what...)."""
        out = []

        def go(e, path):
            if isinstance(e, str):
                return
            if scope is None or e[0] in scope:
                for a in SYN.get(e[0], '').split():
                    if a in e[1]:
                        out.append((path, 'del', a))
                        for v in ('', 'a b', 'new'):
                            out.append((path, 'set', a, v))
                    else:
                        out.append((path, 'set', a, 'new'))
                    for v in ENUMS.get(a, ()):
                        out.append((path, 'set', a, v))
                    if a in IDREFS:
                        for _ in range(2):
                            out.append((path, 'pool', a))
                out.append((path, 'set', 'foo', 'bar'))
                if path:
                    for k in ('remove', 'double', 'double', 'rename', 'unwrap', 'move', 'empty'):
                        out.append((path, k))
                out.append((path, 'add'))
                out.append((path, 'add'))
            for k, c in enumerate(e[2]):
                go(c, path + (k,))
        go(self.root, ())
        return out

    def apply(self, m):
        r = self.r
        root = copy.deepcopy(self.root)
        path, what = m[0], m[1]
        par, e = None, root
        for k in path:
            par, e = e, e[2][k]
        if what == 'del':
            e[1].pop(m[2], None)
        elif what == 'set':
            e[1][m[2]] = m[3]
        elif what == 'pool':
            e[1][m[2]] = r.choice(self.pool)
        elif what == 'remove':
            par[2].remove(e)
        elif what == 'double':
            e2 = copy.deepcopy(e)
            if r.random() < .7:
                for x, _ in walk(e2):
                    if 'id' in x[1]:
                        x[1]['id'] = x[1]['id'] + '_2'
            par[2].append(e2)
        elif what == 'rename':
            e[0] = r.choice(list(SYN) + ['foo'])
        elif what == 'unwrap':
            k = par[2].index(e)
            par[2][k:k + 1] = e[2]
        elif what == 'empty':
            e[2] = []
        elif what == 'move':
            xs = [x for x, _ in walk(root) if not any(y is x for y, _ in walk(e))]
            if xs:
                to = r.choice(xs)
                par[2].remove(e)
                to[2].insert(r.randint(0, len(to[2])), e)
        elif what == 'add':
            t = r.choice(list(SYN))
            a = {}
            for n in SYN[t].split():
                if r.random() < .6:
                    a[n] = r.choice(self.pool + ENUMS.get(n, [])) if r.random() < .6 else r.choice(
                        ['n%d' % r.randint(0, 99), '1', '2s'])
            e[2].append([t, a, []])
        return root


def broken(text, r):
    """Text that is hardly XML any more."""
    k = r.randint(0, 7)
    n = len(text)
    i, j = sorted((r.randint(0, n), r.randint(0, n)))
    if k == 0:
        return text[:i]
    if k == 1:
        return text[:i] + text[j:]
    if k == 2:
        return text[:i] + r.choice('<>"&/=') + text[i:]
    if k == 3:
        return text + text
    if k == 4:
        return r.choice(['', ' ', '<', '<ncl', '<ncl/>', 'ncl', '<!-- -->', '<?xml version="1.0"?>', '\x01', '<a:ncl/>'])
    if k == 5:
        return text[:i] + r.choice(['&foo;', '&#1;', '<!---->', ']]>', '<![CDATA[', '\t', '\n', '&lt;']) + text[i:]
    if k == 6:
        return text.replace('="', '=', 1) if r.random() < .5 else text.replace('">', '>', 1)
    return '<?xml version="1.0" encoding="UTF-8"?>\n' + text


def scn(idn, root, files, main, text=None):
    s = {'id': idn, 'kind': 'parse', 'ncl': text if text is not None else render(root), 'w': W, 'h': H,
         'files': {n: f if isinstance(f, str) else render(f) for n, f in files.items()}}
    if main:
        s['main'] = main
    return s


IMPORT_DEFECTS = ['missing', 'self', 'main', 'cycle', 'text', 'nobase', 'nohead', 'notncl', 'empty', 'dir', 'syntax',
                  'collide', 'noalias', 'dup']


def import_defect(rng, d, main):
    """Changes the import graph of a document; returns root, files."""
    root, files = copy.deepcopy(d.root), copy.deepcopy(d.files)
    where = [(x, '') for x in all_of(root, 'importBase')] + \
        [(x, n) for n, f in files.items() for x in all_of(f, 'importBase')]
    if not where:
        return root, files
    imp, at = rng.choice(where)
    u = imp[1]['documentURI']
    tgt = u.split('@/')[1] if '@/' in u else posixpath.normpath(posixpath.join(posixpath.dirname(at or main), u))
    k = rng.choice(IMPORT_DEFECTS)
    if tgt not in files:
        return root, files
    if k == 'missing':
        imp[1]['documentURI'] = rng.choice(['none.ncl', 'sub/none.ncl', '@/none.ncl', 'http://127.0.0.1:9/f.ncl', 'foo:x'])
    elif k in ('self', 'cycle', 'main'):
        base = None
        for f in [root] + list(files.values()):
            for x, par in walk(f):
                if x is imp:
                    base = par[0]
        to = rng.choice([tgt] + list(files) + ([main] if main else []))
        if k == 'self':
            to = tgt
        heads = kids(files[tgt], 'head')
        bs = kids(heads[0], base) or [heads[0]]
        bs[0][2].append(['importBase', {'alias': 'cyc', 'documentURI': posixpath.relpath(
            to, posixpath.dirname(tgt) or '.')}, []])
    elif k == 'text':
        files[tgt] = broken(render(files[tgt]), rng)
    elif k == 'nobase':
        h = kids(files[tgt], 'head')[0]
        h[2] = [x for x in h[2] if x[0] in ('fontBase',)] + [['ruleBase', {}, []]]
    elif k == 'nohead':
        files[tgt][2] = []
    elif k == 'notncl':
        files[tgt][0] = rng.choice(['head', 'foo', 'connectorBase'])
    elif k == 'empty':
        h = kids(files[tgt], 'head')[0]
        for x in h[2]:
            x[2] = []
    elif k == 'dir':
        imp[1]['documentURI'] = rng.choice(['sub', '.', '..', '@/'])
    elif k == 'syntax':
        m = Mutator(files[tgt], rng)
        files[tgt] = m.apply(rng.choice(m.muts()))
    elif k == 'collide':
        ids = [x for x in [y for y, _ in walk(root)] if 'id' in x[1]]
        rng.choice(ids)[1]['id'] = imp[1].get('alias', '') + '#' + rng.choice(
            [x[1]['id'] for x, _ in walk(files[tgt]) if 'id' in x[1]] or ['q'])
    elif k == 'noalias':
        imp[1].pop(rng.choice(['alias', 'documentURI']), None)
    elif k == 'dup':
        for x, par in walk(root):
            if x is imp:
                i2 = copy.deepcopy(imp)
                if rng.random() < .5:
                    i2[1]['alias'] = 'other'
                par[2].append(i2)
                break
    return root, files


def scenarios(seed, n, prefix, **kw):
    """n documents: valid ones and single defects of these."""
    o = dict(BASE)
    o.update(kw)
    out = []
    i = 0
    while len(out) < n:
        rng = random.Random('%s/%s/%d' % (seed, prefix, i))
        d = Doc(rng, dict(gen.BASE, **o))
        main = rng.choice(['main.ncl', 'sub/main.ncl']) if rng.random() < o['p_main'] else ''
        if main.startswith('sub/'):
            # relative names are relative to the main file
            for e in all_of(d.root, 'importBase'):
                d.rebase(e, '', main)
        out.append(scn('%s%d' % (prefix, i), d.root, d.files, main))
        if rng.random() < o['p_defects']:
            m = Mutator(d.root, rng)
            ms = m.muts(o['scope'])
            for k in range(o.get('n_defects', 12)):
                if not ms:
                    break
                out.append(scn('%s%d.%d' % (prefix, i, k), m.apply(rng.choice(ms)), d.files, main))
            if o.get('p_broken'):
                for k in range(o['p_broken']):
                    out.append(scn('%s%d.b%d' % (prefix, i, k), None, d.files, main, text=broken(render(d.root), rng)))
            if d.files:
                for k in range(o.get('n_imp', 3)):
                    root, files = import_defect(rng, d, main)
                    out.append(scn('%s%d.i%d' % (prefix, i, k), root, files, main))
        i += 1
    return out[:n]


# --------------------------------------------------------------------------
# A document with everything in it, and all its single defects.

CORE = '''<ncl id="n" title="t" xmlns="http://www.ncl.org.br/NCL3.0/EDTVProfile"><head>
<regionBase id="rb" device="d"><region id="R" left="10%" top="5%" width="50%" height="40%" zIndex="2">
<region id="S" right="10" bottom="25%" width="80" height="40"/></region><region id="U"/></regionBase>
<transitionBase id="tb"><transition id="T" type="barWipe" subtype="topToBottom" dur="1s"/>
<importBase alias="y" documentURI="sub/two.ncl"/></transitionBase>
<descriptorBase id="db"><descriptor id="D" region="S" transIn="T" transOut="y#T" explicitDur="9s" focusIndex="1">
<descriptorParam name="soundLevel" value="0.5"/><descriptorParam name="explicitDur" value="8s"/></descriptor>
<descriptor id="E" left="1"/></descriptorBase>
<ruleBase id="ub"><rule id="r1" var="v" comparator="eq" value="1"/><compositeRule id="r2" operator="and">
<rule id="r3" var="v" comparator="ne" value="2"/><compositeRule id="r4" operator="not"><rule id="r5" var="w"
 comparator="lt" value="3"/></compositeRule></compositeRule></ruleBase>
<connectorBase id="cb"><importBase alias="x" documentURI="one.ncl"/>
<causalConnector id="K"><connectorParam name="val"/><compoundCondition operator="or"><simpleCondition role="onBegin"/>
<simpleCondition role="sel" eventType="selection" transition="starts" key="$k"/><compoundStatement operator="and"
 isNegated="true"><assessmentStatement comparator="lte"><attributeAssessment role="t1"/><valueAssessment value="5"/>
</assessmentStatement><assessmentStatement comparator="gt"><attributeAssessment role="t2"/><attributeAssessment
 role="t1"/></assessmentStatement></compoundStatement></compoundCondition><compoundAction operator="seq"><simpleAction
 role="set" value="$val" duration="$du" delay="1s"/><compoundAction operator="par"><simpleAction role="go"
 eventType="presentation" actionType="pause" delay="$dl"/></compoundAction></compoundAction></causalConnector>
</connectorBase></head>
<body id="b"><port id="p1" component="m1"/><port id="p2" component="c1" interface="q1"/><port id="p3" component="s1"
 interface="sp"/><property name="bp" value="1"/><media id="st" type="application/x-ginga-settings"><property name="v"
 value="1"/></media><media id="m1" src="a.png" type="image/png" descriptor="D"><area id="a1" begin="1s" end="2.5s"/>
<area id="a2" label="L"/><property name="x" value="1"/><property name="explicitDur"/></media>
<media id="m2" refer="m1" instance="instSame" descriptor="E"><area id="a3" begin="4s"/><property name="z" value="9"/></media>
<context id="c1"><port id="q1" component="m3" interface="a4"/><port id="q2" component="c2" interface="q3"/><media id="m3">
<area id="a4" begin="0s"/></media><context id="c2"><port id="q3" component="m5"/><media id="m5" src="b.mp4"/></context>
<property name="cp" value="2"/><media id="m6" refer="m1"/><link xconnector="x#J"><bind role="onEnd" component="m3"/><bind
 role="start" component="m6" interface="a3"/></link></context>
<switch id="s1"><bindRule constituent="m7" rule="r2"/><bindRule constituent="c3" rule="r1"/><defaultComponent
 component="m8"/><media id="m7"><area id="a7" begin="1s"/></media><context id="c3"><port id="q5" component="m9"/><media
 id="m9"/></context><media id="m8"/><switchPort id="sp"><mapping component="m7" interface="a7"/><mapping component="c3"
 interface="q5"/><mapping component="m8"/></switchPort><switchPort id="sq"/></switch>
<link id="l1" xconnector="K"><linkParam name="k" value="RED"/><linkParam name="dl" value="2s"/><bind role="onBegin"
 component="m1" interface="a1"/><bind role="sel" component="m2"><bindParam name="k" value="GREEN"/></bind><bind role="set"
 component="m1" interface="x"><bindParam name="val" value="$g"/><bindParam name="du" value="1s"/></bind><bind role="go"
 component="c1" interface="q2"/><bind role="go" component="s1"/><bind role="t1" component="st" interface="v"/><bind
 role="t2" component="b" interface="bp"/><bind role="g" component="m2" interface="z"/></link>
<link xconnector="x#J"><bind role="onEnd" component="c1"/><bind role="start" component="m2"/></link></body></ncl>'''
CORE_FILES = {
    'one.ncl': '''<ncl><head><ruleBase><importBase alias="no" documentURI="none.ncl"/></ruleBase><connectorBase>
<causalConnector id="J"><simpleCondition role="onEnd"/><simpleAction role="start"/></causalConnector>
<importBase alias="z" documentURI="sub/three.ncl"/></connectorBase></head></ncl>''',
    'sub/two.ncl': '<ncl id="n"><head><transitionBase><transition id="T" type="fade"/></transitionBase></head></ncl>',
    'sub/three.ncl': '''<ncl><head><connectorBase><causalConnector id="J"><simpleCondition role="onBegin"/>
<simpleAction role="stop"/></causalConnector></connectorBase></head></ncl>'''}


def core(seed, prefix, scope=None, limit=None):
    """The document with everything, and its single defects (all, or as many
    as said)."""
    rng = random.Random('%s/%s' % (seed, prefix))
    root = parse(CORE)
    strip(root)
    out = [scn(prefix, root, CORE_FILES, '')]
    m = Mutator(root, rng)
    ms = m.muts(scope)
    if limit and len(ms) > limit:
        ms = rng.sample(ms, limit)
    for k, x in enumerate(ms):
        out.append(scn('%s-%d' % (prefix, k), m.apply(x), CORE_FILES, ''))
    return out


def strip(e):
    for x, _ in walk(e):
        x[0] = x[0].rsplit('}', 1)[-1]
