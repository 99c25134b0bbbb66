"""Random NCL documents and schedules.

A document is an abstract syntax tree (plain dictionaries, so that the same
tree can be rendered to NCL text for the implementation and handed to the
specification):

  doc    {conns, rules, regions, descs, body}
  ctx    {tag: 'body'|'context', id, kids, ports, props, links}
  switch {tag: 'switch', id, kids, binds, dflt, sports}
  media  {tag: 'media', id, type, src, refer, desc, areas, props}
  area   {id, begin, end, label}      prop {name, value}
  port   {id, comp, iface}
  link   {conn, binds, params}        bind {role, comp, iface, params}
  conn   {id, cond, act}
  cond   {k: 'simple', role, ev, tr, key} | {k: 'compound', c: [...]}
         | {k: 'stmt', op, neg, c: [...]} | {k: 'assess', cmp, l, r}
  act    {role, ev, tr, value, dur, delay}
"""
import random
from xml.sax.saxutils import quoteattr

RESERVED = {
    'onBegin': ('presentation', 'start'), 'onEnd': ('presentation', 'stop'), 'onAbort': ('presentation', 'abort'),
    'onPause': ('presentation', 'pause'), 'onResume': ('presentation', 'resume'),
    'onBeginAttribution': ('attribution', 'start'), 'onEndAttribution': ('attribution', 'stop'),
    'onSelection': ('selection', 'start'), 'onBeginSelection': ('selection', 'start'),
    'onEndSelection': ('selection', 'stop'), 'onLookAt': ('lookat', 'start'), 'onLookAway': ('lookat', 'stop'),
    'start': ('presentation', 'start'), 'stop': ('presentation', 'stop'), 'abort': ('presentation', 'abort'),
    'pause': ('presentation', 'pause'), 'resume': ('presentation', 'resume'), 'set': ('attribution', 'start')}
CUR = ['CURSOR_UP', 'CURSOR_DOWN', 'CURSOR_LEFT', 'CURSOR_RIGHT']
SETTINGS = 'application/x-ginga-settings'


# --------------------------------------------------------------------------
# Rendering.

def tag(name, attrs, kids=None):
    a = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs if v is not None)
    if not kids:
        return '<%s%s/>' % (name, a)
    return '<%s%s>%s</%s>' % (name, a, ''.join(kids), name)


def r_cond(c):
    if c['k'] == 'simple':
        return tag('simpleCondition', [('role', c['role']), ('eventType', c.get('ev')), ('transition', c.get('tr')),
                                       ('key', c.get('key'))])
    if c['k'] == 'compound':
        return tag('compoundCondition', [('operator', 'or')], [r_cond(x) for x in c['c']])
    if c['k'] == 'stmt':
        return tag('compoundStatement', [('operator', c['op']), ('isNegated', 'true' if c['neg'] else None)],
                   [r_cond(x) for x in c['c']])

    def side(x):
        return tag('attributeAssessment', [('role', x[1:])]) if x.startswith('@') else \
            tag('valueAssessment', [('value', x)])
    return tag('assessmentStatement', [('comparator', c['cmp'])], [side(c['l']), side(c['r'])])


def r_act(a):
    return tag('simpleAction', [('role', a['role']), ('eventType', a.get('ev')), ('actionType', a.get('tr')),
                                ('value', a.get('value')), ('duration', a.get('dur')), ('delay', a.get('delay'))])


def r_conn(c):
    acts = [r_act(a) for a in c['acts']]
    if len(acts) > 1:
        acts = [tag('compoundAction', [('operator', 'seq')], acts)]
    return tag('causalConnector', [('id', c['id'])], [r_cond(c['cond'])] + acts)


def r_rule(r):
    if 'c' in r:
        return tag('compositeRule', [('id', r['id']), ('operator', r['op'])], [r_rule(x) for x in r['c']])
    return tag('rule', [('id', r['id']), ('var', r['var']), ('comparator', r['cmp']), ('value', r['value'])])


def r_prop(p):
    return tag('property', [('name', p['name']), ('value', p['value'])])


def r_link(l):
    ks = [tag('linkParam', [('name', n), ('value', v)]) for n, v in l['params']]
    for b in l['binds']:
        ks.append(tag('bind', [('role', b['role']), ('component', b['comp']), ('interface', b.get('iface'))],
                      [tag('bindParam', [('name', n), ('value', v)]) for n, v in b['params']]))
    return tag('link', [('xconnector', l['conn'])], ks)


def r_node(n):
    if n['tag'] == 'media':
        ks = [tag('area', [('id', a['id']), ('begin', a.get('begin')), ('end', a.get('end')), ('label', a.get('label'))])
              for a in n['areas']] + [r_prop(p) for p in n['props']]
        return tag('media', [('id', n['id']), ('type', n.get('type')), ('src', n.get('src')), ('refer', n.get('refer')),
                             ('descriptor', n.get('desc'))], ks)
    if n['tag'] == 'switch':
        ks = [tag('bindRule', [('constituent', c), ('rule', r)]) for c, r in n['binds']]
        if n.get('dflt'):
            ks.append(tag('defaultComponent', [('component', n['dflt'])]))
        ks += [r_node(k) for k in n['kids']]
        ks += [tag('switchPort', [('id', s['id'])],
                   [tag('mapping', [('component', m['comp']), ('interface', m.get('iface'))]) for m in s['maps']])
               for s in n['sports']]
        return tag('switch', [('id', n['id'])], ks)
    ks = [tag('port', [('id', p['id']), ('component', p['comp']), ('interface', p.get('iface'))]) for p in n['ports']]
    ks += [r_prop(p) for p in n['props']] + [r_node(k) for k in n['kids']] + [r_link(l) for l in n['links']]
    return tag(n['tag'], [('id', n['id'])], ks)


def render(d):
    head = ''
    if d.get('regions'):
        head += tag('regionBase', [], [r_region(r) for r in d['regions']])
    if d.get('descs'):
        head += tag('descriptorBase', [], [tag('descriptor', list(x.items())) for x in d['descs']])
    if d['rules']:
        head += tag('ruleBase', [], [r_rule(r) for r in d['rules']])
    if d['conns']:
        head += tag('connectorBase', [], [r_conn(c) for c in d['conns']])
    return '<ncl id="doc">' + (('<head>' + head + '</head>') if head else '') + r_node(d['body']) + '</ncl>'


def r_region(r):
    return tag('region', [(k, v) for k, v in r.items() if k != 'c'], [r_region(x) for x in r.get('c', [])])


# --------------------------------------------------------------------------
# Generation.

BASE = dict(
    kids=(2, 4), subkids=(1, 3), depth=2, p_ctx=.25, p_switch=.15, p_refer=.12, areas=(0, 2), p_dur=.6,
    p_label=.15, p_media_prop=.4, p_ctx_prop=.2, links=(1, 4), sublinks=(0, 2), conds=(1, 2), acts=(1, 3),
    p_guard=.2, p_reuse=.15, p_delay=.25, p_adur=.3, p_set=.3, p_sel=.15, p_look=.05, p_key=.5, p_focus=.15, p_port=.8,
    p_settings=.5, p_self=.1, p_ref_value=.25, p_attr_cond=.2, p_reserved=.3, p_animated=.1, p_scripts=0.05,
    # schedules
    steps=(8, 18), w_tick=6, w_act=3, w_key=1, w_trans=.3, w_restart=.15, w_post=1.5, w_proto=0, w_keyrun=0, ms=(250, 500, 1000, 2000), p_startall=.3,
    act_tr=(('start', 4), ('pause', 2), ('resume', 2), ('stop', 2), ('abort', 1)),
    act_ty=(('p', 6), ('a', 2), ('s', .5), ('l', .2)))

ODD_TIMES = ['0s', '0.125s', '2.75', '00:00:01', '0:0:2.5', '00:01:00', '100s', '5s', '01:30:00', '3000s', '']
TIMES = ['0.5s', '1s', '1.5s', '2s', '3s'] * 8 + ODD_TIMES[:-1]
VALUES = ['a', 'b', '1', '10', '9', ''] * 4 + ['A', 'aa', 'a b', '01', '\u00e9', '$v', '100']
KEYS = ['RED', 'GREEN', 'ENTER', 'CURSOR_UP'] * 4 + ['0', '9', 'red', 'BACK', 'CHANNEL_UP', 'F1', 'enter', 'YELLOW']
FOCI = ['1', '2', '3', '3', '', '4'] * 3 + ['10', 'a', '01', '-1', 'A']
ODD_MS = [0, 1, 17, 125, 7000, 60000, 100000, 5000000]


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(BASE)
        self.o.update(kw)
        self.n = {}

    def p(self, name):
        return self.r.random() < self.o[name]

    def num(self, name):
        a, b = self.o[name]
        return self.r.randint(a, b)

    def fresh(self, pre):
        self.n[pre] = self.n.get(pre, 0) + 1
        return '%s%d' % (pre, self.n[pre])

    # structure ----------------------------------------------------------
    def doc(self):
        r = self.r
        self.conns, self.rules, self.medias, self.info = [], [], [], {}
        self.svars = []
        self.settings_id = None
        self.scripts = []
        n = r.randint(1, 3)
        for _ in range(n):
            self.rules.append(self.rule(2))
        body = self.ctx('body', 0)
        d = {'conns': self.conns, 'rules': self.rules, 'body': body}
        self.fill_links(body)
        self.d = d
        return d

    def rule(self, depth):
        r = self.r
        if depth and r.random() < .3:
            op = r.choice(['and', 'or', 'and', 'or', 'not'])
            n = 1 if op == 'not' else r.choice([0, 1, 2, 2, 3]) if depth == 2 else r.choice([1, 2])
            return {'id': self.fresh('r'), 'op': op, 'c': [self.rule(depth - 1) for _ in range(n)]}
        return {'id': self.fresh('r'), 'var': r.choice(['v1', 'v1', 'v2', 'v3']),
                'cmp': r.choice(['eq', 'ne', 'lt', 'lte', 'gt', 'gte']), 'value': r.choice(VALUES)}

    def media(self, parent, in_switch=False):
        r = self.r
        m = {'tag': 'media', 'id': self.fresh('m'), 'areas': [], 'props': []}
        own = [x for x in self.medias if not x.get('refer')]
        if own and self.p('p_refer') and not in_switch:
            m['refer'] = r.choice(own)['id']
            if r.random() < .5:
                m['props'].append({'name': r.choice(['x', 'z']) + m['id'], 'value': r.choice(VALUES)})
            if r.random() < .3:
                m['areas'].append(self.area())
        else:
            if self.p('p_scripts'):
                m['src'] = 's.lua'
                self.scripts.append(m)
            for _ in range(self.num('areas')):
                m['areas'].append(self.area())
            if self.p('p_dur'):
                m['props'].append({'name': 'explicitDur', 'value': r.choice(TIMES)})
            if self.p('p_media_prop'):
                m['props'].append({'name': 'x', 'value': r.choice(VALUES)})
                if r.random() < .4:
                    m['props'].append({'name': 'y', 'value': r.choice(VALUES)})
            if self.p('p_animated'):
                m['props'].append({'name': r.choice(['top', 'left', 'transparency', 'background', 'bounds']),
                                   'value': ''})
            if self.p('p_focus'):
                m['props'].append({'name': 'focusIndex', 'value': r.choice(FOCI)})
                for k in ('moveUp', 'moveDown', 'moveLeft', 'moveRight'):
                    if r.random() < .5:
                        m['props'].append({'name': k, 'value': r.choice(FOCI)})
        self.medias.append(m)
        self.info[m['id']] = m
        return m

    def area(self):
        r = self.r
        a = {'id': self.fresh('a')}
        if self.p('p_label'):
            a['label'] = 'l' + a['id']
            return a
        b, e = sorted([r.choice([0, 500, 1000, 1000, 1500, 2000, 3000] * 8 + [125, 250, 375, 625, 1250, 4000, 60000, 3600000, 5000000])
                       for _ in range(2)])

        def text(ms):
            if r.random() < .08:
                return '%d:%02d:%06.3f' % (ms // 3600000, ms // 60000 % 60, ms % 60000 / 1000)
            return '%gs' % (ms / 1000)
        k = r.random()
        if k < .8 or b:
            a['begin'] = text(b)
        if k > .2:
            a['end'] = text(e)
        return a

    def settings(self):
        m = {'tag': 'media', 'id': 'set', 'type': SETTINGS, 'areas': [], 'props': []}
        for v in ('v1', 'v2'):
            m['props'].append({'name': v, 'value': self.r.choice(VALUES)})
        if self.r.random() < .4:
            m['props'].append({'name': 'service.currentFocus', 'value': self.r.choice(['', '1', '2'])})
        self.settings_id = 'set'
        self.info['set'] = m
        return m

    def kid(self, depth):
        k = self.r.random()
        if depth < self.o['depth']:
            if k < self.o['p_ctx']:
                return self.ctx('context', depth + 1)
            if k < self.o['p_ctx'] + self.o['p_switch']:
                return self.switch(depth + 1)
        return self.media(None)

    def ctx(self, tg, depth):
        r = self.r
        c = {'tag': tg, 'id': 'body' if tg == 'body' else self.fresh('c'), 'kids': [], 'ports': [], 'props': [],
             'links': [], 'depth': depth}
        self.info[c['id']] = c
        if tg == 'body' and self.p('p_settings'):
            c['kids'].append(self.settings())
        for _ in range(self.num('kids' if tg == 'body' else 'subkids')):
            c['kids'].append(self.kid(depth))
        if self.p('p_ctx_prop'):
            c['props'].append({'name': 'cx', 'value': r.choice(VALUES)})
        for k in c['kids']:
            while k['id'] != 'set' and self.p('p_port'):
                c['ports'].append({'id': self.fresh('p'), 'comp': k['id'], 'iface': self.pres_iface(k)})
                if r.random() < .85:
                    break
        r.shuffle(c['ports'])
        return c

    def switch(self, depth):
        r = self.r
        s = {'tag': 'switch', 'id': self.fresh('s'), 'kids': [], 'binds': [], 'dflt': None, 'sports': []}
        self.info[s['id']] = s
        for _ in range(r.randint(1, 3)):
            if depth < self.o['depth'] and r.random() < .25:
                s['kids'].append(self.ctx('context', depth + 1) if r.random() < .7 else self.switch(depth + 1))
            else:
                s['kids'].append(self.media(None, True))
        rules = []

        def flat(x):
            rules.append(x['id'])
            for y in x.get('c', []):
                flat(y)
        for x in self.rules:
            flat(x)
        for _ in range(r.randint(0, 3)):
            s['binds'].append((r.choice(s['kids'])['id'], r.choice(rules)))
        if r.random() < .7 or not s['binds']:
            s['dflt'] = r.choice(s['kids'])['id']
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            maps = []
            for k in s['kids']:
                if r.random() < .8:
                    maps.append({'comp': k['id'], 'iface': self.pres_iface(k)})
            s['sports'].append({'id': self.fresh('sp'), 'maps': maps})
        return s

    # interfaces ---------------------------------------------------------
    def pres_iface(self, n):
        r = self.r
        if r.random() < .6:
            return None
        xs = []
        if n['tag'] == 'media':
            xs = [a['id'] for a in self.target(n)['areas'] + (n['areas'] if n.get('refer') else [])]
        elif n['tag'] == 'context':
            xs = [p['id'] for p in n['ports']]
        elif n['tag'] == 'switch':
            xs = [p['id'] for p in n['sports']]
        return r.choice(xs) if xs else None

    def target(self, n):
        return self.info[n['refer']] if n.get('refer') else n

    def attr_ifaces(self, n):
        if n['tag'] == 'switch':
            return []
        xs = [p['name'] for p in n['props']]
        if n.get('refer'):
            xs += [p['name'] for p in self.target(n)['props']]
        return xs

    # links --------------------------------------------------------------
    def fill_links(self, c):
        for _ in range(self.num('links' if c['tag'] == 'body' else 'sublinks')):
            l = self.link(c)
            if l:
                c['links'].append(l)
                if self.p('p_reuse'):
                    c['links'].append(self.again(c, l))
        for k in c['kids']:
            if k['tag'] == 'context':
                self.fill_links(k)
            elif k['tag'] == 'switch':
                self.fill_switch(k)

    def again(self, c, l):
        """Another link with the same connector."""
        r = self.r
        conn = next(k for k in self.conns if k['id'] == l['conn'])
        ev = {}

        def conds(x):
            if x['k'] == 'simple':
                yield x
            elif x['k'] == 'compound':
                for y in x['c']:
                    yield from conds(y)
        for x in list(conds(conn['cond'])) + conn['acts']:
            ev[x['role']] = x.get('ev') or RESERVED[x['role']][0]
        l = {'conn': l['conn'], 'params': list(l['params']),
             'binds': [dict(b, params=list(b['params'])) for b in l['binds']]}
        for b in l['binds']:
            e = ev.get(b['role'])
            if e and r.random() < .6:
                ns = self.comps(c, e == 'attribution')
                if e in ('selection', 'lookat'):
                    ns = [k for k in ns if k['tag'] == 'media']
                elif e == 'attribution':
                    ns = [k for k in ns if b['iface'] in self.attr_ifaces(k)]
                if not ns:
                    continue
                n = r.choice(ns)
                b['comp'] = n['id']
                if e != 'attribution':
                    b['iface'] = self.pres_iface(n) if e == 'presentation' and n is not c else None
                for i, (k, v) in enumerate(b['params']):
                    if k == 'val' and not v.startswith('$'):
                        b['params'][i] = (k, self.value_for(b['iface']))
        for ps in [b['params'] for b in l['binds']] + [l['params']]:
            for i, (k, v) in enumerate(ps):
                if k in ('dl', 'du') and r.random() < .8:
                    ps[i] = (k, r.choice(TIMES))
                elif k == 'kk' and r.random() < .8:
                    ps[i] = (k, r.choice(KEYS))
        return l

    def fill_switch(self, s):
        for k in s['kids']:
            if k['tag'] == 'context':
                self.fill_links(k)
            elif k['tag'] == 'switch':
                self.fill_switch(k)

    def comps(self, c, attr=False):
        xs = list(c['kids'])
        if self.p('p_self'):
            xs.append(c)
        if attr:
            xs = [x for x in xs + [c] if self.attr_ifaces(x)]
        return xs

    def value_for(self, name):
        r = self.r
        if name in ('explicitDur',):
            return r.choice(TIMES)
        if name in ('focusIndex', 'service.currentFocus', 'moveUp', 'moveDown', 'moveLeft', 'moveRight'):
            return r.choice(FOCI)
        if name in ('top', 'left'):
            return r.choice(['0', '10', '50%'])
        if name == 'transparency':
            return r.choice(['0', '50%', '0.5', '1'])
        if name == 'background':
            return r.choice(['red', 'blue', '#102030'])
        if name == 'bounds':
            return r.choice(['0,0,10,10', '10%,10%,50%,50%'])
        return r.choice(VALUES)

    def pick(self, pairs):
        return self.r.choices([a for a, _ in pairs], [b for _, b in pairs])[0]

    def link(self, c):
        r = self.r
        conn = {'id': self.fresh('k'), 'acts': []}
        ln = {'conn': conn['id'], 'binds': [], 'params': []}
        conds, binds_c, binds_a = [], [], []
        nrole = [0]

        def role(pre):
            nrole[0] += 1
            return '%s%d' % (pre, nrole[0])

        for _ in range(self.num('conds')):
            x = r.random()
            cd = {'k': 'simple'}
            if x < self.o['p_sel']:
                n = r.choice([k for k in self.comps(c) if k['tag'] == 'media'] or [None])
                if n is None:
                    continue
                cd['ev'], cd['tr'] = 'selection', r.choice(['start', 'start', 'start', 'stop'])
                b = {'comp': n['id'], 'params': []}
                if self.p('p_key'):
                    k = r.choice(KEYS)
                    y = r.random()
                    if y < .5:
                        cd['key'] = k
                    else:
                        cd['key'] = '$kk'
                        (b['params'] if y < .75 else ln['params']).append(('kk', k))
            elif x < self.o['p_sel'] + self.o['p_attr_cond']:
                ns = self.comps(c, True)
                if not ns:
                    continue
                n = r.choice(ns)
                cd['ev'], cd['tr'] = 'attribution', r.choice(['start', 'stop'])
                b = {'comp': n['id'], 'iface': r.choice(self.attr_ifaces(n)), 'params': []}
            elif x < self.o['p_sel'] + self.o['p_attr_cond'] + self.o['p_look']:
                n = r.choice([k for k in self.comps(c) if k['tag'] == 'media'] or [None])
                if n is None:
                    continue
                cd['ev'], cd['tr'] = 'lookat', r.choice(['start', 'stop'])
                b = {'comp': n['id'], 'params': []}
            else:
                n = r.choice(self.comps(c))
                cd['ev'] = 'presentation'
                cd['tr'] = self.pick((('start', 4), ('stop', 4), ('pause', 1), ('resume', 1), ('abort', 1)))
                b = {'comp': n['id'], 'iface': None if n is c else self.pres_iface(n), 'params': []}
            cd['role'] = role('c')
            b['role'] = cd['role']
            if self.p('p_reserved'):
                for k, (e, t) in RESERVED.items():
                    if k.startswith('on') and (e, t) == (cd['ev'], cd['tr']) and \
                            not any(z['role'] == k for z in conds):
                        cd = dict(cd, role=k)
                        del cd['ev'], cd['tr']
                        b['role'] = k
                        break
            conds.append(cd)
            binds_c.append(b)
            if r.random() < .1:
                n2 = r.choice(c['kids'])
                if cd.get('ev') == 'presentation':
                    binds_c.append({'comp': n2['id'], 'role': b['role'], 'iface': self.pres_iface(n2), 'params': []})
        if not conds:
            return None
        for _ in range(self.num('acts')):
            a = {}
            b = {'params': []}
            if self.p('p_set'):
                ns = self.comps(c, True)
                if not ns:
                    continue
                n = r.choice(ns)
                b['comp'], b['iface'] = n['id'], r.choice(self.attr_ifaces(n))
                a['ev'], a['tr'] = 'attribution', r.choice(['start'] * 8 + ['stop', 'abort'])
                v = self.value_for(b['iface'])
                if self.p('p_ref_value') and b['iface'] in ('x', 'y', 'cx', 'v1', 'v2'):
                    n3 = [k for k in c['kids'] + [c] if [i for i in self.attr_ifaces(k) if i in ('x', 'y', 'cx', 'v1')]]
                    if n3:
                        n3 = r.choice(n3)
                        g = role('g')
                        binds_a.append({'role': g, 'comp': n3['id'], 'params': [],
                                        'iface': r.choice([i for i in self.attr_ifaces(n3)
                                                           if i in ('x', 'y', 'cx', 'v1')])})
                        v = '$' + g
                        a['value'] = '$val'
                        b['params'].append(('val', v))
                if 'value' not in a:
                    y = r.random()
                    if y < .5:
                        a['value'] = v
                    else:
                        a['value'] = '$val'
                        if y < .8:
                            b['params'].append(('val', v))
                        else:
                            a['value'] = '$val%d' % len(conn['acts'])
                            ln['params'].append((a['value'][1:], v))
                if self.p('p_adur'):
                    a['dur'] = r.choice(['0.5s', '1s', '2s'] * 8 + ODD_TIMES)
                    if r.random() < .3:
                        b['params'].append(('du', a['dur']))
                        a['dur'] = '$du'
            else:
                n = r.choice(self.comps(c))
                a['ev'], a['tr'] = 'presentation', self.pick(self.o['act_tr'])
                b['comp'] = n['id']
                b['iface'] = None if n is c else self.pres_iface(n)
            if self.p('p_delay'):
                dl = r.choice(['0s', '0.5s', '1s', '1s', '2s'] * 5 + ODD_TIMES)
                if r.random() < .3:
                    a['delay'] = '$dl'
                    b['params'].append(('dl', dl))
                else:
                    a['delay'] = dl
            a['role'] = role('a')
            if self.p('p_reserved'):
                for k, (e, t) in RESERVED.items():
                    if not k.startswith('on') and (e, t) == (a['ev'], a['tr']) and \
                            not any(z['role'] == k for z in conn['acts']):
                        a = dict(a, role=k)
                        del a['ev'], a['tr']
                        break
            b['role'] = a['role']
            conn['acts'].append(a)
            binds_a.append(b)
        if not conn['acts']:
            return None
        cond = conds[0] if len(conds) == 1 else {'k': 'compound', 'c': conds}
        if self.p('p_guard'):
            ns = [k for k in c['kids'] + [c] if self.attr_ifaces(k)]
            if ns:
                stm = self.stmt(c, ns, ln, 2)
                cond = {'k': 'compound', 'c': ([cond] if cond['k'] == 'simple' or r.random() < .5 else list(conds)) + [stm]}
        conn['cond'] = cond
        bs = binds_c + binds_a
        ln['binds'] += bs
        if r.random() < .3:
            r.shuffle(ln['binds'])
        self.conns.append(conn)
        return ln

    def stmt(self, c, ns, ln, depth):
        r = self.r
        if depth and r.random() < .45:
            op = r.choice(['and', 'or', 'and', 'or', 'not'])
            n = 1 if op == 'not' else r.choice([2, 2, 3])
            return {'k': 'stmt', 'op': op, 'neg': r.random() < .3, 'c': [self.stmt(c, ns, ln, depth - 1) for _ in range(n)]}

        def side():
            if r.random() < .6:
                n = r.choice(ns)
                rl = 't%d' % (len(ln['binds']) + 1)
                ln['binds'].append({'role': rl, 'comp': n['id'], 'iface': r.choice(self.attr_ifaces(n)), 'params': []})
                return '@' + rl
            return r.choice(VALUES)
        return {'k': 'assess', 'cmp': r.choice(['eq', 'ne', 'lt', 'lte', 'gt', 'gte']), 'l': side(), 'r': side()}

    # schedules ----------------------------------------------------------
    def events(self, d):
        """Addresses of the events of the document."""
        ev = []
        kk = {c['id']: c for c in d['conns']}

        def walk(n):
            own = n['id']
            ev.append((own, 'p', '@lambda'))
            if n['tag'] == 'media':
                for a in n['areas']:
                    ev.append((own, 'p', a['id']))
                for p in n['props']:
                    ev.append((own, 'a', p['name']))
                return
            if n['tag'] == 'switch':
                for s in n['sports']:
                    ev.append((own, 'p', s['id']))
            else:
                for p in n['props']:
                    ev.append((own, 'a', p['name']))
                for l in n['links']:
                    cs = []

                    def conds(x):
                        if x['k'] == 'simple':
                            cs.append(x)
                        else:
                            for y in x.get('c', []):
                                conds(y)
                    conds(kk[l['conn']]['cond'])
                    for x in cs:
                        for b in l['binds']:
                            if b['role'] != x['role']:
                                continue
                            e = x.get('ev') or RESERVED[x['role']][0]
                            if e == 'selection':
                                k = x.get('key', '')
                                if k.startswith('$'):
                                    k = dict(b['params']).get(k[1:], dict(l['params']).get(k[1:], ''))
                                ev.append((b['comp'], 's', k))
                            elif e == 'lookat':
                                ev.append((b['comp'], 'l', '@lambda'))
            for k in n['kids']:
                walk(k)
        walk(d['body'])
        return ev

    def schedule(self, d, evs=None):
        r = self.r
        evs = evs or self.events(d)
        st = [['start']]
        by = {}
        for e in evs:
            by.setdefault(e[1], []).append(e)

        def act(op='act', ty=None, tr=None):
            ty = ty or self.pick([(k, w) for k, w in self.o['act_ty'] if k in by])
            e = r.choice(by[ty])
            tr = tr or self.pick(self.o['act_tr'])
            if ty in ('a',):
                tr = 'start' if r.random() < .7 else tr
                v = self.value_for(e[2])
                if r.random() < .2 and e[2] in ('x', 'y', 'cx', 'v1', 'v2'):
                    o = r.choice([a for a in by['a'] if a[2] in ('x', 'y', 'cx', 'v1', 'v2')])
                    v = '$%s.%s' % (o[0], o[2])
                return [op, e[0], ty, e[2], tr, v]
            return [op, e[0], ty, e[2], tr]
        o = self.o
        keys = (['RED', 'GREEN', 'ENTER'] + CUR) * 4 + KEYS + ['']
        for _ in range(self.num('steps')):
            k = self.pick((('tick', o['w_tick']), ('act', o['w_act']), ('key', o['w_key']), ('trans', o['w_trans']),
                           ('restart', o['w_restart']), ('proto', o['w_proto']),
                           ('post', o['w_post'] if self.scripts else 0)))
            if k == 'tick':
                st.append(['tick', r.choice(o['ms']) if r.random() > .06 else r.choice(ODD_MS)])
            elif k == 'act':
                st.append(act())
            elif k == 'trans':
                st.append(act('trans', tr=r.choice(['start', 'pause', 'resume', 'stop', 'abort'])))
            elif k == 'proto':
                # the protocol of the presenter: stopped and playing mixed
                st.append(r.choice([['stop'], ['stop'], ['start'], ['start'], ['start', 'bad.ncl'], ['start', 'none.ncl'],
                                    ['start', 'b.ncl'], ['tick', 0], ['key', 'RED', True], ['redraw']]))
            elif k == 'key':
                kk = r.choice(keys)
                st.append(['key', kk, True])
                if r.random() < .6:
                    st.append(['key', kk, False])
            elif k == 'post':
                m = r.choice(self.scripts)
                x = r.random()
                tr = self.pick(o['act_tr'])
                if x < .6:
                    st.append(['post', m['id'], 'presentation', tr,
                               r.choice([a['label'] for a in m['areas'] if a.get('label')] * 2 + ['', '', 'nolabel']), ''])
                elif x < .95:
                    st.append(['post', m['id'], 'attribution', tr, r.choice([p['name'] for p in m['props']] * 4 + ['nop']),
                               r.choice(VALUES)])
                    if st[-1][4] in ('explicitDur', 'focusIndex', 'top', 'left', 'transparency', 'background', 'bounds'):
                        st[-1][5] = self.value_for(st[-1][4])
                else:
                    st.append(['post', m['id'], 'presentation', 'dance', '', ''])
                if r.random() < .8:
                    st.append(['redraw'])
            else:
                st.append(['stop'])
                st.append(['start'])
        return st


def r_bad(r):
    return r.choice(['', 'x', '<ncl><body/>', '<ncl><body><media/></body></ncl>', '<nml/>', '<ncl><body><port id="p" '
                     'component="q"/></body></ncl>'])


def scenarios(seed, n, prefix, **kw):
    out = []
    for i in range(n):
        rng = random.Random('%s/%s/%d' % (seed, prefix, i))
        g = Gen(rng, **kw)
        d = g.doc()
        files = {'s.lua': ''}
        if g.o['w_proto']:
            files['bad.ncl'] = r_bad(rng)
            files['b.ncl'] = render(Gen(random.Random('%s/%s/%d/b' % (seed, prefix, i)), **kw).doc())
        out.append({'id': '%s%d' % (prefix, i), 'ncl': render(d), 'steps': g.schedule(d), 'files': files,
                    'track': ['x', 'y', 'z', 'cx', 'v1', 'v2', 'v3']})
    return out
