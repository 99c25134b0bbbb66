"""Documents and schedules about what is drawn: media with a
geometry, a background, an image or text, and a place in z, moved by links (also gradually), by
actions, by pauses, by restarts and by changes of the screen."""
import base64, random, struct, zlib
from gen import tag

COLOURS = ['red', 'lime', 'blue', 'yellow', 'cyan', 'magenta', 'white', '#336699', '#804020', '#20c0a0']
SCREENS = [(160, 120), (320, 240), (200, 100), (400, 300), (120, 200)]
DURS = ['0.5s', '1s', '1s', '2s', '3s']
TRACK = ['left', 'top', 'width', 'height', 'right', 'bottom', 'background', 'transparency', 'zIndex', 'zOrder', 'visible',
         'bounds', 'location', 'size']
TRANSITIONS = [('fade', None), ('fade', None), ('fade', 'crossfade'), ('barWipe', None), ('barWipe', 'leftToRight'),
               ('barWipe', 'topToBottom'), ('barWipe', 'topToBottom'), ('diagonalWipe', None), ('irisWipe', None)]
TEXTS = {'E': '', 'W': 'W', 'B': '\u2588', 'BB': '\u2588\u2588', 'MH': 'MH', 'U': '\u00c9M'}
FONT = {'fontSize': ['8', '10', '12', '14'], 'fontFamily': ['sans', 'serif', 'monospace'], 'fontStyle': ['normal', 'italic'],
        'fontWeight': ['normal', 'bold'], 'horzAlign': ['left', 'center', 'right', 'right', 'center', 'justified'],
        'vertAlign': ['top', 'middle', 'bottom', 'middle', 'bottom']}
WAVES = ['sine', 'square', 'saw', 'triangle', 'silence', 'white-noise', 'pink-noise', 'sine-table', 'ticks',
         'gaussian-noise', 'red-noise', 'blue-noise', 'violet-noise']
# Audio, video, signal generators: properties (the names of each) and their values.
AV = {'volume': ['0%', '25%', '50%', '100%', '0.5', '1', '0.75', '80%'], 'mute': ['true', 'false'],
      'balance': ['-1', '-0.5', '0', '0.5', '1', '-50%', '25%', '100%'], 'bass': ['-24', '-6', '0', '3.5', '12', '6'],
      'treble': ['-24', '-12', '0', '2.5', '12', '5'], 'speed': ['2', '0.5', '1', '1.5', '-1', '-2', '4', '0.25'],
      'time': ['0s', '5s', '1.5s', '10', '+2s', '+1', '+15', '-1s', '-2.5s', '-20', '00:00:03', '30s'],
      'freeze': ['true', 'false'], 'freq': ['220', '440', '1000', '50'], 'wave': WAVES}
ALSO = {'volume': 'soundLevel', 'balance': 'balanceLevel', 'bass': 'bassLevel', 'treble': 'trebleLevel', 'speed': 'rate',
        'time': 'currentTime'}
BASIC = {ALSO.get(n, n): n for n in AV}
BASIC.update({n: n for n in AV})


def png(qs, n=200):
    """An image of four quarters, colours given as rrggbbaa."""
    rows = []
    for half in (0, 1):
        row = b'\0' + b''.join(bytes.fromhex(qs[2 * half + i]) * (n // 2) for i in (0, 1))
        rows += [row] * (n // 2)

    def chunk(t, d):
        return struct.pack('>I', len(d)) + t + d + struct.pack('>I', zlib.crc32(t + d))
    return (b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', struct.pack('>IIBBBBB', n, n, 8, 6, 0, 0, 0))
            + chunk(b'IDAT', zlib.compress(b''.join(rows), 9)) + chunk(b'IEND', b''))


def ppm(qs, n=200):
    rows = [b''.join(bytes.fromhex(qs[2 * h + i][:6]) * (n // 2) for i in (0, 1)) * (n // 2) for h in (0, 1)]
    return b'P6 %d %d 255\n' % (n, n) + b''.join(rows)


def bmp(qs, n=200):
    rows = [b''.join(bytes.fromhex(qs[2 * h + i][:6])[::-1] * (n // 2) for i in (0, 1)) * (n // 2) for h in (1, 0)]
    return (struct.pack('<2sIHHIIiiHHIIiiII', b'BM', 54 + 3 * n * n, 0, 0, 54, 40, n, n, 1, 24, 0, 3 * n * n, 2835, 2835, 0, 0)
            + b''.join(rows))


BASE = dict(p_av=0, w_av=0, p_trans=.05, p_image=.05, p_text=.05, p_focus=.05, p_empty=.03, p_opt=.3, p_back=.01, p_again=.01, media=(2, 4), links=(2, 5), steps=(12, 24), p_ctx=.3, p_far=.3, p_whole=.35, p_z=.7, p_transp=.15,
            p_gradual=.5, p_resize=.08, p_unset=.35, p_delay=.2, p_dur=.2, p_region=.15, p_both=.08, p_area=.3,
            what=(('geo', 8), ('background', 2), ('transparency', 1), ('z', 2), ('visible', 1), ('text', 3), ('focus', 1), ('av', 6)),
            ms=(100, 250, 250, 500, 500, 700, 1000), w_tick=8, w_go=5, w_set=3, w_life=2)


class DrawGen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(BASE, **kw)

    def p(self, k):
        return self.r.random() < self.o[k]

    def num(self, k):
        return self.r.randint(*self.o[k])

    def pick(self, ws):
        return self.r.choices([k for k, _ in ws], [w for _, w in ws])[0]

    # values
    def pos(self, s):
        r = self.r
        return r.choice(['%d%%' % (5 * r.randint(0, 16)), '%d' % r.randint(0, s), '0', '%d%%' % (10 * r.randint(0, 9))])

    def length(self, s):
        r = self.r
        return r.choice(['%d%%' % (5 * r.randint(1, 20)), '%d' % r.randint(0, s), '%d%%' % (10 * r.randint(2, 10)), '100%'])

    def value(self, n):
        r = self.r
        w, h = self.scr
        if n in ('left', 'right'):
            return self.pos(w)
        if n in ('top', 'bottom'):
            return self.pos(h)
        if n in ('width', 'height') and self.p('p_empty'):
            return r.choice(['0', '0%', '0.1%'])
        if n == 'width':
            return self.length(w)
        if n == 'height':
            return self.length(h)
        if n == 'location':
            return '%s,%s' % (self.value('left'), self.value('top'))
        if n == 'size':
            return '%s,%s' % (self.value('width'), self.value('height'))
        if n == 'bounds':
            return '%s,%s' % (self.value('location'), self.value('size'))
        if n == 'background':
            return r.choice(COLOURS)
        if n in ('transparency', 'focusBorderTransparency'):
            return r.choice(['0%', '20%', '50%', '60%', '80%', '100%'])
        if n in ('fontColor', 'fontBgColor', 'focusBorderColor'):
            return r.choice(COLOURS)
        if n in BASIC:
            return r.choice(AV[BASIC[n]])
        if n in FONT:
            return r.choice(FONT[n])
        if n == 'focusIndex':
            return r.choice(['1', '2', '3', '4', ''])
        if n == 'focusBorderWidth':
            return r.choice(['1', '2', '4'])
        if n in ('zIndex', 'zOrder'):
            return str(r.randint(0, 4))
        if n == 'visible':
            return r.choice(['true', 'false'])
        return r.choice(['1', '2'])

    def media(self, i):
        r = self.r
        m = {'id': 'm%d' % i, 'vals': {}, 'may': {}}
        xs, ys = 'left', 'top'
        if self.p('p_far'):
            xs = 'right'
        if self.p('p_far'):
            ys = 'bottom'
        geo = [xs, ys, 'width', 'height']
        if self.p('p_both'):
            geo += ['left', 'top', 'right', 'bottom'][:r.randint(1, 4)]
        m['may']['geo'] = sorted(set(geo))
        if self.p('p_whole'):
            m['may']['geo'].append('size')
            if xs == 'left' and ys == 'top':
                m['may']['geo'] += ['bounds', 'location']
        for n in m['may']['geo']:
            if not self.p('p_unset'):
                m['vals'][n] = self.value(n)
        m['img'] = None
        if self.p('p_image'):
            qs = [r.choice(['ff0000ff', '00ff00ff', '0000ffff', 'ffff00ff', '20c0a0ff', 'ffffffff', '00000000'])
                  for _ in range(4)]
            ext, ty = r.choice([('png', None), ('png', None), ('png', 'image/png'), ('png', 'image/jpeg'),
                                ('txt', 'image/png'), ('x', 'image/png'), ('bmp', 'image/bmp'), ('gif', None)])
            make = png if '00000000' in qs or r.random() < .8 else r.choice([ppm, bmp])
            m['img'] = 'img-%s.%s' % ('-'.join(qs), ext), ty
            self.files[m['img'][0]] = 'base64:' + base64.b64encode(make(qs)).decode()
        elif self.p('p_text'):
            t = r.choice(['E'] + 3 * sorted(TEXTS))
            ext, ty = r.choice([('txt', None), ('txt', None), ('txt', 'text/plain'), ('x', 'text/plain')])
            m['img'] = 'txt-%s.%s' % (t, ext), ty
            self.files[m['img'][0]] = TEXTS[t]
            m['may']['text'] = ['fontColor', 'fontColor', 'fontBgColor', 'horzAlign', 'vertAlign'] + sorted(FONT)
            for n in sorted(set(m['may']['text'])):
                if r.random() < (.3 if n == 'fontBgColor' else .6):
                    m['vals'][n] = self.value(n)
        m['av'] = None
        if self.o['p_av'] and self.p('p_av'):
            m['av'] = r.choice(['video', 'video', 'audio', 'gen'])
            m['img'] = {'video': r.choice([('v.mp4', None), ('w.ogv', None), ('x', 'video/mp4'), ('v.mp4', 'video/mpeg')]),
                        'audio': r.choice([('a.mp3', None), ('b.wav', None), ('y', 'audio/ogg')]),
                        'gen': (None, 'application/x-ginga-siggen')}[m['av']]
            if m['img'][0]:
                self.files[m['img'][0]] = 'contents'
            ns = ['volume', 'freq', 'wave'] if m['av'] == 'gen' else [n for n in AV if n not in ('freq', 'wave')]
            m['may']['av'] = [ALSO[n] if n in ALSO and r.random() < .5 else n for n in ns]
            if m['av'] != 'gen':
                m['may']['av'] += [n for n in m['may']['av'] if BASIC[n] in ('speed', 'time')] * 2
            for n in sorted(set(m['may']['av'])):
                if r.random() < (.15 if n == 'freeze' else .35):
                    m['vals'][n] = self.value(n)
        if not m['img'] or r.random() < .5:
            m['vals']['background'] = r.choice(COLOURS)
            m['may']['background'] = ['background']
            if r.random() < .15:
                del m['vals']['background']
        elif r.random() < .2:
            m['may']['background'] = ['background']
        m['trans'] = None
        if self.p('p_trans'):
            m['trans'] = r.choice(TRANSITIONS) + (r.choice(['0.5s', '1s', '1s', '2s', '3s', '4s', '0s']),)
        if self.foc and r.random() < .8:
            m['vals']['focusIndex'] = str(i + 1) if r.random() < .8 else self.value('focusIndex')
            for n in ('moveUp', 'moveDown', 'moveLeft', 'moveRight'):
                if r.random() < .7:
                    m['vals'][n] = r.choice('1234')
            m['may']['focus'] = ['focusIndex', 'focusBorderColor', 'focusBorderTransparency', 'focusBorderWidth']
            for n in m['may']['focus'][1:]:
                if r.random() < .4:
                    m['vals'][n] = self.value(n)
        m['may']['transparency'] = ['transparency']
        if self.p('p_transp'):
            m['vals']['transparency'] = self.value('transparency')
        m['may']['z'] = ['zIndex', 'zOrder']
        for n in ('zIndex', 'zOrder'):
            if self.p('p_z'):
                m['vals'][n] = self.value(n)
        m['may']['visible'] = ['visible']
        if r.random() < .1:
            m['vals']['visible'] = 'false'
        if self.p('p_dur'):
            m['vals']['explicitDur'] = r.choice(['1s', '2s', '4s'])
        m['areas'] = []
        if self.p('p_area'):
            b = r.choice([0, .5, 1, 1.5])
            m['areas'].append(('ar%d' % i, '%gs' % b, '%gs' % (b + r.choice([.5, 1])) if r.random() < .7 else None))
        m['props'] = sorted({n for k in m['may'].values() for n in k} | set(m['vals']))
        return m

    def what(self, m):
        return self.pick([x for x in self.o['what'] if x[0] in m['may']])

    def doc(self):
        r = self.r
        self.scr = r.choice(SCREENS)
        self.files = {}
        self.foc = self.p('p_focus')
        ms = [self.media(i + 1) for i in range(self.num('media'))]
        self.ms = ms
        nl = self.num('links')
        conns, links, descs, regions, trans = [], [], [], [], []
        for i in range(nl):
            acts, binds = [], []
            x = r.random()
            if x < .6:
                cond = tag('simpleCondition', [('role', 'onBeginAttribution')])
                binds.append(('onBeginAttribution', 'tr', 'g%d' % (i + 1)))
            else:
                m = r.choice(ms)
                role = r.choice(['onBegin', 'onBegin', 'onPause', 'onEnd', 'onResume'])
                cond = tag('simpleCondition', [('role', role)])
                area = r.choice(m['areas'])[0] if m['areas'] and r.random() < .6 else None
                binds.append((role, m['id'], area))
            for j in range(r.choice([1, 1, 2, 3])):
                m = r.choice(ms)
                n = r.choice(m['may'][self.what(m)])
                dur = r.choice(DURS) if self.p('p_gradual') else None
                acts.append(tag('simpleAction', [('role', 'a%d' % j), ('eventType', 'attribution'), ('actionType', 'start'),
                                                 ('value', self.value(n)), ('duration', dur),
                                                 ('delay', r.choice(['0.5s', '1s']) if self.p('p_delay') else None)]))
                binds.append(('a%d' % j, m['id'], n))
            if r.random() < .2:
                m = r.choice(ms)
                acts.append(tag('simpleAction', [('role', r.choice(['start', 'stop', 'pause', 'resume'])),
                                                 ('delay', r.choice(['0.5s', '1s']) if self.p('p_delay') else None)]))
                binds.append((acts[-1].split('"')[1], m['id'], None))
            if len(acts) > 1:
                acts = [tag('compoundAction', [('operator', 'seq')], acts)]
            conns.append(tag('causalConnector', [('id', 'k%d' % i)], [cond] + acts))
            links.append((binds, tag('link', [('xconnector', 'k%d' % i)],
                                     [tag('bind', [('role', a), ('component', b), ('interface', c)]) for a, b, c in binds])))
        out = {'': [], 'c': []}
        ports = {'': [], 'c': []}
        for m in ms:
            kids = []
            desc = None
            kids += [tag('area', [('id', a), ('begin', b), ('end', e)]) for a, b, e in m['areas']]
            vals = dict(m['vals'])
            self.has_region = None
            if self.p('p_region'):
                self.has_region = 'r' + m['id']
                reg = {n: vals.pop(n) for n in list(vals) if n in ('left', 'top', 'width', 'height', 'right', 'bottom',
                                                                   'zIndex') and r.random() < .7}
                regions.append(tag('region', [('id', 'r' + m['id'])] + sorted(reg.items())))
            if m['trans']:
                ty, sub, dur = m['trans']
                trans.append(tag('transition', [('id', 't' + m['id']), ('type', ty), ('subtype', sub), ('dur', dur)]))
            if self.has_region or m['trans']:
                desc = 'd' + m['id']
                descs.append(tag('descriptor', [('id', desc), ('region', self.has_region),
                                                ('transIn', m['trans'] and 't' + m['id'])]))
            for n in m['props']:
                if n in vals or n not in m['vals']:
                    kids.append(tag('property', [('name', n), ('value', vals.get(n))]))
                else:
                    kids.append(tag('property', [('name', n)]))
            where = 'c' if self.p('p_ctx') else ''
            m['in'] = where
            out[where].append(tag('media', [('id', m['id']), ('descriptor', desc), ('src', m['img'] and m['img'][0]),
                                          ('type', m['img'] and m['img'][1])], kids))
            if r.random() < .8:
                ports[where].append(tag('port', [('id', 'p' + m['id']), ('component', m['id'])]))
        body = [tag('port', [('id', 'ptr'), ('component', 'tr')])] + ports['']
        if out['c']:
            body.append(tag('port', [('id', 'pc'), ('component', 'c')]))
        body += out['']
        if out['c']:
            body.append(tag('context', [('id', 'c')], ports['c'] + out['c']))
        body.append(tag('media', [('id', 'tr')], [tag('property', [('name', 'g%d' % (i + 1))]) for i in range(nl)]))
        if self.foc:
            body.append(tag('media', [('id', 'set'), ('type', 'application/x-ginga-settings')],
                            [tag('property', [('name', 'service.currentFocus'), ('value', r.choice('1234'))])]))
        # Links can only see the top level.
        top = {m['id'] for m in ms if not m['in']} | {'tr'}
        inner = {m['id'] for m in ms if m['in']}
        for b, l in links:
            if all(x[1] in top for x in b):
                body.append(l)
            elif all(x[1] in inner for x in b):
                k = next(i for i, x in enumerate(body) if x.startswith('<context'))
                body[k] = body[k].replace('</context>', l + '</context>')
        head = ''
        if regions:
            head += tag('regionBase', [], regions)
        if trans:
            head += tag('transitionBase', [], trans)
        if descs:
            head += tag('descriptorBase', [], descs)
        if conns:
            head += tag('connectorBase', [], conns)
        self.nl = nl
        return '<ncl id="doc"><head>%s</head>%s</ncl>' % (head, tag('body', [('id', 'b')], body))

    def schedule(self):
        r = self.r
        o = self.o
        st = [['start'], ['tick', 0]]
        w, h = self.scr
        for _ in range(self.num('steps')):
            x = r.random()
            if x < o['p_resize']:
                if self.p('p_opt'):
                    # one side, as an option
                    n = r.choice(['width', 'height'])
                    v = r.choice(SCREENS)[n == 'height']
                    w, h = (v, h) if n == 'width' else (w, v)
                    st.append(['opt', n, v, w, h])
                else:
                    w, h = r.choice(SCREENS)
                    st.append(['resize', w, h])
            elif x < o['p_resize'] + o['p_back']:
                st.append(['opt', 'background', r.choice(COLOURS + [''] * 4)])
            elif x < o['p_resize'] + o['p_back'] + o['p_again']:
                st.append(['stop'])
                if r.random() < .6:
                    st.append(r.choice([['opt', 'background', r.choice(COLOURS + [''])], ['redraw', w, h], ['tick', 100]]))
                st += [['start'], ['tick', 0]]
            else:
                avs = [m for m in self.ms if m['av']]
                k = self.pick((('tick', o['w_tick']), ('go', o['w_go']), ('set', o['w_set']), ('life', o['w_life']),
                               ('av', o['w_av'] if avs else 0)))
                if k == 'tick':
                    st.append(['tick', r.choice(o['ms'])])
                elif k == 'av':
                    m = r.choice(avs)
                    k = r.choice(['frame', 'frame', 'at', 'at', 'eos'])
                    if k == 'frame':
                        st.append(['frame', m['id'], [r.choice(['ff0000', '00ff00', '0000ff', 'ffff00', '20c0a0', 'ffffff'])
                                                      for _ in range(4)]])
                        if r.random() < .3:
                            st.append(['act', m['id'], 'p', '@lambda', 'pause'])
                    elif k == 'at':
                        st.append(['at', m['id'], r.choice([0, 1000, 2500, 8000, 14000]), r.choice([-1, 10000, 15000, 20000])])
                        ts = [n for n in m['may']['av'] if BASIC[n] in ('speed', 'time')]
                        if ts and r.random() < .7:
                            n = r.choice(ts)
                            st.append(['act', m['id'], 'a', n, 'start', self.value(n)])
                    else:
                        st.append(['eos', m['id']])
                elif k == 'life' and o['w_av'] and r.random() < .2 and any(m['areas'] for m in self.ms):
                    m = r.choice([m for m in self.ms if m['areas']])
                    st.append(['act', m['id'], 'p', r.choice(m['areas'])[0], r.choice(['start', 'start', 'stop', 'pause'])])
                elif k == 'go':
                    st.append(['act', 'tr', 'a', 'g%d' % r.randint(1, self.nl), 'start', r.choice('123')])
                elif self.foc and r.random() < .4:
                    if r.random() < .7:
                        kk = 'CURSOR_' + r.choice(['UP', 'DOWN', 'LEFT', 'RIGHT'])
                        st += [['key', kk, True], ['key', kk, False]]
                    else:
                        st.append(['act', 'set', 'a', 'service.currentFocus', 'start', r.choice('1234')])
                elif k == 'set':
                    # Sometimes several values of one object at once, some of
                    # them values it has already.
                    m = r.choice(self.ms)
                    cur = m.setdefault('cur', dict(m['vals']))
                    for _ in range(r.choice([1, 1, 1, 2, 3])):
                        n = r.choice(m['may'][self.what(m)])
                        v = cur[n] if n in cur and r.random() < .25 else self.value(n)
                        cur[n] = v
                        st.append(['act', m['id'], 'a', n, 'start', v])
                        if r.random() < .1:
                            st.append(['tick', r.choice(o['ms'])])
                else:
                    ids = [m['id'] for m in self.ms] * 3 + (['c'] if any(m['in'] for m in self.ms) else [])
                    st.append(['act', r.choice(ids), 'p', '@lambda',
                               r.choice(['start', 'start', 'pause', 'pause', 'resume', 'resume', 'stop'])])
            if r.random() < .75:
                st.append(['redraw', w, h])
        return st


def scenarios(seed, n, prefix, **kw):
    out = []
    for i in range(n):
        rng = random.Random('%s/%s/%d' % (seed, prefix, i))
        g = DrawGen(rng, **kw)
        d = g.doc()
        out.append({'id': '%s%d' % (prefix, i), 'ncl': d, 'files': g.files, 'w': g.scr[0], 'h': g.scr[1],
                    'steps': g.schedule(), 'track': TRACK})
        if g.o['p_av']:
            out[-1]['gst'] = True
    return out
