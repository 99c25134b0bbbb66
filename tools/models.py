"""Small documents whose whole state space is explored, with the alphabet of
calls: {property: [(name, document, alphabet, depth quick, depth thorough,
more of the scenarios, if any)]}."""
import base64
import drawgen

TR = ('start', 'pause', 'resume', 'stop', 'abort')


def A(addr, trs=TR, op='act'):
    """Calls that act on event `obj', `obj@area' or `obj.prop' or `obj<key'."""
    for c, ty in (('@', 'p'), ('.', 'a'), ('<', 's'), ('^', 'l')):
        if c in addr:
            o, e = addr.split(c, 1)
            break
    else:
        o, ty, e = addr, 'p', '@lambda'
    return [[op, o, ty, e, t] for t in trs]


def SET(addr, *vals):
    o, e = addr.split('.', 1)
    return [['act', o, 'a', e, 'start', v] for v in vals]


def D(addr, trs=TR):
    return A(addr, trs, 'trans')


def T(*ms):
    return [['tick', m] for m in ms]


def K(*ks):
    return [['key', k, p] for k in ks for p in (True, False)]


def conn(i, cond, *acts, **kw):
    """A connector: cond 'role' or 'role:key' or a guard; acts 'role attr=..'"""
    def act(a):
        w = a.split()
        return '<simpleAction role="%s"%s/>' % (w[0], ''.join(' %s="%s"' % tuple(x.split('=', 1)) for x in w[1:]))
    def con(c):
        w = c.split()
        return '<simpleCondition role="%s"%s/>' % (w[0], ''.join(' %s="%s"' % tuple(x.split('=', 1)) for x in w[1:]))
    cs = ''.join(con(c) for c in ([cond] if isinstance(cond, str) else cond)) + kw.get('guard', '')
    if cs.count('<') > 1:
        cs = '<compoundCondition operator="or">%s</compoundCondition>' % cs
    aa = ''.join(map(act, acts))
    if len(acts) > 1:
        aa = '<compoundAction operator="seq">%s</compoundAction>' % aa
    return '<causalConnector id="%s">%s%s</causalConnector>' % (i, cs, aa)


def link(c, *binds):
    """Binds 'role comp', 'role comp@iface' with parameters 'n=v'."""
    out = ''
    for b in binds:
        w = b.split()
        co, _, i = w[1].partition('@')
        ps = ''.join('<bindParam name="%s" value="%s"/>' % tuple(x.split('=', 1)) for x in w[2:])
        out += '<bind role="%s" component="%s"%s>%s</bind>' % (w[0], co, ' interface="%s"' % i if i else '', ps)
    return '<link xconnector="%s">%s</link>' % (c, out)


def doc(body, conns='', rules='', extra=''):
    return '<ncl id="x"><head>%s%s%s</head><body>%s</body></ncl>' % (
        '<ruleBase>%s</ruleBase>' % rules if rules else '', extra,
        '<connectorBase>%s</connectorBase>' % conns if conns else '', body)


def media(i, *kids, **kw):
    """Kids: 'a:begin:end' areas, 'p=v' or 'p' properties."""
    k = ''
    for x in kids:
        if '=' in x:
            k += '<property name="%s" value="%s"/>' % tuple(x.split('=', 1))
        elif ':' not in x:
            k += '<property name="%s"/>' % x
        else:
            n, b, e = x.split(':')
            k += '<area id="%s"%s%s/>' % (n, ' begin="%s"' % b if b else '', ' end="%s"' % e if e else '')
    a = ''.join(' %s="%s"' % (n, v) for n, v in kw.items())
    return '<media id="%s"%s>%s</media>' % (i, a, k)


def port(i, c, f=None):
    return '<port id="%s" component="%s"%s/>' % (i, c, ' interface="%s"' % f if f else '')


SETT = 'application/x-ginga-settings'
LIVE = media('z') + port('pz', 'z')      # keeps the presentation alive

NEST = doc(LIVE + '<context id="k">%s%s%s<context id="i">%s%s</context></context>' % (
    port('q', 'm'), port('q2', 'i'), media('m', 'x=0'), port('q3', 'n'), media('n', 'a:1s:2s')))
TWO = doc(LIVE + '<context id="k">%s%s%s%s</context>' % (
    port('q', 'm'), port('q2', 'n', 'a'), media('m', 'explicitDur=1s'), media('n', 'a::1s')))
LINKED = doc(LIVE + '<context id="k">%s%s%s%s</context>' % (
    port('q', 'm'), media('m'), media('n', 'explicitDur=1s'), link('c', 'onEnd m', 'start n')) + media('e') +
    link('c', 'onEnd k', 'start e'), conn('c', 'onEnd', 'start'))
AREAS = doc(LIVE + media('m', 'a:1s:2s', 'b:500ms:1.5s'.replace('500ms', '0.5s'), 'c:1s:', 'explicitDur=3s'))
AREAL = doc(LIVE + media('m', 'a:1s:2s', 'b:1s:2s') + media('n') + link('c', 'onBegin m@a', 'pause m') +
            link('d', 'onEnd m@b', 'start n'), conn('c', 'onBegin', 'pause') + conn('d', 'onEnd', 'start'))
ATTR = doc(LIVE + media('m', 'x=1', 'y=2') + '<context id="k"><property name="cx" value="5"/>%s%s</context>' % (
    port('q', 'n'), media('n', 'x=7', 'a::1s')) +
    link('c', 'onBegin m', 'set m@x v=$n.x', 'set2 k@cx v=$m.y'),
    conn('c', 'onBegin', 'set value=$v duration=1s', 'set2 eventType=attribution actionType=start value=$v duration=2s'))
ATTR2 = doc(LIVE + media('s', 'v=1', type=SETT) + media('m', 'x=1', 'top=10') +
            link('c', 'onEndAttribution m@x', 'set s@v'), conn('c', 'onEndAttribution', 'set value=9'))
RULES = '<rule id="r1" var="v" comparator="eq" value="1"/><rule id="r2" var="v" comparator="lte" value="2"/>'
SWITCH = doc(LIVE + media('s', 'v=1', type=SETT) +
             '<switch id="w"><switchPort id="sp"><mapping component="m" interface="a"/><mapping component="n"/>'
             '</switchPort><bindRule constituent="m" rule="r1"/><bindRule constituent="n" rule="r2"/>'
             '<defaultComponent component="o"/>%s%s%s</switch>' % (media('m', 'a:1s:2s'), media('n'), media('o')), rules=RULES)
SWNODEF = doc(LIVE + media('s', 'v=3', type=SETT) +
              '<switch id="w"><switchPort id="sp"><mapping component="n"/></switchPort>'
              '<bindRule constituent="m" rule="r1"/><bindRule constituent="n" rule="r2"/>%s%s</switch>' % (
                  media('m', 'explicitDur=1s'), media('n')) + media('e') + link('c', 'onEnd w@sp', 'start e') +
              link('c', 'onEnd w', 'start e'), conn('c', 'onEnd', 'start'), RULES)
SWCTX = doc(LIVE + media('s', 'v=1', type=SETT) + '<context id="k">%s<switch id="w"><switchPort id="sp">'
            '<mapping component="c1" interface="q1"/><mapping component="c2"/></switchPort>'
            '<bindRule constituent="c1" rule="r1"/><defaultComponent component="c2"/>'
            '<context id="c1">%s%s</context><context id="c2">%s%s</context></switch></context>' % (
                port('q', 'w', 'sp'), port('q1', 'm'), media('m'), port('q2', 'n'), media('n')), rules=RULES)
LINKS = doc(LIVE + media('m') + media('n') + media('o') + '<context id="k">%s%s%s%s</context>' % (
    port('q', 'i'), media('i'), media('j'), link('c', 'onBegin i', 'start j')) +
    link('c', 'onBegin k@q', 'start o') + link('s', 'onEnd o', 'stop k', 'start m') +
    link('c', 'onBegin m', 'start n') + link('p', 'onPause k', 'pause m'),
    conn('c', 'onBegin', 'start') + conn('s', 'onEnd', 'stop', 'start') + conn('p', 'onPause', 'pause'))
CHAIN = doc(LIVE + media('m', 'x=0') + media('n', 'x=0') + media('o') +
            link('c', 'onBegin m', 'set n@x', 'start n') + link('d', 'onBegin n', 'start o', 'stop m') +
            link('e', 'onEnd m', 'set m@x', 'stop o') + link('f', 'onBegin m', 'start o'),
            conn('c', 'onBegin', 'set value=1', 'start') + conn('d', 'onBegin', 'start', 'stop') +
            conn('e', 'onEnd', 'set value=2', 'stop') + conn('f', 'onBegin', 'start'))
GUARDS = doc(LIVE + media('m', 'x=1') + media('n') + media('o') + '<context id="k"><property name="cx" value="2"/>%s%s</context>' % (
    port('q', 'i'), media('i')) +
    link('c', 'onBegin m', 'start n', 't m@x') + link('d', 'onBegin m', 'start o', 't m@x', 'u k@cx'),
    conn('c', 'onBegin', 'start', guard='<assessmentStatement comparator="gte"><attributeAssessment role="t"/>'
         '<valueAssessment value="2"/></assessmentStatement>') +
    conn('d', 'onBegin', 'start', guard='<compoundStatement operator="or" isNegated="true"><assessmentStatement '
         'comparator="eq"><attributeAssessment role="t"/><attributeAssessment role="u"/></assessmentStatement>'
         '<assessmentStatement comparator="lt"><attributeAssessment role="t"/><valueAssessment value="10"/>'
         '</assessmentStatement></compoundStatement>'))
DELAY = doc(LIVE + '<context id="k">%s%s%s%s%s</context>' % (
    port('q', 'w'), media('w'), media('m', 'x=0'), media('n'), link('c', 'onBegin m', 'start n', 'set m@x')),
    conn('c', 'onBegin', 'start delay=1s', 'set value=7 delay=1.5s duration=1s'))
DELAY2 = doc(LIVE + media('m') + media('n') + media('o') + link('c', 'onBegin m', 'start n') +
             link('d', 'onBegin n', 'stop n', 'stop m') + link('e', 'onEnd m', 'start o'),
             conn('c', 'onBegin', 'start delay=1s') + conn('d', 'onBegin', 'stop delay=0.5s', 'stop delay=0.5s'.replace(
                 'stop', 'stop2 eventType=presentation actionType=stop')).replace('stop2 ', 'stop2 ') +
             conn('e', 'onEnd', 'start delay=2s'))
DELAY2 = DELAY2.replace('bind role="stop" component="m"', 'bind role="stop2" component="m"')
REFER = doc(LIVE + media('m', 'x=1', 'a:1s:2s') + media('e') + '<context id="k">%s%s%s%s</context>' % (
    port('q', 'r', 'b'), '<media id="r" refer="m"><area id="b" begin="0.5s"/><property name="y" value="4"/></media>',
    media('n'), link('c', 'onBegin r', 'start n')) + link('s', 'onEnd k@q', 'start e') + link('c', 'onBegin m@a', 'start e'),
    conn('c', 'onBegin', 'start') + conn('s', 'onEnd', 'start'))
KEYS = doc(LIVE + media('s', type=SETT) + media('m') + media('n', 'focusIndex=1') + media('o', 'focusIndex=2') +
           link('c', 'onSelection m k=RED', 'start e') + link('c', 'onSelection n', 'start e') +
           link('c', 'onSelection o k=RED', 'start e') + media('e'),
           conn('c', 'onSelection key=$k', 'start'))
FOCUS = doc(LIVE + media('s', type=SETT) + media('m', 'focusIndex=1', 'moveDown=2') +
            media('n', 'focusIndex=2', 'moveUp=1', 'moveDown=3') + media('o', 'focusIndex=3', 'moveUp=2'))
PROTO = doc(media('m', 'explicitDur=1s', 'x=1') + port('p', 'm') + media('s', type=SETT))
SCRIPT = doc(LIVE + media('s', type=SETT) +
             '<media id="m" src="s.lua"><area id="a" label="L"/><property name="x" value="1"/>'
             '<property name="focusIndex" value="1"/></media>')
CUR = 'service.currentFocus'
PST = [['post', 'm', 'presentation', 'start', 'L', ''], ['post', 'm', 'presentation', 'stop', 'L', ''],
       ['post', 'm', 'presentation', 'stop', '', ''], ['post', 'm', 'attribution', 'start', 'x', '3'], ['redraw']]



def screen(w, h, **kw):
    """Scenarios whose pictures are looked at."""
    return dict(kw, w=w, h=h)


def steps(base, letters):
    """The schedule of a walk; each call is followed by a drawing, if wanted."""
    if 'w' not in base:
        return [['start']] + letters
    w, h = base['w'], base['h']
    out = []
    for st in [['start']] + letters:
        if st[0] == 'resize':
            w, h = st[1:3]
        elif st[0] == 'opt' and st[1] in ('width', 'height'):
            w, h = st[3:5]
        out.append(st)
        if st[0] != 'redraw':
            out.append(['redraw', w, h])
    return out


# Documents that are looked at.
def files(*names):
    out = {}
    for n in names:
        if n.startswith('img-'):
            out[n] = 'base64:' + base64.b64encode(drawgen.png(n[4:-4].split('-'))).decode()
        elif n.startswith('txt-'):
            out[n] = drawgen.TEXTS[n[4:-4]]
        else:
            out[n] = 'contents'
    return out


def triggers(*sets):
    """Setting tr.gN gradually sets a property: 'm@p value duration'."""
    out, cs = '', ''
    for i, s in enumerate(sets, 1):
        to, v, d = s.split()
        out += link('g%d' % i, 'onBeginAttribution tr@g%d' % i, 'set ' + to)
        cs += conn('g%d' % i, 'onBeginAttribution', 'set value=%s duration=%s' % (v, d))
    return media('tr', *['g%d=0' % i for i in range(1, len(sets) + 1)]) + out, cs


def G(n):
    return [x for i in range(1, n + 1) for x in SET('tr.g%d' % i, '1')]


def entering(*specs):
    """Transitions and descriptors: 'id type[/subtype] dur'."""
    t = d = ''
    for s in specs:
        i, ty, du = s.split()
        ty, _, sub = ty.partition('/')
        t += '<transition id="t%s" type="%s"%s dur="%s"/>' % (i, ty, ' subtype="%s"' % sub if sub else '', du)
        d += '<descriptor id="d%s" transIn="t%s"/>' % (i, i)
    return '<transitionBase>%s</transitionBase><descriptorBase>%s</descriptorBase>' % (t, d)


SIZES = [['resize', 96, 150], ['resize', 160, 120]]
PLACE = doc(LIVE + media('m', 'background=red', 'left=10', 'top=20%', 'width=50%', 'height=40', 'bounds', 'zIndex=1') +
            media('n', 'background=#20c0a0', 'right=10%', 'bottom=0', 'width=100', 'height=50%', 'size', 'zIndex=1', 'zOrder=1',
                  'transparency=0%', 'visible'))
ORDER = doc(LIVE + ''.join(media(i, 'background=' + c, 'left=%d' % x, 'top=%d' % x, 'width=60%', 'height=60%', 'zIndex=' + z, 'zOrder=' + o,
                                 'visible=true', 'transparency=0%')
                           for i, c, x, z, o in (('m', 'red', 0, '1', '2'), ('n', 'blue', 30, '2', '1'), ('o', 'lime', 50, '1', '1'))))
_tr, _cs = triggers('m@left 80 1s', 'm@bounds 10,10,50%,50% 2s', 'm@background blue 1s', 'm@transparency 100% 1s', 'm@left 0 2s')
MOVE = doc(LIVE + media('m', 'background=red', 'left=10', 'top=20', 'width=40', 'height=50%', 'bounds', 'transparency=0%') + _tr, _cs)
_tr, _cs = triggers('m@right 30 1s', 'm@width 40 1s', 'm@top 50% 1.5s', 'm@size 100%,100% 1s')
MOVER = doc(LIVE + media('m', 'background=red', 'right=20', 'top=20', 'width=80', 'height=50%', 'size', 'explicitDur=4s') + _tr, _cs)
_tr, _cs = triggers('m@transparency 50% 1s')
FADE = doc(LIVE + '<media id="m" descriptor="da"><property name="background" value="red"/>'
           '<property name="transparency" value="20%"/></media>' + media('n', 'background=blue', 'zIndex=1', 'left=50%', 'width=20%')
           .replace('<media id="n"', '<media id="n" descriptor="db"') + _tr, _cs, extra=entering('a fade 1s', 'b fade/crossfade 2s'))
WIPE = doc(LIVE + '<media id="m" descriptor="da"><property name="background" value="red"/><property name="left" value="10"/>'
           '<property name="width" value="100"/><property name="visible" value="true"/></media>'
           '<media id="n" descriptor="db"><property name="background" value="lime"/><property name="zIndex" value="1"/>'
           '<property name="top" value="25%"/><property name="height" value="50%"/></media>'
           '<media id="o" descriptor="dc"><property name="background" value="blue"/><property name="left" value="120"/></media>',
           extra=entering('a barWipe/leftToRight 1s', 'b barWipe/topToBottom 2s', 'c irisWipe 1s'))
IMG = ('img-ff0000ff-00ff00ff-0000ffff-ffff00ff.png', 'img-00000000-ffffffff-20c0a0ff-00000000.png')
_tr, _cs = triggers('m@width 100% 1s', 'n@transparency 100% 1s')
IMAGES = doc(LIVE + media('m', 'left=10', 'top=10', 'width=50%', 'height=50%', 'visible=true', src=IMG[0]) +
             media('n', 'background=red', 'right=0', 'width=60', 'bottom=0', 'height=60%', 'zIndex=1', 'transparency=0%', src=IMG[1]) + _tr, _cs)
TXT = ('txt-MH.txt', 'txt-B.txt', 'txt-E.txt')
WORDS = doc(LIVE + media('m', 'background=white', 'width=60%', 'height=50%', 'horzAlign=center', 'vertAlign=bottom', 'fontColor=red',
                         'fontBgColor', src=TXT[1]) +
            media('n', 'right=0', 'width=50', 'bottom=0', 'height=60', 'fontBgColor=blue', 'fontColor=yellow', 'horzAlign', 'zIndex=1', src=TXT[0]) +
            media('o', 'background=lime', 'top=60%', 'width=30%', src=TXT[2]))
FRAMES = doc(LIVE + media('s', type=SETT) +
             media('m', 'background=blue', 'left=10', 'width=60', 'top=10', 'height=60', 'focusIndex=1', 'moveDown=2', 'focusBorderColor=lime') +
             media('n', 'background=red', 'left=80', 'width=40%', 'top=30', 'height=70', 'focusIndex=2', 'moveUp=1', 'moveDown=3', 'visible=true') +
             media('o', 'left=30', 'width=90', 'top=50', 'height=60', 'focusIndex=3', 'moveUp=2', 'focusBorderTransparency=50%', 'zIndex=2'))
_tr, _cs = triggers('m@left 50% 1s')
OPTS = doc(media('m', 'explicitDur=2s', 'background=red', 'left=50%', 'width=30', 'top=20', 'height=50%', 'transparency=40%') +
           port('p', 'm') + port('pt', 'tr') + _tr, _cs)
VIDEO = doc(LIVE + media('m', 'a:2s:4s', 'volume=50%', 'speed=1', 'time', 'balance=0.5', 'mute=false', 'freeze=false', 'width=50%',
                         src='v.mp4'))
SOUND = doc(LIVE + media('m', 'soundLevel=50%', 'rate=2', 'time', 'trebleLevel=5', 'bassLevel=-6', src='a.mp3') +
            media('g', 'freq=220', 'wave=saw', 'volume=25%', type='application/x-ginga-siggen') + media('e', 'background=red') +
            link('c', 'onEnd m', 'start e'), conn('c', 'onEnd', 'start'))
GO4 = ('start', 'pause', 'resume', 'stop')
QS = [['frame', 'm', ['ff0000', '00ff00', '0000ff', 'ffff00']], ['frame', 'm', ['20c0a0', 'ffffff', 'ff0000', '0000ff']]]
VGA = screen(160, 120)

MODELS = {
    'C01': [('nest', TWO, T(1000) + D('k') + D('m') + D('n') + D('n@a'), 4, 7),
            ('attr', ATTR, T(1000) + D('m') + D('m.x') + D('k.cx') + D('k', ('start', 'stop', 'pause', 'resume')), 5, 8),
            ('keys', KEYS, D('m') + D('m<RED') + D('n<') + T(500) + K('RED'), 4, 7)],
    'C02': [('links', LINKS, A('m', ('start', 'stop')) + A('o', ('start', 'stop')) + A('k') + A('i', ('start', 'stop', 'pause')) +
             T(500), 5, 8),
            ('refer', REFER, A('m') + A('r@b', ('start', 'stop')) + A('k') + T(500, 1000), 4, 7)],
    'C03': [('chain', CHAIN, A('m') + A('n') + A('o', ('start', 'stop')) + T(500) + SET('n.x', '3'), 5, 8),
            ('links', LINKS, A('m', ('start', 'stop')) + A('o') + A('k', ('start', 'stop', 'abort')) + T(500), 5, 8)],
    'C04': [('delay', DELAY, T(500, 1000) + A('k') + A('m', ('start', 'stop')), 6, 9),
            ('delay2', DELAY2, T(500, 1000) + A('m', ('start', 'stop')) + A('n', ('start', 'stop')), 7, 10)],
    'C05': [('nest', NEST, T(1000) + A('k') + A('i') + A('m', ('start', 'pause', 'resume', 'stop')) +
             A('n', ('start', 'stop')) + A('n@a', ('start',)), 4, 7),
            ('swctx', SWCTX, T(500) + A('k') + A('w') + A('m', ('start', 'stop')), 5, 8)],
    'C06': [('two', TWO, T(500) + A('k') + A('m', ('start', 'stop', 'pause', 'resume')) + A('n', ('start', 'stop')), 5, 9),
            ('linked', LINKED, T(600) + A('k') + A('m', ('start', 'stop')) + A('z', ('start', 'stop')) +
             A('__settings__', ('start', 'stop')), 5, 8)],
    'C07': [('nest', NEST, T(500) + A('k') + A('i', ('start', 'stop')) + A('m', ('start', 'stop')) +
             A('n', ('start', 'stop', 'pause')) + A('n@a', ('start',)), 5, 8)],
    'C08': [('switch', SWITCH, T(500) + A('w', ('start', 'stop')) + A('w@sp', ('start', 'stop')) + SET('s.v', '1', '2', '3') +
             A('m', ('start', 'stop')) + A('n', ('start',)), 5, 8),
            ('nodef', SWNODEF, T(500) + A('w', ('start', 'stop')) + A('w@sp', ('start', 'stop')) +
             SET('s.v', '1', '2', '3'), 6, 9)],
    'C09': [('switch', SWITCH, T(1000) + A('w') + A('w@sp') + A('m') + A('m@a', ('stop', 'pause')) + SET('s.v', '1', '2'), 4, 7),
            ('swctx', SWCTX, T(500) + A('w') + A('w@sp') + A('c1', ('start', 'stop', 'pause')) + SET('s.v', '1', '2'), 4, 7),
            ('nodef', SWNODEF, T(600) + A('w') + A('n') + A('w@sp', ('start', 'stop')) + SET('s.v', '1', '2'), 4, 7)],
    'C10': [('areas', AREAS, T(250, 1000) + A('m') + A('m@a', ('start', 'stop', 'pause')) + A('m@b', ('start', 'resume')), 5, 7),
            ('areal', AREAL, T(500, 1000) + A('m') + A('m@a', ('start', 'stop')) + A('m@b', ('start', 'stop')), 5, 8)],
    'C11': [('areas', AREAS, T(250, 1000, 2000) + A('m') + A('m@a', ('start',)), 6, 8),
            ('two', TWO, T(500, 1000) + A('k') + A('m', ('start', 'stop', 'pause', 'resume')), 6, 9)],
    'C12': [('attr', ATTR, T(500, 1000) + A('m', ('start', 'stop')) + SET('m.x', '3', '$m.y') + SET('m.y', '4', '') +
             A('m.x', ('stop', 'abort')) + A('k', ('start', 'stop', 'pause')), 4, 7),
            ('attr2', ATTR2, T(500) + A('m') + SET('m.x', '2', '$s.v', '$q.v') + SET('m.top', '5') + SET('s.v', '3') +
             A('m.x', ('stop', 'abort', 'pause')) + A('s', ('start', 'stop')), 4, 7)],
    'C13': [('refer', REFER, A('m') + A('r@b', ('start', 'stop')) + A('r', ('start', 'pause')) + A('k', ('start', 'stop', 'pause')) +
             SET('r.x', '3') + SET('m.y', '5') + T(500), 4, 7)],
    'C14': [('keys', KEYS, K('RED', 'ENTER') + A('m', ('start', 'pause', 'resume', 'stop')) + A('n', ('start', 'pause', 'stop')) +
             A('o', ('start', 'stop')) + T(500) + SET('s.' + CUR, '2'), 5, 7)],
    'C15': [('focus', FOCUS, [['key', 'CURSOR_DOWN', True], ['key', 'CURSOR_UP', True]] + A('m', ('start', 'pause', 'stop')) +
             A('n', ('start', 'stop')) + A('o', ('start', 'resume', 'pause')) + T(500) + SET('s.' + CUR, '3', '') +
             A('s', ('stop', 'start')), 5, 7)],
    'C16': [('proto', PROTO, [['start'], ['stop'], ['start', 'bad.ncl'], ['start', 'none.ncl'], ['redraw']] + T(0, 600) +
             K('RED') + A('m', ('start', 'stop')) + SET('m.x', '2'), 6, 9)],
    'C17': [('swctx', SWCTX, T(500) + D('k') + D('w') + D('w@sp') + D('c1', ('start', 'stop', 'pause')) + A('m', ('start', 'stop')), 3, 6),
            ('areal', AREAL, T(500) + D('m') + D('m@a') + D('m@b') + A('n', ('start', 'stop')), 4, 7)],
    'C21': [('guards', GUARDS, A('m', ('start', 'stop')) + A('n', ('stop',)) + A('o', ('stop',)) +
             SET('m.x', '1', '2', '10', '', '9') + SET('k.cx', '2', '1', 'a') + T(0), 5, 8)],
    'C25': [('place', PLACE, SIZES + A('m', GO4) + A('n', ('start', 'stop')) + SET('m.left', '30%', '70') + SET('m.top', '0') +
             SET('m.bounds', '5,5,50%,50%') + SET('n.size', '30%,40') + SET('n.height', '0'), 3, 5, VGA),
            ('order', ORDER, A('m', ('start', 'stop')) + A('n', ('start', 'stop')) + A('o', ('start', 'stop')) + SET('m.zIndex', '0', '2') +
             SET('n.zOrder', '0', '3') + SET('o.zIndex', '3') + SET('m.transparency', '50%') + SET('n.visible', 'false', 'true') + T(0), 3, 5, VGA)],
    'C26': [('move', MOVE, T(250, 600) + A('m', GO4) + G(5) + SET('m.left', '60') + SIZES[:1], 4, 5, VGA),
            ('mover', MOVER, T(500) + A('m', GO4) + G(4) + SET('m.right', '0', '25%') + SET('m.width', '100%') + SIZES, 4, 5, VGA)],
    'C28': [('fade', FADE, T(250, 600) + A('m', GO4) + A('n', GO4) + G(1) + SET('m.transparency', '0%', '100%') + SIZES[:1], 4, 6, VGA),
            ('wipe', WIPE, T(250, 700) + A('m', GO4) + A('n', GO4) + A('o', ('start', 'pause', 'stop')) + SET('m.visible', 'false', 'true'), 4, 6, VGA)],
    'C29': [('images', IMAGES, T(500) + A('m', GO4) + A('n', ('start', 'stop')) + G(2) + SET('m.visible', 'false', 'true') +
             SET('n.transparency', '50%') + SET('m.width', '0', '40') + SIZES, 4, 5, screen(160, 120, files=files(*IMG)))],
    'C30': [('words', WORDS, T(500) + A('m', ('start', 'stop')) + A('n', ('start', 'pause', 'stop')) + A('o', ('start',)) +
             SET('m.horzAlign', 'right', '') + SET('m.vertAlign', 'middle') + SET('m.fontColor', 'blue') + SET('m.fontBgColor', 'yellow', '') +
             SET('n.horzAlign', 'center') + SET('n.width', '100%', '0') + SIZES, 3, 5, screen(160, 120, files=files(*TXT)))],
    'C31': [('frames', FRAMES, [['key', 'CURSOR_DOWN', True], ['key', 'CURSOR_UP', True]] + A('m', ('start', 'pause', 'stop')) +
             A('n', ('start', 'stop')) + A('o', ('start', 'pause')) + T(500) + SET('s.' + CUR, '3', '') + SET('m.focusIndex', '3') +
             SET('n.visible', 'false') + SET('m.focusBorderColor', 'red') + SIZES[:1], 4, 5, VGA)],
    'C32': [('opts', OPTS, [['start'], ['stop'], ['opt', 'background', 'blue'], ['opt', 'background', ''], ['opt', 'background', '#336699'],
                            ['opt', 'width', 96, 96, 120], ['opt', 'width', 160, 160, 120], ['resize', 96, 120], ['resize', 160, 120]] +
             T(0, 600) + G(1) + A('m', ('start', 'stop')), 5, 8, VGA)],
    'C33': [('video', VIDEO, T(500) + A('m', GO4) + A('m@a', ('start', 'stop')) + QS + [['eos', 'm'], ['at', 'm', 1000, 10000]] +
             SET('m.speed', '2', '-1') + SET('m.time', '5s', '+9.5s', '-2s') + SET('m.freeze', 'true'), 4, 5,
             screen(160, 120, gst=True, files=files('v.mp4'))),
            ('mix', VIDEO, T(1000) + A('m', GO4) + SET('m.volume', '', '80%') + SET('m.mute', 'true', 'false') + SET('m.balance', '-1', '') +
             SET('m.width', '100%') + QS[:1] + [['eos', 'm']], 4, 5, screen(160, 120, gst=True, files=files('v.mp4'))),
            ('sound', SOUND, T(500) + A('m', GO4) + A('g', GO4) + [['eos', 'm'], ['eos', 'g'], ['at', 'm', 2000, -1]] +
             SET('m.soundLevel', '1') + SET('m.rate', '-0.5') + SET('m.time', '-1s') + SET('m.bassLevel', '') + SET('g.freq', '1000') +
             SET('g.wave', 'square', ''), 3, 5, screen(160, 120, gst=True, files=files('a.mp3')))],
    'C27': [('script', SCRIPT, A('m') + A('m@a', ('start', 'stop')) + SET('m.x', '2') + K('RED') + PST + T(500), 4, 6)],
}
# Alternatives to the alphabets above that take more room: thorough tier only.
MODELS['C11'][0] = ('areas', AREAS.replace('<property', '<property name="x" value="1"/><property', 1),
                    T(250, 1000, 2000) + A('m') + A('m@a', ('start',)) + SET('m.explicitDur', '1s', '5s'), 5, 7)
