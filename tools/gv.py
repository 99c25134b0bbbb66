"""Common machinery of the checks: building and driving the implementation,
turning recordings into traces, running TLC, reporting."""
import concurrent.futures, json, os, re, subprocess, sys, time, tempfile, shutil, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, 'work')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
TRC = {'start': 1, 'pause': 2, 'resume': 3, 'stop': 4, 'abort': 5}
FUEL = 100

MIME = {"ac3": "audio/ac3", "png": "image/png", "lua": "application/x-ginga-NCLua", "txt": "text/plain",
        "svg": "image/svg+xml", "mp4": "video/mp4", "mp3": "audio/mp3", "ogv": "video/ogg", "wav": "audio/basic", "jpg": "image/jpeg", "gif": "image/gif", "html": "text/html"}


class Infra(Exception):
    pass


def build(san=False):
    cmd = [sys.executable, os.path.join(VERIF, 'tools', 'build.py')]
    if san:
        cmd.append('--san')
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise Infra('build failed:\n' + p.stdout[-3000:] + p.stderr[-3000:])
    return p.stdout.strip().split('\n')[-1]


def drive(exe, scns, tag, jobs=8, env=None, timeout=None):
    """Runs scenarios; returns {id: [records]}."""
    os.makedirs(WORK, exist_ok=True)
    parts = [scns[i::jobs] for i in range(jobs)]
    ps = []
    e = dict(os.environ)
    # Fresh memory holds no plausible values: what is used must have been set.
    e.update({'G_MESSAGES_DEBUG': '', 'HOME': '/nonexistent', 'GV_TIMEOUT': '20', 'MALLOC_PERTURB_': '191'})
    if env:
        e.update(env)
    if any(s.get('gst') for s in scns):
        e['GST_REGISTRY'] = os.path.join(WORK, 'gst-registry.bin')
        if not os.path.exists(e['GST_REGISTRY']):      # once, not by all at once
            e['GST_REGISTRY'] += '.%d' % os.getpid()
            fin = os.path.join(WORK, tag + '.in')
            with open(fin, 'w') as f:
                f.write(json.dumps({'id': 'x', 'gst': True, 'ncl': '', 'files': {}, 'steps': []}) + '\n')
            p = subprocess.run([exe, fin, fin + '.out'], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if p.returncode != 0 or not os.path.exists(e['GST_REGISTRY']):
                raise Infra('no GStreamer: ' + p.stderr[-2000:])
            os.unlink(fin)
            os.unlink(fin + '.out')
            os.rename(e['GST_REGISTRY'], os.path.join(WORK, 'gst-registry.bin'))
            e['GST_REGISTRY'] = os.path.join(WORK, 'gst-registry.bin')
    for i, part in enumerate(parts):
        if not part:
            continue
        fin = os.path.join(WORK, '%s.%d.in' % (tag, i))
        fout = os.path.join(WORK, '%s.%d.out' % (tag, i))
        with open(fin, 'w') as f:
            for s in part:
                f.write(json.dumps(s) + '\n')
        ps.append((subprocess.Popen([exe, fin, fout], env=e, stdout=subprocess.DEVNULL,
                                    stderr=subprocess.PIPE, text=True), fin, fout))
    res = {}
    for p, fin, fout in ps:
        err = p.communicate()[1]
        if p.returncode != 0:
            raise Infra('driver failed (%s): %s' % (p.returncode, err[-2000:]))
        cur = None
        with open(fout, encoding='utf-8', errors='replace') as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                try:
                    r = json.loads(line)
                except ValueError:
                    continue      # truncated by a crash
                if r.get('r') == 'scn':
                    cur = r['id']
                    res[cur] = []
                elif cur is not None:
                    res[cur].append(r)
        os.unlink(fin)
        os.unlink(fout)
    return res


# ---------------------------------------------------------------------------
# Strings the specification has to interpret.

def time_ms(s):
    """ginga::parse_time, in ms; -1 if it denotes no time."""
    t = s.rstrip()
    m = re.fullmatch(r'\s*([0-9.]*)s?', t)
    if m:
        if m.group(1) in ('', '.'):
            return 0 if t in ('', 's') else -1
        try:
            return int(round(float(m.group(1)) * 1000))
        except ValueError:
            return -1
    m = re.fullmatch(r'(\d+):(\d+):(\d+(\.\d+)?)', t)
    if m:
        return int(round((3600 * int(m.group(1)) + 60 * int(m.group(2)) + float(m.group(3))) * 1000))
    return -1


COLOURS = {'black': (0, 0, 0), 'white': (255, 255, 255), 'red': (255, 0, 0), 'lime': (0, 255, 0),
           'blue': (0, 0, 255), 'yellow': (255, 255, 0), 'cyan': (0, 255, 255), 'magenta': (255, 0, 255),
           'green': (0, 128, 0), 'navy': (0, 0, 128), 'maroon': (128, 0, 0), 'gray': (190, 190, 190)}


def number(s):
    """A number or percentage, in hundredths."""
    m = re.match(r'\s*([+-]?\d+(?:\.\d+)?)\s*(%?)', s)
    if not m:
        return {'n': 0, 'p': False}
    return {'n': int(max(-200000, min(200000, round(float(m.group(1)) * 100)))), 'p': m.group(2) == '%'}


def colour(s):
    m = re.fullmatch(r'#(\w\w)(\w\w)(\w\w)', s)
    if m:
        try:
            return [int(x, 16) for x in m.groups()]
        except ValueError:
            return [0, 0, 0]
    return list(COLOURS.get(s, (0, 0, 0)))


def transition(s):
    """An input transition: its kind and its duration."""
    t = dict(re.findall(r"(\w+)='([^']*)'", s)) if s.startswith('{') else {}
    k = t.get('type', '')
    if k == 'barWipe':
        k = {'': 'right', 'leftToRight': 'right', 'topToBottom': 'down'}.get(t.get('subtype', ''), 'other')
    elif k == 'diagonalWipe':
        k = 'diagonal'
    elif k and (k != 'fade' or t.get('subtype', '') not in ('', 'crossfade')):
        k = 'other'
    return {'k': k, 'd': max(0, time_ms(t.get('dur', '')))}


def quarters(s):
    """The colours of the image that file name s stands for."""
    m = re.search(r'img-(\w{8})-(\w{8})-(\w{8})-(\w{8})\.\w+$', s)
    return [[int(x[i:i + 2], 16) for i in (0, 2, 4, 6)] for x in m.groups()] if m else []


def text(s):
    """The text that file name s stands for: "none", "some", or "solid" blocks, if known."""
    m = re.search(r'txt-(\w+)\.\w+$', s)
    return {'E': 'none', 'B': 'solid', 'BB': 'solid'}.get(m.group(1), 'some') if m else ''


def instant(s):
    """Where to go in time: to, or forwards or backwards by, so much."""
    k = s[0] if s[:1] in ('+', '-') else ''
    t = time_ms(s[len(k):])
    return {'k': 'none' if s in ('', 'indefinite') or t < 0 else k, 't': max(0, t)}


def bands(rows):
    """A picture, given as rows of run lengths and colours, for Draw.tla."""
    out = []
    for y, row in enumerate(rows):
        if out and rows[y - 1] == row:
            out[-1]['e'] = y + 1
            continue
        x, r = 0, []
        for i in range(0, len(row), 2):
            c = row[i + 1]
            r.append({'x': x, 'e': x + row[i], 'c': [c >> 16 & 255, c >> 8 & 255, c & 255]})
            x += row[i]
        out.append({'y': y, 'e': y + 1, 'r': r})
    return out


def str_table(strings):
    st = set(strings) | {'', 'application/x-ginga-timer', 'black', 'yellow'} | set(MIME.values())
    todo = list(st)
    while todo:                      # closed under list elements
        s = todo.pop()
        if ',' in s:
            for x in s.split(','):
                if x.strip() not in st:
                    st.add(x.strip())
                    todo.append(x.strip())
    order = sorted(st, key=lambda s: s.encode('utf-8'))
    tab = {}
    for i, s in enumerate(order):
        o = p = ''
        if s.startswith('$') and '.' in s:
            o, p = s[1:].split('.', 1)
            if o == '':
                o = '$'              # refers to nothing
        ext = s.rsplit('.', 1)[1] if '.' in s else ''
        tab[s] = {'r': i, 't': time_ms(s), 'o': o, 'p': p,
                  'l': [x.strip() for x in s.split(',')], 'm': MIME.get(ext, ''), 'dollar': s.startswith('$'),
                  'x': number(s), 'c': colour(s), 'tr': transition(s), 'image': s.startswith('image'),
                  'q': quarters(s), 'text': text(s), 'sk': instant(s), 'av': s.startswith(('audio', 'video'))}
    return tab


def doc_strings(d):
    out = set()

    def pred(p):
        for k in ('l', 'r'):
            if k in p:
                out.add(p[k])
        for c in p.get('c', []):
            pred(c)
    for o in d['objs']:
        for l in o['links']:
            for c in l['conds']:
                pred(c['p'])
            for a in l['acts']:
                out.update((a['v'], a['du'], a['dl']))
        for r in o['rules']:
            pred(r['p'])
    for p in d['props']:
        out.add(p['v'])
    for e in d['evs']:
        out.add(e['key'])
    return out


def spec_doc(d):
    """The part of a dumped document the specification reads."""
    names = {p['n'] for p in d['props']} | {'type', 'bounds', 'location', 'size', 'left', 'top', 'width', 'height'}
    x = {k: d[k] for k in ('objs', 'evs', 'props', 'root', 'settings')}
    x['order'] = list(range(1, len(d['objs']) + 1))
    x['pnames'] = sorted(names, key=lambda s: s.encode())
    return x


class Names:
    """The numbers of the objects and events of a dumped document."""

    def __init__(self, doc=None):
        self.ev, self.obj, self.lab = {}, {}, {}
        if doc is None:
            return
        for i, o in enumerate(doc['objs']):
            self.obj[o['id']] = i + 1
            for al in o['aliases']:
                self.obj.setdefault(al['n'], i + 1)
            for j in o['evs']:
                if doc['evs'][j - 1]['label']:
                    self.lab[o['id'], doc['evs'][j - 1]['label']] = j
        for i, e in enumerate(doc['evs']):
            self.ev[(doc['objs'][e['o'] - 1]['id'], e['ty'], e['id'])] = i + 1
        for o in doc['objs']:
            for al in o['aliases']:
                for i in o['evs']:
                    e = doc['evs'][i - 1]
                    self.ev.setdefault((al['n'], e['ty'], e['id']), i)

    def action(self, st, d=0):
        """The step of the specification for a step of a scenario."""
        op = st[0]
        a = {'op': op, 'd': 0, 'ms': 0, 'key': '', 'press': False, 'e': 0, 't': 0, 'v': '', 'o': 0, 'w': 0,
             'h': 0, 'q': []}
        if op == 'start':
            a['d'] = d
        elif op == 'tick':
            a['ms'] = st[1]
        elif op == 'key':
            a['key'], a['press'] = st[1], st[2]
        elif op in ('act', 'trans'):
            a['e'] = self.ev.get((st[1], st[2], st[3]), 0)
            a['t'] = TRC[st[4]]
            a['v'] = st[5] if len(st) > 5 else ''
        elif op == 'resize':
            a['w'], a['h'] = st[1], st[2]
        elif op in ('eos', 'frame', 'at'):
            a['o'] = self.obj.get(st[1], 0)
            if op == 'at':
                a['w'], a['h'] = st[2], st[3]
            elif op == 'frame':
                a['q'] = [[int(c[i:i + 2], 16) for i in (0, 2, 4)] + [255] for c in st[2]]
        elif op == 'opt':
            # Setting the width or height as an option is a resize.
            a['op'] = 'background' if st[1] == 'background' else 'resize'
            if st[1] == 'background':
                a['v'] = st[2]
            else:
                a['w'], a['h'] = st[3], st[4]
        elif op == 'post':
            a['o'] = self.obj.get(st[1], 0)
            a['t'] = TRC.get(st[3], 0)
            a['v'] = st[5] if st[2] == 'attribution' else ''
            if a['t'] and a['o']:
                if st[2] == 'attribution':
                    a['e'] = self.ev.get((st[1], 'a', st[4]), 0)
                elif st[2] == 'presentation' and st[4] == '':
                    a['e'] = self.ev.get((st[1], 'p', '@lambda'), 0)
                elif st[2] == 'presentation':
                    a['e'] = self.lab.get((st[1], st[4]), 0)
        return a


def to_trace(scn, recs):
    """Pairs the steps of a scenario with what was recorded.
    Returns (docs, steps, strings)."""
    docs, steps, strs = [], [], set()
    end = [r for r in recs if r['r'] == 'end']
    end = end[-1] if end else {'sig': 0, 'rc': 0}
    kind = 'sig%d' % end.get('sig', 0) if end.get('sig') else 'rc%d' % end.get('rc', 0)
    obs = []
    for r in recs:
        if r['r'] == 'doc':
            docs.append(r)
            strs |= doc_strings(r)
        if r['r'] in ('doc', 'obs', 'diverge'):
            obs.append(r)
    pos = 0
    ndoc = 0
    names = Names()
    for st in scn['steps']:
        new = False
        if pos < len(obs) and obs[pos]['r'] == 'doc':
            names = Names(obs[pos])
            pos += 1
            ndoc += 1
            new = True
        a = names.action(st, ndoc if new else 0)
        strs.add(a['v'])
        if pos < len(obs):
            r = obs[pos]
            pos += 1
            if r['r'] == 'diverge':
                steps.append({'a': a, 'o': {'r': 'diverge'}})
                break
            o = {f: r[f] for f in ('r', 'ret', 'g', 'st', 'tm', 'pr', 'pl', 'foc', 'fo', 'log', 'msg', 'opt', 'gs', 'sv', 'su',
                                'sk', 'gl') if f in r}
            if 'px' in r:
                o['px'] = bands(r['px'])
            steps.append({'a': a, 'o': o})
        else:
            steps.append({'a': a, 'o': {'r': kind}})
            break
    else:
        # Everything was answered: the final disposal must be quiet, too.
        if end.get('sig') or end.get('rc'):
            steps.append({'a': Names().action(['stop']), 'o': {'r': kind}})
    return docs, steps, strs


FOCUSNAME = 'service.currentFocus'


# Short runs go faster with little compilation.
SHORT = ('-XX:TieredStopAtLevel=1',) if TIER == 'quick' else ()


def run_tlc(module, cfg, env, tag, xss='256m', heap='6g', timeout=600, extra=(), workers='8', jvm=()):
    meta = tempfile.mkdtemp(prefix='tlc-')
    e = dict(os.environ)
    e.update(env)
    try:
        p = subprocess.run(['java', '-Xss' + xss, '-Xmx' + heap, '-XX:+UseSerialGC'] + list(jvm) + ['-Djava.io.tmpdir=' + meta,
                            '-cp', JARS, 'tlc2.TLC', '-workers', workers, '-metadir', meta, '-noGenerateSpecTE',
                            '-config', cfg] + list(extra) + [module], cwd=SPEC, env=e, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(',', '')), int(d.replace(',', ''))


def reports(out):
    res = []
    for line in out.split('\n'):
        line = line.strip()
        if line.startswith('"{') and line.endswith('}"'):
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                pass
    return res


class Result:
    def __init__(self):
        self.generated = self.distinct = 0
        self.traces = self.steps = 0
        self.bad = []          # (scn, step, kind, expected, observed)
        self.fuel = 0


# Orders in which the implementation may visit sets of objects or events:
# that of the recording first, then others (see validate).
VARIANTS = [(), ('order',), ('kids',), ('evs',), ('order', 'kids', 'evs'), ('order', 'kids'), ('kids', 'evs'),
            ('order', 'evs')]


def vary(d, variant):
    if not variant:
        return d
    d = dict(d)
    if 'order' in variant:
        d['order'] = d['order'][::-1]
    objs = []
    for o in d['objs']:
        o = dict(o)
        for k in ('kids', 'evs'):
            if k in variant:
                o[k] = o[k][::-1]
        objs.append(o)
    d['objs'] = objs
    return d


def validate(scns, recs, tag, jobs=8, variant=(), env=None):
    """Checks recordings against Trace.tla, in parallel."""
    res = Result()
    if not scns:
        return res
    jobs = max(1, min(jobs, len(scns) // 20))
    parts = [scns[i::jobs] for i in range(jobs)]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(lambda x: validate1(x[1], recs, '%s.%d' % (tag, x[0]), variant, env), enumerate(parts)))
    for r in rs:
        res.generated += r.generated
        res.distinct += r.distinct
        res.traces += r.traces
        res.steps += r.steps
        res.fuel += r.fuel
        res.bad += r.bad
    return res


def validate1(part, recs, tag, variant=(), env=None):
    res = Result()
    data = {'docs': [], 'traces': [], 'fuel': FUEL}
    strs = {'', FOCUSNAME}
    keep = []
    for s in part:
        docs, steps, ss = to_trace(s, recs.get(s['id'], []))
        base = len(data['docs'])
        for st in steps:
            if st['a']['d']:
                st['a']['d'] += base
        data['docs'] += [vary(spec_doc(d), variant) for d in docs]
        strs |= ss
        data['traces'].append({'id': s['id'], 'scr': [s.get('w', 800), s.get('h', 600)], 'steps': steps})
        keep.append((s, docs, steps))
    data['str'] = str_table(strs)
    fn = os.path.join(WORK, tag + '.traces.json')
    with open(fn, 'w') as f:
        json.dump(data, f)
    e = {'GV_TRACES': fn}
    e.update(env or {})
    rc, out = run_tlc('Trace.tla', 'Trace.cfg', e, tag, workers='1', heap='2g', jvm=SHORT)
    if rc != 0:
        raise Infra('TLC failed (%d):\n%s' % (rc, re.sub(r"(?m)^\"\{.*\n", "", out)[-4000:]))
    os.unlink(fn)
    res.generated, res.distinct = tlc_stats(out)
    res.traces = len(part)
    res.steps = sum(len(x[2]) for x in keep)
    for r in reports(out):
        s, docs, steps = keep[r['tr'] - 1]
        obs = steps[r['k'] - 1]['o']
        if r['kind'] == 'fuel' and obs['r'] in ('obs', 'diverge'):
            res.fuel += 1
            continue
        res.bad.append({'scn': s, 'step': r['k'], 'kind': r['kind'], 'exp': r['x'], 'obs': obs,
                        'doc': docs[-1] if docs else None})
    return res


# ---------------------------------------------------------------------------
# Exhaustive exploration of small documents.

def graph(doc, alphabet, depth, tag, heap='2g', timeout=800, screen=(800, 600), pictures=False, claims=()):
    """Explores a dumped document with TLC.  Returns (edges, broken, stats):
    edges [(state, letter, state)], numbered from 0, the initial state; broken
    [(edge, properties)]."""
    names = Names(doc)
    alph = [names.action(st, 1 if len(st) == 1 else 0) for st in alphabet]
    strs = doc_strings(doc) | {'', FOCUSNAME} | {a['v'] for a in alph}
    fn = os.path.join(WORK, tag + '.model.json')
    with open(fn, 'w') as f:
        json.dump({'docs': [spec_doc(doc)], 'str': str_table(strs), 'fuel': FUEL, 'alph': alph, 'depth': depth,
                   'screen': list(screen), 'pictures': pictures,
                   'claims': list(claims)}, f)
    rc, out = run_tlc('Explore.tla', 'Explore.cfg', {'GV_MODEL': fn}, tag, workers='1', heap=heap, timeout=timeout)
    if rc != 0:
        raise Infra('TLC failed (%d):\n%s' % (rc, re.sub(r"(?m)^\"\{.*\n", "", out)[-4000:]))
    os.unlink(fn)
    num, edges, broken = {}, [], []
    for r in reports(out):
        x, i, y = r['e']
        for z in (x, y):
            num.setdefault(json.dumps(z, sort_keys=True), len(num))
        edges.append((num[json.dumps(x, sort_keys=True)], i - 1, num[json.dumps(y, sort_keys=True)]))
        if r['p']:
            broken.append((len(edges) - 1, r['p']))
    return edges, broken, tlc_stats(out)


def path_to(edges, k):
    """A shortest sequence of letters from state 0 that ends with edge k."""
    out = {}
    for x, i, y in edges:
        out.setdefault(x, []).append((i, y))
    seen, q = {0: None}, [0]
    for x in q:
        for i, y in out.get(x, []):
            if y not in seen:
                seen[y] = (x, i)
                q.append(y)
    x, i, _ = edges[k]
    path = [i]
    while seen.get(x):
        x, i = seen[x]
        path.append(i)
    return path[::-1]


def tours(edges, rng, length=40, limit=None):
    """Walks from state 0 that go through the edges, as lists of letters."""
    out = {}
    for k, (x, i, y) in enumerate(edges):
        out.setdefault(x, []).append((i, y, k))
    for x in out:
        rng.shuffle(out[x])
    todo = set(range(len(edges)))
    fresh = {x: list(v) for x, v in out.items()}
    walks = []
    total = 0
    while todo and (limit is None or total < limit):
        at, w, new = 0, [], 0
        while len(w) < length:
            f = fresh.get(at, [])
            while f and f[-1][2] not in todo:
                f.pop()
            if f:
                i, y, k = f.pop()
                todo.discard(k)
                w.append(i)
                at = y
                new += 1
                continue
            # nearest state with something left to do
            seen, q, hit = {at: None}, [at], None
            for x in q:
                if any(k in todo for _, _, k in fresh.get(x, [])):
                    hit = x
                    break
                for i, y, k in out.get(x, []):
                    if y not in seen:
                        seen[y] = (x, i)
                        q.append(y)
            if hit is None:
                break
            path = []
            while seen[hit]:
                x, i = seen[hit]
                path.append(i)
                hit = x
            path.reverse()
            if len(w) + len(path) >= length and w:
                break
            for i in path:
                at = next(y for j, y, _ in out[at] if j == i)
            w += path
        if not new:
            # the rest cannot be reached within the length
            if length > 400:
                break
            length *= 2
            continue
        walks.append(w)
        total += len(w)
    return walks, len(edges) - len(todo)


def confirm(exe, bad, tag, limit=10, env=None):
    """Runs again what was rejected, allowing for other iteration orders of
    sets; returns what is rejected whatever the order."""
    out = []
    for b in bad[:limit]:
        s = b['scn']
        recs = drive(exe, [s], tag + '.c', jobs=1, env=env)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda x: validate1([s], recs, '%s.c%d' % (tag, x[0]), x[1]), enumerate(VARIANTS)))
        if all(r.bad for r in rs):
            c = dict(rs[0].bad[0])
            out.append(c)
            break
    return out
