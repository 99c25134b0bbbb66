"""Documents and the trees they are: input of Load.tla, and canonical forms of
what the real parser made of them."""
import concurrent.futures, json, os, re
import xml.etree.ElementTree as ET
import gv

W, H = 800, 400


def local(name):
    return name.rsplit('}', 1)[-1]


def tree(text, nodes):
    """Appends the nodes of an XML text; returns the number of the root, or 0
    if the text is not well-formed."""
    try:
        root = ET.fromstring(text)
    except (ET.ParseError, ValueError):
        return 0

    def add(e, par):
        nodes.append({'t': local(e.tag), 'p': par, 'a': {local(k): v for k, v in e.attrib.items()}, 'k': []})
        me = len(nodes)
        for c in e:
            if isinstance(c.tag, str):
                k = add(c, me)
                nodes[me - 1]['k'].append(k)
        return me
    return add(root, 0)


def pred(p):
    return p


def canon(d):
    """A dumped document, by name."""
    objs, evs = d['objs'], d['evs']

    def oid(k):
        return objs[k - 1]['id'] if k else ''

    def ev(k):
        e = evs[k - 1] if k else {'o': 0, 'ty': '', 'id': ''}
        return {'o': oid(e['o']), 'ty': e['ty'], 'id': e['id']}

    def val(n, v):
        return re.sub(r'^file://?/?/tmp/gvdrive[^/]*/s/', '@/', v) if n == 'uri' else v
    r = {'objs': [{'id': o['id'], 'ty': o['type'], 'par': oid(o['parent']),
                   'al': [[a['n'], oid(a['c'])] for a in o['aliases']]} for o in objs],
         'evs': [dict(ev(i + 1), l=e['label'], b=e['b'], n=e['n'], k=e['key']) for i, e in enumerate(evs)],
         'props': [{'o': oid(p['o']), 'n': p['n'], 'v': val(p['n'], p['v'])} for p in d['props']],
         'ports': {}, 'links': {}, 'rules': {}, 'sports': {}}
    for o in objs:
        if o['type'] == 'ctx':
            r['ports'][o['id']] = [ev(k) for k in o['ports']]
            r['links'][o['id']] = [
                {'c': [{'e': ev(c['e']), 't': c['t'], 'p': c['p']} for c in l['conds']],
                 'a': [{'e': ev(a['e']), 't': a['t'], 'v': a['v'], 'du': a['du'], 'dl': a['dl']} for a in l['acts']]}
                for l in o['links']]
        elif o['type'] == 'switch':
            r['rules'][o['id']] = [{'o': oid(x['o']), 'p': x['p']} for x in o['rules']]
            r['sports'][o['id']] = [{'id': x['id'], 'evs': [ev(k) for k in x['evs']]} for x in o['sports']]
    return r


def observed(recs):
    docs = [r for r in recs if r['r'] == 'doc']
    res = [r for r in recs if r['r'] == 'res']
    end = [r for r in recs if r['r'] == 'end'][-1:] or [{}]
    if res and not end[0].get('sig') and not end[0].get('rc'):
        if res[-1]['ok'] and docs:
            return dict(canon(docs[-1]), st='ok')
        if not res[-1]['ok']:
            # A refusal must say why.
            return {'st': 'err' if res[-1]['err'] else 'err without a message'}
    return {'st': 'crash'}


def entry(scn, recs):
    """What Load.tla (LoadLua.tla) reads of a scenario and what was recorded of
    it."""
    if 'tab' in scn:
        main = scn.get('main', '')
        return {'id': scn['id'], 'tab': scn['tab'], 'main': main, 'base': os.path.basename(main), 'obs': observed(recs)}
    nodes = []
    root = tree(scn['ncl'], nodes)
    files = {n: tree(t, nodes) for n, t in scn.get('files', {}).items()}
    main = scn.get('main', '')
    if main:
        files[main] = root
    return {'id': scn['id'], 'nodes': nodes, 'root': root, 'files': files, 'main': main, 'w': scn.get('w', W),
            'h': scn.get('h', H), 'obs': observed(recs)}


class Result:
    def __init__(self):
        self.n = self.same = self.any = self.ok = self.err = self.states = self.trans = 0
        self.bad = []


def judge(scns, recs, tag, jobs=8, spec='Load'):
    """Has Load.tla judge what was recorded of the scenarios."""
    r = Result()
    parts = [x for x in (scns[k::jobs] for k in range(jobs)) if x]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for x in ex.map(lambda p: judge1(p[1], recs, '%s.l%d' % (tag, p[0]), spec), list(enumerate(parts))):
            for f in ('n', 'same', 'any', 'ok', 'err', 'states', 'trans'):
                setattr(r, f, getattr(r, f) + getattr(x, f))
            r.bad += x.bad
    return r


def judge1(scns, recs, tag, spec):
    r = Result()
    fn = os.path.join(gv.WORK, tag + '.docs.json')
    ents = [entry(s, recs.get(s['id'], [])) for s in scns]
    with open(fn, 'w') as f:
        for e in ents:
            f.write(json.dumps(e) + '\n')
    rc, out = gv.run_tlc(spec + '.tla', spec + '.cfg', {'GV_DOCS': fn}, tag, workers='1', heap='2g', timeout=800, jvm=gv.SHORT)
    if rc != 0:
        raise gv.Infra('TLC failed (%d):\n%s' % (rc, out[-4000:]))
    os.unlink(fn)
    r.trans, r.states = gv.tlc_stats(out)
    seen = set()
    for x in gv.reports(out):
        k = x['tr'] - 1
        seen.add(k)
        r.n += 1
        if x['kind'] == 'same':
            r.same += 1
            if x['x'] == 'ok':
                r.ok += 1
            else:
                r.err += 1
        elif x['kind'] == 'any':
            r.any += 1
        else:
            o = ents[k]['obs']
            exp = x['x']
            if x['kind'] == 'differs':
                obs = {f: o.get(f) for f in exp}
            else:
                obs = {'verdict': o['st']}
                exp = {'verdict': exp}
            r.bad.append({'scn': scns[k], 'kind': {'verdict': 'wrong verdict of the parser', 'crash': 'the parser crashed',
                                                   'differs': 'the document read is not the one written'}[x['kind']],
                          'exp': exp, 'obs': obs})
    if len(seen) != len(scns):
        raise gv.Infra('TLC judged %d of %d documents:\n%s' % (len(seen), len(scns), out[-3000:]))
    return r
