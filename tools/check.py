#!/usr/bin/env python3
"""check.py ID: decides one property; see DESIGN.md."""
import collections, concurrent.futures, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gv, gen, families, drawgen, load, loadgen, luaload, models

SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:malloc_fill_byte=64', 'UBSAN_OPTIONS': 'print_stacktrace=0'}
# Checks that look for memory faults run the sanitized build.
SAN = {'C17', 'C18', 'C24'}


class Check:
    def __init__(self, pid):
        self.id = pid
        self.t0 = time.time()
        self.tier = gv.TIER
        self.seed = gv.SEED
        self.scale = 1 if self.tier == 'quick' else 20
        self.cov = collections.Counter()
        self.samples = []
        self.bad = []
        self.notes = []

    @property
    def exe(self):
        return gv.build(san=self.id in SAN)

    def env(self):
        return SAN_ENV if self.id in SAN else None

    # ------------------------------------------------------------------
    def dyn(self, make=gen.scenarios, fams=families.DYN):
        """Random documents and schedules: what the presenter does must be a
        behaviour of Ginga.tla."""
        exe = self.exe
        for i, (n, kw) in enumerate(fams[self.id]):
            left = n * self.scale
            part = 0
            while left > 0 and not self.bad:
                m = min(left, 1600)
                scns = make('%d.%d' % (self.seed, part), m, '%s-%d-%d-' % (self.id, i, part), **kw)
                recs = gv.drive(exe, scns, self.id, env=self.env())
                v = gv.validate(scns, recs, self.id)
                self.cov['states'] += v.distinct
                self.cov['transitions'] += v.generated - v.traces
                self.cov['traces_validated_against_impl'] += v.traces
                self.cov['calls_compared'] += v.steps
                self.cov['inconclusive_causal_loops'] += v.fuel
                self.cov['pictures_compared'] += sum('px' in r for s in scns for r in recs.get(s['id'], []))
                if not self.samples:
                    self.sample(scns[0], recs)
                if v.bad:
                    self.bad += gv.confirm(exe, v.bad, self.id, env=self.env())
                    self.cov['rejected_then_accepted_in_another_order'] += 0 if self.bad else len(v.bad)
                left -= m
                part += 1

    def draw(self):
        """Likewise, comparing pictures too (Draw.tla)."""
        self.dyn(drawgen.scenarios, families.DRAW)

    def explore(self):
        """Small documents: every state and every call of an alphabet, up to a
        depth; the graph TLC finds is walked on the real presenter."""
        exe = self.exe
        rng = random.Random('%d/%s' % (self.seed, self.id))
        quick = self.tier == 'quick'
        todo = []
        for name, ncl, alph, dq, dt, *more in models.MODELS.get(self.id, []):
            tag = '%s-%s' % (self.id, name)
            base = {'ncl': ncl, 'files': {'s.lua': '', 'bad.ncl': '<ncl><body><media/></body></ncl>'}}
            base.update(*more)
            recs = gv.drive(exe, [dict(base, id='x', steps=[['start']])], tag, jobs=1, env=self.env())
            docs = [r for r in recs['x'] if r['r'] == 'doc']
            if not docs:
                self.bad.append({'scn': dict(base, steps=[['start']]), 'kind': 'the document is not accepted',
                                 'exp': 'a presentation', 'obs': recs['x'][-1], 'step': 1})
                return
            todo.append((tag, base, alph, dq if quick else dt, docs[0]))

        def one(x):
            tag, base, alph, depth, d = x
            kw = dict(claims=[self.id])
            if not quick:
                kw.update(heap='8g', timeout=7200)
            if 'w' in base:
                kw.update(screen=(base['w'], base['h']), pictures=True)
            return gv.graph(d, alph, depth, tag, **kw)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            graphs = list(ex.map(one, todo))
        for (tag, base, alph, depth, d), (edges, broken, stats) in zip(todo, graphs):
            self.cov['states'] += stats[1]
            self.cov['transitions'] += len(edges)
            self.cov['edges_explored'] += len(edges)
            limit = (3000 if 'w' in base else 12000) // len(todo) if quick else (150000 if 'w' in base else 1500000)
            walks, done = gv.tours(edges, rng, limit=limit)
            self.cov['edges_replayed_on_impl'] += done
            self.notes.append('%s: depth %d, %d letters, %d states, %d edges, %d replayed in %d walks' % (
                tag, depth, len(alph), stats[1], len(edges), done, len(walks)))
            for k, ps in broken:
                if self.id in ps:
                    self.bad.append({'scn': dict(base, steps=models.steps(base, [alph[i] for i in gv.path_to(edges, k)])),
                                     'kind': 'a reachable step of the presenter, as specified, breaks the property',
                                     'exp': ps, 'obs': {}, 'step': 0})
                    return
            scns = [dict(base, id='%s-w%d' % (tag, i), steps=models.steps(base, [alph[j] for j in w]))
                    for i, w in enumerate(walks)]
            for b in range(0, len(scns), 4000):
                part = scns[b:b + 4000]
                recs = gv.drive(exe, part, tag, env=self.env())
                v = gv.validate(part, recs, tag)
                self.cov['traces_validated_against_impl'] += v.traces
                self.cov['calls_compared'] += v.steps
                self.cov['pictures_compared'] += sum('px' in r for s in part for r in recs.get(s['id'], []))
                self.cov['inconclusive_causal_loops'] += v.fuel
                if v.bad:
                    self.bad += gv.confirm(exe, v.bad, self.id, env=self.env())
                    if self.bad:
                        return

    def load(self):
        """Documents as text: what the parser answers must be what Load.tla
        says of the text."""
        f = families.LOAD[self.id]
        scope = set(f['scope'].split()) if f.get('scope') else None
        quick = self.tier == 'quick'
        batches = [lambda: loadgen.core('%d' % self.seed, self.id + '-core', scope, f.get('core') if quick else None)]
        for i, (n, kw) in enumerate(f['gen']):
            for part in range(1 if quick else self.scale):
                batches.append(lambda i=i, n=n, kw=kw, part=part: loadgen.scenarios(
                    '%d.%d' % (self.seed, part), n, '%s-l%d-%d-' % (self.id, i, part), scope=scope, **kw))
        for b in batches:
            if not self.judged(b(), 'Load'):
                return

    def lua(self):
        """Documents as Lua tables, likewise (LoadLua.tla)."""
        quick = self.tier == 'quick'
        batches = [lambda: luaload.core('%d' % self.seed, self.id + '-core', 2200 if quick else None)]
        for part in range(1 if quick else self.scale):
            for i, (n, kw) in enumerate(families.LUA):
                batches.append(lambda i=i, n=n, kw=kw, part=part: luaload.scenarios(
                    '%d.%d' % (self.seed, part), n, '%s-u%d-%d-' % (self.id, i, part), **kw))
        for b in batches:
            if not self.judged(b(), 'LoadLua'):
                return

    def judged(self, scns, spec):
        exe = self.exe
        recs = gv.drive(exe, scns, self.id, env=self.env())
        v = load.judge(scns, recs, self.id, spec=spec)
        self.cov['states'] += v.states
        self.cov['transitions'] += v.trans - v.n
        self.cov['traces_validated_against_impl'] += v.n
        self.cov['documents_accepted_as_specified'] += v.ok
        self.cov['documents_rejected_as_specified'] += v.err
        self.cov['documents_without_a_claim'] += v.any
        if not self.samples:
            self.samples.append({'document': scns[0]['ncl'][:1500], 'files': sorted(scns[0]['files'])})
        if v.bad:
            again = [b['scn'] for b in v.bad[:5]]
            recs = gv.drive(exe, again, self.id, env=self.env())
            self.bad += load.judge(again, recs, self.id, spec=spec).bad
        return not self.bad

    def sample(self, scn, recs):
        rs = [r for r in recs.get(scn['id'], []) if r['r'] in ('obs', 'res')]
        self.samples.append({'document': scn.get('ncl', '')[:1500], 'steps': scn.get('steps'),
                             'observed': [{k: r.get(k) for k in ('ret', 'g', 'log', 'st', 'tm')} for r in rs[:6]]})

    # ------------------------------------------------------------------
    def finish(self):
        known = load_known()
        rc = 0
        shown = []
        for b in self.bad:
            k = match_known(known, self.id, b)
            if k:
                shown.append(k)
                continue
            d = os.path.join(gv.WORK, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s.json' % self.id)
            with open(path, 'w') as f:
                json.dump(dict(b, property=self.id), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.id, path))
            print(describe(b))
            rc = 1
            break
        for k in known:
            if k['property'] == self.id:
                print('KNOWN-FINDING: property=%s %s' % (self.id, k['what']))
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': dict({k: v for k, v in self.cov.items()}, samples=self.samples or ['(none)'],
                               notes=self.notes),
              'wall_s': round(time.time() - self.t0, 2), 'violations': rc}
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            ev['coverage'].setdefault(k, 0)
        os.makedirs(os.path.join(gv.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(gv.VERIF, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if rc == 0:
            print('%s held: %s in %.1f s' % (self.id, dict(self.cov), time.time() - self.t0))
        return rc


def load_known():
    fn = os.path.join(gv.VERIF, 'known-findings.json')
    return json.load(open(fn))['findings'] if os.path.exists(fn) else []


def match_known(known, pid, b):
    for k in known:
        if k['property'] == pid and k['key'] == b.get('key'):
            return k
    return None


def describe(b):
    out = []
    s = b.get('scn', {})
    if 'step' in b and 'steps' in s:
        k = b['step']
        out.append('  at call %d: %s' % (k, s['steps'][k - 1] if k <= len(s['steps']) else 'disposal'))
    out.append('  %s' % b.get('kind'))
    exp, obs = b.get('exp'), b.get('obs', {})
    if isinstance(exp, dict):
        for f in exp:
            out.append('  %s: expected %s, observed %s' % (f, json.dumps(exp[f])[:600], json.dumps(obs.get(f))[:600]))
    else:
        out.append('  expected %s, observed %s' % (exp, json.dumps(obs)[:600]))
    return '\n'.join(out)


def main():
    pid = sys.argv[1]
    c = Check(pid)
    try:
        import registry
        for f in registry.PARTS[pid]:
            f(c)
            if c.bad:
                break
    except gv.Infra as e:
        print('ERROR of the check: %s' % e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
