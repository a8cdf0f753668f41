"""Directives under generated schedules (C09-C13, C20, C27)."""
import json
FS = {0: [[]], 1: [['f']], 2: [['f', 'g']], 3: [['f', 'g', 'f']]}
CONSTS = dict(Null='\\null')


def cfg(c, shape, d=0, tag=None, bad=()):
    return dict(fs=c.rng.choice(FS[shape['s']]), end=shape['end'], tag=tag or 'ABC'[d] + ':', bad=list(bad))


def indices(c, sh, n):
    """The indices n inputs go by: any, but for a fold; in order, if they are to be sorted."""
    if sh['end'] not in ('stream', 'sorted') or n == 0 or c.rng.random() < .5:
        return []
    top = c.rng.choice([4 * n, 1 << 8, 1 << 16, 1 << 17, 1 << 31, 1 << 32, 1 << 33, 1 << 53, (1 << 64)])
    near = max(0, c.rng.choice([top, top // 2]) - n - 2)
    if c.rng.random() < .5:
        xs = set(range(near, min(near + n, top)))
    else:
        xs = {c.rng.choice([0, top - 1])}
    while len(xs) < n:
        xs.add(c.rng.randrange(max(top, n)))
    xs = sorted(xs)
    if sh['end'] == 'stream':
        c.rng.shuffle(xs)
    return xs


def script(c, x, poison=0.0, probe=False):
    """A generated schedule as a script: the inputs become 0..n-1."""
    ops = [dict(o) for o in x['ops']]
    shape = x['shape'] if isinstance(x['shape'], list) else [x['shape'][str(k)] for k in range(len(x['shape']))]
    dirs = []
    for d, sh in enumerate(shape):
        mine = [o for o in ops if o['d'] == d]
        if sh['end'] == 'literal':     # there is nothing in the metadata of a literal
            for o in mine:
                o['o'] = o['o'].replace('badmeta', 'badout')
        given = [o['k'] for o in mine if o['o'] == 'in']
        if not any(o['o'] in ('inerr', 'drop') for o in mine):
            miss = [k for k in range(max(given, default=-1) + 1) if k not in given]
            ops += [dict(o='in', d=d, k=k, hold=c.rng.random() < .5) for k in miss]
            given += miss
        bad = []
        if given and c.rng.random() < poison and not any(o['o'] in ('badout', 'badmeta') for o in mine):
            bad = [c.rng.choice(given)]
        dirs.append(dict(cfg(c, sh, d, bad=bad), at=indices(c, sh, max(given, default=-1) + 1)))
    return dict(ops=ops, dirs=dirs, cbor=c.rng.random() < .5, seed=c.rng.randrange(1 << 30), nostart=c.rng.random() < .1, probe=probe)


def project(traces):
    """The runs of the individual directives."""
    out = []
    for x in traces:
        for d, cf in enumerate(x['script']['dirs']):
            ev = [e for e in x['ev'] if e.get('d', d) == d and e['e'] not in ('over', 'probe')]
            out.append(dict(x, ev=ev, cfg={a: b for a, b in cf.items() if a not in ('at', 'order')}))
    return out


def corrupt(ev, rng):
    kinds = ['lost result', 'swapped', 'wrong value', 'twice', 'partial', 'never returns', 'swallowed error', 'early end', 'early value', 'wrong index']
    rng.shuffle(kinds)
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    done = at('ret', 'rete', 'outend')
    for kind in kinds:
        if kind == 'swapped':
            ks = [k for k in at('task') if ev[k]['f'] == 'cat']
            if ks:
                e = ev[rng.choice(ks)]
                e['a'], e['b'] = e['b'], e['a']
                return kind, ev
        if kind == 'twice':
            ks = at('task')
            if ks:
                k = rng.choice(ks)
                return kind, ev[:k + 1] + [dict(ev[k], j=99)]
        if kind == 'wrong value':
            ks = [k for k in at('ret') if ev[k]['v']]
            if ks:
                k = ks[0]
                v = ev[k]['v']
                ev[k]['v'] = v[1:] + v[:1] if len(v) > 1 and rng.random() < .5 else v + v[:1]
                return kind, ev
        if kind == 'partial':
            ks = [k for k in at('ret') if len(ev[k]['v']) > 1]
            if ks:
                ev[ks[0]]['v'] = ev[ks[0]]['v'][:-1]
                return kind, ev
        if kind == 'never returns' and done and not at('oute') and ev[done[0]].get('x') != 'codec':
            return kind, ev[:done[0]] + [dict(e='quiet')]
        if kind == 'swallowed error':
            ks = at('rete', 'oute')
            if ks and ev[ks[0]]['x'] != 'codec':
                return kind, ev[:ks[0]] + [dict(e='outend' if ev[ks[0]]['e'] == 'oute' else 'quiet')]
        if kind == 'early value':
            ks = at('res')
            if ks and at('ret') and len(ks) > 1:
                return kind, ev[:ks[-1]] + [ev[at('ret')[0]]]
        if kind == 'early end':
            ks = at('out')
            if ks and at('outend') and not at('oute'):
                k = ks[-1]
                return kind, ev[:k] + [dict(e='outend')]
        if kind == 'wrong index':
            ks = at('out')
            if len(ks) > 1:
                a, b = rng.sample(ks, 2)
                ev[a]['k'], ev[b]['k'] = ev[b]['k'], ev[a]['k']
                return kind, ev
        if kind == 'lost result':
            ks = at('out')
            if ks:
                k = rng.choice(ks)
                nxt = next((j for j in range(k + 1, len(ev)) if ev[j]['e'] in ('quiet', 'outend')), None)
                if nxt is not None and not any(e['e'] == 'oute' for e in ev):
                    return kind, ev[:k] + ev[k + 1:nxt + 1]
    return None


def run(c, gens, poison=0.0, what='schedules', ncorrupt=60, probe=False):
    scripts = [script(c, x, poison, probe) for g in gens for x in c.generated(g)]
    traces = c.harness('leader', scripts)
    c.validate('TracePipeline', project(traces), CONSTS, corrupt=corrupt, ncorrupt=ncorrupt, maxcorrupt=200, what=what)
    return traces


def gen(c, shapes, n, l, extra=(), maxextra=0, holds=(False,), inorder=False, d=1, **kw):
    return c.gen('GenPipeline', dict(D=d, N=n, L=l, Extra=list(extra), MaxExtra=maxextra, Holds=list(holds), InOrder=inorder, Shapes=('raw', '<- ' + shapes)), **kw)


def real(c, shapes, count, sizes, dirs=(1,), what='real workers', workers=(1, 2, 3, 4), sources=True):
    """Directives on real workers and threads."""
    scripts = []
    for k in range(count):
        ds = []
        for d in range(c.rng.choice(dirs)):
            sh = c.rng.choice(shapes)
            n = 1 if sh['end'] == 'literal' else c.rng.choice(sizes)
            order = list(range(n))
            if c.rng.random() < .6:
                c.rng.shuffle(order)
            tag = 'r%d%s:' % (k, 'abcdefgh'[d])
            ds.append(dict(cfg(c, sh, d, tag=tag), order=order, at=indices(c, sh, n)))
            if sources and sh['end'] != 'literal' and c.rng.random() < .3:
                ds[-1].update({'from': c.rng.choice(['vec', 'iter', 'from', 'try']), 'at': []})
        scripts.append(dict(dirs=ds, workers=c.rng.choice(workers), cbor=c.rng.random() < .5, seed=c.rng.randrange(1 << 30)))
    traces = c.harness('directives', scripts)
    c.validate('TracePipeline', project(traces), CONSTS, corrupt=corrupt, ncorrupt=30, maxcorrupt=60, what=what)
    return traces


def fold_models(c, faults, defects):
    n = 5 if c.quick else 7
    ms = [c.model('FoldImpl', dict(N=n, Faults=faults, Defect='none'), inv=['Prompt', 'NMinusOne'], props=['Contract'], label='mechanism refines the contract', timeout=800),
          c.model('FoldImpl', dict(N=n, Faults=False, Defect='none'), spec='Fair', props=['Completes'], label='completes', timeout=800)]
    return ms + c.refuted('FoldImpl', dict(N=3, Faults=True), defects, inv=['Prompt', 'NMinusOne'], props=['Contract'])


def map_models(c, faults, defects):
    b = dict(N=3 if c.quick else 5, Limit=2, Faults=faults, Defect='none')
    ms = [c.model('MapImpl', b, inv=['Prompt'], props=['Contract'], label='mechanism refines the contract', timeout=800),
          c.model('MapImpl', dict(b, Faults=False), spec='Fair', props=['Completes'], label='completes', timeout=800)]
    return ms + c.refuted('MapImpl', dict(b, N=3, Faults=True), defects, inv=['Prompt'], props=['Contract'])


FOLD, MAP = dict(s=0, end='fold'), dict(s=1, end='stream')
CHAINS = [dict(s=1, end='fold'), dict(s=2, end='fold'), dict(s=2, end='stream'), dict(s=3, end='stream'), dict(s=2, end='sorted'), dict(s=1, end='sorted')]
ERRS = ['inerr', 'fail', 'badout', 'badmeta']


def bulk(c, kinds, fails=True, broker=False):
    """Directives over many elements: only the outcome is looked at."""
    ms = [c.model('Bulk', dict(N=4, Kinds=kinds, Defect='none'), inv=['Closed', 'Goes'], label='outcome of many elements')]
    ms += c.refuted('Bulk', dict(N=5, Kinds=kinds), ['narrow'] + ['twice'] * (kinds != ['fold']) + ['anyorder'] * ('fold' in kinds), inv=['Closed', 'Goes'])
    scripts = []
    for k in range(6 if c.quick else 60):
        big = k < len(kinds) and not broker
        kind = kinds[k % len(kinds)]
        n = c.rng.randrange(65600, 67000) if big else c.rng.choice([300, 700, 1500] if broker else [0, 1, 2, 255, 257, 1000, 4000])
        fail = fails and not big and n > 2 and c.rng.random() < .3
        scripts.append(dict(cfg=dict(kind=kind, n=n, fail=fail), kind=kind, n=n, fail=fail, at=c.rng.randrange(1, max(2, n)), workers=c.rng.choice([1, 1, 2] if broker else [2, 3, 4]), broker=broker, cbor=c.rng.random() < .5, seed=c.rng.randrange(1 << 30), shuffled=c.rng.random() < .3))
    traces = c.harness('bulk', scripts)

    def spoil(ev, rng):
        if ev[0]['e'] == 'error':
            return 'value for an error', [dict(e='outcome', value=[], outs=0, wrong=0, calls=0, maps=0)]
        if ev[0]['e'] != 'outcome':
            return None
        how = rng.choice(['calls', 'maps', 'outs', 'wrong'])
        ev[0][how] += 1
        return how, ev
    c.validate('TraceBulk', traces, {}, corrupt=spoil, ncorrupt=6, what='many elements')
    return ms
