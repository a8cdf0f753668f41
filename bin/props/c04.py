"""C04: names of queues and channels."""
import copy


def corrupt(ev, rng):
    takes = [k for k, e in enumerate(ev) if e['e'] == 'take']
    kind = rng.choice(['lost', 'twice', 'altered', 'undeleted', 'issued twice', 'other name', 'phantom'])
    if kind == 'lost' and takes:
        k = takes[-1]
        c = ev[k]['c']
        if ev[-1]['e'] == 'drained' and not any(e['e'] == 'drop' for e in ev[k:]):
            return kind, ev[:k] + ev[k + 1:]
    if kind == 'twice' and takes:
        k = rng.choice(takes)
        return kind, ev[:k + 1] + [copy.deepcopy(ev[k])] + ev[k + 1:]
    if kind == 'altered' and takes:
        ev[rng.choice(takes)]['m'] = 0
        return kind, ev
    if kind == 'issued twice':
        ids = [k for k, e in enumerate(ev) if e['e'] == 'issue']
        if len(ids) > 1:
            ev[ids[1]]['n'] = ev[ids[0]]['n']
            return kind, ev[:ids[1] + 1]
    if kind == 'undeleted':
        # the deletion did nothing: a message of the old queue turns up in the new one
        for k, e in enumerate(ev):
            if e['e'] == 'delete':
                new = next((j for j in range(k, len(ev)) if ev[j]['e'] == 'declare' and ev[j]['n'] == e['n']), None)
                old = [x['h'] for x in ev[:k] if x['e'] == 'declare' and x['n'] == e['n']]
                msgs = [x['m'] for x in ev[:k] if x['e'] == 'pub' and x['h'] in old]
                if new is not None and msgs:
                    h = ev[new]['h']
                    return kind, ev[:new + 1] + [dict(e='sub', c=900, h=h, s='zz'), dict(e='take', c=900, m=msgs[-1])]
        return None
    if kind == 'other name':
        decl = [e for e in ev if e['e'] == 'declare']
        for a in decl:
            for b in decl:
                if a['n'] != b['n']:
                    return kind, ev[:-1] + [dict(e='pub', h=a['h'], m=901, ok=True), dict(e='sub', c=900, h=b['h'], s='zz'), dict(e='take', c=900, m=901)]
    if kind == 'phantom':
        return kind, ev[:-1] + [dict(e='take', c=500, m=999)]
    return None


def many(r, n):
    """Many queues by different names at a time, each used through two handles."""
    kind = {x: r.choice(['once', 'bcast']) for x in range(1, n + 1)}
    names = list(kind)
    ops, h, m = [], 0, 0
    use = []
    for x in names:
        h += 1
        ops += [dict(o='declare', h=h, n=x, k=kind[x], x=0), dict(o='sub', c=h, h=h, s='s')]
        use.append((x, h))
    r.shuffle(names)
    gone = set(names[:n // 4])
    ops += [dict(o='delete', n=x, x=0) for x in gone]
    r.shuffle(use)
    for x, c0 in use:
        h, m = h + 1, m + 1
        ops += [dict(o='declare', h=h, n=x, k=kind[x], x=0), dict(o='pub', h=h, m=m)]
        if x in gone:
            ops += [dict(o='sub', c=h, h=h, s='s'), dict(o='poll', c=h)]
    ops += [dict(o='poll', c=c0) for x, c0 in use]
    return ops


def run(c):
    q = c.quick
    ms = [c.model('Registry', dict(Names=['\\a', '\\b'], Kinds=k, MaxQ=2, MaxO=3 if q else 4), inv=['OneQueuePerName'],
                  props=['NoCrossTalk', 'KindIsKept', 'StartsEmpty'], label='contract ' + '/'.join(k), workers=4, timeout=800,
                  extra='CONSTRAINT Few\nSYMMETRY Sym\n') for k in ([['once'], ['bcast']] if q else [['once', 'bcast'], ['ephemeral']])]
    base = dict(MaxM=3, Ways=['release', 'lease', 'used lease'])
    gens = [
        c.gen('GenRegistry', dict(base, Names=[1, 2], Kinds=['once', 'bcast'], Conns=[0], MaxH=2, MaxC=2, MaxCh=0, Emitted=1 if not q else 12, L=6), take=2500 if q else 40000, label='queues'),
        c.gen('GenRegistry', dict(base, Names=[1], Kinds=['once', 'bcast'], Conns=[0], MaxH=2, MaxC=2, MaxCh=2, Emitted=1 if not q else 12, L=5), take=2500 if q else 40000, label='channels'),
        c.gen('GenRegistry', dict(base, Names=[1, 2, 3], Kinds=['once', 'bcast', 'ephemeral'], Conns=[0, 1, 2], MaxH=6, MaxC=8, MaxCh=4, Emitted=1, L=26, MaxM=8), simulate=900 if q else 9000, depth=28, label='long'),
    ]
    scripts = []
    for g in gens:
        for k, ops in enumerate(c.generated(g)):
            scripts.append(dict(cfg=dict(ser='cbor' if k % 2 else 'postcard'), ops=ops))
    for k in range(3 if q else 30):
        scripts.append(dict(cfg=dict(ser='cbor' if k % 2 else 'postcard'), ops=many(c.rng, c.rng.choice([40, 130, 260]))))
    traces = c.harness('registry', scripts)
    consts = dict(Names=[], Kinds=[], MaxQ=99, MaxO=99)
    c.validate('TraceRegistry', traces, consts, corrupt=corrupt, ncorrupt=80, maxcorrupt=200, what='histories')
    traces = c.harness('registry-race', [dict(n=c.rng.randint(2, 8), k=c.rng.choice(['once', 'bcast'])) for _ in range(300 if q else 5000)])
    c.validate('TraceRegistry', traces, consts, what='concurrent declarations')
    c.models(ms)
