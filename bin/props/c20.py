"""C20: directives sharing a runtime."""
import leader
OFF = dict(D=[], J=[])


def corrupt(ev, rng):
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    kinds = ['other job', 'leak', 'early release']
    rng.shuffle(kinds)
    for kind in kinds:
        if kind == 'leak' and at('probe'):
            ev[rng.choice(at('probe'))]['alive'] = True
            return kind, ev
        if kind == 'early release' and at('probe'):
            k = rng.choice(at('probe'))
            d = next(e['d'] for e in ev if e['e'] == 'task' and e['job'] == ev[k]['job'])
            n = next(j for j in at('ret', 'rete', 'outend', 'dropped') if ev[j]['d'] == d)
            return kind, ev[:n] + [ev[k]] + ev[n:]
        if kind == 'other job' and at('task'):
            k = rng.choice(at('task'))
            others = [e for e in ev[:k] if e['e'] == 'task' and e['d'] != ev[k]['d']]
            if others:
                ev[k]['job'] = rng.choice(others)['job']
                return kind, ev
    return None


def run(c):
    q = c.quick
    b = dict(D=[1, 2], Names=[1, 2], N=2 if q else 3, Defect='none')
    inv = ['Own', 'Complete', 'Released', 'Nobody']
    ms = [c.model('Sharing', dict(D=[1, 2], J=[1, 2, 3]), inv=['OnlyOver'], props=['OneOwner'], label='contract'),
          c.model('SharingImpl', b, inv=inv, label='mechanism')]
    if not q:
        ms.append(c.model('SharingImpl', dict(b, D=[1, 2, 3], Names=[1, 2, 3], N=2), inv=inv, label='three directives', timeout=800))
    ms += c.refuted('SharingImpl', b, ['same_names', 'no_release', 'deletes_all'], inv=inv)
    gens = [leader.gen(c, 'Mixed', 1, 6, d=2, extra=['drop'], maxextra=1, take=2500 if q else 30000, label='two, n<=1'),
            leader.gen(c, 'Mixed', 4, 30, d=2, extra=leader.ERRS + ['drop'], maxextra=2, holds=[True, False], simulate=600 if q else 20000, depth=32, take=2500 if q else 40000, label='two, n<=4'),
            leader.gen(c, 'Mixed', 4, 40, d=3, extra=leader.ERRS + ['drop'], maxextra=3, holds=[True, False], simulate=300 if q else 10000, depth=42, take=1500 if q else 20000, label='three, n<=4')]
    traces = leader.run(c, gens, probe=True, ncorrupt=40)
    c.validate('TraceSharing', traces, OFF, corrupt=corrupt, ncorrupt=60, maxcorrupt=300, what='result channels')
    leader.real(c, leader.CHAINS + [leader.FOLD, leader.MAP, dict(s=1, end='literal')], 80 if q else 1500, [0, 1, 2, 3, 5, 8, 13, 30], dirs=(2, 3, 4, 6))
    c.models(ms)
