"""C23: publishing a stream."""


def corrupt(ev, rng):
    kinds = ['twice', 'never', 'too many', 'returned early', 'read after failure', 'error lost', 'stuck']
    rng.shuffle(kinds)
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    for kind in kinds:
        if kind == 'twice' and at('done'):
            k = rng.choice(at('done'))
            return kind, ev[:k + 1] + [dict(e='pub', k=ev[k]['k'])]
        if kind == 'never' and at('ret') and at('pub'):
            k = ev[rng.choice(at('pub'))]['k']
            return kind, [e for e in ev if not (e['e'] in ('pub', 'done') and e['k'] == k)]
        if kind == 'returned early' and at('ret') and at('done'):
            k = at('done')[-1]
            return kind, ev[:k] + [dict(e='ret')]
        if kind == 'read after failure' and at('fail', 'inerr'):
            k = at('fail', 'inerr')[0]
            return kind, ev[:k] + [dict(e='offer', k=77)] + ev[k:k + 1] + [dict(e='in', k=77)]
        if kind == 'error lost' and at('rete'):
            return kind, ev[:at('rete')[0]] + [rng.choice([dict(e='ret'), dict(e='quiet')])]
        if kind == 'stuck' and at('ret'):
            return kind, ev[:at('ret')[0]] + [dict(e='quiet')]
    return None


def run(c):
    q = c.quick
    items = ['\\a', '\\b', '\\c'] + ([] if q else ['\\d'])
    base = dict(Items=items, Limit=2, Defect='none')
    ms = [c.model('PublishAllImpl', base, inv=['Bounded', 'Prompt'], props=['Contract'], label='mechanism'),
          c.model('PublishAllImpl', base, spec='Fair', props=['Completes'], label='completes'),
          c.model('PublishAll', dict(Items=items, Limit0=2), inv=['Bounded', 'AllOrError'], label='contract')]
    ms += c.refuted('PublishAllImpl', base, ['off_by_one', 'reads_on', 'error_lost', 'end_at_end'], inv=['Bounded', 'Prompt'], props=['Contract'])
    gens = [c.gen('GenPublishAll', dict(N=3, Limits=[0, 1, 2, 3], Errors=1, Holds=[False], L=7), take=4000 if q else 40000, label='n<=3'),
            c.gen('GenPublishAll', dict(N=3, Limits=[1, 2], Errors=2, Holds=[True, False], L=7), take=4000 if q else 40000, label='n<=3, several at once'),
            c.gen('GenPublishAll', dict(N=12, Limits=[0, 1, 2, 3, 5], Errors=1, Holds=[True, False], L=26), simulate=2000 if q else 40000, depth=28, label='n<=12'),
            c.gen('GenPublishAll', dict(N=40, Limits=[0, 1, 4, 10], Errors=0, Holds=[True, False], L=82), simulate=300 if q else 5000, depth=84, label='n<=40')]
    scripts = [dict(x, cfg=dict(limit=x['limit']), kind=c.rng.randrange(3), seed=c.rng.randrange(1 << 30)) for g in gens for x in c.generated(g)]
    for _ in range(6 if q else 60):
        n, limit = c.rng.choice([150, 300, 600]), c.rng.choice([1, 40, 255, 256, 257, 300])
        ops, busy, nxt = [dict(o='offer', k=k + 1, hold=c.rng.random() < .9) for k in range(n)] + [dict(o='offerend', hold=False)], [], 1
        while nxt <= n or busy:
            while nxt <= n and len(busy) < limit:
                busy.append(nxt)
                nxt += 1
            ops.append(dict(o='done', k=busy.pop(c.rng.randrange(len(busy))), hold=False))
        scripts.append(dict(ops=ops, limit=limit, cfg=dict(limit=limit), kind=c.rng.randrange(3), seed=c.rng.randrange(1 << 30)))
    traces = c.harness('publish-all', scripts)
    c.validate('TracePublishAll', traces, dict(Items=[], Limit0=0), corrupt=corrupt, ncorrupt=60, maxcorrupt=120, what='schedules')
    c.models(ms)
