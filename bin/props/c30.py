"""C30: the configuration decides the runtime that is built."""


def corrupt(ev, rng):
    kinds = ['value', 'refused', 'failed', 'running', 'at', 'format', 'bus', 'unanswered', 'panic', 'short']
    rng.shuffle(kinds)
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    other = lambda v, vs: rng.choice([x for x in vs if x != v])
    for kind in kinds:
        if kind == 'value' and at('parsed'):
            x, vs = rng.choice([('s', ['postcard', 'cbor']), ('r', ['amqp', 'in-memory']), ('n', ['', '1', '2', '5', '33']), ('u', ['', 'A', 'B']), ('b', ['', 'bus', 'Bus'])])
            return kind, [dict(ev[0], **{x: other(ev[0][x], vs)})]
        if kind == 'refused' and at('parsed') and not (ev[0]['r'] == 'amqp' and ev[0]['u'] == ''):
            return kind, [dict(e='refused')]
        if kind == 'failed' and at('build'):
            k = rng.choice(at('build'))
            return kind, ev[:k] + [dict(ev[k], r=other(ev[k]['r'], ['built', 'failed']))]
        if kind == 'panic' and at('build'):
            k = rng.choice(at('build'))
            return kind, ev[:k] + [dict(ev[k], r='panic')]
        if kind == 'running' and at('running'):
            k = at('running')[0]
            return kind, ev[:k] + [dict(ev[k], n=other(ev[k]['n'], range(40)))]
        if kind == 'at' and at('task'):
            k = at('task')[0]
            return kind, ev[:k] + [dict(ev[k], at=other(ev[k]['at'], 'AB'))]
        if kind == 'format' and at('task', 'parts'):
            k = rng.choice(at('task', 'parts'))
            return kind, ev[:k] + [dict(ev[k], f=other(ev[k]['f'], ['postcard', 'cbor']))]
        if kind == 'bus' and at('task'):
            k = at('task')[0]
            return kind, ev[:k] + [dict(ev[k], q=ev[k]['q'] + '2')]
        if kind == 'unanswered' and at('answered'):
            k = at('answered')[0]
            return kind, ev[:k] + [dict(e='answered', ok=False)]
        if kind == 'short' and at('over') and len(ev) > 3:
            k = rng.choice(at('task', 'answered', 'running', 'parts'))
            return kind, ev[:k] + ev[k + 1:]
    return None


def run(c):
    q = c.quick
    inv = dict(inv=['Observed'], props=['Honest'])
    vals = ('raw', '<- Some')
    ms = [c.model('ConfigImpl', dict(Values=vals, Defect='none'), label='resolution', timeout=800, **inv)]
    ms += c.refuted('ConfigImpl', dict(Values=vals), ['env wins', 'lenient', 'other default', 'no uri', "worker's own bus", 'one worker'], **inv)
    both = ['amqp', 'in-memory']
    gens = [(None, c.gen('GenConfig', dict(MaxGiven=2, MaxWrong=1, Rs=both), label='one or two given')),
            (300 if q else 4000, c.gen('GenConfig', dict(MaxGiven=6, MaxWrong=0, Rs=both), simulate=400 if q else 6000, depth=7, label='many given')),
            (150 if q else 2000, c.gen('GenConfig', dict(MaxGiven=9, MaxWrong=2, Rs=both), simulate=200 if q else 3000, depth=10, label='nearly all given'))]
    scripts = []
    for most, g in gens:
        xs = c.generated(g)
        c.rng.shuffle(xs)
        for x in xs[:most]:
            order = list(range(5))
            c.rng.shuffle(order)
            scripts.append(dict(cfg=dict(x, short=''), order=order, form=[c.rng.randrange(4) for _ in range(5)]))
    none = {k: '' for k in 'srnub'}
    scripts.append(dict(cfg=dict(cli=dict(none, r='in-memory'), env=none, short='in memory'), order=[], form=[]))
    traces = c.harness('config', scripts)
    c.validate('TraceConfig', traces, dict(), corrupt=corrupt, ncorrupt=100, maxcorrupt=200, what='configurations')
    c.models(ms)
