"""C18: retries."""


def corrupt(ev, rng):
    kinds = ['once more', 'once less', 'after success', 'too soon', 'other error', 'other strategy', 'transient', 'unreported', 'fatal retried', 'swallowed']
    rng.shuffle(kinds)
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    for kind in kinds:
        if kind == 'once less' and len(at('fail')) > 2 and at('rete') and ev[at('fail')[-1]]['f']['k'] == 't' and len({e['f']['k'] for e in ev if e['e'] == 'fail'}) == 1:
            # the run ends one failure early (a longer backoff may be legal, so only counted policies)
            if any(e['e'] == 'fail' and e['f']['pol']['k'] == 'exp' for e in ev) or 'x' in str(ev[0].get('f', '')):
                continue
            a = at('attempt')[-1]
            last = ev[[k for k in at('fail') if k < a][-1]]['f']['x']
            return kind, [e for e in ev[:a] if not (e['e'] == 'trace' and e['x'] == last)] + [dict(ev[-1], x=last)]
        if kind == 'after success' and at('ret'):
            return kind, ev[:-1] + [dict(e='attempt', t=ev[-1].get('t', 10 ** 9))]
        if kind == 'other error' and at('rete'):
            return kind, ev[:-1] + [dict(ev[-1], x='x77')]
        if kind == 'transient' and at('rete') and ev[-1]['fs'] != 'none':
            return kind, ev[:-1] + [dict(ev[-1], k='t')]
        if kind == 'other strategy' and at('rete') and ev[-1]['fs'] != 'none':
            return kind, ev[:-1] + [dict(ev[-1], fs='ignore' if ev[-1]['fs'] == 'terminate' else 'terminate')]
        if kind == 'unreported' and at('trace'):
            k = rng.choice(at('trace'))
            return kind, ev[:k] + ev[k + 1:]
        if kind == 'fatal retried' and at('rete') and at('fail') and ev[at('fail')[-1]]['f']['k'] == 'f' and ev[-1]['fs'] != 'none':
            return kind, ev[:-1] + [dict(e='attempt', t=10 ** 9)]
        if kind == 'swallowed' and at('rete'):
            return kind, ev[:-1] + [dict(e='ret')]
    return None


def run(c):
    q = c.quick
    base = dict(Slack=0, Policies=('raw', '<- ATiny' if q else '<- ASmall'), Horizon=6 if q else 9)
    ms = [c.model('Retry', base, inv=['Bounded', 'Ends'], props=['NeverAgain', 'FatalEnds'], label='contract'),
          c.model('RetryImpl', dict(base, Defect='none'), props=['Contract'], label='mechanism', timeout=800)]
    ms += c.refuted('RetryImpl', base, ['fatal_retried', 'no_initial_delay', 'off_by_one', 'first_error', 'last_strategy'], props=['Contract'])
    ok, t, f = (dict(k=k, pol=dict(k='none', n=0, d=0, max=0), fs='terminate') for k in ('ok', 't', 'f'))
    V, M, R = (('raw', '<- ' + x) for x in ('AVirtual', 'AMore', 'AReal'))
    modes = ['strategy', 'error', 'op']
    gens = [c.gen('GenRetry', dict(Modes=modes, Pols=V, L=2, Rest=['again', 'ok', 'fatal'], Payloads=['good']), take=4000 if q else 40000, label='short'),
            c.gen('GenRetry', dict(Modes=modes, Pols=M, L=9, Rest=['again', 'ok', 'fatal'], Payloads=['good']), simulate=300 if q else 9000, depth=11, take=4000 if q else 40000, label='long'),
            c.gen('GenRetry', dict(Modes=modes, Pols=R, L=2, Rest=['again', 'ok', 'fatal'], Payloads=['good']), take=500 if q else 4000, label='exponential'),
            c.gen('GenRetry', dict(Modes=['op'], Pols=V, L=1, Rest=['ok'], Payloads=['badop', 'badinput', 'badid']), label='undecodable')]
    scripts = []
    for g in gens:
        for x in c.generated(g):
            fallback = next((o for o in reversed([x['start']] + x['outs']) if o['k'] == 't'), None)
            x['rest'] = dict(again=fallback or f, ok=ok, fatal=f)[x['rest']]
            cfg = dict(mode=x['mode'], payload=x['payload'], traced=x['mode'] != 'op' and c.rng.random() < .5,
                       pol=x['start']['pol'], err=dict(x['start'], x='xs'))
            scripts.append(dict(x, cfg=cfg, seed=c.rng.randrange(1 << 30)))
    # many attempts
    for k in range(12 if q else 100):
        n = c.rng.choice([100, 255, 256, 257, 300])
        pol = c.rng.choice([dict(k='immediate', n=n, d=0, max=0), dict(k='after', n=n, d=c.rng.choice([1000, 3600000]), max=0)])
        e = dict(k='t', pol=pol, fs=c.rng.choice(['terminate', 'ignore']))
        mode = modes[k % 3]
        outs = [e] * c.rng.choice([0, n - 1, n, n + 3]) if mode == 'op' else [dict(e, pol=dict(k='immediate', n=1, d=0, max=0))] * c.rng.choice([0, n - 1, n])
        scripts.append(dict(mode=mode, start=dict(ok, k='none', fs='none') if mode == 'op' else e, outs=outs, rest=c.rng.choice([e, ok, f]), payload='good', seed=c.rng.randrange(1 << 30),
                            cfg=dict(mode=mode, payload='good', traced=mode != 'op' and k % 2 == 0, pol=e['pol'] if mode != 'op' else ok['pol'], err=dict(e if mode != 'op' else dict(ok, k='none', fs='none'), x='xs'))))
    traces = c.harness('retry', scripts)
    c.validate('TraceRetry', traces, dict(Slack=10, Policies=[], Horizon=0), corrupt=corrupt, ncorrupt=80, maxcorrupt=200, what='attempts')
    c.models(ms)
