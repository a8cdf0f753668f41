"""C08: the contiguous assembler."""
import copy

STOPS = ['contig.found.rhs', 'contig.found.lhs', 'contig.none']


def corrupt(ev, rng):
    kind = rng.choice(['swapped', 'lost', 'twice', 'altered', 'unpaired'])
    rets = [k for k, e in enumerate(ev) if e['e'] == 'return' and e['r'][0]]
    call = {e['k']: e for e in ev if e['e'] == 'call'}
    offers = [k for k in rets if call[ev[k]['k']]['kind'] == 'offer']
    if kind == 'swapped' and offers:
        ev[rng.choice(offers)]['lower'] ^= True
        return kind, ev
    if kind == 'altered' and rets:
        ev[rng.choice(rets)]['r'][2] = 0
        return kind, ev
    if kind == 'lost' and rets:
        # the last thing taken out by the final removals is not there
        if ev[-1]['e'] == 'over':
            ev[rets[-1]]['r'] = [0, 0, 0]
            return kind, ev
    if kind == 'twice' and rets:
        k = rets[-1]
        r = copy.deepcopy(ev[k]['r'])
        return kind, ev[:k + 1] + [dict(e='call', k=900, kind='dequeue', v=[0, 0, 0], key=r[0]), dict(e='return', k=900, r=r, lower=False)]
    if kind == 'unpaired' and offers:
        k = rng.choice(offers)
        # alone
        if ev[k - 1]['e'] == 'call' and sum(e['e'] == 'call' for e in ev[:k]) == sum(e['e'] == 'return' for e in ev[:k]) + 1:
            ev[k]['r'] = [0, 0, 0]
            return kind, ev[:k + 1]
    return None


def run(c):
    q = c.quick
    ms = [c.model('ContigImpl', dict(N=4 if q else 5, OpIds=['\\a', '\\b'] if q else ['\\a', '\\b', '\\c'], Defect='none'), inv=['Conserved', 'Reachable', 'NothingMissed'],
                  label='mechanism', timeout=800, workers=3)]
    ms += c.refuted('ContigImpl', dict(N=3, OpIds=['\\a', '\\b']), ['read_not_taken', 'store_first'], inv=['Conserved', 'Reachable', 'NothingMissed'])
    ms.append(c.model('Contig', dict(OpIds=['\\a', '\\b'], Values=('raw', '<- SmallValues')), inv=['NoDuplicates', 'HandedOutOnce'], props=['NothingLost', 'PairsWhenPossible'], label='contract'))
    base = dict(Kinds=['offer'], Runs=[0])
    gens = [c.gen('GenContig', dict(base, N=4, Stops=[], MaxPaused=0, Kinds=['offer', 'queue'], L=5 if q else 6), take=4000 if q else 60000, label='atomic'),
            c.gen('GenContig', dict(base, N=3, Stops=STOPS, MaxPaused=2, L=4 if q else 5), take=4000 if q else 60000, label='stepped'),
            c.gen('GenContig', dict(base, N=5, Stops=STOPS, MaxPaused=3, L=9), simulate=1500 if q else 30000, depth=11, label='stepped, longer'),
            c.gen('GenContig', dict(N=12, Stops=STOPS, MaxPaused=3, Kinds=['offer', 'queue'], Runs=[0, 1, 2], L=40), simulate=500 if q else 10000, depth=42, label='long')]
    scripts = []
    for g, n in zip(gens, (4, 3, 5, 12)):
        for x in c.generated(g):
            scripts.append(dict(x, n=n, cfg=dict(init=[[a, a, 500 + a] for a in x['init']])))
    traces = c.harness('contig', scripts)
    consts = dict(Values=[], OpIds=[])
    c.validate('TraceContig', traces, consts, corrupt=corrupt, ncorrupt=80, maxcorrupt=200, inv=['NoDuplicates'], what='schedules')
    many = []
    for _ in range(4 if q else 60):
        n, ops = c.rng.choice([60, 120, 250]), []
        xs = list(range(1, n + 1))
        c.rng.shuffle(xs)
        back = c.rng.choice([0, .3, .9])
        for x in xs:
            ops.append(dict(o='offer', lo=x, hi=x))
            while c.rng.random() < back:
                ops.append(c.rng.choice([dict(o='offer', lo=0, hi=0), dict(o='offer', lo=0, hi=0), dict(o='dequeue', key=c.rng.choice(xs))]))
        ops += [dict(o='offer', lo=0, hi=0)] * n
        many.append(dict(init=[], n=n, cfg=dict(init=[]), ops=[dict(o, stop=[], t=900 + k) for k, o in enumerate(ops)]))
    c.validate('TraceContig', c.harness('contig', many), consts, inv=['NoDuplicates'], what='many values')
    stress = []
    for _ in range(400 if q else 10000):
        w, n = c.rng.randint(2, 3), c.rng.randint(6, 14)
        xs = list(range(1, n + 1))
        init = sorted(c.rng.sample(xs, c.rng.choice([0, 0, 2])))
        xs = [x for x in xs if x not in init]
        if c.rng.random() < .7:
            c.rng.shuffle(xs)
        stress.append(dict(cfg=dict(init=[[a, a, 500 + a] for a in init]), init=init, n=n, threads=w, seed=c.rng.randrange(1 << 30), parts=[xs[k::w] for k in range(w)]))
    traces = c.harness('contig-stress', stress)
    c.validate('TraceContig', traces, consts, inv=['NoDuplicates'], what='multi-threaded')
    c.models(ms)
