"""C29: values arrive as what they were."""

LONG = [('deep', 120), ('deep', 200)]


def corrupt(ev, rng):
    kinds = ['altered', 'refused', 'swapped', 'lost', 'byte', 'late refusal', 'twice', 'short']
    rng.shuffle(kinds)
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    harmed = at('cut', 'changed')
    for kind in kinds:
        g = at('got')
        if kind == 'altered' and g and not at('changed'):
            k = rng.choice(g)
            v = ev[k]['v']
            w = ['pair', v, v] if rng.random() < .5 or v[0] != 'list' or not v[1] else ['list', v[1][:-1]]
            return kind, ev[:k] + [dict(ev[k], v=w)] + ev[k + 1:]
        if kind == 'refused' and g and not harmed and not any(deep(e.get('v')) for e in ev):
            k = rng.choice(g)
            return kind, ev[:k] + [dict(e='refused')] + ev[k + 1:]
        if kind == 'swapped' and len(g) > 1 and not harmed and ev[g[0]]['v'] != ev[g[1]]['v']:
            a, b = g[0], g[1]
            out = list(ev)
            out[a], out[b] = ev[b], ev[a]
            return kind, out
        if kind == 'lost' and g:
            k = rng.choice(g)
            return kind, ev[:k] + ev[k + 1:]
        if kind == 'byte' and at('bytes'):
            k = rng.choice(at('bytes'))
            b = list(ev[k]['b'])
            if rng.random() < .5:
                b.append(0)
            else:
                b.pop()
            return kind, ev[:k] + [dict(ev[k], b=b)] + ev[k + 1:]
        if kind == 'late refusal' and at('cut') and at('refused'):
            k = at('refused')[-1]
            return kind, ev[:k] + [dict(e='got', v=ev[at('send')[0]]['v'])] + ev[k + 1:]
        if kind == 'twice' and g:
            k = rng.choice(g)
            return kind, ev[:k] + [ev[k]] + ev[k:]
    return None


def deep(v):
    return isinstance(v, list) and (v[:1] == ['deep'] or any(deep(x) for x in v))


def run(c):
    q = c.quick
    base = dict(Deep=50, Formats=['postcard', 'cbor'])
    V = lambda n: ('raw', '<- ' + n)
    ms = [c.model('CodecImpl', dict(base, Defect='none', Values=V('One')), inv=['Whole'], props=['Contract', 'Faithful', 'Settled'], label='values', timeout=800)]
    if not q:
        ms.append(c.model('CodecImpl', dict(base, Defect='none', Values=V('Two')), inv=['Whole'], props=['Contract', 'Faithful'], label='nested values', timeout=2400, workers=4))
    ms += c.refuted('CodecImpl', dict(base, Values=V('One')), ['varint_short', 'sign_lost', 'swapped', "reader's format", 'filled up'], props=['Contract'])
    places = ['serializer', 'task', 'runtime', 'once', 'broadcast', 'amqp', 'amqp broadcast']
    none = dict(base, Defect='none', Values=[])
    gen = dict(Formats=base['Formats'], Defect='none')
    n = 1 if q else 8
    gens = [c.gen('GenCodec', dict(gen, Size=1, Start='long', Places=['serializer']), label='each alone'),
            c.gen('GenCodec', dict(gen, Size=7, Start='leaves', Places=places[:5]), simulate=900 * n, depth=20, label='nested'),
            c.gen('GenCodec', dict(gen, Size=12, Start='nullable', Places=places[:5]), simulate=250 * n, depth=30, label='nested deeper'),
            c.gen('GenCodec', dict(gen, Size=6, Start='long', Places=places), simulate=500 * n, depth=20, label='long'),
            c.gen('GenCodec', dict(gen, Size=6, Start='leaves', Places=places[5:]), simulate=120 * n, depth=20, label='over a broker')]
    scripts = []
    for g in gens:
        for x in c.generated(g):
            harm = None
            if x['place'] in ('serializer', 'task') and c.rng.random() < .5:
                at = 'wire' if x['place'] == 'serializer' else c.rng.choice(['wire', 'op', 'input', 'output', 'metadata', 'result'])
                harm = dict(at=at, how=c.rng.choice(['cut', 'cut', 'changed']), n=c.rng.randrange(1 << 16), bit=c.rng.randrange(8))
                if x['place'] == 'serializer':
                    x['vs'] = x['vs'][-1:]
            scripts.append(dict(x, cfg=dict(f=x['f'], garbage=False), harm=harm, seed=c.rng.randrange(1 << 30)))
    # error texts; values nested deeper than a reader need follow
    texts = [['text', []], ['text', [120]], ['text', list('ünïcode “quoted”\n\x00'.encode())], ['textrun', 97, 70000], ['text', list(b'boom: x' * 9)]]
    for f in [[a, b] for a in base['Formats'] for b in base['Formats']]:
        scripts.append(dict(cfg=dict(f=f, garbage=False), place='error', vs=texts, harm=None, seed=0))
        for k in range(6 if q else 40):
            scripts.append(dict(cfg=dict(f=f, garbage=False), place='error', vs=[c.rng.choice(texts)], harm=dict(at='wire', how=c.rng.choice(['cut', 'changed']), n=c.rng.randrange(1 << 16), bit=c.rng.randrange(8)), seed=0))
        for k, d in LONG:
            scripts.append(dict(cfg=dict(f=f, garbage=False), place='serializer', vs=[[k, d, ['leaf']]], harm=None, seed=0))
    traces = c.harness('codec', scripts)
    c.validate('TraceCodec', traces, none, corrupt=corrupt, ncorrupt=100, maxcorrupt=200, what='values on their way')
    # bytes from anywhere
    seen = [(x['cfg']['f'][1], e['b']) for x in traces for e in x['ev'] if e['e'] == 'bytes']
    scripts = []
    for k in range(3000 if q else 40000):
        f, b = c.rng.choice(seen)
        b = list(b)
        how = c.rng.randrange(5)
        if how == 0:
            b = [c.rng.randrange(256) for _ in range(c.rng.randrange(40))]
        elif how == 1:
            b = b[:c.rng.randrange(len(b) + 1)] + [c.rng.choice([255, 128, 0, 91, 155, 159, 191])] * c.rng.randrange(1, 12) + b[c.rng.randrange(len(b) + 1):]
        elif how == 2:
            f = c.rng.choice(base['Formats'])
        else:
            for _ in range(c.rng.randrange(1, 4)):
                b[c.rng.randrange(len(b))] = c.rng.choice([c.rng.randrange(256), 255, 0])
        scripts.append(dict(cfg=dict(f=[f, f], garbage=True), b=b))
    c.validate('TraceCodec', c.harness('garbage', scripts), none, what='bytes from anywhere')
    c.models(ms)
