"""The AMQP transport, on a broker of our own (C24-C26, C28)."""
import json
OFF = dict(M=[], C=[], K=[], Modes=['one', 'all'], Qos=[])


def gen(c, modes, extra, l, conns=2, consumers=2, messages=3, maxextra=1, **kw):
    return c.gen('GenAmqpQueue', dict(Modes=modes, Conns=conns, Consumers=consumers, Messages=messages, L=l, Extra=list(extra), MaxExtra=maxextra), **kw)


def script(c, x, fast, ends):
    qos = c.rng.choice([1, 1, 2, 3])
    return dict(x, cfg=dict(mode=x['mode'], qos=qos, ends=ends), qos=qos, cbor=c.rng.random() < .5, seed=c.rng.randrange(1 << 30), fast=c.rng.random() < fast)


def corrupt(ev, rng, ends=True):
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    kinds = ['lost', 'twice', 'altered', 'stalled', 'never ends', 'settled by nobody', 'too many']
    rng.shuffle(kinds)
    for kind in kinds:
        ks = at('taken')
        if kind == 'lost' and ks:
            k = rng.choice(ks)
            c, v = ev[k]['c'], ev[k]['v']
            if any(e['e'] in ('cut', 'drop', 'delete') for e in ev) or any(e['e'] in ('ack', 'nack') and e['c'] == c and e['v'] == v for e in ev):
                continue
            ev[-1]['held'] -= 1
            return kind, ev[:k] + [e for e in ev[k + 1:] if not (e['e'] == 'taken' and e['c'] == c)]
        if kind == 'twice' and ks:
            k = rng.choice(ks)
            return kind, ev[:k + 1] + [dict(ev[k])] + ev[k + 1:]
        if kind == 'altered' and ks:
            ev[rng.choice(ks)]['intact'] = False
            return kind, ev
        if kind == 'stalled' and at('ack', 'nack') and not at('cut', 'drop', 'delete'):
            k = ks and ks[-1]
            if k and not any(e['e'] in ('ack', 'nack') and e['v'] == ev[k]['v'] and e['c'] == ev[k]['c'] for e in ev):
                ev[-1]['held'] -= 1
                return kind, ev[:k] + ev[k + 1:]
        if kind == 'never ends' and at('ended') and ends:
            k = rng.choice(at('ended'))
            return kind, ev[:k] + ev[k + 1:]
        if kind == 'settled by nobody' and at('ack', 'nack'):
            k = rng.choice(at('ack', 'nack'))
            return kind, ev[:k] + [ev[k]] + ev[k:]
        if kind == 'too many':
            ev[-1]['held'] += 1
            return kind, ev
    return None


def run(c, gens, what, fast=.3, ends=False, ncorrupt=60):
    scripts = [script(c, x, fast, ends) for g in gens for x in c.generated(g)]
    traces = c.harness('amqp-queue', scripts)
    c.validate('TraceAmqpQueue', traces, OFF, corrupt=lambda ev, rng: corrupt(ev, rng, ends), ncorrupt=ncorrupt, maxcorrupt=100, inv=['OneHolder', 'NotBoth', 'Prefetch'], what=what)
    return traces


def models(c, modes):
    b = dict(M=[1, 2, 3] if c.quick else [1, 2, 3, 4], C=['\\a', '\\b'], K=['\\k', '\\l'], Modes=modes, Qos=[1, 2])
    return [c.model('AmqpQueue', b, inv=['OneHolder', 'NotBoth', 'Prefetch'], props=['Rests'], label='contract', timeout=800)]


# ---- leaders and workers on a broker ------------------------------------------
NAMES = {None: 'task-ipc-routing-key'}


def systems(c, count, sizes=(0, 1, 2, 3, 5, 8), fails=0.0, cuts=0.0, aborts=0.0, limit=None, shapes=None):
    """Leaders and workers, each with a runtime of its own, on one or two task buses."""
    import leader
    shapes = shapes or leader.CHAINS + [leader.FOLD, leader.MAP, dict(s=1, end='literal')]
    r, out = c.rng, []
    for k in range(count):
        buses = r.choice([[None], ['one'], [None, 'other'], ['one', 'two'], [None, 'one', 'one']])
        at = [r.randrange(len(buses)) for _ in range(r.choice([0, 1, 2]))]
        at += [b for b in range(len(buses)) if b not in at]    # a worker for everyone
        r.shuffle(at)
        failing = r.random() < fails
        dirs = []
        for d in range(1 if failing else r.choice([1, 1, 2, 3])):
            sh = r.choice([x for x in shapes if not failing or x['end'] in ('fold', 'sorted')])
            n = 1 if sh['end'] == 'literal' else r.choice([x for x in sizes if x > 1] if failing else sizes)
            order = list(range(n))
            r.shuffle(order)
            dirs.append(dict(leader.cfg(c, sh, tag='b%d%s:' % (k, 'abc'[d])), order=order, leader=r.randrange(len(buses)),
                             fails=[r.randrange(n)] if failing else []))
        cut, abort = [], []
        if r.random() < aborts:
            abort = [[r.randrange(len(dirs)), r.randrange(9000)]]
        if r.random() < cuts:
            cut = [[w, r.choice([r.randrange(30000), r.randrange(8000)])] for w in r.sample(range(len(at)), r.randint(1, min(2, len(at))))]
        out.append(dict(cfg=dict(), dirs=dirs, buses=buses, at=at, cuts=cut, aborts=abort, faults=bool(cut or abort) or failing, seed=r.randrange(1 << 30), cbor=r.random() < .5,
                        slow=r.choice([1, 1, 3]), **(dict(limit=limit) if (cut or abort) and limit else {})))
    return out


def name(s, k):
    return s['buses'][k] or NAMES[None]


def wire(x):
    """What passed through the broker, as events of TraceBroker."""
    s, ev, byk, byjob, is_, out, dead = x['script'], [e for e in x['ev'] if e.get('d') == 'wire'], {}, {}, {}, [], set()
    for e in ev:
        if e['e'] == 'pub' and e['what'] == 'task':
            for m in e['ms']:
                byk.setdefault(e['key'], []).append(m['m'])
                byjob.setdefault(e['job'], []).append(m['m'])
    for e in ev:
        k = e['e']
        if k == 'pub' and e['what'] in ('task', 'result'):
            for m in e['ms']:
                is_[m['m']] = m['q'] if e['what'] == 'task' else 'result'
                out.append(dict(e='pub', m=m['m'], k=is_[m['m']]))
        elif k in ('deliver', 'ack', 'nack', 'requeue', 'back') and e['m'] in is_:
            out.append(dict(e=k, m=e['m'], c='c%d' % e['c']))
        elif k in ('start', 'finish'):
            out.append(dict(dict(e=k, ms=byk.get(e['key'], [])), **(dict(ok=e['ok']) if k == 'finish' else {})))
        elif k == 'deleted' and any(m in is_ for m in e['ms']):
            out.append(dict(e='deleted', ms=[m for m in e['ms'] if m in is_]))
        elif k == 'abort':
            out.append(dict(e='abort', ms=byjob[e['job']]))
        elif k == 'refused':
            out.append(dict(e='refused', how=e['how']))
        elif k == 'gone' and e['by'].startswith('w'):
            dead.add(int(e['by'][1:]))
        elif k == 'rest':
            n = {q: 0 for q in set(is_.values()) if q != 'result'}
            for w, b in enumerate(s['at']):
                if w not in dead:
                    n[name(s, b)] = n.get(name(s, b), 0) + 1
            out.append(dict(e='rest', n=n))
    return dict(x, ev=out, cfg={})


def corrupt_wire(ev, rng):
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    tasks = {e['m'] for e in ev if e['e'] == 'pub' and e['k'] != 'result'}
    kinds = ['early ack', 'acked twice', 'not settled', 'failed acked', 'two holders', 'runs for nobody', 'left over']
    rng.shuffle(kinds)
    calm = not at('back') and all(ev[k]['ok'] for k in at('finish'))
    for kind in kinds:
        ks = [k for k in at('ack') if ev[k]['m'] in tasks]
        if kind == 'early ack' and ks and not at('back'):
            k = rng.choice(ks)
            s = next((j for j in at('finish') if ev[k]['m'] in ev[j]['ms']), None)
            if s is not None:
                return kind, ev[:s] + [ev[k]] + ev[s:k] + ev[k + 1:]
        if kind == 'acked twice' and at('ack'):
            k = rng.choice(at('ack'))
            return kind, ev[:k + 1] + [ev[k]] + ev[k + 1:]
        if kind == 'not settled' and at('ack') and calm and at('rest'):
            k = rng.choice(at('ack'))
            return kind, ev[:k] + ev[k + 1:]
        if kind == 'failed acked':
            ks = [k for k in at('nack') if any(ev[k]['m'] in ev[j]['ms'] and not ev[j]['ok'] for j in at('finish'))]
            if ks:
                ev[rng.choice(ks)]['e'] = 'ack'
                return kind, ev
        if kind == 'two holders' and at('deliver'):
            k = rng.choice(at('deliver'))
            return kind, ev[:k + 1] + [dict(ev[k], c='c999')] + ev[k + 1:]
        if kind == 'runs for nobody' and at('start'):
            k = rng.choice(at('start'))
            return kind, ev[:k + 1] + [ev[k]] + ev[k + 1:]
        if kind == 'left over' and calm and at('rest') and ev[-1]['n'] and all(v > 0 for v in ev[-1]['n'].values()):
            return kind, ev[:-1] + [dict(e='pub', m=99999, k=next(iter(ev[-1]['n']))), ev[-1]]
    return None


def on_wire(c, traces, what, inv=True):
    c.validate('TraceBroker', [wire(x) for x in traces], corrupt=corrupt_wire, ncorrupt=60, maxcorrupt=400, what=what,
               inv=['AckedRan', 'FailedRejected', 'SettledOnce', 'OneHolder'] if inv else [])


def broker_models(c):
    b = dict(N=2, W=2, Cuts=1, Fails=True, Defect='none')
    big = dict(b, N=3) if c.quick else dict(b, N=3, W=3, Cuts=2)
    return [c.model('BrokerImpl', big, inv=['Inv'], props=['Contract'], label='workers on a broker', timeout=800),
            c.model('BrokerImpl', dict(b, N=3), spec='Fair', props=['AllDone'], label='tasks get done', timeout=800)] + \
        c.refuted('BrokerImpl', b, ['ack_early', 'ack_twice', 'failed_unsettled', 'failed_acked', 'failed_requeued', 'skip_unsettled'], inv=['Inv'], props=['Contract'])


BUS = dict(P=[], B=[], Q=[], J=[], MM=[])


def bus_wire(x):
    """Who published what where, and who took it, as events of TraceTaskBus."""
    s, out, task, res = x['script'], [], {}, set()
    bus = {'l%d' % k: name(s, k) for k in range(len(s['buses']))}
    bus.update({'w%d' % k: name(s, b) for k, b in enumerate(s['at'])})
    for e in x['ev']:
        if e.get('d') != 'wire':
            continue
        if e['e'] == 'pub' and e['what'] == 'task':
            for m in e['ms'] or [dict(m=0, q=e['q'])]:
                task[m['m']] = e['job']
                out.append(dict(e='task', m=m['m'], by=e['by'], q=m['q'], j=e['job']))
        elif e['e'] == 'pub' and e['what'] == 'result':
            for m in e['ms']:
                res.add(m['m'])
                out.append(dict(e='result', m=m['m'], j=m['q']))
        elif e['e'] == 'deliver' and e['m'] in task:
            out.append(dict(e='taketask', m=e['m'], by=e['by'], j=task[e['m']]))
        elif e['e'] == 'deliver' and e['m'] in res:
            out.append(dict(e='takeresult', m=e['m'], by=e['by']))
    return dict(x, ev=out, cfg=dict(bus=bus))


def corrupt_bus(ev, rng):
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    kinds = ['other bus', 'other leader', 'twice', 'nobody']
    rng.shuffle(kinds)
    for kind in kinds:
        if kind == 'other bus' and at('task'):
            k = rng.choice(at('task'))
            ev[k]['q'] += 'x'
            return kind, ev
        if kind == 'other leader' and at('takeresult'):
            k = rng.choice(at('takeresult'))
            others = [e['by'] for e in ev if e['e'] == 'task' and e['by'] != ev[k]['by']]
            if others:
                ev[k]['by'] = rng.choice(others)
                return kind, ev
        if kind == 'twice' and at('result') and not at('back'):
            k = at('result')[-1]
            n = sum(e['e'] == 'taketask' and e['j'] == ev[k]['j'] for e in ev[:k])
            made = sum(e['e'] == 'result' and e['j'] == ev[k]['j'] for e in ev[:k + 1])
            if made == n:
                return kind, ev[:k + 1] + [dict(ev[k], m=77777)] + ev[k + 1:]
        if kind == 'nobody' and at('result'):
            k = rng.choice(at('result'))
            ev[k]['j'] = 'else'
            return kind, ev
    return None


def dedupe(x):
    """Tasks that are run again, their worker's connection having been lost,
    are counted once."""
    first, same, out, ended = {}, {}, [], set()
    for e in x['ev']:
        if e['e'] == 'task':
            k = json.dumps([e['d'], e['f'], e.get('v'), e.get('a'), e.get('b')])
            if k in first:
                same[(e['d'], e['j'])] = first[k]
                continue
            first[k] = e['j']
            same[(e['d'], e['j'])] = e['j']
        elif e['e'] == 'res' and e.get('d') != 'wire':
            j = same[(e['d'], e['j'])]
            if (e['d'], j) in ended:
                continue
            ended.add((e['d'], j))
            e = dict(e, j=j)
        out.append(e)
    return dict(x, ev=out)


def answered_twice(x):
    """Was a task answered twice, its worker's connection having been lost?"""
    wire = [e for e in x['ev'] if e.get('d') == 'wire']
    results = [(e['key'], m['q']) for e in wire if e['e'] == 'pub' and e['what'] == 'result' for m in e['ms']]
    return any(e['e'] == 'back' for e in wire) and any(r in results[:k] for k, r in enumerate(results))


COMMANDS = 'command-ipc-routing-key'


def commands(x):
    """What happens to the commands, as events of TraceAmqpQueue."""
    out, bound, eater, p_of, subs, held, conn = [], set(), {}, {}, set(), set(), {}

    def come(q):
        for c, by in eater.get(q, []):
            if c not in subs:
                subs.add(c)
                conn[c] = by
                out.append(dict(e='sub', c=c, conn=by))
    for e in x['ev']:
        if e.get('d') != 'wire':
            continue
        k = e['e']
        if k == 'bind' and e['to'] == COMMANDS:
            bound.add(e['q'])
            come(e['q'])
        elif k == 'consume':
            eater.setdefault(e['q'], []).append(('c%d' % e['c'], e['by']))
            if e['q'] in bound:
                come(e['q'])
        elif k == 'pub' and e['q'] == COMMANDS:
            for m in e['ms']:
                p_of[m['m']] = e['p']
            out.append(dict(e='pubstart', v=e['p']))
        elif k == 'deliver' and e['m'] in p_of:
            held.add((e['c'], e['m']))
            out.append(dict(e='taken', c='c%d' % e['c'], v=p_of[e['m']], intact=True))
        elif k in ('ack', 'nack') and e['m'] in p_of:
            held.discard((e['c'], e['m']))
            out.append(dict(e=k, c='c%d' % e['c'], v=p_of[e['m']]))
        elif k == 'gone':
            held = {h for h in held if conn.get('c%d' % h[0]) != e['by']}
            out.append(dict(e='cut', conn=e['by']))
        elif k == 'rest':
            out.append(dict(e='rest', held=len(held)))
    return dict(x, ev=out, cfg=dict(mode='all', qos=1, ends=False))


def corrupt_commands(ev, rng):
    ks = [k for k, e in enumerate(ev) if e['e'] == 'taken']
    if not ks:
        return None
    k = rng.choice(ks)
    if any(e['e'] == 'cut' and e['conn'] == x['conn'] for e in ev for x in ev if x['e'] == 'sub' and x['c'] == ev[k]['c']):
        return None
    if rng.random() < .3:
        return 'twice', ev[:k + 1] + [ev[k]] + ev[k + 1:]
    return 'lost', [e for j, e in enumerate(ev) if j != k and not (e['e'] in ('ack', 'nack') and (e['c'], e['v']) == (ev[k]['c'], ev[k]['v']))]
