"""Coordinated channels and composed acknowledgers (C05, C06, C07)."""
import copy

PUB = ['coord.publish.counted', 'coord.publish.checked', 'coord.publish.sent']
POLL = ['coord.poll.pending', 'coord.poll.closed_read', 'coord.poll.pending_read']


def models(c, liveness=False, defects=()):
    T, A = ['\\a', '\\b'], ['\\k1', '\\k2']
    one, two = ['\\m1'], ['\\m1', '\\m2']
    ms = [c.model('Coord', dict(Msgs=two, Tasks=T, AckOps=A), inv=['Inv'], label='contract'),
          c.model('CoordImpl', dict(Msgs=one, Tasks=T, AckOps=A, Defect='none'), props=['Refines'], label='mechanism refines contract', workers=3)]
    if liveness:
        ms.append(c.model('Coord', dict(Msgs=one, Tasks=['\\a'], AckOps=['\\k1']), spec='FairSpec', props=['EndsWhenClosed'], label='contract, liveness'))
    for d in defects:
        big = d == 'count_twice'
        ms += c.refuted('CoordImpl', dict(Msgs=two if big else one, Tasks=['\\a'] if big else T, AckOps=['\\k1'] if big else A), [d], props=['Refines'])
    if not c.quick:
        ms.append(c.model('CoordImpl', dict(Msgs=two, Tasks=T, AckOps=A, Defect='none'), props=['Refines'], label='mechanism refines contract, two messages', timeout=1500, workers=6))
    return ms


def scripts(c, hows, take, only=None, L=(6, 7), long=(400, 8000), pubs=PUB, polls=POLL):
    q = c.quick
    take = take if q else take * 15
    base = dict(MaxM=3, MaxT=2, Hows=hows, Cuts=False)
    few = dict(base, Hows=hows[:1])
    gens = [
        c.gen('GenCoord', dict(few, PubStops=pubs, PollStops=polls, MaxPaused=2, Hops=1, MaxM=2, L=L[0] - 1 if q else L[1] - 1), take=take, label='stepped'),
        c.gen('GenCoord', dict(few, PubStops=[], PollStops=[], MaxPaused=0, Hops=0, L=L[0] + 1 if q else L[1] + 1), take=take, label='atomic'),
        c.gen('GenCoord', dict(few, PubStops=pubs, PollStops=[], MaxPaused=1, Hops=0, MaxM=2, Cuts=True, L=L[0] - 1 if q else L[1] - 1), take=take // 2, label='cut off'),
        c.gen('GenCoord', dict(base, PubStops=pubs, PollStops=polls, MaxPaused=3, Hops=3, MaxM=8, MaxT=3, Cuts=True, L=34), simulate=long[0] if q else long[1], depth=36, label='long'),
    ]
    return [dict(ops=ops) for g in gens for ops in c.generated(g)]


def volume(c, hows):
    """Hundreds of messages underway at a time."""
    r, out = c.rng, []
    for k in range(5 if c.quick else 60):
        n = r.choice([40, 70, 140, 270, 300] if c.quick else [270, 300, 600])
        pub = [dict(o='pub', m=m + 1, ok=r.random() < .97, late=False, t=100 + m, stop=[]) for m in range(n)]
        poll = lambda: dict(o='poll', c=1, t=200, stop=[])
        good = [x['m'] for x in pub if x['ok']]
        order = list(good)
        if r.random() < .5:
            r.shuffle(order)
        ack = [dict(o='ack', m=m, how=r.choice(hows), k=j + 1) for j, m in enumerate(order)]
        close = dict(o=r.choice(['close', 'drop']))
        if k % 3 == 0:      # closed first
            ops = pub + [close] + [poll() for _ in good] + ack
        elif k % 3 == 1:    # closed in between
            at = r.randrange(len(ack))
            ops = pub + [poll() for _ in good] + ack[:at] + [close, poll()] + ack[at:]
        else:
            ops = pub + [poll() for _ in good] + ack + [poll(), close]
        out.append(dict(ops=ops + [poll(), poll()]))
    return out


def stress(c, n):
    r = c.rng
    return [dict(seed=r.randrange(1 << 30), p=r.randint(1, 4), n=r.randint(1, 5), close=r.choice(['close', 'drop']), acks=r.choice([2, 2, 3, 4])) for _ in range(n)]


def corrupt(ev, rng):
    kind = rng.choice(['early', 'late pub', 'unwoken', 'lost', 'twice', 'never', 'altered'])
    ends = [k for k, e in enumerate(ev) if e['e'] == 'end']
    if kind == 'early':
        # a poll that waited while something was outstanding ends instead
        closing = False
        tx, ackd = set(), set()
        for k, e in enumerate(ev):
            if e['e'] in ('closec', 'cut'):
                closing = True
            if e['e'] == 'tx' and e['ok']:
                tx.add(e['m'])
            if e['e'] == 'ackc':
                ackd.add(e['m'])
            if e['e'] == 'wait' and (not closing or tx - ackd):
                return kind, ev[:k] + [dict(e='end', w=[])]
    if kind == 'late pub':
        for k, e in enumerate(ev):
            if e['e'] == 'closer':
                return kind, ev[:k + 1] + [dict(e='pubc', m=77, w=[]), dict(e='tx', m=77, ok=True, w=[])]
    if kind == 'unwoken':
        out = copy.deepcopy(ev)
        for k, e in enumerate(out):
            # alone: a close or an acknowledgement wakes the waiting task
            if e['e'] in ('closer', 'ackr', 'pubr') and e.get('w') and out[k - 1]['e'] in ('closec', 'ackc', 'tx'):
                inflight = sum(x['e'] in ('pubc', 'closec', 'ackc', 'pollc') for x in out[:k + 1]) - sum(x['e'] in ('pubr', 'closer', 'ackr', 'yield', 'wait', 'end') for x in out[:k + 1])
                waits = [x for x in out[:k] if x['e'] in ('pollc', 'yield', 'wait', 'end')]
                if inflight or not waits or waits[-1]['e'] != 'wait':
                    continue
                # the next thing that is reported is news
                last = max(j for j in range(k) if out[j]['e'] == 'pollc')
                if any(x.get('w') for x in out[last:k]):
                    continue
                tx = [x for x in out[last:k] if x['e'] == 'tx' and x['ok']]
                c_ = out[last]['c']
                if c_ not in e['w']:
                    continue
                if e['e'] == 'pubr' and not tx:
                    continue
                if e['e'] != 'pubr':
                    nxt = [x for x in out[k:] if x['e'] in ('yield', 'end')]
                    between = [x for x in out[k + 1:] if x['e'] in ('tx', 'closec', 'ackc')]
                    if not nxt or nxt[0]['e'] != 'end' or between:
                        continue
                e['w'] = []
                return kind, out[:k + 1]
    ys = [k for k, e in enumerate(ev) if e['e'] == 'yield']
    if kind == 'lost' and ys:
        k = rng.choice(ys)
        if sum(e['e'] == 'tx' and e['ok'] for e in ev) == len(ys):
            m = ev[k]['m']
            return kind, [e for j, e in enumerate(ev) if j not in (k,) and e.get('m') != m or e['e'] in ('pubc', 'tx', 'pubr')]
    if kind == 'twice' and ys:
        k = rng.choice(ys)
        return kind, ev[:k + 1] + [dict(e='pollc', c=1, w=[]), copy.deepcopy(ev[k])]
    if kind == 'never' and ends:
        k = ends[-1]
        before = ev[:k]
        pc = max(j for j in range(k) if ev[j]['e'] == 'pollc')
        opened = sum(x['e'] in ('pubc', 'closec', 'ackc') for x in ev[:pc]) - sum(x['e'] in ('pubr', 'closer', 'ackr') for x in ev[:pc])
        if opened == 0 and pc == k - 1 and any(e['e'] == 'closer' for e in ev[:pc]):
            acked = {e['m'] for e in ev[:pc] if e['e'] == 'ackc'}
            tx = {e['m'] for e in ev[:pc] if e['e'] == 'tx' and e['ok']}
            if tx <= acked:
                return kind, before + [dict(e='wait', w=[])]
    if kind == 'altered' and ys:
        ev[rng.choice(ys)]['m'] = 55
        return kind, ev
    return None


CONSTS = dict(Msgs=[], Tasks=[], AckOps=[])
