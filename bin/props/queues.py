"""Stimuli and traces of the in-memory queues (C01, C02, C03)."""
import copy

BCAST = dict(Names=['1', '2', '3', 'z'], Handles=[], Messages=[], Publishers=[], Modes=['persistent', 'ephemeral'])
ONCE = dict(Consumers=list(range(1, 10)), Messages=[])


def prepare(ops):
    """Names as strings; polls that are suspended are announced."""
    out = []
    for op in ops:
        op = dict(op)
        if op['o'] == 'sub':
            op['n'] = str(op['n'])
        out.append(op)
    return out


def tidy_mt(x):
    """Tell each poll of a multi-threaded run what it is going to return."""
    ev = x['ev']
    last = {}
    for e in ev:
        if e['e'] == 'pollinv':
            e['m'] = 0
            last[e['c']] = e
        elif e['e'] == 'pollres':
            last[e['c']]['m'] = e['m']
    return ev


def tidy_once(x):
    """Say where overlapping publishes take effect: as late as possible, in
    the order in which the messages are taken.  (If any order explains the
    run, this one does; the specification checks it.)"""
    ev, rank = x['ev'], {}
    for e in ev:
        if e['e'] == 'take' and e['m'] not in rank:
            rank[e['m']] = len(rank)
    out, started = [], []
    for e in ev:
        m = e.get('m')
        if e['e'] in ('pubend', 'take') and m in started:
            mine = rank.get(m, 1 << 30)
            for x in sorted((x for x in started if x != m and rank.get(x, 1 << 30) < mine), key=rank.get):
                out.append(dict(e='effect', m=x))
                started.remove(x)
            out.append(dict(e='effect', m=m))
            started.remove(m)
        out.append(e)
        if e['e'] == 'pubstart':
            started.append(m)
    return out


def corrupt_once(ev, rng):
    """A variant of a run that no correct queue can produce."""
    takes = [k for k, e in enumerate(ev) if e['e'] == 'take']
    kind = rng.choice(['lost', 'twice', 'altered', 'unwoken', 'swap', 'empty'])
    # publishes that overlap may legally take effect in either order
    overlap = any(e['e'] == 'pubstart' and ev[k + 1]['e'] != 'pubend' for k, e in enumerate(ev[:-1]))
    if overlap and kind in ('lost', 'swap'):
        return None
    if kind == 'lost' and len(takes) >= 2:
        k = takes[0]
        ev[k] = dict(e='nothing', c=ev[k]['c'], w=[])
        ev = [e for e in ev if e['e'] not in ('wake',)]
        for e in ev:
            if 'w' in e:
                e['w'] = []
        # somebody later takes a later message: order violated unless the lost one is never needed
        return kind, ev
    if kind == 'twice' and takes:
        k = takes[-1]
        ev.insert(k + 1, copy.deepcopy(ev[k]))
        return kind, ev
    if kind == 'altered' and takes:
        ev[takes[0]]['m'] = 0
        return kind, ev
    if kind == 'swap' and len(takes) >= 2 and ev[takes[0]]['m'] != ev[takes[1]]['m']:
        a, b = takes[0], takes[1]
        ev[a]['m'], ev[b]['m'] = ev[b]['m'], ev[a]['m']
        return kind, ev
    if kind == 'unwoken':
        # an uninterrupted publish that wakes the only waiting consumer does not wake anybody
        if any(e['e'] in ('wake', 'look') for e in ev):
            return None
        waiting = set()
        for k, e in enumerate(ev):
            if e['e'] == 'nothing':
                waiting.add(e['c'])
            elif e['e'] in ('take', 'drop'):
                waiting.discard(e['c'])
            if e['e'] == 'pubend' and e['w'] and ev[k - 1]['e'] == 'pubstart' and len(waiting) == 1 and set(e['w']) == waiting:
                e['w'] = []
                opened = sum(x['e'] == 'pubstart' for x in ev[:k]) - sum(x['e'] == 'pubend' for x in ev[:k])
                return (kind, ev) if opened == 1 else None
    if kind == 'empty' and takes:
        # the last take finds nothing although it did, and nothing wakes anyone
        k = takes[0]
        pre = ev[:k]
        if any(e['e'] in ('wake', 'look') for e in pre) or any(e.get('w') for e in pre):
            return None
        if sum(e['e'] == 'pubstart' for e in pre) != sum(e['e'] == 'pubend' for e in pre):
            return None
        return kind, pre + [dict(e='nothing', c=ev[k]['c'], w=[])]
    return None


def corrupt_once_mt(ev, rng):
    takes = [k for k, e in enumerate(ev) if e['e'] == 'pollres']
    if not takes:
        return None
    k = rng.choice(takes)
    kind = rng.choice(['lost', 'twice'])
    inv = max(j for j in range(k) if ev[j]['e'] == 'pollinv' and ev[j]['c'] == ev[k]['c'])
    if kind == 'lost':
        ev[inv]['m'] = 0
        ev[k] = dict(e='pollnone', c=ev[k]['c'])
        return kind, ev
    return kind, ev[:k + 1] + [dict(ev[inv]), dict(ev[k])] + ev[k + 1:]


def stress_once(c, n):
    out = []
    r = c.rng
    for s in range(n):
        nc, npub = r.choice([(1, 2), (2, 1), (2, 2), (3, 1)]), 0
        nc, npub = nc
        m = 0
        threads = []
        for p in range(npub):
            ops = []
            for _ in range(r.randint(1, 4 if npub == 1 else 3)):
                m += 1
                ops.append(dict(o='pub', p=p + 1, m=m))
            threads.append(ops)
        dropped = set()
        for k in range(nc):
            ops = [dict(o='poll', c=k + 1) for _ in range(r.randint(1, 4))]
            if r.random() < 0.3 and nc > 1 and len(dropped) < nc - 1:
                ops.append(dict(o='drop', c=k + 1))
                dropped.add(k + 1)
            threads.append(ops)
        left = [k + 1 for k in range(nc) if k + 1 not in dropped]
        post = [dict(o='poll', c=k) for _ in range(m + 1) for k in left]
        out.append(dict(cfg=dict(mt=1, synd='once', deliv='persistent', ser='cbor' if s % 2 else 'postcard'), seed=r.randrange(1 << 30),
                        pre=[dict(o='sub', c=k + 1, n=str(k + 1)) for k in range(nc)], threads=threads, post=post))
    return out


# ---- broadcast ------------------------------------------------------------
def final_bcast(ops):
    """At the end: a fresh handle under every name used, and under a new name."""
    names = []
    for op in ops:
        if op['o'] == 'sub' and op['n'] not in names:
            names.append(op['n'])
    return [dict(o='sub', c=50 + k, n=n) for k, n in enumerate(names)] + [dict(o='sub', c=60, n='z')]


def tidy_bcast(x):
    """Say where the steps without an event of their own happen (as late as
    possible; which names a message reaches is known from who takes it)."""
    ev, persistent = x['ev'], x['cfg']['deliv'] == 'persistent'
    name, takers, rank = {}, {}, {}
    cnt = {}
    for e in ev:
        if e['e'] == 'substart':
            name[e['c']] = e['n']
        elif e['e'] == 'take':
            n = name.get(e['c'])
            takers.setdefault(e['m'], set()).add(n)
            cnt[n] = cnt.get(n, 0) + 1
            rank.setdefault((n, e['m']), cnt[n])
    big = 1 << 30
    first_sub = {}
    for k, e in enumerate(ev):
        if e['e'] == 'substart':
            first_sub.setdefault(e['n'], k)
    out, active, got, retained, subs, joining = [], [], {}, [], set(), []
    handles = {}

    def deliver(m, n):
        for x in sorted((x for x in active if x != m and n in takers.get(x, ()) and x not in got.get(n, ())
                         and rank.get((n, x), big) < rank.get((n, m), big)), key=lambda x: rank[(n, x)]):
            got.setdefault(n, set()).add(x)
            out.append(dict(e='deliver', m=x, n=n))
        got.setdefault(n, set()).add(m)
        out.append(dict(e='deliver', m=m, n=n))

    def replay():
        while retained:
            h = retained[0]
            cand = [n for n in joining if n not in subs and n in takers.get(h, ()) and h not in got.get(n, ())]
            if not cand:
                if any(h in g for g in got.values()):
                    retained.pop(0)
                    out.append(dict(e='forget', m=h))
                    continue
                if not takers.get(h) and joining:
                    cand = [n for n in joining if n not in subs]
                if not cand:
                    return
            n = min(cand, key=lambda n: rank.get((n, h), big))
            retained.pop(0)
            got.setdefault(n, set()).add(h)
            out.append(dict(e='replay', n=n))

    for k, e in enumerate(ev):
        if e['e'] == 'take':
            n, m = handles.get(e['c']), e['m']
            if m in active and m not in got.get(n, ()):
                deliver(m, n)
        elif e['e'] == 'pubend' and e['m'] in active:
            m = e['m']
            later = [n for n in takers.get(m, ()) if first_sub.get(n, big) > k]
            nobody = not takers.get(m)
            if persistent and (later or (nobody and not subs)):
                pre = [x for x in active if x != m and any(n in takers.get(x, ()) and rank[(n, x)] < rank[(n, m)] for n in later)]
                for x in sorted(pre, key=lambda x: min(rank[(n, x)] for n in later if n in takers.get(x, ()))):
                    if x not in retained:
                        out.append(dict(e='retain', m=x))
                        retained.append(x)
                if m not in retained:
                    out.append(dict(e='retain', m=m))
                    retained.append(m)
            for n in sorted(takers.get(m, ())):
                if m not in got.get(n, ()) and n not in later:
                    deliver(m, n)
            active.remove(m)
        elif e['e'] == 'subend' and e['n'] not in subs:
            # messages being published that this name takes before others it replays
            replay()
        out.append(e)
        if e['e'] == 'pubstart':
            active.append(e['m'])
        elif e['e'] == 'substart':
            joining.append(e['n'])
        elif e['e'] == 'subend':
            joining.remove(e['n'])
            subs.add(e['n'])
            handles[e['c']] = e['n']
    return out


def takers_bcast(x):
    if x['ev'][-1]['e'] != 'drained':
        return {}
    name = {e['c']: e['n'] for e in x['ev'] if e['e'] == 'substart'}
    return dict(tk=sorted({(e['m'], name[e['c']]) for e in x['ev'] if e['e'] in ('take', 'pollres') and e['c'] in name}))


def corrupt_bcast(ev, rng):
    takes = [k for k, e in enumerate(ev) if e['e'] == 'take']
    if not takes:
        return None
    kind = rng.choice(['lost', 'twice', 'altered', 'swap', 'unwoken', 'foreign'])
    overlap = any(e['e'] in ('pubstart', 'substart') and ev[k + 1]['e'] not in ('pubend', 'subend') for k, e in enumerate(ev[:-1]))
    stepped = overlap or any(e['e'] in ('wake', 'look') for e in ev)
    name = {e['c']: e['n'] for e in ev if e['e'] == 'subend'}
    if kind == 'lost' and not stepped:
        # a message a name takes is never taken by it: only legal if it need not have been delivered
        k = rng.choice(takes)
        m, n = ev[k]['m'], name[ev[k]['c']]
        pub = next(j for j, e in enumerate(ev) if e['e'] == 'pubstart' and e['m'] == m)
        if not any(e['e'] == 'subend' and e['n'] == n for e in ev[:pub]):
            return None
        return kind, ev[:k] + ev[k + 1:]
    if kind == 'twice':
        k = rng.choice(takes)
        return kind, ev[:k + 1] + [copy.deepcopy(ev[k])] + ev[k + 1:]
    if kind == 'altered':
        ev[rng.choice(takes)]['m'] = 0
        return kind, ev
    if kind == 'swap' and not stepped:
        for a, b in zip(takes, takes[1:]):
            if ev[a]['c'] == ev[b]['c'] and ev[a]['m'] != ev[b]['m']:
                ev[a]['m'], ev[b]['m'] = ev[b]['m'], ev[a]['m']
                return kind, ev
    if kind == 'unwoken' and not stepped:
        waiting = {}
        for k, e in enumerate(ev):
            if e['e'] == 'nothing':
                waiting[e['c']] = 1
            elif e['e'] in ('take', 'drop'):
                waiting.pop(e['c'], None)
            if e['e'] == 'pubend' and e['w']:
                ns = [name[c] for c in waiting]
                for c in e['w']:
                    if ns.count(name[c]) == 1:
                        e['w'] = [x for x in e['w'] if x != c]
                        return kind, ev[:k + 1]
                return None
    if kind == 'foreign' and not stepped:
        # the new name at the end is given a message that others already got
        if ev[-1]['e'] == 'drained' and any(e['e'] == 'pubend' for e in ev):
            k = takes[0]
            if name[ev[k]['c']] != 'z':
                return kind, ev[:-1] + [dict(e='take', c=60, m=ev[k]['m'], w=[])]
    return None


def stress_bcast(c, n, deliv=None):
    out = []
    r = c.rng
    for s in range(n):
        mode = deliv or ('persistent' if s % 3 else 'ephemeral')
        pre = [dict(o='sub', c=k + 1, n=str(k + 1)) for k in range(r.choice([0, 0, 1, 2]))]
        m, threads = 0, []
        for p in range(r.choice([1, 1, 2])):
            ops = []
            for _ in range(r.randint(1, 3)):
                m += 1
                ops.append(dict(o='pub', p=p + 1, m=m))
            threads.append(ops)
        h = 10
        for k in range(r.choice([1, 1, 2])):
            h += 1
            nm = str(r.choice([len(pre) + 1, len(pre) + 1, 1]))
            threads.append([dict(o='sub', c=h, n=nm)] + [dict(o='poll', c=h) for _ in range(r.randint(0, 2))])
        names = sorted({op['n'] for t in threads + [pre] for op in t if op['o'] == 'sub'})
        subs = [op['c'] for t in threads + [pre] for op in t if op['o'] == 'sub']
        post = [dict(o='sub', c=50 + k, n=x) for k, x in enumerate(names)] + [dict(o='sub', c=60, n='z')]
        post += [dict(o='poll', c=x) for _ in range(m + 1) for x in subs + [50 + k for k in range(len(names))] + [60]]
        out.append(dict(cfg=dict(synd='bcast', deliv=mode, ser='cbor' if s % 2 else 'postcard'), seed=r.randrange(1 << 30),
                        pre=pre, threads=threads, post=post))
    return out


def bursts(c, synd, n, late=.6):
    """Everybody at full speed."""
    r = c.rng
    return [dict(cfg=dict(synd=synd, deliv='persistent' if k % 3 else 'ephemeral', ser='cbor' if k % 4 == 3 else 'postcard'), rounds=r.randint(10, 30),
                 publishers=r.randint(2, 4), n=r.choice([200, 1000, 2000]), consumers=1 + k % 2, late=synd == 'bcast' and r.random() < late) for k in range(n)]
