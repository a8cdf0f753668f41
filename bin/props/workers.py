"""Workers under generated schedules (C14-C17, C19, C22)."""
OFF = dict(Tasks=[], Jobs=[], N=0)
FATAL = ['boom', 'panic', 'codec']
BADS = ['badin', 'badop', 'badid']


def gen(c, ws=(1, 2, 3), jobs=2, l=6, outs=(), bads=(), ends=0, aborts=(), maxaborts=0, holds=(False,), **kw):
    return c.gen('GenWorker', dict(Ws=list(ws), J=jobs, L=l, Outs=list(outs), Bads=list(bads), MaxEnds=ends, Aborts=list(aborts), MaxAborts=maxaborts, Holds=list(holds)), **kw)


def corrupt(ev, rng):
    kinds = ['lost result', 'twice', 'other job', 'wrong operation', 'too many', 'idle', 'lost error', 'signal', 'completes', 'stopped', 'alive', 'rerun']
    rng.shuffle(kinds)
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    told = next((k for k, e in enumerate(ev) if e['e'] == 'abortall' or (e['e'] == 'end' and e['out'] in FATAL) or e['e'] == 'error'), len(ev))
    for kind in kinds:
        if kind == 'lost result' and [k for k in at('result') if k < told] and not at('abort', 'drop'):
            k = rng.choice([k for k in at('result') if k < told])
            nxt = [j for j in at('quiet') if j > k]
            if nxt and nxt[0] < told:
                return kind, ev[:k] + ev[k + 1:nxt[0] + 1]
        if kind == 'twice' and at('result', 'error'):
            k = rng.choice(at('result', 'error'))
            if ev[k]['e'] == 'error' and ev[k]['class'] != 'boom':
                continue  # another such failure of the job may be reported
            return kind, ev[:k + 1] + [ev[k]]
        if kind == 'other job' and at('result', 'error'):
            k = rng.choice(at('result', 'error'))
            ev[k]['job'] += 7
            return kind, ev
        if kind == 'wrong operation' and at('begin'):
            k = rng.choice(at('begin'))
            ev[k]['name'] = 'AB'[ev[k]['name'] == 'A']
            return kind, ev
        if kind == 'rerun' and at('result'):
            k = rng.choice(at('result'))
            b = next(e for e in ev if e['e'] == 'begin' and e['k'] == ev[k]['k'])
            return kind, ev[:k + 1] + [dict(b, a=b['a'] + 1)]
        if kind == 'too many' and at('begin'):
            k = at('pub')[-1]
            extra = []
            for j in range(5):
                extra += [dict(e='pub', k=900 + j, job=0, bad=False)]
            for j in range(5):
                extra += [dict(e='begin', k=900 + j, a=1, name='A', asked='A')]
            return kind, ev[:k] + extra
        if kind == 'idle' and at('begin'):
            k = rng.choice([k for k in at('begin') if ev[k]['a'] == 1])
            nxt = [j for j in at('quiet') if j > k]
            mid = ev[k + 1:nxt[0] + 1] if nxt else []
            if nxt and nxt[0] < told and not at('abort', 'drop') and not any(e.get('k') == ev[k]['k'] for e in mid):
                return kind, ev[:k] + mid
        if kind == 'lost error' and at('error') and not at('drop'):
            k = at('error')[0]
            nxt = [j for j in at('quiet') if j > k]
            if nxt and k == told and ev[k - 1]['e'] == 'end' or (k == told + 1 and nxt and ev[told]['e'] == 'end'):
                return kind, ev[:k] + ev[k + 1:nxt[0] + 1]
        if kind == 'signal' and not at('drop'):
            ks = [k for k in at('quiet') if ev[k]['signalled']]
            if ks:
                k = rng.choice(ks)
                return kind, ev[:k] + [dict(e='quiet', signalled=[])]
            run = set()
            for k, e in enumerate(ev[:told]):
                run |= {e['k']} if e['e'] == 'begin' else set()
                run -= {e['k']} if e['e'] == 'end' else set()
                if e['e'] == 'quiet' and run:
                    return kind, ev[:k] + [dict(e='quiet', signalled=[min(run)])]
        if kind == 'completes' and not at('drop'):
            for q in at('quiet'):
                if q > told:
                    for k in at('end'):
                        if k > q and ev[k]['out'] == 'ok':
                            return kind, ev[:k + 1] + [dict(e='result', k=ev[k]['k'], job=next(e['job'] for e in ev if e['e'] == 'pub' and e['k'] == ev[k]['k']))]
        if kind == 'stopped' and at('stopped'):
            k = at('stopped')[0]
            ev[k]['n'] += 1 if ev[k]['n'] == 0 else -1
            return kind, ev
        if kind == 'alive' and at('alive'):
            ev[at('alive')[0]]['n'] += 1
            return kind, ev
    return None


def run(c, gens, emulated=.3, what='schedules', ncorrupt=60, drop=0.0):
    scripts = []
    for g in gens:
        for x in c.generated(g):
            ops = x['ops']
            em = c.rng.random() < emulated
            if c.rng.random() < drop and not any(o['o'] == 'drop' for o in ops):
                ops.insert(c.rng.randrange(len(ops) + 1), dict(o='drop', hold=c.rng.random() < .3))
            scripts.append(dict(cfg=dict(w=x['w']), ops=ops, jobs=3, age=50 if any(o['o'] == 'tick' for o in ops) else 0, emulated=em, cbor=c.rng.random() < .5, seed=c.rng.randrange(1 << 30)))
    traces = c.harness('worker', scripts)
    c.validate('TraceWorker', traces, OFF, corrupt=corrupt, ncorrupt=ncorrupt, maxcorrupt=200, what=what)
    return traces


def volume(c, outs, aborts=False):
    """Hundreds of tasks, of dozens of jobs."""
    r, scripts = c.rng, []
    for k in range(3 if c.quick else 30):
        w, J, n = 1 + k % 3, r.choice([2, 70, 90]) if not aborts else r.choice([70, 90, 140]), r.choice([130, 260] if c.quick else [130, 260, 520])
        ops, open_ = [], 0
        gone = r.sample(range(J), J - 4) if aborts else []
        for j in gone:
            ops.append(dict(o='abort', job=j, hold=r.random() < .5))
        streak = r.random() < .5
        for _ in range(n):
            j = r.choice([gone[0], r.choice(gone), r.randrange(J), r.choice([x for x in range(J) if x not in gone])] if gone else [r.randrange(J)])
            ops.append(dict(o='pub', job=j, bad='none', hold=r.random() < .2))
            if j not in gone:
                open_ += 1
            while open_ and r.random() < .8:
                open_ -= 1
                out = r.choice(outs)
                if streak and len(ops) % 100 < 60:
                    out = outs[-1]
                ops.append(dict(o='rel', r=r.randrange(2), out=out, hold=False))
                open_ += out == 'transient'
        scripts.append(dict(cfg=dict(w=w), ops=ops, jobs=J, age=0, emulated=r.random() < .3, cbor=r.random() < .5, seed=r.randrange(1 << 30)))
    c.validate('TraceWorker', c.harness('worker', scripts), OFF, what='many tasks')


def threads(c, count, outs, what='threads'):
    """Real threads, no control over the schedule; `outs` are drawn from, 'abort' among them means a job is aborted."""
    aborts, finals = 'abort' in outs, [o for o in outs if o not in ('abort', 'transient')]
    scripts = []
    for _ in range(count):
        jobs, w, n = c.rng.randint(1, 3), c.rng.randint(1, 4), c.rng.randint(3, 20)
        rare = c.rng.random() < .5
        tasks = []
        for _ in range(n):
            final = c.rng.choice(finals)
            if final in FATAL and rare and c.rng.random() < .8:
                final = 'ok'
            tasks.append(dict(job=c.rng.randrange(jobs), outs=['transient'] * (c.rng.choice([0, 0, 1, 2]) if 'transient' in outs else 0) + [final]))
        scripts.append(dict(cfg=dict(w=w), jobs=jobs, tasks=tasks, abort=c.rng.randrange(jobs) if aborts and c.rng.random() < .7 else -1, cbor=c.rng.random() < .5, seed=c.rng.randrange(1 << 30)))
    traces = c.harness('worker-threads', scripts)
    for t in traces:
        n = next((k for k, e in enumerate(t['ev']) if e['e'] in ('settled', 'stuck')), None)
        t['ev'] = t['ev'] if n is None else t['ev'][:n + 1]
    c.validate('TraceWorker', traces, OFF, corrupt=free, ncorrupt=40, maxcorrupt=100, what=what)


def free(ev, rng):
    """Corruptions of runs without quiet moments."""
    at = lambda *es: [k for k, e in enumerate(ev) if e['e'] in es]
    bad = [k for k in at('end') if ev[k]['out'] in FATAL]
    if at('result') and not bad and not at('abort') and rng.random() < .5:
        k = rng.choice(at('result'))
        return 'lost result', ev[:k] + ev[k + 1:]
    if not at('result'):
        return None
    k = rng.choice(at('result'))
    if rng.random() < .5:
        return 'twice', ev[:k + 1] + [ev[k]] + ev[k + 1:]
    ev[k]['job'] += 7
    return 'other job', ev


def models(c, defects, aborts=1):
    q = c.quick
    b2 = dict(N=2, Tasks=[1, 2], Jobs=[0, 1], JobOf=('raw', '<- TwoJobs'), MaxAborts=aborts, Defect='none')
    b1 = dict(b2, N=1, Tasks=[1, 2, 3])
    inv = dict(inv=['QuietOK', 'Counts', 'Truthful'], props=['Honoured', 'Final'])
    ms = [c.model('Worker', dict(Tasks=[1, 2], Jobs=[0, 1], N=2), inv=['AtMostN', 'Once'], props=['ToldIsFinal', 'NoAborted', 'DroppedIsFinal'], label='contract'),
          c.model('WorkerImpl', b1 if q else dict(b2, Tasks=[1, 2, 3]), label='mechanism', timeout=800, **inv)]
    if not q:
        ms.append(c.model('WorkerImpl', b2, spec='Fair', props=['Stops'], label='everybody is told', timeout=800))
    for d in defects:
        ms += c.refuted('WorkerImpl', b1 if d in ('ignore_marks',) else b2, [d], **inv)
    return ms
