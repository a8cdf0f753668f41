"""C07: publishing after close; acknowledgements count once; composition."""
import coord


def corrupt_composed(ev, rng):
    kind = rng.choice(['skipped', 'after failure', 'swallowed', 'swapped'])
    inv = [k for k, e in enumerate(ev) if e['e'] == 'invoke']
    if kind == 'skipped' and inv:
        c, k = ev[inv[-1]]['c'], ev[inv[-1]]['k']
        if any(e['e'] == 'return' and e['c'] == c and e['r'] == 'ok' for e in ev):
            return kind, [e for e in ev if not (e['e'] in ('invoke', 'finish') and e['c'] == c and e['k'] == k)]
    if kind == 'swallowed':
        for e in ev:
            if e['e'] == 'return' and e['r'] != 'ok':
                e['r'] = 'ok'
                return kind, ev
    if kind == 'after failure':
        for j, e in enumerate(ev):
            if e['e'] == 'finish' and e['r'] != 'ok':
                return kind, ev[:j + 1] + [dict(e='invoke', c=e['c'], k=e['k'] + 1, how='ack')]
    if kind == 'swapped' and inv:
        ev[inv[0]]['how'] = 'ack' if ev[inv[0]]['how'] == 'nack' else 'nack'
        return kind, ev
    return None


def run(c):
    q = c.quick
    ms = coord.models(c, defects=['count_twice', 'no_cancel'])
    ms.append(c.model('Composed', dict(Calls=['\\a', '\\b'], N=3, Outcomes=['ok', 'f']), props=['Ordered'], label='composition'))
    traces = c.harness('coord', coord.scripts(c, ['ack', 'nack', 'Ack', 'Nack'], 3500, polls=[]))
    c.validate('TraceCoord', traces, coord.CONSTS, corrupt=coord.corrupt, ncorrupt=60, maxcorrupt=150, inv=['Inv'], what='schedules')
    c.validate('TraceCoord', c.harness('coord', coord.volume(c, ['ack', 'nack', 'Ack', 'Nack'])), coord.CONSTS, inv=['Inv'], what='many messages')
    s = coord.stress(c, 500 if q else 10000)
    for x in s:
        x['acks'] = c.rng.choice([3, 4, 5])
    traces = c.harness('coord-stress', s)
    c.validate('TraceCoord', traces, coord.CONSTS, inv=['Inv'], what='multi-threaded')
    traces = c.harness('coord-acks', [dict(threads=n, rounds=3000 if q else 60000) for n in (2, 3, 4, 2, 3, 4)])
    c.validate('TraceCoord', traces, coord.CONSTS, inv=['Inv'], what='simultaneous acknowledgements')
    gens = [c.gen('GenComposed', dict(MaxN=3, L=2), take=3000, label='short'),
            c.gen('GenComposed', dict(MaxN=4 if q else 6, L=9), simulate=1500 if q else 20000, depth=11, label='long')]
    scripts = [dict(x, cfg=dict(n=x['n'])) for g in gens for x in c.generated(g)]
    traces = c.harness('composed', scripts)
    c.validate('TraceComposed', traces, dict(Calls=[], N=99, Outcomes=[]), corrupt=corrupt_composed, ncorrupt=40, maxcorrupt=100, what='compositions')
    c.models(ms)
