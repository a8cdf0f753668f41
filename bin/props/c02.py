"""C02: broadcast queues deliver to every subscribed consumer."""
import queues


def models(c):
    consts = dict(Names=['\\n1', '\\n2'], Messages=['\\m1', '\\m2'], Publishers=['\\p1', '\\p2'], Modes=['persistent', 'ephemeral'])
    small = dict(Names=['\\n1', '\\n2'], Messages=['\\m1', '\\m2'], Publishers=['\\p1'], Modes=['persistent', 'ephemeral'])
    out = [c.model('BroadcastImpl', dict(small if c.quick else consts, Defect='none'), props=['Refines'], label='mechanism refines contract', workers=4, timeout=800),
           c.model('Broadcast', dict(Names=['\\n1', '\\n2'], Handles=['\\h1', '\\h2'], Messages=['\\m1'] if c.quick else ['\\m1', '\\m2'], Publishers=['\\p1'],
                                     Modes=['persistent', 'ephemeral']), inv=['Inv'], label='contract', workers=4, timeout=800)]
    return out + c.refuted('BroadcastImpl', consts, ['no_seen', 'retain_returns', 'insert_first', 'history_kept', 'always_retain'], props=['Refines'])


PUB = ['bcast.publish.numbered', 'bcast.publish.unheard', 'bcast.publish.retained', 'bcast.publish.delivering']
POLL = ['once.poll.permitted']
SUB = ['bcast.subscribe.replayed', 'bcast.subscribe.prepared']


def scripts(c, gens, modes, pre=0):
    out = []
    for take, g in gens:
        for k, ops in enumerate(c.generated(g)):
            ops = queues.prepare(ops)
            out.append(dict(cfg=dict(synd='bcast', deliv=modes[k % len(modes)], ser='cbor' if k % 2 else 'postcard'),
                            ops=ops, final=queues.final_bcast(ops)))
    return out


def drive(c, scr, stress):
    traces = c.harness('queues', scr)
    c.validate('TraceBroadcast', traces, queues.BCAST, tidy=queues.tidy_bcast, assist=queues.takers_bcast, corrupt=queues.corrupt_bcast, what='scheduled')
    traces = c.harness('queues-stress', stress)
    c.validate('TraceBroadcast', traces, queues.BCAST, tidy=queues.tidy_mt, free=True, assist=queues.takers_bcast, what='multi-threaded')


def run(c):
    q = c.quick
    ms = models(c)
    none = dict(SubStops=[], Hops=0)
    gens = [
        (1, c.gen('GenQueues', dict(none, Names=[1, 2], MaxC=3, MaxM=3, PubStops=[], PollStops=[], MaxPaused=0, L=7 if q else 8), take=2500 if q else 60000, label='atomic')),
        (1, c.gen('GenQueues', dict(none, Names=[1, 2], MaxC=2, MaxM=2, PubStops=PUB, PollStops=POLL, MaxPaused=2, L=6 if q else 7), take=2500 if q else 60000, label='stepped')),
        (1, c.gen('GenQueues', dict(none, Names=[1, 2, 3], MaxC=9, MaxM=8, PubStops=PUB, PollStops=POLL, MaxPaused=2, L=28), simulate=300 if q else 4000, depth=30, label='long')),
    ]
    drive(c, scripts(c, gens, ['persistent', 'ephemeral']), queues.stress_bcast(c, 250 if q else 5000))
    traces = c.harness('burst', queues.bursts(c, 'bcast', 16 if q else 200))
    c.validate('TraceBroadcast', traces, queues.BCAST, tidy=queues.tidy_mt, free=True, assist=queues.takers_bcast, what='at full speed')
    c.models(ms)
