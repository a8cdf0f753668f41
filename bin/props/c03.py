"""C03: retention of persistent broadcasts."""
import queues
import c02


def run(c):
    q = c.quick
    ms = c02.models(c)
    gens = [
        (1, c.gen('GenQueues', dict(SubStops=[], Hops=2, Names=[1, 2], MaxC=2, MaxM=3, PubStops=c02.PUB, PollStops=[], MaxPaused=1, L=6), take=3000 if q else 40000, label='publishes suspended')),
        (1, c.gen('GenQueues', dict(SubStops=[], Hops=1, Names=[1, 2, 3], MaxC=3, MaxM=3, PubStops=c02.PUB, PollStops=[], MaxPaused=2, L=5 if q else 7), take=2500 if q else 40000, label='two publishes suspended')),
        # a subscription holds its entry while it is suspended: most of these schedules are
        # not realisable and say nothing; they are there for code in which they are
        (1, c.gen('GenQueues', dict(SubStops=c02.SUB, Hops=0, Names=[1, 2], MaxC=2, MaxM=3, PubStops=[], PollStops=[], MaxPaused=1, L=6), take=150 if q else 600, label='subscriptions suspended')),
    ]
    modes = ['persistent'] * 5 + ['ephemeral']
    stress = queues.stress_bcast(c, 150 if q else 5000, 'persistent') + queues.stress_bcast(c, 60 if q else 1000, 'ephemeral')
    c02.drive(c, c02.scripts(c, gens, modes), stress)
    traces = c.harness('burst', queues.bursts(c, 'bcast', 16 if q else 200, late=1))
    c.validate('TraceBroadcast', traces, queues.BCAST, tidy=queues.tidy_mt, free=True, assist=queues.takers_bcast, what='at full speed')
    c.models(ms)
