"""C01: exactly-once queues."""
import queues


def run(c):
    C2 = dict(Consumers=['\\c1', '\\c2'], Messages=['\\m1', '\\m2', '\\m3'])
    models = [
        c.model('ExactlyOnce', C2, inv=['Inv'], label='contract'),
        c.model('ExactlyOnce', dict(C2, Messages=['\\m1', '\\m2']), spec='FairSpec', inv=['Inv'], props=['NoneLeftBehind'], label='contract, liveness'),
        c.model('ExactlyOnceImpl', dict(C2, Defect='none'), props=['Refines'], inv=['PermitMeansMessage'], label='mechanism refines contract'),
    ] + c.refuted('ExactlyOnceImpl', C2, ['permit_first', 'no_permit', 'drop_loses_permit'], props=['Refines'])
    if not c.quick:
        models.append(c.model('ExactlyOnceImpl', dict(Consumers=['\\c1', '\\c2', '\\c3'], Messages=['\\m1', '\\m2', '\\m3', '\\m4'], Defect='none'),
                              props=['Refines'], label='mechanism refines contract', timeout=1500, workers=6))
    q = c.quick
    pub, poll = ['once.publish.pushed'], ['once.poll.permitted']
    none = dict(SubStops=[], Names=[1], Hops=0)
    gens = [
        (c.gen('GenQueues', dict(none, MaxC=2, MaxM=3, PubStops=[], PollStops=[], MaxPaused=0, L=8 if q else 9), take=3000 if q else 60000, label='atomic')),
        (c.gen('GenQueues', dict(none, MaxC=2, MaxM=3, PubStops=pub, PollStops=poll, MaxPaused=2, L=7 if q else 8), take=3000 if q else 60000, label='stepped')),
        (c.gen('GenQueues', dict(none, MaxC=9, MaxM=12, PubStops=pub, PollStops=poll, MaxPaused=3, L=40), simulate=300 if q else 6000, depth=42, label='long')),
    ]
    scripts = []
    for g in gens:
        for k, ops in enumerate(c.generated(g)):
            scripts.append(dict(cfg=dict(synd='once', deliv='persistent' if k % 3 else 'ephemeral', ser='cbor' if k % 2 else 'postcard'),
                                ops=queues.prepare(ops)))
    traces = c.harness('queues', scripts)
    c.validate('TraceExactlyOnce', traces, queues.ONCE, tidy=queues.tidy_once, corrupt=queues.corrupt_once, inv=['ExactlyOnceDelivery'], what='scheduled')
    stress = queues.stress_once(c, 400 if q else 8000)
    traces = c.harness('queues-stress', stress)
    c.validate('TraceExactlyOnce', traces, queues.ONCE, tidy=queues.tidy_mt, free=True, corrupt=queues.corrupt_once_mt, inv=['ExactlyOnceDelivery'], what='multi-threaded')
    traces = c.harness('burst', queues.bursts(c, 'once', 8 if q else 100))
    c.validate('TraceExactlyOnce', traces, queues.ONCE, tidy=queues.tidy_mt, free=True, inv=['ExactlyOnceDelivery'], what='at full speed')
    c.models(models)
