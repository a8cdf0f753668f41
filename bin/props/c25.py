"""C25: over AMQP, directives give the same results as locally."""
import amqp
import leader
INV = ['OwnBus', 'NoMore']


def run(c):
    q = c.quick
    ms = [c.model('TaskBus', dict(P=['\\p', '\\q'], B=['\\b', '\\c'], Q=['\\b', '\\c'], J=[1, 2], MM=[1, 2, 3]), inv=INV, label='contract')]
    ms += leader.bulk(c, ['fold', 'mapfold', 'map', 'sorted'], broker=True)
    n = 1 if q else 12
    for what, scripts in [('on a broker', amqp.systems(c, 250 * n)),
                          ('many items', amqp.systems(c, 25 * n, sizes=(13, 21, 34))),
                          ('failing operations', amqp.systems(c, 60 * n, fails=1.0))]:
        traces = c.harness('amqp-directives', scripts)
        c.validate('TracePipeline', leader.project([dict(x, ev=[e for e in x['ev'] if e.get('d') != 'wire']) for x in traces]), leader.CONSTS,
                   corrupt=leader.corrupt, ncorrupt=40, maxcorrupt=60, what=what)
        c.validate('TraceTaskBus', [amqp.bus_wire(x) for x in traces], amqp.BUS, corrupt=amqp.corrupt_bus, ncorrupt=40, maxcorrupt=400, inv=['NoMore'], what='task buses, ' + what)
    traces = c.harness('amqp-directives', amqp.systems(c, 60 * n, cuts=1.0, limit=800))
    c.validate('TraceTaskBus', [amqp.bus_wire(x) for x in traces], amqp.BUS, inv=['NoMore'], what='task buses, lost connections')
    # A connection lost between a result and the acknowledgement of its task has the task
    # run, and answered, twice: outside of what the property promises (DESIGN.md).
    whole = [amqp.dedupe(dict(x, ev=[e for e in x['ev'] if e.get('d') != 'wire'])) for x in traces if not any(e['e'] == 'hang' for e in x['ev']) and not amqp.answered_twice(x)]
    c.validate('TracePipeline', leader.project(whole), leader.CONSTS, what='lost connections')
    c.models(ms)
