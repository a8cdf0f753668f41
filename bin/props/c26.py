"""C26: AMQP broadcasts."""
import amqp


def run(c):
    q = c.quick
    ms = amqp.models(c, ['all'])
    gens = [amqp.gen(c, ['all'], [], 5, take=300 if q else 3000, label='short'),
            amqp.gen(c, ['all'], ['cut', 'expel', 'drop', 'close'], 16, conns=3, consumers=4, messages=6, maxextra=2, simulate=250 if q else 4000, depth=18, label='long')]
    amqp.run(c, gens, 'histories')
    n = 1 if q else 12
    for what, scripts in [('abort commands', amqp.systems(c, 60 * n, sizes=(2, 3, 5), aborts=1.0, limit=400)), ('failures', amqp.systems(c, 40 * n, fails=1.0))]:
        c.validate('TraceAmqpQueue', [amqp.commands(x) for x in c.harness('amqp-directives', scripts)], amqp.OFF, corrupt=amqp.corrupt_commands, ncorrupt=40, maxcorrupt=200, what=what)
    c.models(ms)
