"""C24: messages from a broker are acknowledged once, after being handled."""
import amqp
import leader


def run(c):
    q = c.quick
    ms = amqp.models(c, ['one']) + amqp.broker_models(c)
    gens = [amqp.gen(c, ['one'], [], 5, take=300 if q else 3000, label='short'),
            amqp.gen(c, ['one'], ['cut', 'expel', 'drop', 'close'], 16, conns=3, consumers=4, messages=6, maxextra=2, simulate=150 if q else 4000, depth=18, label='long')]
    amqp.run(c, gens, 'histories of a queue')
    n = 1 if q else 12
    amqp.on_wire(c, c.harness('amqp-directives', amqp.systems(c, 150 * n)), 'workers on a broker')
    amqp.on_wire(c, c.harness('amqp-directives', amqp.systems(c, 60 * n, fails=1.0)), 'failing operations')
    amqp.on_wire(c, c.harness('amqp-directives', amqp.systems(c, 60 * n, cuts=1.0, limit=1000)), 'lost connections')
    on_aborts = amqp.systems(c, 60 * n, sizes=(2, 3, 5, 8), aborts=1.0, limit=600)
    amqp.on_wire(c, c.harness('amqp-directives', on_aborts), 'aborted jobs')
    amqp.on_wire(c, c.harness('amqp-directives', amqp.systems(c, 2 * n, sizes=(300, 520), shapes=[leader.MAP])), 'many tasks', inv=False)
    c.models(ms)
