"""C28: a consumer keeps consuming, and ends when it cannot."""
import amqp


def run(c):
    q = c.quick
    ms = amqp.models(c, ['one', 'all'])
    gens = [amqp.gen(c, ['one'], ['bad', 'cut', 'expel', 'close', 'delete'], 5, take=300 if q else 3000, label='short'),
            amqp.gen(c, ['one', 'all'], ['bad', 'cut', 'expel', 'drop', 'close'], 16, conns=3, consumers=3, messages=6, maxextra=4, simulate=250 if q else 4000, depth=18, label='long'),
            amqp.gen(c, ['one'], ['bad', 'delete'], 14, conns=2, consumers=3, messages=6, maxextra=3, simulate=100 if q else 2000, depth=16, label='deleted')]
    amqp.run(c, gens, 'histories', ends=True)
    c.models(ms)
