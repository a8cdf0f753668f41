"""C15: terminating failures."""
from props import workers as W


def run(c):
    q = c.quick
    ms = W.models(c, ['tells_no_one', 'overwrite'])
    gens = [W.gen(c, l=5, outs=W.FATAL, bads=W.BADS, ends=1, take=2000 if q else 20000, label='one failure'),
            W.gen(c, l=7, outs=W.FATAL + ['transient', 'ignore'], bads=W.BADS, ends=3, holds=[True, False], simulate=500 if q else 9000, depth=8, take=1200 if q else 20000, label='several failures'),
            W.gen(c, l=8, outs=W.FATAL, bads=W.BADS, ends=2, aborts=['abort', 'abortall', 'tick'], maxaborts=2, holds=[True, False], simulate=300 if q else 9000, depth=9, take=800 if q else 20000, label='with aborts')]
    W.run(c, gens)
    W.threads(c, 40 if q else 400, ['ok', 'ok', 'ok', 'transient'] + W.FATAL)
    c.models(ms)
