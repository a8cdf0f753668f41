"""C22: dropping a runtime."""
from props import workers as W


def run(c):
    q = c.quick
    ms = W.models(c, [])
    gens = [W.gen(c, l=5, ws=[1, 2, 3], aborts=['drop'], maxaborts=1, holds=[True, False], take=2000 if q else 20000, label='drop'),
            W.gen(c, l=8, outs=['transient', 'ignore', 'boom', 'panic'], bads=['badin'], ends=2, aborts=['drop', 'abort', 'abortall', 'tick'], maxaborts=3, holds=[True, False], simulate=500 if q else 9000, depth=9, take=1500 if q else 20000, label='drop in the middle')]
    W.run(c, gens, emulated=1.0, drop=.7)
    c.models(ms)
