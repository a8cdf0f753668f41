"""C19: workers are busy with one operation each."""
from props import workers as W


def run(c):
    q = c.quick
    ms = W.models(c, ['abort_stops'])
    gens = [W.gen(c, l=6, ws=[1, 2, 3], jobs=1, take=1500 if q else 20000, label='busy'),
            W.gen(c, l=9, ws=[1, 2, 3, 4], jobs=2, outs=['transient', 'ignore'], ends=3, holds=[True, False], simulate=500 if q else 9000, depth=10, take=1200 if q else 20000, label='long'),
            W.gen(c, l=8, ws=[2, 3, 4], jobs=2, outs=['ignore'], ends=1, aborts=['abort'], maxaborts=2, holds=[True, False], simulate=300 if q else 9000, depth=9, take=600 if q else 20000, label='with aborts of jobs')]
    W.run(c, gens, emulated=.5)
    W.threads(c, 40 if q else 400, ['ok', 'ok', 'ignore', 'transient'])
    c.models(ms)
