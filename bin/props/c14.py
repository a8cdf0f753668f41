"""C14: results of workers."""
from props import workers as W


def run(c):
    q = c.quick
    ms = W.models(c, ['ignore_reported'])
    gens = [W.gen(c, l=6, outs=['transient', 'ignore'], ends=2, take=1500 if q else 20000, label='results'),
            W.gen(c, l=8, jobs=3, outs=['transient', 'ignore'], ends=3, holds=[True, False], simulate=400 if q else 9000, depth=9, take=800 if q else 20000, label='several at once'),
            W.gen(c, l=14, jobs=3, ws=[1, 2, 3, 4], outs=['transient', 'ignore'], ends=6, holds=[True, False], simulate=200 if q else 5000, depth=15, take=300 if q else 9000, label='long')]
    W.run(c, gens)
    W.threads(c, 60 if q else 600, ['ok', 'ok', 'ok', 'transient', 'ignore'])
    W.volume(c, ['ok', 'ok', 'transient', 'ignore'])
    c.models(ms)
