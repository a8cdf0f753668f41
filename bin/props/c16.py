"""C16: ignored failures."""
from props import workers as W


def run(c):
    q = c.quick
    ms = W.models(c, ['ignore_marks', 'ignore_reported'])
    gens = [W.gen(c, l=6, outs=['ignore'], ends=2, take=2000 if q else 20000, label='ignored'),
            W.gen(c, l=9, jobs=2, outs=['ignore', 'transient'], ends=4, holds=[True, False], simulate=500 if q else 9000, depth=10, take=1200 if q else 20000, label='several ignored'),
            W.gen(c, l=8, outs=['ignore', 'boom'], ends=3, aborts=['abort', 'abortall'], maxaborts=1, holds=[True, False], simulate=300 if q else 9000, depth=9, take=800 if q else 20000, label='with others')]
    W.run(c, gens)
    W.threads(c, 40 if q else 400, ['ok', 'ignore', 'transient'])
    W.volume(c, ['ok', 'transient', 'ignore'])
    c.models(ms)
