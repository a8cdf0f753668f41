"""C17: aborts."""
from props import workers as W


def run(c):
    q = c.quick
    ms = W.models(c, ['overwrite', 'abort_stops'], aborts=2)
    gens = [W.gen(c, l=6, aborts=['abort'], maxaborts=2, take=2000 if q else 20000, label='jobs'),
            W.gen(c, l=5, aborts=['abort', 'abortall'], maxaborts=3, holds=[True, False], take=2000 if q else 20000, label='in quick succession'),
            W.gen(c, l=5, aborts=['abort', 'tick'], maxaborts=3, holds=[True, False], take=1500 if q else 20000, label='as time passes'),
            W.gen(c, l=9, jobs=3, outs=['ignore', 'transient'], ends=2, aborts=['abort', 'abortall', 'tick'], maxaborts=4, holds=[True, False], simulate=500 if q else 9000, depth=10, take=1200 if q else 20000, label='long')]
    W.run(c, gens)
    W.threads(c, 40 if q else 400, ['ok', 'ok', 'ignore', 'transient', 'abort'])
    W.volume(c, ['ok', 'ok'], aborts=True)
    c.models(ms)
