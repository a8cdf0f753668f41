"""C13: a failing map reports the error and never passes off a partial result."""
import leader


def run(c):
    q = c.quick
    ms = leader.map_models(c, True, ['error_lost', 'error_dropped', 'close_early'])
    gens = [leader.gen(c, 'Maps', 3, 6, extra=leader.ERRS, maxextra=2, take=4000 if q else 40000, label='n<=3, two failures'),
            leader.gen(c, 'Maps', 6, 16, extra=leader.ERRS, maxextra=3, holds=[True, False], simulate=2500 if q else 40000, depth=18, label='n<=6, three failures'),
            leader.gen(c, 'Maps', 30, 80, extra=['fail', 'inerr'], maxextra=4, holds=[True, False], simulate=150 if q else 5000, depth=82, label='n<=30'),
            leader.gen(c, 'Sorted', 4, 12, extra=leader.ERRS, maxextra=1, holds=[True, False], simulate=1000 if q else 8000, depth=14, label='collected in order'),
            leader.gen(c, 'Literals', 1, 3, extra=['fail', 'badout', 'badmeta'], maxextra=1, holds=[True, False], label='literals')]
    leader.run(c, gens, poison=.25)
    c.models(ms)
