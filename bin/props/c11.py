"""C11: a fold fails with the error when its input or a combination fails."""
import leader


def run(c):
    q = c.quick
    ms = leader.fold_models(c, True, ['error_dropped', 'final_stored'])
    gens = [leader.gen(c, 'Folds', 3, 7, extra=leader.ERRS, maxextra=1, take=4000 if q else 40000, label='n<=3, one failure'),
            leader.gen(c, 'Folds', 6, 18, extra=leader.ERRS, maxextra=2, holds=[True, False], simulate=2500 if q else 40000, depth=20, label='n<=6, two failures'),
            leader.gen(c, 'Folds', 20, 60, extra=['fail', 'inerr'], maxextra=3, holds=[True, False], simulate=300 if q else 5000, depth=62, label='n<=20')]
    leader.run(c, gens, poison=.25)
    c.models(ms)
