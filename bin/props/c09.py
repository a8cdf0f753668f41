"""C09: fold computes the in-order combination."""
import leader


def run(c):
    q = c.quick
    ms = leader.fold_models(c, False, ['swapped', 'kept', 'size_early'])
    gens = [leader.gen(c, 'Folds', 4, 12, take=3000 if q else 20000, label='n<=4'),
            leader.gen(c, 'Folds', 6, 20, simulate=2500 if q else 40000, depth=22, label='n<=6'),
            leader.gen(c, 'Folds', 14, 50, simulate=600 if q else 10000, depth=52, holds=[True, False], label='n<=14')]
    leader.run(c, gens)
    leader.real(c, [leader.FOLD], 250 if q else 3000, [0, 1, 2, 3, 5, 8, 13, 30, 60])
    c.models(ms + leader.bulk(c, ['fold']))
