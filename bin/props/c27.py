"""C27: a chain of directives equals its sequential evaluation."""
import leader


def run(c):
    q = c.quick
    ms = leader.fold_models(c, True, ['swapped']) + leader.map_models(c, True, ['close_early'])
    gens = [leader.gen(c, 'Chains', 2, 9, take=3500 if q else 30000, label='n<=2'),
            leader.gen(c, 'Chains', 5, 30, holds=[True, False], simulate=2000 if q else 40000, depth=32, label='n<=5'),
            leader.gen(c, 'Chains', 20, 120, holds=[True, False], simulate=100 if q else 3000, depth=122, label='n<=20'),
            leader.gen(c, 'Chains', 4, 22, extra=leader.ERRS, maxextra=2, holds=[True, False], simulate=2000 if q else 40000, depth=24, label='n<=4, failures')]
    leader.run(c, gens)
    leader.real(c, leader.CHAINS, 250 if q else 3000, [0, 1, 2, 3, 5, 8, 13, 30, 50])
    c.models(ms + leader.bulk(c, ['mapfold', 'sorted']))
