"""C10: fold completes, with exactly n-1 combinations."""
import leader


def run(c):
    q = c.quick
    ms = leader.fold_models(c, False, ['final_stored', 'split', 'size_early'])
    gens = [leader.gen(c, 'Folds', 3, 10, holds=[True, False], take=4000 if q else 20000, label='n<=3, every way of waiting'),
            leader.gen(c, 'Folds', 5, 16, inorder=True, holds=[True, False], simulate=3000 if q else 40000, depth=18, label='n<=5, in order'),
            leader.gen(c, 'Folds', 25, 80, holds=[True, False], simulate=300 if q else 5000, depth=82, label='n<=25')]
    leader.run(c, gens)
    leader.real(c, [leader.FOLD], 250 if q else 3000, [0, 1, 2, 3, 4, 5, 8, 13, 30, 100])
    c.models(ms)
