"""C12: map yields exactly one result per input, under its index, then ends."""
import leader


def run(c):
    q = c.quick
    ms = leader.map_models(c, False, ['close_early', 'end_on_close', 'end_when_drained'])
    gens = [leader.gen(c, 'Maps', 3, 8, take=3000 if q else 20000, label='n<=3'),
            leader.gen(c, 'Maps', 6, 16, holds=[True, False], simulate=2500 if q else 40000, depth=18, label='n<=6'),
            leader.gen(c, 'Maps', 40, 100, holds=[True, False], simulate=150 if q else 5000, depth=102, label='n<=40'),
            leader.gen(c, 'Sorted', 4, 14, holds=[True, False], simulate=400 if q else 5000, depth=16, label='collected in order'),
            leader.gen(c, 'Literals', 1, 3, holds=[True, False], label='literals')]
    leader.run(c, gens)
    leader.real(c, [leader.MAP, leader.MAP, dict(s=1, end='sorted'), dict(s=1, end='literal'), dict(s=2, end='literal')], 250 if q else 3000, [0, 1, 2, 3, 5, 8, 13, 30, 60])
    c.models(ms + leader.bulk(c, ['map', 'sorted']))
