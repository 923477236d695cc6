"""C01 Partitions and sufficient statistics stay coherent.

CrossCat.tla Coherent/Kept/Effect clauses tagged C01, over histories of the
real State; MCCrossCat.tla's edges replayed into it."""
import crosscheck as cc
import py2load


def run(c):
    py2load.install()
    cc.theorems(c, c.pick(['teeth', 'views'], ['teeth', 'views', 'rows', 'both', 'teeth-views', 'constraints']))
    ops = ('incorporate', 'unincorporate', 'force_cell', 'incorporate_dim',
           'unincorporate_dim', 'update_cctype')
    cc.replay(c, 'views', ops, c.pick(2500, None))
    if c.thorough:
        cc.replay(c, 'rows', ops)
        cc.replay(c, 'both', ops, 30000)
    cc.histories(c, cc.profile(1, c.pick(200, 3000), c.pick(14, 25), {
        'transition': 2, 'direct': 2, 'incorporate': 2, 'force_cell': 2, 'invalid': .3}, c.seed))
