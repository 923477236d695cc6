"""C02 The dataset is what was observed; rejected updates do nothing.

CrossCat.tla Admissible/DataEffect/Differ clauses tagged C02."""
import crosscheck as cc
import py2load


def run(c):
    py2load.install()
    cc.theorems(c, c.pick(['teeth'], ['teeth', 'rows', 'both', 'teeth-views']))
    ops = ('incorporate', 'unincorporate', 'force_cell', 'incorporate_dim',
           'unincorporate_dim', 'update_cctype')
    cc.replay(c, 'views', ops, c.pick(4000, None))
    if c.thorough:
        cc.replay(c, 'rows', ops)
    cc.histories(c, cc.profile(2, c.pick(240, 3500), c.pick(14, 25), {
        'invalid': 6, 'incorporate': 2, 'force_cell': 2, 'unincorporate': 1.5}, c.seed))
