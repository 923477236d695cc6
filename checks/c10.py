"""C10 Queries never change the model.

Every query of a history is a step whose pre and post state have to be the
same model (CrossCat.tla Differ), whether it answers or raises."""
import crosscheck as cc
import py2load


def run(c):
    py2load.install()
    cc.theorems(c, c.pick(['teeth'], ['teeth', 'teeth-views']))
    cc.histories(c, cc.profile(10, c.pick(200, 3000), c.pick(22, 40), {
        'query': 30, 'transition': 2}, c.seed))
