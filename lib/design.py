"""Design theorems of the specification, checked by TLC."""

import tlc


def mixture(c, invs, also=()):
    """Exhaustive over all small models, exact rational arithmetic."""
    sizes = [(2, '{3,5}', 2, '{1}')]
    if c.thorough:
        sizes += [(3, '{3}', 2, '{1, 2}'), (2, '{3,5}', 3, '{2}')]
    for n, cs, k, al in sizes + list(also):
        r = tlc.run('MCMixture', 'SPECIFICATION Spec\nINVARIANTS %s\nCONSTANTS '
                    'N=%d Cs=%s K=%d Alphas=%s\n' % (' '.join(invs), n, cs, k, al),
                    workers=8)
        c.tlc(r)
        if not r.ok:
            raise RuntimeError('a design theorem fails: %s\n%s' % (r.violated, r.out[-3000:]))
    c.cov.setdefault('theorems', []).extend(invs)
