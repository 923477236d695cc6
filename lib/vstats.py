"""Statistical comparison of samples with the distribution the specification
states.  A deviation is reported only below ALPHA, far below what the number
of tests in a run could produce by chance."""

import math

import numpy as np
from scipy import integrate
from scipy import stats

ALPHA = 1e-10


def gtest(counts, probs, min_exp=5.):
    """p-value of observed counts against exact probabilities.

    counts: dict outcome -> n; probs: dict outcome -> p (summing to <= 1; the
    remainder is one more cell).  An outcome of probability 0 is a p of 0."""
    n = float(sum(counts.values()))
    if n == 0:
        return 1.
    exp, obs = [], []
    rest_p, rest_o = 0., 0.
    tot = 0.
    for k, p in probs.items():
        o = counts.get(k, 0)
        tot += p
        if p <= 0:
            if o:
                return 0.
            continue
        if p * n >= min_exp:
            exp.append(p * n)
            obs.append(o)
        else:
            rest_p += p
            rest_o += o
    rest_p += max(0., 1. - tot)
    rest_o += sum(o for k, o in counts.items() if k not in probs)
    # the pooled remainder: exact binomial tail instead of chi-square
    p_rest = 1.
    if rest_p * n >= min_exp:
        exp.append(rest_p * n)
        obs.append(rest_o)
    elif rest_o:
        p_rest = float(stats.binom.sf(rest_o - 1, int(n), min(1., max(rest_p, 1e-12))))
    if len(exp) < 2:
        return p_rest
    exp, obs = np.array(exp), np.array(obs, dtype=float)
    # the likelihood ratio: unlike Pearson's statistic its far tail is not
    # lighter than that of the exact test
    with np.errstate(divide='ignore', invalid='ignore'):
        x2 = float(2 * np.sum(np.where(obs > 0, obs * np.log(obs / exp), 0.) - (obs - exp)))
    x2 = max(x2, 0.)
    return min(1., 2 * min(float(stats.chi2.sf(x2, len(exp) - 1)), p_rest))


def bin_masses(pdf, edges, lo, hi):
    """Integral of pdf over the bins cut by edges inside (lo, hi)."""
    cuts = [lo] + list(edges) + [hi]
    out = []
    for a, b in zip(cuts[:-1], cuts[1:]):
        v, _e = integrate.quad(pdf, a, b, limit=200)
        out.append(v)
    return np.array(out)


def continuous(samples, pdf, lo, hi, bins=12, train=200):
    """p-value of real samples against a density (binned by the first few).

    Ties between samples (repeated draws) are left to the caller."""
    samples = np.asarray(samples, dtype=float)
    tr, te = samples[:train], samples[train:]
    qs = np.quantile(tr, np.linspace(0, 1, bins + 1)[1:-1])
    qs = np.unique(qs)
    qs = qs[(qs > lo) & (qs < hi)]
    mass = bin_masses(pdf, qs, lo, hi)
    if abs(mass.sum() - 1.) > 1e-3:
        raise ValueError('density integrates to %r' % mass.sum())
    idx = np.searchsorted(qs, te, side='right')
    counts = {i: int((idx == i).sum()) for i in range(len(qs) + 1)}
    return gtest(counts, {i: float(m) for i, m in enumerate(mass / mass.sum())})


def independent(pairs):
    """p-value for independence of consecutive categorical outcomes."""
    tab = {}
    for a, b in pairs:
        tab[(a, b)] = tab.get((a, b), 0) + 1
    ra = sorted(set(a for a, _ in tab), key=repr)
    rb = sorted(set(b for _, b in tab), key=repr)
    m = np.array([[tab.get((a, b), 0) for b in rb] for a in ra], dtype=float)
    while m.shape[0] > 1 and m.sum(1).min() < 25:
        i = int(m.sum(1).argmin())
        j = (i + 1) % m.shape[0]
        m[j] += m[i]
        m = np.delete(m, i, 0)
    while m.shape[1] > 1 and m.sum(0).min() < 25:
        i = int(m.sum(0).argmin())
        j = (i + 1) % m.shape[1]
        m[:, j] += m[:, i]
        m = np.delete(m, i, 1)
    if min(m.shape) < 2:
        return 1.
    return float(stats.chi2_contingency(m, correction=False, lambda_='log-likelihood')[1])


def nan(x):
    return isinstance(x, float) and math.isnan(x)
