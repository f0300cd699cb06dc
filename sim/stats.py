"""Goodness-of-fit tests used as oracles for random results."""
import math

import torch


def chi2_sf(x, df):
    if df <= 0:
        return 1.0
    return float(
        torch.special.gammaincc(
            torch.tensor(df / 2.0, dtype=torch.float64),
            torch.tensor(max(x, 0.0) / 2.0, dtype=torch.float64),
        )
    )


def pool(obs, exp, least=8.0):
    """Merge cells of small expectation (smallest first)."""
    order = torch.argsort(exp)
    o, e = obs[order].tolist(), exp[order].tolist()
    po, pe = [], []
    co = ce = 0.0
    for a, b in zip(o, e):
        co += a
        ce += b
        if ce >= least:
            po.append(co)
            pe.append(ce)
            co = ce = 0.0
    if ce > 0 or co > 0:
        if pe:
            po[-1] += co
            pe[-1] += ce
        else:
            po.append(co)
            pe.append(ce)
    return po, pe


def gof(counts, probs):
    """p-value of counts under probs (1-d float64 tensors)."""
    n = float(counts.sum())
    if n == 0:
        return 1.0
    if bool((counts[probs <= 0] > 0).any()):
        return 0.0
    po, pe = pool(counts.double(), probs.double() * n)
    if len(po) < 2:
        return 1.0
    x = sum((a - b) ** 2 / b for a, b in zip(po, pe))
    return chi2_sf(x, len(po) - 1)


def independent(i, j, pi, pj):
    """p-value that index sequences i, j (long tensors) are drawn from pi x pj."""
    S, T = len(pi), len(pj)
    joint = torch.bincount(i * T + j, minlength=S * T).double()
    p1 = gof(joint, (pi[:, None] * pj[None, :]).flatten())
    # equality has its own test: it sees copies even among many structures
    n = len(i)
    p2 = 1.0
    if S == T:
        q = float((pi * pj).sum())
        hits = float((i == j).sum())
        if 0 < q < 1 and n * q > 8 and n * (1 - q) > 8:
            z = (hits - n * q) / math.sqrt(n * q * (1 - q))
            p2 = math.erfc(abs(z) / math.sqrt(2))
    return min(1.0, 2 * min(p1, p2))


def binomials(counts, n, probs):
    """p-value that every count is binomial(n, prob), over all counts (Bonferroni)."""
    if bool((counts[probs < 1e-12] > 0).any()):
        return 0.0
    use = (probs * n > 12) & ((1 - probs) * n > 12)
    if not bool(use.any()):
        return 1.0
    c, p = counts[use].double(), probs[use]
    z = ((c - n * p) / (n * p * (1 - p)).sqrt()).abs()
    return min(1.0, int(use.sum()) * math.erfc(float(z.max()) / math.sqrt(2)))


def poisson_tail(hits, mean):
    """P(at least `hits`) for a Poisson count."""
    if hits == 0:
        return 1.0
    return float(
        torch.special.gammainc(
            torch.tensor(float(hits), dtype=torch.float64),
            torch.tensor(max(mean, 1e-300), dtype=torch.float64),
        )
    )


def correlation(a, b):
    """p-value that two sequences are uncorrelated (normal approximation)."""
    a, b = a - a.mean(), b - b.mean()
    s = float((a.pow(2).sum() * b.pow(2).sum()).sqrt())
    if s < 1e-9:
        return 1.0
    z = float((a * b).sum()) / s * math.sqrt(len(a))
    return math.erfc(abs(z) / math.sqrt(2))
