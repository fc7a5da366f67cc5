"""Goodness-of-fit with thresholds so strict (1e-10) that a correct implementation does not fail them."""
from math import log

from scipy.special import gammaincc
from scipy.stats import binom

from .sut import require

P_MIN = 1e-10


def chi2_ok(observed, expected, what, min_expected=20.0):
    """observed: dict cell -> count; expected: dict cell -> expected count (same total)."""
    for k in observed:
        require(k in expected and expected[k] > 0, lambda: f'{what}: impossible outcome {k!r} occurred')
    cells, rest_o, rest_e = [], 0.0, 0.0
    try:
        keys = sorted(expected)
    except TypeError:
        keys = list(expected)
    for k in keys:
        o, e = observed.get(k, 0), expected[k]
        if e >= min_expected:
            cells.append((o, e))
            continue
        rest_o += o               # rare cells: neighbours together
        rest_e += e
        if rest_e >= min_expected:
            cells.append((rest_o, rest_e))
            rest_o, rest_e = 0.0, 0.0
    if rest_e > 0 and cells:
        o, e = cells.pop()
        cells.append((o + rest_o, e + rest_e))
    if len(cells) < 2:
        return False
    # the smaller of Pearson's and the likelihood-ratio statistic: the first is unreliable far out in the tail of rare
    # cells with many observations, the second in that of empty ones
    x = min(sum((o - e) ** 2 / e for o, e in cells),
            2 * sum((o * log(o / e) if o else 0.0) + e - o for o, e in cells))
    p = float(gammaincc((len(cells) - 1) / 2.0, x / 2.0))
    require(p > P_MIN, lambda: f'{what}: observed frequencies differ from the specified ones (chi2={x:.1f}, '
                               f'{len(cells)} cells, p={p:.2g}): observed {dict(list(observed.items())[:12])}, '
                               f'expected { {k: round(v, 1) for k, v in list(expected.items())[:12]} }')
    return True


def binom_ok(k, n, p_lo, p_hi, what):
    """k successes of n are compatible with some probability in [p_lo, p_hi]."""
    p_lo, p_hi = max(0.0, p_lo), min(1.0, p_hi)
    low = float(binom.cdf(k, n, p_lo))        # too few even for p_lo
    high = float(binom.sf(k - 1, n, p_hi))    # too many even for p_hi
    require(low > P_MIN and high > P_MIN,
            lambda: f'{what}: {k} of {n} = {k / n:.4f}, expected probability between {p_lo:.4f} and {p_hi:.4f}')
