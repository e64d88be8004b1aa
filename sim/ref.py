"""Reference models: small, sequential, written from the properties."""
import functools
import itertools
import math

import numpy as np


def combos(cs):
    """Parent configurations, the first parent varying fastest."""
    return [tuple(reversed(c)) for c in itertools.product(*[range(k) for k in reversed(cs)])]


def stats(ds, child, parents):
    """{config: (T, M)} by replaying the trajectories row by row; M without the diagonal."""
    nm, cs = ds["names"], ds["cards"]
    c = nm.index(child)
    ps = sorted(nm.index(p) for p in parents)
    k = cs[c]
    out = {cfg: ([0.0] * k, [[0] * k for _ in range(k)]) for cfg in combos([cs[p] for p in ps])}
    for t in ds["trajs"]:
        for a, b in zip(t, t[1:]):
            cfg = tuple(a[1 + p] for p in ps)
            T, M = out[cfg]
            s, s2 = a[1 + c], b[1 + c]
            T[s] += float(b[0]) - float(a[0])
            if s2 >= 0 and s2 != s:
                M[s][s2] += 1
    return out


def cim(T, M):
    k = len(T)
    return [[((sum(M[i]) * -1 if i == j else M[i][j]) + 1) / (T[i] + 1) for j in range(k)] for i in range(k)]


def fam_score(st, tau, alpha):
    tot = 0.0
    for T, M in st.values():
        k = len(T)
        axx = alpha / (k - 1)
        for i in range(k):
            mx = sum(M[i])
            tot += math.lgamma(alpha + mx + 1) + (alpha + 1) * math.log(tau)
            tot -= math.lgamma(alpha + 1) + (alpha + mx + 1) * math.log(tau + T[i])
            tot += math.lgamma(alpha) - math.lgamma(alpha + mx)
            for j in range(k):
                if j != i:
                    tot += math.lgamma(axx + M[i][j]) - math.lgamma(axx)
    return tot


class Ambiguous(Exception):
    """A test statistic sits on its threshold to within rounding."""


@functools.lru_cache(maxsize=200000)
def _f(p, a, b):
    from scipy.stats import f as f_dist
    return float(f_dist.ppf(p, a, b))


@functools.lru_cache(maxsize=10000)
def _chi(p, k):
    from scipy.stats import chi2
    return float(chi2.ppf(p, k))


def _gt(a, b):
    """a > b, NaN compares false."""
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a > b
    if abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)):
        raise Ambiguous()
    return a > b


def pair_test(s1, s2, exp_alfa, chi_alfa):
    """Both tests accept that the statistics agree in every state."""
    (T1, M1), (T2, M2) = s1, s2
    k = len(T1)
    with np.errstate(all="ignore"):
        r1 = np.array([sum(x) for x in M1], dtype=float)
        r2 = np.array([sum(x) for x in M2], dtype=float)
        for i in range(k):
            q1 = (1.0 - r1[i]) / (T1[i] + 1.0)
            q2 = (1.0 - r2[i]) / (T2[i] + 1.0)
            F = float(np.float64(q2) / np.float64(q1))
            if _gt(_f(exp_alfa / 2, r1[i], r2[i]), F) or _gt(F, _f(1 - exp_alfa / 2, r1[i], r2[i])):
                return False
        q = _chi(1 - chi_alfa, k - 1)
        for i in range(k):
            K, L = np.sqrt(r1[i] / r2[i]), np.sqrt(r2[i] / r1[i])
            chi = np.float64(0.0)
            for j in range(k):
                if j != i and M1[i][j] + M2[i][j] > 0:      # what never occurs tells nothing
                    chi = chi + (K * np.float64(M2[i][j]) - L * np.float64(M1[i][j])) ** 2 / \
                        np.float64(M1[i][j] + M2[i][j])
            if _gt(float(chi), q):
                return False
    return True


def ctpc_child(ds, child, exp_alfa, chi_alfa, known, threshold, probes=None, trace=None):
    nm, cs = ds["names"], ds["cards"]
    k = cs[nm.index(child)]
    cache = {}

    def st(ps):
        key = tuple(sorted(ps, key=nm.index))
        if key not in cache:
            cache[key] = stats(ds, child, key)
        return cache[key]
    u = [x for x in nm if x != child]
    fixed = {a for a, b in known if b == child}

    def note(w):
        if probes is not None:
            probes[w] = probes.get(w, 0) + 1

    def independent(tp, S):
        s1, s2 = st(S), st(list(S) + [tp])
        order = sorted(list(S) + [tp], key=nm.index)
        pos = order.index(tp)
        thumb = (k - 1) ** 2 * cs[nm.index(tp)]
        for x in S:
            thumb *= cs[nm.index(x)]
        for cfg, a in s1.items():
            tot = sum(map(sum, a[1]))
            for v in range(cs[nm.index(tp)]):
                if k > 2 and tot / thumb < threshold:
                    fixed.add(tp)
                    note("thumb")
                    return False
                b = s2[cfg[:pos] + (v,) + cfg[pos:]]
                if not pair_test(a, b, exp_alfa, chi_alfa):
                    return False
        return True

    def least(tp, S):
        thumb = (k - 1) ** 2 * cs[nm.index(tp)]
        for x in S:
            thumb *= cs[nm.index(x)]
        return min(sum(map(sum, a[1])) for a in st(list(S)).values()) / thumb
    b = 0
    while b < len(u):
        i = 0
        while i < len(u):
            tp = u[i]
            removed = False
            if tp not in fixed:
                for S in itertools.combinations([x for x in u if x != tp], b):
                    note("tests_level%d" % b)
                    if independent(tp, list(S)):
                        u.remove(tp)
                        removed = True
                        note("removed_level%d" % b)
                        if trace is not None and k > 2:
                            trace.append((b, least(tp, S)))
                        break
            if not removed:
                i += 1
        b += 1
    return {(p, child) for p in u}


def ctpc(ds, exp_alfa, chi_alfa, known=(), threshold=25, probes=None, trace=None):
    out = set()
    for c in ds["names"]:
        out |= ctpc_child(ds, c, exp_alfa, chi_alfa, known, threshold, probes, trace)
    return out
