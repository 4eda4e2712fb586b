"""Reference models, written from the published formulas in plain Python.

Everything works for complex parameters, so derivatives are obtained by the
complex-step method (exact to rounding) and never by copying pylogit's
analytic expressions.
"""
import cmath
import math

H = 1e-30


def _split(p, params):
    n, s, c, b, g = p.sizes()
    return (params[:n], params[n:n + s], params[n + s:n + s + c],
            params[n + s + c:])


def _log(z):
    return cmath.log(z)


def transform(p, v, apos, shapes, intercepts):
    """h(v) of one row; apos indexes the sorted alternatives present."""
    t = p.type
    c = 0.0
    if p.cfg.get('iref') is not None:
        ref = p.cfg['iref']
        if apos != ref:
            c = intercepts[apos if apos < ref else apos - 1]
    if t == 'MNL':
        return v
    if t == 'Asym':
        ref = p.cfg['sref']
        e = [cmath.exp(s) for s in shapes]
        tot = sum(e) + 1.0
        e.insert(ref, 1.0)
        ck = e[apos] / tot
        if v.real >= 0:
            return c + _log(ck) - v * _log(ck)
        return c + _log(ck) - v * _log((1 - ck) / (p.J - 1))
    if t == 'Cloglog':
        u = cmath.exp(v)
        return c + u + _log(1 - cmath.exp(-u)) if u.real > 1e-3 else \
            c + u + _log(u - u * u / 2 + u * u * u / 6 - u ** 4 / 24)
    if t == 'Scobit':
        gam = cmath.exp(shapes[apos])
        q = gam * _log(1 + cmath.exp(-v))
        # log(exp(q) - 1)
        if q.real > 1e-3:
            return c - (q + _log(1 - cmath.exp(-q)))
        return c - _log(q + q * q / 2 + q ** 3 / 6 + q ** 4 / 24)
    if t == 'Uneven':
        gam = cmath.exp(shapes[apos])
        return (c + v + _log(1 + cmath.exp(-v)) -
                _log(1 + cmath.exp(-gam * v)))
    raise KeyError(t)


def utilities(p, params):
    """Transformed utilities per row (logit-type models)."""
    n, s, c, b = _split(p, params)
    X = p.design()
    apos = dict((q, k) for k, q in enumerate(p.pos))
    out = []
    for r, (i, a) in enumerate(p.rows):
        v = sum((x * y for x, y in zip(X[r], b)), 0j)
        out.append(transform(p, v, apos[a], s, c))
    return out


def _softmax(p, h):
    by = {}
    for r, (i, a) in enumerate(p.rows):
        by.setdefault(i, []).append(r)
    out = [0j] * len(h)
    for rows in by.values():
        m = max(h[r].real for r in rows)
        e = [cmath.exp(h[r] - m) for r in rows]
        tot = sum(e)
        for r, x in zip(rows, e):
            out[r] = x / tot
    return out


def _nested(p, params):
    n, s, c, b = _split(p, params)
    lam = [1 / (1 + cmath.exp(-x)) for x in n]
    where = {}
    for k, nest in enumerate(p.cfg['nests']):
        for q in nest:
            where[q] = k
    X = p.design()
    by = {}
    for r, (i, a) in enumerate(p.rows):
        by.setdefault(i, []).append(r)
    out = [0j] * len(p.rows)
    for rows in by.values():
        v = dict((r, sum((x * y for x, y in zip(X[r], b)), 0j))
                 for r in rows)
        nests = {}
        for r in rows:
            nests.setdefault(where[p.rows[r][1]], []).append(r)
        # log-sum per nest, computed with shifts
        lse = {}
        for k, rr in nests.items():
            m = max((v[r] / lam[k]).real for r in rr)
            lse[k] = m + _log(sum(cmath.exp(v[r] / lam[k] - m) for r in rr))
        top = max((lam[k] * lse[k]).real for k in nests)
        den = sum(cmath.exp(lam[k] * lse[k] - top) for k in nests)
        for k, rr in nests.items():
            pn = cmath.exp(lam[k] * lse[k] - top) / den
            for r in rr:
                out[r] = cmath.exp(v[r] / lam[k] - lse[k]) * pn
    return out


def kernel_probs(p, params, draws=None):
    """Mixed logit: [draw][row] conditional probabilities."""
    n, s, c, b = _split(p, params)
    X = p.design()
    K = len(X[0]) if X else 0
    draws = p.draws() if draws is None else draws
    R = len(draws[0][0])
    unit = dict((m, k) for k, m in enumerate(p.mix_order))
    mpos = p.mixing_positions()
    out = []
    for d in range(R):
        h = []
        for r, (i, a) in enumerate(p.rows):
            u = unit[p.mix[i]]
            v = sum((x * y for x, y in zip(X[r], b[:K])), 0j)
            for k, q in enumerate(mpos):
                v += X[r][q] * draws[k][u][d] * b[K + k]
            h.append(v)
        out.append(_softmax(p, h))
    return out


def probs(p, params, draws=None):
    """Row probabilities (averaged over draws for mixed logit)."""
    if p.type == 'Nested Logit':
        return _nested(p, params)
    if p.type == 'Mixed Logit':
        k = kernel_probs(p, params, draws)
        return [sum(x[r] for x in k) / len(k) for r in range(len(p.rows))]
    return _softmax(p, utilities(p, params))


def real(xs):
    return [x.real for x in xs]


def unit_logprobs(p, params, draws=None):
    """Log probability of the observed choice(s) of every unit: one per
    observation, or per mixing unit for mixed logit."""
    if p.type == 'Mixed Logit':
        k = kernel_probs(p, params, draws)
        out = []
        for m in p.mix_order:
            tot = 0j
            for x in k:
                pr = 1 + 0j
                for r, (i, a) in enumerate(p.rows):
                    if p.mix[i] == m and p.choice[r]:
                        pr *= x[r]
                tot += pr
            out.append(_log(tot / len(k)))
        return out
    pr = probs(p, params)
    out = [0j] * p.n
    for r, (i, a) in enumerate(p.rows):
        if p.choice[r]:
            out[i] += _log(pr[r])
    return out


def penalty_params(p, params):
    """Distance from the null values: nest parameters are measured on their
    natural scale from one, everything else from zero."""
    n, s, c, b = _split(p, params)
    lam = [1 / (1 + cmath.exp(-x)) - 1.0 for x in n]
    return list(lam) + list(s) + list(c) + list(b)


def loglik(p, params, weights=None, ridge=None, draws=None):
    u = unit_logprobs(p, params, draws)
    w = weights or [1.0] * len(u)
    out = sum(a * b for a, b in zip(w, u))
    if ridge is not None:
        out -= ridge * sum(x * x for x in penalty_params(p, params))
    return out


def _bump(params, k):
    q = [complex(x) for x in params]
    q[k] += 1j * H
    return q


def grad(p, params, weights=None, ridge=None, draws=None):
    return [loglik(p, _bump(params, k), weights, ridge, draws).imag / H
            for k in range(len(params))]


def scores(p, params, draws=None):
    """[unit][parameter] derivative of the unit's log probability."""
    cols = [[z.imag / H for z in unit_logprobs(p, _bump(params, k), draws)]
            for k in range(len(params))]
    return [[cols[k][u] for k in range(len(params))]
            for u in range(len(cols[0]))]


def outer_sum(vs, ws, n):
    return [[sum(w * v[i] * v[j] for v, w in zip(vs, ws)) for j in range(n)]
            for i in range(n)]


def hessian(p, params, weights=None, ridge=None, constrained=None,
            draws=None):
    K = len(params)
    w = weights or [1.0] * p.nunits()
    if p.type in ('Nested Logit', 'Mixed Logit'):
        B = outer_sum(scores(p, params, draws), w, K)
        out = [[-x for x in row] for row in B]
    else:
        dh = [[z.imag / H for z in utilities(p, _bump(params, k))]
              for k in range(K)]
        pr = real(probs(p, params))
        out = [[0.0] * K for _ in range(K)]
        by = {}
        for r, (i, a) in enumerate(p.rows):
            by.setdefault(i, []).append(r)
        for i, rows in by.items():
            mean = [sum(pr[r] * dh[k][r] for r in rows) for k in range(K)]
            for k in range(K):
                for l in range(K):
                    s = sum(pr[r] * dh[k][r] * dh[l][r] for r in rows)
                    out[k][l] -= w[i] * (s - mean[k] * mean[l])
    if ridge is not None:
        for k in range(K):
            out[k][k] -= 2 * ridge
    for c in (constrained or []):
        for k in range(K):
            out[c][k] = out[k][c] = 0.0
        out[c][c] = -1.0
    return out


def fisher(p, params, weights=None):
    w = weights or [1.0] * p.nunits()
    return outer_sum(scores(p, params), w, len(params))


def num_hessian(p, params, weights=None, ridge=None, eps=1e-4):
    """Central differences of the complex-step gradient (cross check)."""
    out = []
    for k in range(len(params)):
        a, b = list(params), list(params)
        a[k] += eps
        b[k] -= eps
        ga, gb = grad(p, a, weights, ridge), grad(p, b, weights, ridge)
        out.append([(x - y) / (2 * eps) for x, y in zip(ga, gb)])
    return out


# ----------------------------------------------------- small linear algebra
def matmul(A, B):
    return [[sum(a * B[k][j] for k, a in enumerate(row))
             for j in range(len(B[0]))] for row in A]


def inverse(A):
    n = len(A)
    M = [list(map(float, row)) + [1.0 if i == j else 0.0 for j in range(n)]
         for i, row in enumerate(A)]
    for c in range(n):
        piv = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[piv][c]) < 1e-9:
            return None
        M[c], M[piv] = M[piv], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0.0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [row[n:] for row in M]


def norm_cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def norm_sf(x):
    return 0.5 * math.erfc(x / math.sqrt(2.0))


def norm_ppf(q):
    """Inverse normal cdf by bisection on erfc (plain, slow, accurate)."""
    if q <= 0:
        return -math.inf
    if q >= 1:
        return math.inf
    lo, hi = -40.0, 40.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if norm_cdf(mid) < q:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)
