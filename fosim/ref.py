"""Independent reference models: what finoptions documents, written from the formulas, not from its code.

Nothing here imports finoptions.  Every function is stateless.
"""
import math
import numpy as np
from scipy.special import ndtr
from scipy.optimize import brentq

SQ2PI = math.sqrt(2 * math.pi)


def npdf(x):
    return np.exp(-0.5 * x * x) / SQ2PI


# ------------------------------------------------------------------ European
def gbs_parts(S, K, t, r, b, sigma):
    S, K, t, r, b, sigma = (np.asarray(v, dtype=float) for v in (S, K, t, r, b, sigma))
    sd = sigma * np.sqrt(t)
    d1 = (np.log(S / K) + b * t) / sd + sd / 2
    return d1, d1 - sd


def gbs(z, S, K, t, r, b, sigma):
    d1, d2 = gbs_parts(S, K, t, r, b, sigma)
    return z * (S * np.exp((b - r) * t) * ndtr(z * d1) - K * np.exp(-r * t) * ndtr(z * d2))


def gbs_greeks(z, S, K, t, r, b, sigma):
    d1, d2 = gbs_parts(S, K, t, r, b, sigma)
    c = np.exp((b - r) * t)
    df = np.exp(-r * t)
    price = gbs(z, S, K, t, r, b, sigma)
    delta = z * c * ndtr(z * d1)
    theta = (-S * c * npdf(d1) * sigma / (2 * np.sqrt(t))
             - z * (b - r) * S * c * ndtr(z * d1) - z * r * K * df * ndtr(z * d2))
    if np.all(np.asarray(b) != 0):
        rho = z * t * K * df * ndtr(z * d2)
    else:
        rho = -t * price
    return {
        "delta": delta, "theta": theta, "vega": S * c * npdf(d1) * np.sqrt(t), "rho": rho,
        "lambda": delta * S / price, "gamma": c * npdf(d1) / (S * sigma * np.sqrt(t)),
        "CofC": z * t * S * c * ndtr(z * d1),
    }


_GLX, _GLW = np.polynomial.legendre.leggauss(48)


def ms_moments(t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF):
    """variance of the log futures and its covariance with the discount bond, by Gauss-Legendre integration"""
    u = t * (_GLX + 1) / 2
    w = _GLW * t / 2
    gE = sE * (1 - np.exp(-kE * (T - u))) / kE
    gF = sF * (1 - np.exp(-kF * (T - u))) / kF
    gP = sF * (1 - np.exp(-kF * (t - u))) / kF
    vz2 = np.sum(w * (sS ** 2 + 2 * sS * (gF * rSF - gE * rSE) + gE ** 2 + gF ** 2 - 2 * gE * gF * rEF))
    vxz = np.sum(w * gP * (sS * rSF + gF - gE * rEF))
    return vz2, vxz


def ms(z, Pt, FT, K, t, T, sigmaS, sigmaE, sigmaF, rhoSE, rhoSF, rhoEF, KappaE, KappaF):
    f = np.vectorize(_ms1, otypes=[float])
    out = f(z, Pt, FT, K, t, T, sigmaS, sigmaE, sigmaF, rhoSE, rhoSF, rhoEF, KappaE, KappaF)
    return out if out.shape else float(out)


def _ms1(z, Pt, FT, K, t, T, *a):
    vz2, vxz = ms_moments(t, T, *a)
    vz = math.sqrt(vz2)
    d1 = (math.log(FT / K) - vxz + vz2 / 2) / vz
    d2 = d1 - vz
    return Pt * z * (FT * math.exp(-vxz) * ndtr(z * d1) - K * ndtr(z * d2))


# ------------------------------------------------------------------ Haug's Drezner bivariate normal
_DX = np.array([0.24840615, 0.39233107, 0.21141819, 0.03324666, 0.00082485334])
_DY = np.array([0.10024215, 0.48281397, 1.0609498, 1.7797294, 2.6697604])


def cbnd(a, b, rho):
    if abs(rho) == 1:
        rho -= 1e-12 * np.sign(rho)
    if a <= 0 and b <= 0 and rho <= 0:
        q = math.sqrt(2 * (1 - rho * rho))
        a1, b1 = a / q, b / q
        I = _DY[:, None]
        J = _DY[None, :]
        ex = np.exp(a1 * (2 * I - a1) + b1 * (2 * J - b1) + 2 * rho * (I - a1) * (J - b1))
        return math.sqrt(1 - rho * rho) / math.pi * float(_DX @ ex @ _DX)
    if a <= 0 and b >= 0 and rho >= 0:
        return float(ndtr(a)) - cbnd(a, -b, -rho)
    if a >= 0 and b <= 0 and rho >= 0:
        return float(ndtr(b)) - cbnd(-a, b, -rho)
    if a >= 0 and b >= 0 and rho <= 0:
        return float(ndtr(a)) + float(ndtr(b)) - 1 + cbnd(-a, -b, rho)
    den = math.sqrt(a * a - 2 * rho * a * b + b * b)
    r1 = (rho * a - b) * np.sign(a) / den
    r2 = (rho * b - a) * np.sign(b) / den
    return cbnd(a, 0.0, r1) + cbnd(b, 0.0, r2) - (1 - np.sign(a) * np.sign(b)) / 4


# ------------------------------------------------------------------ American approximations
def rgw(S, K, t, td, r, D, sigma):
    Sx = S - D * math.exp(-r * td)
    if D <= K * (1 - math.exp(-r * (t - td))):
        return float(gbs(1, Sx, K, t, r, r, sigma))
    if not Sx > 0:
        raise ValueError("the dividend is worth all of S")
    f = lambda I: float(gbs(1, I, K, t - td, r, r, sigma)) - I - D + K
    hi = S
    while f(hi) > 0:
        hi = hi * 2
        if hi > 1e8:
            raise ValueError("big")
    lo = 1e-8
    I = brentq(f, lo, hi, xtol=1e-10) if f(lo) > 0 else lo
    s = sigma
    a1 = (math.log(Sx / K) + (r + s * s / 2) * t) / (s * math.sqrt(t))
    a2 = a1 - s * math.sqrt(t)
    b1 = (math.log(Sx / I) + (r + s * s / 2) * td) / (s * math.sqrt(td))
    b2 = b1 - s * math.sqrt(td)
    q = -math.sqrt(td / t)
    return float(Sx * ndtr(b1) + Sx * cbnd(a1, -b1, q) - K * math.exp(-r * t) * cbnd(a2, -b2, q)
                 - (K - D) * math.exp(-r * td) * ndtr(b2))


def baw(z, S, K, t, r, b, sigma):
    eur = float(gbs(z, S, K, t, r, b, sigma))
    if z == 1 and b >= r:
        return eur
    n = 2 * b / sigma ** 2
    X = 2 * r / (sigma ** 2 * (1 - math.exp(-r * t)))
    q = (-(n - 1) + z * math.sqrt((n - 1) ** 2 + 4 * X)) / 2

    def f(s):
        d1 = float(gbs_parts(s, K, t, r, b, sigma)[0])
        return z * (s - K) - float(gbs(z, s, K, t, r, b, sigma)) - z * (1 - math.exp((b - r) * t) * float(ndtr(z * d1))) * s / q
    if z == 1:
        lo, hi = K, 2 * K
        while f(hi) < 0:
            hi = hi * 2
            if hi > 1e12 * K:
                raise ValueError("no critical price")
    else:
        lo, hi = 1e-12 * K, K
    sk = brentq(f, lo, hi, xtol=1e-12 * K, rtol=1e-14, maxiter=500)
    d1 = float(gbs_parts(sk, K, t, r, b, sigma)[0])
    aa = z * (sk / q) * (1 - math.exp((b - r) * t) * float(ndtr(z * d1)))
    if z * (sk - S) > 0:
        return eur + aa * (S / sk) ** q
    return z * (S - K)


def bs93(z, S, K, t, r, b, sigma):
    """(price, trigger)"""
    if z == -1:
        return _bs93(K, S, t, r - b, -b, sigma)
    return _bs93(S, K, t, r, b, sigma)


def _bs93(S, X, T, r, b, s):
    if b >= r:
        return float(gbs(1, S, X, T, r, b, s)), math.nan
    v = s * s
    beta = (0.5 - b / v) + math.sqrt((b / v - 0.5) ** 2 + 2 * r / v)
    binf = beta / (beta - 1) * X
    b0 = max(X, r / (r - b) * X)
    h = -(b * T + 2 * s * math.sqrt(T)) * b0 / (binf - b0)
    I = b0 + (binf - b0) * (1 - math.exp(h))
    if S >= I:
        return S - X, I
    al = (I - X) * I ** (-beta)

    def phi(g, H):
        lam = (-r + g * b + 0.5 * g * (g - 1) * v) * T
        d = -(math.log(S / H) + (b + (g - 0.5) * v) * T) / (s * math.sqrt(T))
        k = 2 * b / v + 2 * g - 1
        return math.exp(lam) * S ** g * (float(ndtr(d)) - (I / S) ** k * float(ndtr(d - 2 * math.log(I / S) / (s * math.sqrt(T)))))
    return (al * S ** beta - al * phi(beta, I) + phi(1, I) - phi(1, X) - X * phi(0, I) + X * phi(0, X)), I


# ------------------------------------------------------------------ trees
def bitree(kind, z, S, K, t, r, b, sigma, type, n):
    """list of node value arrays, step j -> values ordered from all-down to all-up"""
    dt = t / n
    if kind == "CRR":
        u = math.exp(sigma * math.sqrt(dt)); d = 1 / u
        p = (math.exp(b * dt) - d) / (u - d)
    elif kind == "JR":
        m = (b - sigma ** 2 / 2) * dt
        u = math.exp(m + sigma * math.sqrt(dt)); d = math.exp(m - sigma * math.sqrt(dt)); p = 0.5
    elif kind == "TIAN":
        M = math.exp(b * dt); V = math.exp(sigma ** 2 * dt)
        q = math.sqrt(V * V + 2 * V - 3)
        u = M * V / 2 * (V + 1 + q); d = M * V / 2 * (V + 1 - q); p = (M - d) / (u - d)
    df = math.exp(-r * dt)
    k = np.arange(n + 1)
    v = np.maximum(z * (S * u ** k * d ** (n - k) - K), 0.0)
    out = [v]
    for j in range(n - 1, -1, -1):
        v = df * (p * v[1:] + (1 - p) * v[:-1])
        if type == "american":
            k = np.arange(j + 1)
            v = np.maximum(v, z * (S * u ** k * d ** (j - k) - K))
        out.append(v)
    return out[::-1]


def tritree(z, S, K, t, r, b, sigma, type, n):
    dt = t / n
    u = math.exp(sigma * math.sqrt(2 * dt))
    e = math.exp(sigma * math.sqrt(dt / 2)); m = math.exp(b * dt / 2)
    pu = ((m - 1 / e) / (e - 1 / e)) ** 2
    pd = ((e - m) / (e - 1 / e)) ** 2
    pm = 1 - pu - pd
    df = math.exp(-r * dt)
    k = np.arange(-n, n + 1)
    v = np.maximum(z * (S * u ** k - K), 0.0)
    out = [v]
    for j in range(n - 1, -1, -1):
        v = df * (pu * v[2:] + pm * v[1:-1] + pd * v[:-2])
        if type == "american":
            v = np.maximum(v, z * (S * u ** np.arange(-j, j + 1) - K))
        out.append(v)
    return out[::-1]


def bitree_matrix(lv):
    n = len(lv) - 1
    m = np.zeros((n + 1, n + 1))
    for j, v in enumerate(lv):
        m[: j + 1, j] = v[::-1]
    return m


def tritree_matrix(lv):
    n = len(lv) - 1
    m = np.zeros((2 * n + 1, n + 1))
    for j, v in enumerate(lv):
        m[n - j: n + j + 1, j] = v[::-1]
    return m


# ------------------------------------------------------------------ two assets
def payoff2(option, z, S1, S2, Q1, Q2, K, K2):
    A, Bv = Q1 * S1, Q2 * S2
    if option == 1: x = z * (A - Bv - K)
    elif option == 2: x = z * (np.maximum(A, Bv) - K)
    elif option == 3: x = z * (np.minimum(A, Bv) - K)
    elif option == 4: x = np.maximum(z * (A - K), z * (Bv - K2))
    elif option == 5: x = np.maximum(z * (A - K), z * (K2 - Bv))
    elif option == 6: x = z * (A + Bv - K)
    elif option == 7: x = z * (Bv - A)
    elif option == 8: x = z * (A / Bv - K)
    elif option == 9: x = z * (A * Bv - K)
    return np.maximum(x, 0.0)


def rubinstein(z, S1, S2, t, r, b1, b2, sigma1, sigma2, rho, K=None, K2=None, Q1=1, Q2=1, option=1, otype="european", n=5):
    """list of (m+1, m+1) node matrices [j: asset-1 ups, i: asset-2 own ups]"""
    dt = t / n
    mu1 = b1 - sigma1 ** 2 / 2; mu2 = b2 - sigma2 ** 2 / 2
    sq = math.sqrt(dt); c = math.sqrt(1 - rho * rho); df = math.exp(-r * dt)

    def node(m):
        y1 = (2 * np.arange(m + 1) - m) * sq
        y2 = (2 * np.arange(m + 1) - m) * sq
        s1 = S1 * np.exp(mu1 * m * dt + sigma1 * y1)[:, None]
        s2 = S2 * np.exp(mu2 * m * dt + sigma2 * (rho * y1[:, None] + c * y2[None, :]))
        return payoff2(option, z, s1 + 0 * s2, s2, Q1, Q2, K, K2)
    v = node(n)
    out = [v]
    for m in range(n - 1, -1, -1):
        v = 0.25 * df * (v[:-1, :-1] + v[1:, :-1] + v[:-1, 1:] + v[1:, 1:])
        if otype == "american":
            v = np.maximum(v, node(m))
        out.append(v)
    return out[::-1]


def spread_approx(z, S1, S2, K, t, r, b1, b2, sigma1, sigma2, rho, Q1=1, Q2=1):
    f1 = Q1 * S1 * math.exp((b1 - r) * t)
    f2 = Q2 * S2 * math.exp((b2 - r) * t)
    k = K * math.exp(-r * t)
    den = f2 + k
    F = f2 / den
    s = math.sqrt(sigma1 ** 2 + (sigma2 * F) ** 2 - 2 * rho * sigma1 * sigma2 * F)
    d1 = (math.log(f1 / den) + s * s * t / 2) / (s * math.sqrt(t))
    d2 = d1 - s * math.sqrt(t)
    return float(z * (f1 * ndtr(z * d1) - den * ndtr(z * d2)))


# ------------------------------------------------------------------ Heston-Nandi
def hn_coeffs(phi, t, r, omega, alpha, beta, gstar):
    """risk-neutral generating function exponents A (without phi*log S) and B, t daily steps"""
    A = np.zeros_like(phi); Bv = np.zeros_like(phi)
    for _ in range(t):
        A, Bv = (A + phi * r + Bv * omega - 0.5 * np.log(1 - 2 * alpha * Bv),
                 phi * (gstar - 0.5) - 0.5 * gstar ** 2 + beta * Bv + 0.5 * (phi - gstar) ** 2 / (1 - 2 * alpha * Bv))
    return A, Bv


_CUT = {}


def hn(S, K, t, r, lamb, omega, alpha, beta, gamma, npan=400):
    """(call, put, delta call, gamma) by panel Gauss-Legendre integration on a damped/truncated axis"""
    g = gamma + lamb + 0.5
    h0 = (omega + alpha) / (1 - beta - alpha * g * g)
    # truncation from the mean variance over the life
    var = h0 * t
    up = min(max(60.0 / math.sqrt(var), 50.0), 1e6)
    x, w = np.polynomial.legendre.leggauss(12)
    edges = np.linspace(0, up, npan + 1)
    hw = np.diff(edges)[:, None] / 2
    phi = (edges[:-1, None] + hw * (x[None, :] + 1)).ravel()
    ww = (hw * w[None, :]).ravel()
    k = math.log(K)

    def cf(ph):
        A, Bv = hn_coeffs(ph, t, r, omega, alpha, beta, g)
        return np.exp(ph * math.log(S) + A + Bv * h0)
    i = 1j * phi
    f1 = np.exp(-i * k) * cf(i + 1) / i
    f0 = np.exp(-i * k) * cf(i) / i
    df = math.exp(-r * t)
    I1 = np.sum(ww * f1.real) / math.pi
    I0 = np.sum(ww * f0.real) / math.pi
    call = S / 2 + df * I1 - K * df * (0.5 + I0)
    d1 = np.sum(ww * (f1 * (i + 1)).real) / math.pi / S
    d0 = np.sum(ww * (f0 * i).real) / math.pi / S
    delta = 0.5 + df * d1 - K * df * d0
    g1 = np.sum(ww * (f1 * (i + 1) * i).real) / math.pi / S ** 2
    g0 = np.sum(ww * (f0 * i * (i - 1)).real) / math.pi / S ** 2
    return call, call - S + K * df, delta, df * g1 - K * df * g0


def hn_sim(z, lamb, omega, alpha, beta, gamma, rf):
    """recursion of the Heston-Nandi process on innovations z -> (x, h)"""
    h = (omega + alpha) / (1 - alpha * gamma * gamma - beta)
    xs, hs = [], []
    for zi in z:
        zi = float(zi)
        xs.append(rf + lamb * h + math.sqrt(h) * zi); hs.append(h)
        h = omega + alpha * (zi - gamma * math.sqrt(h)) ** 2 + beta * h
    return np.array(xs), np.array(hs)


def hn_filter(x, lamb, omega, alpha, beta, gamma, rf):
    """(llh, z, h): inverse of hn_sim; nan once the variance is not positive"""
    h = (omega + alpha) / (1 - alpha * gamma * gamma - beta)
    zs, hs = [], []
    for xi in x:
        if not h > 0:
            return math.nan, None, None
        s = math.sqrt(h)
        z = (float(xi) - rf - lamb * h) / s
        zs.append(z); hs.append(h)
        h = omega + alpha * (z - gamma * s) ** 2 + beta * h
    zs = np.array(zs); hs = np.array(hs)
    return float(np.sum(0.5 * zs ** 2 + 0.5 * math.log(2 * math.pi) + 0.5 * np.log(hs))), zs, hs


# ------------------------------------------------------------------ Monte Carlo accounting
def mc_effective(eps, antithetic, standardization):
    e = np.array(eps, dtype=float)
    if antithetic:
        e = np.vstack([e, -e])
    if standardization:
        m = e.sum() / e.size
        s = math.sqrt(((e - m) ** 2).sum() / e.size)
        with np.errstate(all="ignore"):
            e = (e - m) / s
    return e


def wiener(e, sigma, dt, b):
    return (b - sigma * sigma / 2) * dt + sigma * math.sqrt(dt) * e


def pay_vanilla(z, path, S, K, t, r):
    ST = S * np.exp(path.sum(axis=1))
    return math.exp(-r * t) * np.maximum(z * (ST - K), 0)


def pay_asian(z, path, S, K, t, r):
    Sm = S * np.exp(np.cumsum(path, axis=1))
    return math.exp(-r * t) * np.maximum(z * (Sm.sum(axis=1) / Sm.shape[1] - K), 0)
