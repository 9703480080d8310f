"""Mean and variance of counted events follow each process of a detection chain."""
import numpy as np
import uncertainties
import uncertainties.umath
from lib.vp import Group, Discard
from spectrocrunch.math import noisepropagation as noise
from spectrocrunch.detectors import area
from spectrocrunch.materials import lenses, scintillators
from spectrocrunch.simulation import calcnoise
from spectrocrunch.sources import emspectrum
from spectrocrunch.utils import units, lut

ID = "C19"
LEVEL = "exploration"
RULE = (
    "random means and variances (scalars, lists, arrays, quantities) through repeat, compound, sums, "
    "differences, products, ratios and logarithms and back, against closed formulas and against simulated "
    "events; area detectors, lenses and scintillators with random characteristics, numbers of photons, "
    "energies, frames and exposure times, with and without uncertainties, forward and backward"
)


def close(c, got, exp, sig, rtol=1e-7, atol=1e-12, **info):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    c.require(
        got.shape == exp.shape and np.allclose(got, exp, rtol=rtol, atol=atol),
        sig, lambda: "{}\n got {}\n exp {}".format(info, got, exp),
    )


def moments(c, X, E, V, sig, rtol=1e-6, **info):
    close(c, noise.E(X), E, sig + ":mean", rtol, **info)
    scale = np.max(np.abs(V)) if np.size(V) else 1
    close(c, noise.VAR(X), V, sig + ":variance", rtol, atol=1e-9 * scale + 1e-12, **info)
    c.event("random_variables")


def variable(c, rng, lo=1.0, hi=1e4, shape=None):
    """(random variable, mean, variance)"""
    if shape is None:
        shape = rng.choice([(), (), (2,), (3,), (2, 3)])
    m = c.np.uniform(lo, hi, shape)
    s = m * c.np.uniform(0.01, 0.3, shape)
    if not shape:
        m, s = float(m), float(s)
    return noise.randomvariable(m, s), m, s * s


def algebra(c, rng):
    X, EX, VX = variable(c, rng)
    shape = np.shape(EX)
    moments(c, X, EX, VX, "randomvariable")
    for f, exp in ((noise.S, np.sqrt(VX)), (noise.SNR, EX / np.sqrt(VX)), (noise.NSR, np.sqrt(VX) / EX), (noise.RVAR, VX / EX**2)):
        close(c, f(X), exp, f.__name__)
    q = units.Quantity(X, "mm")
    e, s = noise.E(q), noise.S(q)
    c.require(str(e.units) == "millimeter" and str(s.units) == "millimeter", "quantity:units", lambda: (e, s))
    close(c, e.magnitude, EX, "quantity:E")
    close(c, s.magnitude, np.sqrt(VX), "quantity:S")
    close(c, noise.E(EX), EX, "certain:E")
    close(c, noise.VAR(EX), np.zeros(shape), "certain:VAR")
    p = c.np.uniform(0, 1, shape) if shape else rng.random()
    moments(c, noise.bernouilli(p), p, p * (1 - p), "bernouilli")
    moments(c, noise.poisson(EX), EX, EX, "poisson")
    # the sum of a fixed number
    n = rng.choice([1, 2, 7, 100, 2.5])
    Y = noise.repeat(n, X)
    moments(c, Y, n * EX, n * VX, "repeat")
    moments(c, noise.repeat(n, Y, forward=False), EX, VX, "repeat:back")
    # the sum of a random number
    k = rng.choice(["same", "scalar"])
    N, EN, VN = variable(c, rng, 10, 1e5, shape if k == "same" else ())
    Y = noise.compound(N, X)
    moments(c, Y, EN * EX, VN * EX**2 + VX * EN, "compound", EN=EN, EX=EX)
    B = noise.compound(Y, X, forward=False)
    if VN.min() if np.ndim(VN) else VN:
        EB = np.broadcast_to(EN, np.shape(EN * EX)) * 1.0
        close(c, noise.E(B), EB, "compound:back:mean")
        VB = np.broadcast_to(VN, EB.shape)
        tol = 1e-9 * np.max((VN * EX**2 + VX * EN) / np.square(EX))
        close(c, noise.VAR(B), VB, "compound:back:variance", rtol=1e-4, atol=tol)
    # constants and order
    moments(c, noise.compound(EN, X), EN * EX, VX * EN, "compound:fixed")
    moments(c, noise.compound(N, 3), 3 * EN, 9 * VN, "compound:constant")
    G = noise.bernouilli(rng.uniform(0.1, 1))
    EG = noise.E(G)
    Z = noise.compound(noise.compound(noise.poisson(EN), G), G)
    moments(c, Z, EN * EG**2, EN * EG**2, "binomial_selection")
    # inverse operations on independent variables
    Y, EY, VY = variable(c, rng, 1, 100, shape)
    Y2 = noise.randomvariable(EY, np.sqrt(VY))
    for name, z, back in (
        ("add", X + Y, noise.reverse_add), ("sub", X - Y, noise.reverse_sub),
        ("mult", X * Y, noise.reverse_mult), ("div", X / Y, noise.reverse_div),
    ):
        r = back(z, Y2)
        close(c, noise.E(r), EX, "reverse_{}:mean".format(name))
        VZ = noise.VAR(z)
        amp = {"add": VZ, "sub": VZ, "mult": VZ / np.square(EY), "div": VZ * np.square(EY)}[name]
        close(c, noise.VAR(r), VX, "reverse_{}:variance".format(name), rtol=1e-5, atol=1e-9 * np.max(amp))
        c.event("reversed")
    L = uncertainties.unumpy.log(X) if shape else uncertainties.umath.log(X)
    moments(c, noise.reverse_log(L), EX, VX, "reverse_log")
    c.key(EX, VX, EN, VN, n)


def simulated(c, rng):
    """moments of simulated events"""
    r = c.np
    n = 200000
    lam = rng.uniform(5, 60)
    EN = noise.poisson(lam)
    kind = rng.choice(["bernouilli", "poisson", "chain", "repeat", "area"])
    N = r.poisson(lam, n)
    if kind == "bernouilli":
        p = rng.uniform(0.1, 0.9)
        ev = r.binomial(N, p)
        X = noise.compound(EN, noise.bernouilli(p))
    elif kind == "poisson":
        g = rng.uniform(0.2, 20)
        ev = r.poisson(N * g)
        X = noise.compound(EN, noise.poisson(g))
    elif kind == "chain":
        p, g, q = rng.uniform(0.2, 0.9), rng.uniform(1, 20), rng.uniform(0.2, 0.9)
        ev = r.binomial(r.poisson(r.binomial(N, p) * g), q)
        X = noise.compound(noise.compound(noise.compound(EN, noise.bernouilli(p)), noise.poisson(g)), noise.bernouilli(q))
    elif kind == "repeat":
        k = rng.randint(2, 8)
        ev = r.poisson(lam, (k, n)).sum(axis=0)
        X = noise.repeat(k, EN)
    else:
        det = area.AreaDetector(etoDU=rng.uniform(0.5, 3), qe=lut.LUT(default=rng.uniform(0.2, 0.9)), DUoffset=rng.uniform(0, 100),
                                darkcurrent=rng.uniform(1, 40), readoutnoise=rng.uniform(0.5, 5))
        t, k = rng.uniform(0.05, 4), rng.randint(1, 3)
        spec = emspectrum.Discrete(units.Quantity([500], "nm"), [1])
        X = det.propagate(EN, spec, tframe=t, nframe=k)
        qe = det.qe.default.magnitude
        ev = 0
        for _ in range(k):
            e = r.poisson(r.poisson(lam, n) * qe) + r.poisson(det.darkcurrent * t, n) + r.normal(0, det.readoutnoise, n)
            ev = ev + e * det.etoDU + det.DUoffset
    E, V = float(noise.E(X)), float(noise.VAR(X))
    m, v = ev.mean(), ev.var()
    k4 = ((ev - m) ** 4).mean()
    c.require(abs(m - E) < 7 * np.sqrt(v / n) + 1e-9, kind + ":simulated_mean", lambda: (kind, m, E))
    c.require(abs(v - V) < 7 * np.sqrt(max(k4 - v * v, 0) / n) + 1e-9, kind + ":simulated_variance", lambda: (kind, v, V))
    c.event("simulated_events", n)
    c.key(kind, lam, E, V)


class Glass:
    def __init__(self, c, n):
        self.att = c.np.uniform(0, 0.2, n)

    def linear_attenuation_coefficient(self, lines):
        assert len(lines) == len(self.att)
        return self.att


def photons(c, rng, nonzero=True):
    """(numbers with uncertainty, means, variances)"""
    shape = rng.choice([(), (), (1,), (4,)])
    m = c.np.uniform(100, 1e6, shape)
    f = rng.uniform(0.9, 3)
    if not shape:
        m = float(m)
    return noise.randomvariable(m, np.sqrt(m * f)), m, m * f


def grid(N, gain):
    """numbers of photons along the last dimension, energies along the first one"""
    if np.ndim(N) == 0 and np.ndim(gain) == 0:
        return N, gain
    n, g = np.atleast_1d(N), np.atleast_1d(gain)
    return np.broadcast_to(n, (g.size, n.size)), np.broadcast_to(g[:, None], (g.size, n.size))


def spectrum(c, rng):
    n = rng.randint(1, 3)
    lines = c.np.permutation(np.linspace(400, 700, 7))[:n]
    inten = c.np.uniform(0.1, 3, n)
    s = emspectrum.Discrete(units.Quantity(lines, "nm"), inten)
    order = np.argsort(lines)
    return s, lines[order], (inten / inten.sum())[order]


def areadet(c, rng):
    s, lines, ratios = spectrum(c, rng)
    if rng.random() < 0.4:
        q = rng.uniform(0.1, 1)
        qe = lut.LUT(default=q)
    else:
        x = np.sort(c.np.uniform(300, 800, 4))
        y = c.np.uniform(0.1, 0.9, 4)
        qe = lut.LUT(x=units.Quantity(x, "nm"), y=y)
        q = (ratios * np.interp(lines, x, y)).sum()
    a = dict(etoDU=rng.uniform(0.1, 4), DUoffset=rng.uniform(0, 200), darkcurrent=rng.uniform(0, 50), readoutnoise=rng.uniform(0, 30))
    det = area.AreaDetector(qe=qe, **a)
    N, EN, VN = photons(c, rng)
    t, n = rng.uniform(0.01, 5), rng.randint(1, 200)
    En, _ = grid(EN, q) if np.ndim(EN) else (EN, q)
    Vn = grid(VN, q)[0] if np.ndim(EN) else VN
    kw = dict(tframe=t, nframe=n)
    E = n * ((En * q + a["darkcurrent"] * t) * a["etoDU"] + a["DUoffset"])
    V = n * a["etoDU"] ** 2 * (Vn * q * q + En * q + a["darkcurrent"] * t + a["readoutnoise"] ** 2)
    D = det.propagate(N, s, **kw)
    moments(c, D, E, V, "area", det=a, q=q, kw=kw)
    B = det.propagate(D, s, forward=False, **kw)
    close(c, noise.E(B), En, "area:back:mean", rtol=1e-6)
    close(c, noise.VAR(B), Vn, "area:back:variance", rtol=1e-4, atol=1e-8 * np.max(V / n / (a["etoDU"] * q) ** 2), det=a, q=q, kw=kw)
    P = det.propagate(N, s, poissonapprox=True, **kw)
    moments(c, P, E, n * a["etoDU"] ** 2 * (En * q + a["darkcurrent"] * t + a["readoutnoise"] ** 2), "area:poisson", det=a, q=q)
    # without uncertainties
    D = det.propagate(EN, s, **kw)
    close(c, D, E, "area:certain")
    close(c, det.propagate(D, s, forward=False, **kw), En, "area:certain:back", rtol=1e-6, atol=1e-6 * np.max(En))
    # no photons
    det = area.AreaDetector(qe=lut.LUT(default=0.5), **a)
    D0 = det.propagate(0, emspectrum.Dark(), **kw)
    close(c, D0, n * (a["darkcurrent"] * t * a["etoDU"] + a["DUoffset"]), "area:dark")
    c.event("detectors")
    c.key(a, q, EN, t, n)


def lens(c, rng):
    s, lines, ratios = spectrum(c, rng)
    glass = Glass(c, len(lines))
    M, NA, th, cor = rng.uniform(1, 50), rng.uniform(0.05, 0.9), rng.uniform(0, 10), rng.choice([1, 0.1])
    ob = lenses.Lens(magnification=M, NA=NA, thickness=th, material=glass, lightyieldcor=cor)
    T = (ratios * np.exp(-glass.att * th)).sum()
    close(c, ob.transmission(s), T, "lens:transmission")
    src = rng.choice(["point", "lambertian", "other", None])
    # F-number: 2.F# = 1/tan(asin(NA))
    F = 0.5 / np.tan(np.arcsin(NA))
    y = {"lambertian": M**2 / (4 * F**2 * (1 + M) ** 2 + M**2), "other": NA**2 / 4}.get(src, (M / (4 * F * (1 + M))) ** 2) * cor
    kw = {} if src is None else {"source": src}
    close(c, ob.lightyield(1.8, **kw), y, "lens:lightyield", src=src)
    N, EN, VN = photons(c, rng)
    En = grid(EN, T)[0] if np.ndim(EN) else EN
    Vn = grid(VN, T)[0] if np.ndim(EN) else VN
    D = ob.propagate(N, s, nrefrac=1.8, **kw)
    E1, V1 = En * T, Vn * T * T + En * T * (1 - T)
    E, V = E1 * y, V1 * y * y + E1 * y
    moments(c, D, E, V, "lens")
    B = ob.propagate(D, s, nrefrac=1.8, forward=False, **kw)
    close(c, noise.E(B), En, "lens:back:mean", rtol=1e-6)
    close(c, noise.VAR(B), Vn, "lens:back:variance", rtol=1e-3, atol=1e-7 * np.max(V) / (T * y) ** 2)
    D = ob.propagate(EN, s, nrefrac=1.8, **kw)
    close(c, D, E, "lens:certain")
    close(c, ob.propagate(D, s, nrefrac=1.8, forward=False, **kw), En, "lens:certain:back")
    c.event("lenses")
    c.key(M, NA, th, lines, EN, src)


_MAT = {}


def scint(c, rng):
    if not _MAT:
        for name in ("LSO ID21", "GGG ID21"):
            _MAT[name] = scintillators.factory(name).material
    name = rng.choice(sorted(_MAT))
    th = rng.uniform(1, 50)
    ob = scintillators.factory(name, thickness=th)
    if rng.random() < 0.5:
        e = rng.uniform(2, 30)
    else:
        e = np.sort(c.np.uniform(2, 30, rng.randint(1, 4)))
    mat = ob.material
    mu = mat.mass_att_coeff(e)
    ma = mat.mass_abs_coeff(e)
    T = np.exp(-mat.density * th * 1e-4 * np.asarray(mu))
    close(c, ob.transmission(e), T, "scint:transmission")
    close(c, ob.attenuation(e), 1 - T, "scint:attenuation")
    p = 1 - np.exp(-mat.density * th * 1e-4 * np.asarray(ma))
    close(c, ob.absorption(e), p, "scint:absorption")
    g = e * ob.nvisperkeV
    c.require(ob.nvisperkeV == {"LSO ID21": 40, "GGG ID21": 32}[name], "scint:yield", lambda: ob.nvisperkeV)
    N, EN, VN = photons(c, rng)
    En, P = grid(EN, p)
    Vn, G = grid(VN, g)
    D = ob.propagate(N, e)
    E1, V1 = En * P, Vn * P * P + En * P * (1 - P)
    moments(c, D, E1 * G, V1 * G * G + E1 * G, "scint", e=e, EN=EN)
    B = ob.propagate(D, e, forward=False)
    close(c, noise.E(B), En, "scint:back:mean")
    close(c, noise.VAR(B), Vn, "scint:back:variance", rtol=1e-3, atol=1e-7 * np.max((V1 * G * G + E1 * G) / (P * G) ** 2))
    D = ob.propagate(EN, e)
    close(c, D, E1 * G, "scint:certain")
    close(c, ob.propagate(D, e, forward=False), En, "scint:certain:back")
    c.event("scintillators")
    c.key(name, th, e, EN)


def radiograph(c, rng):
    """transmission and absorbance from images in DU"""
    T = c.np.uniform(0.05, 1, (3, 2))
    flux = rng.uniform(1e4, 1e6)
    kw = dict(tframe_data=rng.uniform(0.05, 1), nframe_data=rng.randint(1, 50), tframe_flat=rng.uniform(0.05, 1), nframe_flat=rng.randint(1, 50), nframe_dark=rng.randint(1, 20))
    dd, df = rng.uniform(0, 100), rng.uniform(0, 100)
    N = noise.randomvariable(T * flux * kw["tframe_data"] * kw["nframe_data"] + dd * kw["nframe_data"], np.ones(T.shape))
    N0 = noise.randomvariable(np.full(T.shape, flux * kw["tframe_flat"] * kw["nframe_flat"] + df * kw["nframe_flat"]), np.ones(T.shape))
    t = calcnoise.transmission(N, N0, D=dd * kw["nframe_dark"], D0=df * kw["nframe_dark"], **kw)
    close(c, noise.E(t), T, "radiograph:transmission", rtol=1e-5)
    v = (1 / (kw["nframe_data"] * kw["tframe_data"]) / flux) ** 2 + (T / (kw["nframe_flat"] * kw["tframe_flat"]) / flux) ** 2
    close(c, noise.VAR(t), v, "radiograph:variance", rtol=1e-4)
    a = calcnoise.absorbance(t)
    close(c, noise.E(a), -np.log(T), "radiograph:absorbance", rtol=1e-4, atol=1e-6)
    close(c, noise.VAR(a), v / T**2, "radiograph:absorbance:variance", rtol=1e-4)
    total, td, frac = rng.uniform(1, 1000), rng.uniform(0.05, 2), rng.uniform(0, 1)
    nd, nf = calcnoise.id21_ffsetup.getnframes(total, td, td, frac)
    c.require(nd >= 1 and nf >= 2 and nf % 2 == 0, "radiograph:nframes", lambda: (total, td, frac, nd, nf))
    c.require(abs(nd - total / td * (1 - frac)) <= 1 and abs(nf - total / td * frac) <= 2, "radiograph:nframes:time", lambda: (total, td, frac, nd, nf))
    c.event("radiographs")
    c.key(T, kw)


GROUPS = [
    Group("algebra", algebra, 600, 10000),
    Group("simulated", simulated, 100, 2000),
    Group("area", areadet, 400, 8000),
    Group("lens", lens, 300, 6000),
    Group("scintillator", scint, 200, 3000),
    Group("radiograph", radiograph, 200, 4000),
]
