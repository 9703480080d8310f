"""Polarization: what the field of a photon does in three dimensions, and what Jones/Stokes objects say about it."""
import copy
import cmath
import numpy as np
from lib.vp import Group, Discard
from spectrocrunch.sources import polarization as pol
from spectrocrunch.sources import xray
from spectrocrunch.patch import jsonpickle

ID = "C28"
LEVEL = "exploration"
RULE = (
    "random and special (linear, circular, axis-aligned, unpolarized, integer-valued) Jones and Stokes states, any scattering direction "
    "and photon energy, sources from defaults or any subset of parameters"
)

ETA = 8.8541878128e-12 * 299792458.0  # vacuum permittivity times speed of light
MEC2 = 510.99895  # keV
SPECIAL = [0, 30, 45, 60, 90, 120, 135, 180, 225, 270, 315, 360, -45, -90, -30]


def angle(rng, lo, hi):
    return float(rng.choice([x for x in SPECIAL if lo <= x <= hi])) if rng.random() < 0.35 else rng.uniform(lo, hi)


def unit(x):
    x = np.asarray(x, dtype=float)
    return x / np.linalg.norm(x)


def jones(rng):
    """(a0, ph0, a1, ph1)"""
    how = rng.choice(["any"] * 5 + ["linear", "circular", "horizontal", "vertical", "diagonal", "weak"])
    scale = 10 ** rng.uniform(-1, 3)
    a0, a1 = scale * rng.uniform(0.05, 1), scale * rng.uniform(0.05, 1)
    ph0, d = rng.uniform(-180, 180), rng.uniform(-180, 180)
    if how == "linear":
        d = rng.choice([0, 180])
    elif how == "circular":
        a1, d = a0, rng.choice([90, -90])
    elif how == "horizontal":
        a1 = 0.0
    elif how == "vertical":
        a0 = 0.0
    elif how == "diagonal":
        a1, d = a0, rng.choice([0, 180])
    elif how == "weak":
        a1 *= 1e-4
    return how, a0 * cmath.exp(1j * np.radians(ph0)), a1 * cmath.exp(1j * np.radians(ph0 + d))


def stokes_of(V):
    """from the definition: intensities behind analysers (horizontal/vertical, +-45 degrees, left/right)"""
    V = np.asarray(V)

    def behind(e):
        return abs(np.vdot(np.asarray(e), V)) ** 2

    s = np.sqrt(0.5)
    return np.array(
        [
            behind([1, 0]) + behind([0, 1]),
            behind([1, 0]) - behind([0, 1]),
            behind([s, s]) - behind([s, -s]),
            behind([s, 1j * s]) - behind([s, -1j * s]),
        ]
    )


def mixture(rng):
    """Incoherent mixture of waves (at most three)"""
    n = rng.choice([1, 2, 2, 3])
    return [jones(rng)[1:] for _ in range(n)]


def waves(rng):
    how = rng.choice(["mixture"] * 4 + ["unpolarized", "linear", "partial"])
    if how == "mixture":
        w = mixture(rng)
    elif how == "unpolarized":
        a = 10 ** rng.uniform(-1, 2)
        w = [(a, 0), (0, a)]
    elif how == "linear":
        a, t = 10 ** rng.uniform(-1, 2), np.radians(angle(rng, 0, 180))
        w = [(a * np.cos(t), a * np.sin(t))]
    else:
        a, b, t = 10 ** rng.uniform(-1, 2), 10 ** rng.uniform(-1, 2), np.radians(angle(rng, 0, 180))
        w = [(a, 0), (0, a), (b * np.cos(t), b * np.sin(t) * 1j ** rng.randint(0, 3))]
    return how, [np.array(x, dtype=complex) for x in w]


def integers(rng):
    """exact components (also zeros) and waves with that sum"""
    n = [rng.choice([0, 0, rng.randint(-5, 5)]) for _ in range(3)]
    S = np.array([max(1, int(np.ceil(np.linalg.norm(n)))) + rng.choice([0, 0, 1, 4])] + n, dtype=float)
    C = 0.5 * np.array([[S[0] + S[1], S[2] - 1j * S[3]], [S[2] + 1j * S[3], S[0] - S[1]]])
    l, v = np.linalg.eigh(C)
    return "exact", [v[:, i] * np.sqrt(max(l[i], 0)) for i in (1, 0)], S


def same(c, got, exp, sig, scale=None, rtol=1e-9, **kw):
    got, exp = np.asarray(got), np.asarray(exp)
    scale = float(np.abs(exp).max()) if scale is None else float(scale)
    ok = got.shape == exp.shape and bool(np.all(np.abs(got - exp) <= rtol * scale + 1e-300))
    c.require(ok, sig, lambda: "got %r instead of %r; %r" % (got.tolist(), exp.tolist(), kw))


def sameangle(c, got, exp, period, sig, atol=1e-6, **kw):
    d = (float(got) - float(exp) + period / 2.0) % period - period / 2.0
    c.require(abs(d) <= atol, sig, lambda: "got %r instead of %r (modulo %r); %r" % (got, exp, period, kw))


def ellipse(V):
    """(orientation of the long axis in degrees, ratio of the axes, tangent rotation) from the trajectory of the field"""
    ph = np.linspace(0, 2 * np.pi, 721)
    E = (np.outer(V, np.exp(-1j * ph))).real
    M = E[:, :-1] @ E[:, :-1].T
    w, v = np.linalg.eigh(M)
    area = np.sum(E[0, :-1] * E[1, 1:] - E[0, 1:] * E[1, :-1])
    return E, np.degrees(np.arctan2(v[1, 1], v[0, 1])), (w[1] - w[0]) / (w[1] + w[0]), area


def c_states(c, rng):
    """Representations of the same state"""
    how, V0, V1 = jones(rng)
    V = np.array([V0, V1])
    S = stokes_of(V)
    kw = dict(how=how, V=V.tolist())
    J = pol.Jones(V0, V1)
    scale = S[0]
    same(c, J.V, V, "jones-components", **kw)
    same(c, [J[0], J[1]], V, "jones-items", **kw)
    same(c, J.to_numpy(), V, "jones-numpy", **kw)
    same(c, J.sqnorm, S[0], "jones-sqnorm", **kw)
    same(c, J.norm, np.sqrt(S[0]), "jones-norm", **kw)
    same(c, J.intensity, ETA * S[0] / 2, "jones-intensity", rtol=1e-6, **kw)
    same(c, J.coherency_matrix, np.outer(V, V.conj()), "jones-coherency", **kw)
    same(c, pol.intensity_to_jonesnormsq(J.intensity), S[0], "intensity-roundtrip", **kw)
    if abs(V0):
        sameangle(c, J.phase0, np.degrees(cmath.phase(V0)), 360, "phase0", **kw)
    if abs(V1):
        sameangle(c, J.phase1, np.degrees(cmath.phase(V1)), 360, "phase1", **kw)
    if abs(V0) and abs(V1):
        sameangle(c, J.phase_difference, np.degrees(cmath.phase(V1 / V0)), 360, "phase-difference", **kw)
    # the field goes round the ellipse that the parameters describe
    E, axis, lin, area = ellipse(V)
    same(c, J.efield(np.linspace(0, 360, 721)), E, "efield", scale=np.sqrt(scale), **kw)
    if lin > 1e-3:
        sameangle(c, J.polangle, axis, 180, "polangle-jones", atol=1e-6 / lin, **kw)
    same(c, J.dolp, np.hypot(S[1], S[2]) / S[0], "dolp-jones", scale=1, **kw)
    same(c, J.docp, S[3] / S[0], "docp-jones", scale=1, **kw)
    same(c, J.hdolp, S[1] / S[0], "hdolp-jones", scale=1, **kw)
    c.require(J.dop == 1, "dop-jones", lambda: "%r; %r" % (J.dop, kw))
    if abs(S[3]) > 1e-6 * S[0]:
        # phase of exp(-i.phase): positive delta = left handed, seen against the propagation direction
        c.require(J.handedness == ("left" if S[3] > 0 else "right"), "handedness-jones", lambda: "%r, S3/S0=%r; %r" % (J.handedness, S[3] / S[0], kw))
        c.require((area > 0) == (J.handedness == "left"), "handedness-field", lambda: "%r, area %r" % (J.handedness, area))
    # Stokes of this wave
    P = J.to_stokes(silent=True)
    same(c, P.to_numpy(), S, "jones-to-stokes", **kw)
    same(c, P.coherency_matrix, np.outer(V, V.conj()), "stokes-coherency", scale=scale, **kw)
    same(c, P.intensity, J.intensity, "stokes-intensity", **kw)
    ph0 = angle(rng, -180, 180)
    J2 = P.to_jones(phase0=ph0)
    same(c, np.outer(J2.V, J2.V.conj()), np.outer(V, V.conj()), "stokes-to-jones", rtol=1e-6, scale=scale, **kw)
    if abs(V0) > 1e-3 * abs(V1):
        sameangle(c, J2.phase0, ph0, 360, "stokes-to-jones-phase", atol=1e-3, **kw)
    # parameters of this wave
    p = J.to_params()
    c.require(set(p) == {"intensity", "dolp", "polangle", "handedness", "phase0"}, "jones-params", lambda: repr(p))
    J3 = pol.Jones.from_params(**p)
    same(c, np.outer(J3.V, J3.V.conj()), np.outer(V, V.conj()), "jones-params-roundtrip", rtol=1e-6, scale=scale, params=p, **kw)
    if abs(V0) > 1e-3 * abs(V1):
        # the absolute phase comes back
        same(c, J3.V, V, "jones-params-phase", rtol=1e-3, scale=np.sqrt(scale), params=p, **kw)
    # coherency matrix
    C = np.outer(V, V.conj())
    J4 = pol.Jones.from_coherency_matrix(C, phase0=ph0)
    same(c, np.outer(J4.V, J4.V.conj()), C, "jones-from-coherency", rtol=1e-6, scale=scale, **kw)
    J5 = pol.Jones(1, 1)
    J5.coherency_matrix = C
    same(c, np.outer(J5.V, J5.V.conj()), C, "jones-set-coherency", rtol=1e-6, scale=scale, **kw)
    # intensity
    x = 10 ** rng.uniform(-3, 8)
    J6 = pol.Jones(V0, V1)
    J6.intensity = x
    same(c, J6.intensity, x, "jones-set-intensity", **kw)
    same(c, J6.V / np.linalg.norm(J6.V), V / np.linalg.norm(V), "jones-set-intensity-state", **kw)
    c.require(J == pol.Jones(V0, V1) and not (J != pol.Jones(V0, V1)), "jones-equal", lambda: repr(kw))
    c.require(J != pol.Jones(V0, V1 + np.sqrt(scale)) and not (J == pol.Jones(V0, V1 + np.sqrt(scale))), "jones-unequal", lambda: repr(kw))
    c.require("polangle" in str(J), "jones-str", lambda: str(J))
    for o in (copy.copy(J), copy.deepcopy(J), jsonpickle.loads(jsonpickle.dumps(J))):
        c.require(o == J, "jones-copy", lambda: "%r %r" % (o.V, J.V))
    c.event("states", 1)
    c.key(how, [complex(v) for v in V])
    c.sample(dict(kind=how, V=[str(v) for v in V]))


def c_partial(c, rng):
    """Stokes vectors of partially polarized light"""
    how, w = waves(rng)
    S = sum(stokes_of(v) for v in w)
    C = sum(np.outer(v, v.conj()) for v in w)
    if rng.random() < 0.15:
        # integer components
        n = [rng.randint(-20, 20) for _ in range(3)]
        if not any(n) and rng.random() < 0.5:
            n = [0, 0, 0]
        S0 = int(np.ceil(np.linalg.norm(n))) + rng.randint(0, 10) + (0 if any(n) else 1)
        args = [S0] + n
        S = np.array(args, dtype=float)
        C = 0.5 * np.array([[S[0] + S[1], S[2] - 1j * S[3]], [S[2] + 1j * S[3], S[0] - S[1]]])
        how = "integer"
    else:
        args = S.tolist()
    P = pol.Stokes(*args)
    kw = dict(how=how, S=args)
    polarized = np.linalg.norm(S[1:])
    scale = S[0]
    same(c, P.to_numpy(), S, "stokes-components", **kw)
    same(c, [P[i] for i in range(4)], S, "stokes-items", **kw)
    same(c, P.coherency_matrix, C, "coherency", scale=scale, **kw)
    same(c, P.intensity, ETA * S[0] / 2, "intensity", rtol=1e-6, **kw)
    same(c, P.intensity_polarized, ETA * polarized / 2, "intensity-polarized", scale=scale * ETA, rtol=1e-6, **kw)
    same(c, P.intensity_unpolarized, ETA * (S[0] - polarized) / 2, "intensity-unpolarized", scale=scale * ETA, rtol=1e-6, **kw)
    same(c, P.dop, polarized / S[0], "dop", scale=1, **kw)
    same(c, P.dolp, np.hypot(S[1], S[2]) / S[0], "dolp", scale=1, **kw)
    same(c, P.hdolp, S[1] / S[0], "hdolp", scale=1, **kw)
    same(c, P.docp, S[3] / S[0], "docp", scale=1, **kw)
    lin = np.hypot(S[1], S[2])
    if lin > 1e-6 * S[0]:
        sameangle(c, P.polangle, np.degrees(np.arctan2(S[2], S[1])) / 2, 180, "polangle", **kw)
        t = np.radians(P.polangle)
        # highest intensity behind a linear analyser
        def behind(t):
            e = np.array([np.cos(t), np.sin(t)])
            return (e @ C @ e).real

        c.require(behind(t) >= max(behind(x) for x in np.linspace(0, np.pi, 37)) - 1e-9 * scale, "polangle-analyser", lambda: repr(kw))
    if polarized > 1e-6 * S[0]:
        same(c, P.ellipangle, 0.5 * np.arcsin(np.clip(S[3] / polarized, -1, 1)), "ellipangle", scale=1, rtol=1e-6, **kw)
    if abs(S[3]) > 1e-9 * S[0]:
        c.require(P.handedness == ("left" if S[3] > 0 else "right"), "handedness", lambda: "%r; %r" % (P.handedness, kw))
    elif S[3] == 0:
        c.require(P.handedness == "none", "handedness", lambda: "%r; %r" % (P.handedness, kw))
    # a coherency matrix or parameters make the same state
    same(c, pol.Stokes.from_coherency_matrix(C).S, S, "from-coherency", scale=scale, **kw)
    P2 = pol.Stokes(1, 0, 0, 0)
    P2.coherency_matrix = C
    same(c, P2.S, S, "set-coherency", scale=scale, **kw)
    p = P.to_params()
    c.require(set(p) == {"intensity", "dop", "dolp", "polangle", "handedness"}, "params", lambda: repr(p))
    P3 = pol.Stokes.from_params(**p)
    same(c, P3.S, S, "params-roundtrip", scale=scale, rtol=1e-6, params=p, **kw)
    # polarized and unpolarized part
    d = P.decompose()
    same(c, d["pol"].S + d["unpol"].S, S, "decompose-sum", scale=scale, **kw)
    same(c, d["unpol"].S[1:], [0, 0, 0], "decompose-unpolarized", scale=scale, **kw)
    same(c, d["pol"].S[1:], S[1:], "decompose-polarized", scale=scale, **kw)
    same(c, d["pol"].S[0], polarized, "decompose-polarized-total", scale=scale, **kw)
    # loss of the unpolarized part is refused unless allowed
    deg = polarized / S[0]
    if deg < 1 - 1e-5:
        try:
            J = P.to_jones()
        except RuntimeError:
            J = None
        c.require(J is None, "loss-accepted", lambda: repr(kw))
        c.event("refusals", 1)
    if deg > 1e-6:
        J = P.to_jones(allowloss=True)
        got = stokes_of(J.V)
        same(c, got, [polarized] + S[1:].tolist(), "polarized-jones", scale=scale, rtol=1e-6, **kw)
    # intensity changes, the state does not
    x = 10 ** rng.uniform(-3, 8)
    if rng.random() < 0.3:
        x = rng.randint(1, 100)
    P.intensity = x
    same(c, P.intensity, x, "set-intensity", **kw)
    same(c, P.S / P.S[0], S / S[0], "set-intensity-state", scale=1, **kw)
    Q = pol.Stokes(*args)
    c.require(Q == pol.Stokes(*args) and not (Q != pol.Stokes(*args)), "equal", lambda: repr(kw))
    i = rng.randrange(4)
    other = list(args)
    other[i] = other[i] + S[0]
    R = pol.Stokes(*other)
    c.require(Q != R and not (Q == R), "unequal", lambda: repr(kw))
    c.require("polangle" in str(Q), "str", lambda: str(Q))
    for o in (copy.copy(Q), copy.deepcopy(Q), jsonpickle.loads(jsonpickle.dumps(Q))):
        c.require(o == Q, "copy", lambda: "%r %r" % (o.S, Q.S))
    c.event("states", 1)
    c.key(how, [float(s) for s in S])
    c.sample(dict(kind=how, S=[float(s) for s in S]))


def c_params(c, rng):
    """States from parameters, sources"""
    intensity = 10 ** rng.uniform(-2, 6)
    dop = rng.choice([0.0, 1.0, rng.random(), rng.random()])
    dolp = dop * rng.choice([0.0, 1.0, rng.random(), rng.random()])
    polangle = angle(rng, -90, 90)
    hand = rng.choice(["left", "right"])
    kw = dict(intensity=intensity, dop=dop, dolp=dolp, polangle=polangle, handedness=hand)

    def expected(intensity, dop, dolp, polangle, handedness):
        S0 = 2 * intensity / ETA
        S3 = S0 * np.sqrt(max(dop**2 - dolp**2, 0)) * (-1 if handedness == "right" else 1)
        t = np.radians(2 * polangle)
        return np.array([S0, S0 * dolp * np.cos(t), S0 * dolp * np.sin(t), S3])

    P = pol.Stokes.from_params(**kw)
    same(c, P.S, expected(**kw), "from-params", rtol=1e-6, **kw)
    same(c, P.intensity, intensity, "from-params-intensity", **kw)
    if dop < 1:
        try:
            bad = pol.Stokes.from_params(**dict(kw, dolp=dop + rng.uniform(1e-3, 1)))
        except RuntimeError:
            bad = None
        c.require(bad is None, "more-linear-than-polarized", lambda: repr(kw))
    J = pol.Jones.from_params(intensity=intensity, dolp=dolp, polangle=polangle, handedness=hand, phase0=polangle)
    e = expected(intensity, 1.0, dolp, polangle, hand)
    same(c, stokes_of(J.V), e, "jones-from-params", rtol=1e-6, **kw)
    # sources
    kind = rng.choice(["synchrotron", "synchrotron", "tube"])
    if kind == "tube":
        if rng.random() < 0.3:
            s, e = xray.factory(kind), expected(1.0, 0, 0, 0, "left")
        else:
            s, e = xray.factory(kind, intensity=intensity), expected(intensity, 0, 0, 0, "left")
        par = {}
    else:
        keep = [k for k in kw if rng.random() < 0.5]
        par = {k: kw[k] for k in keep}
        if "dolp" in par and "dop" not in par:
            pass
        full = dict(intensity=1.0, dop=1.0, polangle=0.0, handedness="left")
        full.update(par)
        full.setdefault("dolp", full["dop"])
        if "handedness" not in par and full["dolp"] < full["dop"]:
            # side of the orbit plane not given
            par["handedness"] = full["handedness"] = hand
        s, e = xray.factory(rng.choice(["synchrotron", "Synchrotron"]), **par), expected(**full)
    same(c, s.stokes.S, e, "source-state", rtol=1e-6, kind=kind, par=par)
    az, th, en = np.radians(angle(rng, 0, 360)), np.radians(angle(rng, 0, 180)), rng.uniform(1, 100)
    same(c, s.thomson_K(az, th), thomson(e, az, th), "source-thomson", scale=1, rtol=1e-6, kind=kind, par=par)
    same(c, s.compton_K(en)(az, th), compton(e, az, th, en), "source-compton", scale=1, rtol=1e-6, kind=kind, par=par)
    for o in (copy.copy(s), copy.deepcopy(s), jsonpickle.loads(jsonpickle.dumps(s))):
        c.require(type(o) is type(s) and o == s and not (o != s), "source-copy", lambda: "%s vs %s" % (o, s))
    t = xray.factory("tube", intensity=intensity * 3.3)
    c.require(s != t and not (s == t), "source-unequal", lambda: "%s vs %s" % (s, t))
    str(s)
    c.event("states", 2)
    c.event("sources", 1)
    c.key(kind, sorted(kw.items()), sorted(par.items()))
    c.sample(dict(kw, kind=kind, given=sorted(par)))


def thomson(S, az, th):
    """relative intensity of Thomson scattering: 1 - |n.E|^2/|E|^2 averaged over the polarization"""
    n = np.array([np.sin(th) * np.cos(az), np.sin(th) * np.sin(az)])
    C = 0.5 * np.array([[S[0] + S[1], S[2]], [S[2], S[0] - S[1]]])
    return 1 - (n @ C @ n) / S[0]


def compton(S, az, th, energy):
    """Klein-Nishina (relative to the classical electron radius squared)"""
    r = 1 / (1 + energy / MEC2 * (1 - np.cos(th)))
    n = np.array([np.sin(th) * np.cos(az), np.sin(th) * np.sin(az)])
    C = 0.5 * np.array([[S[0] + S[1], S[2]], [S[2], S[0] - S[1]]])
    return 0.5 * r**2 * (r + 1 / r - 2 * (n @ C @ n) / S[0])


def frame(az, th):
    """axes of the scattered wave: perpendicular to and in the scattering plane"""
    n = np.array([np.sin(th) * np.cos(az), np.sin(th) * np.sin(az), np.cos(th)])
    e0 = np.array([np.sin(az), -np.cos(az), 0])
    return n, e0, np.cross(n, e0)


def c_scatter(c, rng):
    how, w = waves(rng)
    S = sum(stokes_of(v) for v in w)
    if rng.random() < 0.25:
        how, w, S = integers(rng)
    az, th = angle(rng, 0, 360), angle(rng, 0, 180)
    if rng.random() < 0.2:
        az = angle(rng, -180, 0)
    n, e0, e1 = frame(np.radians(az), np.radians(th))
    kw = dict(how=how, waves=[v.tolist() for v in w], azimuth=az, polar=th)
    # every wave of the mixture radiates the projection of its field
    out = []
    for v in w:
        E = np.array([v[0], v[1], 0])
        E = E - n * (n @ E)
        out.append(np.array([e0 @ E, e1 @ E]))
    SE = sum(stokes_of(v) for v in out)
    P = pol.Stokes(*S)
    T = P.thomson_scattering(az, th)
    same(c, T.S, SE, "thomson-stokes", scale=S[0], **kw)
    same(c, P.thomson_intensity(az, th), P.intensity * SE[0] / S[0], "thomson-intensity", scale=P.intensity, **kw)
    same(c, P.thomson_K(np.radians(az), np.radians(th)), SE[0] / S[0], "thomson-K", scale=1, **kw)
    same(c, T.intensity, P.intensity * SE[0] / S[0], "thomson-stokes-intensity", scale=P.intensity, **kw)
    # over the unit sphere
    azs, ths = np.radians(np.array([rng.uniform(0, 360) for _ in range(5)])), np.radians(np.array([rng.uniform(0, 180) for _ in range(5)]))
    energy = rng.choice([rng.uniform(1, 30), rng.uniform(30, 500)])
    same(c, P.thomson_K(azs, ths), [thomson(S, a, t) for a, t in zip(azs, ths)], "thomson-K-array", scale=1, **kw)
    same(c, P.compton_K(energy)(azs, ths), [compton(S, a, t, energy) for a, t in zip(azs, ths)], "compton-K-array", scale=1, rtol=1e-6, energy=energy, **kw)
    # fully polarized waves
    v, o = w[0], out[0]
    J = pol.Jones(*v)
    JT = J.thomson_scattering(az, th)
    scale = np.linalg.norm(v) ** 2
    same(c, np.outer(JT.V, np.conj(JT.V)), np.outer(o, o.conj()), "thomson-jones", scale=scale, rtol=1e-6, **kw)
    r = J.rotate(az - 90).V
    if abs(r[0]) > 1e-3 * np.sqrt(scale):
        same(c, JT.V, o, "thomson-jones-phase", scale=np.sqrt(scale), rtol=1e-6, **kw)
    # Compton
    K = compton(S, np.radians(az), np.radians(th), energy)
    CS = P.compton_scattering(az, th, energy)
    ratio = 1 / (1 + energy / MEC2 * (1 - np.cos(np.radians(th))))
    kw["energy"] = energy
    same(c, P.compton_intensity(az, th, energy), P.intensity * K, "compton-intensity", scale=P.intensity, rtol=1e-6, **kw)
    same(c, CS.S[0], S[0] * K, "compton-stokes-total", scale=S[0], rtol=1e-6, **kw)
    # Fano: linear part as for Thomson, circular part with the energy transfer
    same(c, CS.S[1:3], ratio**2 * SE[1:3], "compton-stokes-linear", scale=S[0], rtol=1e-6, **kw)
    same(c, CS.S[3], ratio**2 * np.cos(np.radians(th)) * 0.5 * (ratio + 1 / ratio) * S[3], "compton-stokes-circular", scale=S[0], rtol=1e-6, **kw)
    c.require(CS.dop <= 1 + 1e-9 if CS.S[0] > 1e-9 * S[0] else True, "compton-dop", lambda: "%r; %r" % (CS.dop, kw))
    # no energy transfer at low energy
    same(c, P.compton_scattering(az, th, 1e-6).S, SE, "compton-low-energy", scale=S[0], rtol=1e-6, **kw)
    c.event("scattered", 1)
    c.event("directions", 6)
    c.key(how, az, th, energy, [float(s) for s in S])
    c.sample(dict(kind=how, azimuth=az, polar=th, energy=energy))


def c_frames(c, rng):
    """Other axes, other matrices"""
    how, w = waves(rng)
    S = sum(stokes_of(v) for v in w)
    P = pol.Stokes(*S)
    v = w[0]
    J = pol.Jones(*v)
    a, b = angle(rng, -180, 360), angle(rng, -180, 360)
    kw = dict(how=how, waves=[x.tolist() for x in w], angle=a, then=b)
    e0, e1 = np.array([np.cos(np.radians(a)), np.sin(np.radians(a))]), np.array([-np.sin(np.radians(a)), np.cos(np.radians(a))])
    rot = [np.array([e0 @ x, e1 @ x]) for x in w]
    same(c, J.rotate(a).V, rot[0], "rotate-jones", scale=np.linalg.norm(v), **kw)
    same(c, P.rotate(a).S, sum(stokes_of(x) for x in rot), "rotate-stokes", scale=S[0], **kw)
    same(c, J.rotate(a).rotate(b).V, J.rotate(a + b).V, "rotate-jones-twice", scale=np.linalg.norm(v), **kw)
    same(c, P.rotate(a).rotate(b).S, P.rotate(a + b).S, "rotate-stokes-twice", scale=S[0], **kw)
    same(c, P.rotate(a).rotate(-a).S, S, "rotate-back", scale=S[0], **kw)
    same(c, J.rotate(a).intensity, J.intensity, "rotate-intensity", **kw)
    # any optical element
    M = c.np.uniform(-1, 1, (2, 2)) + 1j * c.np.uniform(-1, 1, (2, 2))
    if rng.random() < 0.3:
        M = pol.JonesMatrixThomson(angle(rng, 0, 180)).astype(complex)
    elif rng.random() < 0.3:
        M = pol.JonesMatrixRotation(a).astype(complex)
    Mu = pol.Stokes.jones_to_mueller(M)
    exp = sum(stokes_of(M @ x) for x in w)
    same(c, Mu.imag, np.zeros((4, 4)), "mueller-real", scale=1, matrix=M.tolist(), **kw)
    same(c, Mu.real @ S, exp, "mueller", scale=S[0], matrix=M.tolist(), **kw)
    c.event("rotations", 5)
    c.event("elements", 1)
    c.key(how, a, b, M.tolist())
    c.sample(dict(kind=how, angle=a))


GROUPS = [
    Group("jones", c_states, 500, 20000),
    Group("stokes", c_partial, 500, 20000),
    Group("parameters", c_params, 400, 12000),
    Group("scattering", c_scatter, 400, 15000),
    Group("frames", c_frames, 400, 15000),
]
