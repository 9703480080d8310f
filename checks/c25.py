"""Detectors: filters, efficiency, solid angle and the shape of peaks."""
import copy
import pickle
import numpy as np
import scipy.integrate
import scipy.special
from lib.vp import Group, Discard
from checks.c24 import Mat, close
from spectrocrunch.detectors import base, xrf
from spectrocrunch.geometries import xrf as xrfgeometries
from spectrocrunch.materials import element, compoundfromname
from spectrocrunch.patch import jsonpickle
from spectrocrunch.utils import units

ID = "C25"
LEVEL = "exploration"
RULE = (
    "random histories of filters (named, numbered, sample covers, refused names, removals, moving geometries with an atmosphere) on "
    "detectors; efficiencies compared with exponentials of xraylib cross sections; random peak shapes in both parametrizations "
    "compared with integrals by quadrature; solid angles inverted; copies, serializations and equality of all shipped detectors"
)
GEN = ["material", "solidstate", "cone", "xrf", "shipped"]
SHIPPED = ["sn3102", "Leia", "BB8", "DR40", "ID16b_Virtual1", "XFlash5100", "SGX80", "SGX50", "VITUSH80", "leia", "bb8"]


def quant(rng, cm):
    """A thickness as number or with units"""
    u = rng.choice([None, None, "cm", "um", "mm"])
    return cm if u is None else units.Quantity(cm, "cm").to(u)


def filters(c, rng):
    kind = rng.choice(GEN[:4])
    kw = {}
    if rng.random() < 0.3:
        kw["attenuators"] = {}
    if kind == "material":
        det = base.Material(**kw)
    elif kind == "solidstate":
        det = base.SolidState(ehole=3.6, **kw)
    elif kind == "cone":
        det = base.CentricCone(ehole=3.6, activearea=0.5, **kw)
    else:
        det = xrf.XRFDetector(ehole=3.6, activearea=0.5, mcazero=0, mcagain=0.005, mcanoise=0.1, mcafano=0.1, **kw)
    beam, filt, detmat, atm, geom = {}, {}, None, None, None
    log = []
    pool = [Mat(rng) for _ in range(4)]

    def check():
        info = lambda: "{} {}".format(kind, log)
        exp = {k: (m, t) for d in (beam, filt) for k, (m, t) in d.items()}
        if detmat:
            exp["Detector"] = detmat
        if geom is not None and atm is not None:
            exp["Atmosphere"] = (atm, geom.distance.to("cm").magnitude)
        got = det.attenuators
        c.require(set(got) == set(exp), "filters:names", lambda: "{}\n{} {}".format(info(), sorted(got), sorted(exp)))
        for k, (m, t) in exp.items():
            c.require(got[k]["material"] is m.obj, "filters:material", info)
            close(c, got[k]["thickness"], t, "filters:thickness", rtol=1e-9, name=k)
        side = dict(filt)
        if "Atmosphere" in exp:
            side["Atmosphere"] = exp["Atmosphere"]
        pair = lambda lst: sorted((str(a["material"]), round(a["thickness"], 12)) for a in lst)
        ref = lambda d: sorted((str(m.obj), round(t, 12)) for m, t in d.values())
        c.require(pair(det.beamfilters()) == ref(beam), "filters:beam", info)
        c.require(pair(det.detectorfilters()) == ref(side), "filters:detector", info)
        c.require(pair(det.detectorfilters(include_atmosphere=False)) == ref(filt), "filters:detector without atmosphere", info)
        n = rng.choice([0, 1, 3])
        e = rng.uniform(3, 30) if n == 0 else c.np.uniform(3, 30, n)
        m = rng.choice([0, 1, 2])
        e0 = rng.uniform(3, 30) if m == 0 else c.np.uniform(3, 30, m)
        mu = lambda d, e: sum((a.mu(e) * a.density * t for a, t in d.values()), 0 * np.asarray(e, float))
        for source, d in ((True, beam), (False, side)):
            a = mu(d, e)
            close(c, det.filter_absorbance(e, source=source), a, "absorbance", source=source, log=log)
            close(c, det.filter_transmission(e, source=source), np.exp(-a), "transmission", source=source, log=log)
            close(c, det.filter_attenuation(e, source=source), 1 - np.exp(-a), "attenuation", atol=1e-14, source=source, log=log)
        c.require(det.hasmaterial == bool(detmat), "material", info)
        if detmat:
            a = mu({"": detmat}, e)
        else:
            a = np.full(np.shape(e), np.inf)
        close(c, det.absorbance(e), a, "detector:absorbance", has=bool(detmat))
        close(c, det.transmission(e), np.exp(-a), "detector:transmission", has=bool(detmat))
        close(c, det.attenuation(e), 1 - np.exp(-a), "detector:attenuation", has=bool(detmat), atol=1e-14)
        one = np.atleast_1d
        T = np.exp(-mu(beam, one(e0)))[:, None] * np.exp(-mu(side, one(e)))[None, :]
        close(c, det.efficiency(e0, e, withdetectorattenuation=False), T, "efficiency:filters", log=log, atol=1e-300)
        close(c, det.efficiency(e0, e), T * (1 - np.exp(-one(a))), "efficiency", log=log, atol=1e-14)
        txt = str(det) if kind not in ("solidstate", "cone", "xrf") or det.ehole is not None else ""
        for k in list(beam.values()) + list(side.values()):
            c.require(str(k[0].obj) in txt, "str", lambda: txt)
        c.event("filter sets")

    check()
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(["beam", "beam", "beamname", "det", "det", "cover", "remove", "refuse", "material", "clearbeam", "cleardet", "geometry", "move", "thickness", "copy"])
        m, t = rng.choice(pool), 10 ** rng.uniform(-5, -2.5)
        log.append(op)
        if op == "beam" or op == "cover":
            before = set(det.attenuators)
            if op == "beam":
                det.addbeamfilter(rng.choice([None, ""]), m.obj, quant(rng, t))
            else:
                n = rng.choice(["Cover", "Foil"])
                det.addsamplecover(n, m.obj, quant(rng, t))
                filt[n] = (m, t)
                before.add(n)
            new = set(det.attenuators) - before - {"Atmosphere"}
            c.require(len(new) == 1 and det.isbeamfilter(list(new)[0]), "filters:new beam filter", lambda: "{} {} {}".format(log, before, new))
            beam[new.pop()] = (m, t)
        elif op == "beamname":
            n = rng.choice(["BeamFilter0", "BeamFilter1", "beamfilter3", "BeamFilter12"])
            det.addbeamfilter(n, m.obj, quant(rng, t))
            beam[n] = (m, t)
        elif op == "det":
            n = rng.choice(["Window", "Foil", "Cover", "BeamFilterX", "NoBeamFilter1"])
            det.adddetectorfilter(n, m.obj, quant(rng, t))
            filt[n] = (m, t)
        elif op == "refuse":
            f, n = rng.choice([(det.addbeamfilter, "Window"), (det.addbeamfilter, "Detector"), (det.adddetectorfilter, "BeamFilter1"), (det.adddetectorfilter, "beamfilter0")])
            try:
                f(n, m.obj, t)
            except ValueError:
                pass
            else:
                c.require(False, "filters:name accepted", n)
        elif op == "material":
            det.addattenuator("Detector", m.obj, quant(rng, t))
            detmat = (m, t)
        elif op == "thickness" and detmat:
            det.thickness = t
            detmat = (detmat[0], t)
        elif op == "remove":
            allf = list(beam) + list(filt) + ["nothing"]
            n = rng.choice(allf)
            det.removeattenuator(n)
            beam.pop(n, None)
            filt.pop(n, None)
        elif op == "clearbeam":
            det.removebeamfilters()
            beam.clear()
        elif op == "cleardet":
            det.removedetectorfilters(include_atmosphere=rng.random() < 0.5)
            filt.clear()
        elif op == "geometry" and kind in ("cone", "xrf") and geom is None:
            atm = rng.choice([None] + pool)
            geom = xrfgeometries.factory("LinearXRFGeometry", anglein=90, angleout=30, detectorposition=rng.uniform(1, 20), zerodistance=10,
                                         positionunits="mm", detector=det, atmosphere=atm.obj if atm else None)
        elif op == "move" and geom is not None:
            geom.detectorposition = rng.uniform(1, 40)
        elif op == "copy" and geom is None:
            old = det
            how = rng.choice(["shallow", "deep", "pickle"])
            det = {"shallow": copy.copy, "deep": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[how](det)
            c.require(det == old and not det != old, "copy:equal", lambda: "{}".format(log))
            # what happens to the old one does not concern the new one (unless the copy is shallow)
            if how != "shallow" and rng.random() < 0.5:
                old.addbeamfilter(None, m.obj, t)
                if old.hasmaterial:
                    old.thickness = t
            # materials of the copies have the same composition
            for d in (beam, filt):
                for k, (mm, tt) in list(d.items()):
                    mm2 = copy.copy(mm)
                    mm2.obj = det.attenuators[k]["material"]
                    d[k] = (mm2, tt)
            if detmat:
                mm2 = copy.copy(detmat[0])
                mm2.obj = det.material
                detmat = (mm2, detmat[1])
        check()
    c.key(kind, tuple(log))


def make_detector(rng, shape=None, u=None):
    kw = dict(
        mcazero=rng.uniform(-0.1, 0.1), mcagain=rng.choice([0.005, 0.01]), mcanoise=rng.uniform(0.03, 0.15), mcafano=rng.uniform(0.05, 0.25),
        ehole=rng.uniform(2.5, 4), activearea=rng.uniform(0.1, 1),
    )
    shape = shape or rng.choice(["fixed", "pymca", "none"])
    flags = {k: rng.random() < 0.75 for k in ("bpeak", "bstail", "bltail", "bstep")}
    p = None
    if shape == "fixed":
        w = [rng.choice([0, rng.uniform(0, 0.3)]) for _ in range(3)]
        if rng.random() < 0.1:
            w = [0.5, 0.3, 0.2]
        p = dict(stailbroadening=rng.uniform(0.2, 3), ltailbroadening=rng.uniform(1, 6), stailfraction=w[0], ltailfraction=w[1], stepfraction=w[2], **flags)
        kw["shape_fixedarearatios"] = p
    elif shape == "pymca":
        flags["bpeak"] = True
        p = dict(stailslope_ratio=rng.uniform(0.03, 0.5), ltailslope_ratio=rng.uniform(0.1, 3), stailarea_ratio=rng.choice([0, rng.uniform(0, 0.3)]),
                 ltailarea_ratio=rng.choice([0, rng.uniform(0, 0.3)]), stepheight_ratio=rng.choice([0, 10 ** rng.uniform(-4, -2)]), **flags)
        kw["shape_pymca"] = p
    else:
        # the ratios that are used by default
        p = dict(stailslope_ratio=0.5, ltailslope_ratio=10.0, stailarea_ratio=0.05, ltailarea_ratio=0.02, stepheight_ratio=0.0001,
                 bpeak=True, bstail=False, bltail=False, bstep=False)
    if u is not None:
        kw["shape_conversionenergy"] = u
    return xrf.XRFDetector(**kw), kw, shape, p


class Shape:
    """Peak, tail and step at one energy, and their areas at positive energies"""

    def __init__(self, kw, u, W=0):
        self.u, self.W = u, W
        self.var = kw["mcanoise"] ** 2 / (8 * np.log(2)) + kw["mcafano"] * kw["ehole"] * 1e-3 * u
        self.s = np.sqrt(self.var)

    def peak(self, x):
        return scipy.special.voigt_profile(x - self.u, self.s, self.W / 2)

    def step(self, x):
        return scipy.special.erfc((x - self.u) / (np.sqrt(2) * self.s)) / 2

    def tail(self, x, tr):
        d, s = x - self.u, self.s
        y = d / (np.sqrt(2) * s) + s / (np.sqrt(2) * tr)
        # exp(d/tr + s^2/2tr^2) erfc(y) = exp(-d^2/2s^2) erfcx(y)
        low = np.exp(np.minimum(d / tr + s**2 / (2 * tr**2), 700)) * scipy.special.erfc(y)
        return np.where(y > 0, np.exp(-(d**2) / (2 * s**2)) * scipy.special.erfcx(np.maximum(y, 0)), low) / 2

    def area(self, f):
        pts = [self.u + k * self.s for k in (-30, -6, -3, -1, 0, 1, 3, 6)]
        pts = [0.0] + [p for p in pts if p > 0] + [self.u + 12 * self.s]
        return sum(scipy.integrate.quad(f, a, b, limit=200)[0] for a, b in zip(pts[:-1], pts[1:]))


def reference(kw, shape, p, u, W, normalized, x):
    """peak, short tail, long tail, step"""
    s = Shape(kw, u, W)
    zero = np.zeros_like(x)
    if shape == "fixed":
        wt = [p["stailfraction"], p["ltailfraction"]]
        ws = p["stepfraction"]
        wp = 1 - sum(wt) - ws
        wp = 0 if wp < 1e-12 else wp
        tr = [p["stailbroadening"] * s.s, p["ltailbroadening"] * s.s]
        div = 1 if normalized else (wp or 1)
        out = [s.peak(x) * (wp if normalized else 1)]
        for w, t, on in zip(wt, tr, (p["bstail"], p["bltail"])):
            out.append(w / div * s.tail(x, t) / s.area(lambda y: s.tail(y, t)) if on and w else zero)
        out.append(ws / div * s.step(x) / s.area(s.step) if p["bstep"] and ws else zero)
    else:
        tr = [p["stailslope_ratio"], p["ltailslope_ratio"]]
        rt = [p["stailarea_ratio"], p["ltailarea_ratio"]]
        hs = p["stepheight_ratio"] / (s.s * np.sqrt(2 * np.pi))
        total = 1
        if normalized:
            total = 1 + sum(r / t * s.area(lambda y: s.tail(y, t)) for r, t in zip(rt, tr)) + hs * s.area(s.step)
        out = [s.peak(x) / total]
        for r, t, on in zip(rt, tr, (p["bstail"], p["bltail"])):
            out.append(r / t * s.tail(x, t) / total if on else zero)
        out.append(hs * s.step(x) / total if p["bstep"] else zero)
    if not p["bpeak"]:
        out[0] = zero
    return out


def profiles(c, rng):
    det, kw, shape, p = make_detector(rng)
    n = rng.choice([0, 1, 3])
    u = rng.uniform(2, 20) if n == 0 else c.np.uniform(2, 20, n)
    ua = np.atleast_1d(u)
    W = rng.choice([0, 0, rng.uniform(1e-3, 0.05)])
    if W and n > 1 and rng.random() < 0.5:
        W = c.np.uniform(1e-3, 0.05, n)
    Wa = np.broadcast_to(W, ua.shape)
    normalized = rng.choice([None, True, False])
    norm = normalized if normalized is not None else shape == "fixed"
    x = np.sort(np.concatenate([np.linspace(0, 25, 60)] + [v + np.linspace(-1, 0.6, 40) for v in ua]))
    x = x[x >= 0]
    c.key(shape, n, normalized, bool(np.any(W)), tuple(sorted(p.items())))
    ref = [np.stack(y, axis=-1) for y in zip(*[reference(kw, shape, p, v, w, norm, x) for v, w in zip(ua, Wa)])]
    got = det.lineprofile(x, u, linewidth=W, normalized=normalized, decomposed=True)
    top = max(np.abs(sum(ref)).max(), 1e-3)
    for name, g, r in zip(("peak", "short tail", "long tail", "step"), got, ref):
        close(c, np.broadcast_to(g, r.shape), r, "profile:" + name, rtol=1e-5, atol=1e-7 * top, shape=shape, norm=norm, p=p, u=u, W=W, kw=kw)
    tot = det.lineprofile(x, u, linewidth=W, normalized=normalized)
    close(c, tot, sum(ref), "profile:sum", rtol=1e-5, atol=1e-7 * top, shape=shape)
    h = det.lineprofile(x, u, normalized=normalized, onlyheight=True)
    for j, v in enumerate(ua):
        e = det.lineprofile([v], [v], normalized=normalized)[0, 0]
        close(c, np.ravel(h)[j], e, "profile:height", rtol=1e-7, atol=1e-12, shape=shape, p=p)
    s = [Shape(kw, v, 0) for v in ua]
    close(c, np.atleast_1d(det.gaussianVAR(u)), [y.var for y in s], "width:variance")
    f = np.array([y.s for y in s]) * 2 * np.sqrt(2 * np.log(2))
    close(c, np.atleast_1d(det.gaussianFWHM(u)), f, "width:fwhm")
    close(c, det.FWHMtoVAR(det.VARtoFWHM(0.3)), 0.3, "width:inverse")
    close(c, np.atleast_1d(det.voigtFWHM(u)), f, "width:voigt")
    for v, w, sh in zip(ua, Wa, s):
        # half maximum of the Voigt profile, an approximation good to 0.1 %
        if w:
            half = det.voigtFWHM(v, w) / 2
            y = scipy.special.voigt_profile(np.array([0, half]), sh.s, w / 2)
            close(c, y[1] / y[0], 0.5, "width:voigt", rtol=2e-3)
    c.event("profiles", len(ua))


def conversion(c, rng):
    """Both parametrizations describe the same peak at the conversion energy"""
    u = rng.uniform(3, 20)
    det, kw, shape, p = make_detector(rng, rng.choice(["fixed", "pymca"]), u)
    if not p["bpeak"]:
        raise Discard()
    if shape == "fixed":
        if 1 - p["stailfraction"] - p["ltailfraction"] - p["stepfraction"] < 0.01:
            raise Discard()
    state = copy.deepcopy(det.__getstate__())
    x = np.sort(np.concatenate([np.linspace(0, 25, 60), u + np.linspace(-1, 0.6, 80)]))
    x = x[x >= 0]
    before = det.lineprofile(x, [u])
    if rng.random() < 0.5:
        # another energy than the current one
        kw["shape_conversionenergy"] = rng.choice([None, rng.uniform(3, 20)])
        det = xrf.XRFDetector(**kw)
        state = copy.deepcopy(det.__getstate__())
        other = det.convert(u)
    else:
        other = det.convert()
    c.require(other.fixedarearatios != det.fixedarearatios, "convert:kind")
    c.require({k: v for k, v in det.__getstate__().items()} == state, "convert:original changed")
    c.key(shape, round(u, 3))
    for norm in (True, False):
        a = det.lineprofile(x, [u], normalized=norm)
        b = other.lineprofile(x, [u], normalized=norm)
        close(c, b, a, "convert:profile", rtol=1e-6, atol=1e-9 * np.abs(a).max(), norm=norm, shape=shape, p=p)
    back = other.convert()
    close(c, back.lineprofile(x, [u]), before, "convert:back", rtol=1e-6, atol=1e-9 * np.abs(before).max())
    # parameters can be changed afterwards
    det.shape_conversionenergy = u
    if shape == "fixed":
        det.fractions = (0.1, 0.05, 0.02)
        det.stailbroadening = 1.5
        det.fractions = det.fractions
    else:
        det.stailslope_ratio = 0.2
        det.ratios = (0.1, 0.05, 0.001)
    a = det.lineprofile(x, [u], normalized=True)
    b = det.convert().lineprofile(x, [u], normalized=True)
    close(c, b, a, "convert:changed", rtol=1e-6, atol=1e-9 * np.abs(a).max(), shape=shape, p=p)
    for f in (str, repr):
        f(det)
    c.event("conversions")


def solidangle(c, rng):
    A, d = 10 ** rng.uniform(-2, 1), 10 ** rng.uniform(-1, 1.5)
    ua, ud = rng.choice(["cm^2", "mm^2"]), rng.choice(["cm", "mm", "m"])
    qA, qd = units.Quantity(A, "cm^2").to(ua), units.Quantity(d, "cm").to(ud)
    c.key(round(A, 3), round(d, 3))
    r = np.sqrt(A / np.pi)
    exp = 2 * np.pi * (1 - d / np.hypot(r, d))
    cls = base.CentricCone
    close(c, cls.solidangle_calc(activearea=qA, distance=qd), exp, "solidangle", rtol=1e-6, atol=1e-12)
    close(c, cls.solidangle_calc(activearea=qA, solidangle=exp).to("cm").magnitude, d, "solidangle:distance", rtol=1e-5)
    close(c, cls.solidangle_calc(distance=qd, solidangle=exp).to("cm^2").magnitude, A, "solidangle:area", rtol=1e-5)
    det = xrf.factory("XRFDetector", activearea=qA, mcazero=0, mcagain=0.005, mcanoise=0.1, mcafano=0.1, ehole=3.6)
    close(c, det.activearea.to("cm^2").magnitude, A, "activearea")
    kind = rng.choice(["linear", "plain", "distance"])
    if kind == "linear":
        z = rng.uniform(1, 50)
        sign = rng.choice([1, -1])
        g = xrfgeometries.factory("LinearXRFGeometry", positionsign=sign, positionunits="mm", zerodistance=z, detectorposition=sign * d * 10 - z, detector=det, source=None)
    elif kind == "distance":
        g = xrfgeometries.factory("LinearXRFGeometry", positionunits="mm", zerodistance=rng.uniform(1, 50), distance=qd, detector=det, source=None)
    else:
        g = xrfgeometries.factory("XRFGeometry", distance=qd, detector=det, source=None)
    close(c, g.distance.to("cm").magnitude, d, "geometry:distance", kind=kind)
    close(c, g.solidangle, exp, "geometry:solidangle", rtol=1e-6, atol=1e-12, kind=kind)
    new = rng.uniform(0.01, 5)
    g.solidangle = new
    close(c, g.solidangle, new, "geometry:solidangle:set", rtol=1e-6, kind=kind)
    close(c, cls.solidangle_calc(activearea=qA, distance=g.distance), new, "geometry:solidangle:distance", rtol=1e-6, kind=kind)
    d2 = 10 ** rng.uniform(-1, 1.5)
    g.distance = rng.choice([d2, units.Quantity(d2, "cm").to("mm")])
    close(c, g.solidangle, 2 * np.pi * (1 - d2 / np.hypot(r, d2)), "geometry:solidangle", rtol=1e-6, atol=1e-12, kind=kind)
    c.event("solid angles", 3)


def objects(c, rng):
    """Copies, serialization and equality"""
    kind = rng.choice(GEN)
    att = {}
    mats = [Mat(rng) for _ in range(2)]
    for n, m in zip(["Window", "BeamFilter0"], mats):
        if rng.random() < 0.6:
            att[n] = {"material": m.obj, "thickness": rng.uniform(1e-5, 1e-2)}
    given = copy.copy(att)
    kw = {"attenuators": att} if rng.random() < 0.7 else {}
    opt = dict(ehole=rng.uniform(3, 4), escape=rng.random() < 0.5, pulse_processing_time=rng.choice([0, 1e-6]))
    mk = None
    if kind == "material":
        mk = lambda **o: base.Material(**dict(kw, **o))
    elif kind == "solidstate":
        mk = lambda **o: base.SolidState(**dict(kw, **dict(opt, **o)))
    elif kind == "cone":
        mk = lambda **o: base.CentricCone(**dict(kw, **dict(opt, activearea=0.3, **o)))
    elif kind == "xrf":
        _, k2, shape, p = make_detector(rng, u=rng.choice([None, 7.0]))
        k2.update(kw)
        k2.update(opt)
        mk = lambda **o: xrf.XRFDetector(**dict(k2, **o))
    else:
        name = rng.choice(SHIPPED)
        over = {}
        for k, v in dict(mcazero=0.01, mcagain=0.007, mcanoise=0.08, mcafano=0.13, activearea=0.33, ehole=3.3).items():
            if rng.random() < 0.4:
                over[k] = v
        mk = lambda **o: xrf.factory(name, **dict(kw, **dict(over, **o)))
    a = mk()
    c.key(kind, len(att))
    c.require(att == given, "arguments changed", lambda: "{} {}".format(sorted(att), sorted(given)))
    if kind == "shipped":
        for k, v in over.items():
            got = getattr(a, k)
            got = got.to({"activearea": "cm^2", "ehole": "eV"}[k]).magnitude if k in ("activearea", "ehole") else got
            close(c, got, v, "shipped:argument", name=name, arg=k)
        dflt = xrf.factory(name)
        for k, lo, hi in (("mcagain", 1e-3, 0.05), ("mcanoise", 0.02, 0.3), ("mcafano", 0.05, 0.3)):
            if k not in over:
                c.require(getattr(a, k) == getattr(dflt, k), "shipped:default", lambda: "{} {}".format(name, k))
            c.require(lo <= getattr(dflt, k) <= hi, "shipped:range", lambda: "{} {} {}".format(name, k, getattr(dflt, k)))
    b = mk()
    c.require(a == b and not a != b, "equal")
    if kw and kind != "shipped":
        c.require(set(a.attenuators) == set(given), "attenuators")
    b.adddetectorfilter("Extra", element.Element("Al"), 1e-3)
    c.require(a != b and not a == b, "not equal:filter")
    c.require("Extra" not in a.attenuators and "Extra" not in att, "shared attenuators", kind)
    c.require(a == mk(), "shared attenuators", kind)
    for how, f in (("deepcopy", copy.deepcopy), ("copy", copy.copy), ("pickle", lambda o: pickle.loads(pickle.dumps(o))), ("json", lambda o: jsonpickle.loads(jsonpickle.dumps(o)))):
        o = f(a)
        c.require(o == a and type(o) is type(a), "copy:equal:" + how, lambda: "{} {}\n{}".format(kind, o.__getstate__(), a.__getstate__()))
        if kind in ("solidstate", "cone", "xrf"):
            c.require(o.escape == opt["escape"] and o.pulse_processing_time == opt["pulse_processing_time"] and o.pileup == bool(opt["pulse_processing_time"]), "copy:attributes", kind)
        if kind in ("xrf", "shipped"):
            x = np.linspace(0, 10, 50)
            c.require(np.array_equal(o.lineprofile(x, [5.0]), a.lineprofile(x, [5.0])), "copy:profile")
        e = c.np.uniform(3, 20, 3)
        c.require(np.allclose(o.efficiency(e, e), a.efficiency(e, e), rtol=1e-12), "copy:efficiency")
    if kind == "xrf":
        k = rng.choice(["mcazero", "mcagain", "mcanoise", "mcafano", "ehole", "activearea"])
        v = k2[k] * 1.5 + 0.01
        c.require(mk(**{k: v}) != a and not mk(**{k: v}) == a, "not equal:" + k)
        if shape != "none":
            k = rng.choice(sorted(p))
            q = dict(p)
            q[k] = (not q[k]) if isinstance(q[k], bool) else (q[k] + 0.01 if q[k] < 0.02 or not k.endswith("fraction") else q[k] - 0.01)
            o = mk(**{"shape_fixedarearatios" if shape == "fixed" else "shape_pymca": q})
            c.require(o != a, "not equal:shape", k)
    c.event("objects")


GROUPS = [
    Group("filters", filters, 400, 4000),
    Group("profiles", profiles, 400, 4000),
    Group("conversion", conversion, 300, 3000),
    Group("solidangle", solidangle, 400, 4000),
    Group("objects", objects, 400, 4000),
]
