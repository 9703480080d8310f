"""Quantitative XRF geometries: detector motors, devices that belong together, flux monitors and their calibration."""
import copy
import json
import os
import pickle
import numpy as np
from lib.vp import Group, Discard
from checks.c24 import Mat, close
from spectrocrunch.detectors import diode as diodes
from spectrocrunch.detectors import xrf as xrfdetectors
from spectrocrunch.geometries import qxrf
from spectrocrunch.geometries import xrf as xrfgeometries
from spectrocrunch.instruments import configuration
from spectrocrunch.optics import xray as xrayoptics
from spectrocrunch.patch import jsonpickle
from spectrocrunch.patch.pint import ureg
from spectrocrunch.sources import xray as xraysources

ID = "C27"
LEVEL = "exploration"
RULE = (
    "random histories of motor positions, distances, calibrations and copies of (shipped and generic) geometries against a ledger; fits of "
    "synthetic motor scans; random quantitative setups (shipped and generic, 1-3 detectors) whose devices, filters, angles and references "
    "are replaced in any order, and which are calibrated from synthetic dark and flux measurements (given directly or in a spec file)"
)
Q = ureg.Quantity
U = {"cm": 1.0, "mm": 0.1, "um": 1e-4}
SHIPPED = {"sxm120": (57.0, 1, 0.0), "sxm90": (85.571, 1, 0.0), "microdiff": (-56.667, -1, 10.0), "ID16b_Virtual1": (0.0, 1, 20.0)}


def mag(x, u):
    return np.asarray(x.to(u).magnitude, float)


def clones(o, rng):
    return rng.choice([copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: jsonpickle.loads(jsonpickle.dumps(x))])(o)


def sa_of(A, d):
    r = np.sqrt(A / np.pi)
    return 2 * np.pi * (1 - d / np.hypot(r, d))


class Motor:
    """ledger of a detector on a translation (cm)"""

    def __init__(self, rng):
        self.rng = rng
        self.name = rng.choice(["LinearXRFGeometry", "LinearXRFGeometry"] + sorted(SHIPPED))
        self.area = 10 ** rng.uniform(-1.5, 0.5)
        self.units = "mm"
        det = xrfdetectors.factory("XRFDetector", activearea=Q(self.area, "cm^2"), mcazero=0, mcagain=0.005, mcanoise=0.1, mcafano=0.1, ehole=3.6)
        kw = {}
        if self.name == "LinearXRFGeometry":
            self.units = kw["positionunits"] = rng.choice(sorted(U))
            self.sign = 1
            if rng.random() < 0.6:
                self.sign = kw["positionsign"] = rng.choice([1, -1])
            zero, pos = rng.uniform(2, 8), rng.uniform(-1.5, 10)
            if self.sign < 0:
                zero, pos = -zero, -pos
            given = {"zero", "pos"}
            kw.update(anglein=90, angleout=45)
        else:
            zero, self.sign, pos = SHIPPED[self.name]
            zero, pos = zero / 10, pos / 10
            given = set()
            if rng.random() < 0.3:
                self.units = kw["positionunits"] = rng.choice(sorted(U))
                # the defaults are millimeters
                given = {"zero", "pos"}
            if rng.random() < 0.4:
                given |= {"zero"}
            if rng.random() < 0.4:
                given |= {"pos"}
            if rng.random() < 0.3:
                self.sign = kw["positionsign"] = rng.choice([1, -1])
                given = {"zero", "pos"}
            if given:
                zero, pos = (rng.uniform(2, 8), rng.uniform(-1.5, 10)) if given == {"zero", "pos"} else (zero, pos)
                if self.sign < 0 and given == {"zero", "pos"}:
                    zero, pos = -zero, -pos
                elif "zero" in given:
                    zero = self.sign * rng.uniform(3, 9)
                elif "pos" in given:
                    pos = self.sign * rng.uniform(0.1, 5)
        qty = lambda x: Q(x, "cm").to(rng.choice(sorted(U)))
        if "zero" in given:
            # shipped geometries: millimeters
            u = self.units if self.name == "LinearXRFGeometry" else "mm"
            kw["zerodistance"] = rng.choice([zero / U[u], qty(zero)])
        if "pos" in given:
            u = "mm" if self.name == "ID16b_Virtual1" else self.units
            kw["detectorposition"] = rng.choice([pos / U[u], qty(pos)])
        self.zero, self.pos = zero, pos
        self.obj = xrfgeometries.factory(self.name, detector=det, source=xraysources.factory(rng.choice(["synchrotron", "tube"])), **kw)
        self.kw = kw

    @property
    def distance(self):
        return self.sign * (self.pos + self.zero)


def motor(c, rng):
    m = Motor(rng)
    g = m.obj
    log = []
    c.key(m.name, m.units, m.sign, tuple(sorted(m.kw)))

    def observe():
        info = dict(name=m.name, log=log, kw=m.kw)
        cl = lambda got, exp, sig, **k: close(c, got, exp, sig, **dict(info, **k))
        cl(mag(g.distance, "cm"), m.distance, "distance", rtol=1e-9, atol=1e-9)
        cl(mag(g.detectorposition, "cm"), m.pos, "detectorposition", rtol=1e-9, atol=1e-9)
        cl(g.detectorposition.magnitude, m.pos / U[m.units], "detectorposition:units", rtol=1e-9, atol=1e-7)
        cl(mag(g.zerodistance, "cm"), m.zero, "zerodistance", rtol=1e-9, atol=1e-9)
        if m.distance > 0:
            cl(g.solidangle, sa_of(m.area, m.distance), "solidangle", rtol=1e-5, atol=1e-9)
        c.require("Detector position" in str(g), "str")
        c.event("motor states")

    observe()
    for _ in range(rng.randint(2, 7)):
        op = rng.choice(["position", "position", "distance", "zero", "calibrate", "calibrate2", "solidangle", "copy", "area"])
        x = rng.uniform(0.5, 10)
        qty = Q(x, "cm").to(rng.choice(sorted(U)))
        x_or_q = rng.choice([x, qty])
        log.append((op, x))
        if op == "position":
            m.pos = m.sign * x - m.zero
            p = Q(m.pos, "cm").to(m.units)
            g.detectorposition = rng.choice([p.magnitude, p, p.to("um")])
        elif op == "distance":
            g.distance = x_or_q
            m.pos = m.sign * x - m.zero
        elif op == "zero":
            z = m.sign * x - m.pos
            g.zerodistance = rng.choice([z, Q(z, "cm").to("mm")])
            m.zero = z
        elif op == "calibrate":
            g.calibrate_manually(x_or_q)
            m.zero = m.sign * x - m.pos
        elif op == "calibrate2":
            g.calibrate_distance_manually(x_or_q)
            m.zero = m.sign * x - m.pos
        elif op == "solidangle":
            g.solidangle = sa_of(m.area, x)
            m.pos = m.sign * x - m.zero
            close(c, mag(g.distance, "cm"), x, "solidangle:set", rtol=1e-4, log=log)
            m.pos = float(mag(g.detectorposition, "cm"))
        elif op == "area":
            m.area = 10 ** rng.uniform(-1.5, 0.5)
            g.detector.activearea = Q(m.area, "cm^2").to(rng.choice(["cm^2", "mm^2"]))
        else:
            old, g = g, clones(g, rng)
            c.require(g == old and not g != old and type(g) is type(old), "copy:equal", lambda: "{} {}".format(m.name, log))
            observe()
            # independent
            old.detectorposition = Q(m.pos + 1, "cm")
            c.require(g != old and not g == old, "copy:not equal", lambda: "{} {}".format(m.name, log))
            old.zerodistance = Q(77.0, "cm")
            old.detector.activearea = Q(77.0, "cm^2")
        observe()
    # calibration data are kept in a file
    f = os.path.join(c.dir, "calib.json")
    g.calibrcfile = f
    data = {"signal": c.np.uniform(0, 1, 3).tolist(), "var": [1.0, 2.0, 3.0], "detectorposition": [1.0, 2.0, 3.0]}
    if rng.random() < 0.5:
        data["positionunits"] = "cm"
    g.set_calibrc(copy.deepcopy(data))
    exp = dict(data)
    exp.setdefault("positionunits", m.units)
    c.require(g.get_calibrc() == exp, "calibrc", lambda: "{} {}".format(g.get_calibrc(), exp))
    c.require(json.load(open(f)) == exp, "calibrc:file")


def motorfit(c, rng):
    """A scan of the motor tells distance and area"""
    m = Motor(rng)
    g = m.obj
    zero, A = m.zero, m.area
    r = np.sqrt(A / np.pi)
    n = rng.randint(8, 40)
    # closer and further than the size of the detector
    d = r * np.sort(10 ** c.np.uniform(-0.4, 1.0, n))
    if d.max() / d.min() < 5:
        raise Discard()
    pos = m.sign * d - zero
    rate = 10 ** rng.uniform(0, 5)
    signal = rate * sa_of(A, d)
    u = rng.choice(sorted(U))
    cal = {"positionunits": u, "detectorposition": (pos / U[u]).tolist(), "signal": signal.tolist(), "var": (signal * rng.uniform(0.01, 1)).tolist()}
    how = rng.choice(["file", "argument"])
    mode = rng.choice(["zero", "zero", "area", "calib", "calibfree"])
    c.key(m.name, mode, how, n, u)
    info = dict(name=m.name, mode=mode, kw=m.kw, A=A, zero=zero, u=u)
    kw = {}
    start = zero + m.sign * rng.uniform(-0.3, 0.5) * r
    if mode in ("zero", "area"):
        g.zerodistance = Q(start, "cm")
        if mode == "area":
            kw["fixedactivearea"] = False
            g.detector.activearea = Q(A * rng.uniform(0.7, 1.4), "cm^2")
        elif rng.random() < 0.5:
            kw["fixedactivearea"] = True
    else:
        # the solid angle at the current position is known
        dc = r * rng.uniform(0.7, 4)
        g.detectorposition = Q(m.sign * dc - zero, "cm")
        kw["solidanglecalib"] = sa_of(A, dc)
        if mode == "calib":
            kw["fixedactivearea"] = True
            g.zerodistance = Q(start, "cm")
        else:
            kw["fixedactivearea"] = False
            g.zerodistance = Q(zero + m.sign * rng.uniform(-0.1, 0.2) * r, "cm")
    if how == "file":
        g.calibrcfile = os.path.join(c.dir, "scan.json")
        g.set_calibrc(cal)
    else:
        kw["calibrc"] = cal
    if rng.random() < 0.1:
        kw["plot"] = True
    if rng.random() < 0.3:
        kw["rate"] = rate * rng.uniform(0.8, 1.2)
    try:
        g.calibrate(**kw)
    except (np.linalg.LinAlgError, ValueError):
        if mode in ("area", "calibfree") or zero == 0:
            # the fit of correlated parameters did not converge or
            # the derivative to a parameter which is exactly zero is not defined (silx)
            raise Discard()
        c.require(False, "motorfit:failed", str(info))
    Afit, zfit = float(mag(g.detector.activearea, "cm^2")), float(mag(g.zerodistance, "cm"))
    if kw.get("plot"):
        import matplotlib.pyplot as plt
        plt.close("all")
    ratio = signal / sa_of(Afit, m.sign * (pos + zfit))
    ok = np.isfinite(ratio).all() and ratio.max() / ratio.min() < 1 + 1e-3
    if mode in ("area", "calibfree") and not ok:
        # another (local) minimum
        raise Discard()
    c.require(ok, "motorfit", lambda: "{} A={} zero={} ratio={}".format(info, Afit, zfit, ratio))
    close(c, zfit, zero, "motorfit:zero", rtol=2e-3, atol=2e-3 * r, **info)
    close(c, Afit, A, "motorfit:area", rtol=5e-3 if mode not in ("zero",) else 1e-9, **info)
    if "solidanglecalib" in kw:
        close(c, g.solidangle, kw["solidanglecalib"], "motorfit:solidangle", rtol=1e-3, **info)
    g2 = clones(g, rng)
    close(c, mag(g2.distance, "cm"), mag(g.distance, "cm"), "motorfit:copy")
    str(g)
    c.event("motor fits")


DIODES0 = ["SXM_IODET1", "SXM_IODET2", "ID16B_I0", "ID16B_IC", None]
DIODEST = ["SXM_IDET", "SXM_FDET", "ID16B_IT", "SXM_PTB"]


def make(rng, I0=None, It=None, instrument=None, ngeom=None):
    """generic quantitative setup"""
    kw = dict(instrument=instrument or rng.choice(["sxm", "id16b"]), simplecalibration=rng.random() < 0.5)
    kw["diodeI0"] = I0 or rng.choice(DIODES0[:-1])
    kw["diodeIt"] = It or rng.choice(DIODEST[:-1])
    if rng.random() < 0.3:
        kw["diodeI0"] = diodes.factory(kw["diodeI0"])
    if rng.random() < 0.5:
        kw["optics"] = rng.choice(["kb", "zp", xrayoptics.factory("KB")])
    if rng.random() < 0.5:
        kw["source"] = rng.choice(["tube", "synchrotron", xraysources.factory("synchrotron", polangle=30)])
    n = ngeom if ngeom is not None else rng.randint(1, 3)
    geoms, truth = [], []
    for _ in range(n):
        name = rng.choice(sorted(SHIPPED))
        det = rng.choice(["leia", "bb8", "dr40"])
        p = {}
        if rng.random() < 0.7:
            p["anglein"], p["angleout"] = rng.uniform(20, 90), rng.uniform(10, 80)
        if rng.random() < 0.7:
            p["detectorposition"] = SHIPPED[name][1] * rng.uniform(15, 60)
        d = {}
        if rng.random() < 0.5:
            d["activearea"] = rng.uniform(0.1, 1.5)
        style = rng.choice(["object", "dict", "name"])
        if style == "object":
            g = xrfgeometries.factory(name, **p)
            g.detector = xrfdetectors.factory(det, **d)
        elif style == "dict":
            g = ({"name": name, "parameters": p}, {"name": det, "parameters": d})
        else:
            p, d = {}, {}
            g = (name, det)
        geoms.append(g)
        ref = xrfgeometries.factory(name, **p)
        ref.detector = xrfdetectors.factory(det, **d)
        truth.append(dict(anglein=ref.anglein, angleout=ref.angleout, distance=float(mag(ref.distance, "cm")), position=ref.detectorposition, area=float(mag(ref.detector.activearea, "cm^2")), filters=[], beam=[],
                          base=ref))
    if n == 1 and isinstance(geoms[0], tuple) and isinstance(geoms[0][0], str) and rng.random() < 0.5:
        kw["xrfgeometry"], kw["xrfdetector"] = geoms[0]
    else:
        kw["xrfgeometries"] = geoms
    return kw, truth


def setup(c, rng):
    kw, truth = make(rng)
    s = qxrf.QXRFGeometry(**kw)
    ref = dict(reference=Q(1e10, "Hz"), reftime=None, time=0.1)
    target = s.diodeI0.secondarytarget is not None
    log = []
    c.key(s.diodeI0.__class__.__name__, s.diodeIt.__class__.__name__, len(truth), kw.get("optics") is None, kw["simplecalibration"])
    optics = s.optics
    It_extra = []

    def observe(deep=False):
        info = dict(log=log, n=len(truth))
        cl = lambda got, exp, sig, rtol=1e-9, **k: close(c, got, exp, sig, rtol=rtol, **dict(info, **k))
        # everything belongs to one beam
        for g in s.xrfgeometries:
            c.require(g.source == s.source, "source:geometry", lambda: str(log))
        if s.diodeI0.secondarytarget is not None:
            c.require(s.diodeI0.secondarytarget.geometry.source == s.source, "source:target", lambda: str(log))
        c.require(list(s.diodeI0.optics) == ([] if s.optics is None else [s.optics]), "optics:diode", lambda: "{} {} {}".format(log, s.diodeI0.optics, s.optics))
        if s.optics is not None:
            e = rng.uniform(5, 15)
            t = rng.uniform(0.1, 0.9)
            s.optics.set_transmission(e, t)
            cl(s.diodeI0.optics[0].transmission(e), t, "optics:shared")
            s.optics.reset_transmission()
        c.require(len(s.xrfgeometries) == len(truth), "geometries")
        cl(s.xrf_anglesin, [t["anglein"] for t in truth], "anglesin")
        cl(s.xrf_anglesout, [t["angleout"] for t in truth], "anglesout")
        cl(mag(s.xrf_distances, "cm"), [t["distance"] for t in truth], "distances")
        cl(mag(s.xrf_activeareas, "cm^2"), [t["area"] for t in truth], "areas")
        cl(mag(s.xrf_positions, "cm"), [mag(t["position"], "cm") for t in truth], "positions", atol=1e-9)
        if len(truth) == 1:
            c.require(s.xrfgeometry is s.xrfgeometries[0], "xrfgeometry")
        else:
            try:
                s.xrfgeometry
            except RuntimeError:
                pass
            else:
                c.require(False, "xrfgeometry:several")
        # filters of each detector
        e = c.np.uniform(5, 15, 2)
        for g, t in zip(s.xrfgeometries, truth):
            T = lambda layers: np.exp(-sum((m.mu(e) * m.density * th for m, th in layers), 0 * e))
            b = t["base"]
            # geometries with an atmosphere
            air = g.detector.attenuators.get("Atmosphere", None)
            base = b.detector.filter_transmission(e, source=False)
            if air is not None:
                # follows the distance
                mu = air["material"].mass_att_coeff(e) * air["material"].density
                base = base * np.exp(-mu * (t["distance"] - float(mag(b.distance, "cm"))))
            cl(g.detector.filter_transmission(e, source=True), T(t["beam"]), "filters:beam")
            cl(g.detector.filter_transmission(e, source=False), base * T(t["filters"]), "filters:detector", rtol=1e-6)
        T = np.exp(-sum((m.mu(e) * m.density * th for m, th in It_extra), 0 * e))
        cl(s.diodeIt.filter_transmission(e, source=True), T, "filters:transmission")
        # reference
        cl(mag(s.defaultexpotime, "s"), ref["time"], "time")
        if ref["reftime"] is None:
            c.require(s.defaultreferencetime is None, "reftime")
        else:
            cl(mag(s.defaultreferencetime, "s"), ref["reftime"], "reftime")
        cl(s.reference.to(ref["reference"].units).magnitude, ref["reference"].magnitude, "reference")
        str(s)
        c.event("setup states")
        if not deep:
            return
        # flux from counts
        energy = rng.choice([rng.uniform(5, 15), c.np.uniform(5, 15, 2)])
        w = c.np.uniform(0.2, 2, 2) if np.ndim(energy) and rng.random() < 0.7 else None
        t = rng.choice([None, rng.uniform(0.05, 2)])
        tv = ref["time"] if t is None else t
        tgive = t if t is None else rng.choice([t, Q(t, "s"), Q(t * 1000, "ms")])
        x = 10 ** c.np.uniform(3, 6, 3)
        unit = lambda op, v: np.asarray([float(mag(op(Q(i, "dimensionless")), "Hz").ravel()[0]) for i in v])
        counts = lambda d, v: mag(d.cpstoflux(energy, v / tv, weights=w), "Hz").ravel()
        same = len({tuple((id(m), th) for m, th in t_["beam"]) for t_ in truth}) == 1
        if len(truth) and np.ndim(energy):
            wt = np.ones(2) if w is None else w
            T = np.sum(np.exp(-sum((m.mu(energy) * m.density * th for m, th in truth[0]["beam"]), 0 * energy)) * wt) / wt.sum()
        elif len(truth):
            e1 = np.array([energy])
            T = np.exp(-sum((m.mu(e1) * m.density * th for m, th in truth[0]["beam"]), 0 * e1))[0]
        for name, d in (("I0op", s.diodeI0), ("Itop", s.diodeIt)):
            if name == "Itop" and w is not None and rng.random() < 0.5:
                continue
            op, tt = getattr(s, name)(energy, expotime=tgive, weights=w)
            cl(unit(op, x), counts(d, x), name, rtol=1e-6)
            if same:
                op, tt = getattr(s, name)(energy, expotime=tgive, weights=w, removebeamfilters=True)
                cl(unit(op, x), counts(d, x) / T, name + ":beamfilters", rtol=1e-6)
            else:
                try:
                    getattr(s, name)(energy, expotime=tgive, weights=w, removebeamfilters=True)
                except RuntimeError:
                    pass
                else:
                    c.require(False, name + ":different beam filters")
        cps = 10 ** c.np.uniform(3, 6, 3)
        F = mag(s.diodeI0.cpstoflux(energy, cps, weights=w), "Hz")
        cl(s.responsetoflux(energy, cps, weights=w), F, "responsetoflux")
        cl(np.ravel(s.fluxtocps(energy, np.ravel(F), weights=w)), cps, "fluxtocps", rtol=1e-6)
        # normalization
        k = {}
        if t is not None:
            k["expotime"] = tgive
        reference, reftime = ref["reference"], ref["reftime"]
        if rng.random() < 0.5:
            reference = rng.choice([Q(10 ** rng.uniform(8, 11), "Hz"), Q(10 ** rng.uniform(3, 5), "dimensionless")])
            k["reference"] = reference if reference.units == ureg.Hz or rng.random() < 0.5 else reference.magnitude
        if rng.random() < 0.5:
            reftime = rng.uniform(0.05, 2)
            k["referencetime"] = rng.choice([reftime, Q(reftime, "s")])
        if reference.units == ureg.Hz:
            Fref = reference.magnitude
        else:
            Fref = counts(s.diodeI0, np.array([reference.to("dimensionless").magnitude]))[0]
            lead = Fref / 10 ** np.floor(np.log10(Fref)) * 10
            if abs(lead % 1 - 0.5) < 1e-3:
                raise Discard()
            Fref = float("{:.1e}".format(Fref))
        tref = tv if reftime is None else reftime
        op, gF, gt, gtime = s.xrfnormop(energy, weights=w, **k)
        info = dict(info, k=k)
        cl(np.ravel(gF), [Fref], "xrfnormop:flux", rtol=1e-6)
        cl(gt, tref, "xrfnormop:reference time")
        cl(gtime, tv, "xrfnormop:time")
        cl(np.ravel(op(x)), counts(s.diodeI0, x) * tv / (Fref * tref), "xrfnormop", rtol=1e-5)
        op, quants = s.quantinfo(energy, weights=w, **k)
        cl(np.ravel(op(x)), counts(s.diodeI0, x) * tv / (Fref * tref), "quantinfo", rtol=1e-5)
        c.require(len(quants) == len(truth), "quantinfo")
        for q, t_ in zip(quants, truth):
            cl(np.ravel(q["flux"]), [Fref], "quantinfo:flux", rtol=1e-6)
            cl(q["time"], tref, "quantinfo:time")
            cl(q["anglein"], t_["anglein"], "quantinfo:anglein")
            cl(q["angleout"], t_["angleout"], "quantinfo:angleout")
            cl(mag(q["distance"], "cm"), t_["distance"], "quantinfo:distance")
            cl(mag(q["activearea"], "cm^2"), t_["area"], "quantinfo:area")
        c.event("flux operators")

    observe()
    deep = False
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(["optics", "source", "diodeI0", "diodeIt", "angles", "distances", "positions", "areas", "covers", "filters", "beam", "onebeam", "transmission", "reference", "copy", "geometries"])
        log.append(op)
        n = len(truth)
        mats = lambda: [(Mat(rng, simple=True), 10 ** rng.uniform(-5, -3)) for _ in range(rng.randint(1, 2))]
        if op == "optics":
            s.optics = rng.choice([None, "kb", "zp", xrayoptics.factory("KB")])
        elif op == "source":
            s.source = rng.choice(["tube", "synchrotron", xraysources.factory("synchrotron", polangle=10)])
        elif op == "diodeI0":
            s.diodeI0 = rng.choice(DIODES0[:-1])
        elif op == "diodeIt":
            s.diodeIt = rng.choice(DIODEST[:-1])
            It_extra = []
        elif op == "angles":
            a, b = c.np.uniform(20, 90, n).tolist(), c.np.uniform(10, 80, n).tolist()
            s.xrf_anglesin, s.xrf_anglesout = a, b
            for t, i, j in zip(truth, a, b):
                t["anglein"], t["angleout"] = i, j
        elif op == "distances":
            d = c.np.uniform(2, 12, n)
            s.xrf_distances = rng.choice([d, d.tolist(), Q(d, "cm"), Q(d * 10, "mm")])
            for t, i, g in zip(truth, d, s.xrfgeometries):
                t["distance"] = i
                t["position"] = Q(SHIPPED_SIGN(t) * i - float(mag(t["base"].zerodistance, "cm")), "cm")
        elif op == "positions":
            d = c.np.uniform(2, 12, n)
            p = np.array([SHIPPED_SIGN(t) * i - float(mag(t["base"].zerodistance, "cm")) for t, i in zip(truth, d)])
            s.xrf_positions = rng.choice([Q(p, "cm"), p * 10, Q(p * 10, "mm")])
            for t, i, j in zip(truth, d, p):
                t["distance"], t["position"] = i, Q(j, "cm")
        elif op == "areas":
            d = c.np.uniform(0.1, 2, n)
            s.xrf_activeareas = rng.choice([d, Q(d, "cm^2"), Q(d * 100, "mm^2")])
            for t, i in zip(truth, d):
                t["area"] = i
        elif op in ("covers", "filters", "beam"):
            lst = mats()
            f = {"covers": s.addsamplecovers, "filters": s.adddetectorfilters, "beam": s.addbeamfilters}[op]
            num = len(log)
            f([("f{}_{}".format(num, i), m.obj, th) if op != "beam" else (None, m.obj, th) for i, (m, th) in enumerate(lst)])
            for t in truth:
                t["beam" if op == "beam" else "filters"].extend(lst if op != "covers" else [])
                if op == "covers":
                    # seen by the beam and by the fluorescence
                    t["beam"].extend(lst)
                    t["filters"].extend(lst)
        elif op == "onebeam":
            i = rng.randrange(n)
            m, th = mats()[0]
            s.xrfgeometries[i].detector.addbeamfilter(None, m.obj, th)
            truth[i]["beam"].append((m, th))
        elif op == "transmission":
            lst = mats()
            s.addtransmissionfilters([("any", m.obj, th) for m, th in lst])
            It_extra = It_extra + lst
        elif op == "reference":
            ref["reference"] = rng.choice([Q(10 ** rng.uniform(8, 11), "Hz"), Q(10 ** rng.uniform(3, 5), "dimensionless")])
            s.reference = ref["reference"] if ref["reference"].units == ureg.dimensionless else rng.choice([ref["reference"], ref["reference"].to("kHz")])
            ref["reftime"] = rng.choice([None, rng.uniform(0.05, 2)])
            s.defaultreferencetime = ref["reftime"] if ref["reftime"] is None else rng.choice([ref["reftime"], Q(ref["reftime"], "s").to("ms")])
            ref["time"] = rng.uniform(0.05, 2)
            s.defaultexpotime = rng.choice([ref["time"], Q(ref["time"], "s").to("ms")])
        elif op == "geometries":
            k2, truth = make(rng, ngeom=rng.randint(1, 3))
            lst = k2.get("xrfgeometries", [(k2.get("xrfgeometry"), k2.get("xrfdetector"))])
            s.xrfgeometries = lst
        else:
            old, s = s, clones(s, rng)
            c.require(s == old and not s != old and type(s) is type(old), "copy:equal", lambda: str(log))
            k = rng.choice(["anglein", "reference", "filter", "diode", "simple", "time"])
            if k == "anglein":
                old.xrfgeometries[0].anglein = 11
            elif k == "reference":
                old.reference = Q(1.2345, "Hz")
            elif k == "filter":
                old.addbeamfilters([(None, Mat(rng, simple=True).obj, 1.0)])
            elif k == "diode":
                old.diodeI0.darkcurrent = Q(1.2345e-9, "A")
            elif k == "simple":
                old.simplecalibration = not old.simplecalibration
            else:
                old.defaultexpotime = 12.345
            c.require(s != old and not s == old, "copy:not equal:" + k, lambda: str(log))
        observe()
    s.simplecalibration = False
    if target and rng.random() < 0.7:
        # (slow)
        s.diodeI0 = "ID16B_I0"
    observe(deep=True)


def SHIPPED_SIGN(t):
    return SHIPPED[type(t["base"]).__name__][1]


FAMILY = {
    "sxm": (["SXM_IODET1", "SXM_IODET2"], ["SXM_IDET"], lambda rng: 10.0 ** rng.randint(4, 9), "V/A"),
    "id16b": (["ID16B_IC"], ["ID16B_IT"], lambda rng: 2.1 * 10.0 ** rng.randint(-9, -5), "A"),
}


def ESHIFT(rng):
    return rng.uniform(4.5, 15)


def specfile(path, motors, columns):
    n = len(next(iter(columns.values())))
    with open(path, "w") as f:
        f.write("#F {}\n#E 1234567\n#D Thu Jan 01 00:00:00 2015\n".format(path))
        names = list(motors)
        f.write("#O0 {}\n\n".format("  ".join(names)))
        f.write("#S 1 ascan  samy 0 1 {} 0.1\n#D Thu Jan 01 00:00:00 2015\n".format(n - 1))
        f.write("#P0 {}\n#N {}\n#L {}\n".format(" ".join(repr(float(motors[k])) for k in names), len(columns), "  ".join(columns)))
        for row in zip(*columns.values()):
            f.write(" ".join(repr(float(v)) for v in row) + "\n")
        f.write("\n")


def calibrate(c, rng):
    fam = rng.choice(sorted(FAMILY))
    I0s, Its, mkgain, ugain = FAMILY[fam]
    kw, truth = make(rng, I0=rng.choice(I0s), It=rng.choice(Its), instrument=fam, ngeom=1)
    I0name, Itname = type(s0).__name__ if (s0 := kw["diodeI0"]) is not None and not isinstance(s0, str) else kw["diodeI0"], kw["diodeIt"]
    prefix = {}
    if fam == "id16b" and rng.random() < 0.5:
        prefix["fluxid"] = "IC"
    if rng.random() < 0.5:
        kw["defaultexpotime"] = Q(rng.uniform(0.05, 2), "s")
    kw["optics"] = rng.choice(["KB", None]) if kw["simplecalibration"] else "KB"
    s = qxrf.QXRFGeometry(**kw, **prefix)
    ID0 = prefix.get("fluxid", "I0")
    gain0, gaint = mkgain(rng), mkgain(rng)
    spec = fam == "sxm" and rng.random() < 0.4
    nstep = rng.choice([1, 1, 2, 3])
    c.key(fam, I0name, kw["optics"], kw["simplecalibration"], spec, nstep)
    # the truth: current = charge per photon x flux + dark
    dark0, darkt = [rng.choice([0, 10 ** rng.uniform(-12, -10)]) for _ in range(2)]
    conf = {"sxm": (1e6, 10.0, 10.0), "id16b": (50e6, 2.5, 2.1)}[fam]

    def cps_of(I, gain):
        """counts per second of the diode"""
        fmax, vosc, vmax = conf
        R = gain if fam == "sxm" else vmax / gain
        return I * R * fmax / vosc

    quiet = diodes.factory(Itname)
    quiet.gain = Q(gaint, ugain)
    quiet.darkcurrent = darkt
    log = []

    def call(**p):
        """some of it may be measured otherwise"""
        t = p.pop("t")
        give = {}
        if spec:
            d = os.path.join(c.dir, "data")
            sample, dset = rng.choice(["samp", None]), "dset{}".format(len(log))
            f = os.path.join(d, "samp", "samp_" + dset, "samp_{}.dat".format(dset)) if sample else os.path.join(d, dset)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            cols = {}
            n = np.size(p["x0"])
            cols["iodet"], cols["idet"], cols["seconds"] = np.atleast_1d(p["x0"]) * t, np.atleast_1d(p["xt"]) * t, np.full(n, t)
            if "flux" in p:
                cols["photons"] = np.atleast_1d(p["flux"]) * t
            motors = {"diodeIoZ": 7 if I0name == "SXM_IODET1" else 23, "istopz": -20 if I0name == "SXM_IODET2" else -1.3, "Energy MONO": p.get("energy", 5.0), "zpz": 7 if s.optics is not None else 6.5, "detz": 10}
            if rng.random() < 0.5 and "energy" in p:
                cols["energym"] = np.full(n, p["energy"])
            elif rng.random() < 0.5 and "energy" in p:
                motors["energym"] = p["energy"]
                motors["Energy MONO"] = p["energy"] + 1.0
            specfile(f, motors, cols)
            give = dict(base=d, dataset=dset, specnr=1)
            if sample:
                give["sample"] = sample
        else:
            if rng.random() < 0.4:
                give["time"] = rng.choice([t, Q(t, "s"), Q(t * 1000, "ms")])
            else:
                t = float(mag(s.defaultexpotime, "s"))
            how = rng.choice(["counts", "cps"])
            f = t if how == "counts" else 1
            u = "dimensionless" if how == "counts" else "Hz"
            for k, x in ((ID0, p["x0"]), (s.transmissionid, p["xt"])):
                v = x * f
                give["{}_{}".format(k, how)] = rng.choice([v, Q(v, u)] + ([v.tolist()] if np.ndim(v) else []))
            if "flux" in p:
                if rng.random() < 0.5:
                    give["{}_photons".format(s.transmissionid)] = p["flux"] * t
                else:
                    give["{}_flux".format(s.transmissionid)] = rng.choice([p["flux"], Q(p["flux"], "Hz")])
            if "I0" in p:
                give["{}_current".format(ID0)] = Q(p["I0"], "A")
                if rng.random() < 0.5:
                    give["{}_current".format(ID0)] = Q(p["I0"], "A").to("pA")
            if "It" in p:
                give["{}_current".format(s.transmissionid)] = Q(p["It"], "A").to(rng.choice(["A", "pA"]))
            if "energy" in p:
                give["energy"] = rng.choice([p["energy"], Q(p["energy"], "keV"), Q(p["energy"] * 1000, "eV")])
            if p.get("motors"):
                give["motors"] = p["motors"]
        for k in ("dark", "gaindiodeI0", "gaindiodeIt", "fixdark", "caliboption", "fluxmin", "fluxmax", "calibrate", "resetdevices"):
            if k in p:
                give[k] = p[k]
        log.append(give)
        return give

    g0 = lambda: rng.choice([gain0, Q(gain0, ugain)])
    gt = lambda: rng.choice([gaint, Q(gaint, ugain)])
    t = rng.uniform(0.05, 2)
    # dark
    darkdone = rng.random() < 0.8
    if darkdone:
        n = rng.choice([0, 1, 5])
        noise = lambda: c.np.uniform(0.9, 1.1, n) if n else 1.0
        if spec and not n:
            noise = lambda: np.ones(3)
        nz0, nzt = noise(), noise()
        x0, xt = cps_of(dark0 * nz0, gain0), cps_of(darkt * nzt, gaint)
        p = call(t=t, x0=x0, xt=xt, dark=True, gaindiodeI0=g0(), gaindiodeIt=gt())
        if rng.random() < 0.2:
            before = pickle.dumps((s.diodeI0.darkcurrent, s.diodeIt.darkcurrent))
            q = dict(p, **rng.choice([dict(calibrate=False), dict(fixdark=True)]))
            s.calibrate_diodes(**q)
            c.require(pickle.dumps((s.diodeI0.darkcurrent, s.diodeIt.darkcurrent)) == before, "dark:not asked")
        s.calibrate_diodes(**p)
        dark0, darkt = dark0 * np.median(nz0), darkt * np.median(nzt)
        close(c, mag(s.diodeI0.darkcurrent, "A"), dark0, "dark:I0", rtol=1e-6, atol=1e-20, log=log)
        close(c, mag(s.diodeIt.darkcurrent, "A"), darkt, "dark:It", rtol=1e-6, atol=1e-20, log=log)
        quiet.darkcurrent = darkt
    else:
        darkt = 0.0
        quiet.darkcurrent = 0
    e0 = ESHIFT(rng)
    energies = [e0 + 1.3 * i for i in range(nstep)]
    if rng.random() < 0.5:
        energies.reverse()
    base, steps, qs = {}, [], []
    common = dict(fixdark=True)
    option = "optics" if (s.optics is not None or kw["simplecalibration"]) else "thickness"
    if rng.random() < 0.5:
        common["caliboption"] = option
    refd = clones(s.diodeI0, rng)
    refd.gain = Q(gain0, ugain)
    refd.simplecalibration = False
    for energy in energies:
        n = rng.choice([0, 1, 3, 10])
        if spec:
            n = max(n, 2)
        flux = 10 ** c.np.uniform(8, 10, n) if n else 10 ** rng.uniform(8, 10)
        # what it would be without optics, and some of it
        q = (mag(refd.fluxtocurrent(energy, 1e10), "A").ravel()[0] - mag(refd.darkcurrent, "A")) / 1e10 * rng.uniform(1.1, 3)
        qs.append(q)
        I0 = flux * q + (dark0 if darkdone else 0)
        It = mag(quiet.fluxtocurrent(energy, flux), "A").reshape(np.shape(flux))
        p = dict(t=t, x0=cps_of(I0, gain0), xt=cps_of(It, gaint), energy=energy, dark=False, **common)
        if n >= 3 and darkdone and rng.random() < 0.4:
            p["fixdark"] = False
        how = rng.choice(["asked", "asked", "data", "both", "current"])
        if spec and how == "current":
            how = "data"
        if how in ("data", "both"):
            # the gain of It follows from its flux
            p["flux"] = flux
        elif how == "current":
            p["I0"], p["It"] = I0, It
        p["gaindiodeI0"] = g0()
        if how in ("asked", "both"):
            p["gaindiodeIt"] = gt()
        if how == "current" and rng.random() < 0.5:
            p.pop("gaindiodeI0")
        steps.append(call(**p))
    if rng.random() < 0.3 and len(steps) > 1:
        # what is the same for all sets
        same = {k: v for k, v in steps[0].items() if all(k in p and p[k] is v for p in steps)}
        if rng.random() < 0.5:
            # an earlier set which is not used
            steps.insert(0, dict(steps[-1], calibrate=False))
        given = dict(same)
        s.batchcalibrate_diodes(given, [{k: v for k, v in p.items() if k not in same} for p in steps])
        c.require(given == same, "batch:arguments changed", lambda: "{} {}".format(given, same))
    else:
        if rng.random() < 0.3:
            p = dict(steps[0], calibrate=False)
            s.calibrate_diodes(**p)
        for p in steps:
            s.calibrate_diodes(**p)
    if rng.random() < 0.3:
        s = clones(s, rng)
    close(c, mag(s.diodeI0.gain, ugain), gain0, "gain:I0", rtol=1e-6, log=log)
    close(c, mag(s.diodeIt.gain, ugain), gaint, "gain:It", rtol=1e-6, log=log)
    x = 10 ** c.np.uniform(8, 10, 3)
    check = list(zip(energies, qs))
    for energy, q in check:
        cps = cps_of(x * q + (dark0 if darkdone else 0), gain0)
        close(c, np.ravel(s.responsetoflux(energy, cps)), x, "calibrated", rtol=2e-3, energy=energy, energies=energies, log=log, fam=fam, optics=kw["optics"], simple=kw["simplecalibration"])
        tt = rng.uniform(0.05, 2)
        op, _ = s.I0op(energy, expotime=tt)
        got = [float(mag(op(Q(v, "dimensionless")), "Hz").ravel()[0]) for v in cps * tt]
        close(c, got, x, "calibrated:I0op", rtol=2e-3)
    # refused: other devices, other gain
    if not spec:
        p = dict(steps[0])
        p.pop("motors", None)
        keep = jsonpickle.dumps(s)
        bad = rng.choice(["nogain", "gain", "diode"] if fam == "sxm" else ["nogain"])
        if bad == "nogain":
            p.pop("gaindiodeI0", None)
            for k in [k for k in p if k.endswith(("_current", "_flux", "_photons"))]:
                p.pop(k)
        elif bad == "gain":
            p["gaindiodeIt"] = gaint * 100
            p["{}_flux".format(s.transmissionid)] = mag(quiet.cpstoflux(energies[0], 1000.0), "Hz").ravel()[0] * 1.0
            p["{}_cps".format(s.transmissionid)] = 1000.0
            for k in [k for k in p if k.endswith(("_current", "_photons", "_counts"))]:
                p.pop(k)
            p["{}_cps".format(ID0)] = 1000.0
            p["gaindiodeI0"] = gain0
        else:
            p["motors"] = {"ioz": 7} if I0name == "SXM_IODET2" else {"istopz": -20}
        try:
            s.calibrate_diodes(**p)
        except RuntimeError:
            pass
        else:
            c.require(False, "accepted:" + bad, lambda: "{}".format(p))
    if fam == "sxm":
        # the data tells the devices
        r = qxrf.QXRFGeometry(instrument="sxm", diodeI0=rng.choice([None, I0name]), diodeIt=rng.choice([None, Itname]), optics=rng.choice([None, "kb"]))
        m = {"ioz": 7 if I0name == "SXM_IODET1" else 23, "istopz": -20 if I0name == "SXM_IODET2" else -1.3, "detz": 10, "zpz": rng.choice([6.5, 7])}
        r.calibrate_diodes(I0_counts=100, It_counts=100, time=1, dark=True, gaindiodeI0=gain0, gaindiodeIt=gaint, motors=m, resetdevices=True)
        c.require(type(r.diodeI0).__name__ == I0name and type(r.diodeIt).__name__ == Itname, "resetdevices:diodes", lambda: "{} {}".format(r.diodeI0, r.diodeIt))
        c.require((r.optics is None) == (m["zpz"] == 6.5), "resetdevices:optics", lambda: "{} {}".format(r.optics, m))
        close(c, mag(r.diodeI0.cpstocurrent(100.0), "A"), mag(r.diodeI0.darkcurrent, "A"), "resetdevices:dark", rtol=1e-9)
    c.event("calibrations")


NAMES = ["SXM", "SXM1", "SXM2", "SXM1_Unfocused", "SXM2_Unfocused", "sxm1_kb", "sxm2_kb", "sxm1"]


def shipped(c, rng):
    name = rng.choice(NAMES)
    over = {}
    for k, v in dict(diodeI0="SXM_IODET2", diodeIt="SXM_FDET", xrfdetector="dr40", xrfgeometry="sxm90", optics="zp", simplecalibration=False, reference=Q(3e9, "Hz"), defaultexpotime=Q(0.3, "s"), defaultreferencetime=Q(0.7, "s"), fluxid="X", transmissionid="Y", source="tube", instrument="id16b").items():
        if rng.random() < 0.3:
            over[k] = v
    s = qxrf.factory(name, **over)
    c.key(name, tuple(sorted(over)))
    n = name.lower()
    diode0 = over.get("diodeI0", "SXM_IODET1" if n.startswith("sxm1") else "SXM_IODET2" if n.startswith("sxm2") else None)
    c.require((s.diodeI0 is None) if diode0 is None else type(s.diodeI0).__name__ == diode0, "shipped:I0", name)
    c.require(type(s.diodeIt).__name__ == over.get("diodeIt", "SXM_IDET"), "shipped:It", name)
    opt = {"zp": "ZonePlate"}.get(over.get("optics"), None if n == "sxm" or n.endswith("unfocused") else "KB")
    c.require((s.optics is None) if opt is None else type(s.optics).__name__ == opt, "shipped:optics", name)
    c.require(type(s.xrfgeometry).__name__ == over.get("xrfgeometry", "sxm120"), "shipped:geometry")
    c.require(type(s.xrfgeometry.detector).__name__.lower() == over.get("xrfdetector", "leia"), "shipped:detector")
    c.require(s.instrument == configuration.factory(over.get("instrument", "sxm")), "shipped:instrument")
    c.require(s.simplecalibration == over.get("simplecalibration", True), "shipped:simplecalibration")
    c.require(type(s.source).__name__.lower() == over.get("source", "synchrotron"), "shipped:source")
    close(c, mag(s.reference, "Hz"), mag(over.get("reference", Q(1e10, "Hz")), "Hz"), "shipped:reference")
    close(c, mag(s.defaultexpotime, "s"), over.get("defaultexpotime", Q(0.1, "s")).magnitude, "shipped:time")
    c.require(s.fluxid == over.get("fluxid", "I0") and s.transmissionid == over.get("transmissionid", "It"), "shipped:id")
    o = clones(s, rng)
    c.require(o == s and not o != s and type(o) is type(s), "shipped:copy")
    c.require(o.__getstate__().keys() == s.__getstate__().keys() and str(o) == str(s), "shipped:str")
    for lst, some in ((qxrf.list_detectors, "Leia"), (qxrf.list_sources, "Synchrotron"), (qxrf.list_optics, "KB"), (qxrf.list_geometries, "sxm120"), (qxrf.list_diodes, "SXM_IDET"), (qxrf.list_instruments, "ESRF_ID21_SXM")):
        c.require(some in lst(), "shipped:list", some)
    c.event("shipped setups")


GROUPS = [
    Group("motor", motor, 400, 10000),
    Group("motorfit", motorfit, 80, 2000),
    Group("setup", setup, 120, 3000),
    Group("calibrate", calibrate, 60, 1500),
    Group("shipped", shipped, 60, 1000),
]
