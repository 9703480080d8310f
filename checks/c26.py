"""Diodes: from photons to charge, voltage and counts, and back; their calibration."""
import copy
import pickle
import numpy as np
import scipy.interpolate
from lib.vp import Group, Discard
from checks.c24 import Mat, close, make_stack
from spectrocrunch.detectors import diode
from spectrocrunch.geometries import diode as diodegeometries
from spectrocrunch.materials import element, multilayer
from spectrocrunch.optics import xray as xrayoptics
from spectrocrunch.patch import jsonpickle
from spectrocrunch.patch.pint import ureg
from spectrocrunch.sources import xray as xraysources
from spectrocrunch.utils import lut, units

ID = "C26"
LEVEL = "exploration"
RULE = (
    "random diodes (shipped and generic: gain in V/A or A, dark current, oscillator, filters, optics, secondary target, before or "
    "after the sample) and sources (1-3 lines, 1-3 sources, weights); every conversion between photons, charge, voltage, frequency "
    "and counts compared with its formula and its inverse; calibrations against synthetic data; look-up tables against dictionaries"
)
Q = ureg.Quantity
E = 1.602176634e-19


def mag(x, u):
    return np.asarray(x.to(u).magnitude, float)


class Ref:
    """A diode and what it is made of"""

    def __init__(self, c, rng, kind=None, target=None, optics=True):
        self.rng = rng
        kind = self.kind = kind or rng.choice(["generic", "generic", "generic", "generic", "SXM_IDET", "SXM_IDET", rng.choice(["SXM_IODET1", "SXM_IODET2"]), "ID16B_I0", "ID16B_IT", "SXM_PTB"])
        self.optics, kw = [], {}
        if optics and rng.random() < 0.6:
            devs = []
            for _ in range(rng.randint(1, 2)):
                if rng.random() < 0.5:
                    m, t = Mat(rng, simple=True), 10 ** rng.uniform(-5, -3)
                    dev = xrayoptics.factory("Filter", material=m.obj, thickness=t)
                    self.optics.append((m, t))
                else:
                    dev = xrayoptics.factory(rng.choice(["KB", "ZonePlate"]))
                    tab = {}
                    for _ in range(rng.randint(0, 3)):
                        tab[round(rng.uniform(3, 20), 2)] = rng.uniform(0.1, 0.9)
                    for en, tr in tab.items():
                        dev.set_transmission(en, tr)
                    self.optics.append(tab)
                devs.append(dev)
            kw["optics"] = devs[0] if len(devs) == 1 and rng.random() < 0.5 else devs
        self.target = None
        self.response = None
        if kind == "generic":
            self.amp = rng.random() < 0.4
            self.vmax = rng.uniform(1, 12)
            self.osc = dict(Fmax=10 ** rng.uniform(5, 8), F0=rng.choice([0, 10 ** rng.uniform(0, 3)]), Vmax=rng.uniform(1, 12))
            self.gain = 10 ** rng.uniform(-9, -5) if self.amp else 10 ** rng.uniform(4, 9)
            self.dark = rng.choice([0, 10 ** rng.uniform(-13, -9)])
            self.before = rng.random() < 0.5
            self.mat, self.thick = (Mat(rng, simple=True) if rng.random() < 0.4 else None), 10 ** rng.uniform(-4, -1.5)
            if self.mat is None:
                self.mat = Mat(rng, simple=True)
                self.mat.obj, self.mat.w, self.mat.density = element.Element("Si"), {"Si": 1.0}, element.Element("Si").density
            self.ehole = rng.uniform(2.5, 5)
            if rng.random() < 0.3:
                self.vmax_given = False
                self.vmax = self.osc["Vmax"]
            else:
                kw["Vmax"] = Q(self.vmax, "volt")
            if target or (target is None and rng.random() < 0.15):
                kw["secondarytarget"] = self.target = self.make_target(rng)
            o = diode.Oscillator(Fmax=Q(self.osc["Fmax"], "Hz"), F0=Q(self.osc["F0"], "Hz"), Vmax=Q(self.osc["Vmax"], "volt"))
            gain = Q(self.gain, "ampere" if self.amp else "volt/ampere")
            if rng.random() < 0.3:
                gain = gain.to("uA" if self.amp else "V/uA")
            self.obj = diode.NonCalibratedPNdiode(
                gain=gain, darkcurrent=Q(self.dark, "A").to(rng.choice(["A", "nA", "elementary_charge/s"])), oscillator=o, ehole=Q(self.ehole, "eV"), beforesample=self.before,
                attenuators={"Detector": {"material": self.mat.obj, "thickness": self.thick}}, **kw)
            if self.target is not None:
                self.target.geometry.detector = self.obj
        else:
            self.obj = diode.factory(kind, **kw)
            o = self.obj
            self.mat = Mat(rng, simple=True)
            self.mat.obj, self.mat.w, self.mat.density = o.material, {"Si": 1.0}, element.Element("Si").density
            self.amp = kind.startswith("ID16B")
            self.gain = 2.1 * 10.0 ** rng.randint(-9, -5) if self.amp else 10.0 ** rng.randint(4, 9)
            # settings of the ammeter are powers
            o.gain = self.gain * rng.uniform(0.75, 1.3) if rng.random() < 0.5 else Q(self.gain, "ampere" if self.amp else "volt/ampere")
            self.dark = rng.choice([0, 10 ** rng.uniform(-13, -9)])
            if self.dark or rng.random() < 0.5:
                o.darkcurrent = rng.choice([self.dark, Q(self.dark, "A").to("pA")])
            self.before = kind in ("SXM_IODET1", "SXM_IODET2", "ID16B_I0")
            self.ehole, self.thick = mag(o.ehole, "eV"), o.thickness
            if rng.random() < 0.5 and kind != "SXM_PTB":
                o.thickness = self.thick = 10 ** rng.uniform(-4, -1.5)
            if kind == "SXM_PTB":
                self.osc = None
            elif self.amp:
                self.osc, self.vmax = dict(Fmax=50e6, F0=0, Vmax=2.5), 2.1
            else:
                self.osc, self.vmax = dict(Fmax=1e6, F0=0, Vmax=10), 10
            if kind.startswith("SXM_IODET"):
                self.target = o.secondarytarget
                if rng.random() < 0.5:
                    o.geometry.solidangle = rng.uniform(0.05, 3)
            if kind == "SXM_IDET":
                self.response = scipy.interpolate.interp1d(o.menergy, mag(o.mresponse, "A/W"), bounds_error=False)
        self.beam, self.filt = [], []
        if kind == "ID16B_IT":
            air = Mat(rng, simple=True)
            air.obj = o.attenuators["Atmosphere"]["material"]
            air.w, air.density = dict(air.obj.elemental_massfractions()), air.obj.density
            air.w = {str(k): v for k, v in air.w.items()}
            self.filt.append((air, 80.0))
        for _ in range(rng.choice([0, 0, 1, 2])):
            m, t = Mat(rng, simple=True), 10 ** rng.uniform(-5, -3)
            w = rng.choice(["beam", "det"])
            if w == "beam":
                self.obj.addbeamfilter(None, m.obj, t)
                self.beam.append((m, t))
            else:
                self.obj.adddetectorfilter("Filter{}".format(len(self.filt)), m.obj, t)
                self.filt.append((m, t))

    def make_target(self, rng):
        geom = diodegeometries.factory("sxm_iodet", source=xraysources.factory("synchrotron"), solidangle=rng.uniform(0.1, 4), anglein=rng.uniform(30, 90), angleout=rng.uniform(20, 80))
        mats = [Mat(rng, simple=True) for _ in range(rng.randint(1, 2))]
        t = [10 ** rng.uniform(-5, -4) for _ in mats]
        self.layers = list(zip(mats, t, [geom.anglein] * len(mats)))
        return multilayer.Multilayer(material=[m.obj for m in mats], thickness=t, geometry=geom)

    @staticmethod
    def T(layers, e):
        return np.exp(-sum((m.mu(e) * m.density * t for m, t in layers), 0 * e))

    def transmission_optics(self, e):
        T = np.ones_like(e)
        for o in self.optics:
            if isinstance(o, dict):
                if o:
                    x = sorted(o)
                    T = T * np.interp(e, x, [o[k] for k in x])
            else:
                T = T * self.T([o], e)
        return T

    def charge(self, e):
        """C per photon that hits the diode"""
        if self.target is None:
            T = self.T([(self.mat, self.thick)], e)
        else:
            # may be low energy (total cross sections: C23)
            T = np.exp(-self.mat.obj.mass_att_coeff(e) * self.mat.density * self.thick)
        r = (1 - T) / self.ehole
        if self.response is not None:
            m = self.response(e)
            r = np.where(np.isnan(m), r, m)
        return r * e * 1e3 * E

    def Cs(self, e, w):
        """C per photon at the sample (nSource x nLines)"""
        out = []
        for ei, wi in zip(e, w):
            wi = wi / wi.sum()
            T = self.transmission_optics(ei)
            if self.before:
                T = T * self.T(self.beam, ei)
                if self.target is None:
                    T = T * self.T(self.filt, ei) * self.T([(self.mat, self.thick)], ei)
                else:
                    T = T * self.target.transmission(ei)
            if self.target is None:
                q = (wi * self.T(self.beam, ei) * self.T(self.filt, ei) * self.charge(ei)).sum()
            else:
                spec = self.target.xrayspectrum(ei, weights=wi, withdetectorresponse=False)
                q = sum(r * self.charge(np.array([x]))[0] for x, r in spec.spectrum())
            out.append(q / (wi * T).sum())
        return np.array(out)

    @property
    def Rout(self):
        return self.vmax / self.gain if self.amp else self.gain


def source(c, rng, maxsource=3):
    """energies and weights, as given and as (nSource, nLines)"""
    shape = rng.choice(["number", "one", "lines", "sources"])
    if shape == "number":
        e = rng.uniform(3, 20)
        return e, rng.choice([None, 3.0]), np.array([[e]]), np.ones((1, 1))
    n, m = (1, 1) if shape == "one" else (1, rng.randint(2, 3)) if shape == "lines" else (rng.randint(1, maxsource), rng.randint(1, 3))
    e = c.np.uniform(3, 20, (n, m))
    w = c.np.uniform(0.1, 3, (n, m)) if rng.random() < 0.5 else None
    we = np.ones((n, m)) if w is None else w
    if shape == "sources":
        return e, w, e, we
    e1 = e[0].tolist() if rng.random() < 0.3 else e[0]
    return e1, (None if w is None else w[0]), e, we


def conversions(c, rng):
    r = Ref(c, rng)
    o = r.obj
    if rng.random() < 0.2 and r.target is None:
        o = rng.choice([copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)), lambda x: jsonpickle.loads(jsonpickle.dumps(x))])(o)
    e, w, e2, w2 = source(c, rng)
    ns = len(e2)
    c.key(r.kind, np.shape(e), w is None, r.before, len(r.beam), len(r.filt), len(r.optics), r.target is not None, r.amp)
    info = dict(kind=r.kind, e=e, w=w, before=r.before, beam=len(r.beam), filt=len(r.filt), optics=r.optics, target=r.target is not None)
    Cs = r.Cs(e2, w2)[:, None]
    if r.target is not None and np.any(Cs <= 0):
        raise Discard()
    nf = rng.randint(1, 4)
    flux = 10 ** c.np.uniform(6, 12, (ns, nf))
    f = flux if np.ndim(e) == 2 else flux[0]
    if ns == 1 and rng.random() < 0.3:
        flux = flux[:, :1]
        f = flux[0, 0]
    I = flux * Cs + r.dark
    flat = lambda x, u: mag(x, u).reshape(I.shape)
    give = lambda x, u, other: rng.choice([lambda: x, lambda: Q(x, u), lambda: Q(x, u).to(other)])()
    pick = lambda x: x if np.ndim(f) == 2 else x[0] if np.ndim(f) == 1 else x[0, 0]
    rt = 2e-5 if r.target is not None else 1e-8
    cl = lambda got, exp, sig, **k: close(c, got, exp, sig, rtol=rt, **dict(info, **k))
    cl(flat(o.fluxtocurrent(e, give(f, "Hz", "kHz"), weights=w), "A"), I, "fluxtocurrent")
    back = lambda x: close(c, flat(x, "Hz"), flux, "back", rtol=max(rt, 1e-7), atol=1e-9 * (r.dark / Cs).max(), **info)
    back(o.currenttoflux(e, give(pick(I), "A", "nA"), weights=w))
    back(o.responsetoflux(e, Q(pick(I), "A").to(rng.choice(["A", "nA"])), weights=w))
    if r.osc is not None:
        cl(mag(o.Rout, "V/A"), r.Rout, "Rout")
        cl(mag(o.Imax, "A"), r.gain if r.amp else r.vmax / r.gain, "Imax")
        V = I * r.Rout
        cps = V * r.osc["Fmax"] / r.osc["Vmax"] + r.osc["F0"]
        t = 10 ** rng.uniform(-3, 2)
        tt = rng.choice([t, Q(t, "s"), Q(t, "s").to("ms")])
        cts = cps * t
        slow = r.target is not None
        steps = [
            ("fluxtovoltage", lambda: o.fluxtovoltage(e, give(f, "Hz", "kHz"), weights=w), V, "V"),
            ("fluxtocps", lambda: o.fluxtocps(e, give(f, "Hz", "kHz"), weights=w), cps, "Hz"),
            ("currenttovoltage", lambda: o.currenttovoltage(give(pick(I), "A", "nA")), V, "V"),
            ("currenttocps", lambda: o.currenttocps(give(pick(I), "A", "nA")), cps, "Hz"),
            ("voltagetocps", lambda: o.voltagetocps(give(pick(V), "V", "mV")), cps, "Hz"),
            ("cpstovoltage", lambda: o.cpstovoltage(give(pick(cps), "Hz", "kHz")), V, "V"),
            ("cpstocurrent", lambda: o.cpstocurrent(give(pick(cps), "Hz", "kHz")), I, "A"),
            ("countstocps", lambda: o.countstocps(tt, pick(cts)), cps, "Hz"),
            ("countstovoltage", lambda: o.countstovoltage(tt, pick(cts)), V, "V"),
            ("countstocurrent", lambda: o.countstocurrent(tt, pick(cts)), I, "A"),
        ]
        for name, f_, exp, u in steps:
            if slow and rng.random() < 0.5:
                continue
            got = f_()
            scale = r.osc["F0"] / r.osc["Fmax"] * r.osc["Vmax"] * (1 if u == "V" else 1 / r.Rout if u == "A" else 0)
            close(c, flat(got, u), exp, name, rtol=rt, atol=1e-9 * scale, **info)
        lost = 1e-9 * ((r.dark + r.osc["F0"] / r.osc["Fmax"] * r.osc["Vmax"] / r.Rout) / Cs).max()
        back = lambda x: close(c, flat(x, "Hz"), flux, "back", rtol=max(rt, 1e-7), atol=lost, **info)
        inverse = [
            lambda: o.cpstoflux(e, give(pick(cps), "Hz", "kHz"), weights=w),
            lambda: o.countstoflux(e, tt, pick(cts), weights=w),
            lambda: o.voltagetoflux(e, give(pick(V), "V", "mV"), weights=w),
            lambda: o.responsetoflux(e, rng.choice([pick(cps), Q(pick(cps), "Hz")]), weights=w),
            lambda: o.responsetoflux(e, rng.choice([pick(cts), Q(pick(cts), "dimensionless")]), weights=w, time=tt),
            lambda: o.responsetoflux(e, Q(pick(V), "V"), weights=w),
        ]
        for x, kw in ((Q(pick(cps), "Hz"), {}), (Q(pick(I), "A"), {}), (Q(pick(V), "V"), {}), (Q(pick(cts), "dimensionless"), {"time": tt})):
            inverse.append(lambda x=x, kw=kw: o.fluxop(e, x, weights=w, **kw)(x))
        # secondary targets are slow
        for f_ in rng.sample(inverse, 2) if slow else inverse:
            back(f_())
        try:
            o.responsetoflux(e, Q(pick(cts), "dimensionless"), weights=w)
        except RuntimeError:
            pass
        else:
            c.require(False, "counts without time")
        c.event("conversions", 24)
        # normalization: flux times time relative to the reference
        if ns == 1:
            tref = rng.choice([None, 10 ** rng.uniform(-2, 1)])
            if rng.random() < 0.5:
                Fref = 10 ** rng.uniform(6, 12)
                ref = Q(Fref, "Hz")
            else:
                n0 = float(cts.flat[0])
                ref = Q(n0, "dimensionless")
                Fref = float("{:.1e}".format(flux.flat[0]))
                if abs(flux.flat[0] / 10 ** np.floor(np.log10(flux.flat[0])) * 10 % 1 - 0.5) < 1e-3:
                    raise Discard()
            op, gF, gt = o.xrfnormop(e, tt, ref, referencetime=tref, weights=w)
            cl(np.ravel(gF), [Fref], "xrfnormop:flux")
            cl(gt, t if tref is None else tref, "xrfnormop:time")
            close(c, np.reshape(op(pick(cts)), I.shape), flux * t / (Fref * (tref or t)), "xrfnormop", rtol=max(rt, 1e-7), atol=lost / Fref * t / (tref or t), **info)
        # the settings of the ammeter from what it gives
        if r.kind != "generic":
            true = r.gain
            o.gain = (2.1e-7 if r.amp else 1e6)
            after = rng.choice(["cps", "counts"])
            a = dict(response_after=Q(pick(cps), "Hz")) if after == "cps" else dict(response_after=pick(cts), time=tt)
            before = rng.choice(["flux", "current"])
            b = dict(response_before=Q(pick(flux), "Hz"), energy=e, weights=w) if before == "flux" else dict(response_before=Q(pick(I), "A"))
            got = o.gainfromresponse(**a, **b)
            close(c, mag(got, "A" if r.amp else "V/A"), true, "gainfromresponse", rtol=1e-6, after=after, given=before, **info)
            o.gain = got
            cl(flat(o.fluxtocps(e, f, weights=w), "Hz"), cps, "gainfromresponse:applied")
        # output resistance and range are two ways to set the same
        R = 10 ** rng.uniform(4, 8)
        if r.kind == "generic":
            if rng.random() < 0.5:
                o.Rout = rng.choice([R, Q(R, "V/A"), Q(R / 1e6, "V/uA")])
            else:
                o.Imax = rng.choice([r.vmax / R, Q(r.vmax / R, "A")])
            cl(mag(o.Rout, "V/A"), R, "Rout:set")
            cl(mag(o.Imax, "A"), r.vmax / R, "Imax:set")
            c.require(str(o.gain.dimensionality) == str(Q(1, "A" if r.amp else "V/A").dimensionality), "gain:units")
    # weights at the sample
    if r.target is None:
        T = r.transmission_optics(e2)
        if r.before:
            T = T * r.T(r.beam, e2) * r.T(r.filt, e2) * r.T([(r.mat, r.thick)], e2)
            exp = w2 * T
        else:
            exp = w2
        wb = copy.deepcopy(w)
        cl(o.samplelineweights(e, w), exp / exp.sum(axis=1, keepdims=True), "samplelineweights")
        c.require(w is None or np.array_equal(w, wb), "samplelineweights:argument changed")
    s = str(o)
    c.require("diode" in s, "str")
    if ns == 1:
        q = o.fluxcpsinfo(e, weights=w)["Charge/ph"]
        close(c, float(q.split()[0].strip("[]")), Cs[0, 0] / E, "fluxcpsinfo", rtol=1e-4, atol=1e-5)


def calibrate(c, rng):
    """A second diode gives the flux"""
    option = rng.choice(["optics", "solidangle", "thickness", "lut", "lut"])
    r = Ref(c, rng, kind=rng.choice(["generic", "SXM_IODET1"]) if option == "solidangle" else rng.choice(["generic", "ID16B_I0", "SXM_IODET1", "SXM_IODET2"]), target=option == "solidangle", optics=option != "optics")
    o = r.obj
    if option == "optics":
        o.optics = ["kb"] if rng.random() < 0.7 else [xrayoptics.factory("Filter", material=Mat(rng, simple=True).obj, thickness=1e-4), "kb"]
    if option in ("optics", "thickness"):
        n = 1
    else:
        n = rng.choice([1, 1, 2, 3])
    o.simplecalibration = option == "lut"
    e = c.np.uniform(5, 15, n)
    w = c.np.uniform(0.2, 2, n) if n > 1 and rng.random() < 0.6 else None
    if n == 1 and rng.random() < 0.5:
        e = float(e[0])
    now = mag(o.fluxtocurrent(e, 1e10, weights=w), "A").ravel()[0]
    q = (now - r.dark) / 1e10 / E  # e per photon
    if not q > 1e-6:
        raise Discard()
    if option == "optics":
        new = q / rng.uniform(0.1, 0.95)
    elif option == "thickness":
        # something the diode could be
        keep = o.thickness
        o.thickness = keep * rng.uniform(0.6, 1.6)
        new = (mag(o.fluxtocurrent(e, 1e10, weights=w), "A").ravel()[0] - r.dark) / 1e10 / E
        if abs(new / q - 1) < 0.03:
            # the response hardly depends on it
            raise Discard()
        if r.before and r.target is None and np.min(o.transmission(np.atleast_1d(e))) < 0.05:
            raise Discard()
        o.thickness = keep
    else:
        new = q * rng.uniform(0.3, 3)
    dark = rng.choice([0.0, 10 ** rng.uniform(-13, -10)])
    npts = rng.choice([1, 2, 5, 20])
    flux = 10 ** c.np.uniform(8, 11, npts)
    I = flux * new * E + dark
    fixdark = rng.random() < 0.4
    mode = "exact"
    if npts == 1 or fixdark:
        o.darkcurrent = dark
    elif rng.random() < 0.2:
        # a negative offset is not a dark current
        mode = "negative"
        I = flux * new * E - 0.1 * new * E * flux.min()
        exp = (flux * I).sum() / (flux**2).sum()
        dark = 0
    kw = {}
    extra = 0
    if npts > 2 and rng.random() < 0.4 and mode == "exact":
        # points outside the range do not count
        lo, hi = np.sort(flux)[[0, -1]]
        if rng.random() < 0.5:
            kw["fluxmin"] = rng.choice([lo * 0.999, Q(lo * 0.999, "Hz")])
            ff = lo * 0.5
        else:
            kw["fluxmax"] = rng.choice([hi * 1.001, Q(hi * 1.001, "Hz")])
            ff = hi * 2
        flux, I = np.append(flux, ff), np.append(I, ff * new * E * 10)
        extra = 1
    if mode == "negative":
        new = exp / E
    if rng.random() < 0.5:
        resp = Q(I, "A").to(rng.choice(["A", "nA"]))
    else:
        resp = Q(I, "A")
        resp = mag(o.currenttocps(resp), "Hz")
        resp = rng.choice([resp, Q(resp, "Hz")])
    c.key(option, r.kind, n, w is None, npts, fixdark, mode, extra, tuple(sorted(kw)))
    info = dict(option=option, kind=r.kind, n=n, npts=npts, fixdark=fixdark, mode=mode, e=e, w=w, kw=kw)
    sa = o.geometry.solidangle if option == "solidangle" else None
    ret = o.calibrate(resp, rng.choice([flux, Q(flux, "Hz"), Q(flux, "Hz").to("kHz")]), e, weights=w, caliboption="optics" if option == "lut" else option, fixdark=fixdark, **kw)
    if npts - (mode == "exact") * 0 > 1 and not fixdark:
        close(c, mag(o.darkcurrent, "A"), dark, "calibrate:dark", rtol=1e-5, atol=1e-9 * I.max(), **info)
        if mode == "exact":
            close(c, ret["R$^2$"], 1, "calibrate:R2", rtol=1e-6)
    else:
        close(c, mag(o.darkcurrent, "A"), dark, "calibrate:dark kept", rtol=1e-9, **info)
    x = 10 ** c.np.uniform(8, 11, 3)
    tol = 2e-3 if option in ("optics", "thickness") else 1e-5
    got = mag(o.fluxtocurrent(e, x, weights=w), "A").ravel()
    close(c, got, x * new * E + dark, "calibrate", rtol=tol, atol=tol * I.max() * 1e-3, q=q, new=new, **info)
    if option == "solidangle":
        close(c, o.geometry.solidangle, sa * new / q, "calibrate:solidangle", rtol=1e-5, **info)
    if option == "lut":
        # calibrated at another energy: linear in between, constant outside
        if n == 1:
            e1 = float(np.ravel(e)[0])
            e2, q2 = e1 + rng.uniform(0.5, 3) * rng.choice([1, -1]), new * rng.uniform(0.5, 2)
            o.calibrate(Q(x * q2 * E + dark, "A"), x, e2, fixdark=True)
            for f in (0, 1, rng.random(), -0.3, 1.3):
                qi = new + (q2 - new) * min(max(f, 0), 1)
                got = mag(o.fluxtocurrent(e1 + (e2 - e1) * f, x), "A").ravel()
                close(c, got, x * qi * E + dark, "calibrate:interpolation", rtol=1e-5, atol=1e-12 * I.max(), f=f, **info)
            # a new calibration replaces the old one
            o.calibrate(Q(x * 2 * q2 * E + dark, "A"), x, e2, fixdark=True)
            got = mag(o.fluxtocurrent(e2, x), "A").ravel()
            close(c, got, x * 2 * q2 * E + dark, "calibrate:replaced", rtol=1e-5, atol=1e-12 * I.max(), **info)
            o2 = jsonpickle.loads(jsonpickle.dumps(o)) if rng.random() < 0.5 else pickle.loads(pickle.dumps(o))
            c.require(o2 == o, "calibrate:serialized", r.kind)
            got = mag(o2.fluxtocurrent(e2, x), "A").ravel()
            close(c, got, x * 2 * q2 * E + dark, "calibrate:serialized", rtol=1e-5, atol=1e-12 * I.max(), **info)
        # switched off: back to the calculation
        o.simplecalibration = False
        got = mag(o.fluxtocurrent(e, x, weights=w), "A").ravel()
        close(c, got, x * q * E + mag(o.darkcurrent, "A"), "calibrate:off", rtol=1e-4, atol=1e-12 * I.max(), **info)
    try:
        o.calibrate(resp, flux, e, weights=w, fluxmin=1e20)
    except RuntimeError:
        pass
    else:
        c.require(False, "calibrate:no data")
    c.event("calibrations")


def dark(c, rng):
    r = Ref(c, rng, kind=rng.choice(["generic", "SXM_IDET", "ID16B_I0"]), target=False)
    o = r.obj
    dcps = lambda x: x * r.Rout * r.osc["Fmax"] / r.osc["Vmax"] + r.osc["F0"]
    true = 10 ** rng.uniform(-13, -9) if rng.random() < 0.8 else 0
    n = rng.choice([0, 1, 5, 6])
    I = true * (np.ones(()) if n == 0 else c.np.uniform(0.9, 1.1, n))
    cps = dcps(I)
    expcps = np.median(cps)
    if n > 2 and rng.random() < 0.3:
        cps[rng.randrange(n)] = np.nan
        expcps = np.nanmedian(cps)
        I = (cps - r.osc["F0"]) * r.osc["Vmax"] / r.osc["Fmax"] / r.Rout
    how = rng.choice(["A", "cps", "counts"])
    t = 10 ** rng.uniform(-3, 2)
    c.key(r.kind, how, n, true > 0)
    one = lambda x: float(x) if n == 0 else x
    if how == "A":
        o.calibratedark(Q(one(I), "A").to(rng.choice(["A", "nA"])))
    elif how == "cps":
        o.calibratedark(rng.choice([one(cps), Q(one(cps), "Hz"), Q(one(cps), "Hz").to("kHz")]))
    else:
        o.calibratedark(rng.choice([one(cps * t), Q(one(cps * t), "dimensionless")]), time=rng.choice([t, Q(t, "s")]))
    exp = max((expcps - r.osc["F0"]) * r.osc["Vmax"] / r.osc["Fmax"] / r.Rout, 0) if how != "A" else max(np.nanmedian(I), 0)
    close(c, mag(o.darkcurrent, "A"), exp, "dark", rtol=1e-6, atol=1e-9 * r.osc["F0"] / r.osc["Fmax"] * r.osc["Vmax"] / r.Rout, how=how, kind=r.kind)
    e = rng.uniform(4, 20)
    close(c, np.ravel(mag(o.fluxtocurrent(e, 0), "A")), np.ravel(mag(o.darkcurrent, "A")), "dark:zero flux", rtol=1e-9)
    # then the rest must be the offset of the oscillator
    off = max(expcps, dcps(0) if False else 0) * rng.uniform(1, 3) + rng.uniform(0, 10)
    how = rng.choice(["cps", "counts"])
    if how == "cps":
        o.calibrateF0(rng.choice([off, Q(off, "Hz"), np.full(3, off)]))
    else:
        o.calibrateF0(off * t, time=t)
    dc = mag(o.darkcurrent, "A")
    F0 = max(off - dc * r.Rout * r.osc["Fmax"] / r.osc["Vmax"], 0)
    close(c, mag(o.oscillator.F0, "Hz"), F0, "F0", rtol=1e-6, atol=1e-6 * off, how=how)
    close(c, np.ravel(mag(o.fluxtocps(e, 0), "Hz")), [max(off, dc * r.Rout * r.osc["Fmax"] / r.osc["Vmax"])], "F0:zero flux", rtol=1e-6)
    c.event("dark calibrations")


NAMES = ["SXM_PTB", "SXM_IDET", "SXM_FDET", "SXM_IODET1", "SXM_IODET2", "XRD_IDET", "ID16B_IT", "ID16B_I0", "ID16B_IC"]


def objects(c, rng):
    name = rng.choice(NAMES)
    a, b = diode.factory(name), diode.factory(name)
    c.key(name)
    c.require(a == b and not a != b, "equal", name)
    ops = ["gain", "darkcurrent", "thickness", "optics", "filter", "beforesample", "simplecalibration"]
    if a.oscillator is not None:
        ops.append("oscillator")
    op = rng.choice(ops)
    if op == "gain":
        a.gain = 2.1e-8 if name.startswith(("XRD", "ID16B")) else 1e7
    elif op == "darkcurrent":
        a.darkcurrent = 1e-12
    elif op == "thickness":
        a.thickness = a.thickness * 2
    elif op == "optics":
        a.optics = "kb" if rng.random() < 0.5 else [xrayoptics.factory("Filter", material=element.Element("Al"), thickness=1e-4)]
    elif op == "filter":
        a.addbeamfilter(None, element.Element("Al"), 1e-3)
    elif op == "beforesample":
        a.beforesample = not a.beforesample
    elif op == "oscillator":
        a.oscillator.F0 = 13.0
    if op != "simplecalibration":
        c.require(a != b and not a == b, "not equal:" + op, name)
    for how, f in (("deepcopy", copy.deepcopy), ("pickle", lambda o: pickle.loads(pickle.dumps(o))), ("json", lambda o: jsonpickle.loads(jsonpickle.dumps(o)))):
        o = f(a)
        c.require(o == a and type(o) is type(a), "copy:" + how, lambda: "{} {}".format(name, op))
        e = c.np.uniform(4, 15, 2)
        if a.secondarytarget is None or rng.random() < 0.1:
            x, y = (mag(d.fluxtocurrent(e, 1e10), "A") for d in (o, a))
            c.require(np.allclose(x, y, rtol=1e-9), "copy:response:" + how, name)
    # what happens to the copy does not concern the original
    o = copy.deepcopy(a)
    o.darkcurrent = 1e-5
    o.gain = o.gain * 10
    o.addbeamfilter(None, element.Element("Fe"), 1e-3)
    if o.oscillator is not None:
        o.oscillator.F0 = 77.0
    if o.secondarytarget is not None:
        o.geometry.solidangle = 0.123
        c.require(a.geometry.solidangle != 0.123, "copy:shared geometry")
        c.require(o.geometry.detector is o and a.geometry.detector is a, "copy:geometry")
    c.require(o != a, "copy:changed")
    c.require(a == pickle.loads(pickle.dumps(a)) and (a.oscillator is None or mag(a.oscillator.F0, "Hz") != 77) and len(a.attenuators) == len(o.attenuators) - 1, "copy:shared", name)
    # settings of the gain are powers of a base
    m, base = rng.choice([(None, 10), (2.1, 10), (None, 2), (3.0, 2)])
    k = rng.randint(-6, 9)
    g = (m or 1) * float(base) ** k
    r = diode.GainRounder(m=m, base=base)
    close(c, mag(r(Q(g * base ** rng.uniform(-0.45, 0.45), "V/A")), "V/A"), g, "gainrounder", m=m, base=base)
    c.event("objects")


def luts(c, rng):
    dflt = rng.choice([None, 1, 0.5])
    t = lut.LUT(default=dflt) if dflt is not None else lut.LUT()
    ux, uy = rng.choice([("keV", "e"), ("keV", None), (None, None)])
    alt = {"keV": ["keV", "eV"], "e": ["e", "coulomb"], None: [None]}
    tab, log = {}, []
    give = lambda x, u: x if u is None else Q(x, u).to(rng.choice(alt[u]))
    c.require(t.isempty() and len(t) == 0 and list(t) == [], "lut:empty")
    c.require(t == lut.LUT(default=dflt) if dflt is not None else t == lut.LUT(), "lut:empty equal")

    def look():
        x = c.np.uniform(0, 22, rng.randint(1, 4))
        if rng.random() < 0.3:
            x = x[0]
        y = t(give(x, ux))
        if not tab:
            exp = np.full(np.shape(x), np.nan if dflt is None else dflt)
            y = y.magnitude
        else:
            k = sorted(tab)
            exp = np.interp(x, k, [tab[i] for i in k])
            y = mag(y, uy or "dimensionless")
        c.require(np.shape(y) == np.shape(x), "lut:shape", lambda: "{} {}".format(y, x))
        c.require(np.allclose(y, exp, rtol=1e-9, atol=1e-12, equal_nan=True), "lut:value", lambda: "{} {}\n{} {}".format(log, x, y, exp))
        c.require(len(t) == len(tab) and t.isempty() == (not tab), "lut:len")
        rows = [(float(mag(a if ux else Q(units.magnitude(a)), ux or "dimensionless")), float(mag(b if uy else Q(units.magnitude(b)), uy or "dimensionless"))) for a, b in t]
        c.require([round(a, 9) for a, _ in rows] == [round(a, 9) for a in sorted(tab)], "lut:keys", lambda: "{} {}".format(rows, tab))
        c.require(np.allclose([b for _, b in rows], [tab[k] for k in sorted(tab)], rtol=1e-9), "lut:rows")
        str(t)
        c.event("look-ups")

    look()
    first = True
    for _ in range(rng.randint(1, 5)):
        op = rng.choice(["add", "replace", "plus", "iadd", "clear", "lut", "copy"])
        n = rng.randint(1, 3)
        # keys that survive a change of units
        x = [float(v) for v in rng.sample([1, 2, 4, 8, 16], n)]
        if rng.random() < 0.3 and op != "replace":
            x[0] = x[-1]
        y = [rng.uniform(0.1, 1) for _ in x]
        exact = lambda v, u: Q(v, u) if u != "keV" or rng.random() < 0.6 else Q(v * 1000, "eV")
        same = lambda: (exact(np.array(x), ux) if ux else x, Q(np.array(y), uy) if uy else y)
        if rng.random() < 0.2 and n == 1:
            same = lambda: (exact(x[0], ux) if ux else x[0], Q(y[0], uy) if uy else y[0])
        log.append((op, x, y))
        if op == "replace":
            t.replace(*same())
            tab.update(zip(x, y))
        elif op == "clear":
            t.clear(**({} if dflt is None else dict(default=dflt)))
            tab.clear()
        elif op == "copy":
            old = t
            t = rng.choice([copy.copy, copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o)), lambda o: jsonpickle.loads(jsonpickle.dumps(o))])(t)
            c.require(t == old and not t != old, "lut:copy")
            old.add(*same())
            c.require(t != old, "lut:not equal")
        else:
            if op == "add":
                t.add(*same())
            elif op == "plus":
                before = list(tab.items())
                old, t = t, t + same()
                c.require(len(old) == len(before), "lut:operand changed")
            elif op == "iadd":
                t += same()
            else:
                o = lut.LUT()
                o.add(*same())
                t.add(o)
            for a, b in zip(x, y):
                tab[a] = tab.get(a, 0) + b
        look()
    c.key(len(tab), ux, uy, tuple(o[0] for o in log))
    # transmission of optics
    dev = xrayoptics.factory(rng.choice(["KB", "kb", "ZonePlate", "zp"]))
    e = rng.uniform(3, 20)
    c.require(dev.transmission(e) == 1, "optics:default")
    tab = {}
    for _ in range(rng.randint(1, 4)):
        k = round(rng.uniform(3, 20), 2)
        tab[k] = rng.uniform(0, 1)
        dev.set_transmission(rng.choice([k, Q(k, "keV")]), tab[k])
    k = sorted(tab)
    x = c.np.uniform(3, 20, 3)
    close(c, dev.transmission(x), np.interp(x, k, [tab[i] for i in k]), "optics:transmission")
    str(dev)
    c.require(dev == jsonpickle.loads(jsonpickle.dumps(dev)), "optics:serialized")
    dev.reset_transmission()
    c.require(dev.transmission(e) == 1, "optics:reset")
    m, th = Mat(rng, simple=True), 10 ** rng.uniform(-5, -3)
    f = xrayoptics.factory("Filter", material=m.obj, thickness=th)
    close(c, f.transmission(x), Ref.T([(m, th)], x), "optics:filter")
    g = rng.choice([copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o)), lambda o: jsonpickle.loads(jsonpickle.dumps(o))])(f)
    c.require(f == g and not f != g, "optics:filter copy")
    close(c, g.transmission(x), Ref.T([(m, th)], x), "optics:filter copy")
    c.require(f != xrayoptics.factory("Filter", material=m.obj, thickness=th * 2), "optics:filter not equal")
    str(f)


GROUPS = [
    Group("conversions", conversions, 120, 4000),
    Group("calibrate", calibrate, 120, 4000),
    Group("dark", dark, 120, 4000),
    Group("objects", objects, 60, 2000),
    Group("lut", luts, 150, 5000),
]
