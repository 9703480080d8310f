"""Multilayers: what layers absorb, how they are refined, and what they emit towards a detector."""
import copy
import numpy as np
import scipy.integrate
import xraylib
from lib.vp import Group, Discard
from spectrocrunch.detectors import xrf as xrfdetectors
from spectrocrunch.geometries import xrf as xrfgeometries
from spectrocrunch.materials import compoundfromformula, compoundfromlist, element, mixture, multilayer, types, xrayspectrum
from spectrocrunch.math import noisepropagation
from spectrocrunch.patch import jsonpickle
from spectrocrunch.sources import xray as xraysources

ID = "C24"
LEVEL = "exploration"
RULE = (
    "random stacks of 1-4 layers (elements, compounds, mixtures) under random incidence and exit angles, in reflection "
    "and transmission, with random filters; absorbance and transmission compared with a sum over xraylib's elements; "
    "refinements of thickness, density and composition from a synthetic absorbance compared with the truth; emitted rates "
    "compared with a depth integral by quadrature; sequences of modifications, failing calls and serializations in between"
)
F = types.fraction
EL = ["Al", "Si", "S", "Cl", "K", "Ca", "Ti", "Cr", "Mn", "Fe", "Ni", "Cu", "Zn", "As", "Sr", "Ag", "Ba", "W", "Au", "Pb"]
LIGHT = ["H", "C", "N", "O", "Na", "Mg"]


def close(c, got, exp, sig, rtol=1e-9, atol=0.0, **kw):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    c.require(
        got.shape == exp.shape and np.allclose(got, exp, rtol=rtol, atol=atol),
        sig, lambda: "{}\n got {}\n exp {}".format(kw, got, exp),
    )


def z(s):
    return xraylib.SymbolToAtomicNumber(s)


def mu_el(s, energy):
    return np.vectorize(lambda e: xraylib.CS_Total_Kissel(z(s), float(e)))(energy)


class Mat:
    """A material and the composition it was made from"""

    def __init__(self, rng, simple=False):
        k = rng.choice(["element", "compound", "compound", "mixture"]) if not simple else rng.choice(["element", "compound"])
        self.kind = k
        if k == "element":
            s = rng.choice(EL)
            self.obj = element.Element(s)
            self.w = {s: 1.0}
            self.density = float(xraylib.ElementDensity(z(s)))
        elif k == "compound":
            self.obj, self.w, self.density = self.compound(rng)
        else:
            parts = [self.compound(rng, i) for i in range(rng.randint(2, 3))]
            f = [rng.uniform(0.1, 1) for _ in parts]
            self.obj = mixture.Mixture([p[0] for p in parts], f, F.mass, name="mixture{}".format(rng.randint(0, 10**9)))
            f = np.array(f) / sum(f)
            self.w = {}
            for fi, (_, w, _) in zip(f, parts):
                for s, x in w.items():
                    self.w[s] = self.w.get(s, 0) + fi * x
            self.density = 1 / sum(fi / p[2] for fi, p in zip(f, parts))

    @staticmethod
    def compound(rng, i=0):
        symb = rng.sample(EL, rng.randint(1, 2)) + rng.sample(LIGHT, rng.randint(0, 2))
        n = [rng.randint(1, 5) for _ in symb]
        rho = rng.uniform(0.8, 9)
        name = "cmp{}_{}".format(i, rng.randint(0, 10**9))
        if rng.random() < 0.5:
            obj = compoundfromformula.CompoundFromFormula("".join("{}{}".format(s, m) for s, m in zip(symb, n)), rho, name=name)
        else:
            obj = compoundfromlist.CompoundFromList(symb, n, F.mole, rho, name=name)
        m = np.array([k * xraylib.AtomicWeight(z(s)) for s, k in zip(symb, n)])
        return obj, dict(zip(symb, m / m.sum())), rho

    def mu(self, energy):
        return sum(w * mu_el(s, energy) for s, w in self.w.items())


def make_geometry(rng, detector=None):
    anglein = rng.choice([90.0, rng.uniform(15, 90)])
    out = rng.uniform(15, 85) * rng.choice([1, 1, -1])
    if rng.random() < 0.1:
        out = -anglein
    if detector is None:
        detector = xrfdetectors.factory("XRFDetector", activearea=rng.uniform(0.1, 1), mcazero=0.0, mcagain=0.005,
                                        mcanoise=0.1, mcafano=0.11, ehole=3.6)
    return xrfgeometries.factory(
        "LinearXRFGeometry", anglein=anglein, angleout=out,
        detector_azimuth=rng.choice([0.0, 90.0]), detectorposition=rng.uniform(0, 20), zerodistance=rng.uniform(10, 60),
        positionunits="mm", detector=detector, source=xraysources.factory("synchrotron"),
    )


def make_stack(rng, n=None, thin=False, simple=False, tau=None, energy=None):
    n = n or rng.randint(1, 4)
    mats = [Mat(rng, simple=simple) for _ in range(n)]
    thick = [10 ** rng.uniform(-5, -2.7) for _ in range(n)]
    fixed = [rng.random() < 0.3 for _ in range(n)] if rng.random() < 0.7 else [rng.random() < 0.5] * n
    given = fixed
    if len(set(fixed)) == 1:  # one value for all layers
        given = rng.choice([fixed, fixed[:1], fixed[0]])
    geom = make_geometry(rng)
    if n == 1 and rng.random() < 0.5:
        ml = multilayer.Multilayer(material=mats[0].obj, thickness=thick[0], fixed=fixed[0], geometry=geom)
    else:
        ml = multilayer.Multilayer(material=[m.obj for m in mats], thickness=thick, geometry=geom, **({"fixed": given} if any(fixed) or rng.random() < 0.5 else {}))
    assert len(list(ml)) == n
    return ml, mats, np.array(thick), geom


def energies(c, rng):
    if rng.random() < 0.3:
        return rng.uniform(3, 30)
    return np.sort(c.np.uniform(3, 30, rng.randint(1, 5)))


def angles(geom):
    """|cos| with the surface normal of incoming and outgoing rays"""
    return np.sin(np.radians(geom.anglein)), np.sin(np.radians(abs(geom.angleout)))


def layers(c, rng):
    ml, mats, thick, geom = make_stack(rng)
    e = energies(c, rng)
    arr = np.ndim(e) == 1
    cin, cout = angles(geom)
    signout = -1 if geom.angleout > 0 else 1
    c.event("stacks")
    c.event("layers", len(mats))
    c.key(len(mats), tuple(sorted(m.kind for m in mats)), arr, geom.angleout > 0)
    for step in range(rng.randint(1, 3)):
        rho = np.array([m.density for m in mats])
        mu = np.array([m.mu(e) for m in mats])
        close(c, ml.density, rho, "density")
        close(c, ml.thickness, thick, "thickness")
        close(c, ml.xraythicknessin, thick / cin, "xraythicknessin")
        close(c, ml.xraythicknessout, thick / (signout * cout), "xraythicknessout")
        c.require(len(ml) == ml.nlayers == len(mats), "nlayers")
        exp = (mu.T * rho * thick).T
        close(c, np.reshape(ml.mass_att_coeff(e), mu.shape), mu, "mass_att_coeff", rtol=1e-7)
        for out, cos in [(False, cin), (True, signout * cout)]:
            a = exp / cos
            close(c, ml.absorbance(e, out=out), a.sum(axis=0), "absorbance", rtol=1e-7, out=out)
            got = ml.absorbance(e, out=out, decomposed=True)
            c.require(len(got) == len(mats), "absorbance:decomposed")
            close(c, np.array(got), a, "absorbance:decomposed", rtol=1e-7, out=out)
            close(c, ml.transmission(e, out=out), np.exp(-a.sum(axis=0)), "transmission", rtol=1e-6, atol=1e-300)
            if arr:
                w = c.np.uniform(0.1, 1, len(e))
                exp1 = (a * w).sum(axis=-1) / w.sum()
                close(c, ml.absorbance(e, weights=w, out=out), exp1.sum(), "absorbance:weights", rtol=1e-7)
                c.event("weighted absorbances")
            c.event("absorbances", a.size)
        # mass bookkeeping
        area, el = {}, {}
        for m, t in zip(mats, thick):
            for s, w in m.w.items():
                area[s] = area.get(s, 0) + w * m.density * t
        got = {str(k): v for k, v in ml.arealdensity().items()}
        c.require(set(got) == set(area), "arealdensity:elements", lambda: "{} {}".format(got, area))
        close(c, [got[k] for k in area], list(area.values()), "arealdensity")
        got = {str(k): v for k, v in ml.elemental_massfractions().items()}
        close(c, [got[k] for k in area], np.array(list(area.values())) / sum(area.values()), "elemental_massfractions")
        nf = {k: v / xraylib.AtomicWeight(z(k)) for k, v in area.items()}
        got = {str(k): v for k, v in ml.elemental_molefractions().items()}
        close(c, [got[k] for k in nf], np.array(list(nf.values())) / sum(nf.values()), "elemental_molefractions")
        mix = ml.mixlayers()
        if len({m.obj for m in mats}) == len(mats):
            close(c, mix.density, (rho * thick).sum() / thick.sum(), "mixlayers:density")
            close(c, mix.absorbance(e, thick.sum()), exp.sum(axis=0), "mixlayers:absorbance", rtol=1e-7)
        # a beam through the stack
        n0 = rng.uniform(1e3, 1e9)
        t = np.exp(-(exp / cin).sum(axis=0))
        if np.all(t > 1e-12):
            if arr:
                nn = c.np.uniform(1e3, 1e9, rng.randint(1, 3))
                exp2 = np.outer(t, nn)
                close(c, ml.propagate(n0, e), n0 * t[:, None], "propagate", rtol=1e-6)
                close(c, ml.propagate(nn, e), exp2, "propagate:grid", rtol=1e-6)
                close(c, ml.propagate(exp2, e, forward=False), np.broadcast_to(nn, exp2.shape), "propagate:backward", rtol=1e-6)
                got = ml.propagate(noisepropagation.poisson(nn), e)
                close(c, noisepropagation.E(got), exp2, "propagate:mean", rtol=1e-6)
                close(c, noisepropagation.VAR(got), exp2, "propagate:variance", rtol=1e-6)
            else:
                close(c, ml.propagate(n0, e), n0 * t, "propagate", rtol=1e-6)
                close(c, ml.propagate(n0 * t, e, forward=False), n0, "propagate:backward", rtol=1e-6)
            if not arr:
                rv = noisepropagation.poisson(n0)
                got = ml.propagate(rv, e)
                close(c, noisepropagation.E(got), n0 * t, "propagate:mean", rtol=1e-6)
                close(c, noisepropagation.VAR(got), n0 * t, "propagate:variance", rtol=1e-6)
                back = ml.propagate(got, e, forward=False)
                close(c, noisepropagation.E(back), n0, "propagate:inverse:mean", rtol=1e-6)
                close(c, noisepropagation.VAR(back), n0, "propagate:inverse:variance", rtol=1e-4)
                c.event("photon numbers propagated", 2)
        # copies
        how = rng.choice(["copy", "deepcopy", "json", None])
        if how == "copy":
            new = copy.copy(ml)
        elif how == "deepcopy":
            new = copy.deepcopy(ml)
        elif how == "json":
            new = jsonpickle.loads(jsonpickle.dumps(ml))
        if how:
            c.require(new == ml, "copy:equal", how)
            c.require(not (new != ml), "copy:unequal", how)
            c.require(new.name == ml.name, "copy:name", how)
            if True:
                close(c, new.absorbance(e), ml.absorbance(e), "copy:absorbance", how=how)
            if how in ("deepcopy", "json"):
                ref = ml.absorbance(e)
                new[0].thickness = new[0].thickness * 2
                c.require(new != ml, "copy:independent:equal", how)
                close(c, ml.absorbance(e), ref, "copy:independent", how=how)
                new[0].thickness = thick[0]
                if rng.random() < 0.7:
                    ml, geom = new, new.geometry
            c.event("copies")
        # modify for the next round
        what = rng.choice(["thickness", "angle", "out", "in thickness"])
        if what == "thickness":
            i = rng.randrange(len(mats))
            thick[i] *= rng.uniform(0.3, 3)
            ml[i].thickness = thick[i]
        elif what == "in thickness":
            i = rng.randrange(len(mats))
            x = 10 ** rng.uniform(-5, -3)
            if rng.random() < 0.5:
                ml[i].xraythicknessin = x
                thick[i] = x * cin
            else:
                ml[i].xraythicknessout = x * signout
                thick[i] = x * cout
        elif what == "angle":
            ml.geometry.anglein = rng.uniform(15, 90)
        else:
            ml.geometry.angleout = rng.uniform(15, 85) * rng.choice([-1, 1])
        cin, cout = angles(ml.geometry)
        signout = -1 if ml.geometry.angleout > 0 else 1
        geom = ml.geometry


def refine(c, rng):
    """Refining the free layers from an absorbance finds the stack which caused it"""
    n = rng.randint(1, 3)
    ml, mats, thick, geom = make_stack(rng, n=n)
    cin, _ = angles(geom)
    mode = rng.choice(["thickness", "density", "composition"])
    fixthickness = rng.random() < 0.5
    fixed = [rng.random() < 0.4 for _ in range(n)]
    fixed[rng.randrange(n)] = False
    for i, f in enumerate(fixed):
        (ml.fixlayers if f else ml.freelayers)([i])
    c.require([l.fixed for l in ml] == fixed, "fixlayers")
    c.require(len(list(ml.freeiter())) == fixed.count(False), "freeiter")
    for m, f in zip(mats, fixed):
        if not f and mode == "composition" and m.kind == "element":
            raise Discard()
    # a polychromatic beam gives one number, which can determine one layer
    weighted = fixed.count(False) == 1 and mode != "composition" and rng.random() < 0.5
    constant = not weighted and rng.choice([False, False, True])
    npar = sum(1 if mode != "composition" else len(l.material.parts) for l in ml.freeiter()) + constant
    npts = rng.randint(npar + 2, npar + 20)
    e = np.sort(c.np.uniform(4, 25, npts))
    w = c.np.uniform(0.2, 1, npts) if weighted else None
    rho = np.array([m.density for m in mats])

    def absorb(e):
        a = sum(m.mu(e) * r * t / cin for m, r, t in zip(mats, rho, thick))
        return a if w is None else float((a * w).sum() / w.sum())

    offset = rng.uniform(0.01, 0.5) * rng.choice([-1, 1]) if constant else 0.0
    y = absorb(e) + offset
    # conditioning of the problem: what is free must be distinguishable
    cols = []
    for m, f in zip(mats, fixed):
        if f:
            continue
        if mode == "composition":
            for part in m.obj.parts:
                wp = part.elemental_massfractions() if hasattr(part, "elemental_massfractions") else {part: 1}
                cols.append(sum(v * mu_el(str(s), e) for s, v in wp.items()))
        else:
            cols.append(m.mu(e))
    if constant:
        cols.append(np.ones(npts))
    if not weighted:
        A = np.array(cols).T
        s = np.linalg.svd(A / np.linalg.norm(A, axis=0), compute_uv=False)
        if s[-1] < 1e-3:
            raise Discard()
    # start from something else
    truth = [l.material.massfractions() for l in ml] if mode == "composition" else None
    for layer, m, f in zip(ml, mats, fixed):
        if f:
            continue
        if mode == "thickness":
            layer.thickness = layer.thickness * rng.uniform(0.2, 5)
        elif mode == "density":
            x = layer.density * rng.uniform(0.2, 5)
            if m.kind == "compound" and rng.random() < 0.5:
                layer.material.density = x
            else:
                layer.density = x
        else:
            mf = layer.material.massfractions()
            x = {k: rng.uniform(0.1, 1) for k in mf}
            sx = sum(x.values())
            layer.material.change_fractions({k: v / sx for k, v in x.items()}, F.mass)
    kw = {"constant": constant, "constraint": rng.choice([True, False])}
    if w is not None:
        kw["weights"] = w
    ybak = np.copy(y)
    c.event("refinements:" + mode)
    c.key(mode, n, tuple(fixed), constant, weighted, kw["constraint"])
    if mode == "thickness":
        ml.refinethickness(e, y, **kw)
        close(c, ml.thickness, thick, "refine:thickness", rtol=1e-5, **kw)
    elif mode == "density":
        ml.refinedensity(e, y, **kw)
        close(c, ml.density, rho, "refine:density", rtol=1e-5, **kw)
        close(c, ml.thickness, thick, "refine:density:thickness", **kw)
    else:
        ml.refinecomposition(e, y, fixthickness=fixthickness, **kw)
        for layer, mf, f, t, r in zip(ml, truth, fixed, thick, rho):
            got = layer.material.massfractions()
            close(c, [got[k] for k in mf], list(mf.values()), "refine:composition", rtol=1e-4, atol=1e-5, **kw)
            if fixthickness:
                close(c, layer.thickness, t, "refine:composition:thickness", **kw)
            close(c, layer.thickness * layer.density, t * r, "refine:composition:areal", rtol=1e-4, **kw)
    c.require(np.array_equal(y, ybak), "refine:input modified")
    ref = ml.absorbance(e, weights=w)
    close(c, ref + offset, y, "refine:absorbance", rtol=1e-5, atol=1e-7)
    new = jsonpickle.loads(jsonpickle.dumps(ml)) if rng.random() < 0.5 else copy.deepcopy(ml)
    c.require(new == ml, "refine:copy")
    close(c, new.absorbance(e, weights=w), ref, "refine:copy:absorbance")
    # the refined stack weighs what it weighs
    area = {}
    for layer in ml:
        for s, x in layer.material.elemental_massfractions().items():
            area[str(s)] = area.get(str(s), 0) + x * layer.density * layer.thickness
    got = {str(k): v for k, v in ml.arealdensity().items()}
    close(c, [got[k] for k in area], list(area.values()), "refine:arealdensity")
    if len({m.obj for m in mats}) == len(mats):
        nf = {k: v / xraylib.AtomicWeight(z(k)) for k, v in area.items()}
        got = {str(k): v for k, v in ml.elemental_molefractions().items()}
        close(c, [got[k] for k in nf], np.array(list(nf.values())) / sum(nf.values()), "refine:elemental_molefractions")


def integral(mats, thick, rho, cin, cout, reflection, e0, e1, probs, mu0=None):
    """integral over depth of P(reaching z).p(z).P(leaving from z), per layer by quadrature"""
    total = 0.0
    edges = np.concatenate([[0], np.cumsum(thick)])
    l0 = [float(m.mu(e0)) * r / cin for m, r in zip(mats, rho)]
    l1 = [float(m.mu(e1)) * r / cout for m, r in zip(mats, rho)]
    x, wx = np.polynomial.legendre.leggauss(40)
    for i, p in enumerate(probs):
        if p == 0:
            continue
        before0 = sum(l0[j] * thick[j] for j in range(i))
        if reflection:
            before1 = sum(l1[j] * thick[j] for j in range(i))
        else:
            before1 = sum(l1[j] * thick[j] for j in range(i + 1, len(thick)))
        # split to resolve strong attenuation
        nsub = max(1, int(np.ceil((l0[i] + l1[i]) * thick[i] / 5)))
        nsub = min(nsub, 200)
        sub = np.linspace(0, thick[i], nsub + 1)
        for a, b in zip(sub[:-1], sub[1:]):
            s = (b - a) / 2 * x + (a + b) / 2
            out = s if reflection else thick[i] - s
            total += p * np.sum(wx * np.exp(-before0 - l0[i] * s - before1 - l1[i] * out)) * (b - a) / 2
    return total


def add_filters(rng, detector):
    """Returns (beam filters, detector filters)"""
    beam, det = [], []
    for i in range(rng.randint(0, 2)):
        m, t = Mat(rng, simple=True), 10 ** rng.uniform(-5, -3.5)
        detector.addbeamfilter("BeamFilter{}".format(i), m.obj, t)
        beam.append((m, t))
    for i in range(rng.randint(0, 2)):
        m, t = Mat(rng, simple=True), 10 ** rng.uniform(-5, -3.5)
        detector.adddetectorfilter("Filter{}".format(i), m.obj, t)
        det.append((m, t))
    mat = None
    if rng.random() < 0.7:
        s = rng.choice(["Si", "Ge"])
        t = 10 ** rng.uniform(-2.5, -1)
        detector.addattenuator("Detector", element.Element(s), t)
        mat = (s, t)
    return beam, det, mat


def rates(c, rng):
    ml, mats, thick, geom = make_stack(rng, n=rng.choice([1, 1, 2, 3]))
    beam, det, detmat = add_filters(rng, geom.detector)
    nsource = rng.choice([1, 1, 2])
    nlines = rng.choice([0, 1, 2, 3])
    multi = nsource > 1
    nl = max(nlines, 1)
    nrounds = rng.randint(1, 4)
    c.event("samples")
    c.key(len(mats), nsource, nlines, geom.angleout > 0, len(beam), len(det), bool(detmat))
    for rnd in range(nrounds):
        rho = ml.density
        thick = ml.thickness
        cin, cout = angles(ml.geometry)
        reflection = ml.geometry.angleout > 0
        e0 = np.sort(c.np.uniform(8, 25, (nsource, nl)), axis=1)
        w0 = c.np.uniform(0.2, 2, (nsource, nl)) if rng.random() < 0.6 else None
        emin = rng.choice([0, 0.5, 1.0, 2.0])
        scattering = rng.random() < 0.8
        resp = rng.random() < 0.7
        method = "analytical" if rng.random() < 0.9 or len(mats) > 1 or emin < 1 else "numerical"
        if multi:
            ea, wa = e0, w0
        elif nlines == 0:
            ea, wa = float(e0[0, 0]), None if w0 is None else float(w0[0, 0])
        else:
            ea, wa = e0[0], None if w0 is None else w0[0]
        if rng.random() < 0.25:
            # a call which is refused does not leave anything behind
            bad = rng.choice(["weights", "method", "interactions"])
            try:
                if bad == "weights":
                    ml.xrayspectrum(ea, weights=np.ones((3, 7)))
                elif bad == "method":
                    ml.xrayspectrum(ea, method="fisx", scattering=True)
                else:
                    ml.xrayspectrum(ea, ninteractions=2)
            except Exception:
                c.event("refused calls")
            else:
                c.require(False, "rates:invalid accepted", bad)
            i = rng.randrange(len(mats))
            ml[i].thickness = ml[i].thickness * rng.uniform(0.4, 2)
            thick = ml.thickness
        res = ml.xrayspectrum(ea, weights=wa, emin=emin, method=method, scattering=scattering, withdetectorresponse=resp)
        c.require(isinstance(res, list) == multi, "rates:type")
        res = res if multi else [res]
        c.require(len(res) == nsource, "rates:number of sources")
        wn = np.full((nsource, nl), 1.0 / nl) if w0 is None else w0 / w0.sum(axis=1)[:, None]
        sa = float(ml.geometry.solidangle)
        polar = np.radians(ml.geometry.anglein + ml.geometry.angleout)
        for spectrum, en, wt in zip(res, e0, wn):
            emax = en.max()
            probs = []
            for layer in ml:
                sp = copy.deepcopy(layer.material).xrayspectrum(en, emin=emin, emax=emax)
                f = layer.density / layer.material.density
                probs.append({str(k): np.atleast_1d(v) * f for k, v in sp.probabilities})
            names = {k for p in probs for k in p}
            got = {str(k): (k, np.atleast_1d(v)) for k, v in spectrum.rates}
            if not scattering:
                names -= {"Rayleigh", "Compton"}
            c.require(set(got) == names, "rates:lines", lambda: "missing {} too many {}".format(names - set(got), set(got) - names))
            for name, (_, val) in got.items():
                c.require(np.all(np.isfinite(val)) and np.all(val >= 0), "rates:finite", lambda: "{} {}".format(name, val))
            scale = max(np.max(v) for _, v in got.values()) if got else 0
            pick = [n for n in names if n in ("Rayleigh", "Compton")]
            # tabulated attenuation starts at 0.1 keV
            fl = [n for n in names - {"Rayleigh", "Compton"} if got[n][0].energy() > 0.15]
            fl = sorted(fl, key=lambda n: -np.max(got[n][1]))
            pick += fl[:4] + rng.sample(fl, min(len(fl), 3))
            for name in pick:
                line, val = got[name]
                c.require(len(val) == nl, "rates:size", name)
                for i in range(nl):
                    if name == "Rayleigh":
                        e1 = en[i]
                    elif name == "Compton":
                        e1 = en[i] / (1 + en[i] / 510.99895 * (1 - np.cos(polar)))
                    else:
                        el, ln = name.split("-")
                        e1 = float(line.energy())
                        c.require(emin <= e1 <= emax, "rates:energy range", name)
                    p = [q[name][i] if name in q else 0.0 for q in probs]
                    r = integral(mats, thick, rho, cin, cout, reflection, en[i], e1, p)
                    r *= sa / cin * wt[i]
                    r *= np.exp(-sum(m.mu(en[i]) * m.density * t for m, t in beam))
                    r *= np.exp(-sum(m.mu(e1) * m.density * t for m, t in det))
                    if resp and detmat:
                        s, t = detmat
                        r *= 1 - np.exp(-mu_el(s, e1) * xraylib.ElementDensity(z(s)) * t)
                    rtol = 1e-5 if name != "Compton" else 1e-4
                    # absolute precision of the quadrature
                    quad = 1e-7 * sa / cin if method == "numerical" else 0
                    close(c, val[i], r, "rates:" + ("fluorescence" if name not in ("Rayleigh", "Compton") else name), rtol=rtol,
                          atol=1e-9 * scale + 1e-250 + quad, line=name, method=method, reflection=reflection)
                    c.event("rates")
        # change something and measure again
        what = rng.choice(["thickness", "density", "anglein", "angleout", "position", "filter", "json", "layer", "redistribute", "swap"])
        i = rng.randrange(len(mats))
        if what == "thickness":
            ml[i].thickness = ml[i].thickness * rng.uniform(0.4, 2)
        elif what == "density":
            x = ml[i].density * rng.uniform(0.5, 2)
            if mats[i].kind == "compound" and rng.random() < 0.5:
                ml[i].material.density = x
            else:
                ml[i].density = x
        elif what == "anglein":
            ml.geometry.anglein = rng.uniform(15, 90)
        elif what == "angleout":
            ml.geometry.angleout = rng.uniform(15, 85) * rng.choice([-1, 1])
        elif what == "position":
            ml.geometry.detectorposition = rng.uniform(0, 20)
        elif what == "filter":
            if rng.random() < 0.5:
                ml.geometry.detector.removebeamfilters()
                beam = []
            else:
                ml.geometry.detector.removedetectorfilters()
                det = []
        elif what == "json":
            ml = jsonpickle.loads(jsonpickle.dumps(ml))
        elif what == "redistribute":
            # same total thickness
            f = c.np.uniform(0.2, 1, len(mats))
            for layer, t in zip(ml, f / f.sum() * ml.thickness.sum()):
                layer.thickness = t
        elif what == "swap":
            j = rng.randrange(len(mats))
            ml[i].material, ml[j].material = ml[j].material, ml[i].material
            ml[i].density, ml[j].density = ml[j].density, ml[i].density
            mats[i], mats[j] = mats[j], mats[i]
        elif what == "layer":
            m = Mat(rng)
            mats[i] = m
            ml[i].material = m.obj


def marks(c, rng):
    """Absorbers and scatterers are marked in every layer"""
    ml, mats, thick, geom = make_stack(rng)
    e = rng.uniform(8, 25)
    names = sorted({s for m in mats for s in m.w})
    s = rng.choice(names)
    args = rng.choice([{}, {"shells": ["K"]}, {"shells": ["K"], "fluolines": ["KL3"]}])
    c.key(len(mats), tuple(sorted(args)), s)

    def cs():
        return np.array([float(np.squeeze(layer.material.fluorescence_cross_section(e))) for layer in ml])

    ml.unmarkabsorber()
    c.require(np.all(cs() == 0), "marks:unmarked")
    ml.markabsorber(s, **args)
    exp = []
    for m in mats:
        w = m.w.get(s, 0)
        el = element.Element(s)
        el.markabsorber(s, **args)
        exp.append(w * float(np.squeeze(el.fluorescence_cross_section(e))))
    close(c, cs(), exp, "marks:absorber", rtol=1e-9, **args)
    if "shells" in args:
        try:
            tot = xraylib.CS_Photo_Partial(z(s), xraylib.K_SHELL, e) * xraylib.FluorYield(z(s), xraylib.K_SHELL)
            if "fluolines" in args:
                tot *= xraylib.RadRate(z(s), xraylib.KL3_LINE)
        except ValueError:
            tot = 0.0
        close(c, exp, [m.w.get(s, 0) * tot for m in mats], "marks:value", rtol=1e-9)
    c.event("layers with marked absorbers", sum(x > 0 for x in exp))
    ml.unmarkabsorber()
    c.require(np.all(cs() == 0), "marks:unmark absorber")
    # scatterers
    def scattering():
        return [
            layer.material.isscatterer if m.kind == "element" else float(np.squeeze(layer.material.scattering_cross_section(e))) > 0
            for m, layer in zip(mats, ml)
        ]

    ml.unmarkscatterer()
    c.require(not any(scattering()), "marks:unmark scatterer")
    ml.markscatterer()
    c.require(all(scattering()), "marks:mark scatterer")
    c.event("layers with marked scatterers", len(mats))


GROUPS = [
    Group("marks", marks, 60, 1000),
    Group("layers", layers, 250, 5000),
    Group("refine", refine, 250, 5000, minimum=30),
    Group("rates", rates, 120, 2000),
]
