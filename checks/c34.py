"""XRF maps: spectra with known peak areas go in, maps with those areas come out, corrected and added as configured."""
import copy
import re
import os
import numpy as np
from lib.vp import Group, Discard
from checks.c24 import close
from checks.c31 import write_edf, read_edf
from spectrocrunch.io import nxfs, xiaedf
from spectrocrunch.pipelines import fluoxas
from spectrocrunch.pipelines.run import run_sequential
from spectrocrunch.process import nxresult
from spectrocrunch.xrf import fit
from PyMca5.PyMcaPhysics.xrf import ClassMcaTheory, ConcentrationsTool
from PyMca5.PyMcaIO import ConfigDict

ID = "C34"
LEVEL = "exploration"
RULE = (
    "spectra synthesized from random peak areas per pixel, with the fit model of PyMca itself configured independently, written as XIA maps "
    "with random dead time, flux decay, detectors, energies in any order; fitted in batch (fast or not, any option) and by "
    "whole task pipelines; random PyMca configurations adapted in histories of energies"
)
GRP = {"Ca": "K", "Ti": "K", "Cr": "K", "Fe": "K"}
NCHAN = 512
_TEMPLATES = {}


def config(rng, energies, weights, scatter, quant=False, elements=None, linear=None):
    m = ClassMcaTheory.McaTheory()
    cfg = copy.deepcopy(m.getStartingConfiguration())
    cfg["attenuators"]["Matrix"] = [0, "-", 0.0, 0.0, 45.0, 45.0, 0, 90.0]
    if quant:
        cfg["materials"] = copy.deepcopy(cfg["materials"])
        cfg["materials"]["thesample"] = {
            "Comment": "thesample", "CompoundList": ["Ca1", "Ti1", "Cr1", "Fe1", "O1"], "CompoundFraction": [0.1, 0.15, 0.2, 0.25, 0.3],
            "Density": 3.0, "Thickness": 0.001,
        }
        cfg["attenuators"]["Matrix"] = [1, "thesample", 3.0, 0.001, 50.0, 40.0, 0, 90.0]
        cfg["concentrations"].update(usematrix=0, useattenuators=1, flux=3e9, time=0.2, area=0.4, distance=3.0, usemultilayersecondary=0, usexrfmc=0)
    elements = elements or rng.sample(sorted(GRP), rng.randint(1, 3))
    cfg["peaks"] = {e: [GRP[e]] for e in elements}
    f = cfg["fit"]
    f["energy"], f["energyweight"] = list(energies), list(weights)
    f["energyflag"], f["energyscatter"] = [1] * len(energies), list(scatter)
    f.update(linearfitflag=1, continuum=rng.choice([0, 1, 2]), scatterflag=int(any(scatter)), escapeflag=0, xmin=130, xmax=500, fitweight=0, stripflag=0)
    f.update(strategyflag=0, maxiter=20)
    d = cfg["detector"]
    d.update(zero=0.0, gain=0.02, noise=0.08, fano=0.12)
    for sec in ("detector", "peakshape"):
        for k in cfg[sec]:
            if k.startswith("fixed"):
                cfg[sec][k] = 1
    f["hypermetflag"] = 1
    return cfg


def at_energy(cfg, energy):
    """our own adaptation: the enabled source lines move along with the first"""
    cfg = copy.deepcopy(cfg)
    f = cfg["fit"]
    on = [i for i, x in enumerate(f["energyflag"]) if int(x)]
    e = [float(f["energy"][i]) for i in on]
    w = [float(f["energyweight"][i]) for i in on]
    s = [int(f["energyscatter"][i]) for i in on]
    f["energy"] = [x / e[0] * energy for x in e]
    f["energyweight"] = [x / w[0] for x in w]
    f["energyflag"], f["energyscatter"] = [1] * len(on), s
    if len(on) > 1 and not cfg["attenuators"]["Matrix"][0]:
        # PyMca wants a sample for several energies: nothing
        cfg["materials"] = copy.deepcopy(cfg["materials"])
        cfg["materials"]["Nothing"] = {"Comment": "Nothing", "CompoundFraction": [1], "CompoundList": ["H1"], "Density": 1.0, "Thickness": 0.0}
        cfg["attenuators"]["Matrix"][:4] = [1, "Nothing", 1.0, 0.0]
    return cfg


def label(name):
    return name.strip().replace(" ", "_")


class Model:
    """spectra of unit peak area (PyMca), for one configuration"""

    def __init__(self, cfg):
        key = repr(sorted((k, repr(v)) for k, v in cfg.items() if k != "materials"))
        if key not in _TEMPLATES:
            if len(_TEMPLATES) > 200:
                _TEMPLATES.clear()
            m = ClassMcaTheory.McaTheory()
            m.configure(copy.deepcopy(cfg))
            x = np.arange(NCHAN, dtype=float)
            m.setData(x, np.ones(NCHAN))
            m.estimate()
            par = [float(p) for p in m.parameters]
            ng = m.NGLOBAL
            names = list(m.PARAMETERS)
            zero = list(par)
            free = [i for i, n in enumerate(names) if i >= ng or n in ("Constant", "1st Order")[: cfg["fit"]["continuum"]]]
            for i in free:
                zero[i] = 0.0
            T = []
            for i in free:
                p = list(zero)
                p[i] = 1.0
                T.append(np.array(m.mcatheory(p, x), float))
            _TEMPLATES[key] = [label(names[i]) for i in free], np.array(T), m, names
        self.names, self.T, self.m, self.allnames = _TEMPLATES[key]

    def areas(self, r, shape, low=50.0, high=2000.0):
        A = r.uniform(low, high, shape + (len(self.names),))
        for i, n in enumerate(self.names):
            if n == "Constant":
                A[..., i] = r.uniform(1, 5, shape)
            elif n == "1st_Order":
                A[..., i] = r.uniform(0.001, 0.005, shape)
        return A

    def massfractions(self, cfg, names):
        """of unit areas"""
        m = ClassMcaTheory.McaTheory()
        m.configure(copy.deepcopy(cfg))
        x = np.arange(NCHAN, dtype=float)
        a = np.where([n in ("Constant", "1st_Order") for n in self.names], 1e-3, 1000.0)
        m.setData(x, a @ self.T)
        m.estimate()
        fitresult, digested = m.startfit(digest=1)
        ct = ConcentrationsTool.ConcentrationsTool()
        cc = ct.configure()
        cc.update(cfg["concentrations"])
        res = ct.processFitResult(config=cc, fitresult={"result": digested}, elementsfrommatrix=False, fluorates=m._fluoRates)
        return {label(k): res["mass fraction"][k] / res["fitarea"][k] for k in res["mass fraction"]}


def padding(rng, cfg):
    """disabled source lines around the enabled ones"""
    f = cfg["fit"]
    rows = list(zip(f["energy"], f["energyweight"], f["energyflag"], f["energyscatter"]))
    for _ in range(rng.randint(1, 4)):
        rows.insert(rng.randint(0, len(rows)), (rng.choice([None, 0.0, rng.uniform(5, 12)]), rng.uniform(0, 1), 0, rng.choice([0, 1])))
    for i, k in enumerate(("energy", "energyweight", "energyflag", "energyscatter")):
        f[k] = [x[i] for x in rows]


def quantparams(rng):
    q = {"flux": 10 ** rng.uniform(8, 11), "time": rng.uniform(0.05, 2), "area": rng.uniform(0.1, 1), "distance": rng.uniform(1, 8), "anglein": rng.uniform(30, 90), "angleout": rng.uniform(20, 80)}
    for k in list(q):
        if rng.random() < 0.15:
            del q[k]
    return q


def apply_quant(cfg, q):
    cfg = copy.deepcopy(cfg)
    for k in ("flux", "time", "area", "distance"):
        if k in q:
            cfg["concentrations"][k] = q[k]
    M = cfg["attenuators"]["Matrix"]
    M[4] = q.get("anglein", M[4])
    M[5] = q.get("angleout", M[5])
    if "anglein" in q or "angleout" in q:
        M[7] = M[4] + M[5]
    return cfg


def lines(rng, n=None):
    n = n or rng.choice([1, 1, 1, 2, 3])
    e0 = rng.uniform(7.6, 9.2)
    e = [e0] + [e0 * rng.uniform(1.0, 1.05) for _ in range(n - 1)]
    w = [1.0] + [rng.uniform(0.05, 1) for _ in range(n - 1)]
    s = [rng.choice([0, 1])] + [0] * (n - 1)
    return e, w, s


def batchfit(c, rng):
    quant = rng.random() < 0.35
    if rng.random() < 0.6:
        e, w, s = lines(rng)
    else:
        e, w, s = lines(rng, 1)
    cfg = config(rng, e, w, s, quant=quant)
    if rng.random() < 0.3:
        del cfg["fit"]["strategyflag"]
    energy = rng.choice([None, e[0] * rng.uniform(0.97, 1.1)])
    if len(e) > 1 and not quant:
        energy = e[0] * rng.uniform(0.97, 1.1)
    pad = rng.random() < 0.3
    if pad:
        padding(rng, cfg)
    q = quantparams(rng) if quant else None
    if quant and not q:
        raise Discard
    truth = at_energy(cfg, e[0] if energy is None else energy)
    if quant:
        truth = apply_quant(truth, q)
    if any(9.7 < x < 10.5 and y for x, y in zip(truth["fit"]["energy"], truth["fit"]["energyscatter"])):
        # PyMca drops peaks on the border of the fitted region
        raise Discard
    model = Model(truth)
    fast = rng.random() < 0.5
    nr, nc = rng.randint(1, 4), rng.randint(1, 5)
    A = model.areas(c.np, (nr, nc))
    y = A @ model.T
    files = []
    for i in range(nr):
        f = os.path.join(c.dir, "s_%04d.edf" % i)
        write_edf(f, y[i].astype("float32" if rng.random() < 0.5 else "float64"))
        files.append(f)
    # Options which make no difference to the result of this model
    kw = {"fast": fast}
    if rng.random() < 0.3 and len(e) == 1:
        kw["addhigh"] = rng.uniform(1.2, 2)
    if q:
        kw["quant"] = q
    given = copy.deepcopy(cfg)
    if rng.random() < 0.4:
        cd = ConfigDict.ConfigDict(cfg)
        cd.write(os.path.join(c.dir, "a.cfg"))
        given = os.path.join(c.dir, "a.cfg")
        before = open(given).read()
    else:
        given = ConfigDict.ConfigDict(copy.deepcopy(cfg))
        before = None
    out = os.path.join(c.dir, "out")
    what = "fast=%s quant=%s energy=%s of %s nlines=%d" % (fast, q, energy, e, len(e))
    try:
        files2, labels = fit.PerformBatchFit(files, out, "res", given, energy, **kw)
    except Exception as ex:
        c.require(False, "failed", lambda: "%s (%s)" % (ex, what))
    if before is not None:
        c.require(open(given).read() == before, "config file changed", what)
    c.event("batch fits")
    res = {}
    c.require(len(files2) == len(labels) == len(set(labels)), "labels", str(labels))
    for f, l in zip(files2, labels):
        c.require(os.path.exists(f), "missing file", "%s %s" % (l, f))
        res[l] = read_edf(f)[0]
        c.require(res[l].shape == (nr, nc), "map shape", "%s %s" % (l, res[l].shape))
    written = {os.path.realpath(os.path.join(d, x)) for d, _, fs in os.walk(out) for x in fs if x.endswith(".edf")}
    # uncertainties are written but not asked for
    written -= {os.path.realpath(os.path.join(os.path.dirname(f), os.path.basename(f).replace("_" + l, "_s" + l))) for f, l in zip(files2, labels) if "_" + l in f}
    c.require(written == {os.path.realpath(x) for x in files2}, "maps listed", lambda: "%s %s; %s" % (sorted(written), sorted(files2), what))
    check_maps(c, res, model, A, what)
    if q:
        k = model.massfractions(truth, model.names)
        for n, v in k.items():
            if n.startswith("Scatter"):
                continue
            c.require("w" + n in res, "mass fraction missing", "%s not in %s" % (n, labels))
            close(c, res["w" + n], A[..., model.names.index(n)] * v, "mass fraction", rtol=1e-2, info=what + n)
        c.event("mass fraction maps", len(k))
    c.key(fast, quant, len(e), energy is None)
    c.sample({"what": what, "names": model.names})


def check_maps(c, res, model, A, what, rtol=2e-3):
    tot = A[..., [i for i, n in enumerate(model.names) if n not in ("Constant", "1st_Order")]].max()
    for i, n in enumerate(model.names):
        if n == "1st_Order" or (n == "Constant" and n not in res):
            continue
        c.require(n in res, "map missing", "%s not in %s; %s" % (n, sorted(res), what))
        close(c, res[n], A[..., i], "Constant" if n == "Constant" else "peak areas", rtol=rtol, atol=0.3 if n == "Constant" else tot * rtol, info=what + " " + n)
        c.event("area maps")


def spectra(c, rng):
    """fits and regions of interest with another energy per row, normalized per energy"""
    e, w, s = lines(rng, 1)
    cfg = config(rng, e, w, s)
    nfiles, nen = rng.randint(1, 3), rng.randint(1, 4)
    given = rng.choice(["scalar", "one", "list"])
    energies = [e[0] * rng.uniform(0.97, 1.1) for _ in range(nen)]
    if given != "list":
        energies = energies[:1] * nen
    norm = rng.choice([None, 2.5, [3.0], list(c.np.uniform(0.5, 2, nen)), c.np.uniform(0.5, 2, nen)])
    A = None
    y = np.zeros((nfiles, nen, NCHAN))
    for j, en in enumerate(energies):
        model = Model(at_energy(cfg, en))
        if A is None:
            A = model.areas(c.np, (nfiles, nen))
            names = model.names
        c.require(model.names == names, "harness", "names")
        y[:, j] = A[:, j] @ model.T
    if rng.random() < 0.5:
        src = []
        for i in range(nfiles):
            f = os.path.join(c.dir, "s_%04d.edf" % i)
            write_edf(f, y[i].astype("float32"))
            src.append(f)
    else:
        src = y.copy()
    f = os.path.join(c.dir, "a.cfg")
    ConfigDict.ConfigDict(cfg).write(f)
    n = np.ones(nen) * (1 if norm is None else np.asarray(norm, float))
    arg = {"scalar": energies[0], "one": energies[:1], "list": energies}[given]
    if rng.random() < 0.3 and given == "list":
        arg = np.array(arg)
    rois = {"r%d" % i: tuple(sorted(rng.sample(range(NCHAN + 1), 2))) for i in range(rng.randint(1, 3))}
    res = fit.PerformRoi(src, rois, norm=norm)
    c.require(set(res) == set(rois), "rois", str(sorted(res)))
    for k, (a, b) in rois.items():
        close(c, res[k], (y[..., a:b].sum(axis=-1) / n).T, "roi", rtol=1e-5, norm=norm)
    c.event("rois", len(rois))
    kw = {"fast": rng.random() < 0.5, "norm": norm}
    res = fit.PerformFit(src, f, arg, **kw)
    tot = A[..., [i for i, x in enumerate(names) if x not in ("Constant", "1st_Order")]].max() / n.min()
    for i, k in enumerate(names):
        if k in ("Constant", "1st_Order"):
            continue
        k2 = k.replace("_", " ")
        c.require(k2 in res, "group missing", "%s not in %s" % (k2, sorted(res)))
        close(c, res[k2], (A[..., i] / n).T, "areas per energy", rtol=2e-3, atol=2e-3 * tot, info="%s %s %s" % (k, kw, given))
        c.event("areas per energy")
    c.require(np.shape(res["chisq"]) == (nen, nfiles), "chisq shape")
    for bad in (energies + [8.0, 9.0], [1.0] * (nen + 2)):
        try:
            if bad[0] == 1.0:
                fit.PerformRoi(src, rois, norm=bad)
            else:
                fit.PerformFit(src, f, bad)
        except ValueError:
            pass
        else:
            c.require(False, "wrong number accepted", "%s for %d energies" % (bad, nen))
    c.key(kw["fast"], given, type(norm).__name__)


def adapt(c, rng):
    """configurations adapted by histories of energies"""
    n = rng.choice([1, 1, 2, 3])
    e, w, s = lines(rng, n)
    cfg = config(rng, e, w, s, quant=rng.random() < 0.4, elements=rng.sample(sorted(GRP), 2))
    hasM = rng.random() < 0.5
    mlines = {}
    if hasM:
        cfg["peaks"]["Pb"] = rng.choice([["M"], ["M", "L"], ["L", "M"], ["L"]])
        cfg["peaks"]["W"] = rng.choice([["M"], ["M", "L3"], ["L"]])
        mlines = {el: rng.sample(["M1", "M2", "M3", "M4", "M5"], rng.randint(1, 3)) for el in rng.sample(["Pb", "W", "Au", "Fe"], rng.randint(0, 3))}
    high = rng.choice([0, 0, rng.uniform(1.1, 3)])
    if n > 1 and rng.random() < 0.3:
        # a very weak line below the primary energy
        e[-1], w[-1] = e[0] * rng.uniform(0.5, 0.9), w[0] * 10 ** rng.uniform(-9, -5.1)
        cfg["fit"]["energy"], cfg["fit"]["energyweight"] = list(e), list(w)
    if rng.random() < 0.5:
        padding(rng, cfg)
    elif n == 1 and rng.random() < 0.3:
        cfg["fit"]["energy"] = rng.choice([None, [None]])
    work = ConfigDict.ConfigDict(copy.deepcopy(cfg))
    inter = rng.random() < 0.3
    for k in range(rng.randint(1, 5)):
        energy = rng.uniform(7, 12)
        q = quantparams(rng) if rng.random() < 0.4 else None
        fast = rng.random() < 0.3
        before = copy.deepcopy(dict(work))
        none = rng.random() < 0.15
        fit.AdaptPyMcaConfig(work, rng.choice([None, np.nan]) if none and cfg["fit"]["energy"] not in (None, [None]) else energy, addhigh=high, mlines=mlines, quant=q, fast=fast)
        c.event("adaptations")
        if none and cfg["fit"]["energy"] not in (None, [None]):
            for key in ("energy", "energyweight", "energyflag", "energyscatter"):
                c.require(repr(work["fit"][key]) == repr(before["fit"][key]), "unknown energy changed the source", key)
        else:
            f = work["fit"]
            on = [i for i, x in enumerate(f["energyflag"]) if int(x)]
            got = [(float(f["energy"][i]), float(f["energyweight"][i]), int(f["energyscatter"][i])) for i in on]
            exp = [(a / e[0] * energy, b / w[0], d) for a, b, d in zip(e, w, s)]
            if high:
                exp.append((high * energy, 1e-10, 0))
            c.require(len(got) == len(exp), "number of source lines", lambda: "%s != %s" % (got, exp))
            for a, b in zip(got, exp):
                c.require(np.allclose(a, b, rtol=1e-9, atol=1e-15), "source lines", lambda: "%s != %s" % (got, exp))
            c.require(len(f["energy"]) == len(f["energyweight"]) == len(f["energyflag"]) == len(f["energyscatter"]), "lists of the source", str(f["energy"]))
            if len(on) > 1:
                c.require(work["attenuators"]["Matrix"][0] == 1, "no sample for several energies")
        # Everything else
        exp = apply_quant({"concentrations": before["concentrations"], "attenuators": before["attenuators"]}, q or {})
        c.require(work["concentrations"] == exp["concentrations"], "quantification", lambda: "%s: %s" % (q, work["concentrations"]))
        M, M2 = work["attenuators"]["Matrix"], exp["attenuators"]["Matrix"]
        c.require(list(M[4:]) == list(M2[4:]), "angles", lambda: "%s != %s" % (M, M2))
        if before["attenuators"]["Matrix"][0]:
            c.require(list(M) == list(M2), "sample", lambda: "%s != %s" % (M, M2))
        for el, groups in cfg["peaks"].items():
            g = [groups] if isinstance(groups, str) else list(groups)
            if el in mlines and "M" in g:
                g = [x for x in g if x != "M"] + list(mlines[el])
            c.require(sorted(work["peaks"][el]) == sorted(g), "groups", "%s: %s != %s" % (el, work["peaks"][el], g))
        c.require(set(work["peaks"]) == set(cfg["peaks"]), "elements")
        c.require(work["fit"]["fitweight"] == 0 and (not fast or (work["fit"]["linearfitflag"] == 1 and not work["fit"]["strategyflag"])), "fast fit settings")
        for sec in before:
            if sec in ("concentrations", "attenuators", "peaks", "materials", "fit"):
                continue
            c.require(repr(before[sec]) == repr(work[sec]), "other settings", sec)
        for key in before["fit"]:
            if key not in ("energy", "energyweight", "energyflag", "energyscatter", "fitweight", "linearfitflag", "strategyflag"):
                c.require(repr(before["fit"][key]) == repr(work["fit"][key]), "other fit settings", key)
        if inter:
            # through a file
            p = os.path.join(c.dir, "x.cfg")
            work.write(p)
            work = ConfigDict.ConfigDict(filelist=p)
            for el in work["peaks"]:
                if isinstance(work["peaks"][el], str):
                    work["peaks"][el] = [work["peaks"][el]]
    c.key(n, high > 0, bool(mlines), inter)


class Flux:
    """a calibrated geometry: photons to counts"""

    def __init__(self, rng, energies, ndet):
        from spectrocrunch.geometries import qxrf

        self.ref, self.time = 10 ** rng.uniform(8.5, 9.5), rng.choice([0.3, 0.1, 1.0])
        self.params = {
            "geometry": "sxm1",
            "init": {"reference": self.ref, "defaultexpotime": self.time, "xrfgeometries": [("sxm120", "leia")] * ndet, "instrument": "sxm"},
            "fixed": {"plot": False, "dark": False, "time": 1, "gaindiodeI0": 1e8, "gaindiodeIt": 1e7},
            "variable": [
                {"I0_counts": 300, "It_counts": 30, "dark": True},
                {"I0_counts": 400000, "It_counts": 100000, "energy": min(energies) - 0.01},
                {"I0_counts": 200000, "It_counts": 100000, "energy": max(energies) + 0.01},
            ],
        }
        g = qxrf.factory(self.params["geometry"], **copy.deepcopy(self.params["init"]))
        g.batchcalibrate_diodes(copy.deepcopy(self.params["fixed"]), copy.deepcopy(self.params["variable"]))
        g.diodeI0.gain = 1e9
        g.diodeIt.gain = 1e8
        self.positions = [rng.uniform(0, 20) for _ in range(ndet)]
        self.geometry = g
        self.task = {"gaindiodeI0": 1e9, "gaindiodeIt": 1e8, "xrf_positions": self.positions, "referenceflux": self.ref, "referencetime": self.time}

    def counts(self, energy, f0, ft, time):
        g = self.geometry
        return (
            np.asarray(g.diodeI0.fluxtocps(energy, f0).magnitude, float) * time,
            np.asarray(g.diodeIt.fluxtocps(energy, ft).magnitude, float) * time,
        )

    def quant(self, i):
        x = copy.deepcopy(self.geometry.xrfgeometries[i])
        x.detectorposition = self.positions[i]
        return {
            "flux": self.ref, "time": self.time, "area": x.detector.activearea.to("cm^2").magnitude, "distance": x.distance.to("cm").magnitude,
            "anglein": x.anglein, "angleout": x.angleout,
        }


def maps(c, rng):
    run_maps(c, rng, False)


def quantmaps(c, rng):
    run_maps(c, rng, True)


def run_maps(c, rng, quant):
    r = c.np
    nmap = rng.choice([1, 2, 2, 3])
    nrow, ncol = rng.randint(1, 4), rng.randint(2, 5)
    dets = sorted(rng.sample(range(5), rng.choice([1, 2, 3, 3]))) if rng.random() < 0.3 else list(range(rng.choice([1, 2, 3, 3])))
    radices = ["map"] if nmap == 1 or rng.random() < 0.7 else ["map", "other"]
    first = rng.choice([0, 1, 37])
    energies = [float("%.5f" % rng.uniform(8.0, 9.0)) for _ in range(nmap)]
    # Which detectors, in which groups
    pool = list(dets)
    kind = rng.choice(["all", "some", "groups", "groups"])
    exclude = []
    if kind == "all":
        include, used = [], list(dets)
        if len(dets) > 1 and rng.random() < 0.3:
            exclude = [rng.choice(dets)]
            used = [d for d in dets if d not in exclude]
    elif kind == "some":
        include = rng.sample(dets, rng.randint(1, len(dets)))
        used = list(include)
    else:
        rng.shuffle(pool)
        include = []
        while pool:
            n = rng.randint(1, 2)
            include.append(tuple(pool[:n]))
            pool = pool[n:]
        if rng.random() < 0.3:
            include = include[:-1] or include
        if rng.random() < 0.25 and len(include) > 1:
            # a detector in two groups
            include[0] = include[0] + (include[-1][0],)
            include[0] = tuple(dict.fromkeys(include[0]))
        used = list(dict.fromkeys(d for g in include for d in g))
        include = [g[0] if len(g) == 1 and rng.random() < 0.5 else g for g in include]
    groups = [g if isinstance(g, tuple) else (g,) for g in include]
    grouped = any(len(g) > 1 for g in groups)
    if not grouped:
        groups = [tuple(used)]
    add, addbefore = rng.random() < 0.5, rng.random() < 0.5
    addall = add and len(used) > 1
    several = grouped and len(groups) > 1
    addspectra = (addall or several) and addbefore
    if addspectra:
        tofit = [("S%d" % (i + 1), g) for i, g in enumerate(groups)]
    else:
        tofit = [("%02d" % d, (d,)) for d in used]
    dtcor, correct = rng.random() < 0.7, rng.random() < 0.5
    fast = rng.random() < 0.8
    stackdim = rng.choice([0, 0, 1, 2])
    # Configurations
    e0 = rng.uniform(8, 9)
    ncfg = rng.choice([1, len(tofit)]) if rng.random() < 0.9 else 0
    cfgs = [config(rng, [e0], [1.0], [0], quant=quant) for _ in range(ncfg)]
    for cfg in cfgs:
        cfg["fit"]["continuum"] = cfgs[0]["fit"]["continuum"]
    flux = Flux(rng, energies, len(tofit)) if quant else None
    names = None
    # Truth: areas per detector
    allnames = sorted({label(e + " " + GRP[e]) for cfg in cfgs for e in cfg["peaks"]})
    shape = (nmap, nrow, ncol)
    time = flux.time if quant else 0.1
    rflux = r.uniform(0.3, 1.2, shape)
    trans = r.uniform(0.05, 0.9, shape)
    dead = {d: r.uniform(0, 0.3, shape) * (rng.random() < 0.8) for d in dets}
    fitcfg = {}
    if ncfg:
        for i, (name, g) in enumerate(tofit):
            cfg = cfgs[i if ncfg > 1 else 0]
            fitcfg[name] = cfg
    y = {d: np.zeros(shape + (NCHAN,)) for d in dets}
    A = {d: {} for d in dets}
    for d in dets:
        # A detector contains the peaks of all configurations it is fitted with
        mine = [fitcfg[name] for name, g in tofit if d in g and name in fitcfg]
        if not mine:
            y[d] += 1.0
            continue
        if any(m is not mine[0] for m in mine):
            raise Discard  # fitted with different models
        for k in range(nmap):
            q = flux.quant([n for n, g in tofit].index([n for n, g in tofit if d in g][0])) if quant else {}
            model = Model(apply_quant(at_energy(mine[0], energies[k]), q))
            a = model.areas(r, (nrow, ncol))
            y[d][k] = a @ model.T
            for i, n in enumerate(model.names):
                A[d].setdefault(n, np.zeros(shape))[k] = a[..., i]
    # Files
    src = os.path.join(c.dir, "data")
    os.makedirs(src)
    icr = {d: r.randint(2000, 30000, shape) for d in dets}
    ocr = {d: np.round(icr[d] * (1 - dead[d])).astype(int) for d in dets}
    corr = {d: icr[d] / ocr[d] for d in dets}
    ctrs = {"arr_fdet": r.randint(1, 1000, shape).astype("float32"), "arr_iodet": np.zeros(shape), "arr_idet": np.zeros(shape)}
    for k in range(nmap):
        if quant:
            ctrs["arr_iodet"][k], ctrs["arr_idet"][k] = flux.counts(energies[k], rflux[k] * flux.ref, rflux[k] * trans[k] * flux.ref, time)
        else:
            ctrs["arr_iodet"][k], ctrs["arr_idet"][k] = rflux[k] * 1e5, rflux[k] * trans[k] * 1e4
    for d in dets:
        ctrs["xmap_icr_%02d" % d] = icr[d].astype("float64")
        ctrs["xmap_x1c_%02d" % d] = r.uniform(0, 100, shape)
    title = None
    if rng.random() < 0.5:
        a, b = sorted(r.uniform(-50, 50, 2))
        title = "zapimage  sampy %.4f %.4f %d %d sampz %.4f %.4f %d  0" % ((a, b, ncol, time * 1000) + tuple(sorted(r.uniform(-50, 50, 2))) + (nrow - 1,))
    where = []
    for k in range(nmap):
        rad = radices[k * len(radices) // nmap]
        num = first + k
        where.append((rad, num))
        for l in range(nrow):
            for i, d in enumerate(dets):
                m = rflux[k, l] * ocr[d][k, l] / icr[d][k, l]
                write_edf(os.path.join(src, "%s_xia%02d_%04d_0000_%04d.edf" % (rad, d, num, l)), y[d][k, l] * m[:, None])
            st = np.zeros((ncol, len(dets), 6), "int32")
            for i, d in enumerate(dets):
                st[:, i, 0], st[:, i, 2], st[:, i, 3] = d, icr[d][k, l], ocr[d][k, l]
            write_edf(os.path.join(src, "%s_xiast_%04d_0000_%04d.edf" % (rad, num, l)), st.reshape(ncol, -1), [("xdata", 3), ("xdet", " ".join(map(str, dets)))])
        for n, v in ctrs.items():
            extra = [("DCM_Energy", repr(energies[k])), ("time", repr(time))]
            if title:
                extra.append(("Title", title))
            write_edf(os.path.join(src, "%s_%s_%04d_0000.edf" % (rad, n, num)), v[k], extra)
    cfgarg = []
    for i, cfg in enumerate(cfgs):
        f = os.path.join(c.dir, "fit%d.cfg" % i)
        ConfigDict.ConfigDict(copy.deepcopy(cfg)).write(f)
        cfgarg.append(f)
    out = os.path.join(c.dir, "out.h5")
    parameters = {
        "common": {"instrument": "sxm", "stackdim": stackdim, "outputparent": out + "::/entry"},
        "pymca": {
            "sourcepaths": [src] * len(radices), "scannames": list(radices),
            "scannumbers": [[n for rad, n in where if rad == x] for x in radices],
            "pymcacfg": cfgarg, "dtcor": dtcor, "adddetectors": add, "addbeforefit": addbefore, "correctspectra": correct,
            "include_detectors": include, "exclude_detectors": exclude, "counters": [], "fastfitting": fast,
        },
    }
    if quant:
        parameters["geometry"] = dict(copy.deepcopy(flux.params), outputparent=out + "::/entry")
        parameters["pymca"].update(copy.deepcopy(flux.task))
    what = "include=%s exclude=%s add=%s before=%s dtcor=%s correct=%s fast=%s stackdim=%d nmap=%d dets=%s ncfg=%d quant=%s radices=%s" % (
        include, exclude, add, addbefore, dtcor, correct, fast, stackdim, nmap, dets, ncfg, quant, radices,
    )
    tasks = fluoxas.tasks(**parameters)
    c.require(run_sequential(tasks), "pipeline failed", what)
    c.event("pipelines")
    again = fluoxas.tasks(**copy.deepcopy(parameters))
    c.require(all(t.done for t in again), "not recognized as done", what)
    # Expected results
    order = np.argsort(energies, kind="mergesort")
    norm = np.ones(shape) if quant else rflux

    def response(d, before):
        """what is left of the measurement process"""
        if dtcor:
            return norm
        return norm / corr[d]

    final = {}
    for name, g in tofit:
        if name not in fitcfg:
            continue
        final[name] = {n: sum(A[d][n] * response(d, addspectra) for d in g if d in A and n in A[d]) for n in A[g[0]]}
    weight = {}
    if quant and ncfg:
        for i, (name, g) in enumerate(tofit):
            k = None
            for im in range(nmap):
                cfg = apply_quant(at_energy(fitcfg[name], energies[im]), flux.quant(i))
                model = Model(cfg)
                for n, v in model.massfractions(cfg, model.names).items():
                    if not n.startswith("Scatter"):
                        weight.setdefault(name, {}).setdefault("w" + n, np.zeros(shape))[im] = v * final[name][n][im]
    result = {}

    def put(dest, maps_, how):
        for n, v in maps_.items():
            result.setdefault(dest, {}).setdefault(n, []).append(v)

    sumname = {}
    if several or addall:
        for i, g in enumerate(groups):
            sumname["S%d" % (i + 1)] = g
    fitted = {n: dict(final.get(n, {}), **weight.get(n, {})) for n, g in tofit}
    detctr = {"%02d" % d: {n[:-3]: v for n, v in ctrs.items() if n.startswith("xmap") and n.endswith("_%02d" % d)} for d in used}
    total = "S%d" % (len(groups) + 1)
    every = {}
    for name, g in tofit:
        for sname, sg in sumname.items():
            if addspectra:
                if name == sname:
                    put(total if addall and several else sname, fitted[name], None)
            elif g[0] in sg:
                put(("tmp", sname) if addall and several else sname, fitted[name], None)
        if not sumname:
            put(name, fitted[name], None)
    if addall and several and not addspectra:
        for sname in sumname:
            m = result.pop(("tmp", sname), {})
            for n, v in m.items():
                if n.startswith("w"):
                    every.setdefault(n, []).extend(v)
            put(total, {n: np.mean(v, axis=0) if n.startswith("w") else sum(v) for n, v in m.items()}, None)
    result = {k: {n: np.mean(v, axis=0) if n.startswith("w") else sum(v) for n, v in m.items()} for k, m in result.items()}
    ctrresult = {}
    for d in used:
        for sname, sg in sumname.items():
            if d in sg:
                dest = total if addall and several else sname
                for n, v in detctr["%02d" % d].items():
                    ctrresult.setdefault(dest, {}).setdefault(n, []).append(v)
        if not sumname:
            ctrresult["%02d" % d] = {n: [v] for n, v in detctr["%02d" % d].items()}
    for k, m in ctrresult.items():
        for n, v in m.items():
            result.setdefault(k, {})[n] = sum(v)
    # Compare
    res, axes, sd = nxresult.regulargriddata(tasks[-1].output)
    c.require(sd == stackdim, "stack dimension", "%s != %s" % (sd, stackdim))
    got = {g.name: {s.name: s for s in sig} for g, sig in res.items()}
    exp = {"detector" + k for k in result} | {"counters"}
    if total in result:
        # Any number can be used for the sum of the sums
        free = [k for k in got if re.match(r"detectorS\d+$", k) and k not in exp]
        if len(free) == 1 and "detector" + total not in got:
            exp = exp - {"detector" + total} | {free[0]}
            result[free[0][8:]] = result.pop(total)
            total = free[0][8:]
    c.require(set(got) == exp, "result groups", lambda: "%s != %s %s" % (sorted(got), sorted(exp), what))

    def read(group, name):
        c.require(name in got[group], "result missing", lambda: "%s not in %s:%s %s" % (name, group, sorted(got[group]), what))
        with got[group][name].open(mode="r") as dset:
            return np.moveaxis(dset[()], stackdim, 0)

    for g, m in result.items():
        for n, v in m.items():
            if n == "1st_Order" or (n == "Constant" and not fast):
                continue
            isctr = n.startswith("xmap")
            if g == total and n in every:
                # Average of all detectors or average of the group averages
                alt = np.mean(every[n], axis=0)
                if np.allclose(read("detector" + g, n), alt[order], rtol=2e-2, atol=np.abs(alt).max() * 3e-3):
                    continue
            isw = n.startswith("w")
            close(
                c, read("detector" + g, n), v[order], "detector counters" if isctr else "mass fractions" if isw else "peak areas",
                rtol=1e-5 if isctr else 2e-2 if isw else 3e-3,
                atol=0 if isctr else 0.3 if n == "Constant" else np.abs(v).max() * 3e-3 if isw else 10 * len(used), info="%s/%s %s" % (g, n, what),
            )
            c.event("result maps")
    for n, v in ctrs.items():
        if n.startswith("arr"):
            close(c, read("counters", n), v[order], "counters", rtol=1e-6, info=n + " " + what)
    if quant:
        close(c, read("counters", "calc_flux0"), (rflux * flux.ref)[order], "flux", rtol=1e-4, info=what)
        close(c, read("counters", "calc_fluxt"), (rflux * trans * flux.ref)[order], "transmitted flux", rtol=1e-4, info=what)
        close(c, read("counters", "calc_transmission"), trans[order], "transmission", rtol=2e-4, info=what)
        close(c, read("counters", "calc_absorbance"), -np.log(trans[order]), "absorbance", rtol=1e-3, atol=1e-3, info=what)
    ax = axes[stackdim]
    close(c, ax.magnitude, np.array(energies)[order], "energies", rtol=1e-6, info=what)
    image = [x for i, x in enumerate(axes) if i != stackdim]
    c.require([x.size for x in image] == [nrow, ncol], "image axes", "%s %s" % ([x.size for x in image], what))
    if title:
        px = (b - a) / ncol
        close(c, image[1].magnitude, a + (np.arange(ncol) + 0.5) * px, "fast axis", rtol=1e-3, atol=1e-3, info=title)
        close(c, image[0].magnitude, slow_axis(title, nrow), "slow axis", rtol=1e-3, atol=1e-3, info=title)
    c.key(kind, add, addbefore, dtcor, correct, stackdim, quant, ncfg > 0)
    c.sample(what)


def slow_axis(title, n):
    p = title.split()
    return np.linspace(float(p[7]), float(p[8]), n)


GROUPS = [
    Group("maps", maps, 60, 1000, minimum=40, timeout=120),
    Group("quantmaps", quantmaps, 25, 400, minimum=15, timeout=120),
    Group("adapt", adapt, 150, 4000, minimum=120),
    Group("spectra", spectra, 40, 800, minimum=30),
    Group("batchfit", batchfit, 60, 1500, minimum=40),
]
