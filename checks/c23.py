"""Composition of materials: one bookkeeping of moles, masses and volumes behind every representation."""
import copy
import math
import numpy as np
import xraylib
import fisx
from lib.vp import Group, Discard
from spectrocrunch.materials import (
    compound, compoundfromdb, compoundfromelement, compoundfromformula, compoundfromlist,
    compoundfromname, compoundfromnist, element, mixture, stoichiometry, types, utils as matutils,
)
from spectrocrunch.patch import jsonpickle
from spectrocrunch.patch.pint import ureg

ID = "C23"
LEVEL = "exploration"
RULE = (
    "random nested chemical formulas, element lists, compounds and mixtures, described by mole, mass or volume "
    "fractions, changed by additions and replaced fractions; compared with a ledger of moles, masses and volumes "
    "kept by the check; cross sections and refractive indices of elements, compounds and mixtures at random "
    "energies compared with sums over xraylib's elements; absorber and scatterer marks; data base look-ups; "
    "serialization and export to PyMca and fisx"
)
F = types.fraction
NZ = 92
SYMB = [xraylib.AtomicNumberToSymbol(z) for z in range(1, NZ + 1)]


def close(c, got, exp, sig, rtol=1e-9, atol=1e-14, **kw):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    c.require(
        got.shape == exp.shape and np.allclose(got, exp, rtol=rtol, atol=atol),
        sig, lambda: "{}\n got {}\n exp {}".format(kw, got, exp),
    )


def dclose(c, got, exp, sig, **kw):
    """Dictionaries with materials or their names as keys"""
    g, e = {str(k): float(v) for k, v in got.items()}, {str(k): float(v) for k, v in exp.items()}
    c.require(set(g) == set(e), sig + ":parts", lambda: "{} != {} {}".format(g, e, kw))
    close(c, [g[k] for k in sorted(e)], [e[k] for k in sorted(e)], sig, **dict(kw, keys=sorted(e)))


def aw(s):
    return xraylib.AtomicWeight(xraylib.SymbolToAtomicNumber(s))


def norm(d):
    s = math.fsum(d.values())
    return {k: v / s for k, v in d.items()}


def symbols(rng, n):
    if rng.random() < 0.5:
        return rng.sample(["H", "C", "N", "O", "S", "Fe", "Cu", "Ca", "Al", "Si", "Pb", "P", "Co", "Cl", "K", "Na"], n)
    return rng.sample(SYMB, n)


def spell(rng, s):
    """An element in one of the accepted spellings"""
    z = xraylib.SymbolToAtomicNumber(s)
    return rng.choice([s, z, str(z), element.Element(s), np.int64(z)])


def number(rng):
    """(text, value)"""
    k = rng.randint(0, 5)
    if k <= 1:
        return "", 1.0
    if k == 2:
        n = rng.randint(2, 120)
        return str(n), float(n)
    if k == 3:
        t = "{}.{}".format(rng.randint(0, 12), rng.randint(1, 99))
        return t, float(t)
    if k == 4:
        t = ".{}".format(rng.randint(1, 99))
        return t, float(t)
    t = "{}.".format(rng.randint(1, 9))
    return t, float(t)


def formula(rng, depth=0):
    """(text, {symbol: amount})"""
    text, amount = "", {}
    for _ in range(rng.randint(1, 4 if depth == 0 else 3)):
        if depth < 3 and rng.random() < 0.3:
            t, a = formula(rng, depth + 1)
            t = "(" + t + ")"
        else:
            s = symbols(rng, 1)[0]
            t, a = s, {s: 1.0}
        nt, n = number(rng)
        text += t + nt
        for k, v in a.items():
            amount[k] = amount.get(k, 0) + v * n
    return text, amount


def check_compound(c, cmp, amount, sig, moles=True):
    """amount: {symbol: moles}, absolute when `moles`, relative otherwise"""
    mass = {k: v * aw(k) for k, v in amount.items()}
    if moles:
        dclose(c, cmp.equivalents(), amount, sig + ":equivalents")
        dclose(c, cmp.elemental_equivalents(), amount, sig + ":elemental_equivalents")
        close(c, cmp.molarmass(), math.fsum(mass.values()), sig + ":molarmass")
        for k in amount:
            close(c, cmp[k], amount[k], sig + ":getitem")
    else:
        dclose(c, norm(cmp.equivalents()), norm(amount), sig + ":equivalents")
    nf, wf = norm(amount), norm(mass)
    dclose(c, cmp.molefractions(), nf, sig + ":molefractions")
    dclose(c, cmp.massfractions(), wf, sig + ":massfractions")
    dclose(c, cmp.elemental_molefractions(), nf, sig + ":elemental_molefractions")
    dclose(c, cmp.elemental_massfractions(), wf, sig + ":elemental_massfractions")
    dclose(c, cmp.fractions(F.mole), nf, sig + ":fractions")
    dclose(c, cmp.fractions(F.mass), wf, sig + ":fractions")
    z = {k: xraylib.SymbolToAtomicNumber(k) for k in amount}
    close(c, cmp.Zeff, sum(nf[k] * z[k] for k in nf), sig + ":Zeff")
    close(c, cmp.molarmasseff(), sum(nf[k] * aw(k) for k in nf), sig + ":molarmasseff")
    c.require({str(e) for e in cmp.elements} == set(amount), sig + ":elements", lambda: str(cmp.elements))
    c.require(cmp.nelements == len(amount) == cmp.nparts, sig + ":nelements")


def formulas(c, rng):
    text, amount = formula(rng)
    density = rng.choice([None, 0, rng.uniform(0.1, 20)])
    name = rng.choice([None, "my compound"])
    cmp = compoundfromformula.CompoundFromFormula(text, density, name=name)
    c.event("formulas")
    c.key("formula", min(len(amount), 6), text.count("("), "." in text)
    check_compound(c, cmp, amount, "formula")
    c.require(cmp.name == (name or text), "formula:name")
    if density:
        close(c, cmp.density, density, "formula:density")
    elif len(amount) == 1:
        try:
            close(c, cmp.density, xraylib.ElementDensity(xraylib.SymbolToAtomicNumber(list(amount)[0])), "formula:density")
        except ValueError:
            pass
    else:
        c.require(cmp.density > 0, "formula:density")
    if name is None:
        other = compoundfromdb.factory(text)
        names = [n for n in compoundfromdb.getnames() if text.lower() in n.lower()]
        if not names:
            c.require(other is not None, "formula:db:unknown", text)
            dclose(c, other.equivalents(), amount, "formula:db", text=text)
            c.event("formulas found through the data base")
    # what is not a formula is refused, not read as something else
    bad = rng.choice([
        text + ")", "(" + text, text + "!", text + "+", "x" + text, text + "Xq2", text.replace("(", "[", 1) if "(" in text else "2" + text,
        text + "·2H2O", "", text + "-(OH)",
    ])
    try:
        got = compoundfromformula.CompoundFromFormula(bad)
    except Exception:
        c.event("invalid formulas refused")
    else:
        c.require(False, "formula:invalid", lambda: "{!r} is read as {}".format(bad, got.equivalents()))


def fracs(c, n, zero=False):
    return c.np.uniform(0.05, 1, n)


def ledger(c, rng, n, dup=True):
    """Elements (spelled), amounts in a fraction type and the resulting moles"""
    symb = symbols(rng, n)
    lst = list(symb)
    if dup and rng.random() < 0.4:
        lst.append(rng.choice(symb))
    v = fracs(c, len(lst)) * rng.choice([1, 1, 7])
    ft = rng.choice([F.mole, F.mass])
    if ft == F.mass and rng.random() < 0.5:
        v = v / v.sum()
    amount = {}
    for s, x in zip(lst, v):
        amount[s] = amount.get(s, 0) + (x if ft == F.mole else x / aw(s))
    return lst, v, ft, amount


def compounds(c, rng):
    lst, v, ft, amount = ledger(c, rng, rng.randint(1, 6))
    els = [spell(rng, s) for s in lst]
    values = rng.choice([list, tuple, np.array])(v)
    klass = rng.choice([compound.Compound, compoundfromlist.CompoundFromList])
    rho = rng.uniform(0.5, 15)
    cmp = klass(els, values, ft, density=rho, name="cmp")
    c.event("compounds")
    c.key("compound", len(amount), len(lst) > len(amount), str(ft))
    check_compound(c, cmp, amount, "compound", moles=ft == F.mole)
    close(c, cmp.density, rho, "compound:density")
    # copies do not follow what happens to the original
    backup = copy.deepcopy(cmp) if rng.random() < 0.5 else copy.copy(cmp)
    before = cmp.equivalents()
    for step in range(rng.randint(1, 3)):
        total = sum(amount.values()) if ft == F.mole else 1.0
        op = rng.choice(["add", "change", "set"])
        t = rng.choice([F.mole, F.mass])
        c.key("op", op, str(t))
        if op == "add":
            new = symbols(rng, rng.randint(1, 2))
            f = fracs(c, len(new)) * rng.uniform(0.1, 0.5)
            cur = norm(amount if t == F.mole else {k: x * aw(k) for k, x in amount.items()})
            cur = {k: x * (1 - f.sum()) for k, x in cur.items()}
            for s, x in zip(new, f):
                cur[s] = cur.get(s, 0) + x
            if len(new) == 1 and rng.random() < 0.5:
                cmp.addelements(spell(rng, new[0]), float(f[0]), t)
            else:
                cmp.addelements([spell(rng, s) for s in new], rng.choice([list(f), f]), t)
        elif op == "change":
            new = symbols(rng, rng.randint(1, 4))
            f = fracs(c, len(new))
            cur = dict(zip(new, f))
            cmp.change_fractions({element.Element(s): x for s, x in cur.items()}, t)
        else:
            new = rng.sample(sorted(amount), rng.randint(1, len(amount)))
            f = fracs(c, len(new))
            f = f / f.sum() * (1 if len(new) == len(amount) else rng.uniform(0.1, 0.9))
            cur = norm(amount if t == F.mole else {k: x * aw(k) for k, x in amount.items()})
            rest = sum(x for k, x in cur.items() if k not in new)
            cur = {k: x * (1 - f.sum()) / rest if k not in new else f[new.index(k)] for k, x in cur.items()}
            args = (new[0], float(f[0])) if len(new) == 1 else (new, f)
            (cmp.setmolefraction if t == F.mole else cmp.setmassfraction)(*args)
        amount = norm(cur if t == F.mole else {k: x / aw(k) for k, x in cur.items()})
        ft = None
        check_compound(c, cmp, amount, "compound:" + op, moles=False)
        close(c, cmp.density, rho, "compound:density")
        c.event("changes of compounds")
    dclose(c, backup.equivalents(), before, "compound:copy")
    try:
        compound.Compound(["Fe", "O"], [0.5, 0.5], F.volume)
    except ValueError:
        pass
    else:
        c.require(False, "compound:volume", "volume fractions of elements in a compound")
    serialized(c, cmp, "compound")


def serialized(c, mat, sig):
    other = jsonpickle.loads(jsonpickle.dumps(mat))
    c.require(type(other) is type(mat) and other == mat, sig + ":serialized")
    c.require(other is not mat, sig + ":serialized")
    dclose(c, other.equivalents(), mat.equivalents(), sig + ":serialized:equivalents", rtol=1e-14)
    dclose(c, other.elemental_massfractions(), mat.elemental_massfractions(), sig + ":serialized:fractions", rtol=1e-14)
    close(c, other.density, mat.density, sig + ":serialized:density", rtol=1e-14)
    c.require(list(other.markinfo()) == list(mat.markinfo()), sig + ":serialized:marks")
    close(c, other.mass_att_coeff(11.3), mat.mass_att_coeff(11.3), sig + ":serialized:mu")
    for method in ["partial_mass_abs_coeff", "fluorescence_cross_section", "rayleigh_cross_section"]:
        close(c, getattr(other, method)(11.3), getattr(mat, method)(11.3), sig + ":serialized:" + method)
    c.event("serializations")


def rcompound(c, rng, name, n=4):
    lst, v, ft, amount = ledger(c, rng, rng.randint(1, n), dup=False)
    rho = rng.uniform(0.3, 20)
    return compound.Compound(lst, v, ft, density=rho, name=name), amount if ft == F.mole else norm(amount), rho


class MLedger:
    """What a mixture consists of"""

    def __init__(self):
        self.parts = {}
        self.moles = {}

    def mm(self, k):
        return math.fsum(n * aw(s) for s, n in self.parts[k][1].items())

    def amounts(self, t):
        if t == F.mole:
            return dict(self.moles)
        m = {k: n * self.mm(k) for k, n in self.moles.items()}
        if t == F.mass:
            return m
        return {k: x / self.parts[k][2] for k, x in m.items()}

    def set(self, t, d):
        if t != F.mole:
            if t == F.volume:
                d = {k: x * self.parts[k][2] for k, x in d.items()}
            d = {k: x / self.mm(k) for k, x in d.items()}
            d = norm(d)
        self.moles = d

    def elements(self):
        r = {}
        for k, n in self.moles.items():
            for s, x in self.parts[k][1].items():
                r[s] = r.get(s, 0) + n * x
        return r


def check_mixture(c, m, L, sig):
    mole, mass, vol = (L.amounts(t) for t in (F.mole, F.mass, F.volume))
    dclose(c, m.equivalents(), mole, sig + ":equivalents")
    for func, exp in [("molefractions", mole), ("massfractions", mass), ("volumefractions", vol)]:
        dclose(c, getattr(m, func)(), norm(exp), sig + ":" + func)
    for t, exp in [(F.mole, mole), (F.mass, mass), (F.volume, vol)]:
        dclose(c, m.fractions(t), norm(exp), sig + ":fractions")
    rho = math.fsum(mass.values()) / math.fsum(vol.values())
    close(c, m.density, rho, sig + ":density")
    e = L.elements()
    em = {k: x * aw(k) for k, x in e.items()}
    close(c, m.molarmass(), math.fsum(em.values()), sig + ":molarmass")
    dclose(c, m.elemental_equivalents(), e, sig + ":elemental_equivalents")
    dclose(c, m.elemental_massfractions(), norm(em), sig + ":elemental_massfractions")
    dclose(c, m.elemental_molefractions(), norm(e), sig + ":elemental_molefractions")
    nf = norm(e)
    close(c, m.molarmasseff(), sum(x * aw(k) for k, x in nf.items()), sig + ":molarmasseff")
    close(c, m.Zeff, sum(x * xraylib.SymbolToAtomicNumber(k) for k, x in nf.items()), sig + ":Zeff")
    c.require({str(x) for x in m.elements} == set(e), sig + ":elements", lambda: str(m.elements))
    c.require(m.nparts == len(mole), sig + ":nparts")
    cmp = m.tocompound("flat")
    c.require(cmp.name == "flat", sig + ":tocompound:name")
    check_compound(c, cmp, e, sig + ":tocompound")
    close(c, cmp.density, rho, sig + ":tocompound:density")
    E = 7.77
    close(c, m.mass_att_coeff(E), cmp.mass_att_coeff(E), sig + ":tocompound:mu")


def mixtures(c, rng):
    L = MLedger()
    pool = ["c{}".format(i) for i in range(7)]
    for k in pool:
        L.parts[k] = rcompound(c, rng, k)
    names = rng.sample(pool, rng.randint(1, 4))
    lst = list(names)
    if rng.random() < 0.3:
        lst.append(rng.choice(names))
    v = fracs(c, len(lst)) * rng.choice([1, 5])
    t = rng.choice([F.mole, F.mass, F.volume])
    d = {}
    for k, x in zip(lst, v):
        d[k] = d.get(k, 0) + x
    L.set(t, d)
    m = mixture.Mixture([L.parts[k][0] for k in lst], rng.choice([list(v), v]), t, name="mix")
    c.event("mixtures")
    c.key("mixture", len(names), len(lst) > len(names), str(t))
    check_mixture(c, m, L, "mixture")
    for step in range(rng.randint(1, 3)):
        op = rng.choice(["add", "change", "set"])
        t = rng.choice([F.mole, F.mass, F.volume])
        c.key("mop", op, str(t))
        cur = norm(L.amounts(t))
        total = math.fsum(L.amounts(t).values()) if t == F.mole else 1.0
        if op == "add":
            new = rng.sample(pool, rng.randint(1, 2))
            f = fracs(c, len(new)) * rng.uniform(0.1, 0.5)
            cur = {k: x * (1 - f.sum()) for k, x in cur.items()}
            for k, x in zip(new, f):
                cur[k] = cur.get(k, 0) + x
            cur = {k: x * total for k, x in cur.items()}
            if len(new) == 1 and rng.random() < 0.5:
                m.addcompounds(L.parts[new[0]][0], float(f[0]), t)
            else:
                m.addcompounds([L.parts[k][0] for k in new], rng.choice([list(f), f]), t)
        elif op == "change":
            new = rng.sample(pool, rng.randint(1, 3))
            cur = dict(zip(new, fracs(c, len(new))))
            m.change_fractions({L.parts[k][0]: x for k, x in cur.items()}, t)
        else:
            new = rng.sample(sorted(cur), rng.randint(1, len(cur)))
            f = fracs(c, len(new))
            f = f / f.sum() * (1 if len(new) == len(cur) else rng.uniform(0.1, 0.9))
            rest = sum(x for k, x in cur.items() if k not in new)
            cur = {k: x * (1 - f.sum()) / rest if k not in new else f[new.index(k)] for k, x in cur.items()}
            func = {F.mole: m.setmolefraction, F.mass: m.setmassfraction, F.volume: m.setvolumefraction}[t]
            func(*((new[0], float(f[0])) if len(new) == 1 else (new, f)))
        L.set(t, cur)
        check_mixture(c, m, L, "mixture:" + op)
        c.event("changes of mixtures")
    if rng.random() < 0.5:
        m.markabsorber(rng.choice([str(e) for e in m.elements]))
    if rng.random() < 0.3:
        m.markscatterer(rng.choice(sorted(L.moles)))
    serialized(c, m, "mixture")


def conversions(c, rng):
    """Between the three descriptions of the same amounts"""
    n = rng.randint(1, 8)
    MM, rho = c.np.uniform(1, 400, n), 10 ** c.np.uniform(-3, 1.3, n)
    mol = 10 ** c.np.uniform(-4, 1, n)
    mass = mol * MM
    vol = mass / rho
    nf, wf, vf = mol / mol.sum(), mass / mass.sum(), vol / vol.sum()
    s = stoichiometry
    k = rng.choice([1, 3.3])  # un-normalized amounts are accepted
    close(c, s.frac_mole_to_weight(nf * k, MM), wf, "conversion:mole-weight")
    close(c, s.frac_weight_to_mole(wf * k, MM), nf, "conversion:weight-mole")
    close(c, s.frac_weight_to_volume(wf * k, rho), vf, "conversion:weight-volume")
    close(c, s.frac_volume_to_weight(vf * k, rho), wf, "conversion:volume-weight")
    close(c, s.frac_volume_to_mole(vf * k, rho, MM), nf, "conversion:volume-mole")
    close(c, s.frac_mole_to_volume(nf * k, rho, MM), vf, "conversion:mole-volume")
    d = mass.sum() / vol.sum()
    close(c, s.density_from_volumefrac(vf, rho), d, "conversion:density:volume")
    close(c, s.density_from_massfrac(wf, rho), d, "conversion:density:mass")
    close(c, s.density_from_molefrac(nf * k, rho, MM), d, "conversion:density:mole")
    close(c, s.molarmass_from_wfrac(wf, MM), mass.sum() / mol.sum(), "conversion:molarmass")
    new = c.np.uniform(0.01, 0.3, rng.randint(1, 3))
    x = mol * k
    got = s.add_frac(x, new)
    close(c, got.sum(), x.sum(), "add_frac:sum")
    close(c, got[n:] / got.sum(), new, "add_frac:new")
    close(c, got[:n] / got[:n].sum(), nf, "add_frac:old")
    try:
        s.add_frac(x, [0.7, 0.6])
    except ValueError:
        pass
    else:
        c.require(False, "add_frac:toomuch")
    c.event("conversions")
    c.key("conversion", n)


ORACLE = {
    "mass_att_coeff": xraylib.CS_Total_Kissel,
    "mass_abs_coeff": xraylib.CS_Photo_Total,
    "rayleigh_cross_section": xraylib.CS_Rayl,
    "compton_cross_section": xraylib.CS_Compt,
    "scattering_cross_section": lambda z, e: xraylib.CS_Rayl(z, e) + xraylib.CS_Compt(z, e),
}
SCATTERING = {"rayleigh_cross_section", "compton_cross_section", "scattering_cross_section"}
SHELLS = {
    "K": (xraylib.K_SHELL,), "L1": (xraylib.L1_SHELL,), "L2": (xraylib.L2_SHELL,), "L3": (xraylib.L3_SHELL,),
}


def xr(func, *args):
    try:
        return func(*args)
    except ValueError:
        return 0.0


def energies(c, rng):
    """(argument, list of energies, shape)"""
    k = rng.randint(0, 4)
    if k == 0:
        e = round(rng.uniform(1, 60), 3)
        return e, [e], ()
    n = rng.randint(1, 5)
    e = np.sort(c.np.uniform(1, 60, n))
    if k == 1:
        return e, list(e), (n,)
    if k == 2:
        return list(e), list(e), (n,)
    if k == 3:
        n = rng.randint(2, 30)
        return n, [float(n)], ()
    return np.float64(e[0]), [e[0]], ()


def crosssections(c, rng):
    kind = rng.choice(["element", "compound", "mixture", "mixture"])
    if kind == "element":
        s = symbols(rng, 1)[0]
        mat = element.Element(s)
        parts = {s: ({s: 1.0}, 1.0)}
    elif kind == "compound":
        mat, amount, _ = rcompound(c, rng, "cmp")
        parts = {"cmp": (norm({k: x * aw(k) for k, x in amount.items()}), 1.0)}
    else:
        names = ["c{}".format(i) for i in range(rng.randint(1, 4))]
        cs, ams = [], []
        for k in names:
            cmp, amount, _ = rcompound(c, rng, k)
            cs.append(cmp)
            ams.append(norm({s: x * aw(s) for s, x in amount.items()}))
        w = fracs(c, len(names))
        mat = mixture.Mixture(cs, w, F.mass, name="mix")
        parts = {k: (a, x) for k, a, x in zip(names, ams, w / w.sum())}
    elements = sorted({s for a, _ in parts.values() for s in a})
    w = {}
    for a, x in parts.values():
        for s, y in a.items():
            w[s] = w.get(s, 0) + x * y
    c.key("cs", kind, len(elements))
    # scatterers
    scat = set(parts)
    mark = rng.choice(["all", "all", "none", "one"])
    if mark == "none":
        mat.unmarkscatterer()
        scat = set()
        if rng.random() < 0.3:
            mat.markscatterer()
            scat = set(parts)
    elif mark == "one":
        one = rng.choice(sorted(parts) + ["another"])
        mat.markscatterer(one)
        scat &= {one}
    c.key("scatter", kind, mark, len(scat))
    if kind == "element":
        scat = set(parts)  # elements are asked for their own cross section
    for method, oracle in ORACLE.items():
        E, lst, shape = energies(c, rng)
        exp = np.zeros(len(lst))
        for k, (a, x) in parts.items():
            if method in SCATTERING and k not in scat:
                continue
            for s, y in a.items():
                exp += x * y * np.array([xr(oracle, xraylib.SymbolToAtomicNumber(s), e) for e in lst])
        exp = exp.reshape(shape)
        got = getattr(mat, method)(E)
        c.require(got is not None, "cs:none:" + method, kind)
        close(c, got, exp, "cs:" + method, kind=kind, mark=mark, E=E)
        c.event("cross sections")
        if kind == "element":
            continue
        dec = getattr(mat, method)(E, decomposed=True)
        if not exp.any():
            c.require(np.all(np.asarray(mat.cs_collapse(dec)) == 0), "cs:decomposed:empty", lambda: str(dec))
            continue
        close(c, mat.cs_collapse(dec), exp, "cs:collapse", kind=kind, method=method)
        ws, css = mat.csdict_parse(dec)
        close(c, sum(a * np.asarray(b) for a, b in zip(ws, css)), exp, "cs:parse", kind=kind, method=method)
        for f in (mat.csdict_parse_elements, matutils.elemental_crosssections):
            el = f(dec)
            close(c, sum(el.values()), exp, "cs:elements:total", kind=kind, method=method)
            for k, v in el.items():
                x = sum(p[1] * p[0].get(str(k), 0) for n, p in parts.items() if method not in SCATTERING or n in scat)
                e = x * np.array([xr(oracle, xraylib.SymbolToAtomicNumber(str(k)), e) for e in lst]).reshape(shape)
                close(c, v, e, "cs:elements", kind=kind, method=method, f=f.__name__)
        # deeper nesting (a stack of materials)
        nested = {"a": {"w": 0.25, "cs": dec}, "b": {"w": 3.0, "cs": dec}}
        close(c, mat.cs_collapse(nested), exp * 3.25, "cs:collapse:nested")
        close(c, sum(matutils.elemental_crosssections(nested).values()), exp * 3.25, "cs:elements:nested")
        close(c, sum(mat.csdict_parse_elements(nested).values()), exp * 3.25, "cs:elements:nested")
    # absorption and transmission
    t, E = rng.uniform(1e-5, 1e-2), rng.uniform(3, 40)
    rho = mat.density
    A = sum(x * xr(xraylib.CS_Total_Kissel, xraylib.SymbolToAtomicNumber(s), E) for s, x in w.items()) * rho * t
    close(c, mat.absorbance(E, t), A, "absorbance")
    close(c, mat.transmission(E, t), math.exp(-A), "transmission")
    # absorbers
    for method in ["partial_mass_abs_coeff", "fluorescence_cross_section"]:
        c.require(not np.any(getattr(mat, method)(E)), "absorber:unmarked:" + method)
    c.require(not mat.fluorescence_cross_section_lines(E), "absorber:unmarked:lines")
    marked = rng.choice(elements + [None, None])
    shells = rng.choice([None, ["K"], ["K", "L3"], ["L1", "L2", "L3"], "K"])
    explicit = rng.random() < 0.5
    mat.markabsorber(marked, shells=shells, fluolines=[] if explicit else None)
    absorbers = elements if marked is None else [marked]
    names = {None: None, "K": ["K"]}.get(shells if not isinstance(shells, list) else 0, shells)
    E, lst, shape = energies(c, rng)
    if names is None:
        names = ["K"] + ["L{}".format(i) for i in range(1, 4)] + ["M{}".format(i) for i in range(1, 6)]
        full = True
    else:
        full = False
    part = fluo = 0
    for s in absorbers:
        z = xraylib.SymbolToAtomicNumber(s)
        for sh in names:
            shi = getattr(xraylib, sh + "_SHELL")
            part = part + w[s] * np.array([xr(xraylib.CS_Photo_Partial, z, shi, e) for e in lst])
    got = mat.partial_mass_abs_coeff(E)
    if not full:
        close(c, got, np.reshape(part, shape), "absorber:partial", E=E, shells=shells, marked=marked)
    else:
        tot = np.array([sum(w[s] * xr(xraylib.CS_Photo_Total, xraylib.SymbolToAtomicNumber(s), e) for s in absorbers) for e in lst])
        c.require(np.all(np.asarray(got).reshape(-1) <= tot * 1.05 + 1e-9), "absorber:partial:excess", lambda: "{} {}".format(got, tot))
    total = np.asarray(mat.fluorescence_cross_section(E), float)
    c.require(total.shape == shape, "absorber:fluo:shape")
    lines = mat.fluorescence_cross_section_lines(E)
    s = sum(np.asarray(v, float).reshape(-1) for v in lines.values()) if lines else np.zeros(len(lst))
    if explicit:
        # otherwise up to the precision of the tabulated rates
        close(c, s, total.reshape(-1), "absorber:lines:total", rtol=1e-8, kind=kind)
    else:
        c.require(np.all(s <= total.reshape(-1) * 1.02 + 1e-12), "absorber:lines:excess", lambda: "{} {}".format(s, total))
    diff = mat.diff_fluorescence_cross_section(E)
    c.require(set(diff) == set(lines), "absorber:lines:diff")
    for k in lines:
        close(c, np.asarray(diff[k]) * 4 * np.pi, lines[k], "absorber:lines:diff", atol=0)
        c.require(str(k.element) in absorbers, "absorber:lines:element")
    c.require(np.all(total <= np.asarray(got) * 1.02 + 1e-12), "absorber:yield", lambda: "{} {}".format(total, got))
    if kind != "element":
        c.require(mat.hasabsorbers(), "absorber:has")
    c.event("absorbers")
    mat.unmarkabsorber()
    c.require(not np.any(mat.partial_mass_abs_coeff(E)), "absorber:unmark")
    if kind != "element":
        c.require(not mat.hasabsorbers(), "absorber:unmark:has")


RE = 2.8179403205e-13  # cm
NA = 6.02214076e23
HC = 12.398419843320026  # keV.A


def refraction(c, rng):
    kind = rng.choice(["compound", "mixture"])
    if kind == "compound":
        mat, amount, rho = rcompound(c, rng, "cmp")
        w = norm({k: x * aw(k) for k, x in amount.items()})
    else:
        L = MLedger()
        names = ["c{}".format(i) for i in range(rng.randint(1, 3))]
        for k in names:
            L.parts[k] = rcompound(c, rng, k)
        t = rng.choice([F.mole, F.mass, F.volume])
        v = fracs(c, len(names))
        L.set(t, dict(zip(names, v)))
        mat = mixture.Mixture([L.parts[k][0] for k in names], v, t)
        mass = L.amounts(F.mass)
        rho = math.fsum(mass.values()) / math.fsum(L.amounts(F.volume).values())
        w = norm({k: x * aw(k) for k, x in L.elements().items()})
    E, lst, shape = energies(c, rng)
    E = np.asarray(E, float) if shape else float(E)
    d, b = [], []
    for e in lst:
        wl = HC / e * 1e-8
        k = RE * wl**2 * NA * rho / (2 * math.pi)
        z = {s: xraylib.SymbolToAtomicNumber(s) for s in w}
        d.append(k * sum(x / aw(s) * (z[s] + xr(xraylib.Fi, z[s], e)) for s, x in w.items()))
        b.append(-k * sum(x / aw(s) * xr(xraylib.Fii, z[s], e) for s, x in w.items()))
    d, b = np.reshape(d, shape), np.reshape(b, shape)
    close(c, mat.refractive_index_delta(E), d, "refraction:delta", rtol=1e-6)
    close(c, mat.refractive_index_beta(E), b, "refraction:beta", rtol=1e-6)
    close(c, mat.refractive_index_real(E), 1 - d, "refraction:real")
    close(c, mat.refractive_index_imag(E), -b, "refraction:imag", rtol=1e-6)
    c.event("refractive indices")
    c.key("refraction", kind, len(w), len(shape))


def database(c, rng):
    k = rng.choice(["name", "nist", "search", "oxide", "element"])
    c.key("db", k)
    c.event("look-ups")
    if k == "name":
        name = rng.choice(compoundfromname.getnames())
        f = rng.choice([compoundfromname.factory, compoundfromdb.factory, compoundfromdb.compoundfromdb])
        a, b = f(name), f(name)
        before = b.elemental_equivalents()
        bm = list(b.markinfo())
        rho = b.density
        # what is done to one is not seen by another
        a.markabsorber()
        a.unmarkscatterer()
        if before:
            a.addelements("Fe", 0.3, F.mass, density=77.0)
        a.density = 33.0
        for other in (b, f(name)):
            dclose(c, other.elemental_equivalents(), before, "db:shared:fractions")
            close(c, other.density, rho, "db:shared:density")
            c.require(list(other.markinfo()) == bm, "db:shared:marks", lambda: "{}: {}".format(name, list(other.markinfo())))
            c.require(not other.hasabsorbers(), "db:shared:absorbers", name)
        c.key("name", name)
    elif k == "nist":
        name = rng.choice(compoundfromnist.getnames())
        data = xraylib.GetCompoundDataNISTByName(name)
        mat = compoundfromnist.factory(name)
        exp = norm({xraylib.AtomicNumberToSymbol(z): w for z, w in zip(data["Elements"], data["massFractions"])})
        dclose(c, mat.massfractions(), exp, "db:nist:fractions")
        close(c, mat.density, data["density"], "db:nist:density")
        c.require(mat.name == name, "db:nist:name")
        other = compoundfromdb.factory(name)
        known = [n for n in compoundfromname.getnames() if name.lower() in n.lower()]
        if not known:
            c.require(other.name == name, "db:nist:name", lambda: "{} {}".format(other.name, name))
            dclose(c, other.massfractions(), exp, "db:nist:db")
    elif k == "search":
        names = rng.choice([compoundfromname, compoundfromnist, compoundfromdb]).getnames()
        name = rng.choice(names)
        text = rng.choice([name, name.upper(), name[: rng.randint(1, len(name))], name[1:3] or name])
        for mod in (compoundfromname, compoundfromnist, compoundfromdb):
            got = mod.search(text)
            allnames = mod.getnames()
            contains = [n for n in allnames if text.lower() in n.lower()]
            equal = [n for n in contains if text.lower() == n.lower()]
            c.require(set(got) <= set(contains), "search:subset")
            c.require(bool(got) == bool(contains), "search:empty")
            if equal:
                c.require(set(got) <= set(equal), "search:equal", lambda: "{}: {}".format(text, got))
                if text in equal:
                    c.require(got == [n for n in equal if n == text] or len(equal) == 1 or text in got, "search:exact")
            else:
                c.require(sorted(got) == sorted(contains), "search:all", lambda: "{}: {}".format(text, got))
    elif k == "oxide":
        typ = rng.choice(["oxide", "oxide", "sulfide"])
        db = compoundfromelement.db[typ]
        el = rng.choice(sorted(db))
        ox = rng.choice([None] + sorted(db[el]))
        arg = rng.choice(["max", "min"])
        klass = {"oxide": compoundfromelement.Oxide, "sulfide": compoundfromelement.Sulfide}[typ]
        if rng.random() < 0.5:
            mat = klass(el, oxidationstate=ox, defaultoxidationstate=arg)
        else:
            mat = compoundfromelement.CompoundFromElement(el, oxidationstate=ox, typ=typ, defaultoxidationstate=arg)
        n = ox if ox is not None else (max if arg == "max" else min)(db[el])
        text, rho = db[el][n]
        c.require(mat.name == text, "oxide:name", lambda: "{} {} {}".format(el, ox, mat.name))
        close(c, mat.density, rho, "oxide:density")
        wf = {str(e): x for e, x in mat.massfractions().items()}
        x = rng.uniform(0.01, 0.6)
        close(c, mat.massfraction_compound_to_element(x), x * wf[el], "oxide:toelement")
        close(c, mat.massfraction_element_to_compound(x), x / wf[el], "oxide:tocompound")
        c.key("oxide", typ, el, ox is None)
    else:
        s = rng.choice(SYMB)
        z = xraylib.SymbolToAtomicNumber(s)
        a = element.Element(spell(rng, s))
        b = element.Element(spell(rng, s))
        o = rng.choice([x for x in SYMB if x != s])
        c.require(a == b and hash(a) == hash(b) and a == s and a == z, "element:equal", lambda: s)
        c.require(a != element.Element(o) and a != o, "element:unequal")
        c.require(a.Z == z and a.name == s and str(a) == s, "element:identity")
        close(c, a.MM, xraylib.AtomicWeight(z), "element:mass")
        for v in (spell(rng, s), a):
            c.require(element.elementZ(v) == z, "element:Z", lambda: repr(v))
            c.require(element.elementSymbol(v) == s, "element:symbol", lambda: repr(v))
            c.require(tuple(element.elementParse(v)) == (z, s), "element:parse")
        lst = [element.Element(x) for x in rng.sample(SYMB, 6)]
        c.require([e.Z for e in sorted(lst)] == sorted([e.Z for e in lst], reverse=True), "element:order")


def export(c, rng):
    """What PyMca and fisx are told"""
    L = MLedger()
    names = ["c{}".format(i) for i in range(rng.randint(1, 3))]
    for k in names:
        L.parts[k] = rcompound(c, rng, k)
    v = fracs(c, len(names))
    L.set(F.mass, dict(zip(names, v)))
    kind = rng.choice(["element", "compound", "mixture"])
    w = norm({k: x * aw(k) for k, x in L.elements().items()})
    if kind == "mixture":
        mat = mixture.Mixture([L.parts[k][0] for k in names], v, F.mass, name="mix")
    elif kind == "compound":
        mat, amount, _ = L.parts[names[0]]
        w = norm({k: x * aw(k) for k, x in amount.items()})
    else:
        s = rng.choice(SYMB[:90])
        mat = element.Element(s)
        w = {s: 1.0}
    t = rng.uniform(1e-5, 1)
    cfg = {"materials": {}}
    name = mat.topymca(cfg, defaultthickness=t)

    def expand(n, factor, out):
        d = cfg["materials"].get(n)
        if d is None:
            c.require(n.endswith("1") and n[:-1] in SYMB, "pymca:element", n)
            out[n[:-1]] = out.get(n[:-1], 0) + factor
            return
        c.require(len(d["CompoundList"]) == len(d["CompoundFraction"]), "pymca:lists")
        s = sum(d["CompoundFraction"])
        for x, f in zip(d["CompoundList"], d["CompoundFraction"]):
            expand(x, factor * f / s, out)

    out = {}
    expand(name, 1.0, out)
    dclose(c, out, w, "pymca:fractions")
    close(c, cfg["materials"][name]["Density"], mat.density, "pymca:density")
    close(c, cfg["materials"][name]["Thickness"], t, "pymca:thickness")
    c.require(mat.namefrompymca(name) == mat.name, "pymca:name")
    lib = fisx.Elements()
    lib.initializeAsPyMca()
    name = mat.tofisx(lib, defaultthickness=t)
    got = {k: x for k, x in lib.getComposition(name).items()}
    got = {k.rstrip("1"): x for k, x in got.items()}
    dclose(c, got, w, "fisx:fractions", rtol=1e-6)
    c.event("exports")
    c.key("export", kind, len(w))


GROUPS = [
    Group("formulas", formulas, 300, 6000, minimum=100),
    Group("compounds", compounds, 120, 3000, minimum=50),
    Group("mixtures", mixtures, 120, 3000, minimum=50),
    Group("conversions", conversions, 200, 5000, minimum=100),
    Group("crosssections", crosssections, 150, 4000, minimum=50),
    Group("refraction", refraction, 80, 2000, minimum=40),
    Group("database", database, 300, 4000, minimum=100),
    Group("export", export, 24, 400, minimum=10),
]
