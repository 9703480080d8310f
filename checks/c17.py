"""X-ray lines, shells and spectra."""
import copy
import re
import numpy as np
import xraylib
from lib.vp import Group, Discard
from checks.c24 import Mat, make_geometry, z
from spectrocrunch.materials import element, interaction, multilayer, xrayspectrum as xs
from spectrocrunch.patch import jsonpickle

ID = "C17"
LEVEL = "exploration"
RULE = (
    "all tabulated lines and shells of random elements, selected by name, code, shell and energy range, compared with xraylib's "
    "tables; scattered energies of random sources and angles; spectra of random elements, compounds, mixtures and samples, "
    "added, weighted, decomposed into lines, groups and channels and compared with the sums of their parts"
)
MEC2 = 510.998950
LINES = {n[:-5]: getattr(xraylib, n) for n in dir(xraylib) if n.endswith("_LINE")}
SHELLS = {n[:-6]: getattr(xraylib, n) for n in dir(xraylib) if n.endswith("_SHELL")}
# transitions between two single shells
SINGLE = {n: v for n, v in LINES.items() if re.match("^(K|[LMNOPQ][1-7])[LMNOPQ][1-7]$", n)}
COMPOSITE = {
    "KA": "^KL.$", "KB": "^K[MNOP].$", "KO": "^KO.$", "KP": "^KP.$", "LA": "^L3M[45]$",
    "L1N67": "^L1N[67]$", "L1O45": "^L1O[45]$", "L1P23": "^L1P[23]$", "L2P23": "^L2P[23]$", "L3O45": "^L3O[45]$",
    "L3P23": "^L3P[23]$", "L3P45": "^L3P[45]$",
}


def tab(f, *args):
    try:
        return f(*args)
    except ValueError:
        return 0.0


def members(name):
    return [n for n in SINGLE if re.match(COMPOSITE[name], n)]


def line_table(Z, name):
    """energy and rate of a single transition, from the group it belongs to when it is not tabulated on its own"""
    code = SINGLE[name]
    e, r = tab(xraylib.LineEnergy, Z, code), tab(xraylib.RadRate, Z, code)
    return e, r


def close(c, got, exp, sig, rtol=1e-9, atol=0.0, **kw):
    got, exp = np.asarray(got, float), np.asarray(exp, float)
    c.require(
        got.shape == exp.shape and np.allclose(got, exp, rtol=rtol, atol=atol),
        sig, lambda: "{}\n got {}\n exp {}".format(kw, got, exp),
    )


def lines(c, rng):
    Z = rng.randint(3, 92)
    symb = xraylib.AtomicNumberToSymbol(Z)
    names = rng.sample(sorted(SINGLE), 30)
    c.key(Z)
    for n in names:
        ln = xs.FluoLine(rng.choice([n, SINGLE[n]]))
        c.require(ln.code == SINGLE[n] and LINES[ln.name] == ln.code, "line:code", lambda: "{} {}".format(n, ln))
        c.require(ln.name == n, "line:name", lambda: "{} {}".format(n, ln))
        c.require(str(ln) == n, "line:str", n)
        other = xs.FluoLine(ln)
        c.require(other == ln and hash(other) == hash(ln) and ln == n and ln == SINGLE[n], "line:equal", n)
        c.require(jsonpickle.loads(jsonpickle.dumps(ln)) == ln, "line:json", n)
        m = re.match("^(K|[LMNOPQ][1-7])([LMNOPQ][1-7])$", n)
        c.require(str(ln.shell) == m.group(1), "line:shell", lambda: "{} {}".format(n, ln.shell))
        c.require(str(ln.shellsource) == m.group(2), "line:source shell", lambda: "{} {}".format(n, ln.shellsource))
        e, r = line_table(Z, n)
        if e:
            close(c, ln.energy(Z), e, "line:energy", line=n, Z=Z)
            zl = xs.FluoZLine(element.Element(symb), ln)
            close(c, zl.energy(), e, "line:element line", line=n, Z=Z)
            c.require(str(zl) == "{}-{}".format(symb, n) and zl.valid and zl.nenergy == 1, "line:element line:name", str(zl))
            grp = m.group(1)
            if grp == "K":
                grp = "KA" if m.group(2)[0] == "L" else "KB"
            c.require(zl.groupname == "{}-{}".format(symb, grp), "line:group", lambda: "{} {}".format(n, zl.groupname))
            w = sum(tab(xraylib.AtomicLevelWidth, Z, SHELLS[s]) for s in m.groups())
            close(c, zl.linewidth, w, "line:width", line=n, Z=Z)
            c.event("tabulated lines")
        if r:
            close(c, ln.radrate(Z), r, "line:rate", line=n, Z=Z)
    for bad in ("KX9", "", "K-L3"):
        try:
            xs.FluoLine(bad)
        except (ValueError, KeyError):
            pass
        else:
            c.require(False, "line:unknown accepted", bad)
    name = rng.choice(sorted(COMPOSITE))
    got = {xs.FluoLine(x).name for x in xs.FluoLine.decompose(LINES[name])}
    c.require(got == set(members(name)), "line:composite", lambda: "{} {}".format(name, got ^ set(members(name))))
    # selections
    every = {ln.name for ln in xs.FluoLine.all_lines()}
    c.require(set(SINGLE) <= every, "lines:all", lambda: str(sorted(set(SINGLE) - every)))
    lo, hi = sorted([rng.uniform(0.05, 30), rng.uniform(0.05, 30)])
    shells = rng.choice([None, ["K"], ["L1", "L2", "L3"], ["L3"], ["M5", "K"], "K", xraylib.L2_SHELL, [xs.Shell("L1")]])
    sel = rng.choice([None, [], rng.sample(sorted(SINGLE), 40), [SINGLE[n] for n in rng.sample(sorted(SINGLE), 40)], "KL3"])
    ident = rng.choice([Z, symb, element.Element(symb)]) if rng.random() < 0.7 else Z
    bounds = rng.choice([None, (Z, lo, hi), [symb, lo, hi]])
    got = xs.FluoLine.factory(shells=shells, fluolines=sel, energybounds=bounds)
    got = [ln.name for ln in got]
    c.require(len(got) == len(set(got)), "lines:duplicates")
    pool = every if sel is None or (isinstance(sel, list) and not sel) else {xs.FluoLine(x).name for x in ([sel] if isinstance(sel, str) else sel)}
    if shells is not None:
        sh = [xs.Shell(s).name for s in (shells if isinstance(shells, list) else [shells])]
        pool = {n for n in pool if any(re.match("^{}[LMNOPQ]".format(s), n) for s in sh)}
    if bounds is not None:
        keep = set()
        unsure = set()
        for n in pool:
            e = line_table(Z, n)[0] if n in SINGLE else 0
            if e:
                if lo <= e <= hi:
                    keep.add(n)
            else:
                unsure.add(n)
        # lines without tabulated energy can get one from the group they belong to
        for n in set(got) & unsure:
            c.require(lo <= xs.FluoLine(n).energy(Z) <= hi, "lines:energy", n)
        got, pool = set(got) - unsure, keep
    c.require(set(got) == pool, "lines:selection", lambda: "shells={} lines={} bounds={}: missing {} too many {}".format(
        shells, sel, bounds, sorted(pool - set(got))[:9], sorted(set(got) - pool)[:9]))
    c.event("line selections")
    c.event("selected lines", len(got))


def expand(s):
    return ["K"] if s == "K" else ["{}{}".format(s, i + 1) for i in range({"L": 3, "M": 5, "N": 7, "O": 7, "P": 5}[s])]


def shells(c, rng):
    Z = rng.randint(3, 92)
    symb = xraylib.AtomicNumberToSymbol(Z)
    c.key(Z)
    E = rng.uniform(1, 60)
    for n in SHELLS:
        s = xs.Shell(rng.choice([n, SHELLS[n]]))
        c.require(s.name == n and s.code == SHELLS[n] and s == n and s == SHELLS[n] and str(s) == n, "shell:name", n)
        c.require(xs.Shell(s) == s and jsonpickle.loads(jsonpickle.dumps(s)) == s, "shell:copy", n)
        close(c, s.edgeenergy(Z), tab(xraylib.EdgeEnergy, Z, SHELLS[n]), "shell:edge", shell=n, Z=Z)
        close(c, s.fluoyield(Z), tab(xraylib.FluorYield, Z, SHELLS[n]), "shell:yield", shell=n, Z=Z)
        close(c, s.atomiclevelwidth(Z), tab(xraylib.AtomicLevelWidth, Z, SHELLS[n]), "shell:width", shell=n, Z=Z)
    n = rng.choice(["K", "L1", "L2", "L3", "M5"])
    pool = [x for x in SINGLE if re.match("^{}[LMNOPQ]".format(n), x)]
    pick = rng.sample(pool, min(len(pool), rng.randint(1, 5)))
    for sel in (None, [], pick):
        s = xs.Shell(n, fluolines=sel)
        names = [x.name for x in s.fluolines]
        exp = pool if not sel else pick
        c.require(set(exp) <= set(names) and (not sel or len(names) == len(exp)), "shell:lines", lambda: "{} {} {}".format(n, sel, names))
        y = tab(xraylib.FluorYield, Z, SHELLS[n])
        part = s.partial_fluoyield(Z, decomposed=True)
        c.require(set(map(str, part)) == set(names), "shell:partial yield:lines")
        for k, v in part.items():
            close(c, v, y * k.radrate(Z), "shell:partial yield")
        tot = s.partial_fluoyield(Z)
        if s._fluolines is None or sel is None:
            c.event("shell yields")
        else:
            close(c, tot, sum(part.values()), "shell:partial yield:sum", rtol=1e-9, atol=1e-15)
    # shells made from a shell with selected lines
    s = xs.Shell(n, fluolines=pick)
    for sel, exp in ((None, pick), ([], None), (rng.sample(pool, 1),) * 2):
        got = {str(x) for x in xs.Shell(s, fluolines=sel).fluolines}
        if exp is None:
            exp = [str(x) for x in xs.Shell(n, fluolines=[]).fluolines]
        c.require(got == set(exp), "shell:lines of a copy", lambda: "{} {} {}".format(n, sel, got))
    s = xs.Shell(n, fluolines=None)
    close(c, s.partial_fluoyield(Z), tab(xraylib.FluorYield, Z, SHELLS[n]), "shell:total yield")
    close(c, s.partial_photo(Z, E), tab(xraylib.CS_Photo_Partial, Z, SHELLS[n], E), "shell:photo", Z=Z, E=E)
    # groups of shells
    grp = rng.sample(["K", "L", "M"], rng.randint(1, 3))
    full = sorted(x for g in grp for x in expand(g))
    c.require([str(x) for x in xs.Shell.expandall(grp)] == full, "shells:expand", lambda: "{} {}".format(grp, xs.Shell.expandall(grp)))
    c.require(sorted(xs.Shell.shrink(full)) == sorted(grp), "shells:shrink", lambda: "{} {}".format(full, xs.Shell.shrink(full)))
    part = rng.sample(full, rng.randint(1, len(full)))
    got = xs.Shell.shrink(part)
    c.require(sorted(xs.Shell.expandall(got)) == sorted(part), "shells:shrink", lambda: "{} {}".format(part, got))
    split = rng.choice(grp + ["L", "K"])
    got = xs.Shell.expandselection(list(grp), rng.choice([split, [split]]))
    exp = sorted(x for g in grp for x in (expand(g) if g == split else [g]))
    c.require(sorted(got) == exp, "shells:split", lambda: "{} {} {}".format(grp, split, got))
    # selections by energy
    lo, hi = sorted([rng.uniform(0.05, 30), rng.uniform(0.05, 60)])
    exp = {}
    for n in SHELLS:
        e = tab(xraylib.EdgeEnergy, Z, SHELLS[n])
        if lo <= e <= hi:
            ls = {x for x in SINGLE if re.match("^{}[LMNOPQ]".format(n), x) and lo <= line_table(Z, x)[0] <= hi}
            exp[n] = ls
    got = {s.name: {x.name for x in s.fluolines} for s in xs.Shell.factory(energybounds=[rng.choice([Z, symb]), lo, hi])}
    for n in got:
        c.require(n in exp, "shells:selection", lambda: "{} {}".format(n, exp))
        known = {x for x in got[n] if x in SINGLE and line_table(Z, x)[0]}
        c.require(known == exp[n] and got[n], "shells:selection:lines", lambda: "{} {} {}".format(n, got[n], exp[n]))
    c.require(all(n in got for n in exp if exp[n]), "shells:selection:missing", lambda: "{} {}".format(got, exp))
    el = element.Element(symb)
    c.require({s.name for s in el.shellfactory(emin=lo, emax=hi)} == set(got), "shells:element")
    pm = el.pymcashellfactory(emin=lo, emax=hi)
    want = [n for n in got if n[0] in "KLM"]
    flat = xs.Shell.expandall(pm) if pm else []
    c.require({n for n in flat if n[0] != "M"} == {n for n in want if n[0] != "M"}, "shells:pymca", lambda: "{} {}".format(pm, want))
    c.require(("M" in pm) == all(x in want for x in expand("M")), "shells:pymca:M", lambda: "{} {}".format(pm, want))
    pm2 = xs.Shell.pymcafactory(energybounds=[Z, lo, hi], split=["L"])
    exp2 = sorted(x for g in pm for x in (expand(g) if g == "L" else [g]))
    c.require(sorted(pm2) == exp2, "shells:pymca:split", lambda: "{} {}".format(pm2, exp2))
    c.event("shell selections")


def scattering(c, rng):
    n = rng.choice([0, 1, 3])
    E = rng.uniform(3, 90) if n == 0 else c.np.uniform(3, 90, n)
    polar = rng.uniform(1e-3, np.pi)
    exp = np.asarray(E) / (1 + np.asarray(E) / MEC2 * (1 - np.cos(polar)))
    cl, rl = xs.ComptonLine(E), xs.RayleighLine(E)
    close(c, cl.energy(polar=polar), exp, "compton:energy", rtol=1e-7)
    close(c, cl.energy(polar=0), E, "compton:forward")
    close(c, cl.energy(), E, "compton:no angle")
    close(c, rl.energy(polar=polar), E, "rayleigh:energy")
    close(c, cl.scatteringangle(cl.energy(polar=polar)), np.broadcast_to(polar, exp.shape), "compton:angle", rtol=1e-5, atol=1e-6)
    for ln, name in ((cl, "Compton"), (rl, "Rayleigh")):
        c.require(str(ln) == name and ln == name and ln.groupname == name and ln.nenergy == max(n, 1), "scattering:name", name)
        sp = ln.split()
        c.require(len(sp) == max(n, 1), "scattering:split")
        close(c, np.ravel([x.energy(polar=polar) for x in sp]), np.ravel(ln.energy(polar=polar)), "scattering:split:energy")
    src = interaction.InteractionSource(float(np.ravel(E)[0]), 0)
    theta = rng.choice([0, 90.0, rng.uniform(1, 180)])
    inel = interaction.InteractionInelScat(src, theta)
    e0 = float(np.ravel(E)[0])
    close(c, inel.energy, e0 / (1 + e0 / MEC2 * (1 - np.cos(np.radians(theta)))), "interaction:inelastic", rtol=1e-7)
    close(c, interaction.InteractionElScat(src).energy, e0, "interaction:elastic")
    Z = rng.randint(20, 80)
    ln, s = xs.FluoLine("KL3"), xs.Shell("K")
    fl = interaction.InteractionFluo(Z, s, ln)
    close(c, fl.energy, xraylib.LineEnergy(Z, xraylib.KL3_LINE), "interaction:fluorescence")
    close(c, fl._prob, xraylib.FluorYield(Z, xraylib.K_SHELL) * xraylib.RadRate(Z, xraylib.KL3_LINE), "interaction:probability")
    c.key(n, round(polar, 2))
    c.event("scattered energies", max(n, 1))


def fluo_reference(mat, E, emin, emax):
    """{line: (energy, cross section)} of tabulated lines"""
    ret = {}
    for s, w in mat.w.items():
        Z = z(s)
        for sh, code in SHELLS.items():
            edge = tab(xraylib.EdgeEnergy, Z, code)
            if not emin <= edge <= emax:
                continue
            photo = np.array([tab(xraylib.CS_Photo_Partial, Z, code, float(e)) for e in E])
            y = tab(xraylib.FluorYield, Z, code)
            for n in SINGLE:
                if re.match("^{}[LMNOPQ]".format(sh), n):
                    e, r = line_table(Z, n)
                    if e and emin <= e <= emax and r:
                        ret["{}-{}".format(s, n)] = (e, w * photo * y * r)
    return ret


def value(x):
    return np.atleast_1d(np.asarray(x, float))


def crosssections(c, rng):
    """The spectrum of a material"""
    mat = Mat(rng)
    n = rng.choice([0, 1, 2, 3])
    E = rng.uniform(4, 30) if n == 0 else np.sort(c.np.uniform(4, 30, n))
    Ea = np.atleast_1d(E)
    emin = rng.choice([0.2, 1.0, 2.5])
    emax = rng.choice([None, None, rng.uniform(6, 40)])
    if emin >= Ea.max():
        raise Discard()
    w = None if n == 0 or rng.random() < 0.5 else c.np.uniform(0.1, 3, n)
    sp = mat.obj.xrayspectrum(E, emin=emin, emax=emax, weights=w)
    hi = Ea.max() if emax is None else emax
    c.key(mat.kind, n, emax is None, w is None)
    f = 1.0 if w is None else w / w.sum()
    ref = fluo_reference(mat, Ea, emin, hi)
    got = {str(k): k for k in sp}
    c.require(len(got) == len(sp), "spectrum:duplicates")
    c.require(set(ref) <= set(got), "spectrum:missing", lambda: str(sorted(set(ref) - set(got))[:9]))
    for k, (e, v) in ref.items():
        close(c, value(sp[got[k]]), v * f, "spectrum:value", line=k, rtol=1e-9, atol=1e-300)
        close(c, got[k].energy(), e, "spectrum:energy", line=k)
    for k, ln in got.items():
        if k in ("Rayleigh", "Compton"):
            func = {"Rayleigh": xraylib.CS_Rayl, "Compton": xraylib.CS_Compt}[k]
            exp = np.array([sum(ww * func(z(s), float(e)) for s, ww in mat.w.items()) for e in Ea])
            close(c, value(sp[ln]), exp * f, "spectrum:scattering", line=k)
        elif k not in ref:
            s, name = k.split("-")
            e = ln.energy()
            c.require(emin <= e <= hi, "spectrum:energy range", lambda: "{} {}".format(k, e))
            c.require(np.all(value(sp[ln]) >= 0), "spectrum:negative", k)
    c.event("lines in spectra", len(got))
    # probabilities per cm and srad
    close(c, sp.density, mat.density, "spectrum:density")
    prob = {str(k): value(v) for k, v in sp.probabilities}
    c.require(set(prob) == set(got), "spectrum:probabilities")
    for k in prob:
        close(c, prob[k], value(sp[got[k]]) * mat.density / (4 * np.pi), "spectrum:probability", line=k)
    tot = dict((str(k), v) for k, v in sp.probabilities_dict.items())
    c.require(set(tot) == set(prob), "spectrum:probabilities_dict")
    byline, scat = {}, {}
    for k, v in sp.lines():
        if str(k) in ("Rayleigh", "Compton"):
            scat.setdefault(str(k), []).append((float(np.squeeze(k.energy())), float(v)))
        else:
            byline[str(k)] = v
    for k, v in byline.items():
        close(c, v, prob[k].sum(), "spectrum:lines", line=k)
    for k, v in scat.items():
        close(c, [x[0] for x in v], Ea, "spectrum:lines:" + k)
        close(c, [x[1] for x in v], prob[k], "spectrum:lines:" + k)
    total = sum(v.sum() for v in prob.values())
    close(c, sum(v for _, v in sp.spectrum()), total, "spectrum:total")
    close(c, sum(sp.spectrum_dict.values()), total, "spectrum:total:dict")
    for e in sp.spectrum_dict:
        close(c, sp.spectrum_dict[e], sum(v for x, v in sp.spectrum() if x == e), "spectrum:dict", energy=e)
        break
    # sums of sources
    cp = copy.deepcopy(sp)
    cp.sum_sources()
    for k in cp:
        if str(k) in ("Rayleigh", "Compton"):
            close(c, value(cp[k]), value(sp[got[str(k)]]), "spectrum:sum sources:scattering")
        else:
            close(c, cp[k], value(sp[got[str(k)]]).sum(), "spectrum:sum sources", line=str(k))
    try:
        list(sp.rates)
    except RuntimeError:
        pass
    else:
        c.require(False, "spectrum:rates of cross sections")


def addition(c, rng):
    """Adding spectra adds their lines and changes only what is added to"""
    n = rng.choice([0, 1, 2])
    E = rng.uniform(6, 30) if n == 0 else np.sort(c.np.uniform(6, 30, n))
    nspec = rng.randint(2, 4)
    mats = [Mat(rng) for _ in range(nspec)]
    spectra = [m.obj.xrayspectrum(E, emin=1) for m in mats]
    ref = [{str(k): value(v).copy() for k, v in s.items()} for s in spectra]
    model = {}
    mode = rng.choice(["iadd", "add", "empty"])
    c.key(mode, n, nspec)
    if mode == "empty":
        tot = xs.Spectrum(type=xs.Spectrum.TYPES.crosssection, density=1)
        todo = list(range(nspec))
    else:
        tot = copy.deepcopy(spectra[0])
        model = {k: v.copy() for k, v in ref[0].items()}
        todo = list(range(1, nspec))
    todo += [rng.randrange(nspec) for _ in range(rng.randint(0, 2))]
    for i in todo:
        if mode == "add":
            tot = tot + spectra[i]
        else:
            tot += spectra[i]
        for k, v in ref[i].items():
            model[k] = model.get(k, 0) + v
        got = {str(k): value(v) for k, v in tot.items()}
        c.require(set(got) == set(model), "add:lines", lambda: str(set(got) ^ set(model)))
        for k in model:
            close(c, got[k], model[k], "add:value", line=k)
        for s, r in zip(spectra, ref):
            for k, v in s.items():
                close(c, value(v), r[str(k)], "add:operand changed", line=str(k))
        c.event("additions")
    other = xs.Spectrum(type=xs.Spectrum.TYPES.rate)
    try:
        tot += other
    except ValueError:
        pass
    else:
        c.require(False, "add:types")


def sample_spectra(c, rng):
    """Channels, groups and peaks of the spectrum of a sample add up"""
    mats = [Mat(rng) for _ in range(rng.randint(1, 2))]
    geom = make_geometry(rng)
    det = geom.detector
    det.mcazero, det.mcagain = rng.choice([0.0, -0.02, 0.05]), rng.choice([0.005, 0.01])
    ml = multilayer.Multilayer(material=[m.obj for m in mats], thickness=[10 ** rng.uniform(-4, -3) for _ in mats], geometry=geom)
    n = rng.choice([0, 1, 2])
    E = rng.uniform(6, 20) if n == 0 else np.sort(c.np.uniform(6, 20, n))
    emin = rng.choice([0.5, 1.0])
    emax = rng.choice([None, float(np.max(E)) + 1])
    sp = ml.xrayspectrum(E, emin=emin, emax=emax, scattering=rng.random() < 0.8)
    if not len(sp):
        raise Discard()
    c.key(len(mats), n, emax is None)
    lo, hi = sp.channellimits
    ch = sp.mcachannels()
    c.require(ch[0] == lo and ch[-1] == hi and len(ch) == hi - lo + 1, "mca:channels")
    en = sp.mcaenergies()
    close(c, en, det.mcazero + det.mcagain * ch, "mca:energies")
    i = rng.randrange(len(ch))
    c.require(sp.energytochannel(float(en[i])) == ch[i], "mca:inverse")
    c.require(np.array_equal(sp.energytochannel(en + det.mcagain * 0.3), ch), "mca:nearest")
    c.require(abs(en[0] - max(sp.xlim[0], det.mcazero)) <= det.mcagain and abs(en[-1] - sp.xlim[1]) <= det.mcagain, "mca:range")
    flux = rng.choice([None, 1e6])
    hist = rng.random() < 0.5
    kw = {"fluxtime": flux, "histogram": hist}
    mult = (1 if flux is None else flux) * (det.mcagain if hist else 1)
    rates = {str(k): value(v) for k, v in sp.rates}
    # peaks
    x, prof, _, info = sp.linespectra(**kw)
    close(c, x, en, "peaks:energies")
    c.require(prof.shape == (len(x), len(info)), "peaks:shape", lambda: "{} {}".format(prof.shape, len(info)))
    areas = {}
    for k, v in info.items():
        areas.setdefault(re.sub(r"^(Rayleigh|Compton)\d*$", r"\1", k), []).append(float(np.squeeze(v["area"])))
    c.require(set(areas) == set(rates), "peaks:lines", lambda: str(set(areas) ^ set(rates)))
    for k, a in areas.items():
        if k in ("Rayleigh", "Compton"):
            close(c, sorted(a), sorted(rates[k] * mult), "peaks:area:scattering", line=k)
        else:
            close(c, a, [rates[k].sum() * mult], "peaks:area", line=k)
    c.require([float(np.squeeze(v["energy"])) for v in info.values()] == sorted(float(np.squeeze(v["energy"])) for v in info.values()), "peaks:sorted")
    peaksum = prof.sum(axis=1)
    for j, (k, v) in enumerate(info.items()):
        e, a = float(np.squeeze(v["energy"])), float(np.squeeze(v["area"]))
        s2 = det.gaussianVAR(e)
        s2 = float(np.squeeze(s2))
        g = a * np.exp(-(x - e) ** 2 / (2 * s2)) / np.sqrt(2 * np.pi * s2)
        close(c, prof[:, j], g, "peaks:profile", rtol=1e-6, atol=1e-9 * max(a, 1e-300), line=k)
        if j > 10:
            break
    x, tot, _ = sp.sumspectrum(**kw)
    close(c, tot, peaksum, "sum", rtol=1e-9, atol=1e-12 * peaksum.max())
    bkg = lambda x: 0.1 * peaksum.max() + 0 * x
    close(c, sp.sumspectrum(backfunc=bkg, **kw)[1], peaksum + 0.1 * peaksum.max(), "sum:background", rtol=1e-9)
    x, grp, _, ginfo = sp.groupspectra(**kw)
    c.require(grp.shape == (len(x), len(ginfo)), "groups:shape")
    close(c, grp.sum(axis=1), peaksum, "groups:sum", rtol=1e-9, atol=1e-12 * peaksum.max())
    names = {}
    for k in rates:
        if "-" in k:
            s, l = k.split("-")
            g = re.match("^(K|[LMNOPQ][1-7])(.*)$", l)
            sh = g.group(1)
            if sh == "K":
                sh = "KA" if g.group(2)[0] == "L" else "KB"
            k, g = k, "{}-{}".format(s, sh)
        else:
            g = k
        names.setdefault(g, set()).add(k)
    got = {g: {re.sub(r"^(Rayleigh|Compton)\d*$", r"\1", k) for k in d} for g, d in ginfo.items()}
    c.require(got == names, "groups:lines", lambda: "{} {}".format(got, names))
    for j, g in enumerate(ginfo):
        cols = [i for i, k in enumerate(info) if re.sub(r"^(Rayleigh|Compton)\d*$", r"\1", k) in names[g]]
        close(c, grp[:, j], prof[:, cols].sum(axis=1), "groups:profile", rtol=1e-9, atol=1e-12 * peaksum.max(), group=g)
    c.event("groups of lines", len(names))
    c.event("peaks", len(info))
    polar = np.radians(geom.anglein + geom.angleout)
    power = 0
    for k, ln in [(str(k), k) for k in sp]:
        e = value(ln.energy(polar=polar))
        power += (e * rates[k]).sum()
    close(c, sp.power(3.0).to("keV/s").magnitude, 3 * power, "power", rtol=1e-9)


GROUPS = [
    Group("lines", lines, 300, 4000),
    Group("shells", shells, 200, 3000),
    Group("scattering", scattering, 120, 3000),
    Group("crosssections", crosssections, 200, 4000),
    Group("addition", addition, 150, 4000),
    Group("sample_spectra", sample_spectra, 150, 4000),
]
