"""SPEC scan commands, image headers and SPEC files: what the beamline wrote is what comes back."""
import os
import numpy as np
from lib.vp import Group, Discard
from spectrocrunch.io import spec
from spectrocrunch.patch.pint import ureg

ID = "C32"
LEVEL = "exploration"
RULE = (
    "random scan commands of every kind with any spelling of the numbers; image headers with commands, motor fields, both or none and any "
    "compensation motors; SPEC files with any mixture of scans, counters, motors and XANES repeats"
)

MOTORS = {"samy": ("mm", "y"), "samz": ("mm", "z"), "sampy": ("um", "y"), "sampz": ("um", "z")}
COMP = {"samy": ["sampy"], "samz": ["sampz"], "sampy": ["samy"], "sampz": ["samz"]}
FACTOR = {"mm": 1000.0, "um": 1.0, "dimensionless": 1.0, "m": 1e6}


def number(rng, x, kind=None):
    """the different ways macros write a number"""
    kind = kind or rng.choice(["g", "g", "f", "r", "e", "plus", "dot"])
    if kind == "g":
        return "%g" % x
    if kind == "f":
        return "%.4f" % x
    if kind == "e":
        return "%.6e" % x
    if kind == "plus":
        return "%+g" % x
    if kind == "dot":
        s = "%g" % x
        if s.startswith("0."):
            return s[1:]
        if s.startswith("-0."):
            return "-" + s[2:]
        return s + "." if s.lstrip("+-").isdigit() else s
    return repr(float(x))


def pos(rng):
    how = rng.choice(["int", "float", "small", "large"])
    if how == "int":
        return float(rng.randint(-100, 100))
    if how == "small":
        return rng.choice([-1, 1]) * rng.choice([1, 2.5, 5]) * 10.0 ** rng.randint(-8, -4)
    if how == "large":
        return rng.choice([-1, 1]) * rng.choice([1, 2.5]) * 10.0 ** rng.randint(4, 8)
    return round(rng.uniform(-50, 50), 4)


def motor(rng, digits=False):
    return rng.choice(["samy", "samz", "sampy", "sampz", "Th", "mono"] + (["m3", "samz2"] if digits else []))


class Scan:
    def __init__(self, rng, kind=None):
        self.kind = kind or rng.choice(["zapimage", "zapimage", "puzzle", "mesh", "ascan", "zapline", "zapenergy"])
        b = lambda: " " * rng.choice([1, 1, 2])
        self.f, self.s = rng.sample(["samy", "samz", "sampy", "sampz", "Th"], 2)
        if self.kind == "puzzle" and rng.random() < 0.3:
            self.f = "m3"
        self.fa, self.fb, self.sa, self.sb = [pos(rng) for _ in range(4)]
        self.nf, self.ns = rng.randint(1, 200), rng.randint(1, 200)
        t = str(rng.choice([rng.randint(1, 1000), rng.randint(1, 1000), round(rng.uniform(0.5, 200), 1)]))
        self.time = float(t)
        texts = [number(rng, x) for x in (self.fa, self.fb, self.sa, self.sb)]
        fa, fb, sa, sb = texts
        self.fa, self.fb, self.sa, self.sb = [float(x) for x in texts]
        nf, ns = str(self.nf), str(self.ns)
        self.unit = "ms"
        if self.kind in ("mesh", "ascan", "zapline", "zapenergy"):
            x = rng.choice([0.1, 1.0, 2.5, 1e-3, 30.0, 100.0])
            t = number(rng, x)
            self.time = float(t)
            if self.kind in ("mesh", "ascan"):
                self.unit = "s"
        if self.kind == "zapimage":
            if rng.random() < 0.5:
                parts = [self.f, fa, fb, nf, t, self.s, sa, sb, ns]
            else:
                parts = [self.f, fa, fb, nf, self.s, sa, sb, ns, t]
            if rng.random() < 0.5:
                parts.append("0")
            self.steps = {"npixelsfast": self.nf, "nstepsslow": self.ns}
        elif self.kind == "puzzle":
            parts = [self.f, fa, fb, nf, self.s, sa, sb, ns, t]
            self.steps = {"npixelsfast": self.nf, "nstepsslow": self.ns}
        elif self.kind == "mesh":
            parts = [self.f, fa, fb, nf, self.s, sa, sb, ns, t]
            self.steps = {"nstepsfast": self.nf, "nstepsslow": self.ns}
        elif self.kind == "ascan":
            parts = [self.f, fa, fb, nf, t]
            self.steps = {"nstepsfast": self.nf}
        elif self.kind == "zapline":
            parts = [self.f, fa, fb, nf, t]
            self.steps = {"npixelsfast": self.nf}
        else:
            self.repeats = rng.randint(1, 30)
            self.sum = rng.choice(["SUM", "SUM2"])
            parts = [self.sum, str(self.repeats), t]
            self.steps = {"repeats": self.repeats}
        self.two = self.kind in ("zapimage", "puzzle", "mesh")
        self.cmd = self.kind + " " + "".join(p + b() for p in parts).rstrip()

    def expected(self):
        e = dict(self.steps, name=self.kind)
        if self.kind != "zapenergy":
            e.update(motfast=self.f, startfast=self.fa, endfast=self.fb)
            if self.two:
                e.update(motslow=self.s, startslow=self.sa, endslow=self.sb)
        return e


def c_commands(c, rng):
    p = spec.cmd_parser()
    o = Scan(rng)
    for how in (p.parse, p):
        r = how(o.cmd)
        e = o.expected()
        got = {k: v for k, v in r.items() if k != "time"}
        c.require(got == e, "command", lambda: "%r: %r instead of %r" % (o.cmd, got, e))
        t = r["time"]
        c.require(abs(t.to(o.unit).magnitude - o.time) <= 1e-9 * o.time, "command-time", lambda: "%r: %r instead of %r %s" % (o.cmd, t, o.time, o.unit))
    # something else
    words = o.cmd.split()
    how = rng.choice(["name", "short", "word"])
    if how == "name":
        bad = " ".join([rng.choice(["loopscan", "dscan", "zap", "fscan", "mv", "umv"])] + words[1:])
    elif how == "short":
        n = len(words) - (2 if words[-1] == "0" else 1)
        bad = " ".join(words[: rng.randint(1, n)])
    else:
        i = rng.randrange(2, 4 if o.kind != "zapenergy" else 3)
        bad = " ".join(words[:i] + ["abc"] + words[i + 1 :])
    r = p.parse(bad)
    c.require(r.get("name") == "unknown", "not-a-scan", lambda: "%r: %r" % (bad, r))
    # positions
    if o.kind in ("zapimage", "zapline"):
        inc = (o.fb - o.fa) / o.nf
        e = [o.fa + (i + 0.5) * inc for i in range(o.nf)]
        got = spec.zapline_values(o.fa, o.fb, o.nf)
        lo, hi = spec.zapline_range(o.fa, o.fb, o.nf)
        size, total = spec.zapline_pixelsize(o.fa, o.fb, o.nf) if o.nf > 1 else inc, spec.zapline_scansize(o.fa, o.fb, o.nf)
        et = e[-1] - e[0]
    else:
        inc = (o.fb - o.fa) / o.nf
        e = [o.fa + i * inc for i in range(o.nf + 1)]
        got = spec.ascan_values(o.fa, o.fb, o.nf)
        lo, hi = spec.ascan_range(o.fa, o.fb, o.nf)
        size, total = spec.ascan_pixelsize(o.fa, o.fb, o.nf), spec.ascan_scansize(o.fa, o.fb, o.nf)
        et = e[-1] - e[0]
    scale = max(abs(o.fa), abs(o.fb))
    near = lambda a, b: np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a) - b) <= 1e-9 * scale))
    c.require(near(got, e), "positions", lambda: "%r: %r" % (o.cmd, got))
    c.require(near([lo, hi], [e[0], e[-1]]), "range", lambda: "%r: %r %r" % (o.cmd, lo, hi))
    c.require(near(size, inc), "pixelsize", lambda: "%r: %r instead of %r" % (o.cmd, size, inc))
    c.require(near(total, et), "scansize", lambda: "%r: %r instead of %r" % (o.cmd, total, et))
    c.event("commands", 3)
    c.key(o.cmd, bad)
    c.sample(dict(command=o.cmd, other=bad))


def c_headers(c, rng):
    comp = {k: v for k, v in COMP.items() if rng.random() < 0.8}
    units = {k: v[0] for k, v in MOTORS.items()}
    units["nrj"] = "keV"
    names = {k: v[1] for k, v in MOTORS.items()}
    labels = {}
    if rng.random() < 0.8:
        labels["speclabel"] = "Title"
    if rng.random() < 0.8:
        labels["fastlabel"] = "fast"
    if rng.random() < 0.8:
        labels["slowlabel"] = "slow"
    labels["energylabel"] = "nrj"
    labels["timelabel"] = rng.choice(["tm", ""])
    parser = spec.edfheader_parser(units=units, compensationmotors=comp, axesnamemap=names, **labels)
    o = Scan(rng, rng.choice(["zapimage", "zapimage", "puzzle", "zapline", "ascan", "zapenergy"]))
    while o.f not in MOTORS or o.s not in MOTORS:
        o = Scan(rng, o.kind)
    ny, nx = rng.randint(2, 300), rng.randint(2, 300)
    header = {"Dim_1": str(nx), "Dim_2": str(ny), "DataType": "FloatValue"}
    fast = slow = None  # (motor, start, end, n)
    given = set()
    if rng.random() < 0.7:
        header["Title"] = o.cmd
        given.add("title")
        if "speclabel" in labels and o.kind in ("zapimage", "puzzle", "zapline"):
            fast = (o.f, o.fa, o.fb, o.nf)
        if "speclabel" in labels and o.kind in ("zapimage", "puzzle"):
            slow = (o.s, o.sa, o.sb, o.ns)
        # the points of an ascan are not pixels of an image
    pure = {}
    for what in ("fast", "slow"):
        if rng.random() < 0.5:
            m = rng.choice(sorted(MOTORS))
            # both directions are not the same motor
            x = (m, round(pos(rng), 6), round(pos(rng), 6), rng.randint(1, 300))
            if rng.random() < 0.85:
                header.update({what + "_mot": x[0], what + "_start": number(rng, x[1], "r"), what + "_end": number(rng, x[2], "r"), what + "_nbp": str(x[3])})
                given.add(what)
                if what + "label" in labels:
                    pure[what] = x
    if "title" in given and o.kind == "ascan" and ("fast" not in pure):
        raise Discard
    fast, slow = pure.get("fast", fast), pure.get("slow", slow)
    where = {}
    for m in MOTORS:
        if rng.random() < 0.6:
            where[m] = round(rng.uniform(-30, 30), 3)
            header[m] = number(rng, where[m], "r")
    energy = rng.choice([None, round(rng.uniform(2, 20), 4)])
    if energy is not None:
        header["nrj"] = number(rng, energy, "r")
    if rng.random() < 0.5:
        header["tm"] = "0.25"
    defaultdims = None
    if rng.random() < 0.2:
        defaultdims = (rng.randint(2, 50), rng.randint(2, 50))
    args = dict(header)
    r = parser.parse(header, defaultdims=defaultdims) if defaultdims else (parser(header) if rng.random() < 0.5 else parser.parse(header))
    c.require(header == args, "header-modified", lambda: repr(header))
    info = lambda: "%r, labels %r, compensation %r: %r" % (args, labels, sorted(comp), r)

    def positions(x, isfast, n):
        if x is None:
            return ("fast" if isfast else "slow"), np.arange(n) + (0.5 if isfast else 0), "dimensionless"
        m, a, b, n = x
        inc = (b - a) / n
        v = a + (np.arange(n) + 0.5) * inc if isfast else a + np.arange(n + 1) * inc
        name, u = m, MOTORS[m][0]
        for k in comp.get(m, []):
            if k in where:
                v = v + where[k] * FACTOR[MOTORS[k][0]] / FACTOR[u]
                name = names[m]
        return name, v, u

    c.require(len(r["axes"]) == 2, "number-of-axes", info)
    dims = defaultdims or (ny, nx)
    for ax, x, isfast, n in ((r["axes"][0], slow, False, dims[0]), (r["axes"][1], fast, True, dims[1])):
        name, v, u = positions(x, isfast, n)
        got = ax.values
        c.require(ax.name == name, "axis-name", lambda: "%r instead of %r; %s" % (ax.name, name, info()))
        c.require(str(got.units) == str(ureg.Unit(u)), "axis-units", lambda: "%s instead of %s; %s" % (got.units, u, info()))
        scale = 1e-9 * max(1e-300, float(np.abs(v).max()), abs(x[1]) if x else 0, abs(x[2]) if x else 0)
        c.require(got.shape == v.shape and bool(np.all(np.abs(got.magnitude - v) <= scale)), "axis-values", lambda: "%s: %r instead of %r; %s" % (name, got, v, info()))
    e = r["energylabel"]
    c.require(str(e.units) == str(ureg.keV), "energy-units", info)
    c.require(bool(np.isnan(e.magnitude)) if energy is None else abs(e.magnitude - energy) < 1e-9, "energy", info)
    if labels["timelabel"]:
        c.require(("tm" in header and r["timelabel"].magnitude == 0.25) or ("tm" not in header and bool(np.isnan(r["timelabel"].magnitude))), "time", info)
    if "speclabel" in labels and "title" in given:
        c.require(r["name"] == o.kind, "name", info)
    c.event("headers", 1)
    c.event("axes", 2)
    c.event("compensated", sum(any(k in where for k in comp.get(x[0], [])) for x in (fast, slow) if x))
    c.key(sorted(args.items()), sorted(labels), sorted(comp), defaultdims)
    c.sample(dict(header=args))


class File:
    """a SPEC file"""

    def __init__(self, c, rng):
        self.rng = rng
        self.names = ["samy", "samz", "sampy", "sampz", "Energy MONO", "Th", "diodeY"]
        rng.shuffle(self.names)
        self.scans = []
        self.path = os.path.join(c.dir, "scans.dat")

    def add(self, cmd, number, labels, data, comments=(), xiafile=None):
        r = self.rng
        values = [round(r.uniform(-100, 100), 4) for _ in self.names]
        self.scans.append(dict(cmd=cmd, number=number, labels=labels, data=data, motors=dict(zip(self.names, values)), comments=comments, xiafile=xiafile))
        return self.scans[-1]

    def write(self):
        lines = ["#F scans.dat", "#E 1420070400", "#D Thu Jan 01 00:00:00 2015", "#C test  User = opid21"]
        for i in range(0, len(self.names), 4):
            lines.append("#O%d %s" % (i // 4, "  ".join(self.names[i : i + 4])))
        for s in self.scans:
            lines += ["", "#S %d  %s" % (s["number"], s["cmd"]), "#D Thu Jan 01 00:01:00 2015", "#T 0.1  (Seconds)"]
            v = [s["motors"][n] for n in self.names]
            for i in range(0, len(v), 4):
                lines.append("#P%d %s" % (i // 4, " ".join("%r" % x for x in v[i : i + 4])))
            for k in s["comments"]:
                lines.append("#C " + k)
            if s["xiafile"]:
                lines.append("#@XIAFILE " + s["xiafile"])
            lines += ["#N %d" % len(s["labels"]), "#L " + "  ".join(s["labels"])]
            for row in s["data"]:
                lines.append(" ".join("%r" % float(x) for x in row))
        with open(self.path, "w") as f:
            f.write("\n".join(lines) + "\n")
        return spec.spec(self.path)


LABELS = ["arr_energyM", "arr_iodet", "arr_mtime", "Epoch", "Fe-Ka", "idet", "xmap_x1_00"]


def c_files(c, rng):
    f = File(c, rng)
    number = 0
    for _ in range(rng.randint(1, 6)):
        number += rng.choice([1, 1, 1, 3])
        o = Scan(rng)
        while o.f == "m3" or (o.kind == "puzzle" and rng.random() < 0.3):
            o = Scan(rng)
        n = rng.randint(1, 6)
        labels = rng.sample(LABELS, rng.randint(2, 5))
        data = np.round(c.np.uniform(-1000, 1000, (n, len(labels))), 3)
        comments, xia = [], None
        radix = rng.choice(["sample", "mapA_b", "Xanes", "XX_1", "roi_xia01_a"])
        loc = dict(DIRECTORY="/data/id21/%s/zap" % radix, RADIX=radix, **{"ZAP SCAN NUMBER": str(rng.randint(0, 3000)), "ZAP IMAGE NUMBER": str(rng.randint(0, 9))})
        expected = dict.fromkeys(loc, "")
        if o.kind in ("zapimage", "puzzle") or rng.random() < 0.5:
            keys = ["DIRECTORY", "RADIX", "ZAP SCAN NUMBER", "ZAP IMAGE NUMBER"]
            comments = ["%s : %s" % (k, loc[k]) for k in keys]
            expected = dict(loc)
        elif rng.random() < 0.5:
            m = rng.randint(0, 3000)
            xia = "/data/id21/%s/zap/%s_xiaXX_%04d_0000_%s.edf" % (radix, radix, m, rng.choice(["XXXX", "0000"]))
            expected = {"DIRECTORY": "/data/id21/%s/zap" % radix, "RADIX": radix, "ZAP SCAN NUMBER": m, "ZAP IMAGE NUMBER": 0}
        s = f.add(o.cmd, number, labels, data, comments, xia)
        s["scan"], s["loc"] = o, expected
    d = f.write()
    for s in f.scans:
        o, k = s["scan"], s["number"]
        info = lambda: "scan %d %r" % (k, s["cmd"])
        c.require(list(d.labels(k)) == s["labels"], "labels", info)
        got, loc = d.getdata(k)
        c.require(np.shape(got) == s["data"].shape and np.allclose(got, s["data"], rtol=1e-12), "data", lambda: "%s: %r" % (info(), got))
        c.require({q: str(v) for q, v in loc.items()} == {q: str(v) for q, v in s["loc"].items()}, "location", lambda: "%s: %r instead of %r" % (info(), loc, s["loc"]))
        loc = d.getxialocation(k)
        c.require({q: str(v) for q, v in loc.items()} == {q: str(v) for q, v in s["loc"].items()}, "location", lambda: "%s: %r instead of %r" % (info(), loc, s["loc"]))
        pick = rng.sample(range(len(s["labels"])), rng.randint(1, len(s["labels"])))
        names = [rng.choice([str, str.lower, str.upper])(s["labels"][i]) for i in pick]
        for got in (d.getdata(k, names)[0], d.getdata2(k, names)):
            c.require(np.shape(got) == (len(s["data"]), len(pick)) and np.allclose(got, s["data"][:, pick], rtol=1e-12), "columns", lambda: "%s %r: %r" % (info(), names, got))
        c.require(d.haslabels(k, names + ["nope"]) == [True] * len(names) + [False], "haslabels", info)
        c.require(d.haslabels(k, names[0]) is True and d.haslabels(k, "nope") is False, "haslabels", info)
        mots = rng.sample(f.names, 3)
        got = d.getmotorvalues(k, [rng.choice([str, str.lower])(m) for m in mots])
        c.require(np.allclose(got, [s["motors"][m] for m in mots], rtol=1e-9), "motors", lambda: "%s %r: %r" % (info(), mots, got))
        c.require(abs(d.getmotorvalues(k, mots[0]) - s["motors"][mots[0]]) < 1e-6, "motor", info)
        c.require(d.hasmotors(k, mots + ["nope"]) == [True] * 3 + [False] and d.hasmotors(k, mots[0]) is True, "hasmotors", info)
        r = d.scancommand(k)
        c.require({q: v for q, v in r.items() if q != "time"} == o.expected(), "scancommand", lambda: "%s: %r" % (info(), r))
        # positions of the motors during the scan
        mots = rng.sample([m for m in f.names if m.islower()], 3)
        r = d.getdimensions(k, mots)
        c.require(sorted(r) == sorted(mots), "dimensions", lambda: "%s: %r" % (info(), r))
        for m in mots:
            if o.kind in ("zapimage", "ascan", "mesh") and m == o.f:
                inc = (o.fb - o.fa) / o.nf if o.kind == "zapimage" else 0
                e = [o.fa + inc / 2, o.fb - inc / 2]
            elif o.two and o.kind != "puzzle" and m == o.s:
                e = [o.sa, o.sb]
            elif (o.kind in ("puzzle",) and m in (o.f, o.s)) or (o.kind == "zapline" and m == o.f):
                continue
            else:
                e = s["motors"][m]
            c.require(np.shape(r[m]) == np.shape(e) and np.allclose(r[m], e, rtol=1e-6, atol=1e-12), "dimensions", lambda: "%s %s: %r instead of %r" % (info(), m, r[m], e))
        c.event("scans", 1)
    for bad in (number + 1,):
        try:
            r = d.getdata(bad)
        except KeyError:
            r = None
        c.require(r is None, "no-such-scan", lambda: repr(r))
    # images
    u = {m: v[0] for m, v in MOTORS.items()}
    mots = rng.choice([None, ["samy", "sampz", "nope"]])
    r = d.getimages(motors=mots, units=u)
    e = {}
    for s in f.scans:
        if s["scan"].kind in ("zapimage", "puzzle"):
            e["%s_%d" % (s["loc"]["RADIX"], int(s["loc"]["ZAP SCAN NUMBER"]))] = s
    c.require(set(r) == set(e), "images", lambda: "%r instead of %r" % (sorted(r), sorted(e)))
    for q, s in e.items():
        o, g = s["scan"], r[q]
        c.require(int(g["specnumber"]) == s["number"] and g["scansize"] == "%d x %d" % (o.nf, o.ns + 1) and g["puzzle"] == (o.kind == "puzzle"), "image", lambda: "%r: %r" % (s["cmd"], g))
        c.require(g["scandir"] == s["loc"]["DIRECTORY"] and g["scanname"] == s["loc"]["RADIX"] and int(g["scannumber"]) == int(s["loc"]["ZAP SCAN NUMBER"]), "image-location", lambda: repr(g))
        if mots:
            c.require(np.allclose(g["motors"], [s["motors"]["samy"], s["motors"]["sampz"], np.nan], equal_nan=True), "image-motors", lambda: repr(g))
        inc = (o.fb - o.fa) / o.nf
        for key, fe, se in (("pixelsize", inc, (o.sb - o.sa) / o.ns), ("scansize_units", o.fb - o.fa - inc, o.sb - o.sa)):
            a, b = [ureg.Quantity(x) for x in g[key].split(" x ")]
            ok = True
            for got, exp, m in ((a, fe, o.f), (b, se, o.s)):
                uu = str(ureg.Unit(u.get(m, "dimensionless")))
                ok &= str(got.units) == uu and abs(got.magnitude - exp) <= 1e-6 * max(abs(exp), 1e-9 * max(abs(o.fa), abs(o.fb), abs(o.sa), abs(o.sb)))
            c.require(ok, "image-" + key, lambda: "%r: %r instead of %r, %r" % (s["cmd"], g[key], fe, se))
        c.event("images", 1)
    r = d.getregexscans(r"(?P<what>zapimage|mesh)\s+(?P<mot>\w+)")
    e = {s["number"]: {"what": s["scan"].kind, "mot": s["scan"].f} for s in f.scans if s["scan"].kind in ("zapimage", "mesh")}
    c.require(dict(r) == e, "regex", lambda: "%r instead of %r" % (r, e))
    c.key([s["cmd"] for s in f.scans], [s["labels"] for s in f.scans])
    c.sample(dict(scans=[s["cmd"] for s in f.scans]))


def c_xanes(c, rng):
    """repeated energy scans, each followed by the sum"""
    f = File(c, rng)
    number = 0
    labels = ["arr_energyM", "arr_iodet", "arr_mtime"]
    blocks, singles = [], []
    usesum2 = rng.random() < 0.3

    def put(cmd, lines=3):
        nonlocal number
        number += 1
        f.add(cmd, number, labels, np.round(c.np.uniform(1, 10, (lines, 3)), 3))
        return number

    for _ in range(rng.randint(1, 6)):
        how = rng.choice(["repeats", "repeats", "repeats", "single", "other", "empty"])
        if how == "other":
            put(rng.choice(["ascan samz 0 1 10 0.1", "zapline samy 0 1 10 100", "zapimage samy 0 1 10 100 samz 0 1 10"]))
        elif how == "empty":
            put("zapline mono 7 7.5 100 100", 0)
        elif how == "single":
            singles.append(put("zapline mono 7 7.5 100 100"))
            blocks.append(("single", singles[-1:], None))
        else:
            n = rng.randint(2, 5)
            reps = []
            for i in range(n):
                reps.append(put("zapline mono 7 7.5 100 100"))
                if rng.random() < 0.1:
                    put("ascan samz 0 1 10 0.1")
            s = put("zapenergy SUM %d 100" % n)
            if usesum2 and rng.random() < 0.7:
                s = put("zapenergy SUM2 %d 100" % n)
            blocks.append(("repeats", reps, s))
    skip = []
    kw = {}
    if rng.random() < 0.3 and blocks:
        # leave a whole block out
        b = rng.choice(blocks)
        lo, hi = b[1][0], (b[2] or b[1][-1])
        how = rng.choice(["skip", "min", "max"])
        if how == "skip":
            kw["skip"] = [x for x in range(lo, hi + 1)]
            blocks = [x for x in blocks if x is not b]
        elif how == "min":
            kw["nrmin"] = lo
            blocks = [x for x in blocks if x[1][0] >= lo]
        else:
            kw["nrmax"] = hi
            blocks = [x for x in blocks if x[1][0] <= lo]
    elif rng.random() < 0.4:
        # some repeats are not wanted (nothing in front they could be confused with)
        i = rng.choice([i for i, b in enumerate(blocks) if b[0] == "repeats" and (i == 0 or blocks[i - 1][0] == "repeats")] or [None])
        if i is not None:
            kind, reps, s = blocks[i]
            if i == 0 and rng.random() < 0.5:
                lost = reps[: rng.randint(1, len(reps) - 1)]
                kw["nrmin"] = lost[-1] + 1
            else:
                lost = rng.sample(reps, rng.randint(1, len(reps) - 1))
                kw["skip"] = lost
            blocks[i] = (kind, [x for x in reps if x not in lost], s, len(reps))
    d = f.write()
    keepsum, sumingroups, keepindividual = [rng.random() < 0.5 for _ in range(3)]
    info = lambda: "%r, %r, keepsum=%r, sumingroups=%r, keepindividual=%r" % ([(s["number"], s["cmd"], len(s["data"])) for s in f.scans], kw, keepsum, sumingroups, keepindividual)
    # all
    r = d.extractxanesinfo(**kw)
    e = []
    for kind, reps, s, *n in blocks:
        e += [{"scannumber": x, "repeats": 1} for x in reps]
        if s:
            e.append({"scannumber": s, "repeats": n[0] if n else len(reps)})
    c.require(r == e, "scans", lambda: "%r instead of %r; %s" % (r, e, info()))
    # groups
    r = d.extractxanesginfo(keepsum=keepsum, sumingroups=sumingroups, keepindividual=keepindividual, **kw)
    groups, individuals = [], []
    for kind, reps, s, *_ in blocks:
        if kind == "single":
            individuals.append(reps)
            continue
        groups.append(reps + ([s] if keepsum and sumingroups else []))
        if keepindividual:
            individuals += [[x] for x in reps]
        if keepsum and (not sumingroups or keepindividual):
            individuals.append([s])
    individuals += [g for g in groups if len(g) == 1]
    groups = [g for g in groups if len(g) > 1]
    c.require([g for g in r if len(g) > 1] == groups, "groups", lambda: "%r instead of %r; %s" % (r, groups, info()))
    c.require(sorted(g for g in r if len(g) == 1) == sorted(individuals), "individuals", lambda: "%r instead of %r; %s" % (r, individuals, info()))
    # the data
    numbers = [s["number"] for s in f.scans]
    want = rng.sample(numbers, rng.randint(1, len(numbers)))
    cols = rng.sample(labels, 2)
    r = d.extractxanes(want, cols)
    byn = {s["number"]: s for s in f.scans}
    e = [k for k in want if byn[k]["cmd"].startswith(("zapline mono", "zapenergy SUM")) and len(byn[k]["data"])]
    c.require(sorted(r) == sorted(e), "extracted", lambda: "%r instead of %r; %s" % (sorted(r), sorted(e), info()))
    for k in e:
        s, g = byn[k], r[k]
        exp = s["data"][:, [labels.index(x) for x in cols]]
        c.require(np.allclose(g["data"], exp, rtol=1e-12) and g["labels"] == ["%s.%d" % (x, k) for x in cols] and g["time"].to("ms").magnitude == 100, "extracted-data", lambda: "%d: %r" % (k, g))
        c.require(g["repeats"] == (int(s["cmd"].split()[2]) if "SUM" in s["cmd"] else 1), "extracted-repeats", lambda: "%d: %r" % (k, g))
    c.event("scans", len(f.scans))
    c.event("groups", len(groups))
    c.key([s["cmd"] for s in f.scans], [len(s["data"]) for s in f.scans], keepsum, sumingroups, keepindividual, sorted(kw))
    c.sample(dict(scans=[s["cmd"] for s in f.scans], **{k: str(v) for k, v in kw.items()}))


GROUPS = [
    Group("commands", c_commands, 600, 20000),
    Group("headers", c_headers, 400, 12000),
    Group("files", c_files, 120, 2500),
    Group("xanes", c_xanes, 120, 2500),
]
