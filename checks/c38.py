"""Small files: MCA spectra, text tables, reports and spreadsheets give back what was stored, and derived spreadsheet cells follow their formulae."""
import contextlib
import io
import os
import numpy as np
import openpyxl
import pandas as pd
import scipy.stats
from lib.vp import Group, Discard
from spectrocrunch.io import mca, ascii, excel
from spectrocrunch.visualization import colormap

ID = "C38"
LEVEL = "exploration"
RULE = "random spectra (all lengths around a multiple of 16), calibrations and modes; random tables, layouts and reports; random histories of values, rows, columns and formulae with both priorities; random criteria and formats"


# ---------------------------------------------------------------- mca spectra


def spectra(c, rng):
    np_ = c.np
    n = rng.choice([1, 2, 3, 15, 16, 17, 31, 32, 33, 48, 100, rng.randint(1, 300), 1024, 2048])
    y = rng.choice([
        lambda: np_.poisson(rng.choice([0.3, 10, 1e5]), n),
        lambda: np_.uniform(0, 10.0 ** rng.randint(-3, 7), n),
        lambda: np.zeros(n),
        lambda: np.full(n, rng.choice([1, 99999999, 1e-7])),
    ])()
    if rng.random() < 0.2:
        y = y.tolist()
    zero = rng.choice([0, round(rng.uniform(-0.1, 0.1), 5), -0.5])
    gain = rng.choice([1, round(rng.uniform(1e-3, 2e-2), 6), 5])
    kw = {}
    if rng.random() < 0.7:
        kw["zero"] = zero
    else:
        zero = 0
    if rng.random() < 0.7:
        kw["gain"] = gain
    else:
        gain = 1
    off = 0
    if rng.random() < 0.3:
        off = kw["ch0"] = rng.randint(0, 50)
        if rng.random() < 0.5:
            kw["ch1"] = off + n - 1
    path = os.path.join(c.dir, *rng.choice([["a.mca"], ["sub", "deep", "a.mca"]]))
    if rng.random() < 0.3:
        mca.save([1, 2, 3], path, zero=9)  # overwritten
    before = np.array(y, copy=True)
    mca.save(y, path, **kw)
    c.require(np.array_equal(before, np.asarray(y)), "mca:spectrum modified", "")
    data, channels, energy, coeff = mca.read(path)
    data, energy, coeff = np.asarray(data), np.asarray(energy), np.asarray(coeff)
    c.event("spectra")
    c.key("mca", n, off > 0)
    c.require(data.shape == (n,), "mca:number of channels", lambda: (n, data.shape))
    c.require(np.allclose(data, y, rtol=1e-7, atol=0), "mca:counts", lambda: (y, data))
    if n > 1:
        c.require(np.array_equal(channels, off + np.arange(n)), "mca:channels", lambda: (off, n, channels))
        c.require(np.allclose(energy, zero + gain * (off + np.arange(n)), rtol=1e-6, atol=1e-7 * max(abs(zero), 1)), "mca:energy", lambda: (zero, gain, off, energy[:5]))
    c.require(np.allclose(list(coeff)[:2], [zero, gain], rtol=1e-6, atol=0) and not np.any(list(coeff)[2:]), "mca:calibration", lambda: (zero, gain, coeff))


# ---------------------------------------------------------------- text


def number(rng):
    return rng.choice([
        lambda: str(rng.randint(-999, 999)),
        lambda: "%.*f" % (rng.randint(1, 6), rng.uniform(-1000, 1000)),
        lambda: "%.*e" % (rng.randint(1, 6), rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 20)),
        lambda: "0",
        lambda: "+%d" % rng.randint(0, 9),
    ])()


def tables(c, rng):
    ncol, nrow = rng.randint(1, 6), rng.randint(1, 12)
    words = ["energy", "mu", "I0", "x_1", "Time/s", "col-a", "Fe_K", "eta(keV)", "f1", "f2"]
    names = rng.sample(words, ncol)
    values = [[number(rng) for _ in range(ncol)] for _ in range(nrow)]
    sep = rng.choice([" ", "\t", "   ", " \t "])
    pre, post = rng.choice(["", "", " ", "\t"]), rng.choice(["", "", " "])
    intro = ["# measured somewhere", "Comment: nothing", "", "A long line of text without table"]
    lines = [rng.choice(intro) for _ in range(rng.choice([0, 0, 1, 3]))]
    lines.append(pre + sep.join(names) + post)
    lines += [pre + sep.join(row) + post for row in values]
    eol = rng.choice(["\n", "\n", "\r\n"])
    text = eol.join(lines) + rng.choice(["", eol, eol + eol])
    path = os.path.join(c.dir, "table.txt")
    with open(path, "w", newline="") as f:
        f.write(text)
    dtype = rng.choice([None, None, np.float64])
    o = ascii.asciifile(path)
    out, header = o.autoread_alphatable() if dtype is None else o.autoread_alphatable(dtype=dtype)
    c.event("tables")
    c.key("table", ncol, nrow, len(lines))
    c.require(list(header) == names, "table:column names", lambda: (names, header, text))
    ref = np.array(values, dtype=dtype or np.float32)
    c.require(out.shape == ref.shape and out.dtype == ref.dtype and np.array_equal(out, ref), "table:values", lambda: (text, out))
    # nothing to read
    with open(path, "w") as f:
        f.write(rng.choice(["", "only text\nand more", "\n\n"]))
    try:
        out = ascii.asciifile(path).autoread_alphatable()
    except IOError:
        pass
    else:
        c.require(False, "table:no table", lambda: out)
    try:
        ascii.asciifile(path + ".missing")
    except IOError:
        pass
    else:
        c.require(False, "table:missing file accepted", "")


def reports(c, rng):
    logger = rng.random() < 0.5
    path = os.path.join(c.dir, *rng.choice([["r.txt"], ["a", "b", "r.txt"]]))
    tab = rng.choice([4, 2, 0, 8])
    tofile = rng.random() < 0.8
    content, shown = [], []
    for session in range(rng.choice([1, 2, 3])):
        mode = rng.choice(["w", "a", None])
        kw = {} if mode is None else {"mode": mode}
        if logger:
            obj = ascii.Logger(path if tofile else None, tab=tab, **kw)
        else:
            obj = ascii.Writer(path if tofile else None, **kw)
        if mode != "a":
            content = []
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), obj as f:
                for i in range(rng.randint(0, 6)):
                    lines = [rng.choice(["", "text", "a b", "{}", "%s", "x" * 50]) + str(rng.randint(0, 9)) for _ in range(rng.randint(1, 4))]
                    depth = rng.choice([0, 0, 1, 2])
                    kw = {"tab": depth} if logger and depth else {}
                    ind = " " * tab * kw.get("tab", 0)
                    if rng.random() < 0.5:
                        f.writelines(lines, **kw)
                        new = lines
                    elif logger:
                        eol = rng.choice(["\n", "\r\n", "\r"])
                        f.write(eol.join(lines), **kw)
                        new = lines
                    else:
                        f.write(lines[0])
                        new = lines[:1]
                    content += [ind + s for s in new]
                    if logger:
                        shown += [ind + s for s in new]
                    c.event("report_lines", len(new))
                if rng.random() < 0.2:
                    raise KeyError("stop")
        except KeyError:
            pass
        c.require(out.getvalue() == "".join(s + "\n" for s in shown), "report:printed", lambda: (shown, out.getvalue()))
        shown = []
        if tofile:
            with open(path) as f:
                text = f.read()
            c.require(text == "".join(s + "\n" for s in content), "report:file", lambda: (content, text))
        else:
            c.require(not os.path.exists(path), "report:file without name", "")
    # outside a context nothing is written
    obj.write("late") if not logger else None
    if tofile:
        c.require(open(path).read() == text, "report:written after closing", "")
    c.key("report", logger, tofile, len(content))


# ---------------------------------------------------------------- spreadsheets

FORMULAE = [
    ("({}+{})/2.", lambda a, b: (a + b) / 2.0, 2),
    ("{}-{}", lambda a, b: a - b, 2),
    ("{}*{}+1", lambda a, b: a * b + 1, 2),
    ("2*{}", lambda a: 2 * a, 1),
    ("{}", lambda a: a, 1),
    ("{}+{}+{}", lambda a, b, d: a + b + d, 3),
]


class Sheet(object):
    """What the cells should be."""

    def __init__(self, data, rows, columns, priority):
        self.v = {(r, k): data[i][j] for i, r in enumerate(rows) for j, k in enumerate(columns)}
        self.rows, self.columns = list(rows), list(columns)
        self.frow, self.fcol, self.fcell = {}, {}, {}
        self.priority = priority

    def get(self, r, k):
        return self.v.get((r, k), np.nan)

    def evaluate(self):
        def docols():
            for k, (f, args) in self.fcol.items():
                for r in self.rows:
                    self.v[r, k] = f(*[self.get(r, a) for a in args])

        def dorows():
            for r, (f, args) in self.frow.items():
                for k in self.columns:
                    self.v[r, k] = f(*[self.get(a, k) for a in args])

        docols(), dorows()
        if self.priority == "row":
            docols(), dorows()
        else:
            dorows(), docols()
        for (r, k), (f, ra, ca) in self.fcell.items():
            self.v[r, k] = f(*[self.get(a, b) for a, b in zip(ra, ca)])


def sheets(c, rng):
    np_ = c.np
    nr, nc = rng.randint(3, 7), rng.randint(3, 6)
    ints = rng.random() < 0.25
    if ints:
        rows, columns = list(range(nr)), list(range(nc))
    else:
        rows, columns = ["r%d" % i for i in range(nr)], ["c %d" % i for i in range(nc)]
    priority = rng.choice(["row", "column"])
    data = np.round(np_.uniform(-10, 10, (nr, nc)), 3)
    how = rng.choice(["data", "rows", "columns", "cells"])
    kw = {} if priority == "row" and rng.random() < 0.5 else {"priority": priority}
    if how == "data":
        df = excel.DataFrame(data=data.copy(), index=rows, columns=columns, **kw)
    else:
        df = excel.DataFrame(index=rows, columns=columns, dtype=float, **kw)
        if how == "rows":
            for r, vals in zip(rows, data):
                df.addrow(r, vals if rng.random() < 0.5 else dict(zip(columns, vals)))
        elif how == "columns":
            for k, vals in zip(columns, data.T):
                df.addcolumn(k, vals if rng.random() < 0.5 else dict(zip(rows, vals)))
        else:
            for i, r in enumerate(rows):
                for j, k in enumerate(columns):
                    df.addvalue(r, k, data[i, j])
    ref = Sheet(data, rows, columns, priority)

    def compare(what):
        c.event("sheet_checks")
        c.require(set(df.df.index) == set(ref.rows) and set(df.df.columns) == set(ref.columns), "sheet:names", lambda: (list(df.df.index), ref.rows))
        for (r, k), v in ref.v.items():
            w = float(df.df.at[r, k])
            c.require(np.isclose(w, v, rtol=1e-9, atol=1e-9, equal_nan=True), "sheet:" + what, lambda: (history, r, k, v, w, df.df))

    history = [("start", how, priority)]
    compare("filled")
    # formulae use plain rows and columns
    plainr, plainc = rows[:], columns[:]
    used_rows, used_cols = set(), set()
    for step in range(rng.randint(2, 8)):
        op = rng.choice(["value", "row", "column", "frow", "fcol", "fcell", "newrow", "newcolumn"])
        if op == "value":
            r, k, v = rng.choice(ref.rows), rng.choice(ref.columns), round(rng.uniform(-9, 9), 2)
            df.addvalue(r, k, v)
            ref.v[r, k] = v
        elif op == "row":
            r = rng.choice(ref.rows)
            vals = np.round(np_.uniform(-9, 9, len(ref.columns)), 2)
            df.addrow(r, vals if rng.random() < 0.5 else dict(zip(ref.columns, vals)))
            for k, v in zip(ref.columns, vals):
                ref.v[r, k] = v
            ref.fcell = {a: b for a, b in ref.fcell.items() if a[0] != r}
        elif op == "column":
            k = rng.choice(ref.columns)
            vals = np.round(np_.uniform(-9, 9, len(ref.rows)), 2)
            df.addcolumn(k, vals if rng.random() < 0.5 else dict(zip(ref.rows, vals)))
            for r, v in zip(ref.rows, vals):
                ref.v[r, k] = v
            ref.fcell = {a: b for a, b in ref.fcell.items() if a[1] != k}
        elif op == "newrow":
            r = (max(ref.rows) + 1) if ints else "new%d" % len(ref.rows)
            vals = np.round(np_.uniform(-9, 9, len(ref.columns)), 2)
            df.addrow(r, vals if rng.random() < 0.5 else dict(zip(ref.columns, vals)))
            ref.rows.append(r)
            for k, v in zip(ref.columns, vals):
                ref.v[r, k] = v
        elif op == "newcolumn":
            k = (max(ref.columns) + 1) if ints else "new%d" % len(ref.columns)
            vals = np.round(np_.uniform(-9, 9, len(ref.rows)), 2)
            df.addcolumn(k, vals if rng.random() < 0.5 else dict(zip(ref.rows, vals)))
            ref.columns.append(k)
            for r, v in zip(ref.rows, vals):
                ref.v[r, k] = v
        else:
            text, f, n = rng.choice(FORMULAE)
            fr = [r for r in ref.rows if r not in ref.frow]
            fc = [k for k in ref.columns if k not in ref.fcol]
            if op == "frow":
                target = rng.choice([r for r in fr if r not in used_rows] or [None])
                args = rng.sample([r for r in fr if r != target], min(n, len(fr) - 1))
                if target is None or len(args) < n or any(a[0] in args or a[0] == target for a in ref.fcell):
                    continue
                df.addrow_formula(target, text, args if n > 1 or rng.random() < 0.5 else args[0])
                ref.frow[target] = (f, args)
                used_rows.update(args)
            elif op == "fcol":
                target = rng.choice([k for k in fc if k not in used_cols] or [None])
                args = rng.sample([k for k in fc if k != target], min(n, len(fc) - 1))
                if target is None or len(args) < n or any(a[1] in args or a[1] == target for a in ref.fcell):
                    continue
                df.addcolumn_formula(target, text, args if n > 1 or rng.random() < 0.5 else args[0])
                ref.fcol[target] = (f, args)
                used_cols.update(args)
            else:
                tr, tc = rng.choice(fr), rng.choice(fc)
                if tr in used_rows or tc in used_cols or (tr, tc) in ref.fcell:
                    continue
                ra = [r for r in fr if r != tr]
                ca = [k for k in fc if k != tc]
                if not ra or not ca:
                    continue
                ra, ca = [rng.choice(ra) for _ in range(n)], [rng.choice(ca) for _ in range(n)]
                if any(x in ref.fcell for x in zip(ra, ca)):
                    continue
                one = n == 1 and rng.random() < 0.5
                df.addcell_formula(tr, tc, text, ra[0] if one else ra, ca[0] if one else ca)
                ref.fcell[tr, tc] = (f, ra, ca)
                used_rows.update(ra), used_cols.update(ca)
            # a formula of itself is refused
            if rng.random() < 0.3:
                try:
                    if op == "frow":
                        df.addrow_formula(target, "{}+1", [target])
                    elif op == "fcol":
                        df.addcolumn_formula(target, "{}+1", [target])
                    else:
                        df.addcell_formula(tr, tc, "{}+1", [tr], [tc])
                except RuntimeError:
                    c.event("refused")
                else:
                    c.require(False, "sheet:self reference", op)
        history.append(op)
        ref.evaluate()
        compare(op)
        c.event("sheet_" + op)
    c.key("sheet", priority, ints, tuple(history[1:]))
    # to disk and back
    if rng.random() < 0.3:
        df.sort()
        c.require(list(df.df.index) == sorted(ref.rows) and list(df.df.columns) == sorted(ref.columns), "sheet:sorted", lambda: (list(df.df.index), list(df.df.columns)))
        compare("sort")
    path = os.path.join(c.dir, "book.xlsx")
    name = rng.choice(["Sheet1", "results", "My sheet"])
    crit = rng.sample(["outliers", "colorscale", "between", "condition"], rng.randint(0, 2))
    marks = []
    with excel.Writer(path) as w:
        df.writer = w
        df.sheet_name = name
        for what in crit:
            col = rng.random() < 0.6
            idx = rng.choice(ref.columns if col else ref.rows)
            if any(m[2:] == (col, idx) for m in marks):
                continue
            opt = {}
            if what == "outliers":
                opt = rng.choice([{}, {"alpha": 0.5}, {"alpha": 0.5, "out": False}, {"alpha": 0.8, "sided": "single"}, {"alpha": 0.7, "sided": "single", "out": False}])
                df.addcriterium_outliers(idx, column=col, **opt)
            elif what == "colorscale":
                opt = {"colors": rng.choice([None, ["#000000", "#ffffff"]])}
                df.addcriterium_colorscale(idx, column=col, **opt)
            elif what == "between":
                lim = tuple(sorted([rng.uniform(-5, 5), rng.uniform(-5, 5)]))
                lim = rng.choice([lim, (-np.inf, lim[1]), (lim[0], np.inf)])
                opt = {"mode": rng.choice(["between", "notbetween"]), "lim": lim}
                df.addcriterium(idx, {"mode": getattr(df.critereatypes, opt["mode"]), "func": lambda x, lim=lim: lim, "fmt": df.cellformats.select}, column=col)
            else:
                opt = {"op": rng.choice([">", "<", ">=", "<="]), "val": rng.uniform(-3, 3)}
                df.addcriterium(idx, {"mode": df.critereatypes.condition, "operator": opt["op"], "func": lambda x, v=opt["val"]: v, "fmt": df.cellformats.bad}, column=col)
            marks.append((what, opt, col, idx))
        fmt = None
        if rng.random() < 0.4:
            fmt = rng.choice(ref.columns)
            df.addcolumnformat(fmt, df.cellformats.scientific)
        other = None
        if rng.random() < 0.3:
            other = excel.DataFrame(writer=w, sheet_name="other", data=[[1.5]], index=["q"], columns=["z"])
        if rng.random() < 0.5:
            df.save()
        else:
            with df:
                pass
        if other is not None:
            other.save()
    books = excel.DataFrame.fromexcel(path, index_col=0)
    c.require(sorted(books) == sorted([name] + (["other"] if other is not None else [])), "sheet:saved names", lambda: list(books))
    back = books[name]
    c.require(isinstance(back, excel.DataFrame) and back.sheet_name == name, "sheet:type", lambda: back)
    c.require(list(back.df.index) == list(df.df.index) and list(back.df.columns) == list(df.df.columns), "sheet:saved labels", lambda: (list(back.df.index), list(df.df.index)))
    c.require(np.allclose(back.df.values.astype(float), df.df.values.astype(float), rtol=1e-12, atol=1e-12), "sheet:saved values", lambda: (back.df, df.df))
    if other is not None:
        c.require(books["other"].df.shape == (1, 1) and books["other"].df.iloc[0, 0] == 1.5, "sheet:other", lambda: books["other"].df)
    single = excel.DataFrame.fromexcel(path, sheet_name=name, index_col=0)
    c.require(list(single) == [name] and np.array_equal(single[name].df.values, back.df.values), "sheet:one sheet", lambda: single)
    c.require(excel.DataFrame.fromexcel(os.path.join(c.dir, "none.xlsx")) == {}, "sheet:missing file", "")
    c.event("books")
    # formats
    ws = openpyxl.load_workbook(path)[name]
    order_r, order_c = list(df.df.index), list(df.df.columns)
    found = {}
    for rng_ in ws.conditional_formatting:
        found[str(rng_.sqref)] = list(rng_.rules)
    c.require(len(found) == len(marks), "sheet:number of criteria", lambda: (found, marks))
    for what, opt, col, idx in marks:
        if col:
            j = order_c.index(idx) + 2
            cells = [(i + 2, j) for i in range(len(order_r))]
        else:
            i = order_r.index(idx) + 2
            cells = [(i, j + 2) for j in range(len(order_c))]
        a, b = cells[0], cells[-1]
        a1 = lambda q: openpyxl.utils.get_column_letter(q[1]) + str(q[0])
        where = a1(a) if a == b else a1(a) + ":" + a1(b)
        c.require(where in found, "sheet:criterium range", lambda: (where, list(found)))
        rule = found[where][0]
        vals = np.array([ws.cell(*q).value for q in cells], dtype=float)
        c.event("criteria")
        if what == "colorscale":
            n = 2 if opt["colors"] else 3
            c.require(rule.type == "colorScale" and len(rule.colorScale.color) == n, "sheet:color scale", lambda: (rule.type, opt))
            continue
        flagged = np.array([holds(rule, v) for v in vals])
        if what == "outliers":
            alpha = opt.get("alpha", 0.9)
            m, s = np.mean(vals), np.std(vals)
            if opt.get("sided") == "single":
                ref_out = vals > m + scipy.stats.norm.ppf(alpha) * s
                edge = np.abs(vals - (m + scipy.stats.norm.ppf(alpha) * s))
            else:
                h = scipy.stats.norm.ppf(0.5 + alpha / 2) * s
                ref_out = np.abs(vals - m) > h
                edge = np.abs(np.abs(vals - m) - h)
            ref_flag = ref_out if opt.get("out", True) else ~ref_out
        elif what == "between":
            lo, hi = opt["lim"]
            ref_flag = (vals >= lo) & (vals <= hi)
            edge = np.minimum(np.abs(vals - lo), np.abs(vals - hi))
            if opt["mode"] == "notbetween":
                ref_flag = ~ref_flag
        else:
            ref_flag = {">": vals > opt["val"], ">=": vals >= opt["val"], "<": vals < opt["val"], "<=": vals <= opt["val"]}[opt["op"]]
            edge = np.abs(vals - opt["val"])
        ok = edge > 1e-9
        c.require(np.array_equal(flagged[ok], ref_flag[ok]), "sheet:" + what, lambda: (opt, vals, flagged, ref_flag, rule.operator, rule.formula))
        c.event("cells_judged", int(ok.sum()))
    if fmt is not None:
        letter = openpyxl.utils.get_column_letter(order_c.index(fmt) + 2)
        nf = ws.column_dimensions[letter].number_format
        c.require(nf == "0.00E+00", "sheet:column format", lambda: (fmt, nf))


def holds(rule, v):
    f = [float(x) for x in rule.formula]
    return {
        "between": lambda: f[0] <= v <= f[1],
        "notBetween": lambda: not (f[0] <= v <= f[1]),
        "greaterThan": lambda: v > f[0],
        "lessThan": lambda: v < f[0],
        "greaterThanOrEqual": lambda: v >= f[0],
        "lessThanOrEqual": lambda: v <= f[0],
        "equal": lambda: v == f[0],
    }[rule.operator]()


# ---------------------------------------------------------------- colors


def colors(c, rng):
    np_ = c.np
    n = rng.randint(1, 30)
    r, g, b = np_.randint(0, 256, (3, n))
    code = r + 256 * g + 65536 * b
    x = code / float(2**24 - 1)
    if rng.random() < 0.3:
        x, r, g, b = float(x[0]), r[:1], g[:1], b[:1]
    out = colormap.NormalizedToRGB(x)
    c.require(all(np.array_equal(np.atleast_1d(a), e) for a, e in zip(out, (r, g, b))), "color:channels", lambda: (x, out, r, g, b))
    cm = colormap.RGBcolormap()
    alpha = rng.choice([1, 0.5])
    asbytes = rng.random() < 0.5
    rgba = np.atleast_2d(np.array(cm(x, alpha=alpha, bytes=asbytes)))
    f = 1 if asbytes else 255.0
    exp = np.stack([r / f, g / f, b / f, np.full(len(r), alpha)], axis=-1)
    c.require(rgba.shape == exp.shape and np.allclose(rgba, exp), "color:map", lambda: (rgba, exp))
    a, b = np_.uniform(0, 1, 3), np_.uniform(0, 1, 3)
    alpha = rng.choice([None, 0.3])
    lin = colormap.Linearcolormap("lin", tuple(a), tuple(b), alpha=alpha)
    t = np_.uniform(0, 1, 5)
    got = np.asarray(lin(t))
    exp = a + t[:, None] * (b - a)
    c.require(np.allclose(got[:, :3], exp, atol=0.01) and np.allclose(got[:, 3], alpha or 1, atol=0.01), "color:linear", lambda: (a, b, t, got))
    c.event("colors")
    c.key("color", n)


GROUPS = [
    Group("spectra", spectra, 1500, 20000),
    Group("tables", tables, 1500, 20000),
    Group("reports", reports, 800, 10000),
    Group("sheets", sheets, 1200, 12000),
    Group("colors", colors, 300, 5000),
]
MIN_EVENTS = {"spectra": 200, "tables": 200, "books": 100, "cells_judged": 100, "sheet_fcell": 20}
