"""Fourier transforms == their defining sums."""
import numpy as np
from lib.vp import Group
from spectrocrunch.math import ft

ID = "C20"
LEVEL = "exploration"
RULE = (
    "1D and 2D complex signals of 1-14 points per dimension with random spacing, a random sub-range of real "
    "space, default/centred/arbitrary frequencies and both normalizations, against the sums of the definition "
    "evaluated term by term; frequency axes and shifts of every length under both conventions against the "
    "definition; shift theorem, Parseval, inversion on the whole and on a sub-range; "
    "non-trivial when the fast path (numpy) is not the one used"
)
NORM = {"numpy": ft.fftConvention.numpy, "idl": ft.fftConvention.idl}


def kernel(u, x, sign):
    out = np.empty((len(u), len(x)), complex)
    for i in range(len(u)):
        for j in range(len(x)):
            out[i, j] = np.exp(sign * 2j * np.pi * u[i] * x[j])
    return out


def freqs(n, d, conv, centered):
    """definition in the module header"""
    if conv == "numpy":
        ind = [k if k <= (n - 1) // 2 else k - n for k in range(n)]
    else:
        ind = [k if k <= n // 2 else k - n for k in range(n)]
    if centered:
        ind = sorted(ind)
    return np.array(ind) / (n * float(d))


def signal(c, shape):
    k = c.rng.random()
    x = c.np.normal(size=shape)
    if k < 0.6:
        x = x + 1j * c.np.normal(size=shape)
    elif k < 0.75:
        x = c.np.randint(-5, 6, shape)
    return x




def plan(c, rng, nmax):
    n = rng.randint(1, nmax)
    d = rng.choice([1, 1, 0.5, 2, rng.uniform(0.1, 3)])
    return n, d


def close(c, got, exp, sig, **info):
    got = np.asarray(got)
    scale = max(1.0, float(np.max(np.abs(exp))) if np.size(exp) else 1)
    c.require(
        got.shape == exp.shape and np.allclose(got, exp, rtol=1e-8, atol=1e-9 * scale),
        sig, lambda: "{}\n got {}\n exp {}".format(info, got, exp),
    )
    c.event("transforms")


def real_range(rng, n, forward):
    """(x0, x1, indices) of the real space points"""
    if forward:
        k = rng.random()
        if k < 0.5:
            return 0, None, np.arange(n)
        x0 = rng.randint(-6, 6)
        return x0, x0 + n - 1, np.arange(x0, x0 + n)
    k = rng.random()
    if k < 0.3:
        return 0, None, np.arange(n)
    if k < 0.45:
        x0 = rng.randint(-n, n - 1)
        return x0, None, np.arange(x0, n)
    x0 = rng.randint(-n, n)
    x1 = rng.randint(x0, x0 + n)
    return x0, x1, np.arange(x0, x1 + 1)


def frequencies(rng, n, d, forward):
    """(argument, values, centered)"""
    k = rng.random()
    if k < 0.35:
        return [], freqs(n, d, "numpy", False), False
    if k < 0.6:
        return [], freqs(n, d, "numpy", True), True
    m = n if not forward else rng.randint(1, 2 * n)
    u = np.array([rng.uniform(-0.7, 0.7) / d for _ in range(m)])
    return u, u, False


def dft1(c, rng):
    n, d = plan(c, rng, 14)
    forward = rng.random() < 0.5
    norm = rng.choice(list(NORM))
    x0, x1, ind = real_range(rng, n, forward)
    arg, u, centered = frequencies(rng, n, d, forward)
    if rng.random() < 0.4:
        # one argument differs from the default
        keep = rng.choice(["spacing", "range", "frequencies"])
        d = d if keep == "spacing" else 1
        if keep != "range":
            x0, x1, ind = 0, None, np.arange(n)
        if keep != "frequencies":
            arg, u, centered = [], freqs(n, d, "numpy", False), False
        elif not len(arg):
            u = freqs(n, d, "numpy", centered)
    f = signal(c, (n,))
    keep = np.array(f)
    kw = dict(dx=d, x0=x0, x1=x1, u=arg, centered=centered, normconvention=NORM[norm])
    if rng.random() < 0.5 and norm == "numpy":
        kw.pop("normconvention")
    for k, default in (("dx", 1), ("x0", 0), ("x1", None), ("centered", False)):
        if kw[k] is default and rng.random() < 0.5:
            kw.pop(k)
    if not len(arg) and rng.random() < 0.7:
        kw.pop("u")
    got = (ft.fft if forward else ft.ifft)(f, **kw)
    x = ind * d
    if forward:
        exp = kernel(u, x, -1).dot(f)
        if norm == "idl":
            exp = exp / n
    else:
        exp = kernel(x, u, 1).dot(f)
        if norm == "numpy":
            exp = exp / n
    close(c, got, exp, "fft" if forward else "ifft", f=f, kw=kw)
    c.require(np.array_equal(keep, f), "input_changed", lambda: (keep, f))
    if not (d != 1 or x0 or x1 is not None or len(arg) or centered):
        c.trivial()
    c.key(forward, norm, d, x0, x1, u, f)
    c.sample([forward, norm, n, d, x0, x1])


def dft2(c, rng):
    ny, dy = plan(c, rng, 9)
    nx, dx = plan(c, rng, 9)
    if rng.random() < 0.2:
        dx = dy = 1
    forward = rng.random() < 0.5
    norm = rng.choice(list(NORM))
    x0, x1, ix = real_range(rng, nx, forward)
    y0, y1, iy = real_range(rng, ny, forward)
    argu, u, cu = frequencies(rng, nx, dx, forward)
    argv, v, cv = frequencies(rng, ny, dy, forward)
    if rng.random() < 0.4:
        # one argument differs from the default
        keep = rng.choice(["dx", "dy", "x", "y", "u", "v"])
        dx = dx if keep == "dx" else 1
        dy = dy if keep == "dy" else 1
        if keep != "x":
            x0, x1, ix = 0, None, np.arange(nx)
        if keep != "y":
            y0, y1, iy = 0, None, np.arange(ny)
        if keep != "u":
            argu, cu = [], False
        if keep != "v":
            argv, cv = [], False
    # one centering flag for both
    centered = cu or cv
    if not len(argu):
        u = freqs(nx, dx, "numpy", centered)
    if not len(argv):
        v = freqs(ny, dy, "numpy", centered)
    f = signal(c, (ny, nx))
    keep = np.array(f)
    kw = dict(dx=dx, x0=x0, x1=x1, u=argu, dy=dy, y0=y0, y1=y1, v=argv, centered=centered, normconvention=NORM[norm])
    got = (ft.fft2 if forward else ft.ifft2)(f, **kw)
    if forward:
        exp = kernel(v, iy * dy, -1).dot(f).dot(kernel(u, ix * dx, -1).T)
        if norm == "idl":
            exp = exp / (nx * ny)
    else:
        exp = kernel(iy * dy, v, 1).dot(f).dot(kernel(ix * dx, u, 1).T)
        if norm == "numpy":
            exp = exp / (nx * ny)
    close(c, got, exp, "fft2" if forward else "ifft2", shape=(ny, nx), kw=kw)
    c.require(np.array_equal(keep, f), "input_changed", lambda: (keep, f))
    c.key(forward, norm, kw, f)
    c.sample([forward, norm, (ny, nx), (dy, dx), (y0, y1), (x0, x1)])


def shifts(c, rng):
    n = rng.randint(1, 40)
    d = rng.choice([1, 0.5, rng.uniform(0.01, 10)])
    for conv, e in NORM.items():
        got = {}
        for centered in (False, True):
            got[centered] = ft.fftfreq(n, d, centered=centered, freqconvention=e)
            exp = freqs(n, d, conv, centered)
            c.require(
                got[centered].shape == exp.shape and np.allclose(got[centered], exp, rtol=1e-12),
                "fftfreq:" + conv, lambda: (n, d, centered, got, exp),
            )
        imin, imax = ft.fft_freqind(n, freqconvention=e)
        c.require(
            np.isclose(got[True][0], imin / (n * d)) and np.isclose(got[True][-1], imax / (n * d)),
            "fft_freqind:" + conv, lambda: (n, imin, imax, got),
        )
        c.require(np.array_equal(ft.fftshift(got[False], e), got[True]), "fftshift:" + conv, lambda: (n, got))
        c.require(np.array_equal(ft.ifftshift(got[True], e), got[False]), "ifftshift:" + conv, lambda: (n, got))
        shape = tuple(rng.randint(1, 7) for _ in range(rng.randint(1, 3)))
        a = np.arange(int(np.prod(shape))).reshape(shape)
        s = ft.fftshift(a, e)
        for axis, m in enumerate(shape):
            order = np.argsort(freqs(m, 1, conv, False), kind="stable")
            a = np.take(a, order, axis=axis)
        c.require(np.array_equal(s, a), "fftshift:nd", lambda: (shape, s, a))
        b = ft.ifftshift(s, e)
        c.require(np.array_equal(b, np.arange(a.size).reshape(shape)), "ifftshift:nd", lambda: (shape, b))
        c.event("axes")
    c.key(n, d)
    if n < 2:
        c.trivial()


def laws(c, rng):
    """inversion on a window, shift theorem, Parseval"""
    ny, dy = plan(c, rng, 10)
    nx, dx = plan(c, rng, 10)
    norm = rng.choice(list(NORM))
    centered = rng.random() < 0.5
    f = signal(c, (ny, nx)).astype(complex)
    kw = dict(dx=dx, dy=dy, centered=centered, normconvention=NORM[norm])
    F = ft.fft2(f, **kw)
    x0 = rng.randint(0, nx - 1)
    x1 = rng.randint(x0, nx - 1)
    y0 = rng.randint(0, ny - 1)
    y1 = rng.randint(y0, ny - 1)
    close(c, ft.ifft2(F, x0=x0, x1=x1, y0=y0, y1=y1, **kw), f[y0 : y1 + 1, x0 : x1 + 1], "window", norm=norm, win=(y0, y1, x0, x1))
    close(c, ft.ifft2(F, **kw), f, "inversion", norm=norm)
    close(c, ft.fft2(ft.ifft2(f, **kw), **kw), f, "inversion2", norm=norm)
    g = np.roll(f, (rng.randint(0, ny), 1), axis=(0, 1))
    p = np.abs(F)
    close(c, np.abs(ft.fft2(g, **kw)), p, "shift_theorem", norm=norm)
    energy = (np.abs(f) ** 2).sum() * (f.size if norm == "numpy" else 1.0 / f.size)
    c.require(np.isclose((p**2).sum(), energy), "parseval", lambda: ((p**2).sum(), energy))
    # rows of a one-dimensional transform
    i = rng.randrange(ny)
    F1 = ft.fft(f[i], dx=dx, centered=centered, normconvention=NORM[norm])
    F2 = ft.fft2(f[i : i + 1], dx=dx, dy=dy, centered=centered, normconvention=NORM[norm])
    close(c, F2[0], F1, "1D_2D", norm=norm)
    c.key(norm, centered, dx, dy, f)


GROUPS = [
    Group("dft1", dft1, 6000, 150000),
    Group("dft2", dft2, 4000, 80000),
    Group("shifts", shifts, 1000, 10000),
    Group("laws", laws, 1500, 30000),
]
