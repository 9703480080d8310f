"""Source processes and tasks for the pipeline monitors."""
import os
import numpy as np
from spectrocrunch.io import nxfs
from spectrocrunch.process import nxprocess, utils


def make_source(filename, rs, shape=(2, 4, 5), groups=None, data=None, name="raw.1", axes=None, entry=None,
                dtype=np.float32, parameters=None, axunits=("", "um", "um")):
    """NXprocess with regular-grid data; returns (nxprocess, {group: {signal: array}}, axes)

    :param data: callable(group, signal, shape) -> array
    """
    if entry is None:
        entry = nxfs.Path("/", h5file=filename).nxroot().new_nxentry()
    proc = entry.nxprocess(name, parameters=parameters or {"name": "raw", "seed": int(rs.randint(0, 10**6))})
    if groups is None:
        groups = {"detector00": ["Fe-K", "Si-K", "S-K"], "counters": ["arr_iodet", "arr_idet"]}
    if axes is None:
        axes = []
        for n, label, u in zip(shape, ["x", "y", "z", "w"], axunits):
            axes.append((label, np.arange(n) * 2.0 + 1, {"units": u} if u else None))
    out = {}
    for group, signals in groups.items():
        nxdata = proc.results.nxdata(group)
        out[group] = {}
        for signal in signals:
            if data is None:
                arr = rs.randint(1, 50, shape).astype(dtype) / 4
            else:
                arr = np.asarray(data(group, signal, shape), dtype=dtype)
            nxdata.add_signal(signal, data=arr)
            out[group][signal] = arr
        nxdata.set_axes(*axes)
    return proc, out, axes


def task(source, **parameters):
    dep = utils.nxpathtotask(source) if source is not None else None
    return utils.create_task(dependencies=dep, **parameters)


def read_result(proc):
    """{group: {signal: array}}, {axis: values}"""
    data, axes = {}, {}
    for nxdata in proc.results.iter_is_nxclass("NXdata"):
        if nxdata.islink:
            continue
        data[nxdata.name] = {s.name: s.read() for s in nxdata.signals if s is not None}
        axes[nxdata.name] = [(name, v) for name, v, _ in nxdata.axes]
    return data, axes


class Toy(nxprocess.Task):
    """Task which writes `n` datasets; `hook(step)` is called around every write"""

    hook = None

    def _parameters_defaults(self):
        super(Toy, self)._parameters_defaults()
        self.required_parameters |= {"value", "n"}
        self.optional_parameters |= {"files"}

    def _call(self, step):
        if self.hook is not None:
            self.hook(step)

    def _execute(self):
        n = self.parameters["n"]
        self._call(("begin", 0))
        results = self.temp_nxresults
        nxdata = results.nxdata("data")
        for i in range(n):
            self._call(("before", i))
            nxdata.add_signal(name="s{}".format(i), data=np.full(4, self.parameters["value"] + i, dtype=float))
            if self.parameters.get("files"):
                d = self.temp_localpath.mkdir()
                with open(os.path.join(d.path, "f{}.txt".format(i)), "w") as f:
                    f.write("v{}".format(self.parameters["value"]))
            self._call(("after", i))
        self._call(("end", n))


def toy(name, value, n, outputparent=None, dependencies=None, hook=None, **kw):
    t = Toy(method="toy", name=name, value=value, n=n, outputparent=outputparent, dependencies=dependencies, **kw)
    t.hook = hook
    return t


def toy_complete(path, value, n):
    """The output is exactly what an undisturbed run produces"""
    if not path.exists:
        return False
    d = path["results"]["data"]
    if not d.exists:
        return False
    names = {s.name for s in nxfs.factory(d.location).signals}
    if names != {"s{}".format(i) for i in range(n)}:
        return False
    return all(np.array_equal(d["s{}".format(i)].read(), np.full(4, value + i, dtype=float)) for i in range(n))
