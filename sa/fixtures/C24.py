def good_reader_append(filename, lazy=False):
    import numpy as np
    d = np.fromfile(filename)
    axes = []
    axes.append({"scale": 1, "offset": 0, "size": 3})
    axes[-1]["units"] = "eV"
    axes[-1]["name"] = "E"
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def good_reader_append2(filename, lazy=False):
    import numpy as np
    d = np.fromfile(filename)
    axes = []
    cal = {"scale": 1, "offset": 0, "size": 3}
    axes.append({"units": "eV", "name": "E"})
    axes[-1].update(cal)
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def helper(data):
    axes = []
    cal = {"scale": 1, "offset": 0, "size": 3}
    if data:
        axes.append({"units": "eV", "name": "E"})
        axes[-1].update(cal)
    else:
        axes.append({"units": "eV", "name": "F"})
        axes[-1].update(cal)
    return axes
def good_reader_helper(filename, lazy=False):
    import numpy as np
    d = np.fromfile(filename)
    axes = helper(d.size)
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def bad_reader_if(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ax = {"scale": 1, "offset": 0, "size": 3, "name": "x"}
    if a:
        ax["units"] = "nm"
    return [{"data": d, "axes": [ax], "metadata": {}, "original_metadata": {}}]
def bad_reader_elif(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ax = {"scale": 1, "offset": 0, "size": 3, "name": "x"}
    if a == 1:
        ax["units"] = "nm"
    elif a == 2:
        ax.update(units="m")
    elif a == 3:
        ax.setdefault("units", "m")
    return [{"data": d, "axes": [ax], "metadata": {}, "original_metadata": {}}]
def good_reader_else(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ax = {"scale": 1, "offset": 0, "size": 3, "name": "x"}
    if a == 1:
        ax["units"] = "nm"
    elif a == 2:
        ax.update(units="m")
    elif a == 3:
        ax.setdefault("units", "m")
    else:
        ax |= {"units": "k"}
    return [{"data": d, "axes": [ax], "metadata": {}, "original_metadata": {}}]
def good_reader_try(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ax = {"scale": 1, "offset": 0, "size": 3, "name": "x"}
    try:
        ax["units"] = str(d[0])
    except IndexError:
        ax["units"] = ""
    return [{"data": d, "axes": [ax], "metadata": {}, "original_metadata": {}}]
def bad_reader_try(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ax = {"scale": 1, "offset": 0, "size": 3, "name": "x"}
    try:
        ax["units"] = str(d[0])
    except IndexError:
        pass
    return [{"data": d, "axes": [ax], "metadata": {}, "original_metadata": {}}]
def good_reader_loop(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    axes = [{"scale": 1, "offset": 0, "size": n} for n in d.shape]
    for i, n in enumerate("xyz"):
        axes[i]["name"] = n
        axes[i]["units"] = ""
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def good_reader_loop2(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    axes = [{"scale": 1, "offset": 0, "size": n} for n in d.shape]
    for ax in axes:
        ax["name"] = "f"
        if a:
            ax["units"] = "s"
        else:
            ax["units"] = ""
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def bad_reader_loop2(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    axes = [{"scale": 1, "offset": 0, "size": n} for n in d.shape]
    for ax in axes:
        ax["name"] = "f"
        if a:
            ax["units"] = "s"
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def bad_reader_loop3(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    axes = []
    for n in d.shape:
        ax = {"scale": 1, "offset": 0, "size": n}
        ax["name"] = "f"
        if n == 3:
            ax["units"] = "s"
        axes.append(ax)
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def bad_reader_empty(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    axes = []
    for n in d.shape:
        ax = {}
        ax["scale"] = 1
        ax["offset"] = 1
        ax["size"] = 1
        ax["name"] = "f"
        if n == 3:
            ax["units"] = "s"
        axes.append(ax)
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def good_reader_slots(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    axes = [{}] * d.ndim
    for i, n in enumerate(d.shape):
        axes[i] = {"scale": 1, "offset": 0, "size": n, "name": "x", "units": ""}
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def good_reader_slots2(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    axes = [{} for _ in d.shape]
    for i, n in enumerate(d.shape):
        axes[i]["scale"] = 1
        axes[i]["offset"] = 1
        axes[i]["size"] = 1
        axes[i]["name"] = 1
        axes[i]["units"] = 1
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def _fill(ax, n):
    ax["name"] = n
    ax["units"] = ""
def good_reader_fill(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    axes = [{"scale": 1, "offset": 0, "size": n} for n in d.shape]
    for i, n in enumerate("xyz"):
        _fill(axes[i], n)
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def _fill_bad(ax, n):
    ax["name"] = n
    if n == "x":
        ax["units"] = ""
def bad_reader_fill(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ax = {"scale": 1, "offset": 0, "size": 3}
    _fill_bad(ax, filename)
    return [{"data": d, "axes": [ax], "metadata": {}, "original_metadata": {}}]
def bad_reader_ds(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ds = {"data": d, "axes": []}
    ds["metadata"] = {}
    if a:
        ds["original_metadata"] = {}
    return [ds]
def bad_reader_ds2(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ds = {"data": d, "axes": [], "metadata": {}}
    if a:
        return [ds]
    ds["original_metadata"] = {}
    return [ds]
def good_reader_dry(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ds = {"data": d, "axes": [], "metadata": {}}
    if a:
        return []
    ds["original_metadata"] = {}
    return [ds]
def good_reader_while(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    axes = [{"scale": 1, "offset": 0, "size": n} for n in d.shape]
    i = 0
    while i < 3:
        axes[i]["name"] = "a"
        axes[i]["units"] = ""
        i += 1
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def good_reader_copy(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    base = {"scale": 1, "offset": 0, "size": 2}
    base["name"] = "x"
    base["units"] = "x"
    ax = dict(base)
    ax["size"] = 3
    ay = base.copy()
    az = {**base, "size": 4}
    return [{"data": d, "axes": [ax, ay, az], "metadata": {}, "original_metadata": {}}]
def bad_reader_copy(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    base = {"scale": 1, "offset": 0, "size": 2}
    base["name"] = "x"
    if a:
        base["units"] = "x"
    ax = dict(base)
    ax["size"] = 3
    return [{"data": d, "axes": [ax], "metadata": {}, "original_metadata": {}}]
def bad_reader_pop(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ax = {"scale": 1, "offset": 0, "size": 2, "name": "x", "units": "y"}
    if a:
        ax.pop("units")
    return [{"data": d, "axes": [ax], "metadata": {}, "original_metadata": {}}]
def bad_reader_del(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ds = {"data": d, "axes": [], "metadata": {}, "original_metadata": {}}
    del ds["original_metadata"]
    return [ds]
def bad_reader_none(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    if a:
        return [{"data": d, "axes": [], "metadata": {}, "original_metadata": {}}]
def bad_reader_dict(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    return {"data": d, "axes": [], "metadata": {}, "original_metadata": {}}
def bad_reader_tuple(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    return ({"data": d, "axes": [], "metadata": {}, "original_metadata": {}},)
class R:
    def __init__(self, f):
        self.axes = []
        self.f = f
    def add(self, n):
        ax = {"name": n}
        self.axes.append(ax)
        self.fill(ax)
    def fill(self, ax):
        ax["units"] = ""
        ax["scale"] = 1
        ax["offset"] = 1
        ax["size"] = 1
def good_reader_cls(filename, lazy=False, a=0):
    import numpy as np
    r = R(filename)
    r.add("x")
    return [{"data": np.fromfile(filename), "axes": r.axes, "metadata": {}, "original_metadata": {}}]
def good_reader_compr(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    names = ["x", "y"]
    axes = [{"name": n, "size": s, "scale": 1, "offset": 0, "units": "nm" if a else "m"} for n, s in zip(names, d.shape)]
    return [dict(data=d, axes=axes, metadata={}, original_metadata={})]
def good_reader_zip(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    keys = ("name", "size", "scale", "offset", "units")
    axes = [dict(zip(keys, v)) for v in d]
    return [dict(data=d, axes=axes, metadata={}, original_metadata={})]
def good_reader_popback(filename, lazy=False, a=0):
    import numpy as np
    d = np.fromfile(filename)
    ax = {"scale": 1, "offset": 0, "size": 2, "name": "x", "units": "y"}
    u = ax.pop("units")
    ax["units"] = u + "m"
    extra = {"units": 1, "b": 2}
    extra.pop("units")
    return [{"data": d, "axes": [ax], "metadata": extra, "original_metadata": {}}]
def part(x):
    ax = {"scale": 1, "offset": 0, "size": 3}
    ax["name"] = x["name"]
    ax["units"] = x["units"]
    return ax
def good_reader_skip(filename, lazy=False):
    import numpy as np
    d = np.fromfile(filename)
    axes = []
    for x in d:
        try:
            axes.append(part(x))
        except KeyError:
            continue
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def good_reader_skip2(filename, lazy=False):
    import numpy as np
    d = np.fromfile(filename)
    axes = []
    for x in d:
        try:
            ax = {"scale": 1, "offset": 0, "size": 3}
            ax["name"] = x["name"]
            ax["units"] = x["units"]
            axes.append(ax)
        except KeyError:
            continue
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def bad_reader_skip3(filename, lazy=False):
    import numpy as np
    d = np.fromfile(filename)
    axes = []
    for x in d:
        try:
            ax = {"scale": 1, "offset": 0, "size": 3}
            axes.append(ax)
            ax["name"] = x["name"]
            ax["units"] = x["units"]
        except KeyError:
            continue
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
def good_reader_skip4(filename, lazy=False):
    import numpy as np
    d = np.fromfile(filename)
    axes = []
    for x in d:
        ax = {"scale": 1, "offset": 0, "size": 3}
        ax["name"] = x["name"]
        if x["h"]:
            continue
        ax["units"] = x["units"]
        axes.append(ax)
    return [{"data": d, "axes": axes, "metadata": {}, "original_metadata": {}}]
