import glob
import os
import re
from pathlib import Path


def done(filename):
    return [{"data": None, "axes": [], "metadata": {"General": {"original_filename": os.path.split(filename)[1]}}, "original_metadata": {}}]


def bad_reader_slice(filename, lazy=False):
    with open(filename[:-4] + ".raw", "rb") as f:
        f.read()
    return done(filename)


def bad_reader_in(filename, lazy=False):
    if "movie" in filename:
        return done(filename)
    return done(filename)


def bad_reader_method(filename, lazy=False):
    ext = filename.lower().rpartition(".")[-1]
    return done(filename) if ext else []


class Thing:
    def __init__(self, path):
        self.path = path

    def ext(self):
        return self.path.split(".")[-1]


def bad_reader_attribute(filename, lazy=False):
    Thing(filename).ext()
    return done(filename)


def bad_reader_refuse(filename, lazy=False):
    if not isinstance(filename, str):
        raise TypeError("a string is needed")
    return done(filename)


def bad_reader_else(filename, lazy=False):
    if isinstance(filename, str):
        head = filename
    elif isinstance(filename, bytes):
        head = filename.decode()
    else:
        raise TypeError("neither")
    return done(head)


def bad_reader_add(filename, lazy=False):
    return done(filename + ".x")


def bad_reader_re(filename, lazy=False):
    m = re.match(r"(.*)_[0-9]", filename)
    return done(m.group(1))


def bad_reader_glob(filename, lazy=False):
    return done(sorted(glob.glob(filename))[0])


def bad_reader_path_only(filename, lazy=False):
    return done(filename.with_suffix(".raw"))


def bad_reader_div(filename, lazy=False):
    return done(filename / "x")


def bad_reader_returned(filename, lazy=False):
    return [{"data": None, "axes": [], "metadata": {"General": {"original_filename": Path(filename)}}, "original_metadata": {}}]


def bad_reader_helper(filename, lazy=False):
    def stem(name):
        return name.rsplit(".", 1)[0]
    return done(stem(filename))


def good_reader_str(filename, lazy=False):
    filename = str(filename)
    return done(filename[:-4] + ".raw")


def good_reader_fspath(filename, lazy=False):
    name = os.fspath(filename)
    if "movie" in name:
        return done(name.lower())
    return done(f"{filename}.x")


def good_reader_convert(filename, lazy=False):
    if isinstance(filename, Path):
        filename = str(filename)
    return done(filename.rpartition(".")[0])


def good_reader_convert2(filename, lazy=False):
    if not isinstance(filename, Path):
        filename = Path(filename)
    return done(filename.with_suffix(".raw"))


def good_reader_split(filename, lazy=False):
    base, ext = os.path.splitext(filename)
    if ext[1:].lower() == "raw":
        base += "_1"
    return done(base + ext)


def good_reader_check(filename, lazy=False):
    if not isinstance(filename, (str, os.PathLike)):
        raise TypeError("a file name is needed")
    return done(filename)


def good_reader_fallback(filename, lazy=False):
    try:
        ext = filename.suffix
    except AttributeError:
        ext = os.path.splitext(filename)[1]
    return done(str(filename) + ext)


def good_reader_glob(filename, lazy=False):
    return done(sorted(Path(filename).parent.glob("*.x"))[0])


def good_reader_percent(filename, lazy=False):
    print("%s and {}".format(filename) % filename)
    return done("%s.x" % filename)
