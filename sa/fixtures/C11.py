def bad_eof(filename):
    with open(filename, encoding="utf-8") as f:
        line = f.readline()
        while line.strip() == "":
            line = f.readline()
    return line


def bad_offset(filename):
    with open(filename, "rb") as f:
        data = f.read()
    i = 0
    while i < len(data):
        size = data[i]
        i += size
    return i


def bad_skip(filename):
    with open(filename, "rb") as f:
        data = f.read()
    i = 0
    while i < len(data):
        if data[i] == 0:
            continue
        i += 1
    return i


def good_eof(filename):
    with open(filename, encoding="utf-8") as f:
        while True:
            line = f.readline()
            if not line:
                break
            if line.strip():
                return line


def good_offset(filename):
    with open(filename, "rb") as f:
        data = f.read()
    i = 0
    while i < len(data):
        size = data[i]
        if size < 1:
            raise ValueError
        i += size
    return i


def _step(i, n):
    return i + n + 1


def good_helper(filename, n=3):
    i = 0
    while i < 10:
        i = _step(i, n)
    return i
