"""Scratch folders, and the files the drivers write."""
import contextlib
import json
import os
import shutil
import tempfile

from mc.engine import Violation


@contextlib.contextmanager
def scratch(data=True):
    """An empty working directory, removed afterwards."""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="vp-mc-")
    os.chdir(d)
    try:
        if data:
            os.mkdir("data")
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def outputs():
    """All files below the working directory, by relative path."""
    out = []
    for root, _, names in os.walk("."):
        out += [os.path.relpath(os.path.join(root, x)) for x in names]
    return sorted(out)


def read_table(path):
    """Header (JSON) and rows of numbers (strings) of a file written with np.savetxt."""
    with open(path) as f:
        lines = f.read().splitlines()
    if not lines or not lines[0].startswith("#"):
        raise Violation("%s has no header line" % path)
    try:
        head = json.loads(lines[0].lstrip("#"))
    except ValueError as e:
        raise Violation("the header of %s is not JSON (%s): %s" % (path, e, lines[0][:200]))
    rows = []
    for x in lines[1:]:
        if x.startswith("#"):
            raise Violation("second header line in %s" % path)
        try:
            rows.append([float(y) for y in x.split()])
        except ValueError:
            raise Violation("a line of %s is not a row of numbers: %s" % (path, x[:200]))
    return head, rows
