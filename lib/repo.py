"""Loads the code under test from /repo's working tree (never a copy) and, for the modules that read ICU's data
package, points it at a package assembled from /verif/data (the repository does not ship icudata.dat)."""

import atexit
import _io
import builtins
import importlib
import io
import lzma
import os
import struct
import sys
import tempfile
import types
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
sys.path[:] = [REPO] + [p for p in sys.path if p != REPO]

DATA_PATH = None   # where reads of Data/icudata.dat are sent
_real_open = builtins.open
_real_fileio = io.FileIO
_real_os = {n: getattr(os, n) for n in ("open", "stat", "access")}
_installed = False
_use_installed = False


def read_data(name):
    with lzma.open(os.path.join(DATA, name)) as f:
        return f.read()


def build_package(items, header_extra=0, prefix="icudt74l/", align=16, copyright=b"", version=(1, 0, 0, 0), order="sorted"):
    """An ICU data package (.dat, 'CmnD') with the given items: a dict or list of (name, bytes)."""
    items = list(items.items()) if isinstance(items, dict) else list(items)
    if order == "sorted":
        items.sort()
    hlen = (24 + len(copyright) + 1 + header_extra + 15) & ~15
    head = struct.pack("<HBBHHBBBB4s4B4B", hlen, 0xda, 0x27, 20, 0, 0, 0, 2, 0, b"CmnD", *version, 3, 0, 0, 0)
    head += copyright
    head += b"\0" * (hlen - len(head))
    toc = 4 + 8 * len(items)
    names = b""
    noffs = []
    for n, _ in items:
        noffs.append(toc + len(names))
        names += (prefix + n).encode("latin-1") + b"\0"
    body = bytearray(struct.pack("<I", len(items)))
    pos = (toc + len(names) + align - 1) // align * align
    offs = []
    for _, d in items:
        offs.append(pos)
        pos = (pos + len(d) + align - 1) // align * align
    for no, do in zip(noffs, offs):
        body += struct.pack("<II", no, do)
    body += names
    for do, (_, d) in zip(offs, items):
        body += b"\0" * (do - len(body)) + d
    return bytes(head) + bytes(body)


REAL_ITEMS = ("unames.icu", "ulayout.icu", "nfkc.nrm", "nfkc_cf.nrm")


def real_package():
    return build_package({n: read_data("icu/" + n + ".xz") for n in REAL_ITEMS})


def _is_datafile(path):
    try:
        return os.path.basename(os.fspath(path)) in ("icudata.dat", b"icudata.dat")
    except TypeError:
        return False


def _open(file, *a, **k):
    if DATA_PATH is not None and not isinstance(file, int) and _is_datafile(file):
        file = DATA_PATH
    return _real_open(file, *a, **k)


def _redirected(fn):
    def call(path, *a, **k):
        if DATA_PATH is not None and not isinstance(path, int) and _is_datafile(path):
            path = DATA_PATH
        return fn(path, *a, **k)
    return call


class _FileIOType(type(io.FileIO)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_fileio)


class _FileIO(io.FileIO, metaclass=_FileIOType):
    def __init__(self, file, *a, **k):
        if DATA_PATH is not None and not isinstance(file, int) and _is_datafile(file):
            file = DATA_PATH
        super().__init__(file, *a, **k)


def use_installed():
    """From now on, the data file in REPO (a copy of the package that has one) is what install_data() installs."""
    global _use_installed
    _use_installed = True


def install_data(package=None):
    """From now on, reading the package's Data/icudata.dat reads `package` (bytes; default: the real ICU items)."""
    global DATA_PATH, _installed
    if not _installed:
        builtins.open = _open
        io.open = _open
        io.FileIO = _io.FileIO = _FileIO
        io.open_code = _io.open_code = _redirected(io.open_code)   # importlib's loaders, so pkgutil.get_data
        for n, fn in _real_os.items():
            setattr(os, n, _redirected(fn))
        try:
            import pkg_resources
        except ImportError:
            pkg_resources = None
            stub = types.ModuleType("pkg_resources")
            stub.resource_filename = lambda pkg, res: os.path.join(REPO, pkg.replace(".", "/"), res)
            sys.modules["pkg_resources"] = stub
        _installed = True
    if package is None:
        if _use_installed:
            DATA_PATH = None
            return os.path.join(REPO, "UnicodeData", "Data", "icudata.dat")
        package = real_package()
    fd, path = tempfile.mkstemp(prefix="verif-icu-", suffix=".bin")
    with os.fdopen(fd, "wb") as f:
        f.write(package)
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and os.path.exists(path) and os.unlink(path))
    DATA_PATH = path
    return path


def drop_modules():
    """Forget every UnicodeData module, so that the next import starts from a fresh process-like state."""
    for n in [n for n in sys.modules if n == "UnicodeData" or n.startswith("UnicodeData.")]:
        del sys.modules[n]


def mod(name):
    m = importlib.import_module("UnicodeData." + name)
    if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"{m.__name__} was loaded from {m.__file__}, not from {REPO}")
    return m


def builder(name):
    """A module of module_builder (which are scripts, imported by their bare names)."""
    path = os.path.join(REPO, "module_builder")
    if path not in sys.path:
        sys.path.insert(1, path)
    if "FontDocTools.ArgumentIterator" not in sys.modules:
        # FontDocTools is not installed here: the documented behaviour of its argument iterator, enough for build().
        class ArgumentIterator:
            def __init__(self, args):
                self._args = list(args)

            def __iter__(self):
                return self

            def __next__(self):
                if not self._args:
                    raise StopIteration
                return self._args.pop(0)

            def nextExtra(self, what):
                if not self._args:
                    raise ValueError(f"Missing {what}.")
                return self._args.pop(0)

        pkg = types.ModuleType("FontDocTools")
        sub = types.ModuleType("FontDocTools.ArgumentIterator")
        sub.ArgumentIterator = ArgumentIterator
        pkg.ArgumentIterator = sub
        sys.modules.setdefault("FontDocTools", pkg)
        sys.modules["FontDocTools.ArgumentIterator"] = sub
    return importlib.import_module(name)
