"""A ghost file system: what pathlib, yaml and torch.save / torch.load are assumed to do.
Names may contain the text of symbolic integers (engine.sym.token)."""
import posixpath
import re
from engine import tstub
from engine.sym import ENG


class Handle:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self):
        if "r" not in self.mode:
            raise OSError("not readable")
        return self.fs.read(self.name)

    def write(self, x):
        if not set(self.mode) & set("wax"):
            raise OSError("not writable")
        self.fs.write(self.name, x, self.mode)


class FS:
    """read / write / listdir / exists / mkdir / save / load are overridden by the contract"""
    def __init__(self, w):
        # modules are loaded once and the contract runs once per path: dispatch to the current one
        if "pathlib" in w.stubs and hasattr(w.stubs["pathlib"], "current"):
            w.stubs["pathlib"].current[0] = self
            return
        cur = [self]

        class fs:
            def __getattr__(self, n):
                return getattr(cur[0], n)
        fs = fs()

        class Path:
            def __init__(self, *parts):
                self.s = posixpath.normpath(posixpath.join(*[str(p) for p in parts])) if parts else "."

            def __truediv__(self, o):
                return Path(self.s, o)

            def joinpath(self, *o):
                return Path(self.s, *o)

            def __str__(self):
                return self.s
            __fspath__ = as_posix = __str__

            def __repr__(self):
                return "Path(%r)" % self.s

            def __eq__(self, o):
                return isinstance(o, Path) and self.s == o.s

            def __hash__(self):
                return hash(self.s)

            name = property(lambda self: posixpath.basename(self.s))
            parent = property(lambda self: Path(posixpath.dirname(self.s) or "."))
            parts = property(lambda self: tuple(self.s.split("/")))
            stem = property(lambda self: posixpath.splitext(self.name)[0])
            suffix = property(lambda self: posixpath.splitext(self.name)[1])

            def open(self, mode="r", *a, **k):
                return Handle(fs, self.s, mode)

            def read_text(self, *a, **k):
                return fs.read(self.s)

            def write_text(self, x, *a, **k):
                fs.write(self.s, x, "w")

            def exists(self):
                return fs.exists(self.s)

            def is_dir(self):
                return fs.is_dir(self.s)

            def is_file(self):
                return fs.exists(self.s) and not fs.is_dir(self.s)

            def replace(self, o):
                fs.replace(self.s, str(o))
                return Path(str(o))

            def unlink(self, missing_ok=False):
                fs.unlink(self.s)

            def iterdir(self):
                return [Path(self.s, n) for n in fs.listdir(self.s)]

            def glob(self, pat):
                import fnmatch
                return [p for p in self.iterdir() if fnmatch.fnmatchcase(p.name, pat)]

            def mkdir(self, mode=0o777, parents=False, exist_ok=False):
                fs.mkdir(self.s, parents, exist_ok)
        self.Path = Path
        pl = tstub.stub("pathlib")
        pl.Path = Path
        pl.current = cur
        w.stubs["pathlib"] = pl
        y = w.stubs["yaml"]
        y.safe_load = y.full_load = lambda f: f.read()
        y.load = lambda f, Loader=None: f.read()
        y.safe_dump = y.dump = lambda x, f, **k: f.write(x)
        t = w.stubs["torch"]
        t.save = lambda x, p, *a, **k: fs.save(str(p), x)
        t.load = lambda p, *a, **k: fs.load(str(p))
        w.stubs["open"] = lambda p, mode="r", *a, **k: Handle(fs, str(p), mode)

    def exists(self, name):
        return True

    def is_dir(self, name):
        return "." not in posixpath.basename(name)

    def mkdir(self, name, parents, exist_ok):
        pass
