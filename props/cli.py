"""A small world for shrinko8's command line: files in memory (whose contents may be symbolic), captured output.
Nothing reaches the real file system but reads of shrinko8's own resources (templates, fonts)."""
import os, sys, builtins
import utils
import pico_process, pico_cart, pico_export, pico_compress, picotron_cart, picotron_export, picotron_defs, run_shrinko
from pico_defs import Language

MODULES = [utils, pico_process, pico_cart, pico_export, pico_compress, picotron_cart, picotron_export, picotron_defs, run_shrinko]

def norm(path): return os.path.normpath(str(path))

class File:
    """an open file of the disk"""
    def __init__(s, disk, path, mode, encoding=None, errors=None, newline=None):
        s.disk, s.path, s.mode, s.enc, s.errors, s.pos = disk, path, mode, encoding, errors, 0
        if "r" in mode:
            if path not in disk.files: raise FileNotFoundError(2, "no such file", path)
            s.data = disk.files[path]
            if "b" in mode:
                if not is_bytes(s.data): s.data = s.data.encode("utf-8")
            else:
                if is_bytes(s.data): s.data = s.data.decode(encoding, errors or "strict")
                if newline is None: s.data = s.data.replace("\r\n", "\n").replace("\r", "\n")
                elif newline not in ("", "\n"): raise ValueError(newline)
        else:
            if newline not in (None, "", "\n"): raise ValueError(newline)
            if os.path.dirname(path) and norm(os.path.dirname(path)) not in disk.dirs: raise FileNotFoundError(2, "no such directory", path)
            if path in disk.dirs: raise IsADirectoryError(21, "is a directory", path)
            if "a" not in mode: disk.files[path] = b"" if "b" in mode else ""
            disk.log.append(path)
    def read(s, n=-1):
        r = s.data[s.pos:] if n is None or n < 0 else s.data[s.pos:s.pos + n]
        s.pos += len(r)
        return r
    def seek(s, pos, whence=0): s.pos = pos if whence == 0 else s.pos + pos if whence == 1 else len(s.data) + pos
    def tell(s): return s.pos
    def write(s, x):
        if is_bytes(x) != ("b" in s.mode): raise TypeError("wrong kind of data")
        old = s.disk.files[s.path]
        s.disk.files[s.path] = old + x if len(old) else x
        return len(x)
    def flush(s): pass
    def close(s): pass
    def __enter__(s): return s
    def __exit__(s, *a): pass

def is_bytes(x): return not isinstance(x, str)

class Std:
    """stdin or stdout"""
    def __init__(s, text=None): s.data, s.buffer, s.out = text, s, []
    def reconfigure(s, **k): pass
    def read(s, n=-1): return s.data
    def write(s, x): s.out.append(x)
    def flush(s): pass

class Sys:
    def __init__(s, **k): s.__dict__.update(k)
    def __getattr__(s, name): return getattr(sys, name)

class Disk:
    def __init__(s, files=None, dirs=(), stdin=None):
        s.files = {norm(k): v for k, v in (files or {}).items()}
        s.dirs = set(norm(d) for d in dirs)
        s.dirs.add(".")
        s.log, s.out, s.err = [], [], []
        s.stdin, s.stdout = Std(stdin), Std()
        s.removed = []
    def open(s, path, mode="r", encoding=None, errors=None, newline=None, **k):
        p = norm(path)
        if "r" in mode and p not in s.files and os.path.isabs(p) and p.startswith(os.path.dirname(os.path.abspath(utils.__file__)) + os.sep):
            return builtins.open(path, mode, encoding=encoding, errors=errors, newline=newline)   # a resource
        return File(s, p, mode, encoding, errors, newline)
    def exists(s, path): return s.is_file(path) or s.is_dir(path)
    def is_file(s, path): return norm(path) in s.files
    def is_dir(s, path): return norm(path) in s.dirs
    def create(s, path, delete_existing=False):
        p = norm(path)
        if delete_existing:
            s.removed.append(p)
            for k in [k for k in s.files if k.startswith(p + "/")]: del s.files[k]
            for k in [k for k in s.dirs if k.startswith(p + "/")]: s.dirs.discard(k)
        while p and p not in s.dirs:
            s.dirs.add(p)
            p = os.path.dirname(p)
    def names(s, path):
        p = norm(path)
        if p not in s.dirs: raise FileNotFoundError(2, "no such directory", path)
        pre = "" if p == "." else p + "/"
        return sorted({k[len(pre):].split("/")[0] for k in list(s.files) + list(s.dirs) if k.startswith(pre) and k != p and k != "."})
    def paths(s, path): return [os.path.join(path, n) for n in s.names(path)]
    def try_names(s, path, defval=None):
        try: return s.names(path)
        except OSError: return defval
    def try_paths(s, path, defval=None):
        try: return s.paths(path)
        except OSError: return defval
    def print(s, *a, sep=" ", end="\n", file=None, flush=False):
        (s.out if file is None else s.err).append([x if isinstance(x, str) else str(x) for x in a])
    def eprint(s, *a, **k): s.err.append([str(x) for x in a])
    def __enter__(s):
        fakes = {"open": s.open, "path_exists": s.exists, "path_is_file": s.is_file, "path_is_dir": s.is_dir, "dir_create": s.create, "dir_names": s.names, "dir_paths": s.paths,
                 "try_dir_names": s.try_names, "try_dir_paths": s.try_paths, "dir_ensure_exists": s.create, "print": s.print, "eprint": s.eprint}
        s.saved = []
        for m in MODULES:
            for k, f in fakes.items():
                if k in ("print",) or (k == "open" and m is utils) or k in m.__dict__:
                    s.saved.append((m, k, m.__dict__.get(k, s)))
                    setattr(m, k, f)
        s.saved.append((utils, "sys", utils.sys))
        utils.sys = Sys(stdin=s.stdin, stdout=s.stdout, stderr=sys.stderr)
        return s
    def __exit__(s, *a):
        for m, k, v in reversed(s.saved):
            if v is s: delattr(m, k)
            else: setattr(m, k, v)

MAINS = {}

def main(args, lang="pico8"):
    """-> exit code of the command line"""
    if lang not in MAINS: MAINS[lang] = run_shrinko.create_main(Language.pico8 if lang == "pico8" else Language.picotron)
    r = MAINS[lang](list(args))
    return 0 if r is None else r
