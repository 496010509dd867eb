"""the path functions of posixpath in plain python (after the standard library's own pure versions), for symbolic paths"""
import os

def join(a, *p):
    path = a
    for b in p:
        if b.startswith("/"): path = b
        elif not path or path.endswith("/"): path = path + b
        else: path = path + "/" + b
    return path

def normpath(path):
    if not path: return "."
    slashes = 0
    if path.startswith("/"):
        slashes = 2 if path.startswith("//") and not path.startswith("///") else 1
    new = []
    for comp in path.split("/"):
        if not comp or comp == ".": continue
        if comp != ".." or (not slashes and not new) or (new and new[-1] == ".."): new.append(comp)
        elif new: new.pop()
    path = "/".join(new)
    if slashes: path = "/" * slashes + path
    return path or "."

def isabs(s): return s.startswith("/")

def abspath(path):
    if not path.startswith("/"): path = join(os.getcwd(), path)
    return normpath(path)

def relpath(path, start=None):
    if not path: raise ValueError("no path specified")
    start_list = [x for x in abspath("." if start is None else start).split("/") if x]
    path_list = [x for x in abspath(path).split("/") if x]
    i = 0
    while i < len(start_list) and i < len(path_list) and start_list[i] == path_list[i]: i += 1
    rel = [".."] * (len(start_list) - i) + path_list[i:]
    if not rel: return "."
    return join(*rel)

def basename(p):
    return p[p.rfind("/") + 1:]

def dirname(p):
    i = p.rfind("/") + 1
    head = p[:i]
    if head and head != "/" * len(head): head = head.rstrip("/")
    return head

def splitext(p):
    sep, dot = p.rfind("/"), p.rfind(".")
    if dot > sep:
        i = sep + 1
        while i < dot:
            if p[i] != ".": return p[:dot], p[dot:]
            i += 1
    return p, p[:0]

realpath = abspath      # nothing that the checks name exists, so there are no links

def split(p):
    i = p.rfind("/") + 1
    return dirname(p), p[i:]

def normcase(p): return p

def commonpath(paths):
    paths = [normpath(p) for p in paths]
    comps = [[c for c in p.split("/") if c] for p in paths]
    if len({p.startswith("/") for p in paths}) > 1: raise ValueError("Can't mix absolute and relative paths")
    common = []
    for row in zip(*comps):
        if any(c != row[0] for c in row): break
        common.append(row[0])
    return ("/" if paths[0].startswith("/") else "") + "/".join(common)
