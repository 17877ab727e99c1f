"""Abstract file system, downloads, audio files, argument parser.

Nothing here touches the real file system: I.vfs maps absolute path strings to
nodes ("dir",) / ("file", content) / ("link", target).  Without I.vfs every
query is an opaque condition.
"""
import hashlib
import posixpath
import urllib.parse

from .poly import P, Poly, lower
from .vals import *

NOPE = object()
HOME = "/home/user"
CWD = "/work"


class PathV:
    """concrete path value (pure string semantics of pathlib)"""

    def __init__(self, p):
        s = str(p)
        lead = s.startswith("/")
        parts = [x for x in s.split("/") if x not in ("", ".")]
        self.p = ("/" if lead else "") + "/".join(parts) or "."

    @property
    def vn(self):
        return ("path", self.p)

    def __repr__(self):
        return "Path(%s)" % self.p

    def __str__(self):
        return self.p

    def __eq__(self, o):
        return isinstance(o, PathV) and self.p == o.p

    def __hash__(self):
        return hash(("path", self.p))


def pstr(p):
    if isinstance(p, PathV):
        return p.p
    return p if isinstance(p, str) else None


def absn(p):
    """absolute path string without resolving links"""
    s = p.p if isinstance(p, PathV) else str(p)
    if not s.startswith("/"):
        s = CWD + "/" + s
    return PathV(s).p


def resolve(I, p, depth=0):
    s = absn(p)
    parts = s.split("/")[1:]
    cur = ""
    for i, x in enumerate(parts):
        if x == "..":
            cur = posixpath.dirname(cur) or ""
            cur = "" if cur == "/" else cur
            continue
        nxt = cur + "/" + x
        node = (I.vfs or {}).get(nxt)
        if node is not None and node[0] == "link" and depth < 20:
            t = node[1]
            if not t.startswith("/"):
                t = cur + "/" + t
            return resolve(I, "/".join([t] + parts[i + 1:]), depth + 1)
        cur = nxt
    return cur or "/"


def node(I, p):
    r = resolve(I, p)
    if r == "/":
        return ("dir",)
    return I.vfs.get(r)


def is_dir(I, p):
    n = node(I, p)
    if n is not None and n[0] == "dir":
        return True
    return n is None and any(k.startswith(resolve(I, p).rstrip("/") + "/") for k in I.vfs)


def exists(I, p):
    return node(I, p) is not None or is_dir(I, p)


def sym_path(tag, *a):
    return AStr((tag,) + tuple(repr(vnof(x)) for x in a), "path")


def path_join(I, a, b):
    sa, sb = pstr(a), pstr(b)
    if sa is None or sb is None:
        if a is None or b is None or isinstance(a, (int, float)) or isinstance(b, (int, float)):
            I.error("TypeError", "unsupported operand types for /", "signature")
        return Unk("path", H("join", a, b))
    if sb.startswith("/"):
        return PathV(sb)
    return PathV(sa + "/" + sb)


def path_eq(I, a, b):
    if isinstance(a, PathV) and isinstance(b, PathV):
        return a.p == b.p
    if isinstance(a, Unk) or isinstance(b, Unk):
        return BCond(H("patheq", a, b))
    return False


PATH_METHODS = {"exists", "is_dir", "is_file", "is_symlink", "mkdir", "resolve", "absolute", "rglob", "glob", "iterdir", "relative_to", "expanduser",
                "as_posix", "joinpath", "with_suffix", "with_name", "with_stem", "is_relative_to", "samefile", "is_absolute", "open",
                "read_text", "read_bytes", "write_text", "write_bytes", "unlink", "rename", "replace", "touch", "rmdir", "stat", "match",
                "home", "cwd", "walk", "lstat", "hardlink_to", "symlink_to", "as_uri", "chmod", "exists", "__fspath__"}


def path_attr(I, v, name):
    p = v.p
    if name == "name":
        return posixpath.basename(p) if p not in (".", "..") else ("" if p == "." else "..")
    if name == "stem":
        return posixpath.splitext(posixpath.basename(p))[0]
    if name == "suffix":
        b = posixpath.basename(p)
        i = b.rfind(".")
        return b[i:] if 0 < i < len(b) - 1 else ""
    if name == "suffixes":
        b = posixpath.basename(p).lstrip(".")
        return ["." + x for x in b.split(".")[1:]]
    if name == "parent":
        d = posixpath.dirname(p)
        return PathV(d if d else ".")
    if name == "parents":
        out = []
        d = p
        while posixpath.dirname(d) != d:
            d = posixpath.dirname(d)
            out.append(PathV(d or "."))
            if not d:
                break
        return out
    if name == "parts":
        return tuple((["/"] if p.startswith("/") else []) + [x for x in p.split("/") if x])
    if name in PATH_METHODS:
        return Bi(name, lambda I_, *a, **k: path_method(I_, v, name, a, k), v)
    if name in ("anchor", "root"):
        return "/" if p.startswith("/") else ""
    if name == "drive":
        return ""
    I.error("AttributeError", "'PosixPath' object has no attribute %r" % name, "attr")


def opaque(I, what, v):
    return BCond(H(what, v), fact=None)


def match(name, pat):
    import fnmatch
    return fnmatch.fnmatchcase(name, pat)


def children(I, d):
    r = resolve(I, d).rstrip("/")
    out = set()
    for k in I.vfs:
        if k.startswith(r + "/"):
            out.add(k[len(r) + 1:].split("/")[0])
    return sorted(out)


def walk(I, base, rec, seen=()):
    out = []
    for n in children(I, base):
        c = PathV(base.p + "/" + n)
        out.append(c)
        raw = I.vfs.get(absn(c))
        if rec and is_dir(I, c) and not (I.vfs.get(resolve_parent(I, c)) or ("",))[0] == "link":
            out.extend(walk(I, c, rec))
    return out


def resolve_parent(I, c):
    return resolve(I, PathV(posixpath.dirname(absn(c)))) .rstrip("/") + "/" + posixpath.basename(c.p)


def path_method(I, v, name, a, k):
    p = v.p
    if name in ("exists", "is_dir", "is_file", "is_symlink"):
        if I.vfs is None:
            return BCond(H(name, v))
        if name == "exists":
            return exists(I, v)
        if name == "is_dir":
            return is_dir(I, v)
        if name == "is_symlink":
            return (I.vfs.get(resolve_parent(I, v)) or ("",))[0] == "link"
        n = node(I, v)
        return n is not None and n[0] == "file"
    if name == "mkdir":
        I.event("mkdir", absn(v))
        if I.vfs is not None:
            n = node(I, v)
            if n is not None and (n[0] == "file" or k.get("exist_ok") is not True):
                I.error("FileExistsError", p, "fs")
            par = posixpath.dirname(resolve(I, v))
            if not is_dir(I, PathV(par)) and k.get("parents") is not True:
                I.error("FileNotFoundError", par, "fs")
            I.vfs.setdefault(resolve(I, v), ("dir",))
        return None
    if name == "resolve":
        return PathV(resolve(I, v))
    if name == "absolute":
        return PathV(absn(v))
    if name in ("rglob", "glob", "iterdir"):
        if I.vfs is None:
            return Unk("glob")
        if not is_dir(I, v):
            if name == "iterdir":
                I.error("FileNotFoundError", p, "fs")
            return []
        if name == "iterdir":
            return walk(I, v, False)
        pat = a[0] if a else k.get("pattern")
        if not isinstance(pat, str):
            return Unk("glob")
        rec = name == "rglob"
        if pat.startswith("**/"):
            rec, pat = True, pat[3:]
        if "/" in pat:
            return Unk("glob")
        return [c for c in walk(I, v, rec) if match(posixpath.basename(c.p), pat)]
    if name in ("relative_to", "is_relative_to"):
        base = PathV(a[0]) if isinstance(a[0], str) else a[0]
        if not isinstance(base, PathV):
            return Unk("relative")
        b = base.p.rstrip("/")
        if base.p == "." and not p.startswith("/"):
            ok, r = True, p
        elif p == base.p:
            ok, r = True, "."
        elif p.startswith(b + "/"):
            ok, r = True, p[len(b) + 1:]
        else:
            ok, r = False, None
        if name == "is_relative_to":
            return ok
        if not ok:
            I.error("ValueError", "%s is not in the subpath of %s" % (p, base.p), "fs")
        return PathV(r)
    if name == "expanduser":
        return PathV(HOME + p[1:]) if p == "~" or p.startswith("~/") else v
    if name in ("as_posix", "__fspath__"):
        return p
    if name == "joinpath":
        r = v
        for x in a:
            r = path_join(I, r, x)
        return r
    if name == "with_suffix":
        if not isinstance(a[0], str):
            return Unk("path")
        return PathV(posixpath.splitext(p)[0] + a[0])
    if name == "with_name":
        if not isinstance(a[0], str):
            return Unk("path", H("with_name", v, a[0]))
        return PathV(posixpath.join(posixpath.dirname(p), a[0]))
    if name == "with_stem":
        return PathV(posixpath.join(posixpath.dirname(p), a[0] + posixpath.splitext(p)[1])) if isinstance(a[0], str) else Unk("path")
    if name == "samefile":
        o = a[0] if isinstance(a[0], PathV) else PathV(a[0]) if isinstance(a[0], str) else None
        if o is None or I.vfs is None:
            return BCond(H("samefile", v, a[0]))
        for q in (v, o):
            if not exists(I, q):
                I.error("FileNotFoundError", q.p, "fs")
        return resolve(I, v) == resolve(I, o)
    if name == "is_absolute":
        return p.startswith("/")
    if name == "open":
        return open_(I, v, *a, **k)
    if name in ("read_text", "read_bytes"):
        return file_content(I, v)
    if name in ("write_text", "write_bytes"):
        c = a[0] if a else k.get("data")
        write(I, v, ("partial", None))
        maybe_interrupt(I, "write_bytes")
        write(I, v, c.args[0] if isinstance(c, ExtObj) and c.cls == "content" else c)
        return None
    if name in ("unlink", "rmdir"):
        I.event("file_remove", absn(v))
        if I.vfs is not None:
            r = resolve_parent(I, v)
            if r in I.vfs:
                del I.vfs[r]
            elif k.get("missing_ok") is not True:
                I.error("FileNotFoundError", p, "fs")
        return None
    if name in ("rename", "replace"):
        move(I, v, a[0] if a else k.get("target"))
        return a[0] if a and isinstance(a[0], PathV) else None
    if name == "touch":
        write(I, v, ("empty",))
        return None
    if name == "home":
        return PathV(HOME)
    if name == "cwd":
        return PathV(CWD)
    if name == "match":
        return match(posixpath.basename(p), a[0]) if isinstance(a[0], str) else BCond(H("match", v))
    return Unk("path." + name, H("path", name, v))


def move(I, a, b):
    I.event("file_write", absn(b) if pstr(b) else None, "rename")
    if I.vfs is None or pstr(a) is None or pstr(b) is None:
        return
    ra, rb = resolve_parent(I, PathV(pstr(a))), resolve_parent(I, PathV(pstr(b)))
    if ra not in I.vfs:
        I.error("FileNotFoundError", ra, "fs")
    I.vfs[rb] = I.vfs.pop(ra)


def write(I, p, content):
    s = pstr(p)
    if s is None:
        I.event("file_write", None, "write")
        return
    I.event("file_write", absn(p), "write")
    if I.vfs is not None:
        r = resolve(I, PathV(s))
        par = posixpath.dirname(r)
        if not is_dir(I, PathV(par)):
            I.error("FileNotFoundError", s, "fs")
        I.vfs[r] = ("file", content)


def file_content(I, p):
    if I.vfs is None or pstr(p) is None:
        return Unk("file content", H("content", p))
    n = node(I, PathV(pstr(p)))
    if n is None or n[0] != "file":
        I.error("FileNotFoundError", pstr(p), "fs")
    I.event("file_read", absn(p), n[1])
    return ExtObj("content", (n[1],), {}, ("content", n[1]))


INTERRUPTS = ("", "Killed", "URLError", "KeyboardInterrupt")


def maybe_interrupt(I, what, p=None):
    """fork: the process is killed, the connection drops or the user stops the program here"""
    left = I.flags.get("interrupts", 0)
    if left > 0:
        c = I.decider.choose("interrupted in %s" % what, 4)
        if c:
            I.flags["interrupts"] = left - 1
            I.event("interrupted", what, INTERRUPTS[c])
            raise AbsRaise(INTERRUPTS[c], "interrupted in " + what, I.site(), "interrupt")


# ---- file handles
def open_(I, path, mode="r", *a, **k):
    o = ExtObj("file", (path, mode), {}, H("open", path, mode))
    o.attrs["path"] = path
    o.attrs["mode"] = mode
    o.attrs["content"] = None
    s = pstr(path)
    if isinstance(mode, str) and any(c in mode for c in "wax+"):
        I.event("file_write", absn(path) if s else None, "open")
        if I.vfs is not None and s is not None:
            r = resolve(I, PathV(s))
            if "x" in mode and r in I.vfs:
                I.error("FileExistsError", s, "fs")
            if not is_dir(I, PathV(posixpath.dirname(r))):
                I.error("FileNotFoundError", s, "fs")
            I.vfs[r] = ("file", ("partial", None))
            o.attrs["target"] = r
    else:
        if I.vfs is not None and s is not None:
            n = node(I, PathV(s))
            if n is None or n[0] != "file":
                I.error("FileNotFoundError", s, "fs")
            o.attrs["content"] = n[1]
            I.event("file_read", absn(path), n[1])
    return o


def file_attr(I, o, name):
    def f(I_, *a, **k):
        if name in ("write", "writelines"):
            c = a[0]
            c = c.args[0] if isinstance(c, ExtObj) and c.cls == "content" else c
            maybe_interrupt(I_, "write")
            t = o.attrs.get("target")
            if t is not None and I_.vfs is not None and t in I_.vfs:
                I_.vfs[t] = ("file", c)
            return Unk("n")
        if name in ("read", "readlines", "getvalue"):
            maybe_interrupt(I_, "read") if o.cls == "url_response" else None
            c = o.attrs.get("content")
            return ExtObj("content", (c,), {}, ("content", vnof(c)))
        if name in ("close", "flush", "fileno", "seek"):
            return None
        if name == "__enter__":
            return o
        return Unk("file." + name)
    if name == "name":
        return o.attrs.get("path")
    if name == "content":
        maybe_interrupt(I, "read")
        c = o.attrs.get("content")
        return ExtObj("content", (c,), {}, ("content", vnof(c)))
    return Bi(name, f, o)


def ctx_enter(I, cm):
    if cm.cls == "tempdir":
        return cm.attrs["path"]
    return cm


def ctx_exit(I, cm):
    if cm.cls == "tempfile" and cm.attrs.get("delete") and I.vfs is not None:
        I.vfs.pop(cm.attrs.get("target"), None)
    return None


def torch_load(I, f, *a, **k):
    s = pstr(f)
    content = None
    if isinstance(f, ExtObj) and f.cls == "file":
        content = f.attrs.get("content")
    elif I.vfs is not None and s is not None:
        n = node(I, PathV(s))
        if n is None or n[0] != "file":
            I.error("FileNotFoundError", s, "fs")
        content = n[1]
    I.event("torch_load", s, content, k.get("map_location"))
    if isinstance(content, tuple) and content[:1] == ("partial",):
        I.error("RuntimeError", "corrupt checkpoint", "corrupt")
    u = ExtObj("state", (content,), {}, ("state", content))
    return u


# ---- argument parser
def new_parser(I, *a, **k):
    o = ExtObj("argparse.ArgumentParser", (), {}, H("parser"))
    o.attrs["__opts"] = []
    o.attrs["__defaults"] = {}
    return o


def argparse_method(I, o, name, a, k):
    root = o.attrs.get("__root", o)
    opts = root.attrs["__opts"]
    if name == "add_argument":
        opts.append((list(a), dict(k)))
        return Unk("action")
    if name in ("add_argument_group", "add_mutually_exclusive_group"):
        g = ExtObj("argparse.Group", (), {}, H("group"))
        g.attrs["__root"] = root
        return g
    if name == "set_defaults":
        root.attrs["__defaults"].update(k)
        return None
    if name in ("parse_args", "parse_known_args"):
        argv = a[0] if a else k.get("args")
        if argv is None:
            argv = I.flags.get("argv", [])
        ns = parse(I, root, argv)
        return ns if name == "parse_args" else (ns, [])
    if name == "error":
        I.error("SystemExit", "2", "explicit")
    return None


def parse(I, parser, argv):
    ns = ExtObj("argparse.Namespace", (), {}, H("ns", argv))
    specs = {}
    pos = []
    for names, kw in parser.attrs["__opts"]:
        if any(n.startswith("-") for n in names):
            longs = [n for n in names if n.startswith("--")]
            dest = kw.get("dest") or (longs[0] if longs else names[0]).lstrip("-").replace("-", "_")
            for n in names:
                specs[n] = (dest, kw)
        else:
            dest = names[0]
            pos.append((dest, kw))
        act = kw.get("action")
        d = kw.get("default")
        if act == "store_true":
            d = kw.get("default", False)
        elif act == "store_false":
            d = kw.get("default", True)
        elif isinstance(d, str) and kw.get("type") is not None:
            d = I.call(kw["type"], [d], {})
        ns.attrs[dest] = d
    for kk, vv in parser.attrs["__defaults"].items():
        ns.attrs[kk] = vv

    def conv(kw, s):
        t = kw.get("type")
        v = s
        if t is not None:
            try:
                v = I.call(t, [s], {})
            except AbsRaise as e:
                if e.kind in ("ValueError", "TypeError", "ArgumentTypeError"):
                    I.error("SystemExit", "invalid value %r" % s, "explicit")
                raise
        ch = kw.get("choices")
        if ch is not None:
            l = I.to_list(ch)
            if l is not None and not any(v == x or (hasattr(x, "value") and getattr(x, "value", None) == v) for x in l):
                I.error("SystemExit", "invalid choice %r" % v, "explicit")
        return v

    i = 0
    pi = 0
    argv = list(argv)
    while i < len(argv):
        s = argv[i]
        if isinstance(s, str) and s.startswith("-") and not s.lstrip("-").replace(".", "").isdigit():
            if s not in specs:
                I.error("SystemExit", "unrecognized argument %s" % s, "explicit")
            dest, kw = specs[s]
            act = kw.get("action")
            if act in ("store_true", "store_false"):
                ns.attrs[dest] = act == "store_true"
                i += 1
                continue
            if act == "store_const":
                ns.attrs[dest] = kw.get("const")
                i += 1
                continue
            if kw.get("nargs") in ("+", "*") or isinstance(kw.get("nargs"), int):
                vals = []
                i += 1
                while i < len(argv) and not str(argv[i]).startswith("-"):
                    vals.append(conv(kw, argv[i]))
                    i += 1
                ns.attrs[dest] = vals
                continue
            ns.attrs[dest] = conv(kw, argv[i + 1])
            i += 2
        else:
            if pi >= len(pos):
                I.error("SystemExit", "too many arguments", "explicit")
            dest, kw = pos[pi]
            ns.attrs[dest] = conv(kw, s)
            pi += 1
            i += 1
    if pi < len([x for x in pos if x[1].get("nargs") not in ("?", "*")]):
        I.error("SystemExit", "missing positional argument", "explicit")
    return ns


# ---- audio
def audio_load(I, path, *a, **k):
    s = pstr(path)
    I.event("audio_load", s)
    hook = I.flags.get("audio_hook")
    if hook:
        return hook(I, s)
    return (Unk("audio", H("audio", path)), Unk("fs", H("fs", path)))


def audio_save(I, uri, src, sample_rate, channels_first=True, **k):
    s = pstr(uri)
    I.event("audio_save", s, src, sample_rate, channels_first)
    if I.vfs is not None and s is not None:
        r = resolve(I, PathV(s))
        if not is_dir(I, PathV(posixpath.dirname(r))):
            I.error("RuntimeError", "cannot open %s for writing" % s, "fs")
        if is_dir(I, PathV(r)):
            I.error("RuntimeError", "%s is a directory" % s, "fs")
        I.event("file_write", absn(PathV(s)), "audio")
        I.vfs[r] = ("file", ("audio", vnof(src)))
    return None


# ---- dispatch
def urlparse(I, url, *a, **k):
    if not isinstance(url, str):
        if isinstance(url, PathV):
            I.error("AttributeError", "'PosixPath' object has no attribute 'decode'", "attr")
        return Unk("urlparse", H("urlparse", url))
    r = urllib.parse.urlparse(url)
    return NT.make(tuple(r), ("scheme", "netloc", "path", "params", "query", "fragment"), "ParseResult")


def call(I, n, args, kwargs):
    a0 = args[0] if args else None
    if n in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath"):
        if not args:
            return PathV(".")
        if all(pstr(x) is not None for x in args):
            r = PathV(pstr(args[0]))
            for x in args[1:]:
                r = path_join(I, r, x)
            return r
        if any(x is None or isinstance(x, (int, float)) for x in args):
            I.error("TypeError", "expected str, bytes or os.PathLike object", "signature")
        return Unk("path", H("path", list(args)))
    if n in ("pathlib.Path.home",):
        return PathV(HOME)
    if n == "pathlib.Path.cwd":
        return PathV(CWD)
    if n == "builtins.open":
        return open_(I, *args, **kwargs)
    if n in ("torchaudio.load",):
        return audio_load(I, *args, **kwargs)
    if n in ("torchaudio.save",):
        return audio_save(I, *args, **kwargs)
    if n == "argparse.ArgumentParser":
        return new_parser(I, *args, **kwargs)
    if n in ("argparse.ArgumentTypeError", "argparse.ArgumentError"):
        return ExtObj(n, tuple(args), {})
    if n == "argparse.Namespace":
        o = ExtObj("argparse.Namespace", (), {})
        o.attrs.update(kwargs)
        return o
    if n == "urllib.parse.urlparse":
        return urlparse(I, *args, **kwargs)
    if n.startswith("urllib.parse."):
        f = getattr(urllib.parse, n.split(".")[-1], None)
        if f is not None and all(isinstance(x, str) for x in args):
            r = f(*args, **{k: v for k, v in kwargs.items() if isinstance(v, str)})
            if isinstance(r, (str, bytes)):
                return r
            if isinstance(r, tuple) and hasattr(r, "_fields"):
                return NT.make(tuple(r), r._fields, type(r).__name__)
            return r
        return AStr((n, H(list(args))))
    if n in ("urllib.request.urlretrieve",):
        url = a0
        fn = args[1] if len(args) > 1 else kwargs.get("filename")
        I.event("download", url if isinstance(url, str) else None, pstr(fn))
        write(I, fn, ("partial", vnof(url)))
        maybe_interrupt(I, "urlretrieve")
        if I.flags.get("url_missing") and url in I.flags["url_missing"]:
            I.error("HTTPError", "404", "net")
        if I.vfs is not None and pstr(fn) is not None:
            I.vfs[resolve(I, PathV(pstr(fn)))] = ("file", ("url", url))
        return (fn, Unk("headers"))
    if n in ("torch.hub.download_url_to_file",):
        url, dst = a0, args[1]
        maybe_interrupt(I, "download_url_to_file")
        write(I, dst, ("url", url))
        return None
    if n in ("urllib.request.urlopen", "requests.get"):
        maybe_interrupt(I, "urlopen")
        o = ExtObj("url_response", (a0,), {}, H("urlopen", a0))
        o.attrs["content"] = ("url", a0)
        if n == "requests.get":
            o.attrs.pop("content")
            o.attrs["__c"] = 1
            o = ExtObj("url_response", (a0,), {}, H("urlopen", a0))
            o.attrs["content"] = ("url", a0)
        I.event("download", a0 if isinstance(a0, str) else None, None)
        return o
    if n == "urllib.request.Request":
        return a0
    if n in ("shutil.copyfileobj",):
        src, dst = args[0], args[1]
        maybe_interrupt(I, "copyfileobj")
        t = dst.attrs.get("target") if isinstance(dst, ExtObj) else None
        if t is not None and I.vfs is not None:
            I.vfs[t] = ("file", src.attrs.get("content") if isinstance(src, ExtObj) else Unk("c"))
        return None
    if n in ("shutil.move", "os.replace", "os.rename"):
        move(I, args[0], args[1])
        return args[1]
    if n in ("shutil.copy", "shutil.copyfile", "shutil.copy2"):
        if I.vfs is not None and pstr(args[0]) is not None:
            nd = node(I, PathV(pstr(args[0])))
            if nd is None:
                I.error("FileNotFoundError", pstr(args[0]), "fs")
            write(I, args[1], ("partial", None))
            maybe_interrupt(I, "copy")
            write(I, args[1], nd[1])
        else:
            write(I, args[1], None)
        return args[1]
    if n in ("os.remove", "os.unlink"):
        return path_method(I, PathV(pstr(a0)), "unlink", (), {}) if pstr(a0) is not None else None
    if n in ("shutil.rmtree", "os.rmdir"):
        I.event("file_remove", absn(PathV(pstr(a0))) if pstr(a0) else None)
        if I.vfs is not None and pstr(a0):
            r = resolve(I, PathV(pstr(a0)))
            for kk in [x for x in I.vfs if x == r or x.startswith(r + "/")]:
                del I.vfs[kk]
        return None
    if n in ("os.makedirs", "os.mkdir"):
        if pstr(a0) is None:
            I.event("mkdir", None)
            return None
        return path_method(I, PathV(pstr(a0)), "mkdir", (), {"parents": n == "os.makedirs", "exist_ok": kwargs.get("exist_ok", args[2] if len(args) > 2 else False)})
    if n.startswith("os.path."):
        last = n.split(".")[-1]
        if last in ("exists", "isdir", "isfile", "islink", "lexists"):
            if pstr(a0) is None:
                return BCond(H(n, a0))
            return path_method(I, PathV(pstr(a0)), {"exists": "exists", "isdir": "is_dir", "isfile": "is_file", "islink": "is_symlink", "lexists": "exists"}[last], (), {})
        if all(pstr(x) is not None for x in args):
            ss = [pstr(x) for x in args]
            if last in ("abspath",):
                return posixpath.normpath(absn(PathV(ss[0])))
            if last == "realpath":
                return resolve(I, PathV(ss[0]))
            if last == "expanduser":
                return HOME + ss[0][1:] if ss[0].startswith("~") else ss[0]
            if last == "samefile":
                return path_method(I, PathV(ss[0]), "samefile", (PathV(ss[1]),), {})
            if last in ("getsize", "getmtime"):
                return Unk(last)
            f = getattr(posixpath, last, None)
            if f is not None:
                r = f(*ss)
                return r
        return Unk(n, H(n, list(args)))
    if n in ("os.listdir",):
        if I.vfs is not None and pstr(a0):
            return children(I, PathV(pstr(a0)))
        return Unk("listdir")
    if n == "os.walk":
        return Unk("walk")
    if n in ("os.getcwd",):
        return CWD
    if n in ("os.getpid", "os.cpu_count"):
        return 4242
    if n in ("os.getenv",):
        return AStr(("env", H(list(args))))
    if n in ("os.fspath",):
        return pstr(a0) if pstr(a0) is not None else Unk("fspath")
    if n in ("os.fsync", "os.close"):
        return None
    if n in ("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile"):
        d = kwargs.get("dir")
        base = pstr(d) if d is not None else "/tmp"
        i = I.flags["tmpcount"] = I.flags.get("tmpcount", 0) + 1
        if base is None:
            return Unk("tempfile")
        p = PathV(base + "/tmp.%s.%d" % (I.flags.get("pid", 1), i))
        o = ExtObj("tempfile", (p,), {}, H("tmp", p))
        o.attrs["path"] = p.p
        o.attrs["target"] = resolve(I, p)
        o.attrs["delete"] = kwargs.get("delete", True)
        write(I, p, ("partial", None))
        return o
    if n in ("tempfile.mkstemp",):
        d = kwargs.get("dir")
        base = pstr(d) if d is not None else "/tmp"
        i = I.flags["tmpcount"] = I.flags.get("tmpcount", 0) + 1
        p = (base or "/tmp") + "/tmp.%s.%d" % (I.flags.get("pid", 1), i)
        write(I, PathV(p), ("partial", None))
        return (3, p)
    if n in ("tempfile.mkdtemp", "tempfile.TemporaryDirectory"):
        d = kwargs.get("dir")
        base = pstr(d) if d is not None else "/tmp"
        i = I.flags["tmpcount"] = I.flags.get("tmpcount", 0) + 1
        p = (base or "/tmp") + "/tmpd.%s.%d" % (I.flags.get("pid", 1), i)
        if I.vfs is not None:
            I.vfs[p] = ("dir",)
        if n.endswith("mkdtemp"):
            return p
        o = ExtObj("tempdir", (p,), {}, H("tmpd", p))
        o.attrs["path"] = p
        o.attrs["name"] = p
        return o
    if n in ("tempfile.gettempdir",):
        return "/tmp"
    if n in ("yaml.safe_load", "yaml.load", "yaml.full_load", "yaml.unsafe_load", "json.load", "json.loads"):
        c = None
        if isinstance(a0, ExtObj):
            c = a0.attrs.get("content") if a0.cls in ("file", "url_response") else (a0.args[0] if a0.cls == "content" else None)
        I.event("config_load", c)
        if isinstance(c, tuple) and c[:1] == ("partial",):
            I.error("YAMLError", "corrupt", "corrupt")
        if isinstance(c, tuple) and c[:1] == ("data",):
            return thaw(c[1])
        h = I.flags.get("config_hook")
        if h and c is not None:
            r = h(I, c)
            if r is not None:
                return r
        return Unk("config", H("config", c))
    if n in ("yaml.dump", "json.dump", "yaml.safe_dump"):
        f = args[1] if len(args) > 1 else kwargs.get("stream", kwargs.get("fp"))
        t = f.attrs.get("target") if isinstance(f, ExtObj) and f.cls == "file" else None
        if t is not None and I.vfs is not None and t in I.vfs:
            d = freeze(a0)
            I.vfs[t] = ("file", ("data", d) if d is not None else ("opaque",))
        return None
    if n in ("json.dumps",):
        return AStr(("json", H(a0)))
    if n.startswith("hashlib."):
        alg = n.split(".")[-1]
        if alg == "new":
            alg, a0 = a0, (args[1] if len(args) > 1 else b"")
        o = ExtObj("hash", (), {}, H("hash", alg, a0))
        o.attrs["alg"] = alg
        o.attrs["data"] = a0 if isinstance(a0, bytes) else (b"" if a0 is None else None)
        return o
    if n.startswith("re."):
        import re
        f = getattr(re, n.split(".")[-1], None)
        if f is not None and all(isinstance(x, (str, int)) for x in args) and n.split(".")[-1] in ("sub", "split", "findall", "escape"):
            return f(*args)
        return Unk(n, H(n, list(args)))
    if n.startswith("uuid."):
        i = I.flags["tmpcount"] = I.flags.get("tmpcount", 0) + 1
        return AStr(("uuid", str(i)))
    if n in ("os.access",):
        return BCond(H(n, list(args)))
    return NOPE


def decide_fact(I, fact):
    return None


def learn_fact(I, fact, r):
    return None


def freeze(v):
    """plain data as an immutable value (None: not plain data)"""
    if isinstance(v, dict):
        it = [(k, freeze(x)) for k, x in v.items()]
        return None if any(x is None for _, x in it) else ("d", tuple(it))
    if isinstance(v, (list, tuple)):
        it = [freeze(x) for x in v]
        return None if any(x is None for x in it) else ("l", tuple(it))
    if v is None or isinstance(v, (str, int, float, bool)):
        return ("v", v)
    return None


def thaw(f):
    if f[0] == "d":
        return {k: thaw(x) for k, x in f[1]}
    if f[0] == "l":
        return [thaw(x) for x in f[1]]
    return f[1]
