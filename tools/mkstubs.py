#!/opt/venv/bin/python
"""Regenerate tv/stubs.json: public names (and inspectable signatures) of the external modules the package uses. Not run by any check."""
import inspect, json, os, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = ["torch", "torch.nn", "torch.nn.functional", "torch.nn.init", "torch.linalg", "torch.fft", "torch.cuda", "torch.autograd", "torch.utils.checkpoint",
        "torch.backends.cudnn", "torch.random", "torch.special", "torch.nn.utils", "torch.nn.utils.rnn", "torch.jit", "torchaudio", "torchaudio.functional", "torchaudio.transforms", "numpy", "numpy.linalg",
        "numpy.fft", "numpy.random", "yaml", "math", "cmath", "itertools", "functools", "operator", "os", "os.path", "json", "shutil", "tempfile",
        "hashlib", "warnings", "argparse", "urllib.request", "urllib.parse", "urllib.error", "pathlib", "typing", "enum", "abc", "collections", "contextlib",
        "dataclasses", "re", "sys", "time", "random", "string", "copy", "logging", "scipy.signal", "torch.utils", "torch.optim", "importlib", "inspect", "numbers"]
out = {"members": {}, "sigs": {}, "attrs": {}}


def sig(o):
    try:
        s = inspect.signature(o)
    except Exception:
        return None
    r = []
    for p in s.parameters.values():
        r.append([p.name, {p.POSITIONAL_ONLY: "po", p.POSITIONAL_OR_KEYWORD: "pk", p.VAR_POSITIONAL: "va", p.KEYWORD_ONLY: "ko", p.VAR_KEYWORD: "vk"}[p.kind], p.default is not p.empty])
    return r


for m in MODS:
    try:
        mod = importlib.import_module(m)
    except Exception as e:
        print("skip", m, e)
        continue
    out["members"][m] = sorted(dir(mod))
    if m.split(".")[0] in ("torch", "torchaudio", "math", "yaml") or m in ("os.path",):
        for n in dir(mod):
            if n.startswith("_"):
                continue
            o = getattr(mod, n)
            if inspect.isclass(o) and m == "torch.nn" or inspect.isfunction(o):
                s = sig(o)
                if s is not None:
                    out["sigs"][m + "." + n] = s
import torch, pathlib, argparse
out["attrs"]["torch.Tensor"] = sorted(set(dir(torch.Tensor)) | {"grad_fn", "H", "mT", "mH", "T"})
out["attrs"]["torch.nn.Module"] = sorted(set(dir(torch.nn.Module)) | set(vars(torch.nn.Module())))
out["attrs"]["pathlib.Path"] = sorted(dir(pathlib.Path))
out["attrs"]["str"] = sorted(dir(str)); out["attrs"]["list"] = sorted(dir(list)); out["attrs"]["dict"] = sorted(dir(dict)); out["attrs"]["tuple"] = sorted(dir(tuple))
out["attrs"]["builtins"] = sorted(dir(__builtins__))
import sys, builtins, http.client, hashlib, io, subprocess, socket, threading, concurrent.futures, queue, glob, fnmatch, types, decimal, fractions, datetime, textwrap, struct, zipfile, tarfile, gzip, csv, uuid, platform, traceback, statistics, heapq, bisect, weakref, ssl, stat, errno, signal, secrets, pprint, shlex
anyattr = set()
for name, mod in list(sys.modules.items()):
    top = name.split(".")[0]
    if top in sys.stdlib_module_names or name in MODS or top in ("numpy", "yaml") or name in ("torch.return_types", "torchaudio.backend.common"):
        for n in dir(mod):
            o = getattr(mod, n, None)
            if inspect.isclass(o):
                anyattr |= set(dir(o))
            anyattr.add(n)
for o in (torch.zeros(1), torch.nn.Linear(1, 1), torch.nn.LSTM(1, 1), torch.nn.Conv1d(1, 1, 1), hashlib.sha1(), argparse.ArgumentParser(), argparse.ArgumentParser().parse_args([]), torch.finfo(torch.float32), torch.device("cpu"), io.BytesIO(), __import__("re").match("a", "a"), ValueError(), OSError(), torch.zeros(1).max(0), torch.linalg.slogdet(torch.eye(2)), torch.linalg.eigh(torch.eye(2)), torch.linalg.svd(torch.eye(2)), torch.linalg.qr(torch.eye(2)), torch.linalg.lstsq(torch.eye(2), torch.eye(2)), torch.topk(torch.ones(2), 1), __import__("urllib.parse").parse.urlparse("http://a"), (lambda: 0), type("A", (), {})()):
    anyattr |= set(dir(o))
anyattr |= {"_value2member_map_", "_member_map_", "_member_names_", "_value_", "_name_", "status", "headers", "url", "code", "reason"}
out["anyattr"] = sorted(n for n in anyattr if not n.startswith("__") or n.endswith("__"))
import re


def doc_kws(o, name):
    d = getattr(o, "__doc__", None)
    if not d:
        return None
    kws = set()
    found = False
    for m in re.finditer(r"(?:^|\n)\s*(?:\.\. function:: )?(?:[\w.]+\.)?%s\(" % re.escape(name), d):
        i, depth = m.end(), 1
        j = i
        while j < len(d) and depth:
            depth += (d[j] in "([{") - (d[j] in ")]}")
            j += 1
        if depth:
            return None
        found = True
        txt = d[i:j - 1]
        if "**" in txt or "..." in txt:
            return None
        for w in re.findall(r"([A-Za-z_]\w*)\s*(?=[,=:)]|$)", txt):
            kws.add(w)
    return kws if found else None


SCH = {}
for x in torch._C._jit_get_all_schemas():
    SCH.setdefault(x.name, set()).update(a.name for a in x.arguments)


def op_kws(m, n):
    """argument names of every overload of the operator"""
    pre = {"torch.linalg": "linalg_", "torch.fft": "fft_", "torch.special": "special_"}.get(m, "")
    return SCH.get("aten::" + pre + n, set())


out["kws"] = {}
for m in ("torch", "torch.linalg", "torch.fft", "torch.nn.functional", "torch.special"):
    mod = importlib.import_module(m)
    for n in dir(mod):
        o = getattr(mod, n)
        if n.startswith("_") or inspect.isclass(o) or not callable(o) or m + "." + n in out["sigs"]:
            continue
        k = doc_kws(o, n)
        if k:
            k |= op_kws(m, n)
            out["kws"][m + "." + n] = sorted(k | ({"axis"} if "dim" in k else set()) | ({"keepdims"} if "keepdim" in k else set()) | {"out", "input", "self"})
out["tensor_kws"] = {}
for n in dir(torch.Tensor):
    o = getattr(torch.Tensor, n)
    if n.startswith("_") or not callable(o):
        continue
    k = set(doc_kws(o, n) or ())
    if not k and (getattr(o, "__doc__", None) or sig(o) is None):
        if n + "()" not in (o.__doc__ or ""):
            continue
    see = re.search(r"See :func:`(torch\.[\w.]+)`", o.__doc__ or "")
    if see:
        k |= set(out["kws"].get(see.group(1), ())) | {p[0] for p in out["sigs"].get(see.group(1), ())}
    k |= {p[0] for p in sig(o) or ()} | op_kws("", n)
    for mm in ("torch", "torch.linalg", "torch.fft", "torch.special"):
        k |= set(out["kws"].get(mm + "." + n, ())) | {p[0] for p in out["sigs"].get(mm + "." + n, ())}
    out["tensor_kws"][n] = sorted(k | ({"axis"} if "dim" in k else set()) | ({"keepdims"} if "keepdim" in k else set()))
json.dump(out, open(os.path.join(V, "tv", "stubs.json"), "w"), separators=(",", ":"), sort_keys=True)
