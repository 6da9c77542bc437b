"""Independent readers/writers of checkpoints (no mergekit code)."""
import hashlib
import json
import os
import struct

DT = {
    "F64": "float64", "F32": "float32", "F16": "float16", "BF16": "bfloat16", "I64": "int64",
    "I32": "int32", "I16": "int16", "I8": "int8", "U8": "uint8", "BOOL": "bool",
    "F8_E4M3": "float8_e4m3fn", "F8_E5M2": "float8_e5m2",
}


class Unloadable(Exception):
    pass


def tkey(t):
    """(dtype, shape, bytes digest) of a tensor"""
    import torch

    t = t.detach().contiguous().cpu()
    flat = torch.empty(t.numel(), dtype=t.dtype).copy_(t.reshape(-1))
    b = flat.view(torch.uint8).numpy().tobytes() if t.numel() else b""
    return (str(t.dtype).replace("torch.", ""), tuple(t.shape), hashlib.sha256(b).hexdigest()[:24])


def read_st(path):
    """name -> key for one safetensors file, parsed by hand."""
    data = open(path, "rb").read()
    if len(data) < 8:
        raise Unloadable("%s: too short" % path)
    (n,) = struct.unpack("<Q", data[:8])
    if 8 + n > len(data):
        raise Unloadable("%s: header truncated" % path)
    try:
        hdr = json.loads(data[8 : 8 + n])
    except ValueError as e:
        raise Unloadable("%s: bad header %s" % (path, e))
    meta = hdr.pop("__metadata__", {})
    out, end = {}, 0
    for k, v in hdr.items():
        a, b = v["data_offsets"]
        end = max(end, b)
        if 8 + n + b > len(data):
            raise Unloadable("%s: data truncated" % path)
        out[k] = (DT[v["dtype"]], tuple(v["shape"]), hashlib.sha256(data[8 + n + a : 8 + n + b]).hexdigest()[:24])
    if 8 + n + end != len(data):
        raise Unloadable("%s: %d trailing bytes" % (path, len(data) - 8 - n - end))
    return out, meta


def read_bin(path):
    import torch

    try:
        d = torch.load(path, map_location="cpu", weights_only=True)
    except Exception as e:
        raise Unloadable("%s: %s" % (path, type(e).__name__))
    return {k: tkey(v) for k, v in d.items()}, {}


def read_file(path):
    if not os.path.exists(path):
        raise Unloadable("%s missing" % os.path.basename(path))
    return read_st(path) if path.endswith(".safetensors") else read_bin(path)


def load_dir(d, order=None):
    """What a loader of checkpoint directories sees: name -> key.  Tries the same
    candidates, in the same order, as the common loaders (index before single file,
    safetensors before pickle)."""
    names = order or ["model.safetensors.index.json", "model.safetensors", "pytorch_model.bin.index.json", "pytorch_model.bin"]
    for n in names:
        p = os.path.join(d, n)
        if not os.path.exists(p):
            continue
        if n.endswith(".json"):
            try:
                idx = json.load(open(p))
                wm = idx["weight_map"]
            except (ValueError, KeyError) as e:
                raise Unloadable("%s: %s" % (n, e))
            out, cache = {}, {}
            for k, f in wm.items():
                if f not in cache:
                    cache[f] = read_file(os.path.join(d, f))[0]
                if k not in cache[f]:
                    raise Unloadable("index names %s in %s, which lacks it" % (k, f))
                out[k] = cache[f][k]
            return out
        return read_file(p)[0]
    raise Unloadable("no model file in directory")


def nbytes(key):
    import torch

    n = 1
    for s in key[1]:
        n *= s
    return n * torch.empty((), dtype=getattr(torch, key[0])).element_size()


def wrap_io_points():
    """Make the serialisation calls preemption points (before mergekit binds them)."""
    import safetensors.torch
    import torch

    from sim import kernel

    live = {"now": 0, "max": 0}

    def wrap(fn):
        def inner(*a, **k):
            kernel.io_point()
            live["now"] += 1
            live["max"] = max(live["max"], live["now"])
            try:
                kernel.io_point()
                kernel.io_point()
                return fn(*a, **k)
            finally:
                try:
                    kernel.io_point()
                finally:
                    live["now"] -= 1

        inner.__wrapped__ = fn
        return inner

    if not hasattr(safetensors.torch.save_file, "__wrapped__"):
        safetensors.torch.save_file = wrap(safetensors.torch.save_file)
        torch.save = wrap(torch.save)
    return live


LIVE = None


def install():
    global LIVE
    if LIVE is None:
        LIVE = wrap_io_points()
    return LIVE
