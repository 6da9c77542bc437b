"""Whole-merge workloads: fixtures, random merge configurations, running one merge
in the current (simulated) process, observing an output directory."""
import hashlib
import json
import os
import pickle
import shutil
import tempfile

from sim import models, tensors

# method -> (needs_base, min_other, max_other, global params, per-model params, random?)
METHODS = {
    "linear": (False, 2, 3, {"normalize": [True, True, False]}, {"weight": [0.2, 0.5, 1.0]}, False),
    "slerp": (True, 1, 1, {"t": [0.3, 0.5]}, {}, False),
    "nuslerp": (False, 2, 2, {"nuslerp_flatten": [True, False], "nuslerp_row_wise": [False, True]}, {"weight": [0.3, 0.7]}, False),
    "passthrough": (False, 1, 1, {}, {}, False),
    "model_stock": (True, 2, 3, {"filter_wise": [True, False]}, {}, False),
    "arcee_fusion": (True, 1, 1, {}, {}, False),
    "karcher": (False, 2, 3, {"max_iter": [10, 2]}, {}, False),
    "task_arithmetic": (True, 1, 3, {"lambda": [1.0, 0.7], "normalize": [False, True]}, {"weight": [0.4, 1.0]}, False),
    "ties": (True, 2, 3, {"int8_mask": [True, False], "rescale": [False, True], "normalize": [True, False]}, {"weight": [0.4, 1.0], "density": [0.5, 0.9]}, False),
    "breadcrumbs": (True, 1, 2, {}, {"weight": [0.4, 1.0], "density": [0.7], "gamma": [0.05]}, False),
    "breadcrumbs_ties": (True, 2, 2, {"rescale": [False, True]}, {"weight": [0.4, 1.0], "density": [0.7], "gamma": [0.05]}, False),
    "dare_ties": (True, 2, 2, {"rescale": [True, False]}, {"weight": [0.4, 1.0], "density": [0.5]}, True),
    "dare_linear": (True, 1, 2, {}, {"weight": [0.4, 1.0], "density": [0.5]}, True),
    "della": (True, 2, 2, {}, {"weight": [0.4, 1.0], "density": [0.5], "epsilon": [0.1]}, True),
    "della_linear": (True, 1, 2, {}, {"weight": [0.4, 1.0], "density": [0.5], "epsilon": [0.1]}, True),
    "multislerp": (False, 2, 3, {"normalize_weights": [True, True, False]}, {"weight": [0.5, 1.0]}, False),
    "nearswap": (True, 1, 1, {"t": [0.01]}, {}, False),
    "ram": (True, 2, 2, {}, {}, False),
    "ramplus_tl": (True, 2, 2, {"r": [0.1, 0.5]}, {}, False),
    "sce": (True, 2, 3, {"select_topk": [0.7, 1.0], "int8_mask": [False, True]}, {}, False),
}


def import_all():
    tensors.install()
    import mergekit.merge  # noqa: F401
    import mergekit.moe  # noqa: F401
    import mergekit.scripts.multimerge  # noqa: F401
    import transformers  # noqa: F401
    import transformers.trainer_utils  # noqa: F401

    shuffle_vocabs()
    transformers.utils.logging.set_verbosity_error()
    transformers.utils.logging.disable_progress_bar()
    import logging

    logging.disable(logging.CRITICAL)


VOCAB_ORDER = [0]


def shuffle_vocabs():
    """get_vocab returns a hash map of the tokenizers library, whose order differs from process to process: seeded here"""
    import zlib

    import transformers

    cls = transformers.PreTrainedTokenizerFast
    if getattr(cls, "_sim_vocab", False):
        return
    real = cls.get_vocab

    def get_vocab(self):
        seed = b"%d" % VOCAB_ORDER[0]
        return dict(sorted(real(self).items(), key=lambda kv: (zlib.crc32(seed + kv[0].encode() + seed), kv[0])))

    cls.get_vocab = get_vocab
    cls.vocab = property(get_vocab)
    cls._sim_vocab = True


def fixtures(ctx, lora=False):
    import torch

    d = os.path.join(ctx.scratch, "fx")
    b = models.save_model(d + "/m0", 1)
    models.save_model(d + "/m1", 2, base_sd=b, layout="sharded")
    models.save_model(d + "/m2", 3, base_sd=b, fmt="bin")
    models.save_model(d + "/m3", 4, base_sd=b, fmt="bin", layout="sharded", nshards=2)
    words = models.BASE_WORDS[:2] + ["<new>"] + models.BASE_WORDS[2:] + ["zz", "yy", "xx"]
    models.save_model(d + "/m4", 5, vocab=len(words), words=words)
    models.save_model(d + "/m5", 6, base_sd=b, dtype=torch.bfloat16, layout="sharded")
    if lora:
        models.save_lora(d + "/lora0", d + "/m0", 7)
        models.save_lora(d + "/lora1", d + "/m0", 8)
    ctx.fx["models"] = d
    family_fixtures(ctx)
    return d


AUTO = ("m6", "m7", "m8")  # an architecture mergekit has no definition of: inferred from the files


def more_fixtures(ctx):
    d = ctx.fx["models"]
    b = models.rand_sd(models.llama_shapes(), 1)
    kw = dict(base_sd=b, arch=("HeliumForCausalLM", "helium"), extra={"head_dim": models.HID // models.HEADS})
    models.save_model(d + "/m6", 9, **kw)
    models.save_model(d + "/m7", 10, layout="sharded", **kw)
    models.save_model(d + "/m8", 11, fmt="bin", **kw)
    return d


# groups of models that can be merged with each other
FAMILIES = {
    "tied": ("ti0", "ti1", "ti2"),  # tied embeddings, one with a stored output matrix
    "experts": ("mx0", "mx1", "mx2"),  # mixture of experts: one tensor per expert, or stacked
    "encdec": ("ed0", "ed1", "ed2"),  # two modules
    "qwen3": ("qw0", "qw1", "qw2"),
    "vision": ("mi0", "mi1", "mi2"),  # three modules, with side files copied along
}


def family(rng):
    return FAMILIES[rng.choice(["tied", "tied", "experts", "experts", "experts", "encdec", "encdec", "qwen3", "vision", "vision"])]


def family_fixtures(ctx):
    d = ctx.fx["models"]
    base = models.rand_sd(models.llama_shapes(), 21)
    for n, kw in (("ti0", {}), ("ti1", {"fmt": "bin", "layout": "sharded"}), ("ti2", {"layout": "sharded"})):
        models.save_any(d + "/" + n, models.llama_config(tie=True), models.llama_shapes(tie=n != "ti2"), ord(n[2]), base, **kw)
    sh = models.mixtral_shapes()
    base = models.rand_sd(sh, 22)
    cfg = dict(models.llama_config(arch="MixtralForCausalLM", model_type="mixtral"), num_local_experts=4, num_experts_per_tok=2, sliding_window=None)
    models.save_any(d + "/mx0", cfg, sh, 1, base, layout="sharded", nshards=4)
    models.save_any(d + "/mx1", cfg, sh, 2, base, fmt="bin")
    models.save_any(d + "/mx2", cfg, models.mixtral_shapes(stacked=True), 3, layout="sharded")
    base = models.rand_sd(models.t5_shapes(), 23)
    models.save_any(d + "/ed0", models.T5_CONFIG, models.t5_shapes(), 1, base)
    models.save_any(d + "/ed1", models.T5_CONFIG, models.t5_shapes(), 2, base, layout="sharded")
    models.save_any(d + "/ed2", models.T5_CONFIG, models.t5_shapes(), 3, base, fmt="bin", drop=("encoder.embed_tokens.weight", "decoder.embed_tokens.weight"))
    base = models.rand_sd(models.mistral3_shapes(), 25)
    for n, kw in (("mi0", {"layout": "sharded"}), ("mi1", {"fmt": "bin"}), ("mi2", {})):
        models.save_any(d + "/" + n, models.mistral3_config(), models.mistral3_shapes(), ord(n[2]), base, **kw)
        for f in ("preprocessor_config.json", "processor_config.json"):
            with open(os.path.join(d, n, f), "w") as fp:
                json.dump({"of": n, "file": f, "image_mean": [0.5] * 40}, fp)
    base = models.rand_sd(models.qwen3_shapes(), 24)
    cfg = dict(models.llama_config(arch="Qwen3ForCausalLM", model_type="qwen3"), head_dim=models.HID // models.HEADS)
    models.save_any(d + "/qw0", cfg, models.qwen3_shapes(), 1, base, layout="sharded")
    models.save_any(d + "/qw1", cfg, models.qwen3_shapes(), 2, base, fmt="bin")
    models.save_any(d + "/qw2", cfg, models.qwen3_shapes(), 3, base)
    return d


def gen_config(rng, methods=None, tokenizers=True, pool=("m0", "m1", "m2", "m3", "m5"), lora=0.0, slices=0.3, randomised=True, full=False):
    names = methods or [m for m in METHODS if randomised or not METHODS[m][5]]
    if pool[0].startswith("mi"):
        slices = 0.0
        names = [m for m in names if m != "passthrough"] or ["linear"]
    m = rng.choice(names)
    base_req, lo, hi, gp, mp, rnd = METHODS[m]
    n = rng.randint(lo, hi)
    base = rng.choice(pool) if base_req or rng.random() < 0.2 and m not in ("passthrough", "slerp", "linear", "karcher") else None
    others = [x for x in pool if x != base]
    rng.shuffle(others)
    others = others[:n]

    def ref(x):
        if lora and rng.random() < lora and x == "m0":
            return "@m0+@lora%d" % rng.randrange(2)
        return "@" + x

    def params():
        return {k: rng.choice(v) for k, v in mp.items()}

    def entry(x):
        e = {"model": ref(x)}
        p = params()
        if p:
            e["parameters"] = p
        return e

    cfg = {"merge_method": m}
    if m == "slerp":
        cfg["base_model"] = "@" + base
        entries = [{"model": "@" + base}] + [entry(x) for x in others]
    else:
        if base:
            cfg["base_model"] = "@" + base
        entries = [entry(x) for x in others]
    g = {k: rng.choice(v) for k, v in gp.items()}
    if g:
        cfg["parameters"] = g
    if m == "passthrough" or rng.random() < slices:
        L = models.LAYERS
        rngs = rng.choice([[(0, L)], [(0, 1), (1, L)], [(0, L), (0, L)], [(0, 1), (0, 1)], [(0, L), (1, L)]])
        if full or pool[0].startswith("qw"):
            rngs = [(0, L)]
        sl = []
        for a, b in rngs:
            if m == "passthrough":
                src = {"model": ref(rng.choice(pool)), "layer_range": [a, b]}
                if rng.random() < 0.3:
                    src["parameters"] = {"scale": rng.choice([0.5, 1.0])}
                sl.append({"sources": [src]})
            else:
                srcs = []
                for e in entries:
                    srcs.append(dict(e, layer_range=[a, b]))
                if base and m != "slerp":
                    srcs.append({"model": "@" + base, "layer_range": [a, b]})
                    if mp:
                        srcs[-1]["parameters"] = params()
                sl.append({"sources": srcs})
        if pool[0].startswith("ed"):
            cfg["modules"] = {k: {"slices": json.loads(json.dumps(sl))} for k in ("encoder", "decoder")}
        else:
            cfg["slices"] = sl
    else:
        cfg["models"] = entries
    if rng.random() < 0.5:
        cfg["dtype"] = rng.choice(["float32", "float32", "bfloat16", "float16"])
    else:
        cfg["dtype"] = "float32"
    if rng.random() < 0.2:
        cfg["out_dtype"] = rng.choice(["bfloat16", "float32"])
    if tokenizers and ("@m4" in _refs(cfg) or rng.random() < 0.35):
        k = rng.choice(["base", "union", "union", "tok"])
        if "@m4" in _refs(cfg) and k == "base":
            k = "union"
        if k == "tok":
            cfg["tokenizer"] = {"source": rng.choice(["union", "base"]), "pad_to_multiple_of": 8}
            if rng.random() < 0.5:
                # a source must take part in the merge of every embedding tensor
                always = [r for r in _refs(cfg) if all(r in _refs(sl) for sl in cfg.get("slices", ()))]
                toks = {}
                for w in rng.sample(["w1", "w2", "w5"], rng.choice([1, 1, 2])):
                    kind = rng.choice(["model", "model", "token", "id"])
                    if not always:
                        break
                    if kind == "model":
                        src = rng.choice(always)
                    elif kind == "token":
                        src = {"kind": "model_token", "model": rng.choice(always), "token": rng.choice(["w1", "w3"])}
                    elif kind == "id":
                        src = {"kind": "model_token", "model": rng.choice(always), "token_id": rng.choice([4, 7])}
                    toks[w] = {"source": src, "force": rng.random() < 0.5}
                if toks:
                    cfg["tokenizer"]["tokens"] = toks
        else:
            cfg["tokenizer_source"] = k
        if rng.random() < 0.3:
            cfg["chat_template"] = rng.choice(["chatml", "auto"])
    return cfg


def _refs(x, out=None):
    out = [] if out is None else out
    if isinstance(x, str):
        if x.startswith("@") and x not in out:
            out.append(x)
    elif isinstance(x, dict):
        for v in x.values():
            _refs(v, out)
    elif isinstance(x, list):
        for v in x:
            _refs(v, out)
    return out


def gen_options(rng, multi=0.0):
    o = {
        "out_shard_size": rng.choice([300, 800, 800, 1500, 10**9, 4000]),
        "safe_serialization": rng.random() < 0.8, "async_write": rng.random() < 0.4,
        "write_threads": rng.choice([1, 2]), "clone_tensors": rng.random() < 0.3,
        "lazy_unpickle": rng.random() < 0.4, "copy_tokenizer": rng.random() < 0.8,
        "write_model_card": rng.random() < 0.7, "low_cpu_memory": rng.random() < 0.2,
        "random_seed": 7,
    }
    if rng.random() < multi:
        o["multi_gpu"] = True
    return o


def gen_merge(rng, multi=0.0, **kw):
    return {"config": gen_config(rng, **kw), "options": gen_options(rng, multi)}


def subst(x, d):
    if isinstance(x, str):
        if x.startswith("@"):
            return "+".join(os.path.join(d, p[1:]) if p.startswith("@") else p for p in x.split("+"))
        return x
    if isinstance(x, list):
        return [subst(v, d) for v in x]
    if isinstance(x, dict):
        return {k: subst(v, d) for k, v in x.items()}
    return x


def do_merge(spec, mdir, out, cache=None):
    """The code under test: one merge in this process."""
    import yaml

    from mergekit.config import MergeConfiguration
    from mergekit.merge import MergeOptions, run_merge

    cfg = subst(spec["config"], mdir)
    opts = dict(spec["options"], quiet=True)
    if cache:
        opts["lora_merge_cache"] = cache
    src = yaml.safe_dump(cfg)
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(**opts), config_source=src)


def use_tmp(d):
    t = os.path.join(d, "tmp")
    os.makedirs(t, exist_ok=True)
    os.environ["TMPDIR"] = t
    tempfile.tempdir = t


NORM = ()  # byte strings (run directories) replaced before hashing text files


def file_digest(p):
    with open(p, "rb") as f:
        b = f.read()
    if p.endswith((".md", ".yml", ".json", ".jinja", ".txt")):
        for n in NORM:
            b = b.replace(n, b"@RUN")
    return hashlib.sha256(b).hexdigest()[:24]


def normalise(*dirs):
    global NORM
    NORM = tuple(os.fsencode(x) for x in dirs)


def tree(d, skip=()):
    """relative path -> digest of every file below d"""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            r = os.path.relpath(p, d)
            if r not in skip:
                out[r] = file_digest(p)
    return out


WEIGHT_EXT = (".safetensors", ".bin", ".index.json")


def observe(out):
    """-> {'weights': {...} | None, 'why': str, 'files': {...}}"""
    o = {"weights": None, "why": None, "files": {}}
    if os.path.isdir(out):
        try:
            o["weights"] = tensors.load_dir(out)
        except tensors.Unloadable as e:
            o["why"] = str(e)
        o["files"] = {k: v for k, v in tree(out).items() if not k.endswith(WEIGHT_EXT)}
    else:
        o["why"] = "no directory"
    return o


def ref_key(spec):
    return hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:24]


def diff_weights(a, b):
    """short description of how mapping b differs from a"""
    miss = sorted(set(a) - set(b))
    extra = sorted(set(b) - set(a))
    diff = sorted(k for k in a if k in b and a[k] != b[k])
    return "missing %s, extra %s, different %s" % (miss[:4], extra[:4], diff[:4])


EXTRA_G = {
    "normalize": [True, False], "rescale": [True, False], "lambda": [1.0, 0.5, [0.3, 0.9]], "int8_mask": [True, False],
    "nuslerp_row_wise": [True, False], "nuslerp_flatten": [True, False], "filter_wise": [True, False], "normalize_weights": [True, False],
    "max_iter": [1, 10], "select_topk": [0.4, 1.0], "r": [0.1, 0.5], "alpha": [0.2, 0.6],
}
EXTRA_M = {"weight": [0.0, 0.4, 1.0, -0.5], "density": [0.3, 1.0], "gamma": [0.05, 0.2], "epsilon": [0.05, 0.1], "scale": [0.5, 1.0]}


def enrich(rng, cfg):
    """More of the parameter language: gradients, filters, rarely used parameters (in place)."""
    from mergekit import merge_methods

    m = merge_methods.get(cfg["merge_method"])

    def setting(v):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return v
        k = rng.random()
        if k < 0.6:
            return v
        if k < 0.8:
            return [v, v * 0.5, v]
        return [{"filter": rng.choice(["self_attn", "mlp", "embed_tokens", "input_layernorm"]), "value": v * 0.7}, {"value": v}]

    g = cfg.setdefault("parameters", {})
    for p in m.parameters():
        if p.name in EXTRA_G and rng.random() < 0.5:
            g[p.name] = rng.choice(EXTRA_G[p.name])
    if not g:
        del cfg["parameters"]
    ents = list(cfg.get("models", []))
    for s in cfg.get("slices", []):
        ents += s["sources"]
    base = cfg.get("base_model")
    for e in ents:
        if e["model"] == base and cfg["merge_method"] == "slerp":
            continue
        p = e.setdefault("parameters", {})
        for q in m.tensor_parameters():
            if q.name in EXTRA_M and rng.random() < (0.5 if q.name in p or q.name == "scale" else 0.2):
                p[q.name] = rng.choice(EXTRA_M[q.name])
            if q.name in p:
                p[q.name] = setting(p[q.name])
        if not p:
            del e["parameters"]
    return cfg
