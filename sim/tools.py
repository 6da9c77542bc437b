"""Every tool that writes a model, driven through its command line (or run_merge),
as one operation: do_op(spec, models_dir, out, cache)."""
import os
import shutil

import yaml

from sim import evolve_op
from sim import mergework as mw
from sim import models

TOOLS = ["merge", "yaml", "moe", "raw", "lora", "surgeon", "fill", "multi", "legacy", "evolve"]


def import_tools(names=TOOLS):
    mw.import_all()
    import importlib

    for n, m in {"yaml": "run_yaml", "moe": "moe", "raw": "merge_raw_pytorch", "lora": "extract_lora",
                 "surgeon": "tokensurgeon", "fill": "fill_missing_params", "multi": "multimerge", "legacy": "legacy"}.items():
        if n in names:
            importlib.import_module("mergekit.scripts." + m)
    if "evolve" in names:
        evolve_op.install()


def extra_fixtures(ctx):
    """inputs of the other tools; needs mw.fixtures first"""
    import torch

    d = ctx.fx["models"]
    b = models.rand_sd(models.llama_shapes(), 1)
    # raw single-file checkpoints
    os.makedirs(d + "/raw", exist_ok=True)
    from safetensors.torch import save_file

    for k in range(3):
        sd = {n: (b[n] + 0.1 * k * torch.ones_like(b[n])).contiguous() for n in list(b)[:8]}
        if k == 2:
            torch.save(sd, d + "/raw/r2.bin")
        else:
            save_file(sd, d + "/raw/r%d.safetensors" % k, metadata={"format": "pt"})
    # base model with more parameters than a sub-model, sharded and single
    sd = {"lm." + k: v + 1 for k, v in b.items()}
    sd["vision.proj.weight"] = torch.arange(12.0).reshape(3, 4)
    for name, lay in (("fbase", "sharded"), ("fbase1", "single")):
        models.save_shards(d + "/" + name, sd, lay)
        with open(d + "/%s/config.json" % name, "w") as f:
            f.write('{"model_type": "llama"}')


SURGEON = ["common_interpolation", "mean", "zero", "omp", "landmark_pca", "subword", "common_interpolation", "omp", "randn"]


def _opts(o):
    a = []
    for k, v in o.items():
        if k in ("multi_gpu", "quiet"):
            if v:
                a.append("--" + k.replace("_", "-"))
            continue
        f = k.replace("_", "-")
        if isinstance(v, bool):
            a.append(("--" if v else "--no-") + f)
        else:
            a += ["--" + f, str(v)]
    return a


def gen_op(rng, tools=("merge",), multi=0.0, families=0.25, **kw):
    t = rng.choice(tools)
    o = mw.gen_options(rng, multi if t in ("merge", "yaml", "lora") else 0.0)
    s = {"tool": t, "options": o}
    if t in ("merge", "yaml"):
        if kw.get("lora", 0) < 1 and rng.random() < families:
            kw.update(pool=mw.family(rng), lora=0.0)
        s["config"] = mw.gen_config(rng, **kw)
    elif t == "moe":
        ex = [{"source_model": "@" + m, "positive_prompts": ["w%d" % i]} for i, m in enumerate(rng.sample(["m0", "m1", "m2", "m3"], rng.choice([2, 2, 2, 3])))]
        s["config"] = {"base_model": "@m0", "experts": ex, "gate_mode": rng.choice(["random", "cheap_embed"]), "dtype": "float32"}
        if rng.random() < 0.3:
            ex[0]["residual_scale"] = 0.5
            ex[1]["noise_scale"] = 0.01
        if rng.random() < 0.6:
            moe_variant(rng, s["config"])
    elif t == "raw":
        m = rng.choice(["linear", "multislerp", "linear", "task_arithmetic", "ties", "dare_linear"])
        fs = rng.sample(["@raw/r0.safetensors", "@raw/r1.safetensors", "@raw/r2.bin"], rng.choice([2, 2, 3]))
        s["config"] = {"merge_method": m, "models": [{"model": f, "parameters": {"weight": rng.choice([0.3, 0.7])}} for f in fs]}
        if m not in ("linear", "multislerp"):
            s["config"]["base_model"] = fs[0]
            for x in s["config"]["models"]:
                x["parameters"]["density"] = 1.0 if m == "task_arithmetic" else 0.5
        if rng.random() < 0.3:
            s["config"]["dtype"] = rng.choice(["float32", "bfloat16"])
    elif t == "lora":
        s["model"], s["base"] = "@m1", "@m0"
        s["args"] = ["--max-rank", str(rng.choice([2, 4]))] + (["--embed-lora"] if rng.random() < 0.5 else [])
        for p, a in ((0.3, ["--no-distribute-scale"]), (0.2, ["--exclude-regex", "mlp"]),
                     (0.2, ["--include-regex", "self_attn"]), (0.2, ["--sv-epsilon", "0.05"]), (0.2, ["--skip-undecomposable"])):
            if rng.random() < p:
                s["args"] += a
    elif t == "surgeon":
        s["model"], s["donor"] = "@m0", "@m4"
        s["args"] = ["--approximation-method", rng.choice(SURGEON), "--k", "3"] + (["--magikarp"] if rng.random() < 0.15 else [])
        for p, o2, vs in ((0.4, "--batch-size", ["1", "2", "-1"]), (0.4, "--weight-scheme", ["distance_proportional", "barycentric", "least_squares"]),
                          (0.3, "--subword-method", ["mean", "sum", "weighted_mean", "first_last"]), (0.2, "--prefix-match", ["yes", "embed"]),
                          (0.2, "--byte-match", ["yes", "lm_head"]), (0.2, "--new-vocab-noise", ["0.1"]), (0.2, "--new-vocab-scale", ["0.5"])):
            if rng.random() < p and not (o2.startswith("--new-vocab") and "mean" in s["args"]):
                s["args"] += [o2, rng.choice(vs)]
        if rng.random() < 0.2:
            s["args"].append("--cosine-similarity")
    elif t == "fill":
        s["base"] = rng.choice(["@fbase", "@fbase1"])
        s["model"] = rng.choice(["@m0", "@m1"])
        s["args"] = ["--max_shard_size", str(rng.choice([600, 10**9]))]
    elif t == "legacy":
        ms = rng.sample(["m0", "m1", "m2", "m3"], rng.choice([2, 2, 3]))
        m = rng.choice(["ties", "linear", "slerp", "task_arithmetic", "dare_ties"])
        s["models"] = ["@" + x for x in (ms[:2] if m == "slerp" else ms)]
        s["args"] = ["--method", m] + (["--bf16"] if rng.random() < 0.3 else []) + (["--int8-mask"] if rng.random() < 0.3 else [])
        if m == "slerp":
            s["args"] += ["--weight", "0.4"]
        else:
            s["args"] += [x for _ in s["models"] for x in ("--weight", str(rng.choice([0.3, 0.7, 1.0])))]
        if m not in ("linear",):
            s["base"] = rng.choice(s["models"]) if m == "slerp" else rng.choice(s["models"] + ["@m1"])
        if m in ("ties", "dare_ties") and rng.random() < 0.7:
            s["args"] += ["--density", "0.5"]
    elif t == "multi":
        s["docs"] = gen_stages(rng, **kw)
    elif t == "evolve":
        s.update(evolve_op.gen(rng, kw.get("lora", 0)))
    return s


def moe_variant(rng, cfg):
    """other output architectures and ways to get gates"""
    cfg["gate_mode"] = rng.choice(["random", "uniform_random", "cheap_embed", "hidden", "hidden", "hidden_avg"])
    if rng.random() < 0.4:
        cfg["experts"][1]["negative_prompts"] = ["w3 w4"]
    k = rng.choice(["mixtral", "qwen", "qwen", "deepseek", "deepseek", "qwen3", "qwen3"])
    if k == "qwen3":
        cfg["base_model"] = "@qw0"
        for e, m in zip(cfg["experts"], ("@qw1", "@qw0", "@qw2")):
            e["source_model"] = m
    elif k != "mixtral":
        cfg["architecture"] = k
        if k == "qwen" or rng.random() < 0.7:
            cfg["shared_experts"] = [{"source_model": rng.choice([e["source_model"] for e in cfg["experts"]] + [cfg["base_model"]])}]
            if k == "qwen":
                cfg["shared_experts"][0]["positive_prompts"] = ["w5"]
            if rng.random() < 0.3:
                cfg["shared_experts"][0]["residual_scale"] = 0.5


def gen_stages(rng, n=None, shuffle=True, **kw):
    """A random stage graph: list of documents; the last (unnamed, optional) is final."""
    n = n or rng.choice([1, 2, 2, 3])
    kw.setdefault("tokenizers", False)
    names = rng.sample(["alpha", "beta", "gamma", "delta", "s1", "s10"], n)
    docs = []
    final = rng.random() < 0.8
    ins = ("m0", "m1", "m3")
    kw.pop("pool", None)
    for k in range(n + (1 if final else 0)):
        pool = ins + tuple(names[:k])
        c = mw.gen_config(rng, pool=pool, slices=0.1, full=True, methods=["linear", "slerp", "ties", "task_arithmetic", "nuslerp", "passthrough"], **kw)
        c = _unat(c, names)
        if k < n:
            c["name"] = names[k]
        docs.append(c)
    if shuffle:
        rng.shuffle(docs)
    return docs


def _unat(x, names):
    if isinstance(x, str):
        return x[1:] if x[1:] in names else x
    if isinstance(x, list):
        return [_unat(v, names) for v in x]
    if isinstance(x, dict):
        return {k: _unat(v, names) for k, v in x.items()}
    return x


def side_dirs(out):
    """directories other than `out` in which the operation keeps its results"""
    return {"stages": out + ".stages", "evolve": evolve_op.side(out)}


def do_op(spec, mdir, out, cache=None, work=None, lazy=True):
    """Runs the tool; returns the mergekit process's normal completion or raises."""
    t = spec["tool"]
    work = work or os.path.dirname(out)
    if t == "merge":
        return mw.do_merge(spec, mdir, out, cache)
    o = dict(spec["options"])
    if cache and t in ("yaml", "multi"):
        o["lora_merge_cache"] = cache
    o["quiet"] = True
    opts = _opts(o)
    if t in ("yaml", "moe", "raw"):
        cf = os.path.join(work, "config.yml")
        if not os.path.exists(cf):
            with open(cf, "w") as f:
                yaml.safe_dump(mw.subst(spec["config"], mdir), f)
    if t == "yaml":
        from mergekit.scripts.run_yaml import main

        main.main([cf, out] + opts, standalone_mode=False)
    elif t == "moe":
        from mergekit.scripts.moe import main

        main.main([cf, out] + opts, standalone_mode=False)
    elif t == "raw":
        from mergekit.scripts.merge_raw_pytorch import main

        main.main([cf, out] + opts, standalone_mode=False)
    elif t == "lora":
        from mergekit.scripts.extract_lora import main

        main.main(["--model", mw.subst(spec["model"], mdir), "--base-model", mw.subst(spec["base"], mdir), "--out-path", out]
                  + spec["args"] + opts, standalone_mode=False)
    elif t == "surgeon":
        from mergekit.scripts.tokensurgeon import main

        main.main([mw.subst(spec["model"], mdir), mw.subst(spec["donor"], mdir), out] + spec["args"] + opts, standalone_mode=False)
    elif t == "fill":
        from mergekit.scripts.fill_missing_params import main

        main.main([mw.subst(spec["base"], mdir), mw.subst(spec["model"], mdir), "--output_dir", out] + spec["args"], standalone_mode=False)
    elif t == "legacy":
        from mergekit.scripts.legacy import main

        main.main([out] + [x for m in spec["models"] for x in ("--merge", mw.subst(m, mdir))]
                  + (["--base-model", mw.subst(spec["base"], mdir)] if "base" in spec else []) + spec["args"] + opts, standalone_mode=False)
    elif t == "evolve":
        evolve_op.do(spec, os.path.join(work, "evolve.yml"), out)
    elif t == "multi":
        from mergekit.scripts.multimerge import main

        cf = os.path.join(work, "multi.yml")
        if not os.path.exists(cf):
            write_docs(spec, mdir, cf)
        main.main([cf, "-I", side_dirs(out)["stages"], "--out-path", out] + (["--lazy"] if lazy else ["--no-lazy"]) + opts, standalone_mode=False)


def docs_of(spec):
    """the documents as written: some model references in their long form"""
    import zlib

    if not spec.get("long"):
        return spec["docs"]

    def ref(v):
        if v in ("union", "base") or zlib.crc32(("%s %s" % (spec["long"], v)).encode()) % 2:
            return v
        a, *b = v.split("+")
        o = {"model": {"path": a}, "override_architecture": "LlamaForCausalLM"}
        if b:
            o["lora"] = {"path": b[0]}
        return o

    def walk(x):
        if isinstance(x, list):
            return [walk(v) for v in x]
        if isinstance(x, dict):
            return {k: ref(v) if k in ("model", "base_model", "tokenizer_source", "source") and isinstance(v, str) else walk(v) for k, v in x.items()}
        return x

    return [walk(d) for d in spec["docs"]]


def write_docs(spec, mdir, path):
    with open(path, "w") as f:
        f.write("\n---\n".join(yaml.safe_dump(mw.subst(dd, mdir), sort_keys=False) for dd in docs_of(spec)))


def write_inputs(spec, mdir, out, work=None):
    """pre-create the configuration files do_op reads"""
    work = work or os.path.dirname(out)
    if spec["tool"] in ("yaml", "moe", "raw"):
        with open(os.path.join(work, "config.yml"), "w") as f:
            yaml.safe_dump(mw.subst(spec["config"], mdir), f)
    elif spec["tool"] == "multi":
        write_docs(spec, mdir, os.path.join(work, "multi.yml"))
    elif spec["tool"] == "evolve":
        with open(os.path.join(work, "evolve.yml"), "w") as f:
            yaml.safe_dump({"genome": mw.subst(spec["genome"], mdir), "tasks": ["t1"]}, f)


LORA_NAMES = ["adapter_model.safetensors.index.json", "adapter_model.safetensors", "adapter_model.bin.index.json", "adapter_model.bin"]


def observe(spec, out):
    from sim import tensors

    if spec["tool"] == "lora":
        o = {"weights": None, "why": None, "files": {}}
        if os.path.isdir(out):
            try:
                o["weights"] = tensors.load_dir(out, LORA_NAMES)
            except tensors.Unloadable as e:
                o["why"] = str(e)
            o["files"] = {k: v for k, v in mw.tree(out).items() if not k.endswith(mw.WEIGHT_EXT)}
        return o
    o = mw.observe(out)
    if spec["tool"] == "evolve":
        for f in ("evaluated.json", "evaluated_tokenizer.json"):
            o["files"]["(%s)" % f] = mw.file_digest(os.path.join(evolve_op.side(out), f))
    if spec["tool"] == "multi":
        o["stages"] = {}
        sd = side_dirs(out)["stages"]
        for dd in spec["docs"]:
            if "name" in dd:
                o["stages"][dd["name"]] = mw.observe(os.path.join(sd, dd["name"]))
    return o


def rmtree(p):
    shutil.rmtree(p, ignore_errors=True)
