"""Tiny checkpoints, built without mergekit code."""
import json
import os

import torch

HID, INTER, HEADS, VOCAB, LAYERS = 8, 12, 2, 16, 2


def llama_config(layers=LAYERS, vocab=VOCAB, tie=False, dtype="float32", arch="LlamaForCausalLM", model_type="llama"):
    return {
        "architectures": [arch], "model_type": model_type, "hidden_size": HID,
        "intermediate_size": INTER, "num_attention_heads": HEADS, "num_key_value_heads": HEADS,
        "num_hidden_layers": layers, "vocab_size": vocab, "max_position_embeddings": 64,
        "rms_norm_eps": 1e-6, "hidden_act": "silu", "tie_word_embeddings": tie,
        "bos_token_id": 1, "eos_token_id": 2, "torch_dtype": dtype,
    }


def llama_shapes(layers=LAYERS, vocab=VOCAB, tie=False):
    s = {"model.embed_tokens.weight": (vocab, HID), "model.norm.weight": (HID,)}
    if not tie:
        s["lm_head.weight"] = (vocab, HID)
    for i in range(layers):
        p = "model.layers.%d." % i
        for k in "qkvo":
            s[p + "self_attn.%s_proj.weight" % k] = (HID, HID)
        s[p + "mlp.gate_proj.weight"] = (INTER, HID)
        s[p + "mlp.up_proj.weight"] = (INTER, HID)
        s[p + "mlp.down_proj.weight"] = (HID, INTER)
        s[p + "input_layernorm.weight"] = (HID,)
        s[p + "post_attention_layernorm.weight"] = (HID,)
    return s


def mixtral_shapes(experts=4, stacked=False, layers=LAYERS, vocab=VOCAB):
    """stacked: the layout of transformers 5; else the one published checkpoints have"""
    s = {k: v for k, v in llama_shapes(layers, vocab).items() if ".mlp." not in k}
    for i in range(layers):
        p = "model.layers.%d." % i
        if stacked:
            s[p + "mlp.gate.weight"] = (experts, HID)
            s[p + "mlp.experts.gate_up_proj"] = (experts, 2 * INTER, HID)
            s[p + "mlp.experts.down_proj"] = (experts, HID, INTER)
            continue
        s[p + "block_sparse_moe.gate.weight"] = (experts, HID)
        for j in range(experts):
            e = p + "block_sparse_moe.experts.%d." % j
            s[e + "w1.weight"] = s[e + "w3.weight"] = (INTER, HID)
            s[e + "w2.weight"] = (HID, INTER)
    return s


def qwen3_shapes(layers=LAYERS, vocab=VOCAB):
    s = llama_shapes(layers, vocab)
    for i in range(layers):
        for k in "qk":
            s["model.layers.%d.self_attn.%s_norm.weight" % (i, k)] = (HID // HEADS,)
    return s


def mistral3_shapes(layers=LAYERS, vocab=VOCAB):
    """text, vision and projector modules"""
    s = {"language_model." + k: v for k, v in llama_shapes(layers, vocab).items()}
    for k in ("linear_1", "linear_2", "patch_merger.merging_layer"):
        s["multi_modal_projector.%s.weight" % k] = (HID, HID)
    s["multi_modal_projector.norm.weight"] = s["vision_tower.ln_pre.weight"] = (HID,)
    s["vision_tower.patch_conv.weight"] = (HID, 3, 2, 2)
    for i in range(layers):
        p = "vision_tower.transformer.layers.%d." % i
        s[p + "ffn_norm.weight"] = s[p + "attention_norm.weight"] = (HID,)
        for k in "qkvo":
            s[p + "attention.%s_proj.weight" % k] = (HID, HID)
        s[p + "feed_forward.gate_proj.weight"] = s[p + "feed_forward.up_proj.weight"] = (INTER, HID)
        s[p + "feed_forward.down_proj.weight"] = (HID, INTER)
    return s


def mistral3_config(layers=LAYERS):
    t = llama_config(layers, model_type="mistral", arch="MistralForCausalLM")
    t["sliding_window"] = None
    return {
        "architectures": ["Mistral3ForConditionalGeneration"], "model_type": "mistral3", "text_config": t,
        "vision_config": {"model_type": "pixtral", "hidden_size": HID, "intermediate_size": INTER, "num_hidden_layers": layers,
                          "num_attention_heads": HEADS, "image_size": 4, "patch_size": 2},
        "image_token_index": 3, "spatial_merge_size": 1, "torch_dtype": "float32", "tie_word_embeddings": False,
    }


def t5_shapes(layers=LAYERS, vocab=VOCAB):
    s = {"shared.weight": (vocab, HID), "encoder.embed_tokens.weight": (vocab, HID), "decoder.embed_tokens.weight": (vocab, HID),
         "lm_head.weight": (vocab, HID)}
    for m in ("encoder", "decoder"):
        s[m + ".final_layer_norm.weight"] = (HID,)
        for i in range(layers):
            p = "%s.block.%d.layer." % (m, i)
            atts = ["0.SelfAttention"] + (["1.EncDecAttention"] if m == "decoder" else [])
            for a in atts:
                for k in "qkvo":
                    s["%s%s.%s.weight" % (p, a, k)] = (HID, HID)
            if i == 0:
                s[p + "0.SelfAttention.relative_attention_bias.weight"] = (32, HEADS)
            f = len(atts)
            for k in range(f + 1):
                s[p + "%d.layer_norm.weight" % k] = (HID,)
            s[p + "%d.DenseReluDense.wi_0.weight" % f] = s[p + "%d.DenseReluDense.wi_1.weight" % f] = (INTER, HID)
            s[p + "%d.DenseReluDense.wo.weight" % f] = (HID, INTER)
    return s


T5_CONFIG = {
    "architectures": ["T5ForConditionalGeneration"], "model_type": "t5", "d_model": HID, "d_kv": HID // HEADS, "d_ff": INTER,
    "num_layers": LAYERS, "num_decoder_layers": LAYERS, "num_heads": HEADS, "feed_forward_proj": "gated-gelu", "vocab_size": VOCAB,
    "tie_word_embeddings": False, "is_encoder_decoder": True, "torch_dtype": "float32", "decoder_start_token_id": 0,
    "bos_token_id": 1, "eos_token_id": 2, "pad_token_id": 0,
}


def save_any(path, config, shapes, seed, base=None, layout="single", fmt="safetensors", drop=(), nshards=3, tok=True):
    os.makedirs(path, exist_ok=True)
    sd = rand_sd(shapes, seed, base=base)
    for k in drop:
        sd.pop(k)
    json.dump(config, open(os.path.join(path, "config.json"), "w"), indent=1)
    save_shards(path, sd, layout, fmt, nshards)
    if tok:
        save_tokenizer(path, BASE_WORDS)
    return sd


def rand_sd(shapes, seed, dtype=torch.float32, base=None, scale=0.1):
    g = torch.Generator().manual_seed(seed)
    sd = {}
    for k in sorted(shapes):
        x = torch.randn(shapes[k], generator=g)
        sd[k] = (x if base is None else base[k].float() + scale * x).to(dtype)
    return sd


def save_shards(path, sd, layout="single", fmt="safetensors", nshards=3, prefix=None):
    """layout: single | sharded"""
    from safetensors.torch import save_file

    os.makedirs(path, exist_ok=True)
    ext = fmt
    prefix = prefix or ("model" if fmt == "safetensors" else "pytorch_model")

    def put(d, f):
        p = os.path.join(path, f)
        d = {k: v.contiguous() for k, v in d.items()}
        if fmt == "safetensors":
            save_file(d, p, metadata={"format": "pt"})
        else:
            torch.save(d, p)

    if layout == "single":
        put(sd, "%s.%s" % (prefix, ext))
        return
    keys = list(sd)
    wm = {}
    for j in range(nshards):
        f = "%s-%05d-of-%05d.%s" % (prefix, j + 1, nshards, ext)
        part = {k: sd[k] for k in keys[j::nshards]}
        put(part, f)
        wm.update({k: f for k in part})
    with open(os.path.join(path, "%s.%s.index.json" % (prefix, ext)), "w") as fp:
        json.dump({"metadata": {"total_size": sum(v.numel() * v.element_size() for v in sd.values())}, "weight_map": wm}, fp)


def save_tokenizer(path, words):
    """WordLevel tokenizer with the given vocabulary."""
    os.makedirs(path, exist_ok=True)
    vocab = {w: i for i, w in enumerate(words)}
    tok = {
        "version": "1.0", "truncation": None, "padding": None,
        "added_tokens": [
            {"id": vocab[w], "content": w, "single_word": False, "lstrip": False, "rstrip": False,
             "normalized": False, "special": True}
            for w in words if w.startswith("<")
        ],
        "normalizer": None, "pre_tokenizer": {"type": "Whitespace"}, "post_processor": None, "decoder": None,
        "model": {"type": "WordLevel", "vocab": vocab, "unk_token": "<unk>"},
    }
    json.dump(tok, open(os.path.join(path, "tokenizer.json"), "w"))
    json.dump(
        {"tokenizer_class": "PreTrainedTokenizerFast", "unk_token": "<unk>", "bos_token": "<s>", "eos_token": "</s>",
         "model_max_length": 64},
        open(os.path.join(path, "tokenizer_config.json"), "w"),
    )
    json.dump({"unk_token": "<unk>", "bos_token": "<s>", "eos_token": "</s>"}, open(os.path.join(path, "special_tokens_map.json"), "w"))


BASE_WORDS = ["<unk>", "<s>", "</s>"] + ["w%d" % i for i in range(VOCAB - 3)]


def save_model(path, seed, layers=LAYERS, vocab=VOCAB, layout="single", fmt="safetensors", tok=True, words=None,
               base_sd=None, dtype=torch.float32, tie=False, drop=(), nshards=3, arch=("LlamaForCausalLM", "llama"), extra=None):
    os.makedirs(path, exist_ok=True)
    sd = rand_sd(llama_shapes(layers, vocab, tie), seed, dtype, base_sd)
    for k in drop:
        sd.pop(k)
    json.dump(dict(llama_config(layers, vocab, tie, str(dtype).replace("torch.", ""), *arch), **(extra or {})), open(os.path.join(path, "config.json"), "w"), indent=1)
    save_shards(path, sd, layout, fmt, nshards)
    if tok:
        save_tokenizer(path, words or BASE_WORDS[:vocab])
    return sd


def save_lora(path, base_path, seed, rank=2):
    """A PEFT LoRA adapter over the attention projections."""
    from safetensors.torch import save_file

    os.makedirs(path, exist_ok=True)
    g = torch.Generator().manual_seed(seed)
    sd = {}
    for i in range(LAYERS):
        for k in "qv":
            p = "base_model.model.model.layers.%d.self_attn.%s_proj." % (i, k)
            sd[p + "lora_A.weight"] = torch.randn((rank, HID), generator=g) * 0.3
            sd[p + "lora_B.weight"] = torch.randn((HID, rank), generator=g) * 0.3
    save_file(sd, os.path.join(path, "adapter_model.safetensors"), metadata={"format": "pt"})
    json.dump(
        {"peft_type": "LORA", "base_model_name_or_path": base_path, "r": rank, "lora_alpha": 2 * rank,
         "target_modules": ["q_proj", "v_proj"], "lora_dropout": 0.0, "bias": "none", "task_type": "CAUSAL_LM",
         "inference_mode": True, "fan_in_fan_out": False},
        open(os.path.join(path, "adapter_config.json"), "w"),
    )
