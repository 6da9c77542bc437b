#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long lines stay readable)."""
import json, os

P = []
M = {"schedule": "schedules", "input": "inputs", "fault point": "fault_sequences", "history": "histories",
     "crash point": "crash_points", "process environment": "configurations"}


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": [M[o] for o in over], "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
    })


p("C01", "Parallel multi-device execution gives the same results as serial execution",
  "For every task graph and every number of devices, executing it in parallel delivers exactly one result per requested target, equal to what serial execution delivers. Every unit of work runs exactly once (once per device if it is marked as duplicated per device), only after all of its inputs are available, and work marked as main-thread-only runs on the calling thread.",
  ["schedule", "input"], "every dependency graph, device count and thread interleaving",
  "Tests run one or two graphs under whatever schedule the OS picks; losing or duplicating a result needs a particular interleaving of workers, result queue and consumer.",
  ["mergekit/multigpu_executor.py", "mergekit/graph.py"],
  [("island partitioning, result queue and consumer loop", "MultiGPUExecutor.run"), ("serial reference", "Executor.run")])
p("C02", "Failures in parallel execution surface and the run always terminates",
  "When any unit of work raises, the consumer is interrupted or stops early, or a worker thread cannot be started, parallel execution reports an error to the caller (the original one for failing work) instead of reporting success or blocking. It always ends within a bounded number of steps, leaving no thread of its own running, so the process can exit.",
  ["schedule", "fault point"], "every graph, every failing task or interrupt position, every interleaving",
  "A hang or swallowed exception depends on where the failure lands relative to other workers and the queue; tests do not inject failures into the executor at all.",
  ["mergekit/multigpu_executor.py"], [("exception propagation and worker shutdown", "MultiGPUExecutor.run, _device_worker, update_progress")])
p("C03", "Intermediate results live exactly as long as they are needed",
  "During serial execution every value is available to all of its consumers, is computed at most once, and is dropped once its last consumer has run, so memory is bounded by the live values of the schedule and not by the size of the merge. Values supplied in advance are used and not recomputed, and abandoning or failing an execution releases everything it held.",
  ["input", "history", "schedule"], "every graph, target set, preset values and point at which the run is abandoned or fails",
  "Lifetime errors depend on graph shape and schedule; tests check final values only and never look at liveness.",
  ["mergekit/graph.py"], [("schedule construction and last-use computation", "Executor._make_schedule, Executor._compute_value_lifetimes / run")])
p("C04", "A finalized output holds exactly the tensors that were saved",
  "Whatever threads save tensors and in whatever order, with foreground or background writing, any shard size limit and any format, after finalisation the output directory contains every saved tensor exactly once with its saved name, dtype, shape and contents and nothing else. Shard files are numbered contiguously, respect the size limit unless a single tensor exceeds it, the index and its total size agree with the files, no temporary file remains, and no more background writes run at once than configured.",
  ["schedule", "input"], "every set of tensors, every assignment to threads, every interleaving and writer configuration",
  "Losing or misfiling a tensor needs a particular interleaving of savers and flushes; tests save from one thread with one or two settings.",
  ["mergekit/io/tensor_writer.py", "mergekit/io/tasks.py"], [("shard accumulation, flush and finalisation", "TensorWriter.save_tensor, _flush_current_shard, finalize")])
p("C05", "A reported success means complete output; every failed write is reported",
  "If any file operation needed to produce an output model fails (disk full, I/O error, failing rename, failing creation, in the foreground or in a background writer), the operation reports an error to its caller and never success. Partial (short) writes that the operating system allows do not damage the output. The only exception is the documented best-effort copying of tokenizer files, which may only cost tokenizer files.",
  ["fault point", "schedule", "input"], "every failing file operation at every position, every write mode and every tool that writes a model",
  "Tests never make a write fail, and only some positions and modes (background futures, the last flush, the index) swallow the error.",
  ["mergekit/io/tensor_writer.py", "mergekit/merge.py", "mergekit/scripts/multimerge.py", "mergekit/moe/moe.py"],
  [("background write futures and finalisation", "TensorWriter.finalize, _flush_current_shard"), ("output of config, card, tokenizer, tag-along files", "run_merge")])
p("C06", "A crash never leaves a partial model that looks complete",
  "If the process dies, or the operation fails, at any point while writing an output model, the weights in the output directory are either not loadable as a model, or are exactly the complete new model, or (when the directory already held a model) exactly the complete previous one. They are never a partial model and never a mixture of old and new tensors. After a reported success the directory loads as exactly the new model.",
  ["crash point", "history", "schedule"], "every point of process death, every prior content of the directory, every write mode",
  "Tests never kill the process; the window between renaming shards, replacing the index and removing stale files only shows at particular crash points.",
  ["mergekit/io/tensor_writer.py"], [("rename and index publication order", "TensorWriter.finalize")])
p("C07", "Rerunning after any crash or failure gives the same result as a fresh run",
  "After a run was killed or failed at any point, running the same command again with the same directories completes and produces the same model as a run in a clean environment. Nothing left behind by the earlier attempt (partial shards, an old index, a half-written merged adapter) is picked up as if it were complete.",
  ["crash point", "fault point", "history"], "every crash or failure point of the first run, every output layout of earlier runs, every merge",
  "Tests always start from empty directories; trusting leftovers only shows after a death at a particular point.",
  ["mergekit/io/tensor_writer.py", "mergekit/common.py", "mergekit/merge.py"],
  [("reuse of merged adapters", "ModelReference.merged"), ("overwriting an existing output", "TensorWriter.finalize")])
p("C08", "Concurrent readers get exactly the stored tensors",
  "Reading tensors from a checkpoint, from any number of threads, in any order, for any file layout (single file or shards, either file format, eager or lazy unpickling, tensors sharing storage), returns exactly the stored values, dtype and shape for every name. Missing names are reported, not invented, and reading leaves the process-wide unpickling behaviour as it was.",
  ["schedule", "input"], "every checkpoint layout, every set of reads over threads, every interleaving",
  "The loaders share the current shard and patch global unpickling hooks; mix-ups need two readers interleaved at particular points.",
  ["mergekit/io/lazy_tensor_loader.py", "mergekit/io/loader.py", "mergekit/io/lazy_unpickle.py"],
  [("current-shard lock", "LazyTensorLoader.get_tensor"), ("lazy unpickling patches", "torch_lazy_load, DeferredLoad.execute")])
p("C09", "Damaged or unreadable inputs are never silently merged",
  "If an input checkpoint is missing a shard or a required tensor, is truncated, or cannot be read (any read failing at any point of the merge), the merge fails with an error and never completes with a model built from missing or wrong data. A merge that does report success produced the same weights as with intact inputs.",
  ["fault point", "input"], "every damaged file, every read failing at any position, every layout and merge",
  "Tests use intact inputs; read errors at a particular point may be swallowed by fallbacks (optional tensors, alternative names, alternative loaders).",
  ["mergekit/io/tasks.py", "mergekit/io/lazy_tensor_loader.py", "mergekit/plan.py"],
  [("required and optional tensors", "LoadTensor.execute, SaveTensor.execute"), ("shard lookup", "LazyTensorLoader.get_tensor")])
p("C10", "Merges are reproducible",
  "Running the same merge configuration with the same inputs, options and seed produces byte-for-byte the same output files, independent of string hash randomisation, output directory, and of whether and how background writes interleave. Multi-device execution produces the same tensors for every method without random sampling.",
  ["schedule", "process environment"], "every configuration, hash seed, interleaving and write mode",
  "Iteration over hash-ordered sets and write interleavings differ between processes; a test process has one hash seed.",
  ["mergekit/config.py", "mergekit/plan.py", "mergekit/graph.py", "mergekit/merge.py", "mergekit/merge_methods/easy_define.py"],
  [("list of referenced models", "MergeConfiguration.referenced_models"), ("schedule order", "Executor._make_schedule")])
p("C11", "Multi-stage merges run in order, once, and resume without skipping work",
  "A multi-stage merge runs every named stage exactly once after all stages it refers to, and its outputs equal those obtained by running the stages one by one by hand; cyclic, duplicate or ambiguous stage graphs are rejected before anything is merged. Resuming after a crash at any point never treats an incomplete stage as complete and ends with the same result as an uninterrupted run.",
  ["input", "crash point", "history"], "every stage graph and document order, every crash point, every resume",
  "Resuming needs a process death inside a stage; tests run a single happy pass.",
  ["mergekit/scripts/multimerge.py", "mergekit/merge.py"], [("stage ordering and lazy resume", "multimerge.main, MergeModelTask / stage tasks"), ("completion marker", "run_merge saving the configuration")])
p("C12", "Results do not depend on what the process did before",
  "A merge's output depends only on its configuration, options and the current contents of its inputs, not on earlier merges in the same process: other merges, failed or abandoned merges, merges with other options, or inputs that changed on disk in between. Each merge gives the result it would give in a fresh process.",
  ["history"], "every sequence of operations in one process, with failures and input changes in between",
  "Process-wide caches and singletons only show over particular multi-step histories; each test looks at one merge.",
  ["mergekit/io/tasks.py", "mergekit/architecture/__init__.py", "mergekit/common.py"],
  [("process-wide loader cache", "LoaderCache"), ("cached architecture and configuration lookups", "arch_info_for_config, lru_cache uses")])
p("C13", "Evolutionary search evaluates every candidate exactly once and always answers",
  "Whatever order evaluations complete or fail in, the evolutionary search receives exactly one result for each candidate, in the candidate's own position, within bounded time and without exceeding the configured number of concurrent merges and evaluations. A failing or invalid candidate neither stalls nor corrupts the others, and temporary merged models are removed.",
  ["schedule", "fault point"], "every completion order and delay, every subset of failing merges and evaluations, every strategy",
  "The strategies run on a cluster with evaluation libraries that are absent in tests; no test covers them.",
  ["mergekit/evo/strategy.py", "mergekit/evo/actors.py", "mergekit/evo/helpers.py"],
  [("buffered queue loop", "BufferedRayEvaluationStrategyActor.process_queue"), ("pool and serial strategies", "ActorPoolEvaluationStrategy, SerialEvaluationStrategy"), ("merge and evaluate helpers", "merge_model, evaluate_model_ray")])
p("C14", "Inputs are never modified and nothing is written elsewhere",
  "Merging, including failed, killed and multi-stage merges, never modifies, creates or deletes any file of an input model, and writes only below the output directory, the configured caches and the system temporary directory.",
  ["fault point", "crash point", "input"], "every merge, every crash or fault point",
  "A stray write or delete appears only on particular configurations or error paths, and tests do not look at the file system outside the output.",
  ["mergekit/merge.py", "mergekit/common.py", "mergekit/scripts/multimerge.py", "mergekit/io/tensor_writer.py"],
  [("output writing and copying", "run_merge, _copy_tokenizer, _copy_tagalong_files"), ("merged adapter cache", "ModelReference.merged")])
p("C15", "The merged result does not depend on execution order",
  "Executing the operations of a merge in any order that respects their dependencies yields the same tensors as the default order, for every method without random sampling. In particular no operation alters a value that another operation may read later.",
  ["schedule", "input"], "every merge configuration and every dependency-respecting order",
  "The default order is one of very many; an in-place update of a shared input is harmless until another consumer runs later.",
  ["mergekit/graph.py", "mergekit/merge_methods/*.py", "mergekit/io/tasks.py", "mergekit/tokenizer/embed.py"],
  [("values shared between operations", "Executor.run, LoadTensor, GatherTensors"), ("merge method implementations", "merge_methods")])

p("N01", "Merge methods compute their published formulas",
  "Each merge method computes the combination of tensors its documentation defines for every input tensor and parameter value.",
  ["input"], "every tensor and parameter value", "Numerical formulas over unbounded inputs; tests sample a few.",
  ["mergekit/merge_methods/*.py"], [("merge formulas", "MergeMethod implementations")])
p("N02", "Parameters resolve as documented",
  "Conditional, filtered and gradient parameter settings resolve to the documented value for every tensor, layer and nesting of global, module, slice and model settings.",
  ["input"], "every configuration", "Unbounded nesting and filters; tests sample a few.",
  ["mergekit/config.py"], [("parameter evaluation", "ConfigReader.parameter, evaluate_setting")])
p("N03", "Vocabulary merging keeps every token's embedding with the token",
  "For every set of input vocabularies the output embedding row of each token is the documented combination of that token's input rows.",
  ["input"], "every set of vocabularies", "Unbounded vocabularies and token settings; tests sample a few.",
  ["mergekit/tokenizer/build.py", "mergekit/tokenizer/embed.py"], [("token mapping", "build_tokenizer, PermutedEmbeddings")])
p("N04", "Architecture definitions name every tensor of the models they describe",
  "For every supported model family the listed weights cover all parameters of a checkpoint, with the right optional, tied and alias names.",
  ["input"], "every supported architecture and checkpoint", "Needs the real checkpoints of every family.",
  ["mergekit/architecture/*.py", "mergekit/_data/architectures/*.json"], [("weight tables", "JsonModuleArchitecture")])
p("N05", "Invalid configurations are rejected",
  "Every configuration that the documentation calls invalid is rejected with an error, and printing and re-reading a valid configuration gives an equal one.",
  ["input"], "every configuration", "Unbounded configuration space; tests sample a few.",
  ["mergekit/config.py", "mergekit/common.py"], [("validation", "MergeConfiguration validators")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
