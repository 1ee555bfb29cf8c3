NOT_APPLICABLE = []
PROPS = [
 dict(id="P01", engine="py",
  title="Prefix-cache lookups are exact, longest, lock-safe and accounted",
  statement="A prefix lookup returns exactly the cache slots that were stored for the longest stored prefix of the query in the same namespace, never a slot stored for other tokens, another position or another namespace. Entries of a prefix that is in use are never evicted, every other entry can be, each evicted slot is handed back exactly once, least recently used leaves go first. The reported evictable, protected and total sizes always equal the unlocked, locked and stored tokens.",
  over=["histories", "inputs"],
  quant="all token values and all histories of insert / lookup / lock / unlock / evict operations (within the stated length bounds)",
  why="the cache has no unit test on the pinned tree; which nodes get split, locked or evicted depends on the full history of token comparisons",
  files=["pymllm/mem_cache/radix_cache.py", "pymllm/mem_cache/base_prefix_cache.py"],
  mech=[("match / split / insert", "RadixCache._match_normal, _split_node, _insert_normal"), ("reference locks and LRU eviction", "RadixCache.inc_lock_ref, dec_lock_ref, evict")],
  observe=["match_prefix, insert, evict results", "evictable_size/protected_size/total_size", "free() calls on the pool"],
  note="bounded: complete path exploration of histories of up to 4 operations (6 thorough) over arbitrary 31-bit token values, sequences up to 3 tokens (4 thorough), page sizes 1 and 2, two namespaces; longer histories are outside"),
 dict(id="P02", engine="py",
  title="Requests only ever attend to their own KV entries, and no KV slot leaks",
  statement="At every prefill and decode step, the KV entries a request attends to are exactly those computed for its own prompt and generated tokens, position by position, whatever other requests run, finish, abort or share prefixes with it. No KV slot or request slot is given to two owners at once, and after all requests finished or aborted every slot is either free or held once by the prefix cache, from which all can be reclaimed.",
  over=["schedules", "inputs", "histories"],
  quant="all prompts, generated tokens, arrival/finish/abort orders and prefix overlaps of the requests within the bounds",
  why="tests run the pools and the runner only with a model and fixed prompts, if at all; ownership errors need particular prefix overlaps and finish orders",
  files=["pymllm/orchestrator/model_runner_process.py", "pymllm/orchestrator/scheduler_process.py", "pymllm/mem_cache/memory_pool.py", "pymllm/mem_cache/radix_cache.py"],
  mech=[("prefix match, lock, allocate, write table", "ModelRunnerProcess._allocate_extend/_allocate_decode"), ("insert, free duplicates, write back", "ModelRunnerProcess._insert_into_radix_cache"), ("release on finish", "ModelRunnerProcess._free_rid_resources")],
  observe=["request-to-token table rows read by attention", "slots written by each forward pass", "allocator and cache sizes when idle"],
  note="bounded: the real scheduler loop, model-runner process, pools and prefix cache run on symbolic prompts and generated tokens; up to 3 requests, prompts up to 4 tokens (5 thorough), up to 3 generated tokens, optional abort, eviction pressure; the network is a stub with ghost KV memory"),
 dict(id="P03", engine="py",
  title="Scheduler delivers each generated token exactly once and respects its limits",
  statement="Every accepted request is prefilled once, then decoded one token at a time until it generates a stop token or reaches its token limit, and exactly one final message with the right reason and all its tokens is sent; streamed increments concatenate to the final output without loss or repetition. No batch exceeds the running-request limit or the prefill-token limit, admission never exceeds the token budget net of reused prefixes, and the whole budget and the request's resources are released exactly once when it finishes or is aborted.",
  over=["schedules", "inputs", "histories"],
  quant="all generated tokens, stop tokens, cached-prefix lengths, prompt lengths, arrival and abort orders within the bounds",
  why="no existing test drives the scheduler; the guarantees are about every interleaving of arrivals, finishes and aborts",
  files=["pymllm/orchestrator/scheduler_process.py"],
  mech=[("admission and batching", "SchedulerProcess.get_next_batch_to_run"), ("result handling and budget", "SchedulerProcess.process_batch_result, _free_req_resources"), ("streaming", "SchedulerProcess.stream_output, _collect_finished_output")],
  observe=["batches handed to the model runner", "messages sent to the detokenizer", "release calls"],
  note="bounded: the real event loop with up to 3 requests, prompts up to 2-3 tokens, up to 3 generated tokens; prompts larger than the limits are outside (see DESIGN.md)"),

 dict(id="P04", engine="py",
  title="Pool allocators hand out every slot exactly once and take each back once",
  statement="The KV-slot allocator and the request-slot pools never hand out a slot that is still in use, the reserved padding slot 0, or a slot outside the buffers. An allocation succeeds exactly when enough slots are free, returns exactly the requested number of distinct slots, and a failed one changes nothing. Freed slots (also those freed inside a free group, and merged after sorting) become available again exactly once, and after everything is freed the full capacity is available.",
  over=["histories", "inputs"],
  quant="all sequences of alloc / free / partial free / free-group / clear operations within the bounds, for page sizes 1 and larger",
  why="no test exercises the allocator's history-dependent paths (exhaustion, partial frees, free groups, page rounding)",
  files=["pymllm/mem_cache/memory_pool.py"],
  mech=[("slot allocator", "TokenToKVPoolAllocator.alloc/free/free_group_begin/free_group_end/merge_and_sort_free"), ("request rows", "ReqToTokenPool.alloc/free"), ("GDN pool", "GDNPool")],
  observe=["indices returned by alloc", "available_size", "KV buffer sizes"],
  note="bounded: every sequence of up to 5 operations (7 thorough) on pools of up to 16 slots, page sizes 1,2,3,16; sizes are concrete, operations and counts are solver-chosen"),
 dict(id="P05", engine="py",
  title="Hybrid models restore the recurrent state that matches the reused prefix",
  statement="For models with linear-attention layers, whenever a request starts from a cached prefix, the recurrent state it starts from is the state after exactly that prefix's tokens, never a longer, shorter or other request's state; a request without a reused prefix starts from a zero state. A snapshot stays valid as long as its cache node lives, is never overwritten by another node while in use, and every snapshot and working slot is released exactly once.",
  over=["schedules", "inputs", "histories"],
  quant="all prompts, generated tokens, prefix overlaps, arrival and abort orders within the bounds, for any number of snapshot slots stated",
  why="needs particular prefix overlaps, evictions and finish orders; the tests never run a hybrid model with a prefix cache",
  files=["pymllm/orchestrator/model_runner_process.py", "pymllm/mem_cache/memory_pool.py", "pymllm/mem_cache/radix_cache.py", "pymllm/mem_cache/mamba_radix_cache.py"],
  mech=[("snapshot after prefill and restore on a hit", "ModelRunnerProcess._track_gdn_state_after_extend, _allocate_extend"), ("snapshot eviction", "ModelRunnerProcess._on_radix_node_evict")],
  observe=["state slot contents at each forward pass (ghost token histories)", "free snapshot / request slots when idle"],
  note="bounded: the real scheduler, model-runner process, pools and caches; up to 3 requests, prompts up to 4 tokens, 1-3 snapshot slots; network is a stub with ghost state"),
 dict(id="P06", engine="py",
  title="Every token gets its own sequence position and its own batch metadata",
  statement="For every batch, the position given to the network for each token is its index in its whole sequence (also behind a reused prefix, and in the following decode steps); for prompts with pictures the 3-D positions follow the picture grid and text order. Sequence lengths, start offsets and last-token indices describe exactly the batch, next-token logits are taken from each sequence's last token, and captured-graph buffers replayed with a smaller batch expose nothing of an earlier batch and touch no slot a request owns.",
  over=["inputs", "histories"],
  quant="all prefix lengths, sequence lengths, image grids, token ids and batch sizes within the bounds",
  why="tests check no mixed batches with cached prefixes, several pictures or padded graph batches",
  files=["pymllm/executor/model_runner.py", "pymllm/executor/cuda_graph_runner.py", "pymllm/models/qwen3_vl.py", "pymllm/models/qwen3_5.py"],
  mech=[("batch building", "ModelRunner.prepare_forward_batch_extend/_decode"), ("3-D positions", "get_rope_index helpers in qwen3_vl/qwen3_5 forward"), ("graph buffers", "_InputBuffers.populate")],
  observe=["ForwardBatch fields", "positions passed to the decoder", "graph input buffers"],
  note="bounded: up to 2 sequences (4 thorough) of up to 3-4 new tokens behind any prefix length up to 2^20, up to two pictures with grids up to 2x2x2 merged patches (5x5 thorough), graph batches up to 4 (8) rows"),
 dict(id="P07", engine="py",
  title="Streamed reasoning, content and tool calls equal the one-shot reply",
  statement="However the generated text is cut into stream chunks, the concatenated streamed reasoning, content and tool-call deltas (names, complete JSON arguments, consecutive indices, one id per call) equal what the non-streaming parser and reply give for the whole text up to surrounding white space, nothing is lost, repeated or moved between reasoning and content, and the stream carries one role, one finish reason equal to the one-shot one, and one terminating event.",
  over=["inputs", "schedules"],
  quant="all texts with free characters around and inside the tags, all placements of chunk boundaries, within the bounds",
  why="tests fix a few chunkings; errors need a boundary inside a tag or a partial look-alike of a tag",
  files=["pymllm/parsers/reasoning_parser.py", "pymllm/parsers/tool_call_parser.py", "pymllm/server/launch.py"],
  mech=[("reasoning split", "ReasoningParser.parse_stream_chunk/flush/parse_non_stream"), ("tool calls", "ToolCallParser.parse_stream_chunk/flush/parse_non_stream"), ("chat endpoint", "openai_chat_completions")],
  observe=["parser outputs", "SSE events and JSON reply of the chat endpoint"],
  note="bounded: every placement of 2 cuts (3 thorough) and character-by-character delivery; up to 1 (2-3) free code points before, inside and after the tags; every free text of 7 (11) characters; up to 2 calls with free argument characters"),
 dict(id="P08", engine="py",
  title="Each caller receives exactly its own request's output, complete and in order",
  statement="Every prompt of a call, single or batch, becomes one request carrying its own text, images and sampling parameters. Each caller gets only results of its own requests: all chunks once and in order when streaming, one final result otherwise, and it never waits forever after its results arrived; aborting or disconnecting ends exactly that request. Streamed text increments concatenate to the final text also when characters span tokens, and choice i of a completion answers prompt i.",
  over=["schedules", "inputs", "histories"],
  quant="all interleavings of result delivery, aborts and consumer wake-ups, all token byte contents, within the bounds",
  why="tests run single requests; misrouting and broken characters need particular interleavings or byte boundaries",
  files=["pymllm/engine/io_struct.py", "pymllm/engine/launch.py", "pymllm/orchestrator/request_response_process.py", "pymllm/orchestrator/detokenizer_process.py", "pymllm/server/launch.py"],
  mech=[("batch split", "GenerateReqInput.__getitem__, RequestResponseProcess.add_request"), ("result routing", "RequestResponseProcess._recv_loop, Engine._stream_results"), ("incremental text", "DetokenizerProcess._detokenize")],
  observe=["messages sent to the tokenizer", "items yielded by Engine.generate_async", "completion replies"],
  note="bounded: 2 callers (3 thorough), batches of up to 2 prompts, up to 2-3 chunks each; up to 4 arbitrary bytes of output per request (6 thorough); tokenizer is a byte-level stub"),
 dict(id="P09", engine="py",
  title="Tensor-parallel layers compute what the unsharded layer computes",
  statement="For every tensor-parallel size, loading the full checkpoint tensor into each rank's shard of a vocabulary-parallel embedding, column-parallel linear, row-parallel linear or parallel MLP and running all ranks gives on every rank the result of the unsharded layer (gathered, reduced, or exactly the rank's own slice when gathering or reducing is switched off), biases counted once. The fused, split and parallel MLPs all compute down(act(gate(x), up(x))), and collectives join exactly the ranks of one tensor-parallel or data-parallel group, in rank order.",
  over=["inputs", "configurations"],
  quant="all weights, biases, inputs and token ids (symbolic), every rank, tp up to 3 (4 thorough) and dp up to 3",
  why="no test starts more than one rank; a shard taken from the wrong place gives plausible numbers",
  files=["pymllm/layers/embedding.py", "pymllm/layers/linear.py", "pymllm/layers/mlp.py", "pymllm/orchestrator/group_coordinator.py", "pymllm/orchestrator/parallel_state.py"],
  mech=[("shard loading", "weight_loader of VocabParallelEmbedding, ColumnParallelLinear, RowParallelLinear, MergedLinear"), ("collectives", "GroupCoordinator.all_reduce, all_gather; initialize_model_parallel")],
  observe=["the output of every rank"],
  note="bounded: sizes up to 6 (8 thorough), 1-2 rows, tp 1-3 (4 thorough), dp 1-3; exact integer arithmetic, the activation is an uninterpreted function, torch.distributed is a stub; unquantised layers; pipeline groups are outside"),
 dict(id="P10", engine="py",
  title="Loading a checkpoint puts every tensor where the model reads it",
  statement="After load_weights, every parameter of the Qwen3, Qwen3-VL and Qwen3.5 models holds exactly the checkpoint tensor with its name, and every fused parameter (query/key/value, gate/up, vision qkv) its parts in the right order, whatever order the tensors come in, whichever accepted name prefix they carry, with tied or untied embeddings, unquantised, AWQ, W4A16 or W8A8. No other tensor of the file changes any parameter and no parameter stays unset.",
  over=["inputs", "histories", "configurations"],
  quant="all element values, all orders of any two tensors of one parameter and three orders of the whole file, all parameters of every architecture",
  why="tests load two checkpoints with a few tensors; a dropped or misplaced tensor leaves uninitialised weights without any error",
  files=["pymllm/models/qwen3.py", "pymllm/models/qwen3_vl.py", "pymllm/models/qwen3_5.py", "pymllm/layers/linear.py", "pymllm/quantization/methods/awq_marlin.py", "pymllm/quantization/methods/compressed_tensors.py"],
  mech=[("name mapping", "load_weights, _remap_weight_name"), ("shard placement", "MergedLinear.weight_loader, _load_stacked_weight, _load_vision_qkv_weight")],
  observe=["the contents of every model parameter after loading"],
  note="bounded: tiny configurations of the real models (2 decoder layers, 1 vision layer; Marlin-size layers when quantised, where tensor elements are distinct constants except symbolic corners); dtype conversion and post-load repacking are outside"),
 dict(id="P11", engine="py",
  title="A converted model file holds exactly the tensors it was made from",
  statement="A v2 model file written by the converter, in one go or as a stream, reads back to exactly the tensors given to it: every name, element type, shape and byte, none overlapping another or the tables, together with the model name; whatever does not fit is refused. Quantising while converting replaces, renames or keeps each parameter as its plan says and writes every other one unchanged, and the announced parameter count is the number written; a sharded checkpoint yields each tensor of its index from the shard that the index names.",
  over=["inputs", "histories", "configurations"],
  quant="all tensor values, shapes, element types and table sizes, all plan groups and all shard assignments within the bounds",
  why="no test converts a model; an off-by-one in the table or a miscounted parameter corrupts one tensor of a file that still loads",
  files=["pymllm/mobile/convertor/model_file_v2.py", "pymllm/mobile/convertor/__init__.py", "pymllm/mobile/quantize/solver.py", "pymllm/mobile/quantize/pipeline.py", "pymllm/mobile/quantize/kai/w4a32.py"],
  mech=[("descriptor table and data layout", "ModelFileV2.static_write, streaming_write"), ("plan", "QuantizeSolver.stream_quantize_params_size, stream_quantize")],
  observe=["the bytes of the written file, read by an independent parser of the format"],
  note="bounded: up to 3 tensors of rank 2 or less, 3 plan groups, 3 shards; the KleidiAI packing itself is an uninterpreted function and the C++ tensor handle a stub"),
 dict(id="P12", engine="py",
  title="A quantised layer computes with exactly the weights of its checkpoint",
  statement="A linear layer of an AWQ, W4A16 or W8A8 checkpoint, plain or merged, computes for every output the product of its input with the dequantised checkpoint weights of that output: every packed value, group scale, zero point and bias reaches the multiplication of its own row, column and shard, after loading and the repacking for the kernels, whatever the batch shape. Layers the checkpoint's ignore list names, and only those, stay unquantised; checkpoints the kernels cannot serve are refused.",
  over=["inputs", "configurations"],
  quant="all packed weights, scales, zero points, biases and activations; all bit widths, group sizes, shard splits and ignore entries within the bounds",
  why="no test loads a quantised layer without a GPU; a wrong permutation, shard offset or nibble order changes outputs silently",
  files=["pymllm/quantization/methods/awq_marlin.py", "pymllm/quantization/methods/compressed_tensors.py", "pymllm/layers/linear.py"],
  mech=[("repacking", "AWQMarlinLinearMethod.process_weights_after_loading, marlin_permute_scales, awq_to_marlin_zero_points"), ("scheme choice", "CompressedTensorsConfig.get_quant_method, _is_ignored")],
  observe=["the operands the stubbed kernels receive, element by element"],
  note="bounded: inputs up to 384, outputs up to 320, up to 8 groups; the CUDA kernels are stubs with their documented operand layout, fused qkv names in the ignore list and sharded quantised layers are outside"),
 dict(id="P13", engine="py",
  title="Every token is drawn from the distribution its request asked for",
  statement="For every batch, each request's next token is drawn from its own logits with its own repetition, frequency and presence penalties, temperature, top-k, top-p and min-p: exactly the tokens these parameters admit keep their probability, renormalised, and no other can be drawn; temperature 0 takes the argmax whatever the neighbours do, and parameters that are off or out of range change nothing. Speculative verification accepts and resamples as chain speculative sampling is defined.",
  over=["inputs", "configurations", "histories"],
  quant="all logits, probabilities and sampling parameters, all mixes of requests in a batch",
  why="tests draw a few samples and look at shapes; a wrong threshold or a row mix-up shows only as a different distribution",
  files=["pymllm/layers/sampling.py", "pymllm/executor/model_runner.py", "pymllm/orchestrator/scheduler_process.py", "pymllm/orchestrator/model_runner_process.py"],
  mech=[("filters and draw", "top_k_top_p_sampling_from_probs and its PyTorch fallbacks"), ("penalties and dispatch", "ModelRunner.sample"), ("rows", "ModelRunnerProcess building the sampling tensors of a batch")],
  observe=["the distribution handed to torch.multinomial and the token returned"],
  note="bounded: vocabularies of up to 5 tokens, batches of 3; reals instead of floats, softmax an ordered positive function; FlashInfer is not installed, so the PyTorch path is decided"),
 dict(id="P14", engine="py",
  title="Attention reads exactly each sequence's own keys and values",
  statement="In every prefill, decode and captured-graph step, each new token's attention covers exactly the tokens of its own sequence up to and including itself, each once: the stored keys and values in the request's table row plus the new ones, computed from the token's own query with the layer's scale and cap. The new keys and values are stored once, in the slots given to their tokens and before they are read, and nothing of an earlier batch, of another request or of padding rows takes part.",
  over=["inputs", "histories"],
  quant="all request tables, slots, queries, keys and values; all prefix and new-token lengths, request orders and batch successions within the bounds",
  why="the attention backend cannot run without a GPU, so no test reaches it; a stale index buffer or a wrong offset makes a request read another one's tokens",
  files=["pymllm/layers/attention/flashinfer_backend.py", "pymllm/layers/attention/radix_attention.py", "pymllm/layers/attention/attention_backend.py", "pymllm/executor/cuda_graph_runner.py", "pymllm/executor/model_runner.py"],
  mech=[("index buffers and plans", "_FlashInferIndicesUpdaterDecode, _FlashInferIndicesUpdaterPrefill"), ("captured graphs", "FlashInferAttnBackend.init_forward_metadata_capture_cuda_graph / _replay_cuda_graph, CudaGraphRunner.replay"), ("stored prefix and new tokens joined", "FlashInferAttnBackend.forward_extend")],
  observe=["for every query row the set of keys and values the stubbed kernels attend to", "stores into the KV pool"],
  note="bounded: batches of up to 3 (4 on graphs), 3 stored and 3 new tokens, up to 3 batches in a row; FlashInfer kernels are stubs with their documented contract; sliding-window layers are outside (no model has them)"),
 dict(id="P15", engine="py",
  title="What crosses shared memory or CUDA IPC arrives whole; memory is reused after",
  statement="Every tensor and nested value that a multimodal request sends over the shared-memory queue or the CUDA-IPC memory pool is received with the shape, type and content it had when it was sent, under its own request id, however sends, asynchronous copies, recycling and receives interleave. Pool chunks given out never overlap and lie inside the pool, a chunk is reused only after every consumer's copy is complete, and once all consumers are done all of the pool is available again in one piece.",
  over=["inputs", "schedules", "histories"],
  quant="all sizes, contents and request ids, all interleavings of sender, recycler, receivers and pending GPU copies within the bounds",
  why="no test touches the transport; reuse before the last reader is done needs a particular interleaving and corrupts another request's image silently",
  files=["pymllm/orchestrator/cuda_ipc_transport.py", "pymllm/orchestrator/shared_memory_queue.py", "pymllm/orchestrator/tokenizer_process.py", "pymllm/orchestrator/scheduler_process.py"],
  mech=[("pool", "MmItemMemoryPool.get_slice_with_flag, _recycle_chunks, _merge_chunks, MmItemMemoryChunk.try_to_recycle"), ("proxies", "CudaIpcTensorTransportProxy, TransportProxyTensor, wrap_mm_inputs_for_ipc, unwrap_mm_inputs_from_ipc"), ("shared-memory path", "SharedMemoryManager, TensorQueue, TokenizerProcess._convert_to_tokenized / _send, SchedulerProcess._recv")],
  observe=["received values against those sent", "chunks in use and free after every step"],
  note="bounded: pools of up to 4096 bytes, up to 5 (6) pool steps of any size; up to 3 (4) messages of 6 shapes and 5 types end to end with delayed copies; CUDA handles, streams and shared memory are stubs with their documented contract; a receiver that dies in the middle of a message and named tuples are outside"),
 dict(id="P16", engine="py",
  title="The server admits key holders only and hands requests on unchanged",
  statement="When an API key is configured, a request is served exactly if it is a liveness probe or its Authorization header is `Bearer` followed by the API key or the configured admin key; a refused request is answered 401 and reaches no handler, and no reply shows a key. Every prompt, chat message, image, tool and given sampling field of an admitted request reaches the model runner's batch under the request's own id, in order and with the value sent, and a field not given is not invented except for the documented defaults.",
  over=["inputs"],
  quant="all header and key strings up to the bounds; all routes, methods and root paths; all message forms; every value of every sampling field, alone or with the others",
  why="no test starts the server; a comparison that trims or folds case, a truthiness test that drops temperature 0 or a swapped image shows only on particular requests",
  files=["pymllm/server/launch.py", "pymllm/orchestrator/tokenizer_process.py", "pymllm/orchestrator/scheduler_process.py", "pymllm/engine/launch.py"],
  mech=[("access", "_auth_middleware, _AUTH_EXEMPT_PATHS, server_info"), ("translation", "generate, openai_completions, openai_chat_completions, _build_sampling_params, _messages_to_prompt, _extract_image_data"), ("transport", "Engine.generate_async, TokenizerProcess._tokenize, SchedulerProcess.process_input_requests, ScheduleBatch.prepare_for_*")],
  observe=["status and handler call per request", "messages given to the chat template", "batch metadata sent to the model runner"],
  note="bounded: keys of 1-2 arbitrary characters and headers of up to 9 (11), every registered route, up to 2 (3) messages of up to 3 parts, batches of up to 2 prompts; Starlette and pydantic run as they are; acting on `stop` strings and `seed` is outside, as is an admin key without api_key"),
 dict(id="P17", engine="py",
  title="GDN layers compute the sequential recurrence however the input is cut",
  statement="For every layer of gated linear attention, each request's outputs, convolution window and recurrent state equal those of the token-by-token recurrence over its own tokens, whether the tokens come in one prefill, in chunks of any size, over several prefills, in decode steps or in captured-graph replays, alone or batched with other requests; a new request starts from the zero state, and no other request's slot, other layer's state or padding row is read or changed.",
  over=["inputs", "histories"],
  quant="all weights, gates, inputs and prior states (exact reals); all splits of the tokens into steps, chunk borders, request orders and slots within the bounds",
  why="the chunkwise formulation, the sequential one and the fused one must agree for every length and cut; tests need a GPU and none runs here",
  files=["pymllm/layers/attention/gdn_backend.py", "pymllm/layers/attention/gdn_chunkwise.py", "pymllm/layers/attention/hybrid_backend.py", "pymllm/layers/attention/radix_linear_attention.py", "pymllm/mem_cache/memory_pool.py"],
  mech=[("sequential and decode paths", "GDNAttnBackend.forward_extend/forward_decode"), ("chunkwise path", "gdn_chunkwise"), ("state slots", "GDNPool, HybridAttnBackend.init_forward_metadata*")],
  observe=["outputs, convolution window and recurrent state of every request and slot"],
  note="bounded: up to 2 requests, 1-3 steps of up to 4 (5) tokens, chunks of 2-3, 1-2 key heads, 4 key channels, convolution width 2-4; equality of normal forms over exp/softplus/sigmoid terms, then the solver; real arithmetic; CUDA and FlashInfer kernels are stubs or outside"),
 dict(id="P20", engine="cpp",
  title="On-device prefix cache returns exactly the KV of the longest stored prefix",
  statement="For every history of insertions into the radix tree (with and without an extra key separating namespaces), a search returns the key/value addresses stored for the longest prefix of the query that was inserted under the same extra key, token for token and from the entry that stored them; it never returns addresses of other tokens, another namespace or more tokens than match, and splitting an edge loses or reorders nothing.",
  over=["inputs", "histories"],
  quant="all token sequences, namespaces, insertion orders and queries within the bounds",
  why="tests insert a few fixed sequences; errors need particular overlaps of edges",
  files=["mllm/engine/prefix_cache/RadixTree.cpp", "mllm/engine/prefix_cache/RadixTree.hpp"],
  mech=[("search", "RadixTree::search"), ("insert and split", "RadixTree::insert, _split")],
  observe=["RadixSearchResult of RadixTree::search"],
  note="bounded: up to 3 insertions of up to 3 arbitrary 64-bit tokens each, one or two namespaces (thorough: 4 insertions or 4 tokens); clang -O1 IR, one thread, hash containers with one bucket"),
 dict(id="P21", engine="cpp",
  title="Tensor views address exactly the elements they denote",
  statement="For every dense tensor and every chain of slice, split, view/reshape, flatten, squeeze and unsqueeze operations, with indices from both ends, open ends, steps and inferred extents, the resulting shape, strides and offset address exactly the elements the operations name, inside the original storage, the element accessors and contiguity tests agree with it, and a view that cannot be expressed is refused rather than answered wrongly.",
  over=["inputs", "histories"],
  quant="all shapes, index tuples and operation chains within the bounds",
  why="tests check a few shapes; offset and stride errors show only for particular chains and extents",
  files=["mllm/core/Tensor.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/SlicePrimitives.hpp", "mllm/core/aops/SliceOp.cpp", "mllm/core/aops/ViewOp.cpp", "mllm/core/aops/SplitOp.cpp"],
  mech=[("slicing", "Tensor::operator[], SliceOp::reshape"), ("reshaping", "Tensor::view/flatten/squeeze/unsqueeze, ViewOp"), ("splitting", "SplitOp::reshape"), ("addressing", "TensorViewImpl::ptr/offset")],
  observe=["shape, strides, offset and element pointers of the view"],
  note="bounded: rank up to 3 (4 thorough), extents up to 3-4, chains of one or two operations (three thorough), every slice index symbolic; clang -O1 IR, one thread"),
 dict(id="P22", engine="cpp",
  title="Data movement operators put every element where their definition says",
  statement="For arbitrary data, bit for bit: contiguous, clone and copy keep every element of the view they read, also when it lies inside a larger storage or is strided; transpose, permute, concat, stack, repeat, pad (constant, reflect, replicate, circular) and scatter-to-shards place exactly the element that their definition names at every output position, with the right output shape, and read and write nothing outside their tensors.",
  over=["inputs"],
  quant="all data, shapes, dimensions, permutations, paddings and layouts within the bounds",
  why="tests use one or two shapes per operator; special cases depend on rank, dimension and layout",
  files=["mllm/backends/cpu/ops/ContiguousOp.cpp", "mllm/backends/cpu/ops/CloneOp.cpp", "mllm/backends/cpu/ops/CopyOp.cpp", "mllm/backends/cpu/ops/TransposeOp.cpp", "mllm/backends/cpu/ops/PermuteOp.cpp", "mllm/backends/cpu/ops/ConcatOp.cpp", "mllm/backends/cpu/ops/StackOp.cpp", "mllm/backends/cpu/ops/RepeatOp.cpp", "mllm/backends/cpu/ops/PadOp.cpp", "mllm/backends/cpu/ops/Scatter2ShardsOp.cpp", "mllm/backends/cpu/kernels/x86/transpose.cpp"],
  mech=[("copies", "CPUContiguousOp/CPUCloneOp/CPUCopyOp::forward"), ("rearranging", "CPUTransposeOp, CPUPermuteOp, CPUConcatOp, CPUStackOp, CPURepeatOp, CPUPadOp, CPUScatter2ShardsOp::forward"), ("kernels", "kernels/x86/transpose.cpp")],
  observe=["output tensors, byte by byte"],
  note="bounded: rank up to 3 (4 thorough), extents up to 3, lengths up to 9 where vector kernels need it, data fully symbolic; permute uses a portable stand-in for the highway-based kernel; dense inputs except contiguous/clone/copy; clang -O1 IR"),
 dict(id="P23", engine="cpp",
  title="A static KV cache shows exactly the tokens written to it",
  statement="For every history of appends, in-place writes (flash-attention mode), rewinds, clears and sub-cache windows on a static key/value cache of any geometry and data types, each layer shows as many tokens as were written, in order, with their exact key and value bytes, every query head seeing the data of its key/value head; writing more tokens than the cache holds is refused and never overwrites other heads, layers or memory. The KV cache operator behaves the same with a private or a shared cache.",
  over=["inputs", "histories"],
  quant="all operation sequences, lengths, head counts, data types and data within the bounds",
  why="tests run no multi-step histories of appends, rewinds and windows, nor capacity overruns",
  files=["mllm/nn/lmcache/StaticCache.cpp", "mllm/nn/lmcache/StaticCache.hpp", "mllm/backends/cpu/ops/KVCacheOp.cpp"],
  mech=[("append", "StaticCache::updateKVCache, SubStaticCache::updateKVCache"), ("write location", "StaticCache::preGetKVWriteLocation"), ("rewind", "setCurrentSeqCnt, clearCache"), ("operator", "CPUKVCacheOp")],
  observe=["tensors returned by updateKVCache/getKVCache", "getCurrentSeqCnt"],
  note="bounded: up to 3 operations (4 thorough), capacity 3-4 tokens, 1-2 layers, 1-2 key/value heads shared by 1-3 query heads, head size 2, fp32/fp16 mixes, all data symbolic; clang -O1 IR, one thread"),
 dict(id="P24", engine="cpp",
  title="Prefix cache storage never shares a slot and keeps every stored token",
  statement="For every history of allocations, frees, prefetch and purge hints on the paged key/value storage, of any page, lane and token geometry, backed by memory or a file: no slot is handed out while it is live, live slots never overlap in memory and lie inside their blob, each keeps its address and data, and freed slots are reused before more memory is taken. The CPU prefix cache returns for a stored conversation exactly its addresses and data, and trimming sliding-window layers releases only tokens outside the window.",
  over=["inputs", "histories"],
  quant="all operation sequences, geometries and data within the bounds",
  why="tests allocate a few slots once; aliasing needs frees in later pages, small blobs or unusual geometry",
  files=["mllm/engine/prefix_cache/ZenFS.cpp", "mllm/engine/prefix_cache/TLB.cpp", "mllm/engine/prefix_cache/Allocator.cpp", "mllm/nn/lmcache/PrefixCache.cpp"],
  mech=[("slots", "ZenFileSystem::malloc/free/access"), ("hints", "hintsPrefetch/hintsPurge"), ("address cache", "PrefixCacheAllocator"), ("conversation", "CpuPrefixCache::promote/find/evictSlidingWindowLayerOn")],
  observe=["addresses, physical pointers and bytes behind them"],
  note="bounded: up to 3 operations (4 thorough) after 0..N+1 allocations in blobs of N=1..4 (64-128, 256 thorough) slots, 1-3 or 1024 elements per token; conversations of 2 turns of up to 3 tokens in 2 layers; record/recover across restarts is outside; clang -O1 IR, mmap/madvise modelled"),
 dict(id="P25", engine="cpp",
  title="Model files load exactly what was saved and broken files are refused",
  statement="Saving any set of named tensors to a model file of either version and loading it, memory mapped or as a stream, returns exactly those names with their types, shapes (version 1: element counts) and data, also for views into larger storages and quantised types. Reading a truncated or broken file either is refused or yields only tensors whose data lies inside the file, without touching memory outside the file or its buffers.",
  over=["inputs"],
  quant="all sets of tensors, names and payloads, and all header and descriptor fields, within the bounds",
  why="tests write and read one well formed file; wrong lengths, offsets and unusual names need arbitrary header and descriptor fields",
  files=["mllm/core/ParameterFile.cpp", "mllm/core/ParameterFile.hpp", "mllm/core/MappedFile.cpp", "mllm/core/schema/ModelFileV1.hpp", "mllm/core/schema/ModelFileV2.hpp"],
  mech=[("readers and writers", "ParameterFileIOImpl<kCPU, kV1/kV2>::read/write"), ("mapping", "MappedFile")],
  observe=["loaded names, types, shapes, bytes", "memory accesses while loading"],
  note="bounded: up to 2 (3 thorough) tensors of rank <= 2, six element types, names of 1-2 arbitrary bytes or 200/255; broken files of 1 (2 thorough) descriptors with arbitrary 32/64-bit fields; names above 255 bytes are outside; file system modelled in memory, clang -O1 IR"),
 dict(id="P26", engine="cpp",
  title="Tokenizers cut texts as their model defines and lose no character",
  statement="A text is split at special tokens first, always taking the leftmost and then longest one; the words between them follow the model's pattern (the Qwen pattern, and the GPT-2 and Llama 3 patterns), and their byte pairs are merged in the order of the trained ranks, so every text has the same token ids as the reference algorithm gives. Token ids and tokens map to each other one to one, UTF-8 and byte-symbol conversions are lossless, and decoding the ids of a text returns the text.",
  over=["inputs"],
  quant="all texts, special token sets and merge sequences over the alphabets and lengths within the bounds",
  why="tests tokenize a few sentences; mistakes show on overlapping special tokens, runs of white space, rare ranks or multi-byte characters",
  files=["mllm/preprocessor/tokenizers/AutoTokenizer.cpp", "mllm/preprocessor/tokenizers/BPE.cpp", "mllm/preprocessor/tokenizers/BPEUTF8.cpp", "mllm/preprocessor/tokenizers/Unicode.cpp", "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp", "mllm/models/qwen3/tokenization_qwen3.hpp"],
  mech=[("special tokens", "Trie::split, TrieUTF8::split"), ("merges", "BPE::_bpe, BPEUTF8::_bpe"), ("pattern", "qwen3TokenizerMatchPattern and its variants"), ("characters", "Unicode.cpp, unicode_regex_split")],
  observe=["pieces, token ids and decoded texts"],
  note="bounded: texts of up to 4 characters (6 thorough), 2 special tokens, 2 merges over 2-letter alphabets for the algorithms, 11-16 character classes for the patterns (qwen3, qwen3_moe, qwen2vl, qwen_npu tokenizers); the std::regex fallback of llama_cpp_unicode and non-ASCII digits are outside; clang -O1 IR, vocabulary files in memory"),
 dict(id="P27", engine="cpp",
  title="The memory manager never hands out overlapping memory and loses none",
  statement="For every history of allocations and frees, of any sizes including zero and above the large-tensor threshold, live storages stay where they are, lie inside memory the pool obtained, and never overlap; free memory is used again, and freed neighbours join, before more memory is taken, sizes that are cached are reused and given back once they are no longer cached, and everything is returned when the manager ends. Memory from the CPU allocator is aligned as asked and large enough, and a refused allocation is reported, never used.",
  over=["inputs", "histories"],
  quant="all sequences of operations, sizes, address orders, alignments and refusals within the bounds",
  why="tests allocate and free a few tensors in one order; overlaps need particular orders of splits, joins and segments",
  files=["mllm/engine/BuddyMemPool.cpp", "mllm/engine/MemoryManager.cpp", "mllm/backends/cpu/CPUAllocator.cpp"],
  mech=[("buddy blocks", "BuddyMemPool::allocBuddy/freeBuddy/expandBuddySegment"), ("small object cache", "allocObjCache/freeObjCache/updateCacheSizeList"), ("dispatch", "MemoryManager::alloc/free"), ("heap", "CPUAllocator, align_alloc")],
  observe=["addresses of storages", "memory taken from and given back to the device allocator"],
  note="bounded: blocks of 4-16 bytes, up to 2 operations of every size up to 33 and 5 operations (6 thorough) of selected sizes, then freeing all; one thread; clang -O1 IR"),
 dict(id="P28", engine="cpp",
  title="Selecting operators take exactly the elements asked for, in order",
  statement="Gathering and indexing return, for every index (negative ones count from the end) and any mix of slices, lists and index tensors, exactly the named elements, also on views of larger storages; masked scatter replaces the masked elements by the source elements in order and keeps all others. The causal mask keeps exactly the scores of keys at or before each query's position, the queries being the last positions of the keys, and inside the sliding window if there is one. Top-k and argsort return distinct positions whose elements no left-out element precedes, sorted when asked.",
  over=["inputs"],
  quant="all shapes, index lists, masks, data and options within the bounds",
  why="tests compare a few shapes and mostly square float inputs; mistakes need negative indices, views, broadcast masks, cached keys or ties",
  files=["mllm/backends/cpu/ops/GatherOp.cpp", "mllm/core/aops/GatherOp.cpp", "mllm/core/aops/IndexOp.cpp", "mllm/backends/cpu/ops/MaskedScatterOp.cpp", "mllm/backends/cpu/ops/CausalMaskOp.cpp", "mllm/backends/cpu/ops/TopKOp.cpp", "mllm/backends/cpu/ops/ArgsortOp.cpp"],
  mech=[("gather", "CPUGatherOp::forward"), ("index lists", "IndexOp::reshape/forward"), ("masked scatter", "CPUMaskedScatterOp::forward"), ("attention mask", "CPUCausalMaskOp::forward"), ("ordering", "topk_impl, argsort_impl")],
  observe=["output shapes and bytes", "memory accesses"],
  note="bounded: rank <= 3, extents <= 3 (4 thorough), 2-4 indices, sorted axes of up to 3-4 elements, masks of up to 10 queries and 19 keys; out-of-range indices, NaN keys, multi-dimensional index tensors and f16 sorting are outside; x86 AVX2 build, clang -O1 IR"),
]
