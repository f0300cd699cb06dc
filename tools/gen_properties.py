"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                **kw,
            ),
        )
    )


T = "torch_struct/"
prop(
    "C01",
    "Answers depend only on the distribution's own parameters",
    "Every query of a distribution (partition, marginals, argmax, max, entropy, count, k-best, log-probability, KL, cross-entropy) returns the value that the textbook definition gives for that distribution's potentials, lengths and options. This holds after any history of other distributions being built, queried, differentiated and dropped, in any order and in any gradient mode.",
    ["histories", "configurations"],
    "All interleavings, on one thread, of constructions, queries, repeated queries, drops (with reuse of memory addresses), in-place updates of a parameter tensor followed by a rebuild, gradient-mode changes and memory layouts of the parameters, over several live distributions that differ in one attribute only.",
    "Each test builds one distribution and asks it once. State that leaks from one object to the next (class attributes, caches keyed too loosely, shared buffers) needs a second, slightly different distribution at the right moment; the multiroot option was leaking in exactly that way.",
    [T + "distributions.py", T + "helpers.py", T + "deptree.py", T + "linearchain.py", T + "semimarkov.py", T + "cky.py", T + "cky_crf.py", T + "semirings/semirings.py"],
    [("query caching", "StructDistribution lazy properties"), ("per-query structure object", "StructDistribution._struct"), ("semiring classes with class-level zero/one and factory-made classes", "semirings.KMaxSemiring")],
    state=[dict(name="cached query results", meaning="filled at first use, must never be shared between distributions")],
)
prop(
    "C02",
    "Concurrent callers get the answers they would get alone",
    "When several threads build and query distributions at the same time, whether their own or a shared one, every query returns the same answer as when it runs alone. No query fails, blocks for ever or disturbs another one because of the interleaving.",
    ["schedules", "histories"],
    "Every interleaving of two to four caller threads, with a context switch possible before any line of the library, over their own and over shared distributions and parameter tensors.",
    "All tests are single threaded. A race on shared mutable state shows only for a switch at one particular point between two particular queries.",
    [T + "distributions.py", T + "helpers.py", T + "deptree.py", T + "semirings/semirings.py", T + "semirings/sample.py"],
    [("query caching on first use", "StructDistribution lazy properties"), ("module-level constants", "semirings.sample.bits, Semiring.zero/one"), ("options handed to the structure object", "DependencyCRF._struct")],
)
prop(
    "C03",
    "A query that fails part-way leaves nothing behind",
    "If a query is cut short at any instant, by an allocation failure inside a tensor operation or by an interrupt, the error reaches the caller and no answer made from partial work is ever returned. Afterwards the same query asked again, every other query of that distribution and every other distribution give the same answers as if the failed call had never happened, and gradient mode, default dtype and the caller's gradients are as before.",
    ["crash_points", "fault_sequences", "histories"],
    "Every point of every query, forward and backward (each tensor operation and each source line), as the place where an out-of-memory error, a memory error or a keyboard interrupt strikes; sequences of several such failures; any queries afterwards.",
    "No test makes an operation fail. Half-filled caches, a gradient mode that is not restored or options that stay switched on can be reached only through an exception at an inner instant.",
    [T + "distributions.py", T + "helpers.py", T + "semirings/sample.py", T + "semirings/checkpoint.py", T + "autoregressive.py"],
    [("cache is written only when the value is complete", "StructDistribution lazy properties"), ("scoped gradient mode", "kmax/topk/sample/gumbel_crf"), ("recomputation inside backward", "checkpoint._Check.backward")],
)
prop(
    "C04",
    "Every sample is a structure of the model, whatever is drawn",
    "Every sample returned by a distribution that supports sampling is a 0/1 event that encodes exactly one structure with non-zero probability under that row's potentials and length, and it is zero in the padding. This holds for every outcome the random source can produce and for every number of requested samples.",
    ["fault_sequences", "inputs", "configurations"],
    "All outcomes of the random primitives that have non-zero probability, including the extreme ones chosen by an adversary (rarest index, first, last, smallest and largest uniform), all sample counts across the internal block size, all model families, lengths and batch sizes.",
    "Tests draw from a handful of fixed seeds, so only likely outcomes occur. Codes that pack or unpack several samples together fail for rare combinations of draws or at particular sample counts.",
    [T + "distributions.py", T + "semirings/sample.py", T + "semirings/semirings.py"],
    [("several samples packed in one number", "semirings.sample.MultiSampledSemiring"), ("blocks of ten samples", "StructDistribution.sample"), ("backward pass as sampler", "helpers._Struct.marginals")],
)
prop(
    "C05",
    "Samples follow the model's probabilities and are independent",
    "Repeated sampling yields each structure with the probability the model assigns to it, for every row, every position in the list of returned samples and every length. Different samples of one call, samples of different rows of a batch, and samples of successive calls are statistically independent of each other.",
    ["schedules", "histories", "configurations"],
    "All streams of the random generator, all model families, sample counts, batch positions and histories of earlier calls and failures.",
    "The unit tests check at most that samples are structures or that single marginals come out roughly right. Reused random draws, a stale block or a bias in one family need joint statistics over pairs of samples, rows and calls.",
    [T + "distributions.py", T + "semirings/sample.py"],
    [("forward filtering, backward sampling", "semirings.sample._MultiSampledLogSumExp"), ("blocks of ten samples", "StructDistribution.sample")],
)
prop(
    "C06",
    "Random results are a function of torch's generator state alone",
    "With the same torch generator state, the same sequence of calls returns bit-identical samples in any process and after any earlier history, whatever the state of other random sources, the clock or hash seeds. Queries that are not random leave the generator state untouched.",
    ["histories", "configurations", "schedules"],
    "All call sequences replayed from one generator state in a fresh or used process, with different Python and NumPy generator states, hash seeds, clocks, garbage-collection moments and unrelated queries in between.",
    "Tests seed once and never compare two executions. A second source of randomness, a cached draw or a hidden draw in a deterministic query is invisible to any single run.",
    [T + "distributions.py", T + "semirings/sample.py", T + "autoregressive.py", T + "semirings/semirings.py"],
    [("draws through torch's generator", "semirings.sample, Autoregressive.sample"), ("no memory between calls", "StructDistribution.sample")],
)
prop(
    "C07",
    "Gumbel relaxations return exact structures with the model's law",
    "The value returned by the Gumbel-CRF query is, for any noise, a 0/1 structure of the row's model; over fresh noise it has the model's probabilities, and rows and successive calls are independent. Its gradient with respect to the potentials is finite for every noise the generator can produce at ordinary temperatures.",
    ["schedules", "fault_sequences", "configurations"],
    "All noise outcomes, typical and adversarial extremes, temperatures, families, batch sizes, and histories of earlier relaxed samples whose backward pass runs later.",
    "There is one small test at fixed seeds. Noise shared between decisions gives valid structures with the wrong law and was present in the shipped code.",
    [T + "distributions.py", T + "semirings/sample.py"],
    [("perturbed argmax in the backward pass", "semirings.sample.GumbelCRFSemiring"), ("straight-through gradient", "semirings.sample.GumbelCRFSemiring.ST")],
)
prop(
    "C08",
    "Beam search keeps every hypothesis with its own history and state",
    "For any stateful model, the k-best paths, scores and logits returned by beam search are those of an ordinary beam search in which every hypothesis is scored by feeding the model exactly that hypothesis's prefix, starting from its own batch row's initial state. A model that raises or answers with wrong shapes leads to an error, never to a wrong result, and the next search is unaffected.",
    ["histories", "fault_sequences", "configurations", "schedules"],
    "All models (their per-prefix scores and state contents), beam widths, batch sizes, lengths, state layouts, model failures at any step, and searches interleaved with other searches on the same model object.",
    "Tests use one small recurrent network, whose state is too smooth to reveal a state that belongs to another hypothesis or batch row.",
    [T + "autoregressive.py", T + "semirings/semirings.py"],
    [("reordering the model state after each step", "Autoregressive._beam_search"), ("back pointers by differentiation", "Autoregressive._beam_search")],
)
prop(
    "C09",
    "Autoregressive samples and scores follow the model's conditionals",
    "Every token of a sampled sequence is drawn from the model's conditional distribution given that sample's own prefix and its own row's initial state, independently across samples and rows. The log-probability of a sequence equals the sum of the model's conditional log-probabilities along it, and sampling without replacement returns distinct sequences in each row.",
    ["schedules", "histories", "fault_sequences"],
    "All random streams and adversarial draws, models, batch and sample counts, lengths, start symbols, and call histories with model failures.",
    "Tests only look at shapes and at one seed. Mixed-up prefixes or states give plausible sequences whose law is wrong.",
    [T + "autoregressive.py"],
    [("state carried from step to step", "Autoregressive.sample"), ("one-hot and start symbol handling", "Autoregressive.log_prob")],
)
prop(
    "C10",
    "Checkpointed and sharded semirings change nothing but memory use",
    "A semiring wrapped for checkpointing or sharding gives the same values, first derivatives and second derivatives as the plain semiring for products of any shapes and any shard size. This holds whatever happens between the forward and the backward pass, and a recomputation that fails can be repeated with the right result.",
    ["histories", "crash_points", "configurations"],
    "All shard and threshold sizes around the product size, broadcast shapes, base semirings, events between forward and backward (other products, grad-mode changes, other graphs, later use of one graph by a second backward), and failures inside the recomputation.",
    "One unit test compares values and first gradients for one shape. Second derivatives, broadcasting in one operand, several values per score and failures in the recomputation were wrong or untested.",
    [T + "semirings/checkpoint.py"],
    [("recomputation in backward", "checkpoint.CheckpointSemiring"), ("sharded accumulation", "checkpoint.accumulate_, unaccumulate_")],
)
prop(
    "C11",
    "Corruption in padding or in another batch row is contained",
    "Whatever finite values are stored in the padding of a row's potentials, all answers and gradients for that row stay the same, also when padding is overwritten with other ordinary values while a query runs. A row whose scores are corrupted, up to NaN and infinity, never changes an answer or gradient that is returned for another row.",
    ["fault_sequences", "schedules", "configurations"],
    "All corruptions of padding cells and of whole other rows, placed before a query or at any line while it runs, for all families, lengths and queries.",
    "Tests pad with benign values or compare a few lengths. Masked cells that still take part in the arithmetic show only for hostile contents or for a change at the wrong instant.",
    [T + "helpers.py", T + "linearchain.py", T + "semimarkov.py", T + "deptree.py", T + "cky.py", T + "cky_crf.py"],
    [("length masks", "each structure's _check_potentials and logpartition"), ("row-wise reductions", "helpers._Struct.marginals")],
)
prop(
    "C12",
    "Delivered gradients are exact over any history of backward passes",
    "Gradients of the partition, marginals, entropy, max, log-probability, KL and cross-entropy with respect to the potentials are the exact derivatives, also when a result is differentiated again, several times, late, after other queries, or after an earlier backward pass failed. Queries themselves never add to the gradients held by the caller's tensors.",
    ["histories", "crash_points"],
    "All sequences of queries and backward passes (repeated, retained, delayed, interleaved across distributions sharing parameters, second order) with failures during some of them.",
    "Tests compare values and a few first derivatives taken at once. Dropped graphs, cached tensors detached by an earlier caller or double-counted gradients need two backward passes in a particular order.",
    [T + "distributions.py", T + "helpers.py", T + "semirings/semirings.py", T + "deptree.py"],
    [("marginals as differentiable gradients", "helpers._Struct.marginals"), ("cached graphs", "StructDistribution lazy properties"), ("in-place writes into charts", "each structure's logpartition")],
)
prop(
    "C13",
    "Nothing the caller holds is ever modified",
    "The values of tensors handed to the library (potentials, lengths, events, model states) never change, not even for an instant while a call runs or after a call fails. Results handed out earlier keep their values through all later calls.",
    ["schedules", "crash_points", "histories"],
    "Every instant (source line) of every call, failed calls, and all later calls, for all tensors passed in or returned so far.",
    "Tests never look at their inputs again. A temporary in-place change that is undone before returning can be seen only from another thread or after an exception in between.",
    [T + "helpers.py", T + "linearchain.py", T + "semimarkov.py", T + "deptree.py", T + "cky_crf.py", T + "autoregressive.py", T + "semirings/semirings.py"],
    [("in-place writes through .data and slices", "each structure's logpartition"), ("views of the caller's tensors", "autoregressive.unwrap")],
)
prop(
    "C14",
    "Dropped distributions and results are released",
    "Once the caller has dropped a distribution and all results obtained from it, the library keeps none of their tensors alive. Repeating a history of constructions, queries, failed queries and backward passes any number of times does not increase the number of live tensors.",
    ["histories", "crash_points"],
    "All histories of constructions, queries, failures and drops in a long-lived process.",
    "No test drops an object and looks at what is left. A registry or cache that keeps tensors alive is harmless in any short test and fatal in a training run.",
    [T + "distributions.py", T + "helpers.py", T + "semirings/sample.py", T + "semirings/checkpoint.py", T + "semirings/semirings.py"],
    [("per-instance caches only", "StructDistribution lazy properties"), ("classes made per call", "KMaxSemiring, GumbelCRFSemiring, CheckpointSemiring")],
)
prop(
    "C15",
    "The work of a call does not grow with what happened before",
    "The amount of work a query does is set by its own distribution and arguments. It does not grow with the number of distributions, queries, failures or drops that came earlier in the process.",
    ["histories", "crash_points"],
    "All histories of constructions, queries, failed queries, parameter updates and drops of any length, followed by any query of a fresh distribution.",
    "Tests are short and measure no work. A registry that is scanned, a wrapper that is applied once more on each call or a cache that is rebuilt after a failure shows only as a slowdown late in a long process.",
    [T + "distributions.py", T + "helpers.py", T + "semirings/semirings.py", T + "semirings/sample.py"],
    [("structure object and semiring class made per query", "StructDistribution._struct, KMaxSemiring"), ("per-instance caches", "StructDistribution lazy properties")],
    observe_at=["executed source lines and dispatched tensor operations of each call"],
)
prop(
    "C20",
    "Compact and event representations convert back and forth without loss",
    "Converting a compact structure to its event form and back returns the same structure, for every family, length and batch. Converting a valid event to compact form and back returns the same event.",
    ["inputs"],
    "All structures, lengths and batch sizes of every family.",
    "Tests convert a few random structures per family.",
    [T + "linearchain.py", T + "semimarkov.py", T + "deptree.py", T + "cky_crf.py"],
    [("conversions", "to_parts, from_parts")],
)
prop(
    "C21",
    "Semirings obey the semiring laws",
    "For every provided semiring, addition and multiplication are associative, multiplication distributes over addition, and the declared zero and one act as such, so that any order of evaluation gives the same sum. Matrix product and dot product agree with their definitions through sum and product.",
    ["inputs"],
    "All elements of every semiring, up to rounding.",
    "Tests cover the laws indirectly through a few small structures.",
    [T + "semirings/semirings.py", T + "semirings/sparse_max.py", T + "semirings/fast_semirings.py"],
    [("sum, prod, times, dot, matmul", "Semiring classes")],
)
prop(
    "C22",
    "Sparse-max projection is the Euclidean projection onto the simplex",
    "The sparse-max relaxation returns the point of the probability simplex closest to the scores and its derivative is the projection's derivative. This holds for ties, for any dimension and for any scale.",
    ["inputs"],
    "All score vectors and dimensions.",
    "Tests compare a few vectors.",
    [T + "semirings/sparse_max.py"],
    [("threshold search", "sparse_max.project_simplex")],
)
prop(
    "C23",
    "Alignment scores equal the best and total alignment path scores",
    "The alignment distribution's partition, max and argmax equal the sum and the best over all monotone alignment paths, in global and local mode and for any gap limit.",
    ["inputs", "configurations"],
    "All score tables, lengths and options.",
    "The test needs a native package that is not installed here, so nothing runs.",
    [T + "alignment.py"],
    [("banded dynamic program", "alignment.Alignment")],
)
prop(
    "C24",
    "Answers stay finite and accurate for long inputs and large scores",
    "For lengths and score magnitudes that fit the dtype, the partition, marginals and k-best answers are finite and within rounding of the exact value. Accuracy degrades at most in proportion to the length.",
    ["inputs"],
    "All lengths and magnitudes representable in the dtype.",
    "Tests use lengths up to about ten and scores of order one.",
    [T + "semirings/semirings.py", T + "helpers.py", T + "linearchain.py"],
    [("log-space accumulation and finite stand-in for minus infinity", "semirings._BaseLog")],
)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
