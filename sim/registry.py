"""Which worlds decide which property, and how many runs each tier gets."""

REAL = "torch_struct (all of it, unmodified), torch autograd and operators"


def world(name):
    if name == "struct":
        from . import world as w
    elif name == "sampling":
        from . import sampling as w
    elif name == "ar":
        from . import ar as w
    elif name == "ckpt":
        from . import ckpt as w
    elif name == "rng":
        from . import rng as w
    else:
        raise KeyError(name)
    return w


def load_all():
    for n in ("struct", "sampling", "ar", "ckpt", "rng"):
        world(n)


COMMON = [
    "potentials of ordinary size (|x| < about 10), rows of at most a few hundred structures are judged by enumeration, larger ones (about one in ten) by an independent recursion",
    "torch operators, its autograd engine and its generator are trusted",
    "threads switch only before source lines of torch_struct; code inside one line is atomic, as is each torch operator",
]


def P(worlds, rule, level="exploration", assumptions=(), stub="none", probes=(), **kw):
    return dict(
        worlds=worlds,
        rule=rule,
        level=level,
        assumptions=COMMON + list(assumptions),
        real=REAL,
        stub=stub,
        probes=probes,
        **kw
    )


PROPS = {
    "C01": P(
        [("struct", 6000, 60000, 10), ("ar", 600, 6000, 10)],
        "a run is a seeded history of constructions, queries, drops, in-place updates and renewals of parameters over 2-5 (sometimes 8-20) near-duplicate distributions, in normal, no-grad and inference mode and under either default dtype, or of searches, samples and scores of 1-4 autoregressive distributions; distinct = different digest of all executed lines and all answers; non-trivial = at least one answer was judged",
    ),
    "C02": P(
        [("struct", 5000, 50000, 10), ("ar", 800, 8000, 10)],
        "a run is 2-4 callers with seeded preemption points; distinct = different digest of executed lines, answers and switch points; non-trivial = at least one preemption happened inside a library call",
        probes=("preemption",),
    ),
    "C03": P(
        [("struct", 3000, 30000, 10), ("ar", 800, 8000, 10)],
        "a run is a history of queries some of which fail at a seeded line or tensor operation; distinct = different digest of executed lines and answers; non-trivial = at least one fault fired and an answer was judged afterwards",
        probes=("fault:oom", "fault:interrupt", "fault:memerr", "fault:oom in backward"),
    ),
    "C04": P(
        [("sampling", 4000, 40000, 10)],
        "a run is 1-4 sampling calls on 1-3 distributions, the outcomes of the random operators being chosen by a seeded adversary among those of positive probability; distinct = different digest of executed lines and samples; non-trivial = at least one sample was judged",
        stub="torch's random operators (multinomial, uniform, exponential) are answered by the adversary in 70% of the calls",
        probes=("adversary:multinomial", "fault:oom", "fault:interrupt"),
    ),
    "C05": P(
        [("sampling", 400, 4000, 4)],
        "a run draws some thousands of samples of one enumerable model after a seeded history and tests frequencies and pairwise independence; distinct = different digest of executed lines and samples",
        assumptions=["a deviation must be visible in a few thousand draws and again (p<1e-8) in six times as many fresh draws"],
        probes=("history",),
    ),
    "C06": P(
        [("rng", 2000, 20000, 10)],
        "a run executes one seeded call sequence twice from the same generator state, the second time with other Python/NumPy generator states, clock, history, used objects, or in another process with another hash seed; distinct = different digest of executed lines and results",
        probes=("process comparison", "preemption"),
    ),
    "C07": P(
        [("sampling", 3000, 30000, 10)],
        "a run is either 1-4 relaxed samples under adversarial noise with their gradients, or some thousands of relaxed samples tested for law and independence; distinct = different digest of executed lines and samples",
        stub="the uniform noise is answered by the adversary in 70% of the validity calls",
        assumptions=["a deviation must be visible in a few thousand draws and again (p<1e-8) in six times as many fresh draws"],
        probes=("adversary:uniform", "gumbel gradients"),
    ),
    "C08": P(
        [("ar", 8000, 80000, 10)],
        "a run is a history of searches over 1-4 distributions sharing stub models, with model failures, library failures, nested and preempted searches; distinct = different digest of executed lines, results and switch points; non-trivial = a result was judged",
        stub="the user's model: a table from (row, prefix) to logits, or a small recurrent net, which records its inputs and checks that its state tensors belong together",
        probes=("model failure:raise", "nested search", "preemption", "fault:oom"),
    ),
    "C09": P(
        [("ar", 6000, 60000, 10)],
        "a run is a history of samples and scores under adversarial draws and model failures, or some thousands of samples tested for law and independence; distinct = different digest of executed lines and results",
        stub="the user's model (as in C08); torch's random operators are answered by the adversary in most calls",
        assumptions=["a deviation must be visible in about two thousand draws and again (p<1e-8) in six times as many fresh draws"],
        probes=("model failure:raise", "nested search"),
    ),
    "C10": P(
        [("ckpt", 6000, 60000, 10)],
        "a run is a history of products through wrapped semirings, failures, and first- and second-order pulls; distinct = different digest of executed lines and results; non-trivial = a value or gradient was compared with the plain semiring",
        probes=("fault:oom in backward", "recomputation failed"),
    ),
    "C11": P(
        [("struct", 3500, 35000, 10), ("ar", 1000, 10000, 10)],
        "a run is 1-3 queries or gradients while padding or another row is overwritten at seeded lines, or 2-6 autoregressive calls in which the model's answers for one row are NaN, infinite or huge from some step on; non-trivial = at least one corruption was applied and an answer judged",
        probes=("corruption:pad", "corruption:row", "corruption:model"),
    ),
    "C12": P(
        [("struct", 3000, 30000, 10), ("ar", 1200, 12000, 10)],
        "a run is a history of held results and backward passes (first and second order, repeated, delayed, some failing); distinct = different digest of executed lines, answers and gradients",
        probes=("op:pull", "fault:oom in backward"),
    ),
    "C13": P(
        [("struct", 2500, 25000, 10), ("ar", 1500, 15000, 10), ("ckpt", 800, 8000, 10)],
        "a run is a history by 1-2 callers with every input and every result so far compared at every line; non-trivial = an answer was judged",
        probes=("fault:oom", "fault:interrupt"),
    ),
    "C14": P(
        [("struct", 1500, 15000, 10), ("ar", 800, 8000, 10)],
        "a run is one history executed three times (once for autoregressive models) with everything dropped in between; non-trivial = an answer was judged",
        stub="autoregressive model: a stub with its own state",
        assumptions=["runs in which an operator failed inside torch's own backward get no verdict, because torch itself leaks there"],
    ),
    "C15": P(
        [("struct", 700, 7000, 10), ("ar", 300, 3000, 10)],
        "a run is a seeded history of some 100-300 calls, drops and failures over 3-9 distributions (or 1-4 autoregressive ones) with the same questions, half of them with the caller's backward pass, put to fresh objects before, in the middle and after; distinct = different digest of executed lines, answers and work counts; non-trivial = the work of at least one late call was compared",
        probes=("fault:oom", "fault:interrupt"),
        assumptions=["work = executed source lines of torch_struct and torch operators dispatched; a tenth plus 30 of slack"],
    ),
}
