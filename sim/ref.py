"""Reference models: small, obvious, executable definitions of every structured
distribution.  Nothing here imports torch_struct.

Two independent references are used:

* Enumeration.  All structures of one batch row are listed explicitly as a count
  matrix S (structures x features).  Score of a structure = S @ potentials, and
  every query is its textbook definition over that list.
* Direct recursion (`inside`), used where the list would be too long.  The two
  are cross-checked against each other by sim/selftest.py.

All arithmetic is float64 and differentiable, so reference gradients come from
autograd through the textbook definition.
"""
import functools
import itertools

import torch

D = torch.float64

FAMILIES = ("LC", "SM", "DEP", "DEPL", "TREE", "CFG", "NP")


# --------------------------------------------------------------------------
# feature layout of one row


def event_shape(fam, d):
    N = d["N"]
    if fam == "LC":
        return (N - 1, d["C"], d["C"])
    if fam == "SM":
        return (N - 1, d["K"], d["C"], d["C"])
    if fam in ("DEP", "NP"):
        return (N, N)
    if fam == "DEPL":
        return (N, N, d["Lb"])
    if fam == "TREE":
        return (N, N, d["NT"])
    raise KeyError(fam)


def cfg_shapes(d):
    NT, T, N = d["NT"], d["T"], d["N"]
    return ((N, T), (NT, NT + T, NT + T), (NT,))


def numel(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def flat_size(fam, d):
    if fam == "CFG":
        return sum(numel(s) for s in cfg_shapes(d))
    return numel(event_shape(fam, d))


def offset(shape, idx):
    o = 0
    for s, i in zip(shape, idx):
        o = o * s + i
    return o


# --------------------------------------------------------------------------
# enumeration: yields lists of flat feature indices (with multiplicity)


def _lc(d, L):
    sh = event_shape("LC", d)
    for z in itertools.product(range(d["C"]), repeat=L):
        yield [offset(sh, (n, z[n + 1], z[n])) for n in range(L - 1)], None


def _sm(d, L):
    sh = event_shape("SM", d)
    end = L - 1

    def go(pos, lab, feats):
        if pos == end:
            yield list(feats), None
            return
        for k in range(1, d["K"]):
            if pos + k > end:
                break
            for c in range(d["C"]):
                feats.append(offset(sh, (pos, k, c, lab)))
                yield from go(pos + k, c, feats)
                feats.pop()

    for c in range(d["C"]):
        yield from go(0, c, [])


def heads_ok(heads, projective, single_root):
    """heads[i] in 0..n for word i+1; 0 is the root."""
    n = len(heads)
    roots = sum(1 for h in heads if h == 0)
    if roots == 0 or (single_root and roots != 1):
        return False
    for i in range(1, n + 1):
        if heads[i - 1] == i:
            return False
        seen, j = set(), i
        while j != 0:
            if j in seen:
                return False
            seen.add(j)
            j = heads[j - 1]
    if projective:
        # every word strictly inside an arc must descend from the arc's head
        for m in range(1, n + 1):
            h = heads[m - 1]
            for w in range(min(h, m) + 1, max(h, m)):
                j = w
                while j != 0 and j != h:
                    j = heads[j - 1]
                if j != h:
                    return False
    return True


@functools.lru_cache(None)
def _head_lists(n, projective, single_root):
    return [
        h
        for h in itertools.product(range(n + 1), repeat=n)
        if heads_ok(h, projective, single_root)
    ]


def _dep(d, L, projective=True):
    sh = event_shape("DEP", d)
    for heads in _head_lists(L, projective, not d["multiroot"]):
        yield [
            offset(sh, (c, c) if h == 0 else (h - 1, c)) for c, h in enumerate(heads)
        ], None


def _depl(d, L):
    sh = event_shape("DEPL", d)
    for heads in _head_lists(L, True, not d["multiroot"]):
        base = [(c, c) if h == 0 else (h - 1, c) for c, h in enumerate(heads)]
        for labs in itertools.product(range(d["Lb"]), repeat=L):
            yield [offset(sh, b + (l,)) for b, l in zip(base, labs)], None


def _brackets(i, j):
    """All binary bracketings of [i, j] (inclusive): lists of (i, k, j)."""
    if i == j:
        yield []
        return
    for k in range(i, j):
        for a in _brackets(i, k):
            for b in _brackets(k + 1, j):
                yield [(i, k, j)] + a + b


def _tree(d, L):
    sh = event_shape("TREE", d)
    for br in _brackets(0, L - 1):
        spans = [(i, j) for i, _, j in br] + [(i, i) for i in range(L)]
        for labs in itertools.product(range(d["NT"]), repeat=len(spans)):
            yield [offset(sh, s + (l,)) for s, l in zip(spans, labs)], None


def _cfg(d, L):
    NT, T, N = d["NT"], d["T"], d["N"]
    s1, s2, s3 = cfg_shapes(d)
    o2 = numel(s1)
    o3 = o2 + numel(s2)
    for br in _brackets(0, L - 1):
        for nts in itertools.product(range(NT), repeat=len(br)):
            lab = {(i, j): a for (i, _, j), a in zip(br, nts)}
            for ts in itertools.product(range(T), repeat=L):
                feats = [offset(s1, (i, ts[i])) for i in range(L)]

                def sym(i, j):
                    return lab[i, j] if i < j else NT + ts[i]

                for i, k, j in br:
                    feats.append(
                        o2 + offset(s2, (lab[i, j], sym(i, k), sym(k + 1, j)))
                    )
                feats.append(o3 + lab[0, L - 1])
                # span table as reported by the library: [width-2][start][nt]
                spans = [
                    offset((N, N, NT), (j - i - 1, i, a)) for (i, j), a in lab.items()
                ]
                yield feats, spans


_ENUM = {
    "LC": _lc,
    "SM": _sm,
    "DEP": _dep,
    "NP": lambda d, L: _dep(d, L, projective=False),
    "DEPL": _depl,
    "TREE": _tree,
    "CFG": _cfg,
}

_CAT = [1, 1, 2, 5, 14, 42, 132, 429, 1430, 4862, 16796, 58786, 208012]
_PROJ_MULTI = [1, 1, 3, 12, 55, 273, 1428, 7752]


@functools.lru_cache(None)
def _sm_count(N, K, C):
    f = [C]
    for n in range(1, N):
        f.append(sum(f[n - k] * C for k in range(1, K) if n - k >= 0))
    return f[N - 1]


def n_structs_estimate(fam, d, L):
    """Cheap count (upper bound) of the structures of one row."""
    if fam == "LC":
        return d["C"] ** L
    if fam == "SM":
        return _sm_count(L, d["K"], d["C"])
    if fam in ("DEP", "DEPL"):
        if L >= len(_PROJ_MULTI):
            return 10**9
        return _PROJ_MULTI[L] * (d.get("Lb", 1) ** L)
    if fam == "NP":
        return (L + 1) ** max(L - 1, 0)
    if L - 1 >= len(_CAT):
        return 10**9
    if fam == "TREE":
        return _CAT[L - 1] * d["NT"] ** (2 * L - 1)
    if fam == "CFG":
        return _CAT[L - 1] * d["NT"] ** (L - 1) * d["T"] ** L
    raise KeyError(fam)


MAX_ENUM = 3000


def enumerable(fam, d, L):
    if fam in ("DEP", "DEPL", "NP") and L > 5:
        return False
    return n_structs_estimate(fam, d, L) <= MAX_ENUM


class Table:
    """All structures of one row."""

    def __init__(self, fam, d, L):
        rows = list(_ENUM[fam](d, L))
        F = flat_size(fam, d)
        self.M = len(rows)
        self.S = torch.zeros(self.M, F, dtype=D)
        for m, (feats, _) in enumerate(rows):
            for f in feats:
                self.S[m, f] += 1
        self.index = {}
        for m, (feats, _) in enumerate(rows):
            self.index.setdefault(tuple(sorted(feats)), m)
        self.spans = None
        if fam == "CFG":
            self.spans = torch.zeros(self.M, d["N"] * d["N"] * d["NT"], dtype=D)
            for m, (_, sp) in enumerate(rows):
                for f in sp:
                    self.spans[m, f] += 1

    def find(self, event_flat):
        """Index of the structure whose event this is, or None."""
        v = event_flat.detach().to(D)
        if not bool(((v == 0) | (v == 1) | (v == v.round())).all()):
            return None
        key = []
        for f in v.nonzero().flatten().tolist():
            c = int(v[f].item())
            if c < 0:
                return None
            key += [f] * c
        return self.index.get(tuple(key))


@functools.lru_cache(512)
def _table(fam, dkey, L):
    return Table(fam, dict(dkey), L)


def table(fam, d, L):
    return _table(fam, tuple(sorted(d.items())), L)


# --------------------------------------------------------------------------
# direct recursions (one row, float64, differentiable)


def _lse(xs):
    return torch.logsumexp(xs, -1)


def _mx(xs):
    return xs.max(-1)[0]


def inside(fam, d, L, pot, mode="sum"):
    """log-partition (mode='sum') or best score (mode='max') of one row.

    pot: tensor of the event shape (tuple of three for CFG)."""
    plus = _lse if mode == "sum" else _mx
    if fam == "LC":
        a = torch.zeros(d["C"], dtype=D)
        for n in range(L - 1):
            a = plus(pot[n] + a[None, :])
        return plus(a)
    if fam == "SM":
        beta = [torch.zeros(d["C"], dtype=D)]
        for n in range(1, L):
            terms = []
            for k in range(1, d["K"]):
                if n - k >= 0:
                    terms.append(plus(pot[n - k, k] + beta[n - k][None, :]))
            beta.append(plus(torch.stack(terms, -1)))
        return plus(beta[-1])
    if fam in ("DEP", "DEPL"):
        w = plus(pot) if fam == "DEPL" else pot
        # Head-automaton recursion without shared spans: g[h][j] = total weight of
        # right dependents of h covering words h+1..j, f[h][i] likewise on the left.
        zero = torch.zeros((), dtype=D)

        @functools.lru_cache(None)
        def full(i, j, h):  # words i..j form one subtree headed by h
            return left(h, i) + right(h, j)

        def sub(i, j, head):  # some word m in i..j heads i..j and attaches to head
            return plus(
                torch.stack([full(i, j, m) + w[head, m] for m in range(i, j + 1)], -1)
            )

        @functools.lru_cache(None)
        def right(h, j):
            if j == h:
                return zero
            return plus(
                torch.stack(
                    [right(h, i - 1) + sub(i, j, h) for i in range(h + 1, j + 1)], -1
                )
            )

        @functools.lru_cache(None)
        def left(h, i):
            if i == h:
                return zero
            return plus(
                torch.stack([left(h, j + 1) + sub(i, j, h) for j in range(i, h)], -1)
            )

        if not d["multiroot"]:
            return plus(torch.stack([full(0, L - 1, m) + w[m, m] for m in range(L)], -1))
        # root's dependents partition 0..L-1 into consecutive subtrees
        pre = [zero]
        for j in range(L):
            opts = []
            for i in range(j + 1):
                seg = plus(
                    torch.stack([full(i, j, m) + w[m, m] for m in range(i, j + 1)], -1)
                )
                opts.append(pre[i] + seg)
            pre.append(plus(torch.stack(opts, -1)))
        return pre[L]
    if fam == "TREE":
        s = plus(pot)
        ins = {(i, i): s[i, i] for i in range(L)}
        for wd in range(1, L):
            for i in range(L - wd):
                j = i + wd
                ins[i, j] = s[i, j] + plus(
                    torch.stack([ins[i, k] + ins[k + 1, j] for k in range(i, j)], -1)
                )
        return ins[0, L - 1]
    if fam == "CFG":
        terms, rules, roots = pot
        NT = d["NT"]
        ins = {}
        for wd in range(1, L):
            for i in range(L - wd):
                j = i + wd
                opts = []
                for k in range(i, j):
                    if k > i:
                        a, ra = ins[i, k], slice(0, NT)
                    else:
                        a, ra = terms[i], slice(NT, None)
                    if k + 1 < j:
                        b, rb = ins[k + 1, j], slice(0, NT)
                    else:
                        b, rb = terms[j], slice(NT, None)
                    x = rules[:, ra, rb] + a[None, :, None] + b[None, None, :]
                    opts.append(plus(x.reshape(NT, -1)))
                ins[i, j] = plus(torch.stack(opts, -1))
        return plus(ins[0, L - 1] + roots)
    if fam == "NP":
        assert mode == "sum"
        e = pot[:L, :L].exp()
        off = e * (1 - torch.eye(L, dtype=D))
        r = torch.diagonal(e)
        lap = torch.diag(off.sum(0)) - off
        if d["multiroot"]:
            return torch.linalg.slogdet(lap + torch.diag(r))[1]
        # coefficient of z in det(lap + z diag(r)): exactly one root arc
        tot = torch.zeros((), dtype=D)
        for m in range(L):
            keep = [i for i in range(L) if i != m]
            minor = (
                torch.linalg.det(lap[keep][:, keep])
                if keep
                else torch.ones((), dtype=D)
            )
            tot = tot + r[m] * minor
        return tot.log()
    raise KeyError(fam)


def kinside(fam, d, L, pot, k):
    """The k best scores of one row, best first (fewer: -inf), by recursion over
    lists of scores: every value carries a last dimension of k sorted scores."""

    def top(x):
        if x.shape[-1] < k:
            fill = torch.full(x.shape[:-1] + (k - x.shape[-1],), -float("inf"), dtype=D)
            x = torch.cat([x, fill], -1)
        return torch.sort(x, -1, descending=True)[0][..., :k]

    def lift(x):
        return top(x[..., None])

    def tm(a, b):
        c = a[..., :, None] + b[..., None, :]
        return top(c.reshape(c.shape[:-2] + (-1,)))

    def pl(x):  # over the last but one dimension
        return top(x.reshape(x.shape[:-2] + (-1,)))

    zero = lift(torch.zeros((), dtype=D))
    if fam == "LC":
        a = lift(torch.zeros(d["C"], dtype=D))
        for n in range(L - 1):
            a = pl(tm(lift(pot[n]), a[None]))
        return pl(a)
    if fam == "SM":
        beta = [lift(torch.zeros(d["C"], dtype=D))]
        for n in range(1, L):
            terms = [
                pl(tm(lift(pot[n - w, w]), beta[n - w][None]))
                for w in range(1, d["K"])
                if n - w >= 0
            ]
            beta.append(pl(torch.stack(terms, -2)))
        return pl(beta[-1])
    if fam in ("DEP", "DEPL"):
        w = pl(lift(pot)) if fam == "DEPL" else lift(pot)
        some = lambda xs: pl(torch.stack(xs, -2))

        @functools.lru_cache(None)
        def full(i, j, h):
            return tm(left(h, i), right(h, j))

        def sub(i, j, head):
            return some([tm(full(i, j, m), w[head, m]) for m in range(i, j + 1)])

        @functools.lru_cache(None)
        def right(h, j):
            if j == h:
                return zero
            return some([tm(right(h, i - 1), sub(i, j, h)) for i in range(h + 1, j + 1)])

        @functools.lru_cache(None)
        def left(h, i):
            if i == h:
                return zero
            return some([tm(left(h, j + 1), sub(i, j, h)) for j in range(i, h)])

        if not d["multiroot"]:
            return some([tm(full(0, L - 1, m), w[m, m]) for m in range(L)])
        pre = [zero]
        for j in range(L):
            opts = []
            for i in range(j + 1):
                seg = some([tm(full(i, j, m), w[m, m]) for m in range(i, j + 1)])
                opts.append(tm(pre[i], seg))
            pre.append(some(opts))
        return pre[L]
    if fam == "TREE":
        sc = pl(lift(pot))
        ins = {(i, i): sc[i, i] for i in range(L)}
        for wd in range(1, L):
            for i in range(L - wd):
                j = i + wd
                x = [tm(ins[i, m], ins[m + 1, j]) for m in range(i, j)]
                ins[i, j] = tm(sc[i, j], pl(torch.stack(x, -2)))
        return ins[0, L - 1]
    if fam == "CFG":
        terms, rules, roots = (lift(x) for x in pot)
        NT = d["NT"]
        ins = {}
        for wd in range(1, L):
            for i in range(L - wd):
                j = i + wd
                opts = []
                for m in range(i, j):
                    a, ra = (ins[i, m], slice(0, NT)) if m > i else (terms[i], slice(NT, None))
                    b, rb = (ins[m + 1, j], slice(0, NT)) if m + 1 < j else (terms[j], slice(NT, None))
                    x = tm(rules[:, ra, rb], tm(a[:, None], b[None])[None])
                    opts.append(pl(x.reshape(NT, -1, k)))
                ins[i, j] = pl(torch.stack(opts, -2))
        return pl(tm(ins[0, L - 1], roots))
    raise KeyError(fam)


# --------------------------------------------------------------------------
# one distribution (all rows)


def flat_row(fam, pots, b):
    if fam == "CFG":
        return torch.cat([p[b].reshape(-1) for p in pots])
    return pots[b].reshape(-1)


class RefDist:
    """Reference answers for a batch.  pots: float64 tensor (tuple for CFG)."""

    def __init__(self, fam, d, lengths, pots):
        self.fam, self.d = fam, d
        self.lengths = list(lengths)
        self.pots = pots
        self.B = (pots[0] if fam == "CFG" else pots).shape[0]
        self.enum = all(enumerable(fam, d, L) for L in self.lengths)

    def row(self, b):
        if self.fam == "CFG":
            return tuple(p[b] for p in self.pots)
        return self.pots[b]

    def tab(self, b):
        return table(self.fam, self.d, self.lengths[b])

    def scores(self, b):
        return self.tab(b).S @ flat_row(self.fam, self.pots, b)

    def logz(self, b):
        if self.enum:
            return torch.logsumexp(self.scores(b), 0)
        return inside(self.fam, self.d, self.lengths[b], self.row(b), "sum")

    def partition(self):
        return torch.stack([self.logz(b) for b in range(self.B)])

    def max(self):
        out = []
        for b in range(self.B):
            if self.enum:
                out.append(self.scores(b).max())
            else:
                out.append(
                    inside(self.fam, self.d, self.lengths[b], self.row(b), "max")
                )
        return torch.stack(out)

    def count(self):
        if self.enum:
            return torch.tensor([float(self.tab(b).M) for b in range(self.B)], dtype=D)
        ps = self.pots if self.fam == "CFG" else (self.pots,)
        zs = [torch.zeros_like(p) for p in ps]
        z = RefDist(self.fam, self.d, self.lengths, tuple(zs) if self.fam == "CFG" else zs[0])
        return z.partition().exp()

    def count_allowed(self):
        "Structures without a ruled-out part."
        return torch.tensor([float((self.scores(b) > -5e5).sum()) for b in range(self.B)], dtype=D)

    def marginals_flat(self):
        """B x F feature marginals (differentiable)."""
        if self.enum:
            rows = []
            for b in range(self.B):
                p = torch.softmax(self.scores(b), 0)
                rows.append(p @ self.tab(b).S)
            return torch.stack(rows)
        ps = self.pots if self.fam == "CFG" else (self.pots,)
        with torch.enable_grad():
            me, live = self, all(p.requires_grad for p in ps)
            if not live:
                ps = tuple(p.detach().clone().requires_grad_(True) for p in ps)
                me = RefDist(self.fam, self.d, self.lengths, ps if self.fam == "CFG" else ps[0])
            gs = torch.autograd.grad(me.partition().sum(), ps, create_graph=live)
        return torch.cat([g.reshape(self.B, -1) for g in gs], 1)

    def span_marginals_flat(self):
        return torch.stack(
            [
                torch.softmax(self.scores(b), 0) @ self.tab(b).spans
                for b in range(self.B)
            ]
        )

    def flat(self):
        return torch.stack([flat_row(self.fam, self.pots, b) for b in range(self.B)])

    def entropy(self):
        if self.enum:
            out = []
            for b in range(self.B):
                lp = torch.log_softmax(self.scores(b), 0)
                out.append(-(lp.exp() * lp).sum())
            return torch.stack(out)
        m = self.marginals_flat()
        return self.partition() - (m * self.flat()).sum(1)

    def cross_entropy(self, other):
        if self.enum:
            out = []
            for b in range(self.B):
                lp = torch.log_softmax(self.scores(b), 0)
                lq = torch.log_softmax(other.scores(b), 0)
                out.append(-(lp.exp() * lq).sum())
            return torch.stack(out)
        m = self.marginals_flat()
        return other.partition() - (m * other.flat()).sum(1)

    def kl(self, other):
        return self.cross_entropy(other) - self.entropy()

    def topk_scores(self, b, k):
        "The k best scores (differentiable); k is at most the number of structures."
        if self.enum:
            return torch.sort(self.scores(b), descending=True)[0][:k]
        return kinside(self.fam, self.d, self.lengths[b], self.row(b), k)

    def one_to_one(self, b):
        "Different structures have different events (not so for chains of length 1)."
        if self.enum:
            return self.tab(b).M == len(self.tab(b).index)
        return self.fam != "CFG" and (self.lengths[b] > 1 or self.fam not in ("LC", "SM"))

    def score_of(self, b, ev_flat):
        return (flat_row(self.fam, self.pots, b) * ev_flat.detach().to(D)).sum()


# --------------------------------------------------------------------------
# validity of a single event


def decode_valid(fam, d, L, ev):
    """Why `ev` (event-shaped tensor of one row) is not a structure, or None."""
    ev = ev.detach()
    if fam == "CFG":  # flat counts of terminals, rules, roots: necessary conditions only
        n = [numel(x) for x in cfg_shapes(d)]
        if not bool((ev == ev.round()).all()) or bool((ev < 0).any()):
            return "counts that are not whole numbers"
        a = ev[: n[0]].reshape(d["N"], -1).sum(1)
        if not bool((a[:L] == 1).all()) or bool(a[L:].any()):
            return "a word without exactly one terminal"
        if ev[n[0] : n[0] + n[1]].sum() != L - 1 or ev[n[0] + n[1] :].sum() != 1:
            return "wrong number of rules or roots"
        return None
    if not bool(((ev == 0) | (ev == 1)).all()):
        bad = ev[(ev != 0) & (ev != 1)]
        return "entries other than 0/1, e.g. %r" % (bad.flatten()[0].item(),)
    if fam == "LC":
        if ev[L - 1 :].any():
            return "events set in the padding"
        prev = None
        for n in range(L - 1):
            on = ev[n].nonzero().tolist()
            if len(on) != 1:
                return "position %d has %d edges" % (n, len(on))
            new, old = on[0]
            if prev is not None and old != prev:
                return "edge %d leaves state %d but the chain is in %d" % (n, old, prev)
            prev = new
        return None
    if fam == "SM":
        on = sorted(ev.nonzero().tolist())
        pos, lab = 0, None
        for n, k, c2, c1 in on:
            if n != pos:
                return "segment starts at %d, expected %d" % (n, pos)
            if k < 1:
                return "segment of width %d" % k
            if lab is not None and c1 != lab:
                return "segment label break at %d" % n
            pos, lab = n + k, c2
        if pos != L - 1:
            return "segments cover %d of %d steps" % (pos, L - 1)
        return None
    if fam in ("DEP", "DEPL", "NP"):
        if ev[L:].any() or ev[:, L:].any():
            return "arcs in the padding"
        e = ev.sum(-1) if fam == "DEPL" else ev
        heads = []
        for c in range(L):
            on = e[:, c].nonzero().flatten().tolist()
            if len(on) != 1 or e[on[0], c] != 1:
                return "word %d has %d heads" % (c, int(e[:, c].sum().item()))
            heads.append(0 if on[0] == c else on[0] + 1)
        if not heads_ok(heads, fam != "NP", not d["multiroot"]):
            return "heads %s are not an admissible tree" % (heads,)
        return None
    if fam == "TREE":
        spans = {}
        for i, j, a in ev.nonzero().tolist():
            if (i, j) in spans:
                return "span (%d,%d) labelled twice" % (i, j)
            spans[i, j] = a
        need = []

        def walk(i, j):
            if (i, j) not in spans:
                return "span (%d,%d) missing" % (i, j)
            need.append((i, j))
            if i == j:
                return None
            ks = [k for k in range(i, j) if (i, k) in spans and (k + 1, j) in spans]
            if len(ks) != 1:
                return "span (%d,%d) has %d splits" % (i, j, len(ks))
            return walk(i, ks[0]) or walk(ks[0] + 1, j)

        why = walk(0, L - 1)
        if why:
            return why
        if len(need) != len(spans):
            return "stray spans"
        return None
    raise KeyError(fam)
