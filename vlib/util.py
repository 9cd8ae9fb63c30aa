"""Helpers of the checks: comparisons, generators and reference models."""
import numpy as onp

import jax
import jax.numpy as jnp
from jax import tree_util


def leaves(tree):
  return [onp.asarray(x) for x in tree_util.tree_leaves(tree)]


def same_structure(ctx, a, b, key):
  return ctx.check(
    tree_util.tree_structure(a) == tree_util.tree_structure(b), key,
    lambda: f"structure {tree_util.tree_structure(a)} instead of "
            f"{tree_util.tree_structure(b)}")


def equal(ctx, got, want, key, what="", dtype=False):
  """Bitwise comparison of two trees."""
  lg, lw = leaves(got), leaves(want)
  if not ctx.check(len(lg) == len(lw), key,
                   f"{what}: {len(lg)} leaves instead of {len(lw)}"):
    return False
  ok = True
  for i, (g, w) in enumerate(zip(lg, lw)):
    if not ctx.check(g.shape == w.shape, key,
                     f"{what}: leaf {i} shape {g.shape} instead of {w.shape}"):
      ok = False
      continue
    if dtype and not ctx.check(
        g.dtype == w.dtype, key,
        f"{what}: leaf {i} dtype {g.dtype} instead of {w.dtype}"):
      ok = False
      continue
    eq = (g == w) | ((g != g) & (w != w))
    ok &= ctx.check(onp.all(eq), key,
                    lambda: f"{what}: leaf {i} got {short(g)} expected {short(w)}")
  return ok


def close(ctx, got, want, key, what="", rtol=1e-4, atol=1e-5, scale=None):
  """Comparison with a tolerance relative to the magnitude of the leaf.

  ``scale``: magnitude of the intermediate terms (cancellation).
  """
  lg, lw = leaves(got), leaves(want)
  if not ctx.check(len(lg) == len(lw), key,
                   f"{what}: {len(lg)} leaves instead of {len(lw)}"):
    return False
  ok = True
  for i, (g, w) in enumerate(zip(lg, lw)):
    if not ctx.check(g.shape == w.shape, key,
                     f"{what}: leaf {i} shape {g.shape} instead of {w.shape}"):
      ok = False
      continue
    g, w = g.astype(onp.float64), w.astype(onp.float64)
    mag = onp.max(onp.abs(w)) if w.size else 0.0
    if scale is not None:
      mag = max(mag, float(scale))
    tol = atol + rtol * mag
    with onp.errstate(invalid="ignore"):
      good = (onp.abs(g - w) <= tol) | (g == w) | ((g != g) & (w != w))
    ok &= ctx.check(onp.all(good), key,
                    lambda: f"{what}: leaf {i} got {short(g)} expected "
                            f"{short(w)} (max difference "
                            f"{onp.max(onp.abs(g - w))}, tolerance {tol})")
  return ok


def short(x):
  with onp.printoptions(precision=6, threshold=24, edgeitems=6):
    return str(onp.asarray(x)).replace("\n", " ")[:400]


def rng_of(case, *salt):
  return onp.random.default_rng([int(case["seed"]), *salt])


def randint(rng, lo, hi):
  """Integer in [lo, hi], small values preferred."""
  if hi <= lo:
    return int(lo)
  if rng.random() < 0.5:
    hi = min(hi, lo + 8)
  return int(rng.integers(lo, hi + 1))


def choice(rng, seq):
  return seq[int(rng.integers(len(seq)))]


def seed(rng):
  return int(rng.integers(2**31 - 1))


def logu(rng, lo, hi):
  return float(onp.exp(rng.uniform(onp.log(lo), onp.log(hi))))


# --- Datasets ----------------------------------------------------------------

DTYPES = ["float32", "int32", "uint8", "bool", "float16"]


def dataset(n, s, extra=2):
  """Dataset whose rows are identified by ``idx``; all rows are distinct."""
  rng = onp.random.default_rng([s, n, 77])
  data = {"idx": onp.arange(n, dtype=onp.int32)}
  for k in range(extra):
    rank = int(rng.integers(0, 4))
    shape = tuple(int(v) for v in rng.integers(1, 4, size=rank))
    dt = onp.dtype(DTYPES[int(rng.integers(len(DTYPES)))])
    raw = rng.integers(0, 100, size=(n,) + shape)
    if dt == bool:
      raw = raw % 2
    data[f"f{k}_{choice(rng, 'abcxyz')}"] = raw.astype(dt)
  # The order of the fields is arbitrary
  names = list(data)
  rng.shuffle(names)
  return {name: data[name] for name in names}


def check_rows(ctx, batch, data, key, what=""):
  """All fields of the rows belong to the observation given by ``idx``.

  Returns the indices or None.
  """
  if not ctx.check(isinstance(batch, dict) and set(batch) == set(data), key,
                   lambda: f"{what}: fields {batch if not isinstance(batch, dict) else sorted(batch)} instead of {sorted(data)}"):
    return None
  idx = onp.asarray(batch["idx"])
  n = len(data["idx"])
  if not ctx.check(onp.all((idx >= 0) & (idx < n)), key,
                   lambda: f"{what}: rows do not exist: {short(idx)}"):
    return None
  ok = True
  for name, col in data.items():
    ok &= equal(ctx, batch[name], col[idx], key, f"{what} field {name}",
                dtype=True)
  return idx if ok else None


# --- Random trees ------------------------------------------------------------

def tree_spec(rng, depth=2, max_leaves=4, max_rank=2, max_dim=3):
  """JSON-able description of a pytree of arrays."""
  count = [0]

  def node(d):
    r = rng.random()
    if d == 0 or r < 0.3 or count[0] >= max_leaves:
      count[0] += 1
      rank = int(rng.integers(0, max_rank + 1))
      return {"t": "leaf",
              "shape": [int(v) for v in rng.integers(1, max_dim + 1, size=rank)]}
    kind = choice(rng, ["dict", "list", "tuple"])
    k = int(rng.integers(1, 4))
    kids = [node(d - 1) for _ in range(k)]
    if kind == "dict":
      pool = ["w", "b", "sigma", "a", "Z", "layer_10", "layer_9", "x1", "k"]
      rng.shuffle(pool)
      return {"t": "dict", "keys": pool[:k], "kids": kids}
    return {"t": kind, "kids": kids}

  return node(depth)


def build_tree(spec, leaf_fn):
  if spec["t"] == "leaf":
    return leaf_fn(tuple(spec["shape"]))
  kids = [build_tree(k, leaf_fn) for k in spec["kids"]]
  if spec["t"] == "dict":
    return dict(zip(spec["keys"], kids))
  return kids if spec["t"] == "list" else tuple(kids)


def normal_tree(spec, rng, scale=1.0, positive=False, dtype=onp.float32):
  def leaf(shape):
    v = rng.normal(size=shape) * scale
    if positive:
      v = onp.exp(0.7 * rng.normal(size=shape)) * scale
    return jnp.asarray(onp.asarray(v, dtype=dtype))
  return build_tree(spec, leaf)


def flat(tree):
  """Flattened tree in double precision."""
  ls = leaves(tree)
  if not ls:
    return onp.zeros(0)
  return onp.concatenate([onp.ravel(l).astype(onp.float64) for l in ls])


def unflat(vec, like):
  ls, td = tree_util.tree_flatten(like)
  out, pos = [], 0
  for l in ls:
    size = int(onp.prod(onp.shape(l)))
    out.append(onp.reshape(vec[pos:pos + size], onp.shape(l)))
    pos += size
  return tree_util.tree_unflatten(td, out)


# --- Statistics --------------------------------------------------------------

def z_mean(x, mean, std):
  """z-score of the sample mean of independent draws."""
  x = onp.asarray(x, dtype=onp.float64).ravel()
  return (x.mean() - mean) / (std / onp.sqrt(x.size))


def chi2_extreme(ss, dof):
  """log10 of the two sided p-value of a chi-square statistic."""
  from scipy import stats
  p = 2 * min(stats.chi2.cdf(ss, dof), stats.chi2.sf(ss, dof))
  return onp.log10(max(p, 1e-300))


def normal_shape(ctx, z, key, what):
  """Tails, moments and resolution of many independent standard normals."""
  from scipy import stats
  z = onp.asarray(z, dtype=onp.float64).ravel()
  n = z.size
  for t in (0.5, 1.0, 2.0, 3.0, 3.5, 4.0, 4.5):
    for side, hits in (("above", int(onp.sum(z > t))), ("below -", int(onp.sum(z < -t)))):
      p = stats.norm.sf(t)
      pv = 2 * min(stats.binom.cdf(hits, n, p), stats.binom.sf(hits - 1, n, p))
      ctx.check(pv > 1e-10, f"{key}-tails", lambda: f"{what}: {hits} of {n} values {side}{t}, "
                                                    f"expected {n * p} (p = {pv})")
  for k, mean, var in ((1, 0.0, 1.0), (2, 1.0, 2.0), (3, 0.0, 15.0), (4, 3.0, 96.0)):
    dev = (onp.mean(z ** k) - mean) * onp.sqrt(n / var)
    ctx.check(abs(dev) < 7.5, f"{key}-moments",
              lambda: f"{what}: moment {k} of {n} values is {onp.mean(z ** k)} (z = {dev})")
  pv = stats.kstest(z, "norm").pvalue
  ctx.check(pv > 1e-10, f"{key}-gaussian", lambda: f"{what}: Kolmogorov-Smirnov p = {pv} of {n} values")
  ctx.count("normals", n)


def lagged(ctx, z, key, what, lags=(1, 2, 3, 4, 5, 7, 8, 16, 100, 256)):
  """Independence of the entries of one long vector of standard normals."""
  z = onp.asarray(z, dtype=onp.float64).ravel()
  for lag in lags:
    if 4 * lag < z.size:
      for name, a in (("values", z), ("squares", (z ** 2 - 1) / onp.sqrt(2))):
        c = onp.sum(a[lag:] * a[:-lag]) / onp.sqrt(a.size - lag)
        ctx.check(abs(c) < 8, f"{key}-independent", lambda: f"{what}: {name} at the distance {lag}: z = {c}")


class Batches:
  """Deterministic random-data triple: the k-th request returns batch k.

  The data state is a counter, the batch a function of the counter, such that a
  reference model knows which batch each gradient evaluation must use.
  """

  def __init__(self, table, observation_count, batch_size):
    self.table = {k: jnp.asarray(v) for k, v in table.items()}
    self.count = int(next(iter(self.table.values())).shape[0])
    self.n_obs = observation_count
    self.mb = batch_size

  def triple(self):
    from jax_sgmc.data import MiniBatchInformation

    def init(start=0):
      return jnp.asarray(start, dtype=jnp.int32)

    def get(state, information=False, device_count=1):
      batch = {k: v[jnp.mod(state, self.count)] for k, v in self.table.items()}
      info = MiniBatchInformation(
        observation_count=self.n_obs, batch_size=self.mb,
        mask=jnp.ones(self.mb, dtype=jnp.bool_))
      if information:
        return state + 1, (batch, info)
      return state + 1, batch

    return init, get, lambda: None


def driven(sched, iterations, stats=None, helpers=(), strategy="map", chains=1):
  """Schedules which the driver hands to a sampler, chain by chain.

  The sampler returns every schedule it received as its sample. stats maps the
  schedule and the iteration to the statistics reported to the schedule. The
  helper schedules follow the first one. Returns for each chain the list of
  the kept iterations and the schedules of these iterations.
  """
  from jax_sgmc import solver  # pylint: disable=import-outside-toplevel

  def log(schedule):
    return {k: jnp.asarray(getattr(schedule, k)).astype(jnp.float32) for k in ("step_size", "temperature")}

  def update(state, *schedules):
    new = {"n": state["n"] + 1, "log": [log(s) for s in schedules]}
    return new, None if stats is None else stats(schedules[0], state["n"])

  zero = {"step_size": jnp.zeros((), jnp.float32), "temperature": jnp.zeros((), jnp.float32)}
  start = {"n": jnp.int32(0), "log": [zero] * (1 + len(helpers))}
  run = solver.mcmc((lambda s: s, update, lambda s: s), sched, strategy=strategy)
  kw = {"schedulers": list(helpers)} if helpers else {}
  results = run(*[start] * chains, iterations=iterations, **kw)
  out = []
  for r in results:
    n = onp.asarray(r["samples"]["n"]) - 1
    out.append((int(r["sample_count"]), n,
                [{k: onp.asarray(v, float) for k, v in l.items()} for l in r["samples"]["log"]]))
  return out


def rare_decisions(ctx, p, happened, key, what):
  """Decisions of all probabilities, in particular the smallest and largest.

  The bound of Chernoff holds for any number of independent decisions.
  """
  p = onp.asarray(p, float).ravel()
  happened = onp.asarray(happened, bool).ravel()
  edges = [1e-5, 1e-4, 3e-4, 1e-3, 3e-3, 1e-2, 3e-2, 0.1, 0.3]
  for side, prob, event in (("", p, happened), ("1 - ", 1 - p, ~happened)):
    for lo, hi in zip(edges[:-1], edges[1:]):
      mask = (prob >= lo) & (prob < hi)
      expected, count = prob[mask].sum(), int(event[mask].sum())
      if expected < 1e-3:
        continue
      ctx.count("rare decisions", int(mask.sum()))
      for e in (0.98 * expected, 1.02 * expected):  # precision of the probability
        if (count > e) == (e > expected):
          bound = count - e - (count * onp.log(count / e) if count else 0.0)
          ctx.check(bound > -24, key, lambda: (
            f"{what}: {count} of {int(mask.sum())} decisions, {expected:.1f} expected with "
            f"probabilities {side}[{lo}, {hi}]"))
