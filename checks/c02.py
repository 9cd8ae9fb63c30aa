"""C02: random mini-batches are genuine, aligned, correctly masked rows."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax

from vlib import util as u

PROPERTY = "C02"
RULE = (
  "Each case draws a long stream of batches from one chain (host loader in "
  "draw, shuffle or in_epochs mode, or device loader) inside lax.scan, and "
  "again with other cache sizes and eagerly; monitors check every row against "
  "the dataset, the masks, the epoch structure and (statistical cases, p < "
  "1e-9) uniformity and independence. Non-trivial: the stream wraps around the "
  "dataset and the cache at least twice.")
ASSUMPTIONS = ["statistical alarms only for p < 1e-9 on fixed seeds"]
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 32, "thorough": 420}


def gen(rng, tier):
  fixed = [(1, 1, 1), (5, 5, 2), (7, 3, 2), (10, 4, 3), (13, 5, 4), (12, 4, 2),
           (11, 10, 3), (17, 6, 5), (9, 2, 1), (8, 7, 2)]
  for i, (n, mb, cache) in enumerate(fixed):
    for mode in ("draw", "shuffle", "epochs", "device"):
      yield dict(core=True, kind=mode, n=n, mb=mb, cache=cache,
                 cache2=1 + (i * 3) % 7, seed=u.seed(rng),
                 chain_seed=[None, 0, 5][i % 3])
  for mode in ("draw", "shuffle", "epochs", "device"):
    for n, mb in ((5, 3), (6, 6), (4, 1)):
      yield dict(core=True, kind=mode + "-stat", n=n, mb=mb, cache=50,
                 seed=u.seed(rng), chain_seed=u.seed(rng))
  # Positions beyond the range of short integers
  for mode in ("draw", "shuffle", "epochs", "device"):
    yield dict(core=True, kind=mode, n=70001, mb=600, cache=130, cache2=2,
               seed=u.seed(rng), chain_seed=None, count=250)
    yield dict(core=True, kind=mode, n=9, mb=2, cache=300, cache2=270,
               seed=u.seed(rng), chain_seed=(1 << 33) + 5, count=700)
  for _ in range(500 if tier == "quick" else 8000):
    n = u.randint(rng, 1, 60)
    yield dict(kind=u.choice(rng, ["draw", "shuffle", "epochs", "device", "shuffle", "epochs"]),
               n=n, mb=u.randint(rng, 1, n), cache=u.randint(rng, 1, 15),
               cache2=u.randint(rng, 1, 15), seed=u.seed(rng),
               chain_seed=u.choice(rng, [None, 0, u.seed(rng)]))


def stream(case, loader, cache, count, jitted=True, information=True):
  """Batches and information of one new chain."""
  from jax_sgmc import data
  from jax import random
  mode = case["kind"].split("-")[0]
  kwargs = {}
  if mode == "device":
    cache = 1
    if case["chain_seed"] is not None:
      kwargs["key"] = random.PRNGKey(case["chain_seed"] % (1 << 31))
  else:
    if case["chain_seed"] is not None:
      kwargs["seed"] = case["chain_seed"]
    if mode in ("shuffle", "epochs"):
      kwargs["shuffle"] = True
    if mode == "epochs":
      kwargs["in_epochs"] = True
  init, get, release = data.random_reference_data(loader, cache, case["mb"])
  state = init(**kwargs)

  def step(st, _):
    if information:
      st, (batch, info) = get(st, information=True)
      out = (batch, info.mask, jnp.asarray(info.observation_count),
             jnp.asarray(info.batch_size))
    else:
      st, batch = get(st)
      out = (batch,)
    return st, out

  if jitted:
    _, out = jax.jit(lambda s: lax.scan(step, s, jnp.arange(count)))(state)
    out = jax.tree_util.tree_map(onp.asarray, out)
  else:
    outs = []
    for _ in range(count):
      state, o = step(state, None)
      outs.append(jax.tree_util.tree_map(onp.asarray, o))
    out = jax.tree_util.tree_map(lambda *x: onp.stack(x), *outs)
  release()
  return out


def make_loader(cls, ds):
  """The loader copies its data, so the arrays can be reused by the caller."""
  arrays = {k: onp.array(v) for k, v in ds.items()}
  loader = cls(**arrays)
  for v in arrays.values():
    v[...] = onp.roll(v, 1, axis=0) + v.dtype.type(1)
  return loader


def run(case, ctx):
  warnings.simplefilter("ignore")
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  kind = case["kind"]
  mode = kind.split("-")[0]
  n, mb = case["n"], case["mb"]
  cls = DeviceNumpyDataLoader if mode == "device" else NumpyDataLoader
  ds = u.dataset(n, case["seed"], extra=2)

  if kind.endswith("-stat"):
    return statistics(case, ctx, cls(idx=onp.arange(n, dtype=onp.int32)))

  per_epoch = -(-n // mb)
  cache = case["cache"]
  count = case.get("count") or min(max(3 * per_epoch + 2, 2 * cache + 3), 200)
  batch, mask, n_obs, bs = stream(case, make_loader(cls, ds), cache, count)
  ctx.count("batches", count)
  shapes = {k: v.shape for k, v in batch.items()}
  expect = {k: (count, mb) + v.shape[1:] for k, v in ds.items()}
  if not ctx.check(shapes == expect, "shape", f"{shapes} expected {expect}"):
    return
  flat = {k: v.reshape((count * mb,) + v.shape[2:]) for k, v in batch.items()}
  idx = u.check_rows(ctx, flat, ds, "rows", kind)
  ctx.check(onp.all(n_obs == n), "observation-count", lambda: u.short(n_obs))
  ctx.check(onp.all(bs == mb), "batch-size", lambda: u.short(bs))
  ok = ctx.check(mask.shape == (count, mb), "mask-shape", f"{mask.shape}")
  if idx is None or not ok:
    return
  mask = mask.astype(bool)
  if mode == "epochs":
    expect_mask = (onp.arange(count * mb).reshape(count, mb)
                   % (per_epoch * mb)) < n
    ctx.check(onp.array_equal(mask, expect_mask), "epoch-mask",
              lambda: f"mask {u.short(mask)}")
    for e in range(count // per_epoch):
      sl = slice(e * per_epoch, (e + 1) * per_epoch)
      valid = idx.reshape(count, mb)[sl][mask[sl]]
      ctx.count("epochs")
      ctx.check(onp.array_equal(onp.sort(valid), onp.arange(n)),
                "epoch-exactly-once", lambda: f"epoch {e}: {u.short(valid)}")
  else:
    ctx.check(onp.all(mask), "mask", lambda: f"valid rows masked {u.short(mask)}")
  if mode == "shuffle":
    for e in range(count * mb // n):
      rows = idx[e * n:(e + 1) * n]
      ctx.count("epochs")
      ctx.check(onp.array_equal(onp.sort(rows), onp.arange(n)),
                "epoch-exactly-once", lambda: f"epoch {e}: {u.short(rows)}")
  if mode in ("shuffle", "epochs") and n >= 12:
    if mode == "shuffle":
      ep = [idx[e * n:(e + 1) * n] for e in range(count * mb // n)]
    else:
      ep = [idx.reshape(count, mb)[e * per_epoch:(e + 1) * per_epoch].ravel()[:n]
            for e in range(count // per_epoch)]
    for a, b in zip(ep, ep[1:]):
      ctx.check(not onp.array_equal(a, b), "fresh-order",
                "two successive epochs have the same order")
    ctx.check(not any(onp.array_equal(a, onp.arange(n)) for a in ep),
              "random-order", "epoch in dataset order")

  # The stream depends neither on the cache nor on the compilation
  if mode != "device":
    other = stream(case, make_loader(cls, ds), case["cache2"], count)
    u.equal(ctx, other[0], batch, "cache-size-independent", "batches", dtype=True)
    u.equal(ctx, other[1], mask, "cache-size-independent", "masks")
  few = min(count, max(cache, 2) + 2, 12)
  eager = stream(case, make_loader(cls, ds), cache, few, jitted=False)
  u.equal(ctx, eager[0], {k: v[:few] for k, v in batch.items()},
          "jit-independent", "eager batches", dtype=True)
  u.equal(ctx, eager[1], mask[:few], "jit-independent", "eager masks")
  plain, = stream(case, make_loader(cls, ds), cache, few, information=False)
  u.equal(ctx, plain, {k: v[:few] for k, v in batch.items()},
          "information-independent", "batches without information", dtype=True)
  # Zero batch for the initialization of models
  loader = make_loader(cls, ds)
  zero = loader.initializer_batch(mb)
  u.equal(ctx, zero, {k: onp.zeros((mb,) + v.shape[1:], v.dtype) for k, v in ds.items()},
          "initializer-batch", "initializer batch", dtype=True)
  zero = loader.initializer_batch()
  u.equal(ctx, zero, {k: onp.zeros(v.shape[1:], v.dtype) for k, v in ds.items()},
          "initializer-batch", "initializer observation", dtype=True)

  ctx.state(mode, n % mb == 0, cache > per_epoch, count % cache == 0,
            case["chain_seed"] is None, mb == n, mb == 1)
  ctx.interesting(count >= 2 * per_epoch and (mode == "device" or count >= 2 * cache))
  ctx.sample = {"first_rows": idx[:12].tolist(), "batches": count}


def statistics(case, ctx, loader):
  from scipy import stats
  mode = case["kind"].split("-")[0]
  n, mb = case["n"], case["mb"]
  count = 4000
  batch, mask, _, _ = stream(case, loader, case["cache"], count)
  idx = batch["idx"]
  if not ctx.check(idx.shape == (count, mb), "shape", f"{idx.shape}"):
    return
  ctx.count("batches", count)
  ctx.interesting()

  def uniform(values, cells, key, what):
    obs = onp.bincount(onp.asarray(values).ravel(), minlength=cells)
    if not ctx.check(len(obs) == cells, key, f"{what}: values outside range"):
      return
    p = stats.chisquare(obs).pvalue
    ctx.check(p > 1e-9, key, f"{what}: p={p}, counts {u.short(obs)}")

  if mode in ("draw", "device"):
    uniform(idx, n, "uniform", "rows")
    for j in range(mb):
      uniform(idx[:, j], n, "uniform", f"rows in slot {j}")
    uniform(idx[:-1, 0] * n + idx[1:, 0], n * n, "independent", "successive batches")
    if mb > 1:
      uniform(idx[:, 0] * n + idx[:, 1], n * n, "independent", "rows of one batch")
      uniform(idx[:, -2] * n + idx[:, -1], n * n, "independent", "rows of one batch")
  else:
    if mode == "shuffle":
      rows = idx.ravel()[:(count * mb // n) * n].reshape(-1, n)
    else:
      per_epoch = -(-n // mb)
      full = (count // per_epoch) * per_epoch
      rows = idx[:full].reshape(-1, per_epoch * mb)[:, :n]
    ctx.check(onp.all(onp.sort(rows, axis=1) == onp.arange(n)),
              "epoch-exactly-once", "rows of an epoch")
    for j in range(n):
      uniform(rows[:, j], n, "uniform", f"position {j} of the epoch")
    uniform(rows[:-1, 0] * n + rows[1:, 0], n * n, "independent", "successive epochs")
    if n > 1:
      a, b = rows[:, 0], rows[:, 1]
      pair = a * (n - 1) + (b - (b > a))
      uniform(pair, n * (n - 1), "independent", "first rows of an epoch")
  ctx.state(case["kind"], n, mb)
  ctx.sample = {"rows": int(idx.size)}
