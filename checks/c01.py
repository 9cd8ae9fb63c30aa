"""C01: a full data map visits every observation exactly once, in order."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, tree_util

from vlib import util as u

PROPERTY = "C01"
RULE = (
  "Each case builds a dataset of N rows identified by an index field and maps "
  "functions over it with one combination of loader (host/device), batch size, "
  "cache size, masking, information, jit/scan and start offset, for several "
  "passes with two interleaved data states; functions record the rows they "
  "see, their call order (via the carry) and masks. Non-trivial: the batch "
  "size does not divide N or more batches than the cache holds are needed or "
  "an offset is used.")
ASSUMPTIONS = ["observations of a device loader with offset o are visited in "
               "the cyclic order o, o+1, ..."]
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 30, "thorough": 420}


def gen(rng, tier):
  fixed = []
  for loader in ("host", "device"):
    for n, mb, cache in [(1, 1, 1), (5, 5, 2), (7, 3, 2), (10, 4, 3), (13, 1, 4),
                         (12, 4, 2), (11, 10, 1), (17, 5, 7)]:
      for masking in (False, True):
        fixed.append(dict(kind=loader, n=n, mb=mb, cache=cache, masking=masking,
                          information=bool((n + masking) % 2), passes=3,
                          mode=["eager", "jit", "scan"][(n + mb) % 3], offset=0))
  for n, mb, off in [(7, 3, 2), (10, 4, 9), (12, 4, 5), (6, 5, 4)]:
    for masking in (False, True):
      fixed.append(dict(kind="device", n=n, mb=mb, cache=1, masking=masking,
                        information=True, passes=3, mode="jit", offset=off))
  # Positions beyond the range of short integers
  for n, mb, cache in [(70001, 240, 300), (601, 2, 301), (40001, 40001, 1)]:
    for loader in ("host", "device"):
      fixed.append(dict(kind=loader, n=n, mb=mb, cache=cache, masking=bool(mb > 10),
                        information=True, passes=2, mode="jit",
                        offset=n - 3 if loader == "device" else 0))
  # A remainder which is small compared to the batch
  for n, mb, cache in [(4097, 2048, 2), (30001, 10000, 3), (120001, 60000, 1)]:
    for loader in ("host", "device"):
      fixed.append(dict(kind=loader, n=n, mb=mb, cache=cache, masking=bool(cache > 1),
                        information=bool(cache < 3), passes=2, mode="jit", offset=0))
  for c in fixed:
    c.update(core=True, seed=u.seed(rng))
    yield c
  for _ in range(800 if tier == "quick" else 12000):
    n = u.randint(rng, 1, 60)
    mb = u.randint(rng, 1, n)
    if rng.random() < 0.02:
      n, mb = int(rng.integers(200, 1500)), int(rng.integers(20, 200))
    elif rng.random() < 0.02:
      mb = int(rng.integers(1000, 5000))
      n = mb * int(rng.integers(1, 6)) + int(rng.integers(0, 3))
    loader = u.choice(rng, ["host", "device"])
    yield dict(kind=loader, n=n, mb=mb, cache=u.randint(rng, 1, 20),
               masking=bool(rng.random() < 0.5),
               information=bool(rng.random() < 0.5),
               passes=int(rng.integers(1, 5)),
               mode=u.choice(rng, ["eager", "jit", "scan"]),
               offset=int(rng.integers(0, n)) if loader == "device" and rng.random() < 0.6 else 0,
               seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  from jax_sgmc import data
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader

  n, mb, cache = case["n"], case["mb"], case["cache"]
  masking, information = case["masking"], case["information"]
  n_batches = -(-n // mb)
  ds = u.dataset(n, case["seed"], extra=2)
  cls = NumpyDataLoader if case["kind"] == "host" else DeviceNumpyDataLoader
  loader = cls(**ds)
  init, full_map, release = data.full_reference_data(loader, cache, mb)

  order = (onp.arange(n) + case["offset"]) % n

  def fun(batch, *args):
    if masking:
      mask, carry = args
    else:
      carry, = args
      mask = None
    info = None
    if information:
      batch, info = batch
    # Every call appends to the log in the carry
    i, log, acc = carry
    log = log.at[i].set(batch["idx"][0])
    acc = 3 * acc + jnp.sum(batch["idx"], dtype=jnp.int32) + 1
    out = {"batch": batch}
    if masking:
      out["mask"] = mask
      out["masked_sum"] = jnp.sum(jnp.where(mask, batch["idx"], 0))
    else:
      out["double"] = 2.0 * batch["idx"][:, None] * jnp.ones((1, 2))
    if information and masking:
      out["info_mask"] = info.mask
      out["n"] = jnp.asarray(info.observation_count)
      out["mb"] = jnp.asarray(info.batch_size)
    elif information:
      out["info_mask"] = info.mask
      out["n"] = jnp.full((mb,), info.observation_count)
      out["mb"] = jnp.full((mb,), info.batch_size)
    return out, (i + 1, log, acc)

  def carry0(k):
    # More space than needed to notice additional calls
    return (jnp.int32(0), jnp.full((n_batches + 3,), -1, dtype=jnp.int32),
            jnp.int32(k))

  def single(state, k):
    return full_map(fun, state, carry0(k), masking=masking,
                    information=information)

  kwargs = {"offset": case["offset"]} if case["offset"] else {}
  passes = case["passes"]
  # Two data states used in turns must not influence each other
  states = [init(**kwargs), init(**kwargs)]

  collected = []
  if case["mode"] == "scan":
    def body(st, k):
      a, b = st
      a, res_a = single(a, k)
      b, res_b = single(b, k)
      return (a, b), (res_a, res_b)
    _, (ra, rb) = jax.jit(lambda st: lax.scan(body, st, jnp.arange(passes)))(tuple(states))
    for k in range(passes):
      pick = lambda leaf: onp.asarray(leaf)[k]
      collected.append((k, tree_util.tree_map(pick, ra)))
      collected.append((k, tree_util.tree_map(pick, rb)))
  else:
    call = jax.jit(single) if case["mode"] == "jit" else single
    for k in range(passes):
      for j in range(2):
        if k % 2 and j == 1 and passes > 2:
          continue  # the second state skips passes
        states[j], res = call(states[j], k)
        collected.append((k, res))

  for k, (res, carry) in collected:
    ctx.count("passes")
    ctx.count("rows", n)
    what = f"pass {k}"
    calls, log, acc = (onp.asarray(c) for c in carry)
    ctx.check(int(calls) == n_batches, "carry-calls",
              f"{what}: function was called {calls} instead of {n_batches} times")
    expect_log = onp.full(n_batches + 3, -1)
    expect_log[:n_batches] = order[::mb]
    ctx.check(onp.array_equal(log, expect_log), "batch-order",
              lambda: f"{what}: first rows of the batches {u.short(log)} expected {u.short(expect_log)}")
    if not masking:
      if not ctx.check(res["batch"]["idx"].shape[0] == n, "one-result-per-row",
                       lambda: f"{what}: {res['batch']['idx'].shape[0]} results for {n} rows"):
        continue
      idx = u.check_rows(ctx, res["batch"], ds, "rows", what)
      if idx is not None:
        ctx.check(onp.array_equal(idx, order), "exactly-once-in-order",
                  lambda: f"{what}: visited {u.short(idx)} expected {u.short(order)}")
      u.close(ctx, res["double"], 2.0 * order[:, None] * onp.ones((1, 2)),
              "results", what)
      if information:
        ctx.check(onp.all(onp.asarray(res["info_mask"])), "info-mask",
                  f"{what}: valid rows marked as fillers")
        ctx.check(onp.all(onp.asarray(res["n"]) == n), "info-count", what)
        ctx.check(onp.all(onp.asarray(res["mb"]) == mb), "info-batch-size", what)
    else:
      mask = onp.asarray(res["mask"])
      if not ctx.check(mask.shape == (n_batches, mb), "mask-shape",
                       f"{what}: {mask.shape}"):
        continue
      expect_mask = (onp.arange(n_batches * mb) < n).reshape(n_batches, mb)
      ctx.check(onp.array_equal(mask.astype(bool), expect_mask), "mask",
                lambda: f"{what}: mask {u.short(mask)}")
      flat = {f: onp.asarray(v).reshape((-1,) + v.shape[2:])
              for f, v in res["batch"].items()}
      idx = u.check_rows(ctx, flat, ds, "rows", what)
      if idx is not None:
        valid = idx[expect_mask.ravel()]
        ctx.check(onp.array_equal(valid, order), "exactly-once-in-order",
                  lambda: f"{what}: visited {u.short(valid)} expected {u.short(order)}")
        ref = int(k)
        for b in range(n_batches):
          ref = 3 * ref + int(idx.reshape(n_batches, mb)[b].sum()) + 1
        ctx.check(int(acc) & 0xFFFFFFFF == ref & 0xFFFFFFFF, "carry-value",
                  f"{what}: carry {acc} expected {ref}")
      if information:
        ctx.check(onp.array_equal(onp.asarray(res["info_mask"]).astype(bool), expect_mask),
                  "info-mask", lambda: f"{what}: {u.short(res['info_mask'])}")
        ctx.check(onp.all(onp.asarray(res["n"]) == n), "info-count", what)
        ctx.check(onp.all(onp.asarray(res["mb"]) == mb), "info-batch-size", what)
  release()
  ctx.state(case["kind"], n % mb == 0, n_batches > cache, n_batches % cache == 0,
            masking, information, case["mode"], case["offset"] > 0, min(passes, 3))
  ctx.interesting(n % mb != 0 or n_batches > cache or case["offset"])
  ctx.sample = {"order": order[:8].tolist(), "passes": len(collected)}
