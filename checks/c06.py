"""C06: the stateless full data mapper equals a plain loop."""
import sys
import threading
import time
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax

from vlib import util as u

PROPERTY = "C06"
RULE = (
  "Each case maps batched or single-observation functions, with or without "
  "masking and information, over a dataset of N rows through the mapper that "
  "manages its own states: repeatedly (eager, jit, inside scan), from several "
  "threads with slow loaders, or after loader failures; results and carries "
  "are compared with a numpy loop. Non-trivial: more batches than the cache "
  "holds or fillers or overlapping calls or failures.")
ASSUMPTIONS = []
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 34, "thorough": 360}


# Shapes of a field of a single observation
SHAPES = [(), (1,), (3,), (1, 3), (2, 1), (1, 1), (2, 1, 2)]


def gen(rng, tier):
  for loader in ("host", "device"):
    for k, (n, mb, cache) in enumerate([(1, 1, 1), (7, 3, 2), (10, 5, 1), (9, 2, 7),
                                        (11, 4, 2), (6, 1, 3)]):
      for batched, masking in ((True, False), (True, True), (False, False)):
        yield dict(core=True, kind="calls", loader=loader, n=n, mb=mb, cache=cache,
                   batched=batched, masking=masking, information=bool(k % 2),
                   mode=["eager", "jit", "scan"][(k + masking) % 3], seed=u.seed(rng))
  # More rows and more batches than short integers count
  for loader, n, mb, cache, batched, masking, mode in [
      ("host", 70001, 200, 3, True, False, "jit"), ("device", 70001, 200, 1, True, True, "scan"),
      ("host", 601, 2, 300, True, True, "jit"), ("host", 290, 1, 1, False, False, "scan"),
      ("device", 601, 2, 300, False, False, "jit"), ("host", 1500, 700, 2, False, False, "eager")]:
    yield dict(core=True, kind="calls", loader=loader, n=n, mb=mb, cache=cache, batched=batched,
               masking=masking, information=True, mode=mode, seed=u.seed(rng))
  for i in range(8):
    yield dict(core=True, kind="threads", seed=u.seed(rng), n=int(rng.integers(5, 25)),
               mb=int(rng.integers(1, 5)), cache=int(rng.integers(1, 4)),
               loader="host" if i % 4 else "device", batched=bool(i % 2),
               masking=False, information=False)
  for i in range(6):
    yield dict(core=True, kind="fault", seed=u.seed(rng), n=int(rng.integers(8, 25)),
               mb=int(rng.integers(1, 3)), cache=1, loader="host", batched=True,
               masking=False, information=False)
  for _ in range(500 if tier == "quick" else 8000):
    n = u.randint(rng, 1, 40)
    batched = bool(rng.random() < 0.6)
    kind = u.choice(rng, ["calls", "calls", "calls", "threads", "fault"])
    yield dict(kind=kind, loader="host" if kind == "fault" else u.choice(rng, ["host", "device"]),
               n=n, mb=u.randint(rng, 1, n), cache=u.randint(rng, 1, 6),
               batched=batched, masking=batched and bool(rng.random() < 0.5),
               information=bool(rng.random() < 0.5),
               mode=u.choice(rng, ["eager", "jit", "scan"]), seed=u.seed(rng))


def reference(case, ds, k):
  """Plain loop over the dataset."""
  n, mb = case["n"], case["mb"]
  nb = -(-n // mb)
  x = ds["x"].astype(onp.float64) + onp.reshape(ds["f"], (n, -1)).sum(axis=1)
  idx = ds["idx"]
  carry = onp.zeros(3)
  carry[2] = k
  out = []
  for b in range(nb):
    rows = onp.arange(b * mb, min((b + 1) * mb, n))
    if case["batched"]:
      inc = idx[rows].sum()
    else:
      inc = idx[rows[0]]
    if case["masking"]:
      out.append((k + 1) * x[rows].sum())
    else:
      # depends on the carry handed over from the previous batch
      out.extend((k + 1) * x[rows] + carry[0])
    carry = onp.array([carry[0] + 1, (2 * carry[1] + inc) % 1009, carry[2]])
  return onp.array(out), carry


def function(case, shapes):
  """The function to map; parametrized by k in the carry."""
  mb, masking, information = case["mb"], case["masking"], case["information"]
  n = case["n"]

  def fun(batch, *args):
    carry = args[-1]
    calls, acc, k = carry
    info = None
    if information:
      batch, info = batch
    shapes.add((batch["f"].shape, batch["x"].shape))
    f = batch["f"]
    x = batch["x"] + jnp.sum(jnp.reshape(f, batch["x"].shape + (-1,)), axis=-1)
    rows = jnp.arange(mb) + calls.astype(jnp.int32) * mb
    if not case["batched"]:
      value = (k + 1) * x + calls
      inc = batch["idx"]
    elif masking:
      mask = args[0]
      value = (k + 1) * jnp.sum(jnp.where(mask, x, 0.0))
      inc = jnp.sum(jnp.where(mask, batch["idx"], 0))
    else:
      value = (k + 1) * x + calls
      inc = jnp.sum(jnp.where(rows < n, batch["idx"], 0))
    out = {"v": value}
    if case["batched"] and masking:
      out["mask"] = args[0]
    elif case["batched"] or not masking:
      out["idx"] = batch["idx"]
    if information:
      if case["batched"] and masking:
        out["info"] = info.mask
      elif case["batched"]:
        out["info"] = info.mask
        out["n"] = jnp.full((mb,), info.observation_count)
      else:
        out["n"] = jnp.asarray(info.observation_count)
    return out, (calls + 1, jnp.mod(2 * acc + inc, 1009).astype(jnp.float32), k)

  return fun


def verify(ctx, case, ds, k, res, what):
  out, carry = res
  ref, ref_carry = reference(case, ds, k)
  n, mb = case["n"], case["mb"]
  nb = -(-n // mb)
  u.close(ctx, out["v"], ref, "results", what, rtol=1e-5)
  u.close(ctx, onp.array([onp.asarray(c) for c in carry]), ref_carry, "carry", what)
  if "mask" in out:
    want = (onp.arange(nb * mb) < n).reshape(nb, mb)
    u.equal(ctx, onp.asarray(out["mask"]).astype(bool), want, "mask", what)
    if "info" in out:
      u.equal(ctx, onp.asarray(out["info"]).astype(bool), want, "info-mask", what)
  if "idx" in out:
    u.equal(ctx, out["idx"], onp.arange(n), "exactly-once-in-order", what)
    if "info" in out:
      ctx.check(onp.all(out["info"]), "info-mask", what)
  if "n" in out:
    ctx.check(onp.all(onp.asarray(out["n"]) == n), "info-count", what)
  ctx.count("calls")


def run(case, ctx):
  warnings.simplefilter("ignore")
  from jax_sgmc import data
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  case = dict(case, mb=min(case["mb"], case["n"]))
  rng = u.rng_of(case)
  n, mb, cache = case["n"], case["mb"], case["cache"]
  ds = {"x": rng.normal(size=n).astype(onp.float32),
        "idx": onp.arange(n, dtype=onp.int32)}
  feature = SHAPES[int(rng.integers(len(SHAPES)))]
  ds["f"] = rng.integers(-3, 4, (n,) + feature).astype(onp.float32)
  shapes = set()

  class Slow(NumpyDataLoader):
    """Delays or fails requests."""
    delays = None
    fail_at = ()
    calls = 0
    busy = {}
    overlap = 0

    def get_batches(self, chain_id):
      self.calls += 1
      if self.calls in self.fail_at:
        raise RuntimeError("storage failed")
      if self.delays is not None:
        time.sleep(float(self.delays[self.calls % len(self.delays)]))
      return super().get_batches(chain_id)

  if case["loader"] == "device":
    loader = DeviceNumpyDataLoader(**ds)
    cache = 1
  else:
    loader = Slow(**ds)

  mapper, release = data.full_data_mapper(loader, cache, mb)
  fun = function(case, shapes)

  def call(k):
    k = jnp.asarray(k, dtype=jnp.float32)
    return mapper(fun, (jnp.float32(0), jnp.float32(0), k), masking=case["masking"],
                  information=case["information"], batched=case["batched"])

  if case["kind"] == "calls":
    times = int(rng.integers(2, 6))
    if case["mode"] == "scan":
      @jax.jit
      def many():
        return lax.scan(lambda c, k: (c, call(k)), 0, jnp.arange(times))[1]
      for r in range(2):
        res = many()
        for k in range(times):
          verify(ctx, case, ds, k, jax.tree_util.tree_map(lambda v: onp.asarray(v)[k], res),
                 f"scan {r} call {k}")
    else:
      f = jax.jit(call) if case["mode"] == "jit" else call
      for k in range(times):
        verify(ctx, case, ds, k, f(k), f"call {k}")
      # A second function through the same mapper
      other = mapper(lambda b, c: (b["idx"] * 2, c), None)
      u.equal(ctx, other[0], 2 * onp.arange(n), "exactly-once-in-order", "second function")
    ctx.interesting(n % mb != 0 or -(-n // mb) > cache)
    ctx.state("calls", case["loader"], case["batched"], case["masking"],
              case["information"], case["mode"], n % mb == 0, mb == 1)
    ctx.sample = {"calls": times}
  elif case["kind"] == "threads":
    f = jax.jit(call)
    verify(ctx, case, ds, 0, f(0), "first call")
    if case["loader"] == "host":
      loader.delays = rng.random(13) * 0.003
    k = int(rng.integers(2, 7))
    results, errors, spans = [], [], []
    barrier = threading.Barrier(k)

    def work(i):
      try:
        barrier.wait(60)
        for r in range(4):
          t0 = time.time()
          res = jax.tree_util.tree_map(onp.asarray, f(10 * i + r))
          spans.append((t0, time.time(), i))
          results.append((10 * i + r, res))
      except BaseException as e:  # pylint: disable=broad-except
        errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
      threads = [threading.Thread(target=work, args=(i,)) for i in range(k)]
      for t in threads:
        t.start()
      for t in threads:
        t.join()
    finally:
      sys.setswitchinterval(old)
    if errors:
      raise errors[0]
    for kk, res in results:
      verify(ctx, case, ds, kk, res, f"concurrent call {kk} of {k} threads")
    overlaps = sum(a[0] < b[1] and b[0] < a[1] and a[2] < b[2]
                   for a in spans for b in spans)
    ctx.count("overlapping-calls", overlaps)
    ctx.state("threads", k, case["loader"], min(overlaps, 50))
    ctx.interesting(overlaps > 0)
    ctx.sample = {"threads": k, "overlaps": overlaps}
  else:
    f = jax.jit(call)
    verify(ctx, case, ds, 0, f(0), "first call")
    faults = 0
    for r in range(6):
      if rng.random() < 0.6:
        loader.fail_at = (loader.calls + int(rng.integers(1, 6)),)
      try:
        res = jax.tree_util.tree_map(onp.asarray, f(r))
      except Exception as e:  # pylint: disable=broad-except
        if not loader.fail_at:
          raise
        faults += 1
        loader.fail_at = ()
        ctx.count("faults")
        continue
      verify(ctx, case, ds, r, res, f"call {r} after {faults} failures")
      if loader.fail_at and loader.calls >= loader.fail_at[0]:
        ctx.violate("failure-reported", f"call {r}: the failed request did not raise")
    loader.fail_at = ()
    verify(ctx, case, ds, 99, f(99), f"call after {faults} failures")
    ctx.state("fault", faults, case["batched"], case["masking"])
    ctx.interesting(faults > 0)
    ctx.sample = {"failed calls": faults}
  # A single observation keeps its own shape
  lead = (mb,) if case["batched"] else ()
  ctx.check(shapes == {(lead + feature, lead)}, "observation-shape",
            lambda: f"function of {'batches' if lead else 'observations'} received "
            f"{shapes}, each observation has the shape {feature}")
  release()
