"""C09: the full potential is exact and the average of the batch potentials."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, tree_util

from vlib import util as u
from checks.c08 import Model, same_value

PROPERTY = "C09"
RULE = (
  "Random models and datasets; the full potential and its gradient are "
  "evaluated through the data functions of host and device loaders and the "
  "stateless mapper for random batch and cache sizes, strategies, compiled and "
  "eager, repeatedly with interleaved data states and changing samples, and "
  "compared with a double precision sum over all rows. The average of the "
  "stochastic potentials over shuffled epochs of the real loader is compared "
  "with it. Non-trivial: the batch size does not divide the dataset or several "
  "caches are needed.")
ASSUMPTIONS = ["tolerance 2e-4 relative to the magnitude of the summed terms"]
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 34, "thorough": 400}
TIMEOUT = 120


def gen(rng, tier):
  i = 0
  for loader in ("host", "device", "mapper"):
    for n, mb, cache in [(7, 3, 2), (12, 4, 1), (5, 1, 3), (9, 9, 1), (11, 4, 5)]:
      i += 1
      yield dict(core=True, kind="full", loader=loader, n=n, mb=mb, cache=cache,
                 strategy=["map", "vmap", "batched"][i % 3], has_state=bool(i % 2),
                 temperature=[1.0, 0.5, 3.0][i % 3], seed=u.seed(rng))
  for loader in ("host", "device"):
    for n, mb in [(12, 4), (6, 6), (10, 2), (8, 1)]:
      i += 1
      yield dict(core=True, kind="average", loader=loader, n=n, mb=mb,
                 cache=1 + i % 3, strategy=["map", "vmap", "batched"][i % 3],
                 has_state=False, temperature=[1.0, 0.5][i % 2], seed=u.seed(rng))
  # More rows and more batches than short integers count
  for kind, loader, n, mb, cache, strategy in [
      ("full", "device", 70001, 2000, 2, "vmap"), ("full", "host", 70001, 9000, 3, "batched"),
      ("full", "mapper", 601, 2, 60, "map"), ("full", "device", 601, 2, 300, "map"),
      ("average", "device", 70000, 35000, 1, "vmap"), ("average", "host", 780, 2, 150, "map")]:
    yield dict(core=True, kind=kind, loader=loader, n=n, mb=mb, cache=cache, strategy=strategy,
               has_state=False, temperature=1.0, seed=u.seed(rng))
  for _ in range(300 if tier == "quick" else 6000):
    kind = "full" if rng.random() < 0.7 else "average"
    loader = u.choice(rng, ["host", "device", "mapper"] if kind == "full" else ["host", "device"])
    mb = u.randint(rng, 1, 12)
    if kind == "average":
      n = mb * int(rng.integers(1, 8))
    else:
      n = int(rng.integers(mb, 50))
      if rng.random() < 0.05:
        n, mb = int(rng.integers(300, 1500)), int(rng.integers(30, 200))
    yield dict(kind=kind, loader=loader, n=n, mb=mb, cache=u.randint(rng, 1, 12),
               strategy=u.choice(rng, ["map", "vmap", "batched"]),
               has_state=bool(rng.random() < 0.4) and kind == "full",
               temperature=1.0 if rng.random() < 0.4 else u.logu(rng, 0.05, 20.0),
               seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  from jax_sgmc import data, potential
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader
  rng = u.rng_of(case)
  n, mb, cache, T = case["n"], case["mb"], case["cache"], case["temperature"]
  has_state = case["has_state"]
  model = Model(rng)
  impossible = 0.0
  if case["kind"] == "full" and rng.random() < 0.15:
    impossible = u.choice(rng, [0.5 / n, 1.5 / n])
  table = model.data(rng, n, impossible)
  if impossible and rng.random() < 0.3:
    # The first observations serve as fillers
    table["impossible"][0] = True
  loader = (DeviceNumpyDataLoader if case["loader"] == "device"
            else NumpyDataLoader)(**table)

  def likelihood(*args):
    if has_state:
      st, smp, obs = args
      return (model.loglik(smp, obs, st["s"]),
              {"s": st["s"], "first": obs["tag"], "count": st["count"] + 1})
    return model.loglik(*args)

  def batched(*args):
    if has_state:
      st, smp, obs = args
      return (jax.vmap(lambda o: model.loglik(smp, o, st["s"]))(obs),
              {"s": st["s"], "first": obs["tag"][0], "count": st["count"] + 1})
    smp, obs = args
    return jax.vmap(lambda o: model.loglik(smp, o))(obs)

  kwargs = dict(has_state=has_state, temperature=T)
  if not has_state and T == 1.0 and rng.random() < 0.5:
    kwargs = {}
  if case["strategy"] == "batched":
    kwargs.update(is_batched=True)
    lik = batched
  else:
    kwargs.update(strategy=case["strategy"])
    lik = likelihood
  fn = potential.full_potential(model.prior, lik, **kwargs)
  state = ({"s": jnp.float32(model.s0), "first": jnp.int32(0), "count": jnp.int32(0)}
           if has_state else None)
  s_val = float(onp.float32(model.s0)) if has_state else 0.0

  def reference(theta):
    vals, grads = model.ref(theta, table, s_val)
    p, pg = model.ref_prior(theta)
    return (dict(value=(-vals.sum() - p) / T, grad=(-grads.sum(0) - pg) / T,
                 scale=(onp.abs(vals).sum() + abs(p)) / T + 1e-3,
                 gscale=(onp.abs(grads).sum() + onp.abs(pg).sum()) / T + 1e-3))

  samples = [tree_util.tree_map(lambda l: l * c + s, model.sample)
             for c, s in [(1.0, 0.0), (-0.5, 0.2), (2.0, -0.1)]]
  tol = 2e-4 + 2e-7 * n
  if case["kind"] == "average":
    average(case, ctx, rng, fn, lik, kwargs, loader, model, samples, reference, table, tol)
  else:
    full(case, ctx, rng, fn, loader, model, samples, reference, state, tol)
  ctx.state(case["kind"], case["loader"], case["strategy"], has_state, T == 1.0,
            n % mb == 0, -(-n // mb) > cache)
  ctx.interesting(n % mb != 0 or -(-n // mb) > cache)


def full(case, ctx, rng, fn, loader, model, samples, reference, state, tol):
  from jax_sgmc import data
  n, mb, cache = case["n"], case["mb"], case["cache"]
  has_state = case["has_state"]
  n_batches = -(-n // mb)
  jitted = bool(rng.random() < 0.6)
  wrap = jax.jit if jitted else (lambda f: f)

  if case["loader"] == "mapper":
    full_map, release = data.full_data_mapper(loader, cache, mb)
    states = [None, None]
  else:
    init, full_map, release = data.full_reference_data(loader, cache, mb)
    off = [0, 0]
    if case["loader"] == "device" and rng.random() < 0.6:
      off = [int(rng.integers(n)) for _ in range(2)]
    states = [init(offset=o) if o else init() for o in off]

  plain = wrap(lambda x, ds: fn(x, ds, full_map, state))
  if case["loader"] == "mapper":
    # The state is loaded by an io_callback, which jax differentiates only if
    # the function has been compiled before
    diff = jax.value_and_grad(jax.jit(lambda x, ds: fn(x, ds, full_map, state)), has_aux=True)
  else:
    diff = wrap(lambda x, ds: jax.value_and_grad(
      lambda y: fn(y, ds, full_map, state), has_aux=True)(x))

  for k in range(6):
    j = int(rng.integers(2))
    i = int(rng.integers(3))
    sample = samples[i]
    ref = reference(u.flat(sample))
    what = f"call {k} sample {i} (n={n}, mb={mb}, cache={cache})"
    if rng.random() < 0.5:
      val, (new_ds, new_state) = plain(sample, states[j])
    else:
      (val, (new_ds, new_state)), grad = diff(sample, states[j])
      if (u.same_structure(ctx, grad, sample, "gradient-structure")
          and onp.isfinite(ref["value"])):
        u.close(ctx, u.flat(grad), ref["grad"], "gradient", what, rtol=tol, atol=0,
                scale=ref["gscale"])
    if case["loader"] == "mapper":
      ctx.check(new_ds is None, "data-state", "the stateless mapper has a state")
    states[j] = new_ds
    ctx.check(jnp.shape(val) == (), "scalar", f"{what}: shape {jnp.shape(val)}")
    same_value(ctx, val, ref["value"], what, ref["scale"], tol)
    if has_state:
      ctx.check(int(new_state["count"]) == n_batches, "model-state",
                f"{what}: the state passed {int(new_state['count'])} of {n_batches} batches")
      u.close(ctx, new_state["s"], model.s0, "model-state", what)
    else:
      ctx.check(new_state is None, "model-state", f"{what}: {new_state}")
    ctx.count("evaluations")
  ctx.sample = {"potential": ref["value"], "n": n, "mb": mb, "cache": cache}
  release()


def average(case, ctx, rng, fn, lik, kwargs, loader, model, samples, reference, table, tol):
  """The epoch average of the stochastic potential is the full potential."""
  from jax_sgmc import data, potential
  from jax_sgmc.data import MiniBatchInformation
  n, mb, cache = case["n"], case["mb"], case["cache"]
  batch_fn = potential.minibatch_potential(model.prior, lik, **kwargs)
  grad_fn = jax.jit(jax.value_and_grad(lambda x, b: batch_fn(x, b), has_aux=True))
  init_f, full_map, release_f = data.full_reference_data(loader, cache, mb)
  sample = samples[int(rng.integers(3))]
  ref = reference(u.flat(sample))
  exact, _ = jax.jit(lambda x, ds: fn(x, ds, full_map))(sample, init_f())
  u.close(ctx, exact, ref["value"], "value", "full potential", rtol=tol, atol=0,
          scale=ref["scale"])
  epochs = []
  if case["loader"] == "host":
    init, get, release = data.random_reference_data(loader, cache, mb)
    ds = init(shuffle=True, seed=int(rng.integers(10000)))
    step = jax.jit(lambda s: get(s, information=True))
    for _ in range(2):
      batches = []
      for _ in range(n // mb):
        ds, b = step(ds)
        batches.append(b)
      epochs.append(batches)
    release()
  # Arbitrary partitions
  for _ in range(2):
    perm = rng.permutation(n).reshape(-1, mb)
    info = MiniBatchInformation(observation_count=n, batch_size=mb,
                                mask=jnp.ones(mb, bool))
    epochs.append([({k: jnp.asarray(v[p]) for k, v in table.items()}, info)
                   for p in perm])
  for e, batches in enumerate(epochs):
    vals, grads = [], []
    for b in batches:
      (v, _), g = grad_fn(sample, b)
      vals.append(float(v))
      grads.append(u.flat(g))
    u.close(ctx, onp.mean(vals), ref["value"], "unbiased-value",
            f"average over epoch {e} (n={n}, mb={mb})", rtol=tol, atol=0,
            scale=ref["scale"])
    u.close(ctx, onp.mean(grads, axis=0), ref["grad"], "unbiased-gradient",
            f"average over epoch {e} (n={n}, mb={mb})", rtol=tol, atol=0,
            scale=ref["gscale"])
    ctx.count("evaluations", len(batches))
  ctx.sample = {"potential": ref["value"], "spread": float(onp.std(vals)), "n": n, "mb": mb}
  release_f()
