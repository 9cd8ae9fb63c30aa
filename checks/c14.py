"""C14: the noise model reproduces friction minus estimated noise."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, tree_util

from vlib import util as u
from checks.c08 import Model

PROPERTY = "C14"
RULE = (
  "Random models, batches, samples, step sizes and frictions (below, around "
  "and above the estimated noise, per parameter); the returned roots of the "
  "real noise model are squared and compared with the covariance of the "
  "analytic per-observation gradients in double precision. Kind injected: the "
  "noise which the friction leapfrog injects into thousands of chains has the "
  "covariance of friction minus estimate. Non-trivial: "
  "several parameters; for the diagonal variant estimates on both sides of "
  "the friction.")
ASSUMPTIONS = [
  "at least two observations per batch",
  "the full variant is judged where friction minus estimate is positive definite",
  "the estimate is the covariance per observation without scaling to the dataset",
  "tolerance 1e-3 relative to the friction and the squared gradients"]
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 30, "thorough": 300}


def gen(rng, tier):
  regimes = ["below", "mixed", "above"]
  for i in range(24):
    full = bool(i % 2)
    yield dict(core=True, kind="full" if full else "diagonal",
               regime="below" if full else regimes[(i // 2) % 3], seed=u.seed(rng))
  # The noise which SGHMC injects
  for i in range(4):
    yield dict(core=True, kind="injected", integrator="noise-model", mass="unit",
               diagonal=bool(i % 2), seed=u.seed(rng))
  for _ in range(400 if tier == "quick" else 8000):
    if rng.random() < 0.03:
      yield dict(kind="injected", integrator="noise-model", diagonal=bool(rng.random() < 0.5),
                 mass=u.choice(rng, ["unit", "diagonal", "full"]), seed=u.seed(rng))
      continue
    full = rng.random() < 0.4
    yield dict(kind="full" if full else "diagonal",
               regime="below" if full else u.choice(rng, regimes), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  from jax_sgmc import adaption, potential
  from jax_sgmc.data import MiniBatchInformation
  rng = u.rng_of(case)
  if case["kind"] == "injected":
    if case.get("x64"):
      return  # the samplers of this harness hold single precision samples
    from checks import c16  # pylint: disable=import-outside-toplevel
    c16.noise_model(case, ctx, rng)
    return
  model = Model(rng)
  n = int(rng.integers(2, 20))
  N = n * int(rng.integers(1, 50))
  data = model.data(rng, n)
  diagonal = case["kind"] == "diagonal"
  has_state = bool(rng.random() < 0.4)
  strategy = u.choice(rng, ["map", "vmap", "batched"])
  d, sample, theta = model.d, model.sample, u.flat(model.sample)
  s_val = float(onp.float32(model.s0)) if has_state else 0.0
  state = {"s": jnp.float32(model.s0)} if has_state else None

  def likelihood(*args):
    if has_state:
      st, smp, obs = args
      if strategy == "batched":
        return jax.vmap(lambda o: model.loglik(smp, o, st["s"]))(obs), {"s": st["s"] + 1}
      return model.loglik(smp, obs, st["s"]), {"s": st["s"] + 1}
    smp, obs = args
    if strategy == "batched":
      return jax.vmap(lambda o: model.loglik(smp, o))(obs)
    return model.loglik(smp, obs)

  pot = potential.minibatch_potential(
    model.prior, likelihood, has_state=has_state,
    **({"is_batched": True} if strategy == "batched" else {"strategy": strategy}))
  _, grads = model.ref(theta, data, s_val)
  V = onp.cov(grads.T, ddof=1).reshape(d, d)
  step = u.logu(rng, 1e-4, 1.0)
  B = 0.5 * step * V
  gsq = 0.5 * step * onp.mean(grads ** 2, axis=0)
  if case["regime"] == "below":
    top = onp.linalg.eigvalsh(B).max()
    friction = top * onp.exp(rng.uniform(0.3, 3, size=d)) + 1e-3
  elif case["regime"] == "above":
    friction = onp.diag(B) * onp.exp(-rng.uniform(0.3, 3, size=d))
  else:
    friction = (onp.diag(B) + 1e-6) * onp.exp(rng.choice([-1, 1], size=d) * rng.uniform(0.2, 2, size=d))
  friction = friction.astype(onp.float32).astype(float)

  kw = {} if diagonal and rng.random() < 0.5 else {"diagonal": diagonal}
  init, update, get = adaption.fisher_information(minibatch_potential=pot, **kw)
  ftree = tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32), u.unflat(friction, sample))
  info = MiniBatchInformation(observation_count=N, batch_size=n, mask=jnp.ones(n, bool))
  batch = ({k: jnp.asarray(v) for k, v in data.items()}, info)
  grad = tree_util.tree_map(jnp.zeros_like, sample)

  def call(smp, ftree, step):
    st = init(smp)
    st = update(st, smp, grad, ftree, mini_batch=batch, step_size=step)
    return get(st, smp, grad, ftree, mini_batch=batch, step_size=step, model_state=state)
  model_ = (jax.jit(call) if rng.random() < 0.6 else call)(sample, ftree, jnp.float32(step))
  what = f"{case} d={d} n={n} step={step}"
  tol = 1e-3
  if diagonal:
    for name in ("cb_diff_sqrt", "b_sqrt"):
      t = getattr(model_, name)
      ctx.check(int(t.ndim) == 1, "ndim", f"{name} {t.ndim}")
      if not u.same_structure(ctx, t.tensor, sample, "structure"):
        return
    rest = u.flat(model_.cb_diff_sqrt.tensor)
    b = u.flat(model_.b_sqrt.tensor)
    ctx.check(onp.all(onp.isfinite(rest)) and onp.all(onp.isfinite(b)), "finite",
              lambda: f"{what}: {u.short(rest)} and {u.short(b)} for the friction "
                      f"{u.short(friction)} and the noise {u.short(onp.diag(B))}")
    ctx.check(onp.all(rest >= 0), "root", f"{what}: negative root {u.short(rest)}")
    diff = friction - onp.diag(B)
    margin = tol * (friction + gsq)
    if onp.any(onp.abs(diff) < 2 * margin):
      ctx.count("ambiguous")  # the sign is not resolved in single precision
    else:
      small = diff[diff > 0].min() if onp.any(diff > 0) else 0.0
      want = onp.where(diff > 0, diff, onp.minimum(small, friction))
      m2 = onp.where(diff > 0, margin, margin.max())
      ctx.check(onp.all(onp.abs(rest ** 2 - want) <= m2), "friction-minus-noise",
                lambda: f"{what}: {u.short(rest ** 2)} instead of {u.short(want)}")
      ctx.check(onp.all(onp.abs(b ** 2 - (friction - want)) <= m2), "noise",
                lambda: f"{what}: {u.short(b ** 2)} instead of {u.short(friction - want)}")
      ctx.check(onp.all(onp.abs(rest ** 2 + b ** 2 - friction) <= m2), "sum",
                lambda: f"{what}: {u.short(rest ** 2 + b ** 2)} instead of {u.short(friction)}")
    ctx.interesting(onp.any(diff > 0) and onp.any(diff <= 0))
    ctx.state("diagonal", min(int(onp.sum(diff <= 0)), 4), d, has_state, strategy)
  else:
    A, C = (onp.asarray(t.tensor, float) for t in (model_.cb_diff_sqrt, model_.b_sqrt))
    for m, name in ((A, "difference"), (C, "noise")):
      if not ctx.check(m.shape == (d, d) and onp.all(onp.isfinite(m)), "finite",
                       f"{what}: {name} {u.short(m)}"):
        return
    scale = friction.max() + gsq.max()
    want = onp.diag(friction) - B
    ctx.check(onp.all(onp.abs(A @ A.T - want) <= tol * scale), "friction-minus-noise",
              lambda: f"{what}: {u.short(A @ A.T)} instead of {u.short(want)}")
    ctx.check(onp.all(onp.abs(C @ C.T - B) <= tol * scale), "noise",
              lambda: f"{what}: {u.short(C @ C.T)} instead of {u.short(B)}")
    ctx.interesting(d > 1)
    ctx.state("full", d, has_state, strategy)
  ctx.count("models")
  ctx.sample = {"friction": friction[:3].tolist(), "noise": onp.diag(B)[:3].tolist()}
