"""C08: the stochastic potential is the correctly scaled batch estimate."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, tree_util

from vlib import util as u

PROPERTY = "C08"
RULE = (
  "Random models (tree structure of the sample, observation shapes, prior, "
  "state), random batches with random masks, sizes and temperatures. The "
  "potential of the real code is evaluated with all strategies, batched and "
  "unbatched, eagerly and compiled, and compared with a double precision "
  "reference of value, analytic gradient, per-observation likelihoods and new "
  "state. Non-trivial: N != n or a mask or temperature != 1.")
ASSUMPTIONS = [
  "tolerance 2e-4 relative to the magnitude of the summed terms",
  "an unbatched stateful likelihood returns the state of the first observation",
  "the mask is passed by the caller; the returned likelihoods are unmasked"]
DEVICES = 6
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 32, "thorough": 360}

STRATEGIES = ["map", "vmap", "pmap", "batched"]


def gen(rng, tier):
  for mask in (False, True):
    for state in (False, True):
      for temp in (1.0, 0.37):
        for n in (1, 4):
          yield dict(core=True, kind="potential", mask=mask, has_state=state, n=n,
                     N=n * 7 + 3, temperature=temp, seed=u.seed(rng),
                     impossible=0.4 if mask and n > 1 else None)
  for _ in range(400 if tier == "quick" else 8000):
    n = u.randint(rng, 1, 12)
    yield dict(kind="potential", mask=bool(rng.random() < 0.5),
               has_state=bool(rng.random() < 0.5), n=n,
               N=n + int(rng.integers(0, 100000 if rng.random() < 0.2 else 60)),
               temperature=1.0 if rng.random() < 0.4 else u.logu(rng, 1e-2, 50.0),
               seed=u.seed(rng))


class Model:
  """log p(y|theta) = -0.5 w ||y - A theta - b||^2 + cubic, closed gradient."""

  def __init__(self, rng):
    self.spec = u.tree_spec(rng, depth=2, max_leaves=3)
    self.sample = u.normal_tree(self.spec, rng)
    self.d = len(u.flat(self.sample))
    self.k = int(rng.integers(1, 4))
    self.A = rng.normal(size=(self.k, self.d))
    self.c = 0.2 * rng.normal(size=self.d)
    self.s0 = rng.normal()
    self.prior_prec = u.logu(rng, 0.1, 10.0)
    self.use_state = rng.normal()

  def data(self, rng, n, impossible=0.0):
    """Observations, of which some are impossible for every sample."""
    return {"impossible": rng.random(n) < impossible,
            "y": rng.normal(size=(n, self.k)).astype(onp.float32),
            "w": onp.exp(rng.normal(size=n)).astype(onp.float32),
            "tag": onp.arange(1, n + 1, dtype=onp.int32)}

  # --- jax
  def vec(self, sample):
    return jnp.concatenate([jnp.ravel(l) for l in tree_util.tree_leaves(sample)])

  def loglik(self, sample, obs, s=0.0):
    theta = self.vec(sample)
    res = obs["y"] - jnp.asarray(self.A, jnp.float32) @ theta
    val = (-0.5 * obs["w"] * jnp.sum(res ** 2)
           + jnp.dot(jnp.asarray(self.c, jnp.float32), jnp.sin(theta)) + s * theta[0])
    return jnp.where(obs["impossible"], -jnp.inf, val)

  def prior(self, sample):
    return -0.5 * self.prior_prec * jnp.sum(self.vec(sample) ** 2)

  # --- numpy
  def ref(self, theta, data, s=0.0):
    """Per-observation values and gradients."""
    y, w = data["y"].astype(float), data["w"].astype(float)
    res = y - theta @ self.A.T
    vals = -0.5 * w * onp.sum(res ** 2, axis=1) + self.c @ onp.sin(theta) + s * theta[0]
    grads = (w[:, None] * res) @ self.A + self.c * onp.cos(theta)
    grads[:, 0] += s
    vals[data["impossible"]] = -onp.inf
    grads[data["impossible"]] = 0.0
    return vals, grads

  def ref_prior(self, theta):
    return -0.5 * self.prior_prec * theta @ theta, -self.prior_prec * theta


def same_value(ctx, got, want, what, scale, rtol=2e-4):
  """Potentials of impossible data are infinite."""
  if onp.isfinite(want):
    u.close(ctx, got, want, "value", what, rtol=rtol, atol=0, scale=scale)
  else:
    ctx.check(float(got) == want, "value", f"{what}: {got} instead of {want}")


def run(case, ctx):
  warnings.simplefilter("ignore")
  from jax_sgmc import potential
  from jax_sgmc.data import MiniBatchInformation
  rng = u.rng_of(case)
  n, N, T = case["n"], case["N"], case["temperature"]
  model = Model(rng)
  impossible = case.get("impossible")
  if impossible is None:
    impossible = u.choice(rng, [0.0, 0.0, 0.0, 0.15, 0.5])
  data = model.data(rng, n, impossible)
  has_state = case["has_state"]
  mask = None
  if case["mask"]:
    mask = rng.random(n) < 0.6
    if rng.random() < 0.6:
      mask &= ~data["impossible"]
    if rng.random() < 0.2:
      mask[:] = rng.random() < 0.5
  sample = model.sample
  theta = u.flat(sample)
  s_val = float(onp.float32(model.s0)) if has_state else 0.0
  state = {"s": jnp.float32(model.s0), "steps": jnp.arange(3)} if has_state else None
  # Likelihoods may keep singleton dimensions
  lk_shape = u.choice(rng, [(), (1,), (1, 1)])

  def likelihood(*args):
    if has_state:
      st, smp, obs = args
      val = jnp.reshape(model.loglik(smp, obs, st["s"]), lk_shape)
      return val, {"s": st["s"] + obs["tag"].astype(jnp.float32), "steps": st["steps"] + 1}
    smp, obs = args
    return jnp.reshape(model.loglik(smp, obs), lk_shape)

  def batched(*args):
    if has_state:
      st, smp, obs = args
      vals = jax.vmap(lambda o: model.loglik(smp, o, st["s"]))(obs)
      return vals, {"s": st["s"] + obs["tag"][0].astype(jnp.float32),
                    "steps": st["steps"] + 1}
    smp, obs = args
    return jax.vmap(lambda o: model.loglik(smp, o))(obs)

  # --- Reference
  vals, grads = model.ref(theta, data, s_val)
  pv, pg = model.ref_prior(theta)
  weight = onp.full(n, N / n) if mask is None else N / n * mask
  # Observations which are masked do not contribute, even if impossible
  all_vals = vals
  vals = onp.where(weight > 0, vals, 0.0)
  want = (-onp.sum(weight * vals) - pv) / T
  want_grad = (-weight @ grads - pg) / T
  scale = (onp.sum(onp.abs(weight * vals)) + abs(pv)) / T + 1e-3
  gscale = (onp.sum(onp.abs(weight[:, None] * grads)) + onp.sum(onp.abs(pg))) / T + 1e-3
  want_state = ({"s": onp.float32(model.s0) + onp.float32(1), "steps": onp.arange(3) + 1}
                if has_state else None)

  info_mask = jnp.asarray(mask if mask is not None else onp.ones(n, bool))
  info = MiniBatchInformation(observation_count=N, batch_size=n, mask=info_mask)
  batch = {k: jnp.asarray(v) for k, v in data.items()}
  possible = bool(onp.isfinite(want))
  if not possible:
    ctx.count("impossible-batches")
  elif onp.any(data["impossible"]):
    ctx.count("impossible-masked")
  jmask = None if mask is None else jnp.asarray(mask)
  if jmask is not None and rng.random() < 0.5:
    jmask = jmask.astype(jnp.float32)

  strategies = STRATEGIES if n <= 6 else ["map", "vmap", "batched"]
  for strategy in strategies:
    kwargs = {} if T == 1.0 and rng.random() < 0.5 else {"temperature": T}
    if has_state or rng.random() < 0.3:
      kwargs["has_state"] = has_state
    if strategy == "batched":
      fn = potential.minibatch_potential(
        model.prior, batched, is_batched=True,
        strategy=u.choice(rng, ["map", "vmap"]), **kwargs)
    elif strategy == "map" and rng.random() < 0.5:
      fn = potential.minibatch_potential(model.prior, likelihood, **kwargs)
    else:
      fn = potential.minibatch_potential(model.prior, likelihood, strategy=strategy,
                                         **kwargs)
    jitted = strategy != "pmap" and rng.random() < 0.6
    wrap = jax.jit if jitted else (lambda f: f)
    what = f"{strategy} (N={N}, n={n}, mask={mask}, T={T})"

    val, new_state = wrap(lambda x: fn(x, (batch, info), state, jmask))(sample)
    ctx.check(jnp.shape(val) == (), "scalar", f"{what}: shape {jnp.shape(val)}")
    same_value(ctx, val, want, what, scale)
    if has_state:
      if u.same_structure(ctx, new_state, state, "new-state"):
        u.close(ctx, new_state, want_state, "new-state", what, rtol=1e-5)
    else:
      ctx.check(new_state is None, "new-state", f"{what}: {new_state}")

    (val2, (lks, new_state)), grad = wrap(jax.value_and_grad(
      lambda x: fn(x, (batch, info), state, jmask, likelihoods=True), has_aux=True))(sample)
    same_value(ctx, val2, want, f"{what} with likelihoods", scale)
    bounded = onp.where(onp.isfinite(all_vals), all_vals, 0.0)
    got = onp.asarray(lks)
    if ctx.check(onp.shape(got) == (n,), "likelihoods", f"{what}: {onp.shape(got)}"):
      u.equal(ctx, onp.isneginf(got), onp.isneginf(all_vals), "likelihoods", what)
      u.close(ctx, onp.where(onp.isneginf(got), 0.0, got), bounded, "likelihoods", what,
              rtol=2e-4, atol=2e-4 * (1 + onp.max(onp.abs(bounded))))
    if has_state:
      u.close(ctx, new_state, want_state, "new-state", what, rtol=1e-5)
    if u.same_structure(ctx, grad, sample, "gradient-structure") and possible:
      u.close(ctx, u.flat(grad), want_grad, "gradient", what, rtol=2e-4, atol=0,
              scale=gscale)
    ctx.count("evaluations", 2)

    # The reference data is never differentiated
    if strategy in ("map", "vmap", "batched") and possible and rng.random() < 0.3:
      g = jax.grad(lambda y: fn(sample, (dict(batch, y=y), info), state, jmask)[0])(batch["y"])
      ctx.check(onp.all(onp.asarray(g) == 0), "data-gradient", what)

  # A batch drawn inside of a vectorized evaluation over samples
  if rng.random() < 0.5:
    shift = jnp.asarray([0.0, 0.3, -0.5], jnp.float32)
    fn = potential.minibatch_potential(
      model.prior, likelihood, strategy=u.choice(rng, ["map", "vmap"]),
      has_state=has_state, temperature=T)
    many = jax.vmap(lambda c: fn(tree_util.tree_map(lambda l: l + c, sample),
                                 (batch, info), state, jmask)[0])(shift)
    for c, v in zip(onp.asarray(shift), onp.asarray(many)):
      th = theta + float(c)
      vv, _ = model.ref(th, data, s_val)
      p, _ = model.ref_prior(th)
      vv = onp.where(weight > 0, vv, 0.0)
      w = (-onp.sum(weight * vv) - p) / T
      same_value(ctx, v, w, "vectorized over samples",
                 (onp.sum(onp.abs(weight * vv)) + abs(p)) / T + 1e-3)
      ctx.count("evaluations")
  ctx.state(mask is None, has_state, n == 1, N == n, T == 1.0, len(lk_shape))
  ctx.interesting(N != n or mask is not None or T != 1.0)
  ctx.sample = {"potential": float(want), "N": N, "n": n}
