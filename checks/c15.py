"""C15: a Langevin step is gradient drift plus noise of the scheduled size."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, random, tree_util

from vlib import util as u
from checks.c08 import Model

PROPERTY = "C15"
RULE = (
  "Langevin chains of random models and tree structures are driven by a "
  "recording batch source with changing step sizes. At temperature zero every "
  "step is compared with the analytic drift of the next batch; the residuals "
  "of many vectorized chains after subtraction of the drift are tested for "
  "variance, normality and independence over coordinates, steps and chains, "
  "steps of samples with half a million parameters also for the tails. "
  "Adapted chains use RMSprop and user-defined diagonal and full manifolds. "
  "Non-trivial: several batches and steps.")
ASSUMPTIONS = [
  "the manifold is evaluated after its update with the gradient of the step",
  "the variance is that of the stochastic potential, N^2/n times the variance "
  "of the likelihoods", "statistical alarms: p < 1e-9"]
BUDGET = {"quick": 32, "thorough": 360}

KINDS = ["drift", "noise", "rms", "manifold", "shape"]


def gen(rng, tier):
  for i in range(3):
    yield dict(core=True, kind="shape", seed=u.seed(rng))
  for i in range(24):
    yield dict(core=True, kind=KINDS[i % 4], seed=u.seed(rng))
  for _ in range(300 if tier == "quick" else 6000):
    yield dict(kind=u.choice(rng, KINDS), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  {"drift": drift, "noise": noise, "rms": drift, "manifold": drift, "shape": shape}[case["kind"]](case, ctx, rng)


class Setup:
  """Model, batches and potential of a case."""

  def __init__(self, rng, has_state=None, max_leaves=3):
    from jax_sgmc import potential
    self.model = Model(rng)
    self.n = int(rng.integers(1, 7))
    self.count = int(rng.integers(2, 6))
    self.N = self.n * self.count
    data = self.model.data(rng, self.N)
    self.table = {k: v.reshape((self.count, self.n) + v.shape[1:]) for k, v in data.items()}
    self.batches = u.Batches(self.table, self.N, self.n)
    self.has_state = bool(rng.random() < 0.4) if has_state is None else has_state
    self.T = 1.0 if rng.random() < 0.5 else u.logu(rng, 0.3, 3.0)
    model = self.model

    def likelihood(*args):
      if self.has_state:
        st, smp, obs = args
        return model.loglik(smp, obs, st["s"]), {"s": st["s"] + 0.25 * obs["y"][0]}
      return model.loglik(*args)
    self.potential = potential.minibatch_potential(
      model.prior, likelihood, has_state=self.has_state, temperature=self.T,
      strategy=u.choice(rng, ["map", "vmap"]))
    self.state = {"s": jnp.float32(0.3)} if self.has_state else None

  def batch(self, k):
    return {f: v[k % self.count] for f, v in self.table.items()}

  def ref(self, theta, k, s=0.0):
    """Potential, gradient, their magnitudes, variance and next model state."""
    b = self.batch(k)
    vals, grads = self.model.ref(theta, b, s)
    p, pg = self.model.ref_prior(theta)
    return dict(
      value=(-self.N * vals.mean() - p) / self.T,
      vscale=(self.N * onp.abs(vals).mean() + abs(p)) / self.T,
      grad=(-self.N * grads.mean(0) - pg) / self.T,
      gscale=onp.max(self.N * onp.abs(grads).mean(0) + onp.abs(pg)) / self.T,
      variance=self.N ** 2 / self.n * onp.var(vals),
      varscale=self.N ** 2 / self.n * onp.max(onp.abs(vals)) ** 2,
      s=s + 0.25 * float(b["y"][0, 0]))


def make_schedule(step, temp):
  from jax_sgmc import scheduler
  return scheduler.schedule(step_size=step, temperature=temp,
                            burn_in=jnp.float32(1.0), accept=jnp.asarray(True))


def user_manifold(rng, d):
  """Constant manifold with diagonal or full matrix and correction term."""
  from jax_sgmc import adaption
  full = bool(rng.random() < 0.6)
  gamma = 0.1 * rng.normal(size=d)
  if full:
    q, _ = onp.linalg.qr(rng.normal(size=(d, d)))
    lam = onp.exp(rng.uniform(-1.5, 1.5, size=d))
    g_inv, root = (q * lam) @ q.T, (q * onp.sqrt(lam)) @ q.T
  else:
    lam = onp.exp(rng.uniform(-1.5, 1.5, size=d))
    g_inv, root = onp.diag(lam), onp.diag(onp.sqrt(lam))

  @adaption.adaption(quantity=adaption.Manifold)
  def constant_manifold():
    def init(sample):
      del sample
      return jnp.int32(0)

    def update(state, *args, **kwargs):
      del args, kwargs
      return state + 1

    def get(state, sample, grad, *args, **kwargs):
      del state, sample, grad, args, kwargs
      pack = (lambda m: jnp.asarray(m, jnp.float32)) if full else (
        lambda m: jnp.asarray(onp.diag(m), jnp.float32))
      return pack(g_inv), pack(root), jnp.asarray(gamma, jnp.float32)
    return init, update, get
  return constant_manifold(), g_inv, root, gamma, full


def drift(case, ctx, rng):
  """Steps with and without noise of a single chain."""
  from jax_sgmc import adaption, integrator, solver
  s = Setup(rng)
  d = s.model.d
  steps = int(rng.integers(3, 12))
  eps = onp.asarray([u.logu(rng, 1e-4, 1e-2) / (1 + s.N) for _ in range(steps)], onp.float32)
  kind = case["kind"]
  adapt, kwargs = None, {}
  alpha, lmbd = 0.9, 1e-5
  g_inv, root, gamma = onp.eye(d), onp.eye(d), onp.zeros(d)
  label = "none"
  if kind == "rms":
    adapt = adaption.rms_prop()
    if rng.random() < 0.6:
      alpha, lmbd = float(rng.uniform(0.5, 0.99)), u.logu(rng, 1e-5, 1e-1)
      kwargs["adaption_kwargs"] = dict(alpha=alpha, lmbd=lmbd)
    label = "rms"
  elif kind == "manifold":
    adapt, g_inv, root, gamma, full = user_manifold(rng, d)
    label = f"full {full}"
  integ = integrator.langevin_diffusion(s.potential, s.batches.triple(), adapt)
  wrapped = bool(rng.random() < 0.5)
  init, update, get = solver.sgmc(integ) if wrapped else integ
  start = int(rng.integers(0, 5))
  state0 = init(s.model.sample, key=random.PRNGKey(int(case["seed"])),
                batch_kwargs={"start": start} if start else None,
                init_model_state=s.state, **kwargs)
  u.equal(ctx, get(state0)["variables"], s.model.sample, "initial-sample")

  def trajectory(temps):
    def body(st, p):
      new = update(st, make_schedule(*p))
      if wrapped:
        new, stats = new
        assert stats is None
      out = get(new)
      return new, (out, new.data_state, new.variance, new.potential)
    if rng.random() < 0.7:
      _, log = jax.jit(lambda st: lax.scan(body, st, (jnp.asarray(eps), temps)))(state0)
      return [tree_util.tree_map(lambda l: l[k], log) for k in range(steps)]
    st, log = state0, []
    for k in range(steps):
      st, out = body(st, (jnp.asarray(eps[k]), temps[k]))
      log.append(out)
    return log

  temps = jnp.asarray(rng.uniform(0.1, 2.0, size=steps), jnp.float32)
  v = {}
  for mode, tt in (("cold", jnp.zeros(steps, jnp.float32)), ("noisy", temps)):
    log = trajectory(tt)
    x = u.flat(s.model.sample)
    sv = 0.3 if s.has_state else 0.0
    vv = onp.ones(d)
    z = []
    for k, (out, data_state, variance, pot) in enumerate(log):
      what = f"{mode} step {k} ({label}, d={d}, n={s.n}, N={s.N})"
      b = start + k
      ref = s.ref(x, b, sv)
      if not u.same_structure(ctx, out["variables"], s.model.sample, "structure"):
        return
      ctx.check(int(data_state) == b + 1, "next-batch",
                f"{what}: {int(data_state)} batches drawn instead of {b + 1}")
      if kind == "rms":
        vv = alpha * vv + (1 - alpha) * ref["grad"] ** 2
        lam = 1 / (lmbd + onp.sqrt(vv))
        g_inv, root = onp.diag(lam), onp.diag(onp.sqrt(lam))
      e = float(eps[k])
      mean = x - e * g_inv @ ref["grad"] + e * gamma
      new = u.flat(out["variables"])
      gain = onp.abs(g_inv).sum(1).max()
      tol = 2e-6 * (onp.abs(x).max() + 1) + 2e-4 * e * gain * ref["gscale"]
      if mode == "cold":
        ctx.check(onp.all(onp.abs(new - mean) <= tol), "drift",
                  lambda: f"{what}: {u.short(new - x)} instead of {u.short(mean - x)}")
      else:
        sd = onp.sqrt(2 * e * float(temps[k]))
        z.append(onp.linalg.solve(root, new - mean) / sd)
        ctx.check(onp.all(onp.abs(z[-1]) < 7 + tol / sd / onp.abs(onp.diag(root)).min() * d),
                  "noise-size", lambda: f"{what}: standardized noise {u.short(z[-1])}")
      u.close(ctx, pot, ref["value"], "potential", what, rtol=2e-4, atol=1e-4,
              scale=ref["vscale"])
      u.close(ctx, out["likelihood"], -ref["value"], "potential", what, rtol=2e-4,
              atol=1e-4, scale=ref["vscale"])
      u.close(ctx, variance, ref["variance"], "variance", what, rtol=2e-4, atol=1e-5,
              scale=0.05 * ref["varscale"])
      if s.has_state:
        sv = ref["s"]
        u.close(ctx, out["model_state"]["s"], sv, "model-state", what, rtol=1e-4, atol=1e-5)
      else:
        ctx.check(out["model_state"] is None, "model-state", what)
      x = new  # the next step is judged from the actual position
      ctx.count("steps")
    v[mode] = z
  z = onp.concatenate(v["noisy"])
  # Few values per case, therefore only gross deviations
  ctx.check(u.chi2_extreme(onp.sum(z ** 2), z.size) > -9, "noise-variance",
            f"{label}: variance {onp.mean(z ** 2)} of {z.size} standardized increments")
  ctx.state(kind, label, s.has_state, s.n == 1, d, wrapped)
  ctx.interesting()
  ctx.sample = {"manifold": label, "steps": steps, "noise variance": float(onp.mean(z ** 2))}


def noise(case, ctx, rng):
  """Distribution of the increments of many chains."""
  from jax_sgmc import adaption, integrator
  s = Setup(rng, has_state=False)
  d = s.model.d
  chains, steps = 1500, 6
  eps = u.logu(rng, 1e-4, 1e-2) / (1 + s.N)
  temp = u.logu(rng, 0.05, 20.0)
  use_rms = bool(rng.random() < 0.3)
  kw = dict(adaption=adaption.rms_prop()) if use_rms else {}
  init, update, get = integrator.langevin_diffusion(s.potential, s.batches.triple(), **kw)
  sched = make_schedule(jnp.float32(eps), jnp.float32(temp))

  def chain(key):
    def body(st, _):
      new = update(st, sched)
      return new, get(new)["variables"]
    return lax.scan(body, init(s.model.sample, key=key), None, length=steps)[1]
  keys = random.split(random.PRNGKey(int(case["seed"])), chains)
  xs = jax.jit(jax.vmap(chain))(keys)
  xs = onp.concatenate([onp.asarray(l, float).reshape(chains, steps, -1)
                        for l in tree_util.tree_leaves(xs)], axis=-1)
  prev = onp.concatenate([onp.broadcast_to(u.flat(s.model.sample), (chains, 1, d)),
                          xs[:, :-1]], axis=1)
  vv = onp.ones((chains, d))
  z = onp.empty_like(xs)
  sd = onp.sqrt(2 * eps * temp)
  for k in range(steps):
    b = s.batch(k)
    y, w = b["y"].astype(float), b["w"].astype(float)
    th = prev[:, k]
    res = y[None] - (th @ s.model.A.T)[:, None]
    g = onp.einsum("cnk,kd->cd", w[None, :, None] * res, s.model.A) / s.n
    g = -(s.N * (g + s.model.c * onp.cos(th)) - s.model.prior_prec * th) / s.T
    if use_rms:
      vv = 0.9 * vv + 0.1 * g ** 2
      lam = 1 / (1e-5 + onp.sqrt(vv))
    else:
      lam = onp.ones_like(g)
    z[:, k] = (xs[:, k] - th + eps * lam * g) / (sd * onp.sqrt(lam))
    ctx.count("increments", chains * d)
  # Rounding of the position must be small compared to the noise
  rounding = onp.max(onp.abs(xs)) * 6e-8 / (sd * onp.sqrt(lam.min()))
  if rounding > 0.02:
    ctx.count("unresolved")
    return
  what = f"eps={eps} T={temp} rms={use_rms} d={d}"
  from scipy import stats
  lp = u.chi2_extreme(onp.sum(z ** 2), z.size)
  ctx.check(lp > -9, "noise-variance", f"{what}: variance {onp.mean(z ** 2)} (log10 p {lp})")
  for i in range(d):
    lp = u.chi2_extreme(onp.sum(z[:, :, i] ** 2), chains * steps)
    ctx.check(lp > -9, "noise-variance", f"{what}: coordinate {i} {onp.mean(z[:, :, i] ** 2)}")
  for k in range(steps):
    lp = u.chi2_extreme(onp.sum(z[:, k] ** 2), chains * d)
    ctx.check(lp > -9, "noise-variance", f"{what}: step {k} {onp.mean(z[:, k] ** 2)}")
  lim = 7.0
  ctx.check(abs(z.mean()) * onp.sqrt(z.size) < lim, "noise-mean", f"{what}: {z.mean()}")
  ks = stats.kstest(z.ravel()[:20000], "norm")
  ctx.check(ks.pvalue > 1e-9, "gaussian", f"{what}: KS distance {ks.statistic}")
  # Independence of coordinates, steps and chains
  flat = z.reshape(chains, steps * d)
  corr = flat.T @ flat / onp.sqrt(chains)
  onp.fill_diagonal(corr, 0)
  worst = onp.abs(corr).max()
  ctx.check(worst < 8.0, "independent-coordinates-and-steps",
            lambda: f"{what}: coordinate/step pair {onp.unravel_index(onp.abs(corr).argmax(), corr.shape)} "
                    f"correlated with z = {worst}")
  for lag in (1, 2, 7):
    c = onp.sum(flat[lag:] * flat[:-lag]) / onp.sqrt(flat[lag:].size)
    ctx.check(abs(c) < lim, "independent-chains", f"{what}: lag {lag} z = {c}")
  ctx.state("noise", d, use_rms, s.n == 1)
  ctx.interesting()
  ctx.sample = {"increments": z.size, "variance": float(onp.mean(z ** 2)),
                "largest correlation z": float(worst)}


def flat_setup(rng, total):
  """Large samples of several leaves and a potential without gradient."""
  from jax_sgmc import potential
  batches = u.Batches({"y": onp.arange(6.0).reshape((3, 2))}, 6, 2)
  pot = potential.minibatch_potential(
    lambda smp: 0.0, lambda smp, obs: 0.0 * obs["y"], strategy="vmap")
  sizes, left = [], total
  while left > 0 and len(sizes) < 5:
    sizes.append(int(max(1, min(left, rng.integers(total // 6, total // 2)))))
    left -= sizes[-1]
  sizes.append(sizes[0])  # two leaves of one size
  sample = {f"l{i}": jnp.zeros((s,) if i % 2 else (s // 100 + 1, 100)) for i, s in enumerate(sizes)}
  return pot, batches.triple(), sample


def flat_values(tree):
  return [onp.asarray(l, float).ravel() for l in tree_util.tree_leaves(tree)]


def judge_flat(ctx, groups, what):
  """groups: lists of leaves (per step or chain) of standard normals."""
  for leaves in groups:
    u.normal_shape(ctx, onp.concatenate(leaves), "shape", what)
    for l in leaves:
      u.lagged(ctx, l, "shape", what)
  every = [l for leaves in groups for l in leaves]
  for i, a in enumerate(every):
    for j in range(i):
      n = min(a.size, every[j].size)
      c = onp.sum(a[:n] * every[j][:n]) / onp.sqrt(n)
      ctx.check(abs(c) < 8, "shape-independent", lambda: f"{what}: leaves/steps {i}, {j} correlated, z = {c}")


def shape(case, ctx, rng):
  """The whole distribution of the noise, including tails."""
  from jax_sgmc import integrator
  pot, source, sample = flat_setup(rng, 400000)
  init, update, get = integrator.langevin_diffusion(pot, source)
  eps, temp = u.logu(rng, 1e-4, 10.0), u.logu(rng, 0.05, 20.0)
  state, last, groups = init(sample, key=random.PRNGKey(int(case["seed"]))), 0.0, []
  for k in range(2):
    sched = make_schedule(jnp.float32(eps * (1 + k)), jnp.float32(temp))
    state = jax.jit(update)(state, sched)
    now = flat_values(get(state)["variables"])
    sd = onp.sqrt(2 * onp.float64(onp.float32(eps * (1 + k))) * onp.float64(onp.float32(temp)))
    groups.append([(a - b) / sd for a, b in zip(now, [0.0] * len(now) if k == 0 else last)])
    last = now
  judge_flat(ctx, groups, f"step size {eps}, temperature {temp}")
  ctx.state("shape", len(sample))
  ctx.interesting()
  ctx.sample = {"parameters": sum(l.size for l in last), "largest": float(max(abs(l).max() for g in groups for l in g))}
