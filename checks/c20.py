"""C20: the ready-made samplers apply their options and find the posterior."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import random, tree_util

from vlib import util as u

PROPERTY = "C20"
RULE = (
  "Kind options: the ready-made samplers run with random options (step sizes, "
  "adaption, burn-in, thinning, mass, friction, integration steps, temperature, "
  "RMSprop constants, noise model, batch and cache size, several chains) on "
  "potentials with constant gradient and hundreds of variables. A Kalman filter "
  "with the documented recursion of every option predicts each returned sample "
  "from the previous ones; its innovations must be independent standard normal "
  "variates. A recording data loader shows the batches used. Kind posterior: "
  "long runs on linear Gaussian models are compared with the exact posterior. "
  "Non-trivial: several samples.")
ASSUMPTIONS = [
  "the iteration of a sample is known from a counter in the model state",
  "posterior: systematic errors of the step size are bounded by 0.15 standard "
  "deviations and 25 % of the variance (corrected samplers: 0.06 and 10 %)",
  "statistical alarms: p < 1e-9"]
BUDGET = {"quick": 36, "thorough": 420}
TIMEOUT = 200

PLAIN = ["sgld", "rms", "re_sgld", "sghmc", "obabo"]
CORRECTED = ["amagold", "sggmc"]
ALL = PLAIN + CORRECTED


def gen(rng, tier):
  for name in ALL:
    for _ in range(2):
      yield dict(core=True, kind="options", sampler=name, seed=u.seed(rng))
  for diagonal in (True, False, True, False):
    yield dict(core=True, kind="noise", sampler="sghmc", diagonal=diagonal, seed=u.seed(rng))
  for name in CORRECTED:
    yield dict(core=True, kind="options", sampler=name, adaptive=True, seed=u.seed(rng))
  for name in ALL:
    yield dict(core=True, kind="posterior", sampler=name, seed=u.seed(rng))
  for _ in range(120 if tier == "quick" else 3000):
    r = rng.random()
    if r < 0.6:
      name = u.choice(rng, ALL)
      yield dict(kind="options", sampler=name, seed=u.seed(rng),
                 adaptive=bool(name in CORRECTED and rng.random() < 0.4))
    elif r < 0.7:
      yield dict(kind="noise", sampler="sghmc", diagonal=bool(rng.random() < 0.5), seed=u.seed(rng))
    else:
      yield dict(kind="posterior", sampler=u.choice(rng, ALL), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  {"options": options, "noise": noise, "posterior": posterior}[case["kind"]](case, ctx, rng)


def recording_loader(**table):
  """Data loader which keeps the requests and the batches of every chain."""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader

  class Recording(NumpyDataLoader):
    def __init__(self, **kw):
      super().__init__(**kw)
      self.random, self.ordered, self.log = {}, {}, {}

    def register_random_pipeline(self, cache_size=1, mb_size=None, **kwargs):
      chain = super().register_random_pipeline(cache_size, mb_size, **kwargs)
      self.random[chain] = (int(cache_size), int(mb_size))
      self.log[chain] = []
      return chain

    def register_ordered_pipeline(self, cache_size=1, mb_size=None, **kwargs):
      chain = super().register_ordered_pipeline(cache_size, mb_size, **kwargs)
      self.ordered[chain] = (int(cache_size), int(mb_size))
      self.log[chain] = []
      return chain

    def get_batches(self, chain_id):
      out = super().get_batches(chain_id)
      batch = out[0] if isinstance(out, tuple) else out
      self.log[int(chain_id)].append({k: onp.array(v) for k, v in batch.items()})
      return out
  return Recording(**table)


def sample_tree(rng, d, value):
  """Random tree with the variables ``value`` in the order of its leaves."""
  cut = sorted(int(v) for v in rng.choice(onp.arange(1, d), size=2, replace=False))
  a, b, c = onp.split(onp.zeros(d), cut)
  kind = u.choice(rng, ["dict", "nested", "list", "leaf"])
  like = {"dict": {"b": a, "a": b, "c": c}, "nested": {"w": {"y": a, "x": (b,)}, "b": c},
          "list": [a, (b, c)], "leaf": onp.zeros(d)}[kind]
  return tree_util.tree_map(lambda l: jnp.asarray(l, jnp.float32), u.unflat(onp.asarray(value), like))


def vector(tree):
  return jnp.concatenate([jnp.ravel(l) for l in tree_util.tree_leaves(tree)])


def sizes(first, last, iterations):
  """Step sizes of the polynomial schedule with decay 0.33."""
  if iterations == 1 or first == last:
    return onp.full(iterations, first)
  g = 0.33
  lo, hi = first ** (-1 / g), last ** (-1 / g)
  return (lo + (hi - lo) / (iterations - 1) * onp.arange(iterations)) ** -g


def adapted_sizes(first, t0, kappa, gamma, target, burn, iterations):
  """Dual averaging with certain acceptance."""
  x_bar, h, mu = onp.log(first), 0.0, onp.log(10 * first)
  out = []
  for it in range(iterations):
    out.append(onp.exp(x_bar))
    m = it + 1
    h = (1 - 1 / (m + t0)) * h + (target - 1.0) / (m + t0)
    x = mu - onp.sqrt(m) / gamma * h
    if it < burn:
      x_bar = (1 - m ** -kappa) * x_bar + m ** -kappa * x
  return onp.asarray(out)


class Filter:
  """Kalman filter of (x, p) for independent variables, x observed exactly."""

  def __init__(self, x0):
    d = len(x0)
    self.m = onp.zeros((2, d))
    self.m[0] = x0
    self.C = onp.zeros((2, 2, d))

  def apply(self, F, shift=(0.0, 0.0), noise=(0.0, 0.0)):
    """F: 2 x 2 of scalars or vectors."""
    F = [[onp.broadcast_to(F[i][j], self.m[0].shape) for j in range(2)] for i in range(2)]
    F = onp.asarray(F)
    self.m = onp.einsum("ijd,jd->id", F, self.m)
    self.C = onp.einsum("ijd,jkd,lkd->ild", F, self.C, F)
    for i in range(2):
      self.m[i] += shift[i]
      self.C[i, i] += noise[i]

  def set_momentum(self, var):
    self.m[1] = 0
    self.C[0, 1] = self.C[1, 0] = 0
    self.C[1, 1] = var

  def observe(self, x):
    sd = onp.sqrt(self.C[0, 0])
    z = (x - self.m[0]) / sd
    gain = self.C[1, 0] / self.C[0, 0]
    self.m[1] += gain * (x - self.m[0])
    self.C[1, 1] = onp.maximum(self.C[1, 1] - gain * self.C[0, 1], 0)
    self.C[0, 0] = self.C[0, 1] = self.C[1, 0] = 0
    self.m[0] = x
    return z, sd


def judge(ctx, z, what, key="innovations"):
  """z: chains x samples x variables of independent normal variates."""
  from scipy import stats
  flat = z.reshape(-1)
  lp = u.chi2_extreme(onp.sum(flat ** 2), flat.size)
  ctx.check(lp > -9, key, f"{what}: variance of the innovations {onp.mean(flat ** 2)} (log10 p {lp})")
  c, t, d = z.shape
  for j in range(t):
    lp = u.chi2_extreme(onp.sum(z[:, j] ** 2), c * d)
    ctx.check(lp > -9.5, key, f"{what}: sample {j} has innovations of variance {onp.mean(z[:, j] ** 2)}")
  for j in range(c):
    lp = u.chi2_extreme(onp.sum(z[j] ** 2), t * d)
    ctx.check(lp > -9, key, f"{what}: chain {j} has innovations of variance {onp.mean(z[j] ** 2)}")
  ctx.check(abs(flat.mean()) * onp.sqrt(flat.size) < 7, f"{key}-mean", f"{what}: {flat.mean()}")
  ks = stats.kstest(flat[:20000], "norm")
  ctx.check(ks.pvalue > 1e-9, f"{key}-gaussian", f"{what}: KS distance {ks.statistic}")
  rows = z.reshape(c * t, d)
  corr = rows @ rows.T / onp.sqrt(d)
  onp.fill_diagonal(corr, 0)
  # Heavier tails than normal for few variables
  if d > 200 and len(rows) > 1:
    i, j = onp.unravel_index(onp.abs(corr).argmax(), corr.shape)
    ctx.check(onp.abs(corr).max() < 8, "independent-chains",
              f"{what}: chain/sample {divmod(int(i), t)} and {divmod(int(j), t)} correlated, "
              f"z = {onp.abs(corr).max()}")
  ctx.count("normals", flat.size)


def likelihoods(zero=True):
  """Counts the evaluations in the model state."""
  def stochastic(state, sample, obs):
    del obs
    return 0.0 * jnp.sum(vector(sample)[:1]), {"n": state["n"] + 1}

  def full(state, sample, obs):
    del obs
    return 0.0 * jnp.sum(vector(sample)[:1]), state
  return stochastic, full


def options(case, ctx, rng):
  from jax_sgmc import alias, potential
  name, d = case["sampler"], 600
  adaptive = case.get("adaptive", False)
  chains = int(rng.integers(1, 4))
  iterations = int(rng.integers(2, 40))
  burn = int(rng.integers(0, iterations)) if rng.random() < 0.7 else 0
  total = iterations - burn
  accepted = total if rng.random() < 0.4 else int(rng.integers(1, total + 1))
  N = int(rng.integers(2, 60))
  batch = int(rng.integers(1, N + 1))
  cache = int(u.choice(rng, [1, 2, 7, 64]))
  loader = recording_loader(tag=onp.arange(N, dtype=onp.int32))
  first = float(onp.float32(u.logu(rng, 1e-2, 0.3)))
  last = first if rng.random() < 0.3 else float(onp.float32(first * u.logu(rng, 0.05, 0.9)))
  force = name in ("sgld", "rms", "sghmc", "obabo") and rng.random() < 0.8
  x0s = [(rng.normal(size=d) * 3).astype(onp.float32) for _ in range(2 * chains)]
  shape_rng = int(rng.integers(1 << 30))
  tree = lambda v: sample_tree(onp.random.default_rng(shape_rng), d, v)
  g = (rng.normal(size=d) * force).astype(onp.float32)
  gj = jnp.asarray(g)

  def prior(sample):  # U = g x
    return -jnp.dot(gj, vector(sample))
  stochastic_ll, full_ll = likelihoods()
  pot = potential.minibatch_potential(prior, stochastic_ll, has_state=True,
                                      strategy=u.choice(rng, ["map", "vmap"]))
  full = potential.full_potential(prior, full_ll, has_state=True)

  kw = dict(cache_size=cache, batch_size=batch, first_step_size=first, burn_in=burn,
            save_to_numpy=bool(rng.random() < 0.5), progress_bar=False)
  if not adaptive:
    kw["last_step_size"] = last
  if name in PLAIN or (not adaptive and rng.random() < 0.6):
    kw["accepted_samples"] = accepted
  else:
    accepted = total
  mass = onp.ones(d)
  friction = 0.0
  steps = 1
  if name in ("sghmc", "obabo", "amagold", "sggmc"):
    steps = int(rng.integers(1, 5))
    kw["integration_steps"] = steps
    if rng.random() < 0.7:
      mass = onp.exp(rng.uniform(-1, 1, size=d)).astype(onp.float32).astype(float)
      kw["mass"] = tree(mass)
    friction = float(onp.float32(u.logu(rng, 0.1, 0.8) / first))
    if name == "sghmc":
      friction *= mass.min()
      if rng.random() < 0.5:
        friction = (friction * rng.uniform(0.5, 1, size=d)).astype(onp.float32)
        kw["friction"] = tree(friction)
        friction = friction.astype(float)
      else:
        kw["friction"] = friction
    else:
      kw["friction_coefficient" if name == "sggmc" else "friction"] = friction
  alpha, lmbd, temperature = 0.9, 1e-5, 1000.0
  if name == "rms":
    kw["rms_prop"] = True
    if rng.random() < 0.8:
      alpha, lmbd = float(rng.uniform(0.3, 0.99)), u.logu(rng, 1e-3, 3.0)
      kw.update(alpha=alpha, lmbd=lmbd)
  if name == "re_sgld":
    if rng.random() < 0.8:
      temperature = float(onp.float32(u.logu(rng, 2, 500)))
      kw["temperature"] = temperature
  eps = sizes(first, last, iterations)
  if adaptive:
    ad = dict(stabilization_constant=int(rng.integers(1, 40)),
              decay_constant=float(rng.uniform(0.55, 0.95)),
              speed_constant=float(rng.uniform(2, 10)),
              target_acceptance_rate=float(rng.uniform(0.2, 0.9)))
    kw.update(ad, adaptive_step_size=True)
    eps = adapted_sizes(first, ad["stabilization_constant"], ad["decay_constant"],
                        ad["speed_constant"], ad["target_acceptance_rate"], burn, iterations)
    if name == "amagold" and eps.max() * friction > 50 or not 1e-6 < eps.max() < 1e3:
      ctx.count("skipped_step_size")
      return
  make = {"rms": alias.sgld}.get(name) or getattr(alias, name)
  args = (pot, full, loader) if name in CORRECTED else (pot, loader)
  sampler = make(*args, **kw)
  if name == "re_sgld":
    starts = [(tree(x0s[2 * c]), tree(x0s[2 * c + 1])) for c in range(chains)]
  else:
    starts = [tree(x0s[c]) for c in range(chains)]
  results = sampler(*starts, init_model_state={"n": jnp.int32(0)}, iterations=iterations)
  what = (f"{name} chains={chains} iterations={iterations} burn in={burn} accepted={accepted} "
          f"steps={steps} eps={first}..{last} adaptive={adaptive} batch={batch} cache={cache}")

  # Data
  ctx.check(len(results) == chains, "chain-count", what)
  want = chains * (2 if name == "re_sgld" else 1)
  ctx.check(len(loader.random) == want, "data-chains",
            f"{what}: {len(loader.random)} random data chains")
  ctx.check(all(v == (cache, batch) for v in loader.random.values()), "batch-size",
            lambda: f"{what}: random data registered with (cache, batch) {loader.random}")
  for cid in loader.random:
    for b in loader.log[cid]:
      ctx.check(b["tag"].shape == (cache, batch), "batch-size",
                f"{what}: batches of shape {b['tag'].shape}")
  if name in CORRECTED:
    ctx.check(loader.ordered and all(v[1] == batch for v in loader.ordered.values()), "full-batch-size",
              lambda: f"{what}: full data registered with {loader.ordered}")

  evals = {"obabo": 2 * steps, "sggmc": 2 * steps, "amagold": steps, "sghmc": steps}.get(name, 1)
  zs = []
  for c, res in enumerate(results):
    samples = res["samples"]
    w = f"{what} chain {c}"
    if not ctx.check(int(res["sample_count"]) == accepted, "accepted-samples",
                     f"{w}: {res['sample_count']} samples"):
      return
    if not u.same_structure(ctx, samples["variables"], starts[0] if name != "re_sgld" else starts[0][0],
                            "structure"):
      return
    ls = tree_util.tree_leaves(samples["variables"])
    like = tree_util.tree_leaves(starts[0] if name != "re_sgld" else starts[0][0])
    if not ctx.check(all(l.shape == (accepted,) + k.shape for l, k in zip(ls, like)), "structure",
                     f"{w}: {[l.shape for l in ls]}"):
      return
    xs = onp.concatenate([onp.asarray(l, float).reshape(accepted, -1) for l in ls], axis=1)
    n = onp.asarray(samples["model_state"]["n"])
    it, rest = onp.divmod(n, evals)
    it = it - 1  # iteration after which the sample was taken
    if not ctx.check(onp.all(rest == 0), "iteration", f"{w}: {n} evaluations, {evals} each iteration"):
      return
    ctx.check(onp.all(onp.diff(it) > 0) and it[-1] < iterations, "order", f"{w}: iterations {it}")
    ctx.check(it[0] >= burn, "burn-in", f"{w}: sample of iteration {it[0]}")
    if accepted == total:
      u.equal(ctx, it, onp.arange(burn, iterations), "all-samples", w)
    if name in CORRECTED:
      u.close(ctx, samples["step_size"], eps[it], "step-size", w, rtol=1e-3 if adaptive else 1e-4, atol=0)
      u.close(ctx, samples["acceptance_ratio"], onp.ones(accepted), "acceptance", w)
    predict = replica if name == "re_sgld" else kalman
    z = predict(x0s, c, xs, it, eps, name=name, mass=mass, friction=friction, steps=steps,
                g=g.astype(float), alpha=alpha, lmbd=lmbd, temperature=temperature)
    if z is None:
      ctx.count("unresolved")
      return
    zs.append(z)
  judge(ctx, onp.asarray(zs), what)
  ctx.count("samples", chains * accepted)
  ctx.state(name, adaptive, chains, steps, burn > 0, accepted == total, "mass" in kw)
  ctx.interesting(accepted > 1)
  ctx.sample = {"sampler": name, "variance": float(onp.mean(onp.asarray(zs) ** 2))}


def replica(x0s, c, xs, it, eps, temperature, **_):
  """Equal potentials: the chains exchange in every iteration."""
  hot = lambda k: 2 * eps[k] * temperature
  cold = lambda k: 2 * eps[k]
  last = {0: (x0s[2 * c + 1], -1), 1: (x0s[2 * c], -1)}  # chain cold after even / odd
  out = []
  for k, x in zip(it, xs):
    prev, since = last[k % 2]
    var = sum(hot(j) if j % 2 == k % 2 else cold(j) for j in range(since + 1, k + 1))
    out.append((x - prev) / onp.sqrt(var))
    last[k % 2] = (x, k)
  return onp.asarray(out)


def kalman(x0s, c, xs, it, eps, name, mass, friction, steps, g, alpha, lmbd, **_):
  f = Filter(x0s[c].astype(float))
  vv = onp.ones(len(g))
  f.set_momentum(mass if name == "amagold" else 0.0)
  kept = dict(zip(it.tolist(), xs))
  out = []
  for k in range(it[-1] + 1):
    e = eps[k]
    if name in ("sgld", "rms"):
      lam = 1.0
      if name == "rms":
        vv = alpha * vv + (1 - alpha) * g ** 2
        lam = 1 / (lmbd + onp.sqrt(vv))
      f.apply([[1, 0], [0, 0]], (-e * lam * g, 0), (2 * e * lam, 0))
    elif name in ("obabo", "sggmc"):
      a = onp.exp(-0.5 * friction * e)
      for _ in range(steps):
        f.apply([[1, 0], [0, a]], noise=(0, (1 - a ** 2) * mass))
        f.apply([[1, 0], [0, 1]], (0, -0.5 * e * g))
        f.apply([[1, e / mass], [0, 1]])
        f.apply([[1, 0], [0, 1]], (0, -0.5 * e * g))
        f.apply([[1, 0], [0, a]], noise=(0, (1 - a ** 2) * mass))
    elif name == "amagold":
      ef = e * friction
      f.apply([[1, 0.5 * e / mass], [0, 1]])
      for j in range(steps):
        if j:
          f.apply([[1, e / mass], [0, 1]])
        f.apply([[1, 0], [0, (1 - ef) / (1 + ef)]], noise=(0, 4 * ef / (1 + ef) ** 2 * mass))
      f.apply([[1, 0.5 * e / mass], [0, 1]])
    else:
      f.set_momentum(mass)
      for _ in range(steps):
        f.apply([[1, e / mass], [0, 1]])
        f.apply([[1, 0], [0, 1 - e * friction / mass]], (0, -e * g), (0, 2 * e * friction))
    if k in kept:
      z, sd = f.observe(kept[k])
      if onp.any(sd < 30 * 6e-8 * (1 + onp.abs(kept[k]).max()) * (k + 1)):
        return None  # rounding of the positions
      out.append(z)
  return onp.asarray(out)


# --- Noise model of SGHMC ------------------------------------------------------

def log_normal(r, cov):
  sign, det = onp.linalg.slogdet(cov)
  return -onp.inf if sign <= 0 else -0.5 * (r @ onp.linalg.solve(cov, r) + det)


def noise(case, ctx, rng):
  """Estimated gradient noise replaces a part of the injected noise."""
  from jax_sgmc import alias, potential
  d = int(rng.integers(3, 7))
  N = int(rng.integers(20, 60))
  batch = int(rng.integers(d + 6, N + 1)) if d + 6 < N else N
  mix = rng.normal(size=(d, d)) / onp.sqrt(d) + 0.25 * onp.eye(d)
  y = (rng.normal(size=(N, d)) @ mix.T + 0.2 * rng.normal(size=d)).astype(onp.float32)
  loader = recording_loader(y=y)
  iterations, chains, steps = 700, 2, int(rng.integers(3, 6))
  eps = u.logu(rng, 0.02, 0.1)
  V_all = onp.cov(y.T)
  top = onp.linalg.eigvalsh(V_all).max()
  # friction well above the estimate in every direction
  friction = float(onp.float32(0.5 * eps * top * 2.0))
  # make the noise matter: scale data such that eps * friction ~ 0.6
  scale = onp.sqrt(0.6 / (eps * friction))
  y = (y * scale).astype(onp.float32)
  loader = recording_loader(y=y)
  friction = float(onp.float32(friction * scale ** 2))
  pot = potential.minibatch_potential(
    lambda s: 0.0 * jnp.sum(vector(s)),
    lambda s, obs: -jnp.dot(obs["y"], vector(s)), strategy="vmap")
  shape = int(rng.integers(1 << 30))
  tree = lambda v: sample_tree(onp.random.default_rng(shape), d, v)
  x0 = rng.normal(size=(chains, d)).astype(onp.float32)
  cache = int(u.choice(rng, [1, 16]))
  sampler = alias.sghmc(
    pot, loader, cache_size=cache, batch_size=batch, integration_steps=steps,
    friction=friction, first_step_size=eps, last_step_size=eps, burn_in=0,
    accepted_samples=iterations, adapt_noise_model=True, diagonal_noise=case["diagonal"],
    progress_bar=False)
  results = sampler(*[tree(v) for v in x0], iterations=iterations)
  what = f"sghmc with noise model diagonal={case['diagonal']} d={d} batch={batch}/{N} steps={steps}"
  if not ctx.check(len(results) == chains and len(loader.random) == chains, "chain-count", what):
    return
  e32 = float(onp.float32(eps))
  I, O = onp.eye(d), onp.zeros((d, d))
  zs, evidence = [], []
  for c, (cid, res) in enumerate(zip(sorted(loader.random), results)):
    xs = onp.concatenate([onp.asarray(l, float).reshape(iterations, -1)
                          for l in tree_util.tree_leaves(res["samples"]["variables"])], axis=1)
    data = onp.concatenate([b["y"].reshape(-1, batch, d) for b in loader.log[cid]]).astype(float)
    m = onp.concatenate([x0[c].astype(float), onp.zeros(d)])
    z, ratio = [], []
    for k in range(iterations):
      C = onp.block([[O, O], [O, I]])
      other = C  # covariance if the other kind of noise model were used
      m[d:] = 0
      for j in range(steps):
        F = onp.block([[I, e32 * I], [O, I]])
        m, C, other = F @ m, F @ C @ F.T, F @ other @ F.T
        b = data[k * steps + j]
        V = W = onp.cov(b.T)
        if case["diagonal"]:
          V = onp.diag(onp.diag(V))
        else:
          W = onp.diag(onp.diag(V))
        B = friction * I - 0.5 * e32 * V
        if onp.linalg.eigvalsh(B).min() < 0.02 * friction:
          return ctx.count("unresolved")
        F = onp.block([[I, O], [O, (1 - e32 * friction) * I]])
        m = F @ m
        m[d:] -= e32 * N * b.mean(0)
        C = F @ C @ F.T
        C[d:, d:] += 2 * e32 * B
        other = F @ other @ F.T
        other[d:, d:] += 2 * e32 * (friction * I - 0.5 * e32 * W)
      ratio.append(log_normal(xs[k] - m[:d], other[:d, :d]) - log_normal(xs[k] - m[:d], C[:d, :d]))
      z.append(onp.linalg.solve(onp.linalg.cholesky(C[:d, :d]), xs[k] - m[:d]))
      m[:d] = xs[k]
      big = onp.abs(xs[k]).max() * 6e-8 * 10 / onp.sqrt(onp.linalg.eigvalsh(C[:d, :d]).min())
      if big > 0.05:
        break
    zs.append(onp.asarray(z))
    evidence.append(sum(ratio[:-1]))
  count = min(map(len, zs))
  if count < 20:
    return ctx.count("unresolved")
  z = onp.asarray([v[:count] for v in zs])
  judge(ctx, z, what, "noise-model")
  # A true model is 10^9 times less likely than another one with p < 1e-9
  ctx.check(sum(evidence) < onp.log(1e9), "noise-model-kind",
            f"{what}: the other kind is exp({sum(evidence)}) times as likely")
  flat = z.reshape(-1, d)
  c = flat.T @ flat / onp.sqrt(len(flat))
  onp.fill_diagonal(c, 0)
  ctx.check(onp.abs(c).max() < 8, "noise-model", f"{what}: correlation {onp.abs(c).max()}")
  ctx.state("noise", case["diagonal"], d, steps)
  ctx.interesting()
  ctx.sample = {"variance": float(onp.mean(z ** 2)), "normals": z.size}


# --- Posterior -----------------------------------------------------------------

def posterior(case, ctx, rng):
  from jax_sgmc import alias, potential
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  name = case["sampler"]
  d, k = 2, 2
  N = int(rng.integers(12, 40))
  A = onp.linalg.qr(rng.normal(size=(k, d)))[0] * onp.exp(rng.uniform(-0.3, 0.3, size=d))
  truth = rng.normal(size=d)
  y = (A @ truth + rng.normal(size=(N, k))).astype(onp.float32)
  prec = float(rng.uniform(0.3, 2.0))
  H = N * A.T @ A + prec * onp.eye(d)
  mean = onp.linalg.solve(H, A.T @ y.sum(0))
  cov = onp.linalg.inv(H)
  lam = onp.linalg.eigvalsh(H)
  batch = int(rng.integers(max(3, N // 3), N + 1))
  loader = NumpyDataLoader(y=y)
  Aj = jnp.asarray(A, jnp.float32)
  split = bool(rng.random() < 0.5)
  tree = (lambda v: {"b": jnp.float32(v[0]), "a": jnp.asarray(v[1:], jnp.float32)}) if split else (
    lambda v: jnp.asarray(v, jnp.float32))
  vec = (lambda s: jnp.stack([s["b"], s["a"][0]])) if split else (lambda s: s)

  def ll(sample, obs):
    return -0.5 * jnp.sum((obs["y"] - Aj @ vec(sample)) ** 2)

  def prior(sample):
    return -0.5 * prec * jnp.sum(vec(sample) ** 2)
  pot = potential.minibatch_potential(prior, ll, strategy="vmap")
  full = potential.full_potential(prior, ll, strategy="vmap")
  # Covariance of the stochastic gradients
  V = N ** 2 / batch * onp.linalg.eigvalsh(onp.cov((y @ A).T)).max()
  chains = 3
  kw = dict(cache_size=256, batch_size=batch, progress_bar=False)
  tol_mean, tol_var = 0.15, 0.25
  if name in ("sgld", "re_sgld", "rms"):
    eps = min(0.1 / lam.max(), 0.16 / V)
    if name == "rms":
      # typical gradients of the stationary distribution
      eps *= onp.sqrt(V + lam.max())
      kw.update(rms_prop=True, alpha=0.999)
    iterations = 15000
    if name == "re_sgld":
      kw.update(temperature=float(u.logu(rng, 3, 30)))
  elif name in ("sghmc", "obabo"):
    friction = onp.sqrt(lam.max())
    eps = min(0.15 / onp.sqrt(lam.max()), 0.2 * friction / V)
    # The momentum is resampled in each iteration of SGHMC, whose variance is
    # that of the posterior up to a factor steps / (steps - 1)
    steps = int(rng.integers(12, 20) if name == "sghmc" else rng.integers(3, 7))
    kw.update(friction=friction, integration_steps=steps)
    iterations = 3000 if name == "sghmc" else 6000
  else:
    eps = float(u.logu(rng, 0.15, 0.5) / onp.sqrt(lam.max()))
    steps = int(rng.integers(2, 6))
    eps = min(eps, 1.2 / onp.sqrt(V) / onp.sqrt(steps))
    friction = 0.5 * onp.sqrt(lam.max())
    kw.update({"integration_steps": steps,
               "friction" if name == "amagold" else "friction_coefficient": friction})
    iterations = 6000
    tol_mean, tol_var = 0.06, 0.10
  burn = iterations // 10
  kw.update(first_step_size=float(eps), last_step_size=float(eps), burn_in=burn)
  if name not in CORRECTED:
    kw["accepted_samples"] = iterations - burn
  make = {"rms": alias.sgld}.get(name) or getattr(alias, name)
  sampler = make(*((pot, full, loader) if name in CORRECTED else (pot, loader)), **kw)
  starts = [tree(mean + 2 * onp.sqrt(onp.diag(cov)) * rng.normal(size=d)) for _ in range(chains)]
  if name == "re_sgld":
    starts = [(s, tree(mean + rng.normal(size=d))) for s in starts]
  results = sampler(*starts, iterations=iterations)
  what = f"{name} N={N} batch={batch} eps={eps} eigenvalues={lam} noise={V}"
  L = onp.linalg.cholesky(H)
  means, covs, ess = [], [], []
  blocks = 30
  for res in results:
    xs = onp.concatenate([onp.asarray(l, float).reshape(int(res["sample_count"]), -1)
                          for l in tree_util.tree_leaves(res["samples"]["variables"])], axis=1)
    if split:  # leaves are sorted by name
      xs = xs[:, ::-1]
    if not ctx.check(onp.isfinite(xs).all() and len(xs) == iterations - burn, "finite", what):
      return
    z = (xs - mean) @ L  # standard normal under the posterior
    size = len(z) // blocks
    zb = z[:size * blocks].reshape(blocks, size, d)
    means.append(zb.mean(1))
    covs.append(onp.einsum("bti,btj->bij", zb, zb) / size)
  m, C = onp.concatenate(means), onp.concatenate(covs)
  nb = len(m)
  # Neighbouring blocks are hardly dependent; twice the error of independent ones
  se_m = 1.5 * m.std(0, ddof=1) / onp.sqrt(nb)
  se_c = 1.5 * C.std(0, ddof=1) / onp.sqrt(nb)
  dm, dc = m.mean(0), C.mean(0) - onp.eye(d)
  ctx.count("samples", chains * (iterations - burn))
  ctx.count("blocks", nb)
  ctx.sample = {"sampler": name, "mean": dm.tolist(), "cov": dc.tolist(), "se": se_c.tolist()}
  if se_m.max() > 0.15 or se_c.max() > 0.2:
    ctx.count("unresolved")
    return
  ctx.check(onp.all(onp.abs(dm) < 7 * se_m + tol_mean), "posterior-mean",
            f"{what}: standardized mean {dm} (error {se_m})")
  ctx.check(onp.all(onp.abs(dc) < 7 * se_c + tol_var), "posterior-covariance",
            f"{what}: standardized covariance {(dc + onp.eye(d)).tolist()} (error {se_c.tolist()})")
  ctx.state("posterior", name, batch == N, split)
  ctx.interesting()
