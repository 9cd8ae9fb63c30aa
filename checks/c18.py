"""C18: Metropolis-corrected samplers leave the posterior exactly invariant."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, random, tree_util

from vlib import util as u
from checks.c15 import make_schedule
from checks.c17 import Target, tree_of, rows
from checks.c16 import stats_of_noise

PROPERTY = "C18"
RULE = (
  "Tens of thousands of vectorized AMAGOLD and SGGMC chains start in exact "
  "samples of random Gaussian and anharmonic targets (random trees, "
  "temperatures, masses, frictions, step counts, sequences of step sizes, noisy "
  "and biased stochastic gradients). After many updates positions and momenta "
  "are transformed with the exact distribution functions and must be "
  "independent standard normal variates. Non-trivial: accepted and rejected "
  "proposals.")
ASSUMPTIONS = [
  "step sizes are chosen independently of the state (no adaption)",
  "temperature acts on SGGMC only", "statistical alarms: p < 1e-9"]
BUDGET = {"quick": 32, "thorough": 420}
TIMEOUT = 150

SOLVERS = ["amagold", "sggmc"]
MASSES = ["none", "constant", "full"]


def gen(rng, tier):
  for name in SOLVERS:
    for mass in MASSES:
      for kind in ("gaussian", "anharmonic"):
        for _ in range(2):
          yield dict(core=True, kind=kind, solver=name, mass=mass, seed=u.seed(rng))
  for _ in range(300 if tier == "quick" else 6000):
    yield dict(kind=u.choice(rng, ["gaussian", "anharmonic"]),
               solver=u.choice(rng, SOLVERS), mass=u.choice(rng, MASSES), seed=u.seed(rng))


class Exact:
  """Samples of exp(-U/T) and their transformation to normal variates."""

  def __init__(self, target, T):
    self.t, self.T = target, T
    if target.diagonal:
      self.grids = []
      for k in range(target.d):
        width = 12 * onp.sqrt(T / target.P[k, k])
        g = onp.linspace(-width, width, 40001)
        e = (0.5 * target.P[k, k] * g ** 2 + 0.25 * target.q[k] * g ** 4) / T
        w = onp.exp(-e)
        c = onp.concatenate([[0.0], onp.cumsum(0.5 * (w[1:] + w[:-1]))])
        self.grids.append((g, c / c[-1]))
    else:
      self.root = onp.linalg.cholesky(target.P / T)  # P/T = L L'

  def sample(self, rng, n):
    t = self.t
    if t.diagonal:
      x = onp.stack([onp.interp(rng.random(n), c, g) for g, c in self.grids], axis=1)
    else:
      x = onp.linalg.solve(self.root.T, rng.normal(size=(t.d, n))).T
    return x + t.m

  def normal(self, x):
    from scipy import stats
    r = x - self.t.m
    if self.t.diagonal:
      cdf = onp.stack([onp.interp(r[:, k], g, c) for k, (g, c) in enumerate(self.grids)], axis=1)
      return stats.norm.ppf(onp.clip(cdf, 1e-12, 1 - 1e-12))
    return r @ self.root


def run(case, ctx):
  from jax_sgmc import integrator, solver
  from jax_sgmc.adaption import MassMatrix
  from jax_sgmc.util import Tensor
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  name = case["solver"]
  target = Target(rng, diagonal=case["kind"] == "anharmonic",
                  noise=u.choice(rng, [0.2, 0.7, 1.5]))
  d, sample = target.d, target.sample
  T = float(onp.float32(u.logu(rng, 0.3, 4.0)))
  temp = T if name == "sggmc" else 1.0
  steps = int(rng.integers(1, 6))

  # Mass
  const = adaption = None
  mass = onp.eye(d)
  if case["mass"] == "constant":
    m = onp.exp(rng.uniform(-1, 1, size=d)).astype(onp.float32).astype(float)
    const, mass = target.tree(m), onp.diag(m)
  elif case["mass"] == "full":
    q, _ = onp.linalg.qr(rng.normal(size=(d, d)))
    m = onp.exp(rng.uniform(-1, 1, size=d))
    inv, root = (q / m) @ q.T, (q * onp.sqrt(m)) @ q.T
    mass = root @ root.T
    frozen = MassMatrix(inv=Tensor(2, jnp.asarray(inv, jnp.float32)),
                        sqrt=Tensor(2, jnp.asarray(root, jnp.float32)))
    adaption = (lambda smp, initial: jnp.int32(0), lambda st, smp: st, lambda st: frozen)
  minv = onp.linalg.inv(mass)
  base = target.stable_step(minv, rng, 0.25, 1.2)
  friction = float(onp.float32(u.choice(rng, [0.0, 0.02, 0.1, 0.5]) / base))
  make = {"amagold": integrator.reversible_leapfrog, "sggmc": integrator.obabo}[name]
  integ = make(target.stochastic, target.batches(), steps=steps, friction=friction, const_mass=const)
  init, update, get = {"amagold": solver.amagold, "sggmc": solver.sggmc}[name](
    integ, target.full, target.full_map(), mass_adaption=adaption)
  what = (f"{name} on {case['kind']} target (d={d}, T={temp}, {case['mass']} mass, {steps} steps, "
          f"eps={base}, friction={friction})")

  n = 20000
  exact = Exact(target, temp)
  x0 = exact.sample(rng, n).astype(onp.float32)
  keys = random.split(random.PRNGKey(int(case["seed"])), 2 * n).reshape(2, n, 2)
  chol = onp.linalg.cholesky(temp * mass)
  p0 = (rng.normal(size=(n, d)) @ chol.T).astype(onp.float32)

  def start(x, p, key, batch_key):
    st = init(tree_of(target, x), key=key, batch_kwargs={"key": batch_key})
    if name == "sggmc":
      st = st._replace(integrator_state=st.integrator_state._replace(momentum=tree_of(target, p)))
    return st

  updates = int(rng.integers(8, 25))
  sizes = (base * onp.exp(rng.choice([0.0, 0.5]) * rng.uniform(-1, 0.5, size=updates))).astype(onp.float32)

  def chain(x, p, key, batch_key):
    first = start(x, p, key, batch_key)
    def step(st, eps):
      new, stats = update(st, make_schedule(eps, jnp.float32(T)))
      return new, (stats["acceptance_ratio"], new.integrator_state.positions, new.integrator_state.momentum)
    last, (ratio, xs, ps) = lax.scan(step, first, jnp.asarray(sizes))
    half = tree_util.tree_map(lambda l: l[updates // 2], (xs, ps))
    return ratio, half, (last.integrator_state.positions, last.integrator_state.momentum)
  ratio, half, last = jax.jit(jax.vmap(chain))(
    jnp.asarray(x0), jnp.asarray(p0), keys[0], keys[1])
  ratio = onp.asarray(ratio, float)
  pchol = onp.linalg.inv(chol)
  for when, (xs, ps) in (("half", half), ("end", last)):
    z = exact.normal(rows(xs, n))
    zp = rows(ps, n) @ pchol.T
    both = onp.concatenate([z, zp], axis=1)
    if not ctx.check(onp.isfinite(both).all(), "finite", f"{what}: not finite"):
      return
    stats_of_noise(ctx, z, f"{what}: positions at the {when}", "posterior")
    stats_of_noise(ctx, zp, f"{what}: momenta at the {when}", "momentum")
    c = both.T @ both / onp.sqrt(n)
    onp.fill_diagonal(c, 0)
    ctx.check(onp.abs(c).max() < 8, "joint", f"{what}: positions and momenta correlated, z={onp.abs(c).max()}")
    sq = (both ** 2 - 1) / onp.sqrt(2)
    sq = onp.clip(sq, -8, 8)
    c = (sq - sq.mean(0)).T @ (sq - sq.mean(0)) / onp.sqrt(n) / onp.outer(sq.std(0), sq.std(0))
    onp.fill_diagonal(c, 0)
    ctx.check(onp.abs(c).max() < 8.5, "joint-squares",
              f"{what}: squares correlated, z={onp.abs(c).max()}")
    # Distribution of the energy
    energy = onp.sum(both ** 2, axis=1)
    from scipy import stats
    ks = stats.kstest(energy, stats.chi2(2 * d).cdf)
    ctx.check(ks.pvalue > 1e-9, "energy", f"{what}: energies at the {when}, KS distance {ks.statistic}")
  ctx.count("chains", n)
  ctx.count("updates", n * updates)
  ctx.count("expected_rejections", onp.sum(1 - ratio))
  ctx.state(name, case["kind"], case["mass"], steps, friction > 0, int(10 * ratio.mean()))
  ctx.interesting(0.02 < ratio.mean() < 0.999)
  ctx.sample = {"solver": name, "acceptance": float(ratio.mean()), "eps": base, "updates": updates}
