"""C16: the Hamiltonian integrators perform the documented sequence."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, random, tree_util

from vlib import util as u
from checks.c15 import Setup, make_schedule

PROPERTY = "C16"
RULE = (
  "Random models, masses (unit, diagonal, full), frictions, step sizes, step "
  "counts and batch sequences. Kind sequence: without noise whole trajectories "
  "(positions, momenta, energies, potentials, model state, consumed batches) "
  "are compared with a double precision execution of the documented updates. "
  "Kind single: the noise of single steps is recovered from positions and "
  "momenta of many chains and tested. Kind linear: for quadratic potentials "
  "mean and covariance of positions and momenta of many chains after several "
  "updates are compared with the exact linear-Gaussian recursion. Kind "
  "reverse: trajectories return after flipping the momentum. Kind shape: "
  "tails and moments of the noise of samples with 400000 parameters. Non-trivial: "
  "several integration steps or noise.")
ASSUMPTIONS = [
  "momenta of the friction leapfrog are resampled at each update",
  "temperature acts on the OBABO integrator only",
  "kinetic energies accumulate over the steps of an update",
  "statistical alarms: p < 1e-9"]
BUDGET = {"quick": 30, "thorough": 420}
TIMEOUT = 120

INTEGRATORS = ["obabo", "reversible", "friction"]
KINDS = ["sequence", "single", "linear", "reverse", "shape"]


def gen(rng, tier):
  for kind in KINDS:
    for integ in INTEGRATORS:
      if kind == "reverse" and integ == "friction":
        continue
      if kind == "shape":
        yield dict(core=True, kind=kind, integrator=integ, mass="unit", seed=u.seed(rng))
        continue
      for mass in ("unit", "diagonal", "full"):
        yield dict(core=True, kind=kind, integrator=integ, mass=mass, seed=u.seed(rng))
  for diag in (True, False):
    for _ in range(2):
      yield dict(core=True, kind="single", integrator="noise-model", mass="unit",
                 diagonal=diag, seed=u.seed(rng))
  for _ in range(300 if tier == "quick" else 6000):
    integ = u.choice(rng, INTEGRATORS + ["noise-model"])
    kind = u.choice(rng, KINDS)
    if integ == "friction" and kind == "reverse":
      kind = "sequence"
    if integ == "noise-model":
      kind = "single"
    yield dict(kind=kind, integrator=integ,
               mass=u.choice(rng, ["unit", "diagonal", "full"]),
               diagonal=bool(rng.random() < 0.5), seed=u.seed(rng))


class Mass:
  """Mass of a case: inverse, root and how it is passed."""

  def __init__(self, rng, kind, sample, force_argument=False):
    from jax_sgmc.adaption import MassMatrix
    from jax_sgmc.util import Tensor
    d = len(u.flat(sample))
    self.const = self.arg = None
    as_tree = lambda v: tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32), u.unflat(v, sample))
    m = onp.ones(d) if kind == "unit" else onp.exp(rng.uniform(-1.2, 1.2, size=d))
    if kind == "full":
      q, _ = onp.linalg.qr(rng.normal(size=(d, d)))
      self.inv = (q / m) @ q.T
      self.sqrt = (q * onp.sqrt(m)) @ q.T
      self.arg = MassMatrix(inv=Tensor(2, jnp.asarray(self.inv, jnp.float32)),
                            sqrt=Tensor(2, jnp.asarray(self.sqrt, jnp.float32)))
    else:
      self.inv, self.sqrt = onp.diag(1 / m), onp.diag(onp.sqrt(m))
      if kind == "diagonal" and (force_argument or rng.random() < 0.4):
        self.arg = MassMatrix(inv=Tensor(1, as_tree(1 / m)), sqrt=Tensor(1, as_tree(onp.sqrt(m))))
        if rng.random() < 0.5:  # has precedence over the constant mass
          self.const = as_tree(3 * m)
      elif kind == "diagonal":
        self.const = as_tree(m)
    self.mat = self.sqrt @ self.sqrt.T


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  if case["integrator"] == "noise-model":
    noise_model(case, ctx, rng)
  else:
    {"sequence": sequence, "single": single, "linear": linear, "reverse": reverse,
     "shape": shape}[case["kind"]](case, ctx, rng)


def step_of(rng, s, inv, low=0.01, high=0.3):
  """Step size well inside of the stability region."""
  lam = 0.0
  for k in range(s.count):
    b = s.batch(k)
    H = s.N / s.n * sum(w * s.model.A.T @ s.model.A for w in b["w"].astype(float))
    H = (H + s.model.prior_prec * onp.eye(s.model.d) + s.N * onp.diag(onp.abs(s.model.c))) / s.T
    lam = max(lam, onp.abs(onp.linalg.eigvals(inv @ H)).max())
  return float(onp.float32(onp.sqrt(rng.uniform(low, high) / lam)))


def build(case, s, mass, steps, friction, **kw):
  from jax_sgmc import integrator
  make = {"obabo": integrator.obabo, "reversible": integrator.reversible_leapfrog,
          "friction": integrator.friction_leapfrog,
          "noise-model": integrator.friction_leapfrog}[case["integrator"]]
  if mass.const is not None:
    kw["const_mass"] = mass.const
  return make(s.potential, s.batches.triple(), steps=steps, friction=friction, **kw)


def update_with(update, mass):
  if mass.arg is None:
    return update
  return lambda st, p: update(st, p, mass=mass.arg)


def set_state(state, x, p, sample):
  tree = lambda v: tree_util.tree_map(lambda l: jnp.asarray(l, jnp.float32), u.unflat(v, sample))
  return state._replace(positions=tree(x), momentum=tree(p))


# --- Sequence ----------------------------------------------------------------

class Reference:
  """Execution of the documented updates in double precision without noise."""

  def __init__(self, s, mass, x, p, batch, state):
    self.s, self.inv, self.x, self.p, self.k, self.sv = s, mass.inv, x, p, batch, state
    self.start = self.end = self.energy = 0.0
    self.pot = 0.0
    self.scale = 1e-3

  def grad(self):
    r = self.s.ref(self.x, self.k, self.sv)
    self.k += 1
    if self.s.has_state:
      self.sv = r["s"]
    self.scale = max(self.scale, r["vscale"])
    return r["grad"], r["value"]

  def kinetic(self):
    return 0.5 * self.p @ self.inv @ self.p

  def obabo(self, eps, friction, steps):
    a = onp.exp(-0.5 * friction * eps)
    for _ in range(steps):
      self.p = a * self.p
      self.start += self.kinetic()
      g, before = self.grad()
      self.p = self.p - 0.5 * eps * g
      self.x = self.x + eps * self.inv @ self.p
      g, after = self.grad()
      self.p = self.p - 0.5 * eps * g
      self.end += self.kinetic()
      self.p = a * self.p
      self.pot = 0.5 * (before + after)

  def reversible(self, eps, friction, steps):
    assert friction == 0
    self.energy = 0.0
    self.x = self.x + 0.5 * eps * self.inv @ self.p
    for k in range(steps):
      if k:
        self.x = self.x + eps * self.inv @ self.p
      g, _ = self.grad()
      new = self.p - eps * g
      self.energy += 0.5 * eps * (self.p + new) @ self.inv @ g
      self.p = new
    self.x = self.x + 0.5 * eps * self.inv @ self.p

  def friction(self, eps, friction, steps):
    assert friction == 0
    for _ in range(steps):
      self.x = self.x + eps * self.inv @ self.p
      g, self.pot = self.grad()
      self.p = self.p - eps * g


def sequence(case, ctx, rng):
  s = Setup(rng)
  name = case["integrator"]
  sample = s.model.sample
  mass = Mass(rng, case["mass"], sample)
  steps = int(rng.integers(1, 9))
  updates = int(rng.integers(1, 4))
  d = s.model.d
  eps = [step_of(rng, s, mass.inv) for _ in range(updates)]
  # Only the OBABO noise vanishes with the temperature
  friction = u.logu(rng, 0.02, 3.0) / eps[0] if name == "obabo" and rng.random() < 0.8 else 0.0
  friction = float(onp.float32(friction))
  init, update, get = build(case, s, mass, steps, friction)
  start = int(rng.integers(0, 5))
  state = init(sample, key=random.PRNGKey(int(case["seed"])),
               batch_kwargs={"start": start}, init_model_state=s.state)
  u.equal(ctx, state.positions, sample, "initial-sample")
  p0 = mass.sqrt @ rng.normal(size=d)
  x = u.flat(sample)
  if name != "friction":
    state = set_state(state, x, p0, sample)
  ref = Reference(s, mass, x, p0, start, 0.3 if s.has_state else 0.0)
  advance = update_with(update, mass)
  if rng.random() < 0.7:
    advance = jax.jit(advance)
  for k in range(updates):
    sched = make_schedule(jnp.float32(eps[k]), jnp.float32(0.0))
    what = f"{name} update {k} ({steps} steps, {case['mass']} mass, d={d}, eps={eps[k]}, friction={friction})"
    if name == "friction":
      # The resampled momentum is recovered from a single step
      i1, u1, _ = build(case, s, mass, 1, friction)
      one = update_with(u1, mass)(state, sched)
      ref.x = u.flat(state.positions)
      ref.p = onp.linalg.solve(mass.inv, (u.flat(one.positions) - ref.x) / eps[k])
      sloppy = 1e-3 / eps[k] * 1e-3
    state = advance(state, sched)
    getattr(ref, name)(eps[k], friction, steps)
    out = get(state)
    if not (u.same_structure(ctx, state.positions, sample, "structure")
            and u.same_structure(ctx, state.momentum, sample, "structure")):
      return
    u.equal(ctx, out["variables"], state.positions, "reported-sample", what)
    xs = 1 + onp.abs(ref.x).max()
    ps = 1 + onp.abs(ref.p).max()
    tol = 2e-3
    u.close(ctx, u.flat(state.positions), ref.x, "positions", what, rtol=tol, atol=0, scale=xs)
    ptol = tol
    if name == "friction":
      # rounding of the recovered momentum
      ptol = tol + 1e-6 * onp.abs(ref.x).max() / eps[k] / ps * onp.abs(onp.linalg.inv(mass.inv)).max()
    u.close(ctx, u.flat(state.momentum), ref.p, "momentum", what, rtol=ptol, atol=0, scale=ps)
    esc = ref.scale + ps ** 2 * onp.abs(mass.inv).max() * d
    if name == "obabo":
      u.close(ctx, state.kinetic_energy_start, ref.start, "kinetic-energy", what, rtol=tol,
              atol=0, scale=abs(ref.start) + 1e-3)
      u.close(ctx, state.kinetic_energy_end, ref.end, "kinetic-energy", what, rtol=tol,
              atol=0, scale=abs(ref.end) + 1e-3)
    if name == "reversible":
      u.close(ctx, state.potential, ref.energy, "energy", what, rtol=tol, atol=0, scale=esc)
    else:
      u.close(ctx, state.potential, ref.pot, "potential", what, rtol=tol, atol=0, scale=ref.scale)
    u.close(ctx, out["energy"], state.potential, "energy", what)
    ctx.check(int(state.data_state) == ref.k, "next-batch",
              f"{what}: {int(state.data_state)} instead of {ref.k} batches drawn")
    if s.has_state:
      u.close(ctx, state.model_state["s"], ref.sv, "model-state", what, rtol=1e-3, atol=1e-4)
    else:
      ctx.check(state.model_state is None, "model-state", what)
    ctx.count("steps", steps)
    # Judge the next update from the actual state
    ref.x = u.flat(state.positions)
    if name != "friction":
      ref.p = u.flat(state.momentum)
      if name == "obabo":
        ref.start, ref.end = float(state.kinetic_energy_start), float(state.kinetic_energy_end)
  ctx.state("sequence", name, case["mass"], steps, s.has_state, friction > 0,
            mass.arg is not None)
  ctx.interesting(steps > 1)
  ctx.sample = {"integrator": name, "steps": steps, "eps": eps[0], "x": ref.x[:2].tolist()}


# --- Noise -------------------------------------------------------------------

def stats_of_noise(ctx, z, what, key="noise"):
  """z: chains x number, independent standard normal."""
  from scipy import stats
  n, m = z.shape
  lp = u.chi2_extreme(onp.sum(z ** 2), z.size)
  ctx.check(lp > -9, f"{key}-variance", f"{what}: variance {onp.mean(z ** 2)} (log10 p {lp})")
  for i in range(m):
    lp = u.chi2_extreme(onp.sum(z[:, i] ** 2), n)
    ctx.check(lp > -9, f"{key}-variance", f"{what}: component {i} variance {onp.mean(z[:, i] ** 2)}")
    ctx.check(abs(z[:, i].mean()) * onp.sqrt(n) < 7, f"{key}-mean",
              f"{what}: component {i} mean {z[:, i].mean()}")
  c = z.T @ z / onp.sqrt(n)
  onp.fill_diagonal(c, 0)
  ctx.check(onp.abs(c).max() < 8 if m > 1 else True, f"{key}-correlation",
            lambda: f"{what}: components {onp.unravel_index(onp.abs(c).argmax(), c.shape)} "
                    f"correlated with z = {onp.abs(c).max()}")
  ks = stats.kstest(z.ravel()[:20000], "norm")
  ctx.check(ks.pvalue > 1e-9, f"{key}-gaussian", f"{what}: KS distance {ks.statistic}")
  lag = onp.sum(z[1:] * z[:-1]) / onp.sqrt(z[1:].size)
  ctx.check(abs(lag) < 7, f"{key}-chains", f"{what}: neighbouring chains correlated, z = {lag}")
  ctx.count("normals", z.size)


def rows(tree, n):
  return onp.concatenate([onp.asarray(l, float).reshape(n, -1)
                          for l in tree_util.tree_leaves(tree)], axis=1)


def gradients(s, th, k):
  b = s.batch(k)
  y, w = b["y"].astype(float), b["w"].astype(float)
  res = y[None] - (th @ s.model.A.T)[:, None]
  per = onp.einsum("cn,cnk,kd->cnd", onp.broadcast_to(w[None], res.shape[:2]), res, s.model.A)
  per = per + (s.model.c * onp.cos(th))[:, None]
  return -(s.N * per.mean(1) - s.model.prior_prec * th) / s.T, per


def frictions(case, rng, d, eps, sample, low=0.05, high=1.0):
  """Scalar or (friction leapfrog) per parameter."""
  if case["integrator"] in ("friction", "noise-model") and rng.random() < 0.6:
    f = (onp.exp(rng.uniform(onp.log(low), onp.log(high), size=d)) / eps).astype(onp.float32)
    return tree_util.tree_map(lambda l: jnp.asarray(l, jnp.float32), u.unflat(f, sample)), f.astype(float)
  f = float(onp.float32(u.logu(rng, low, high) / eps))
  return f, onp.full(d, f)


def single(case, ctx, rng):
  """Noise and energies of single steps."""
  s = Setup(rng, has_state=False)
  name, sample, d = case["integrator"], s.model.sample, s.model.d
  mass = Mass(rng, case["mass"], sample)
  eps = step_of(rng, s, mass.inv)
  T = float(onp.float32(u.logu(rng, 0.1, 10.0))) if name == "obabo" else float(rng.uniform(0.3, 3))
  friction, f = frictions(case, rng, d, eps, sample)
  init, update, get = build(case, s, mass, 1, friction)
  n = 3000
  keys = random.split(random.PRNGKey(int(case["seed"])), n)
  start = jax.jit(jax.vmap(lambda k: init(sample, key=k)._replace()))
  state = start(keys)
  x0 = rows(state.positions, n)
  what = f"{name} (d={d}, {case['mass']} mass, eps={eps}, friction={f[:3]}, T={T})"
  sched = make_schedule(jnp.float32(eps), jnp.float32(T))
  if name == "reversible" and mass.arg is None:
    # Initial momenta are distributed with the mass as covariance
    stats_of_noise(ctx, onp.linalg.solve(mass.sqrt, rows(state.momentum, n).T).T, what, "initial")
  if name != "friction":
    p0 = rng.normal(size=(n, d)) @ mass.sqrt.T
    mom = jax.vmap(lambda v: tree_util.tree_map(
      lambda l: jnp.asarray(l, jnp.float32), _unflat_j(v, sample)))(jnp.asarray(p0, jnp.float32))
    state = state._replace(momentum=mom)
    p0 = rows(mom, n)
  new = jax.jit(jax.vmap(lambda st: update_with(update, mass)(st, sched)))(state)
  x1, p1 = rows(new.positions, n), rows(new.momentum, n)
  M = onp.linalg.inv(mass.inv)
  if name == "obabo":
    a2 = onp.exp(-f[0] * eps)
    g0, _ = gradients(s, x0, 0)
    g1, _ = gradients(s, x1, 1)
    mid = (x1 - x0) @ M.T / eps        # after the first kick
    first = mid + 0.5 * eps * g0
    second = mid - 0.5 * eps * g1
    sd = onp.sqrt((1 - a2) * T)
    z1 = onp.linalg.solve(mass.sqrt, (first - onp.sqrt(a2) * p0).T).T / sd
    z2 = onp.linalg.solve(mass.sqrt, (p1 - onp.sqrt(a2) * second).T).T / sd
    z = onp.concatenate([z1, z2], axis=1)
    for got, p in ((new.kinetic_energy_start, first), (new.kinetic_energy_end, second)):
      want = 0.5 * onp.einsum("ni,ij,nj->n", p, mass.inv, p)
      ctx.check(onp.allclose(onp.asarray(got), want, rtol=2e-2, atol=2e-2 * want.mean()),
                "kinetic-energy", lambda: f"{what}: {u.short(got)} instead of {u.short(want)}")
  elif name == "reversible":
    mid = x0 + 0.5 * eps * p0 @ mass.inv.T
    g, _ = gradients(s, mid, 0)
    ef = eps * f[0]
    want_x = mid + 0.5 * eps * p1 @ mass.inv.T
    ctx.check(onp.allclose(x1, want_x, rtol=1e-3, atol=1e-3 * (1 + onp.abs(want_x).max())),
              "positions", lambda: f"{what}: {u.short(x1)} instead of {u.short(want_x)}")
    noise = p1 * (1 + ef) - (1 - ef) * p0 + eps * g
    z = onp.linalg.solve(mass.sqrt, noise.T).T / onp.sqrt(4 * ef)
    want = 0.5 * eps * onp.einsum("ni,ij,nj->n", p0 + p1, mass.inv, g)
    sc = 0.5 * eps * onp.abs(p0 + p1).max(1) * onp.abs(mass.inv).max() * onp.abs(g).sum(1)
    ctx.check(onp.all(onp.abs(onp.asarray(new.potential) - want) <= 2e-3 * sc + 1e-4), "energy",
              lambda: f"{what}: {u.short(new.potential)} instead of {u.short(want)}")
  else:
    p = (x1 - x0) @ M.T / eps
    g, _ = gradients(s, x1, 0)
    zp = onp.linalg.solve(mass.sqrt, p.T).T
    noise = p1 - p + eps * f * (p @ mass.inv.T) + eps * g
    z = onp.concatenate([zp, noise / onp.sqrt(2 * eps * f)], axis=1)
  if resolved(ctx, s, x1, eps, mass, n):
    stats_of_noise(ctx, z, what)
  ctx.state("single", name, case["mass"], d, s.n == 1)
  ctx.interesting()
  ctx.sample = {"integrator": name, "variance": float(onp.mean(z ** 2))}


def _unflat_j(vec, like):
  ls, td = tree_util.tree_flatten(like)
  out, pos = [], 0
  for l in ls:
    size = int(onp.prod(onp.shape(l)))
    out.append(jnp.reshape(vec[pos:pos + size], onp.shape(l)))
    pos += size
  return tree_util.tree_unflatten(td, out)


def resolved(ctx, s, x, eps, mass, n):
  """Rounding of the positions must not dominate the recovered momenta."""
  err = 6e-8 * onp.abs(x).max() / eps * onp.abs(onp.linalg.inv(mass.inv)).max()
  if err > 0.02 * onp.sqrt(onp.linalg.eigvalsh(mass.mat).min()):
    ctx.count("unresolved")
    return False
  return True


def noise_model(case, ctx, rng):
  """SGHMC with estimated gradient noise injects friction minus estimate."""
  from jax_sgmc import adaption
  while True:
    s = Setup(rng, has_state=False)
    if s.n >= 2:
      break
  sample, d = s.model.sample, s.model.d
  mass = Mass(rng, case["mass"], sample)
  eps = step_of(rng, s, mass.inv)
  x0 = u.flat(sample)
  # Friction above the estimated noise, per parameter
  _, per = gradients(s, x0[None], 0)
  top = 0.5 * eps * onp.linalg.eigvalsh(onp.cov(per[0].T, ddof=1).reshape(d, d)).max()
  n = 3000
  if rng.random() < 0.6:
    f = (3 * top * onp.exp(rng.uniform(0.2, 1.5, size=d))).astype(onp.float32)
    friction = tree_util.tree_map(lambda l: jnp.asarray(l, jnp.float32), u.unflat(f, sample))
    f = f.astype(float)
  else:
    friction = float(onp.float32(5 * top))
    f = onp.full(d, friction)
  model = adaption.fisher_information(minibatch_potential=s.potential, diagonal=case["diagonal"])
  init, update, get = build(case, s, mass, 1, friction, noise_model=model)
  keys = random.split(random.PRNGKey(int(case["seed"])), n)
  sched = make_schedule(jnp.float32(eps), jnp.float32(1.0))
  go = jax.jit(jax.vmap(lambda k: update_with(update, mass)(init(sample, key=k), sched)))
  new = go(keys)
  x1, p1 = rows(new.positions, n), rows(new.momentum, n)
  p = (x1 - x0) @ onp.linalg.inv(mass.inv).T / eps
  g, per = gradients(s, x1, 0)
  noise = p1 - p + eps * f * (p @ mass.inv.T) + eps * g
  dev = per - per.mean(1, keepdims=True)
  V = onp.einsum("cni,cnj->cij", dev, dev) / (s.n - 1)
  cov = onp.zeros((n, d, d))
  cov[:] = onp.diag(f)
  if case["diagonal"]:
    cov[:, onp.arange(d), onp.arange(d)] -= 0.5 * eps * onp.einsum("cii->ci", V)
  else:
    cov -= 0.5 * eps * V
  cov = 2 * eps * cov
  ok = onp.linalg.eigvalsh(cov).min(1) > 2 * eps * 0.05 * f.min()
  if ok.sum() < 500 or not resolved(ctx, s, x1, eps, mass, n):
    ctx.count("unresolved")
    return
  z = onp.linalg.solve(onp.linalg.cholesky(cov[ok]), noise[ok][..., None])[..., 0]
  scale = onp.sqrt(2 * eps * f.min() * 0.05)
  err = 6e-8 * (onp.abs(p1).max() + onp.abs(x1).max() / eps * onp.abs(onp.linalg.inv(mass.inv)).max())
  if err > 0.02 * scale:
    ctx.count("unresolved")
    return
  stats_of_noise(ctx, z, f"noise model diagonal={case['diagonal']} d={d} eps={eps} friction={f[:3]}",
                 "reduced-noise")
  ctx.state("noise-model", case["diagonal"], d, case["mass"])
  ctx.interesting()
  ctx.sample = {"variance": float(onp.mean(z ** 2)), "share": float(top / f.max())}


def linear(case, ctx, rng):
  """Quadratic potentials: exact mean and covariance after several updates."""
  s = Setup(rng, has_state=False)
  s.model.c = onp.zeros_like(s.model.c)
  name, sample, d = case["integrator"], s.model.sample, s.model.d
  mass = Mass(rng, case["mass"], sample)
  steps, updates = int(rng.integers(1, 6)), int(rng.integers(1, 4))
  eps = step_of(rng, s, mass.inv, high=0.5)
  T = float(onp.float32(u.logu(rng, 0.2, 5.0)))
  friction, f = frictions(case, rng, d, eps, sample, high=0.5)
  init, update, get = build(case, s, mass, steps, friction)
  n = 3000
  p0 = mass.sqrt @ rng.normal(size=d)
  x0 = u.flat(sample)
  sched = make_schedule(jnp.float32(eps), jnp.float32(T))
  advance = update_with(update, mass)

  def chain(key):
    st = init(sample, key=key)
    if name != "friction":
      st = set_state(st, x0, p0, sample)
    return lax.scan(lambda a, _: (advance(a, sched), ()), st, None, length=updates)[0]
  final = jax.jit(jax.vmap(chain))(random.split(random.PRNGKey(int(case["seed"])), n))
  got = onp.concatenate([rows(final.positions, n), rows(final.momentum, n)], axis=1)

  # --- Exact recursion of mean and covariance
  I, O = onp.eye(d), onp.zeros((d, d))
  mean = onp.concatenate([x0, p0 if name != "friction" else onp.zeros(d)])
  mean = mean.astype(onp.float32).astype(float)
  cov = onp.zeros((2 * d, 2 * d))
  k = 0

  def apply(F, shift=None, noise=None):
    nonlocal mean, cov
    mean = F @ mean + (0 if shift is None else shift)
    cov = F @ cov @ F.T + (0 if noise is None else noise)

  def quadratic():
    """g = H x - h"""
    nonlocal k
    b = s.batch(k)
    k += 1
    w, y = b["w"].astype(float), b["y"].astype(float)
    H = (s.N / s.n * w.sum() * s.model.A.T @ s.model.A + s.model.prior_prec * I) / s.T
    h = s.N / s.n * (w[:, None] * y).sum(0) @ s.model.A / s.T
    return H, h

  def drift(t):
    apply(onp.block([[I, t * mass.inv], [O, I]]))

  def kick(t):
    H, h = quadratic()
    apply(onp.block([[I, O], [-t * H, I]]), onp.concatenate([onp.zeros(d), t * h]))

  def momentum(F, noise):
    apply(onp.block([[I, O], [O, F]]), None, onp.block([[O, O], [O, noise]]))

  for _ in range(updates):
    if name == "obabo":
      a2 = onp.exp(-f[0] * eps)
      for _ in range(steps):
        momentum(onp.sqrt(a2) * I, (1 - a2) * T * mass.mat)
        kick(0.5 * eps)
        drift(eps)
        kick(0.5 * eps)
        momentum(onp.sqrt(a2) * I, (1 - a2) * T * mass.mat)
    elif name == "reversible":
      ef = eps * f[0]
      drift(0.5 * eps)
      for j in range(steps):
        if j:
          drift(eps)
        H, h = quadratic()
        apply(onp.block([[I, O], [-eps / (1 + ef) * H, (1 - ef) / (1 + ef) * I]]),
              onp.concatenate([onp.zeros(d), eps / (1 + ef) * h]),
              onp.block([[O, O], [O, 4 * ef / (1 + ef) ** 2 * mass.mat]]))
      drift(0.5 * eps)
    else:
      momentum(O, mass.mat)
      mean[d:] = 0
      for _ in range(steps):
        drift(eps)
        H, h = quadratic()
        F = onp.block([[I, O], [-eps * H, I - eps * f[:, None] * mass.inv]])
        apply(F, onp.concatenate([onp.zeros(d), eps * h]),
              onp.block([[O, O], [O, onp.diag(2 * eps * f)]]))
  what = (f"{name} {updates} updates of {steps} steps (d={d}, {case['mass']} mass, eps={eps}, "
          f"friction={f[:3]}, T={T})")
  ctx.check(onp.all(onp.asarray(final.data_state) == k), "next-batch",
            f"{what}: {onp.unique(onp.asarray(final.data_state))} instead of {k}")
  if k and not onp.all(onp.isfinite(got)):
    ctx.violate("finite", what)
    return
  # Whitened deviations; directions without resolvable noise are judged by the mean
  sc = onp.concatenate([onp.full(d, 1 + onp.abs(got[:, :d]).max()),
                        onp.full(d, 1 + onp.abs(got[:, d:]).max())])
  lam, vec = onp.linalg.eigh(cov / onp.outer(sc, sc))
  y = ((got - mean) / sc) @ vec
  noisy = lam > (2e-4) ** 2
  if noisy.any():
    stats_of_noise(ctx, y[:, noisy] / onp.sqrt(lam[noisy]), what, "linear")
  ctx.check(onp.all(onp.abs(y[:, ~noisy]) < 3e-3), "linear-mean", f"{what}")
  ctx.state("linear", name, case["mass"], d, steps, updates)
  ctx.interesting()
  ctx.sample = {"integrator": name, "directions": int(noisy.sum())}


def reverse(case, ctx, rng):
  """Time reversibility and energy conservation with full gradients."""
  s = Setup(rng, has_state=False)
  s.count, s.N = 1, s.n
  s.table = {k: v[:1] for k, v in s.table.items()}
  s.batches = u.Batches(s.table, s.n, s.n)
  name, sample, d = case["integrator"], s.model.sample, s.model.d
  mass = Mass(rng, case["mass"], sample)
  steps = int(rng.integers(2, 12))
  eps = step_of(rng, s, mass.inv, low=0.02, high=0.2)
  x0 = u.flat(sample)
  p0 = (mass.sqrt @ rng.normal(size=d)).astype(onp.float32).astype(float)

  def energy(x, p):
    r = s.ref(x, 0)
    return r["value"] + 0.5 * p @ mass.inv @ p, r["vscale"]

  init, update, _ = build(case, s, mass, steps, 0.0)
  sched = make_schedule(jnp.float32(eps), jnp.float32(1.0))
  advance = jax.jit(update_with(update, mass))
  state = set_state(init(sample, key=random.PRNGKey(1)), x0, p0, sample)
  mid = advance(state, sched)
  x1, p1 = u.flat(mid.positions), u.flat(mid.momentum)
  moved = onp.abs(x1 - x0).max()
  back = advance(set_state(mid, x1, -p1, sample), sched)
  what = f"{name} {steps} steps (d={d}, {case['mass']} mass, eps={eps})"
  sx, sp = 1 + onp.abs(x0).max() + onp.abs(x1).max(), onp.abs(p0).max() + onp.abs(p1).max() + 1e-3
  u.close(ctx, u.flat(back.positions), x0, "reversible", what, rtol=1e-3, atol=0, scale=sx)
  u.close(ctx, -u.flat(back.momentum), p0, "reversible", what, rtol=1e-3, atol=0, scale=sp)
  # The energy error is of second order
  errors = []
  for r in (1, 2, 4):
    i, up, _ = build(case, s, mass, steps * r, 0.0)
    st = set_state(i(sample, key=random.PRNGKey(1)), x0, p0, sample)
    end = jax.jit(update_with(up, mass))(st, make_schedule(jnp.float32(eps / r), jnp.float32(1.0)))
    e1, sc = energy(u.flat(end.positions), u.flat(end.momentum))
    e0, sc0 = energy(x0, p0)
    errors.append(abs(e1 - e0))
  floor = 5e-5 * (sc + sc0 + abs(e0))
  ctx.check(errors[2] <= max(0.16 * errors[0], floor) or errors[2] <= max(0.35 * errors[1], floor),
            "energy-conservation",
            f"{what}: energy errors {errors} for step sizes eps, eps/2, eps/4 (resolution {floor})")
  ctx.count("steps", 9 * steps)
  ctx.state("reverse", name, case["mass"], d, steps)
  ctx.interesting(moved > 1e-3)
  ctx.sample = {"moved": moved, "energy errors": errors}


def shape(case, ctx, rng):
  """The whole distribution of the noise, including tails."""
  from checks.c15 import flat_setup, flat_values, judge_flat
  from jax_sgmc import integrator
  pot, source, sample = flat_setup(rng, 250000)
  name = case["integrator"]
  eps, T = float(onp.float32(u.logu(rng, 1e-2, 1.0))), 1.0
  key = random.PRNGKey(int(case["seed"]))
  if name == "obabo":
    T = float(onp.float32(u.logu(rng, 0.2, 5.0)))
    f = 60.0 / eps  # the refreshment replaces the momentum
    init, update, get = integrator.obabo(pot, source, steps=1, friction=f)
    st = jax.jit(update)(init(sample, key=key), make_schedule(jnp.float32(eps), jnp.float32(T)))
    first = [x / eps / onp.sqrt(T) for x in flat_values(st.positions)]
    groups = [first, [p / onp.sqrt(T) for p in flat_values(st.momentum)]]
  else:
    f = float(onp.float32(0.3 / eps))
    make = integrator.reversible_leapfrog if name == "reversible" else integrator.friction_leapfrog
    init, update, get = make(pot, source, steps=1, friction=f)
    st0 = init(sample, key=key)
    st = jax.jit(update)(st0, make_schedule(jnp.float32(eps), jnp.float32(T)))
    p1, ef = flat_values(st.momentum), eps * f
    if name == "reversible":
      p0 = flat_values(st0.momentum)
      noise = [(b * (1 + ef) - (1 - ef) * a) / onp.sqrt(4 * ef) for a, b in zip(p0, p1)]
    else:
      p0 = [x / eps for x in flat_values(st.positions)]
      noise = [(b - (1 - ef) * a) / onp.sqrt(2 * ef) for a, b in zip(p0, p1)]
    groups = [p0, noise]
  judge_flat(ctx, groups, f"{name} step size {eps} temperature {T}")
  ctx.state("shape", name)
  ctx.interesting()
  ctx.sample = {"integrator": name, "parameters": sum(l.size for l in groups[0])}
