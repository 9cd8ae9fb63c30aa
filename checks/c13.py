"""C13: RMSprop and mass-matrix adaption estimate what they promise."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, tree_util

from vlib import util as u

PROPERTY = "C13"
RULE = (
  "The adaptions receive random streams of samples and gradients of random "
  "tree structure with shifted, scaled and correlated components, in python "
  "and compiled loops; the adapted quantities after every update are compared "
  "with double precision estimates from the recorded stream and with the "
  "adaption of the flattened vector. Kind langevin: the drift of the Langevin "
  "integrator with RMSprop is compared with the manifold of the recorded "
  "gradients. Kind solver: the Metropolis solvers adapt the mass; after every "
  "update it is compared with the estimate from the positions the solver "
  "visited. Non-trivial: several leaves, updates "
  "before and after the end of the burn-in.")
ASSUMPTIONS = [
  "the average of the squared gradients starts at one",
  "the burn-in of the mass matrix is longer than the dimension",
  "tolerance 2e-3 relative to the scale, times the condition number for roots"]
BUDGET = {"quick": 26, "thorough": 300}


def gen(rng, tier):
  kinds = ["rms", "diagonal", "full"]
  for i in range(18):
    yield dict(core=True, kind=kinds[i % 3], compiled=bool(i % 2), seed=u.seed(rng))
  for i in range(6):
    yield dict(core=True, kind=["langevin", "solver", "solver"][i % 3],
               solver=["amagold", "sggmc"][i % 2], diagonal=bool(i < 3), compiled=True, seed=u.seed(rng))
  for _ in range(400 if tier == "quick" else 8000):
    if rng.random() < 0.12:
      yield dict(kind=u.choice(rng, ["langevin", "solver"]), compiled=True,
                 solver=u.choice(rng, ["amagold", "sggmc"]), diagonal=bool(rng.random() < 0.5),
                 seed=u.seed(rng))
      continue
    yield dict(kind=u.choice(rng, kinds), compiled=bool(rng.random() < 0.7),
               seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  if case["kind"] == "langevin":
    from checks import c15  # pylint: disable=import-outside-toplevel
    c15.drift({"kind": "rms", "seed": case["seed"]}, ctx, rng)
  elif case["kind"] == "solver":
    solver_mass(case, ctx, rng)
  else:
    (rms if case["kind"] == "rms" else mass)(case, ctx, rng)


def stack(trees):
  return tree_util.tree_map(lambda *x: jnp.stack(x), *trees)


def rms(case, ctx, rng):
  from jax_sgmc import adaption
  spec = u.tree_spec(rng, depth=3, max_leaves=4)
  x0 = u.normal_tree(spec, rng)
  d = len(u.flat(x0))
  steps = int(rng.integers(1, 40 if case["compiled"] else 8))
  kw = {}
  if rng.random() < 0.7:
    kw["alpha"] = float(rng.uniform(0.0, 1.0))
  if rng.random() < 0.7:
    kw["lmbd"] = u.logu(rng, 1e-6, 1.0)
  alpha, lmbd = kw.get("alpha", 0.9), kw.get("lmbd", 1e-5)
  scale = onp.exp(rng.uniform(-5, 5, size=d))
  xs = [u.normal_tree(spec, rng) for _ in range(steps)]
  gs = [tree_util.tree_map(lambda l: jnp.asarray(l, jnp.float32),
                           u.unflat(scale * rng.normal(size=d), x0)) for _ in range(steps)]

  def drive(init, update, get, x0, xs, gs):
    state = init(x0, **kw)
    first = get(state, xs[0], gs[0])

    def body(st, xg):
      x, g = xg
      st = update(st, x, g)
      return st, get(st, x, g)
    if case["compiled"]:
      # Functions are part of the state, only arrays are carried
      log = jax.jit(lambda x, g: lax.scan(body, state, (x, g))[1])(stack(xs), stack(gs))
      rest = [tree_util.tree_map(lambda l: l[k], log) for k in range(steps)]
    else:
      rest = []
      for x, g in zip(xs, gs):
        state, m = body(state, (x, g))
        rest.append(m)
    return [first] + rest

  log = drive(*adaption.rms_prop(), x0, xs, gs)
  v = onp.ones(d)
  for k, m in enumerate(log):
    if k:
      v = alpha * v + (1 - alpha) * u.flat(gs[k - 1]) ** 2
    want = 1 / (lmbd + onp.sqrt(v))
    what = f"after {k} updates (alpha={alpha}, lambda={lmbd})"
    for name, val in (("g_inv", want), ("sqrt_g_inv", onp.sqrt(want)),
                      ("gamma", onp.zeros(d))):
      t = getattr(m, name)
      ctx.check(int(t.ndim) == 1, "ndim", f"{name}: {t.ndim}")
      if u.same_structure(ctx, t.tensor, x0, "structure"):
        got = u.flat(t.tensor)
        for gl, xl in zip(u.leaves(t.tensor), u.leaves(x0)):
          ctx.check(gl.shape == xl.shape, "structure", f"{name}: {gl.shape}")
        ctx.check(onp.all(onp.abs(got - val) <= 2e-4 * onp.abs(val)), name,
                  lambda: f"{what}: {name} is {u.short(got)} instead of {u.short(val)}")
    ctx.count("updates")
  # The same on the flattened vector
  flatten = lambda t: jnp.asarray(u.flat(t), jnp.float32)
  other = drive(*adaption.rms_prop(), flatten(x0), [flatten(x) for x in xs],
                [flatten(g) for g in gs])
  for a, b in zip(log, other):
    u.close(ctx, u.flat(a.g_inv.tensor), u.flat(b.g_inv.tensor), "flattened", "", rtol=1e-5)
  ctx.state("rms", len(u.leaves(x0)), "alpha" in kw, "lmbd" in kw, case["compiled"])
  ctx.interesting(len(u.leaves(x0)) > 1 and steps > 1)
  ctx.sample = {"alpha": alpha, "lambda": lmbd, "g_inv": want[:3].tolist()}


def mass(case, ctx, rng):
  from jax_sgmc import adaption
  diagonal = case["kind"] == "diagonal"
  spec = u.tree_spec(rng, depth=3, max_leaves=3, max_dim=2)
  x0 = u.normal_tree(spec, rng)
  d = len(u.flat(x0))
  burn = d + 3 + u.randint(rng, 0, 40)
  if not case["compiled"]:
    burn = d + 3
  steps = burn + int(rng.integers(1, 8))
  # Correlated random walk with an offset
  base = onp.exp(rng.uniform(-1.5, 1.5, size=d))
  mix = onp.eye(d) + 0.4 * rng.normal(size=(d, d)) / onp.sqrt(d)
  raw = rng.normal(size=(steps, d)) @ mix.T * base + 5 * rng.normal(size=d) * base
  raw = raw.astype(onp.float32)
  xs = [tree_util.tree_map(jnp.asarray, u.unflat(r, x0)) for r in raw]
  cov = None
  if rng.random() < 0.6:
    cov = u.normal_tree(spec, rng, positive=True)
  kw = {}
  if diagonal and rng.random() < 0.5:
    pass
  else:
    kw["diagonal"] = diagonal

  def drive(x0, cov, xs):
    init, update, get = adaption.mass_matrix(burn_in=burn, **kw)
    state = init(x0, cov)
    first = get(state)

    def body(st, x):
      st = update(st, x)
      return st, get(st)
    if case["compiled"]:
      state = tree_util.tree_map(jnp.asarray, state)
      # The running iteration is an integer, the averages are floats
      log = jax.jit(lambda x: lax.scan(body, state, x)[1])(stack(xs))
      return [first] + [tree_util.tree_map(lambda l: l[k], log) for k in range(steps)]
    log = []
    for x in xs:
      state, m = body(state, x)
      log.append(m)
    return [first] + log

  log = drive(x0, cov, xs)
  init_inv = onp.ones(d) if cov is None else u.flat(cov)
  seen = raw[:burn].astype(float)
  emp = onp.cov(seen.T, ddof=0).reshape(d, d)
  if diagonal:
    emp = onp.diag(onp.diag(emp))
  sd = onp.sqrt(onp.diag(emp))
  cond = onp.linalg.cond(emp / onp.outer(sd, sd))

  def dense(t, what):
    nd = int(t.ndim)
    if not ctx.check(nd == (1 if diagonal else 2), "ndim", f"{what}: {nd}"):
      return None
    if diagonal:
      if not u.same_structure(ctx, t.tensor, x0, "structure"):
        return None
      return onp.diag(u.flat(t.tensor))
    mat = onp.asarray(t.tensor, float)
    if not ctx.check(mat.shape == (d, d), "structure", f"{what}: {mat.shape}"):
      return None
    return mat

  for k, m in enumerate(log):
    what = f"after {k} of {burn} updates (d={d})"
    inv, root = dense(m.inv, what), dense(m.sqrt, what)
    if inv is None or root is None:
      return
    ctx.count("updates")
    ctx.check(onp.all(onp.isfinite(inv)) and onp.all(onp.isfinite(root)), "finite", what)
    if k < burn:
      ctx.check(onp.allclose(inv, onp.diag(init_inv), rtol=1e-5, atol=0), "initial-inverse",
                lambda: f"{what}: {u.short(inv)} instead of the initial {u.short(init_inv)}")
      want = init_inv
      prod = root @ root.T @ inv
      ctx.check(onp.allclose(prod, onp.eye(d), atol=1e-4), "root",
                lambda: f"{what}: S S^T inv = {u.short(prod)}")
      continue
    rel = (inv - emp) / onp.outer(sd, sd)
    ctx.check(onp.all(onp.abs(rel) <= 2e-3), "empirical-covariance",
              lambda: f"{what}: {u.short(inv)} instead of {u.short(emp)}")
    # Scaled to be independent of the units
    prod = (root / sd[None] if False else root) @ root.T @ inv
    scaled = prod * sd[:, None] / sd[None, :]
    ctx.check(onp.all(onp.abs(scaled - onp.eye(d)) <= 1e-3 + 3e-4 * cond * (sd.max() / sd.min()) ** 2),
              "root", lambda: f"{what}: S S^T inv = {u.short(scaled)} (condition {cond})")
    if k > burn:
      u.equal(ctx, m, log[burn], "once-and-for-all", what)
  flatten = lambda t: None if t is None else jnp.asarray(u.flat(t), jnp.float32)
  other = drive(flatten(x0), flatten(cov), [flatten(x) for x in xs])
  a, b = log[-1], other[-1]
  fl = lambda t: u.flat(t.tensor)
  u.close(ctx, fl(a.inv), fl(b.inv), "flattened", "inverse", rtol=1e-4)
  ctx.state("mass", diagonal, d, cov is None, case["compiled"])
  ctx.interesting(len(u.leaves(x0)) > 1)
  ctx.sample = {"d": d, "burn_in": burn, "variances": onp.diag(emp)[:4].tolist()}


def solver_mass(case, ctx, rng):
  """Mass adapted by the Metropolis solvers to the positions they visit."""
  from jax import random
  from jax_sgmc import adaption, integrator, solver
  from checks import c17
  target = c17.Target(rng)
  d, sample = target.d, target.sample
  diagonal = case["diagonal"]
  burn = d + 3 + u.randint(rng, 0, 30)
  updates = burn + int(rng.integers(2, 8))
  kw = {} if diagonal and rng.random() < 0.5 else {"diagonal": diagonal}
  adapt = adaption.mass_matrix(burn_in=burn, **kw)
  cov = onp.ones(d)
  init_kw = {}
  if rng.random() < 0.6:
    cov = onp.exp(rng.uniform(-0.7, 0.7, size=d)).astype(onp.float32).astype(float)
    init_kw["initial_mass"] = target.tree(cov)
  make = {"amagold": integrator.reversible_leapfrog, "sggmc": integrator.obabo}[case["solver"]]
  eps = target.stable_step(onp.diag(cov), rng, 0.1, 0.8)
  integ = make(target.stochastic, target.batches(), steps=int(rng.integers(1, 4)), friction=0.1 / eps)
  sol = {"amagold": solver.amagold, "sggmc": solver.sggmc}[case["solver"]]
  init, update, _ = sol(integ, target.full, target.full_map(0), mass_adaption=adapt)
  state = init(sample, key=random.PRNGKey(int(case["seed"])),
               batch_kwargs={"key": random.PRNGKey(int(case["seed"]) ^ 1)}, **init_kw)
  sched = c17.make_schedule(jnp.float32(eps), jnp.float32(1.0))
  first = adapt[2](state.mass_state)

  def body(st, _):
    st, _ = update(st, sched)
    return st, (st.integrator_state.positions, adapt[2](st.mass_state))
  _, (xs, ms) = jax.jit(lambda st: lax.scan(body, st, None, length=updates))(state)
  x = c17.rows(xs, updates)
  if not onp.all(onp.isfinite(x)):
    ctx.count("diverged")
    return
  emp = onp.cov(x[:burn].T, ddof=0).reshape(d, d)
  sd = onp.sqrt(onp.diag(emp))
  if onp.any(sd < 1e-3 * (1 + onp.abs(x).max())):
    ctx.count("degenerate")
    return
  what = f"{case['solver']} d={d} diagonal={diagonal} burn-in={burn}"
  for k in range(updates + 1):
    m = first if k == 0 else tree_util.tree_map(lambda l: l[k - 1], ms)
    if diagonal:
      inv, root = onp.diag(u.flat(m.inv.tensor)), onp.diag(u.flat(m.sqrt.tensor))
    else:
      inv, root = onp.asarray(m.inv.tensor, float), onp.asarray(m.sqrt.tensor, float)
    want = onp.diag(cov) if k < burn else onp.diag(onp.diag(emp)) if diagonal else emp
    scale = onp.outer(sd, sd) if k >= burn else onp.ones((d, d))
    ctx.check(onp.all(onp.abs(inv - want) <= 3e-3 * scale),
              "initial-inverse" if k < burn else "empirical-covariance",
              lambda: f"{what} after {k} updates: {u.short(inv)} instead of {u.short(want)}")
    if k < burn or diagonal:
      ctx.check(onp.allclose(root @ root.T @ inv, onp.eye(d), atol=1e-3), "root",
                lambda: f"{what} after {k} updates: S S^T inv = {u.short(root @ root.T @ inv)}")
    if k > burn:
      u.equal(ctx, m, tree_util.tree_map(lambda l: l[burn - 1], ms), "once-and-for-all",
              f"{what} after {k} updates")
    ctx.count("updates")
  ctx.state("solver", case["solver"], diagonal, d, bool(init_kw))
  ctx.interesting()
