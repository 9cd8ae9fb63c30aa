"""C17: Metropolis corrections accept or reject consistently."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, random, tree_util

from vlib import util as u
from checks.c15 import make_schedule

PROPERTY = "C17"
RULE = (
  "AMAGOLD and SGGMC run with their integrators on random anharmonic targets "
  "with stochastic (also biased) gradients, random trees, masses (none, "
  "constant, adapted), frictions, step sizes, temperatures and model states. A "
  "monitor recomputes the proposal of every update from the state before, and "
  "judges log ratio, reported statistics and every field of the state after "
  "acceptance and rejection; decisions of thousands of chains are tested "
  "against the reported probabilities, kind rare for probabilities down to "
  "1e-5 and up to 1 - 1e-5. Kind pipeline uses real loaders, "
  "minibatch and full potential. Non-trivial: accepted and rejected proposals.")
ASSUMPTIONS = [
  "the proposal is the result of the integrator for the state before",
  "temperature acts on SGGMC only", "statistical alarms: p < 1e-9"]
BUDGET = {"quick": 30, "thorough": 400}
TIMEOUT = 120

SOLVERS = ["amagold", "sggmc"]


def gen(rng, tier):
  for name in SOLVERS:
    for mass in ("none", "constant", "adapted"):
      for has_state in (False, True):
        yield dict(core=True, kind="chains", solver=name, mass=mass,
                   has_state=has_state, seed=u.seed(rng))
    for has_state in (False, True):
      yield dict(core=True, kind="pipeline", solver=name, mass="none",
                 has_state=has_state, seed=u.seed(rng))
    for mass in ("none", "adapted"):
      yield dict(core=True, kind="chains", solver=name, mass=mass, wild=True,
                 has_state=bool(rng.random() < 0.5), seed=u.seed(rng))
  for name in SOLVERS:
    for mass in ("none", "adapted"):
      yield dict(core=True, kind="rare", solver=name, mass=mass, has_state=mass == "none",
                 seed=u.seed(rng))
  for _ in range(300 if tier == "quick" else 6000):
    if rng.random() < 0.04:
      yield dict(kind="rare", solver=u.choice(rng, SOLVERS), has_state=bool(rng.random() < 0.5),
                 mass=u.choice(rng, ["none", "constant", "adapted"]), seed=u.seed(rng))
      continue
    yield dict(wild=bool(rng.random() < 0.15), kind="pipeline" if rng.random() < 0.2 else "chains",
               solver=u.choice(rng, SOLVERS),
               mass=u.choice(rng, ["none", "constant", "adapted"]),
               has_state=bool(rng.random() < 0.5), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  {"chains": chains, "pipeline": pipeline, "rare": rare}[case["kind"]](case, ctx, rng)


class Target:
  """Anharmonic potential with stochastic gradients.

  U(x) = 1/2 (x-m)' P (x-m) + sum q (x-m)^4 / 4 + offset. The stochastic
  potentials are multiples of it with a random force; they may be biased.
  """

  def __init__(self, rng, has_state=False, diagonal=None, noise=None,
               max_leaves=3, temperature=1.0):
    spec = u.tree_spec(rng, depth=2, max_leaves=max_leaves, max_rank=2, max_dim=2)
    self.sample = u.normal_tree(spec, rng)
    self.d = d = len(u.flat(self.sample))
    self.m = rng.normal(size=d).astype(onp.float32).astype(float)
    self.diagonal = bool(rng.random() < 0.5) if diagonal is None else diagonal
    lam = onp.exp(rng.uniform(-1.0, 1.0, size=d))
    if self.diagonal:
      self.P = onp.diag(lam)
      self.q = onp.exp(rng.uniform(-2, 1, size=d))
    else:
      o, _ = onp.linalg.qr(rng.normal(size=(d, d)))
      self.P = (o * lam) @ o.T
      self.q = onp.zeros(d)
    self.P = self.P.astype(onp.float32).astype(float)
    self.q = self.q.astype(onp.float32).astype(float)
    self.offset = float(onp.float32(rng.normal() * 5))
    self.has_state = has_state
    count = int(rng.integers(2, 7))
    noise = u.choice(rng, [0.1, 0.5, 1.0]) if noise is None else noise
    c = rng.normal(size=(count, d)) * noise
    if rng.random() < 0.7:
      c = c - c.mean(0)
    self.c = c.astype(onp.float32)
    self.s = onp.exp(0.2 * noise * rng.normal(size=count)).astype(onp.float32)

  def value(self, x):
    """x: chains x d."""
    r = x - self.m
    return 0.5 * onp.einsum("ni,ij,nj->n", r, self.P, r) + 0.25 * (r ** 4) @ self.q + self.offset

  def scale(self, x):
    r = onp.abs(x - self.m)
    big = onp.abs(x) + onp.abs(self.m)
    return (onp.einsum("ni,ij,nj->n", r, onp.abs(self.P), big)
            + (r ** 3 * big) @ self.q + abs(self.offset))

  def jax_value(self, sample):
    x = jnp.concatenate([jnp.ravel(l) for l in tree_util.tree_leaves(sample)])
    r = x - jnp.asarray(self.m, jnp.float32)
    return (0.5 * r @ (jnp.asarray(self.P, jnp.float32) @ r)
            + 0.25 * jnp.sum(jnp.asarray(self.q, jnp.float32) * r ** 4) + self.offset), x

  def stochastic(self, sample, batch, state=None, mask=None, information=False, **kwargs):
    data, _ = batch
    v, x = self.jax_value(sample)
    v = data["s"] * v + jnp.dot(data["c"], x)
    if self.has_state:
      v = v + 0.01 * state["s"] * x[0]
      state = {"s": 0.5 * state["s"] + data["c"][0]}
    return v, state

  def full(self, sample, data_state, map_fn, state=None, **kwargs):
    """Full potential; the data state counts the evaluations."""
    v, x = self.jax_value(sample)
    if self.has_state:
      v = v + 0.1 * jnp.sin(state["s"])
      state = {"s": state["s"] + 1.0 + 0.1 * jnp.tanh(x[0])}
    return v, (data_state + 1, state)

  def full_ref(self, x, sv):
    v = self.value(x)
    if self.has_state:
      return v + 0.1 * onp.sin(sv), sv + 1.0 + 0.1 * onp.tanh(x[:, 0])
    return v, None

  def batches(self):
    """Independent random batches; the data state is a key and a count."""
    from jax_sgmc.data import MiniBatchInformation
    c, s = jnp.asarray(self.c), jnp.asarray(self.s)

    def init(key=0):
      key = random.PRNGKey(key) if onp.ndim(key) == 0 else key
      return key, jnp.int32(0)

    def get(state, information=False, device_count=1):
      key, count = state
      key, split = random.split(key)
      k = random.randint(split, (), 0, len(self.c))
      batch = {"c": c[k], "s": s[k]}
      info = MiniBatchInformation(observation_count=10, batch_size=1,
                                  mask=jnp.ones(1, dtype=jnp.bool_))
      return (key, count + 1), ((batch, info) if information else batch)
    return init, get, lambda: None

  def full_map(self, start=0):
    def init(start=start):
      return jnp.int32(start)
    return init, (lambda *a, **k: None), lambda: None

  def stable_step(self, inv, rng, low, high):
    """Step size relative to the curvature around the mode."""
    width = 2.0 / onp.sqrt(onp.linalg.eigvalsh(self.P).min())
    H = self.P + onp.diag(3 * self.q * min(width, 2.0) ** 2 * 0.5)
    lam = onp.abs(onp.linalg.eigvals(inv @ H)).max()
    return float(onp.float32(onp.sqrt(u.logu(rng, low, high) / lam)))

  def tree(self, v):
    return tree_util.tree_map(lambda l: jnp.asarray(l, jnp.float32), u.unflat(v, self.sample))


def recording_mass(d, sample, scale=1.0):
  """Mass adaption which shows what it was updated with."""
  from jax_sgmc.adaption import MassMatrix
  from jax_sgmc.util import Tensor

  def init(smp, initial=None):
    base = initial if initial is not None else tree_util.tree_map(jnp.ones_like, smp)
    return {"n": jnp.int32(0), "total": tree_util.tree_map(jnp.zeros_like, smp), "base": base}

  def update(state, smp):
    return {"n": state["n"] + 1, "base": state["base"],
            "total": tree_util.tree_map(jnp.add, state["total"], smp)}

  def get(state):
    factor = scale * (1.0 + 0.3 * jnp.cos(state["n"].astype(jnp.float32)))
    m = tree_util.tree_map(lambda l: l * factor, state["base"])
    return MassMatrix(inv=Tensor(1, tree_util.tree_map(lambda l: 1 / l, m)),
                      sqrt=Tensor(1, tree_util.tree_map(jnp.sqrt, m)))
  return init, update, get


def rows(tree, n):
  ls = [onp.asarray(l, float).reshape(n, -1) for l in tree_util.tree_leaves(tree)]
  return onp.concatenate(ls, axis=1) if ls else onp.zeros((n, 0))


def build(case, rng, target):
  from jax_sgmc import integrator, solver
  name, d, sample = case["solver"], target.d, target.sample
  steps = int(rng.integers(1, 6))
  adaption = const = initial = None
  m = onp.ones(d)
  if case["mass"] == "constant":
    m = onp.exp(rng.uniform(-1.0, 1.0, size=d)).astype(onp.float32).astype(float)
    const = target.tree(m)
  elif case["mass"] == "adapted":
    adaption = recording_mass(d, sample)
    if rng.random() < 0.6:
      m = onp.exp(rng.uniform(-1.0, 1.0, size=d)).astype(onp.float32).astype(float)
      initial = target.tree(m)
    m = 1.3 * m
  if case.get("wild"):  # many trajectories diverge
    eps = target.stable_step(onp.diag(1 / m), rng, 2.0, 6.0)
    steps = int(rng.integers(4, 8))
  else:
    eps = target.stable_step(onp.diag(1 / m), rng, 0.1, 1.5)
  friction = float(onp.float32(u.choice(rng, [0.0, 0.05, 0.3]) / eps))
  make = {"amagold": integrator.reversible_leapfrog, "sggmc": integrator.obabo}[name]
  integ = make(target.stochastic, target.batches(), steps=steps, friction=friction,
               const_mass=const)
  full = target.full_map(int(rng.integers(0, 9)))
  sol = {"amagold": solver.amagold, "sggmc": solver.sggmc}[name](
    integ, target.full, full, mass_adaption=adaption)
  return integ, sol, adaption, initial, eps, friction, steps, m


def chains(case, ctx, rng):
  name = case["solver"]
  target = Target(rng, has_state=case["has_state"], diagonal=True if case.get("wild") else None)
  d, sample = target.d, target.sample
  integ, sol, adaption, initial, eps, friction, steps, m = build(case, rng, target)
  init, update, get = sol
  n = 2000
  updates = int(rng.integers(3, 7))
  T = float(onp.float32(u.logu(rng, 0.2, 5.0))) if name == "sggmc" else float(rng.uniform(0.5, 2))
  keys = random.split(random.PRNGKey(int(case["seed"])), 2 * n).reshape(2, n, 2)
  std = onp.sqrt((T if name == "sggmc" else 1.0) / onp.linalg.eigvalsh(target.P).max())
  x0 = (target.m + std * rng.normal(size=(n, d))).astype(onp.float32)
  starts = jax.vmap(lambda v: tree_of(target, v))(jnp.asarray(x0))
  model_state = {"s": jnp.float32(0.3)} if target.has_state else None
  first_data = int(rng.integers(10, 20))
  kw = {}
  if initial is not None:
    kw["initial_mass"] = initial

  def start(smp, key, batch_key):
    return init(smp, key=key, batch_kwargs={"key": batch_key},
                full_data_kwargs={"start": first_data},
                init_model_state=model_state, **kw)
  state = jax.jit(jax.vmap(start))(starts, keys[0], keys[1])
  what = (f"{name} (d={d}, {case['mass']} mass, {steps} steps, eps={eps}, "
          f"friction={friction}, T={T}, model state {target.has_state})")

  # Initial state
  want_pot, want_sv = target.full_ref(x0.astype(float), 0.3)
  tol = 1e-5 * target.scale(x0.astype(float)) + 1e-4
  u.equal(ctx, state.integrator_state.positions, starts, "initial-sample", what)
  bounded(ctx, state.potential, want_pot, tol, "initial-potential", what)
  ctx.check(onp.all(onp.asarray(state.full_data_state) == first_data + 1), "initial-data", what)
  if target.has_state:
    u.close(ctx, state.integrator_state.model_state["s"], want_sv, "initial-model-state", what)
  if name == "amagold":
    from checks.c16 import stats_of_noise
    mom = rows(state.integrator_state.momentum, n)
    stats_of_noise(ctx, mom / onp.sqrt(m), f"{what}: initial momentum", "initial-momentum")
  else:
    # Momenta such that the first trajectories are typical
    mom = (onp.sqrt(T * m) * rng.normal(size=(n, d))).astype(onp.float32)
    state = state._replace(integrator_state=state.integrator_state._replace(
      momentum=jax.vmap(lambda v: tree_of(target, v))(jnp.asarray(mom))))

  sched = make_schedule(jnp.float32(eps), jnp.float32(T))

  def both(st):
    mass = adaption[2](st.mass_state) if adaption else None
    proposal = integ[1](st.integrator_state, sched, mass=mass)
    new, stats = update(st, sched)
    return proposal, new, stats, get(new)
  both = jax.jit(jax.vmap(both))

  resid, probs, signs, accepts = [], [], [], []
  for k in range(updates):
    w = f"{what} update {k}"
    proposal, new, stats, out = both(state)
    acc = judge(ctx, name, target, adaption, state, proposal, new, stats, out, n, eps, T, w)
    if acc is None:
      return
    a = onp.asarray(new.acceptance_ratio[0], float)
    resid.append(acc - a)
    probs.append(a)
    accepts.append(acc)
    signs.append(rows(proposal.positions, n)[:, 0] - rows(state.integrator_state.positions, n)[:, 0])
    state = new
  resid, probs, signs = map(onp.asarray, (resid, probs, signs))
  accepts = onp.asarray(accepts)
  # Decisions have the reported probability
  var = probs * (1 - probs)
  def z_of(weight):
    s = onp.sqrt(onp.sum(weight ** 2 * var))
    return onp.sum(weight * resid) / s if s > 3 else 0.0
  tests = {"overall": onp.ones_like(probs), "direction": onp.sign(signs)}
  for lo, hi in ((0, .2), (.2, .5), (.5, .8), (.8, 1.0)):
    tests[f"probability {lo}-{hi}"] = ((probs >= lo) & (probs < hi)).astype(float)
  for key, weight in tests.items():
    z = z_of(weight)
    ctx.check(abs(z) < 6.5, "decision-frequency",
              f"{what}: decisions deviate from the reported probability ({key}): z = {z}")
  ctx.check(onp.all(resid[probs >= 1.0] == 0), "certain-rejected",
            f"{what}: proposals with probability one rejected")
  # Independence over chains and updates
  std = onp.sqrt(onp.maximum(var, 1e-12))
  r = onp.where(var > 1e-3, resid / std, 0.0)
  use = var > 1e-3
  for key, prod, mask in (("chains", r[:, 1:] * r[:, :-1], use[:, 1:] & use[:, :-1]),
                          ("updates", r[1:] * r[:-1], use[1:] & use[:-1])):
    # heavy tails: weight with the standard deviations
    ww = (std[:, 1:] * std[:, :-1]) if key == "chains" else (std[1:] * std[:-1])
    s = onp.sqrt(onp.sum(ww[mask] ** 2))
    z = onp.sum((prod * ww)[mask]) / s if s > 3 else 0.0
    ctx.check(abs(z) < 7, "decision-independence", f"{what}: decisions of {key} correlated, z = {z}")
  ctx.count("accepted", accepts.sum())
  ctx.count("rejected", accepts.size - accepts.sum())
  ctx.count("undecided_probability", onp.sum((probs > .05) & (probs < .95)))
  ctx.state(name, case["mass"], case["has_state"], steps, friction > 0, int(10 * probs.mean()))
  ctx.interesting(accepts.min() < accepts.max())
  ctx.sample = {"solver": name, "acceptance": float(accepts.mean()), "eps": eps}


def rare(case, ctx, rng):
  """Proposals which are nearly always, or nearly never, accepted."""
  name = case["solver"]
  target = Target(rng, has_state=case["has_state"], max_leaves=2)
  integ, sol, adaption, initial, eps, friction, steps, m = build(case, rng, target)
  init, update, get = sol
  n = 60000
  T = float(onp.float32(u.logu(rng, 0.2, 5.0))) if name == "sggmc" else 1.0
  keys = random.split(random.PRNGKey(int(case["seed"])), 2 * n).reshape(2, n, 2)
  x0 = (target.m + 0.5 * rng.normal(size=(n, target.d))).astype(onp.float32)
  kw = {} if initial is None else {"initial_mass": initial}
  state = jax.jit(jax.vmap(lambda x, k, b: init(
    tree_of(target, x), key=k, batch_kwargs={"key": b},
    init_model_state={"s": jnp.float32(0.3)} if target.has_state else None, **kw)))(
      jnp.asarray(x0), keys[0], keys[1])
  mom = (onp.sqrt(T * m) * rng.normal(size=(n, target.d))).astype(onp.float32)
  state = state._replace(integrator_state=state.integrator_state._replace(
    momentum=jax.vmap(lambda v: tree_of(target, v))(jnp.asarray(mom))))
  sched = make_schedule(jnp.float32(eps), jnp.float32(T))

  def both(st):
    mass = adaption[2](st.mass_state) if adaption else None
    proposal = integ[1](st.integrator_state, sched, mass=mass)
    new, stats = update(st, sched)
    return proposal, new, stats, get(new)
  both = jax.jit(jax.vmap(both))
  what = f"{name} (d={target.d}, {case['mass']} mass, {steps} steps, eps={eps}, T={T})"

  # The potential before decides about the proposal
  proposal = both(state)[0]
  sv = onp.asarray(proposal.model_state["s"], float) if target.has_state else 0.0
  pot, _ = target.full_ref(rows(proposal.positions, n), sv)
  change = (-onp.asarray(proposal.potential, float) if name == "amagold" else
            onp.asarray(proposal.kinetic_energy_end, float)
            - onp.asarray(proposal.kinetic_energy_start, float))
  log_alpha = onp.where(onp.arange(n) % 2, rng.uniform(-12, 0, size=n),
                        -onp.exp(rng.uniform(onp.log(1e-4), 0, size=n)))
  old = state._replace(potential=jnp.asarray(pot + change + T * log_alpha, jnp.float32))
  proposal, new, stats, out = both(old)
  acc = judge(ctx, name, target, adaption, old, proposal, new, stats, out, n, eps, T, what)
  if acc is None:
    return
  u.rare_decisions(ctx, new.acceptance_ratio[0], acc, "decision-frequency", what)
  ctx.state("rare", name, case["mass"], case["has_state"])
  ctx.interesting(acc.any() and not acc.all())


def tree_of(target, v):
  ls, td = tree_util.tree_flatten(target.sample)
  out, pos = [], 0
  for l in ls:
    size = int(onp.prod(onp.shape(l)))
    out.append(jnp.reshape(v[pos:pos + size], onp.shape(l)))
    pos += size
  return tree_util.tree_unflatten(td, out)


def bounded(ctx, got, want, tol, key, what):
  got, want = onp.asarray(got, float), onp.asarray(want, float)
  bad = ~((onp.abs(got - want) <= tol) | ((got != got) & (want != want)))
  return ctx.check(not bad.any(), key, lambda: (
    f"{what}: got {u.short(got[bad][:4])} expected {u.short(want[bad][:4])} in "
    f"{bad.sum()} of {bad.size} chains"))


def judge(ctx, name, target, adaption, old, proposal, new, stats, out, n, eps, T, w):
  """Judges one update of all chains; returns the decisions."""
  xi_old, xi_new, xi_prop = (rows(s.positions, n) for s in (
    old.integrator_state, new.integrator_state, proposal))
  same = lambda a, b: onp.all((a == b) | ((a != a) & (b != b)), axis=1)
  at_old = same(xi_new, xi_old)
  scale = 1e-4 * (1 + onp.abs(xi_prop).max(1, keepdims=True))
  at_prop = same(xi_new, xi_prop) | onp.all(onp.abs(xi_new - xi_prop) <= scale, axis=1)
  moved = onp.any(onp.abs(xi_prop - xi_old) > 10 * scale, axis=1)
  if not ctx.check(onp.all(at_old | at_prop), "sample-neither",
                   f"{w}: {onp.sum(~(at_old | at_prop))} samples are neither the old one nor the proposal"):
    return None
  # Chains which hardly moved are decided by the momentum
  p_old, p_new, p_prop = (rows(s.momentum, n) for s in (
    old.integrator_state, new.integrator_state, proposal))
  flipped = same(p_new, -p_old)
  acc = onp.where(moved, at_prop, ~flipped)
  finite = onp.isfinite(xi_prop).all(1) & onp.isfinite(p_prop).all(1)
  ctx.count("divergent", onp.sum(~finite))

  # Momentum
  ptol = 1e-4 * (1 + onp.abs(p_prop).max(1, keepdims=True))
  good = onp.all(onp.abs(p_new - p_prop) <= ptol, axis=1)
  ctx.check(onp.all(good[acc]), "accepted-momentum",
            f"{w}: momentum of {onp.sum(~good[acc])} accepted chains is not the one of the proposal")
  ctx.check(onp.all(flipped[~acc]), "rejected-momentum",
            f"{w}: momentum of {onp.sum(~flipped[~acc])} rejected chains is not negated")

  # Potential and model state
  sv_prop = onp.asarray(proposal.model_state["s"], float) if target.has_state else 0.0
  pot, sv = target.full_ref(xi_prop, sv_prop)
  tol = 1e-5 * target.scale(xi_prop) + 1e-4
  got = onp.asarray(new.potential, float)
  ok = ~finite | (onp.abs(got - pot) <= tol)
  ctx.check(onp.all(ok[acc]), "accepted-potential",
            lambda: f"{w}: potential of accepted chains {u.short(got[acc][:4])} expected {u.short(pot[acc][:4])}")
  ctx.check(onp.all((got == onp.asarray(old.potential))[~acc]), "rejected-potential",
            f"{w}: potential of rejected chains changed")
  if target.has_state:
    s_new = onp.asarray(new.integrator_state.model_state["s"], float)
    s_old = onp.asarray(old.integrator_state.model_state["s"], float)
    good = ~finite | (onp.abs(s_new - sv) <= 1e-4 * (1 + onp.abs(sv)))
    ctx.check(onp.all(good[acc]), "accepted-model-state",
              lambda: f"{w}: {u.short(s_new[acc][:4])} expected {u.short(sv[acc][:4])}")
    ctx.check(onp.all((s_new == s_old)[~acc]), "rejected-model-state", w)
  else:
    ctx.check(new.integrator_state.model_state is None, "model-state", w)

  # Probability
  if name == "amagold":
    change = -onp.asarray(proposal.potential, float)
    escale = onp.abs(change) + 0.5 * onp.sum(onp.abs(p_prop) ** 2 + onp.abs(p_old) ** 2, 1)
    temp = 1.0
  else:
    start = onp.asarray(proposal.kinetic_energy_start, float)
    end = onp.asarray(proposal.kinetic_energy_end, float)
    change = end - start
    escale = start + end
    temp = T
  # Proposals without defined probability are rejected
  with onp.errstate(all="ignore"):
    log_alpha = onp.minimum(-(pot - onp.asarray(old.potential, float) + change) / temp, 0.0)
  log_alpha = onp.where(onp.isnan(log_alpha), -onp.inf, log_alpha)
  ctx.check(not onp.any(acc & onp.isneginf(log_alpha)), "diverged-accepted",
            f"{w}: {onp.sum(acc & onp.isneginf(log_alpha))} diverged proposals accepted")
  ltol = (2 * tol + 1e-4 * escale + 1e-5 * target.scale(xi_old)) / temp + 1e-4
  alpha = onp.exp(log_alpha)
  a = onp.asarray(new.acceptance_ratio[0], float)
  ctx.check(onp.all((a <= 1) & (a >= 0)), "ratio-range", f"{w}: ratio outside [0, 1]")
  ltol = onp.where(onp.isfinite(ltol), ltol, 5)
  bad = ~(onp.abs(a - alpha) <= 1e-5 + alpha * onp.expm1(onp.minimum(ltol, 5)))
  ctx.check(not bad.any(), "acceptance-ratio", lambda: (
    f"{w}: {u.short(a[bad][:4])} instead of {u.short(alpha[bad][:4])} in {bad.sum()} chains"))
  u.equal(ctx, stats["acceptance_ratio"], new.acceptance_ratio[0], "statistics", w)
  u.equal(ctx, out["acceptance_ratio"], new.acceptance_ratio[0], "reported-ratio", w)
  u.equal(ctx, out["step_size"], onp.full(n, onp.float32(eps)), "reported-step-size", w)
  u.equal(ctx, out["variables"], new.integrator_state.positions, "reported-sample", w)
  if name == "sggmc":
    usual = onp.isfinite(change)
    bounded(ctx, out["kinetic_energy"][usual], change[usual], 1e-4 * escale[usual] + 1e-5,
            "reported-kinetic-energy", w)
    u.equal(ctx, out["potential"], new.potential, "reported-potential", w)
    for f in ("kinetic_energy_start", "kinetic_energy_end"):
      ctx.check(onp.all(onp.asarray(getattr(new.integrator_state, f)) == 0), "energy-reset", w)

  # Randomness and data always advance
  u.equal(ctx, new.integrator_state.key, proposal.key, "key-advances", w)
  u.equal(ctx, new.integrator_state.data_state, proposal.data_state, "data-advances", w)
  ctx.check(onp.all(onp.any(onp.asarray(new.key) != onp.asarray(old.key), axis=-1)), "key-advances", w)
  u.equal(ctx, new.full_data_state, onp.asarray(old.full_data_state) + 1, "full-data-advances", w)

  # Mass is adapted with the sample of the chain after the decision
  if adaption:
    ctx.check(onp.all(onp.asarray(new.mass_state["n"]) == onp.asarray(old.mass_state["n"]) + 1),
              "mass-adaption", w)
    want = rows(old.mass_state["total"], n) + xi_new
    u.close(ctx, rows(new.mass_state["total"], n)[finite], want[finite], "mass-adaption", w,
            rtol=1e-5, atol=1e-5, scale=onp.abs(want[finite]).max() if finite.any() else 1.0)
    u.equal(ctx, new.mass_state["base"], old.mass_state["base"], "mass-adaption", w)
  else:
    ctx.check(new.mass_state is None, "mass-adaption", w)
  ctx.count("updates", n)
  return acc


# --- Real loaders and potentials ---------------------------------------------

def pipeline(case, ctx, rng):
  """Single chain with real data, batches and potentials."""
  from jax_sgmc import data, integrator, potential, solver
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  from checks.c08 import Model
  name = case["solver"]
  model = Model(rng)
  N = int(rng.integers(3, 25))
  table = model.data(rng, N)
  loader = NumpyDataLoader(**table)
  mb = int(rng.integers(1, N + 1))
  rand = data.random_reference_data(loader, u.choice(rng, [1, 4, 17]), mb)
  full_map = data.full_reference_data(loader, u.choice(rng, [1, 3]), int(rng.integers(1, N + 1)))
  has_state = case["has_state"]

  def likelihood(*args):
    if has_state:
      st, smp, obs = args
      return model.loglik(smp, obs, st["s"]), {"s": st["s"]}
    return model.loglik(*args)
  kw = dict(has_state=has_state, strategy=u.choice(rng, ["map", "vmap"]))
  stochastic = potential.minibatch_potential(model.prior, likelihood, **kw)
  full = potential.full_potential(model.prior, likelihood, **kw)
  steps = int(rng.integers(1, 4))
  H = sum(w * model.A.T @ model.A for w in table["w"].astype(float))
  H = H + model.prior_prec * onp.eye(model.d) + N * onp.diag(onp.abs(model.c))
  lam = onp.abs(onp.linalg.eigvals(H)).max()
  eps = float(onp.float32(onp.sqrt(u.logu(rng, 0.2, 2.0) / lam)))
  friction = float(onp.float32(u.choice(rng, [0.05, 0.3]) / eps))
  T = float(onp.float32(u.logu(rng, 0.3, 3))) if name == "sggmc" else 1.0
  make = {"amagold": integrator.reversible_leapfrog, "sggmc": integrator.obabo}[name]
  integ = make(stochastic, rand, steps=steps, friction=friction)
  init, update, get = {"amagold": solver.amagold, "sggmc": solver.sggmc}[name](integ, full, full_map)
  state = init(model.sample, key=random.PRNGKey(int(case["seed"])),
               init_model_state={"s": jnp.float32(0.4)} if has_state else None)
  what = f"{name} on {N} observations (batches {mb}, {steps} steps, eps={eps}, T={T})"
  count = 14
  sched = make_schedule(jnp.float32(eps), jnp.float32(T))

  def step(st, _):
    new, stats = update(st, sched)
    return new, (new.integrator_state, new.potential, new.acceptance_ratio, stats, get(new))

  _, (ist, pots, ratios, stats, outs) = jax.jit(
    lambda st: lax.scan(step, st, onp.arange(count)))(state)
  xs = onp.concatenate([u.flat(state.integrator_state.positions)[None], rows(ist.positions, count)])
  ps = onp.concatenate([u.flat(state.integrator_state.momentum)[None], rows(ist.momentum, count)])
  pots = onp.concatenate([[float(state.potential)], onp.asarray(pots, float)])
  ratio = onp.asarray(ratios[0], float)
  for k in range(count + 1):
    vals, _ = model.ref(xs[k], table, 0.4 if has_state else 0.0)
    p, _ = model.ref_prior(xs[k])
    want = -vals.sum() - p
    scale = onp.abs(vals).sum() + abs(p)
    ctx.check(abs(pots[k] - want) <= 1e-4 * scale + 1e-3 or not onp.isfinite(want), "true-potential",
              f"{what} update {k}: potential {pots[k]} instead of {want} of the current sample")
  moved = onp.any(xs[1:] != xs[:-1], axis=1)
  for k in range(count):
    if moved[k]:
      ctx.check(ratio[k] > 0, "impossible-accepted", f"{what}: probability {ratio[k]} accepted")
    else:
      ctx.check(ratio[k] < 1, "certain-rejected", f"{what}: probability one rejected")
      ctx.check(onp.all(ps[k + 1] == -ps[k]) and pots[k + 1] == pots[k], "rejected-momentum",
                f"{what}: rejection {k} changed momentum or potential")
    ctx.count("updates")
  ctx.count("accepted", moved.sum())
  ctx.count("rejected", count - moved.sum())
  keys = onp.asarray(ist.key)
  ctx.check(len({tuple(v) for v in keys}) == count, "key-advances", what)
  u.equal(ctx, stats["acceptance_ratio"], ratios[0], "statistics", what)
  u.equal(ctx, outs["acceptance_ratio"], ratios[0], "reported-ratio", what)
  ctx.check(onp.all(onp.asarray(outs["step_size"]) == onp.float32(eps)), "reported-step-size", what)
  ctx.state("pipeline", name, has_state, steps, bool(moved.all()), bool(moved.any()))
  ctx.interesting(moved.any() and not moved.all())
