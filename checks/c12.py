"""C12: the adaptive step size follows dual averaging."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, tree_util

from vlib import util as u

PROPERTY = "C12"
RULE = (
  "Chains of one adaptive scheduler with random default and overridden "
  "parameters receive random, extreme, constant and closed-loop acceptance "
  "ratios; every step size is compared with a double precision model of the "
  "recursion, in python, compiled, vectorized, through the driver and beyond 65536 "
  "iterations. Non-trivial: iterations "
  "during and after the burn-in and an override.")
ASSUMPTIONS = ["relative tolerance 1e-3 of the logarithmic step size iterates",
               "iteration n is the (n + 1)-th update of the averaging"]
X64 = 0.15  # part of the cases in double precision
DEVICES = 3
BUDGET = {"quick": 30, "thorough": 300}


def gen(rng, tier):
  kinds = ["recursion", "constant", "closed"]
  for i in range(18):
    yield dict(core=True, kind=kinds[i % 3], seed=u.seed(rng))
  # Iterations beyond the range of short integers
  for i in range(2):
    yield dict(core=True, kind="long", burn_in=[40, 66500][i], seed=u.seed(rng))
  for i in range(6):
    yield dict(core=True, kind="driver", strategy=["map", "vmap", "pmap"][i % 3], seed=u.seed(rng))
  for _ in range(500 if tier == "quick" else 8000):
    if rng.random() < 0.1:
      yield dict(kind="driver", strategy=u.choice(rng, ["map", "vmap", "pmap"]), seed=u.seed(rng))
      continue
    yield dict(kind=u.choice(rng, kinds), seed=u.seed(rng))


DEFAULTS = dict(burn_in=0, initial_step_size=0.05, stabilization_constant=100,
                decay_constant=0.75, speed_constant=0.05, target_acceptance_rate=0.02)


def params(rng, its):
  return dict(burn_in=int(rng.integers(0, its + 5)),
              initial_step_size=u.logu(rng, 1e-5, 1.0),
              stabilization_constant=u.choice(rng, [10, 100, float(rng.uniform(1, 50))]),
              decay_constant=float(rng.uniform(0.5, 1.0)),
              speed_constant=u.logu(rng, 0.02, 1.0),
              target_acceptance_rate=float(rng.uniform(0.05, 0.95)))


def subset(rng, p, q=0.5):
  return {k: v for k, v in p.items() if rng.random() < q}


class Model:
  """Dual averaging (Hoffman and Gelman, 2014, algorithm 5)."""

  def __init__(self, burn_in, initial_step_size, stabilization_constant,
               decay_constant, speed_constant, target_acceptance_rate):
    self.burn, self.t0, self.kappa = burn_in, stabilization_constant, decay_constant
    self.gamma, self.delta = speed_constant, target_acceptance_rate
    self.mu = onp.log(10 * initial_step_size)
    self.h, self.xbar, self.m = 0.0, onp.log(initial_step_size), 0
    self.magnitude = max(1.0, abs(self.xbar), abs(self.mu))

  def update(self, acceptance):
    m = self.m + 1
    self.h = (1 - 1 / (m + self.t0)) * self.h + (self.delta - acceptance) / (m + self.t0)
    if self.m < self.burn:
      x = self.mu - onp.sqrt(m) / self.gamma * self.h
      self.magnitude = max(self.magnitude, abs(x))
      w = m ** (-self.kappa)
      self.xbar = w * x + (1 - w) * self.xbar
    self.m = m


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  if case["kind"] == "long":
    return long(case, rng, ctx)
  if case["kind"] == "driver":
    return driver(case, rng, ctx)
  {"recursion": recursion, "constant": constant, "closed": closed}[case["kind"]](rng, ctx)


def scheduler_of(rng, its, q=0.5):
  from jax_sgmc import scheduler
  own = subset(rng, params(rng, its))
  fns = scheduler.init_scheduler(
    step_size=scheduler.adaptive_step_size(**own), progress_bar=False)
  return fns, dict(DEFAULTS, **own)


def recursion(rng, ctx):
  its = u.randint(rng, 2, 300)
  (init, update, get), own = scheduler_of(rng, its)
  n_chains = int(rng.integers(1, 4))
  overs = [subset(rng, params(rng, its)) if rng.random() < 0.7 else {}
           for _ in range(n_chains)]
  fulls = [dict(own, **o) for o in overs]
  states = [init(its, **({"step_size": o} if o else {}))[0] for o in overs]
  acc = rng.uniform(0, 1, size=(n_chains, its)).astype(onp.float32)
  acc[rng.uniform(size=acc.shape) < 0.1] = 0.0
  acc[rng.uniform(size=acc.shape) < 0.1] = 1.0

  def loop(state, acc):
    def body(st, a):
      return update(st, acceptance_ratio=a), get(st).step_size
    return lax.scan(body, state, acc)[1]

  logs = [onp.asarray(jax.jit(loop)(s, jnp.asarray(a)), float) for s, a in zip(states, acc)]
  if n_chains > 1:
    many = tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(v) for v in x]), *states)
    vec = onp.asarray(jax.vmap(loop)(many, jnp.asarray(acc)), float)
    for c in range(n_chains):
      u.close(ctx, onp.log(vec[c]), onp.log(logs[c]), "vectorized", f"chain {c}",
              rtol=2e-4, atol=1e-4)
  # Python, chains in turns
  py = list(states)
  models = [Model(**f) for f in fulls]
  k = min(its, 12)
  for i in range(its):
    for c in range(n_chains):
      what = f"chain {c} iteration {i} {fulls[c]}"
      ref = models[c].xbar
      if models[c].magnitude > 80:
        return  # beyond the range of single precision
      tol = 1e-3 * models[c].magnitude
      got = onp.log(logs[c][i])
      if not ctx.check(abs(got - ref) <= tol, "recursion",
                       f"{what}: step size {logs[c][i]} instead of {onp.exp(ref)}"):
        return
      ctx.count("updates")
      if i < k:
        eager = float(get(py[c]).step_size)
        ctx.check(abs(onp.log(eager) - got) < 1e-3 * max(1.0, abs(got)), "python-equals-compiled",
                  f"{what}: {eager} and {logs[c][i]}")
        py[c] = update(py[c], acceptance_ratio=jnp.asarray(acc[c, i]))
      if i > fulls[c]["burn_in"]:
        ctx.check(logs[c][i] == logs[c][i - 1], "constant-after-burn-in",
                  f"{what}: {logs[c][i - 1]} changed to {logs[c][i]}")
      models[c].update(float(acc[c, i]))
  ctx.state("recursion", n_chains, any(overs), own["burn_in"] < its)
  ctx.interesting(any(overs) and any(0 < f["burn_in"] < its for f in fulls))
  ctx.sample = {"parameters": fulls[0], "step sizes": logs[0][:4].tolist()}


def driver(case, rng, ctx):
  """The driver feeds the acceptance ratios of a sampler back."""
  from jax_sgmc import scheduler
  its = int(rng.integers(5, 150))
  own = subset(rng, params(rng, its), 0.8)
  sched = scheduler.init_scheduler(step_size=scheduler.adaptive_step_size(**own), progress_bar=False)
  full = dict(DEFAULTS, **own)
  noise = rng.uniform(-0.2, 0.2, size=its).astype(onp.float32)
  scale = full["initial_step_size"] * u.logu(rng, 0.1, 10.0)
  table = jnp.asarray(noise)

  def ratio(xp, step, n):
    return xp.clip(xp.exp(-step / scale) + (table[n] if xp is jnp else float(noise[n])), 0.0, 1.0)

  def stats(schedule, n):
    return {"acceptance_ratio": ratio(jnp, schedule.step_size, n)}
  helpers = [{"temperature": {"tau": 2.0}}] if rng.random() < 0.3 else []
  chains = int(rng.integers(1, 4))
  for c, (count, n, (log, *_)) in enumerate(u.driven(sched, its, stats, helpers=helpers, chains=chains,
                                                    strategy=case["strategy"])):
    what = f"{case['strategy']} chain {c} {full}"
    if not ctx.check(count == its and onp.array_equal(n, onp.arange(its)), "all-iterations",
                     f"{what}: {count} samples of {its} iterations: {u.short(n)}"):
      return
    steps, model = log["step_size"], Model(**full)
    for i in range(its):
      if model.magnitude > 80:
        break
      if not ctx.check(abs(onp.log(steps[i]) - model.xbar) <= 1e-3 * model.magnitude, "recursion",
                       f"{what} iteration {i}: step size {steps[i]} instead of {onp.exp(model.xbar)}"):
        return
      if i > full["burn_in"]:
        ctx.check(steps[i] == steps[i - 1], "constant-after-burn-in",
                  f"{what} iteration {i}: {steps[i - 1]} changed to {steps[i]}")
      # The feedback follows the actual step size
      model.update(float(ratio(onp, steps[i], i)))
      ctx.count("updates")
  ctx.state("driver", case["strategy"], bool(helpers), full["burn_in"] < its)
  ctx.interesting(0 < full["burn_in"])


def long(case, rng, ctx):
  """The recursion over more iterations than short integers can count."""
  its, burn = 67000, case["burn_in"]
  (init, update, get), own = scheduler_of(rng, its, q=0.0)
  full = dict(own, burn_in=burn, target_acceptance_rate=0.5, speed_constant=1.0)
  state, _ = init(its, step_size={k: full[k] for k in ("burn_in", "target_acceptance_rate", "speed_constant")})
  acc = rng.uniform(0, 1, size=its).astype(onp.float32)

  def body(st, a):
    return update(st, acceptance_ratio=a), get(st).step_size
  end, steps = jax.jit(lambda s, a: lax.scan(body, s, a))(state, jnp.asarray(acc))
  steps = onp.asarray(steps, float)
  ctx.check(int(end.state[0]) == its, "iteration-count", f"{end.state} after {its} iterations")
  model = Model(**full)
  ref = onp.empty(its)
  for i in range(its):
    ref[i] = model.xbar
    model.update(float(acc[i]))
  bad = onp.abs(onp.log(steps) - ref) > 5e-3 * model.magnitude
  ctx.check(not bad.any(), "recursion", lambda: (
    f"{full} from iteration {onp.flatnonzero(bad)[0]}: step sizes {u.short(steps[bad])} "
    f"instead of {u.short(onp.exp(ref[bad]))}"))
  ctx.check(onp.all(steps[burn + 1:] == steps[-1]), "constant-after-burn-in",
            f"burn-in {burn}: {u.short(steps[burn:])}")
  ctx.count("updates", its)
  ctx.state("long", burn)
  ctx.interesting()


def constant(rng, ctx):
  """Persistent deviations of the acceptance ratio."""
  its = int(rng.integers(20, 150))
  (init, update, get), own = scheduler_of(rng, its)
  over = dict(burn_in=its, target_acceptance_rate=float(rng.uniform(0.1, 0.9)),
              speed_constant=u.logu(rng, 0.25, 1.0))
  full = dict(own, **over)
  target = full["target_acceptance_rate"]
  for sign in (1, -1):
    a = float(rng.uniform(target + 0.05, 1.0)) if sign > 0 else float(rng.uniform(0.0, target - 0.05))
    state, _ = init(its, step_size=over)

    def body(st, _):
      return update(st, acceptance_ratio=jnp.float32(a)), get(st).step_size
    steps = onp.asarray(lax.scan(body, state, None, length=its)[1], float)
    # The first update moves to the initial guess of the averaging
    change = onp.diff(onp.log(steps[1:]))
    good = sign * change >= -1e-5 * (1 + onp.abs(onp.log(steps[2:])))
    ctx.check(onp.all(good), "direction",
              f"acceptance {a} for the target {target}: step sizes {u.short(steps)}")
    ctx.check(sign * onp.log(steps[-1] / steps[1]) > 0, "direction",
              f"acceptance {a} for the target {target}: from {steps[1]} to {steps[-1]}")
    ctx.count("updates", its)
  ctx.state("constant", round(target, 1))
  ctx.interesting()
  ctx.sample = {"target": target, "last": [float(steps[1]), float(steps[-1])]}


def closed(rng, ctx):
  """The acceptance ratio depends on the step size."""
  its = 1500
  (init, update, get), own = scheduler_of(rng, its)
  target = float(rng.uniform(0.2, 0.9))
  scale = u.logu(rng, 1e-3, 1e2)   # step size of e^-1 acceptance
  over = dict(burn_in=its, target_acceptance_rate=target, stabilization_constant=10,
              speed_constant=float(rng.uniform(0.05, 0.2)), decay_constant=0.75,
              initial_step_size=scale * u.logu(rng, 1e-2, 1e1))
  noise = jnp.asarray(rng.uniform(-0.1, 0.1, size=its), jnp.float32)
  state, _ = init(its, step_size=over)

  def body(st, e):
    step = get(st).step_size
    a = jnp.clip(jnp.exp(-step / scale) + e, 0.0, 1.0)
    return update(st, acceptance_ratio=a), (step, jnp.exp(-step / scale))
  steps, acc = (onp.asarray(v, float) for v in lax.scan(body, state, noise)[1])
  m = Model(**dict(own, **over))
  for i in range(its):
    a = onp.clip(onp.exp(-onp.exp(m.xbar) / scale) + float(noise[i]), 0, 1)
    m.update(a)
  late = acc[-its // 4:].mean()
  ctx.check(abs(late - target) < 0.08, "closed-loop",
            f"average acceptance {late} instead of {target} (step sizes {u.short(steps)})")
  ctx.count("updates", its)
  ctx.state("closed", round(target, 1), scale > 1)
  ctx.interesting()
  ctx.sample = {"target": target, "reached": late, "step size": steps[-1]}
