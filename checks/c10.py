"""C10: step-size and temperature schedules follow their formulas."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, tree_util

from vlib import util as u

PROPERTY = "C10"
RULE = (
  "Schedulers with random parameters, of which random subsets are overridden "
  "when initializing chains, are read at every iteration in python, in "
  "compiled loops and for vectorized chains, several chains of one scheduler "
  "in turns, in short runs, runs of more than 65536 iterations and through the "
  "driver over several devices, and compared with the closed formulas in double precision. "
  "Non-trivial: decaying step sizes or an override.")
ASSUMPTIONS = ["relative tolerance 3e-5 (1 + gamma) for single precision powers",
               "first/last schedules with gamma <= 3 and first/last <= 1e4"]
DEVICES = 3
BUDGET = {"quick": 30, "thorough": 300}


def gen(rng, tier):
  kinds = ["poly", "first_last", "defaults", "mixed"]
  for i in range(24):
    yield dict(core=True, kind=kinds[i % 4], edge=i < 12, seed=u.seed(rng))
  # Iterations beyond the range of short integers
  for i in range(4):
    yield dict(core=True, kind=kinds[i % 2], edge=False, long=True, seed=u.seed(rng))
  for strategy in ("map", "vmap", "pmap"):
    for _ in range(2):
      yield dict(core=True, kind="driver", strategy=strategy, seed=u.seed(rng))
  for _ in range(600 if tier == "quick" else 10000):
    if rng.random() < 0.06:
      yield dict(kind="driver", strategy=u.choice(rng, ["map", "vmap", "pmap"]), seed=u.seed(rng))
      continue
    yield dict(kind=u.choice(rng, kinds), edge=bool(rng.random() < 0.1),
               long=bool(rng.random() < 0.04), seed=u.seed(rng))


def poly_params(rng, edge):
  p = dict(a=u.logu(rng, 1e-8, 10.0), b=u.logu(rng, 1e-2, 1e3),
           gamma=float(rng.uniform(0, 2)))
  if edge:
    p["gamma"] = u.choice(rng, [0.0, 0.33, 1.0])
    p["b"] = u.choice(rng, [1.0, 0.5, 2])
    p["a"] = u.choice(rng, [1.0, 1, 0.01])
  return p


def poly_ref(p, its):
  return p["a"] * (p["b"] + onp.arange(its, dtype=float)) ** (-p["gamma"])


def fl_params(rng, edge):
  first = u.logu(rng, 1e-6, 10.0)
  ratio = u.logu(rng, 1.02, 1e4)
  p = dict(first=first, last=first / ratio, gamma=float(rng.uniform(0.1, 3)))
  if edge:
    p["gamma"] = u.choice(rng, [0.33, 1.0, 0.55])
    if rng.random() < 0.3:
      p["last"] = p["first"]
  return p


def fl_ref(p, its):
  """The power -1/gamma of the step size is linear in the iteration."""
  f, l = p["first"] ** (-1 / p["gamma"]), p["last"] ** (-1 / p["gamma"])
  if its == 1:
    return onp.asarray([p["first"]])
  x = onp.arange(its) / (its - 1)
  if p["first"] == p["last"]:
    return onp.full(its, p["first"])
  return (f + x * (l - f)) ** (-p["gamma"])


def override(rng, base, new):
  """Random subset of the parameters replaced by new ones."""
  names = [k for k in base if rng.random() < 0.5]
  kw = {k: new[k] for k in names}
  full = dict(base, **kw)
  return kw, full


def run(case, ctx):
  warnings.simplefilter("ignore")
  from jax_sgmc import scheduler
  rng = u.rng_of(case)
  if case["kind"] == "driver":
    return driver(case, ctx, rng)
  edge, kind = case["edge"], case["kind"]
  n_chains = int(rng.integers(1, 4))
  its = u.randint(rng, 1, 12 if edge else 400)
  if case.get("long"):
    its = int(rng.integers(66000, 140000))
  same_its = rng.random() < 0.5
  chain_its = [its if same_its else u.randint(rng, 1, 300) for _ in range(n_chains)]

  kwargs, refs, inits = {}, [], []
  which = kind if kind != "mixed" else u.choice(rng, ["poly", "first_last"])
  if which == "poly":
    base = poly_params(rng, edge)
    kwargs["step_size"] = scheduler.polynomial_step_size(**base)
  elif which == "first_last":
    base = fl_params(rng, edge)
    kwargs["step_size"] = scheduler.polynomial_step_size_first_last(**base)
  with_temp = rng.random() < 0.6
  tau = u.logu(rng, 1e-3, 1e2)
  if rng.random() < 0.1:
    tau = 0.0
  if with_temp:
    kwargs["temperature"] = scheduler.constant_temperature(tau=tau)
  else:
    tau = 1.0
  with_burn = rng.random() < 0.6
  burn = int(rng.integers(0, min(chain_its) + 1))
  if with_burn:
    kwargs["burn_in"] = scheduler.initial_burn_in(burn)
  else:
    burn = 0
  init, update, get = scheduler.init_scheduler(progress_bar=False, **kwargs)

  n_over = 0
  for c in range(n_chains):
    kw = {}
    if which == "poly":
      over, full = override(rng, base, poly_params(rng, edge))
      ref = poly_ref(full, chain_its[c])
      tol = 3e-5 * (1 + full["gamma"])
    elif which == "first_last":
      while True:
        over, full = override(rng, base, fl_params(rng, edge))
        if full["last"] <= full["first"] and full["first"] / full["last"] <= 1e4:
          # A tiny decay is not resolved in single precision
          if full["first"] == full["last"] or full["first"] / full["last"] >= 1.01:
            break
      ref = fl_ref(full, chain_its[c])
      tol = 3e-5 * (1 + full["gamma"])
    else:
      over, ref, tol, full = {}, onp.ones(chain_its[c]), 1e-6, {}
    if over:
      kw["step_size"] = over
    t = tau
    if rng.random() < 0.4:
      t = u.logu(rng, 1e-3, 1e2)
      kw["temperature"] = {"tau": t}
    b = burn
    if rng.random() < 0.4:
      b = int(rng.integers(0, chain_its[c] + 1))
      kw["burn_in"] = {"n": b}
    n_over += len(kw)
    inits.append(kw)
    refs.append((ref, tol, t, b, full))

  states = []
  for c in range(n_chains):
    state, static = init(chain_its[c], **inits[c])
    states.append(state)
    ctx.check(int(static.samples_collected) == chain_its[c] - refs[c][3],
              "announced", f"{static} for {chain_its[c]} iterations with burn-in {refs[c][3]}")

  def read(c, log, what):
    """log: schedule for all iterations of the chain."""
    ref, tol, t, b, full = refs[c]
    n = chain_its[c]
    step = onp.asarray(log.step_size, dtype=float)
    if not ctx.check(step.shape == (n,), "shape", f"{what}: {step.shape}"):
      return
    ctx.count("iterations", n)
    ctx.check(onp.all(onp.isfinite(step)) and onp.all(step > 0), "finite-positive",
              lambda: f"{what} {full}: {u.short(step)}")
    ctx.check(onp.all(onp.abs(step - ref) <= tol * ref), "step-size",
              lambda: f"{what} {full} its={n}: {u.short(step)} instead of {u.short(ref)}")
    ctx.check(onp.all(onp.diff(step) <= 1e-6 * step[:-1]), "monotone",
              lambda: f"{what} {full}: {u.short(step)}")
    if which == "first_last":
      ctx.check(abs(step[0] - full["first"]) <= tol * full["first"], "first",
                f"{what}: starts with {step[0]} instead of {full['first']}")
      if n > 1:
        ctx.check(abs(step[-1] - full["last"]) <= tol * full["last"], "last",
                  f"{what}: ends with {step[-1]} instead of {full['last']}")
    ctx.check(onp.all(onp.asarray(log.temperature) == onp.float32(t)), "temperature",
              lambda: f"{what}: {u.short(log.temperature)} instead of {t}")
    ctx.check(onp.array_equal(onp.asarray(log.burn_in, float), (onp.arange(n) >= b) * 1.0),
              "burn-in", lambda: f"{what}: {u.short(log.burn_in)} for {b}")
    ctx.check(onp.all(onp.asarray(log.accept).astype(bool)), "accept", what)

  # --- Python, chains in turns
  logs = [[] for _ in range(n_chains)]
  py = list(states)
  read_steps = [min(n, 25) for n in chain_its]
  for i in range(max(read_steps)):
    for c in range(n_chains):
      if i < read_steps[c]:
        logs[c].append(get(py[c]))
        if rng.random() < 0.5:  # reading does not change the schedule
          again = get(py[c], parameters=None)
          u.equal(ctx, again, logs[c][-1], "repeated-reading", f"iteration {i}")
        py[c] = update(py[c], acceptance_ratio=0.3)
        ctx.check(int(py[c].state[0]) == i + 1, "iteration-count", f"{py[c].state}")

  # --- Compiled loop
  def loop(state, n):
    def body(st, _):
      return update(st), get(st)
    return lax.scan(body, state, None, length=n)[1]
  for c in range(n_chains):
    compiled = jax.jit(loop, static_argnums=1)(states[c], chain_its[c])
    read(c, compiled, f"chain {c} compiled")
    k = read_steps[c]
    stacked = tree_util.tree_map(lambda *x: onp.stack([onp.asarray(v) for v in x]), *logs[c])
    u.equal(ctx, stacked, tree_util.tree_map(lambda x: x[:k], compiled),
            "python-equals-compiled", f"chain {c}")
  # --- Vectorized chains
  if same_its and n_chains > 1:
    many = tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(v) for v in x]), *states)
    out = jax.vmap(lambda s: loop(s, its))(many)
    for c in range(n_chains):
      read(c, tree_util.tree_map(lambda x: x[c], out), f"chain {c} vectorized")
  ctx.state(which, n_over > 0, with_temp, with_burn, edge, its == 1, n_chains)
  ctx.interesting(which != "defaults" or n_over > 0)
  ctx.sample = {"kind": which, "params": refs[0][4], "iterations": chain_its[0],
                "steps": refs[0][0][:3].tolist()}


def driver(case, ctx, rng):
  """Schedules as the driver hands them to a sampler."""
  from jax_sgmc import scheduler
  which = u.choice(rng, ["poly", "first_last"])
  its = int(rng.integers(2, 200))
  params, ref_of, make = {
    "poly": (poly_params, poly_ref, scheduler.polynomial_step_size),
    "first_last": (fl_params, fl_ref, scheduler.polynomial_step_size_first_last)}[which]
  base = params(rng, False)
  tau, burn = u.logu(rng, 1e-3, 1e2), int(rng.integers(0, its))
  sched = scheduler.init_scheduler(
    step_size=make(**base), temperature=scheduler.constant_temperature(tau=tau),
    burn_in=scheduler.initial_burn_in(burn), progress_bar=False)
  helpers, wanted = [], [(base, tau)]
  for _ in range(int(rng.integers(0, 3))):
    kw, full, t = {}, base, tau
    if rng.random() < 0.7:
      full = params(rng, False)
      kw["step_size"] = full
    if rng.random() < 0.7:
      t = u.logu(rng, 1e-3, 1e2)
      kw["temperature"] = {"tau": t}
    if rng.random() < 0.5:
      kw["burn_in"] = {"n": int(rng.integers(0, its))}
    helpers.append(kw)
    wanted.append((full, t))
  chains = int(rng.integers(1, 4))
  for c, (count, n, logs) in enumerate(u.driven(sched, its, helpers=helpers, strategy=case["strategy"],
                                               chains=chains)):
    what = f"{case['strategy']} chain {c} of {its} iterations"
    if not ctx.check(onp.array_equal(n, onp.arange(burn, its)) and count == its - burn, "burn-in",
                     f"{what}: {count} samples {u.short(n)} with burn-in {burn}"):
      return
    for k, (log, (full, t)) in enumerate(zip(logs, wanted)):
      ref = ref_of(full, its)[burn:]
      tol = 3e-5 * (1 + full["gamma"])
      ctx.check(onp.all(onp.abs(log["step_size"] - ref) <= tol * ref), "step-size",
                lambda: f"{what} schedule {k} {full}: {u.short(log['step_size'])} instead of {u.short(ref)}")
      ctx.check(onp.all(log["temperature"] == onp.float32(t)), "temperature",
                lambda: f"{what} schedule {k}: {u.short(log['temperature'])} instead of {t}")
    ctx.count("iterations", its)
  ctx.state("driver", which, case["strategy"], len(helpers), chains)
  ctx.interesting(burn > 0)
