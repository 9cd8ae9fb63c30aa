"""C19: replica exchange swaps with the corrected probability."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import random, tree_util

from vlib import util as u
from checks.c15 import Setup, make_schedule

PROPERTY = "C19"
RULE = (
  "Thousands of vectorized replica exchange samplers run with the Langevin "
  "integrator on random models and with a synthetic integrator, whose "
  "potentials and variances are drawn at random over many magnitudes. A monitor "
  "recomputes both proposals of each update, requires the new pair to be the "
  "proposals in one of the two orders with every field, follows the variance "
  "estimate in double precision and tests the frequency of swaps against the "
  "probability, kind rare for probabilities close to zero and one. Kind driver runs the sampler through the driver with different "
  "schedules for both chains. Non-trivial: swaps and no swaps.")
ASSUMPTIONS = [
  "the potentials of the swap are those reported by the integrator, which are "
  "recomputed like the variances for some chains of the Langevin integrator",
  "the estimate includes the variance of the current update",
  "statistical alarms: p < 1e-9"]
BUDGET = {"quick": 26, "thorough": 300}
TIMEOUT = 120

KINDS = ["synthetic", "langevin", "driver", "rare"]


def gen(rng, tier):
  for kind in KINDS:
    for _ in range({"driver": 4, "rare": 1}.get(kind, 6)):
      yield dict(core=True, kind=kind, seed=u.seed(rng))
  for _ in range(400 if tier == "quick" else 6000):
    yield dict(kind=u.choice(rng, KINDS if rng.random() < 0.2 else KINDS[:3]), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  if case["kind"] == "driver":
    driver(case, ctx, rng)
  elif case["kind"] == "rare":
    rare(case, ctx, rng)
  else:
    swaps(case, ctx, rng)


def synthetic(rng):
  """Integrator with random potentials and variances."""
  from jax_sgmc.integrator import LangevinState
  scale = u.logu(rng, 0.1, 100.0)
  var_scale = u.logu(rng, 0.01, 100.0)
  spec = u.tree_spec(rng)
  sample = u.normal_tree(spec, rng)
  values = dict(scale=scale, var=var_scale)

  def init(smp, key=None, **kwargs):
    return LangevinState(
      latent_variables=smp, key=key, adapt_state={"n": jnp.int32(0)},
      data_state=jnp.int32(3), model_state={"s": jnp.float32(0.5)},
      potential=jnp.array(0.0), variance=jnp.array(1.0))

  def update(state, schedule, **kwargs):
    key, k1, k2, k3 = random.split(state.key, 4)
    return LangevinState(
      latent_variables=tree_util.tree_map(
        lambda l: l + schedule.step_size * (1 + random.uniform(k3)), state.latent_variables),
      key=key, adapt_state={"n": state.adapt_state["n"] + 1},
      data_state=state.data_state + 1,
      model_state={"s": 0.5 * state.model_state["s"] + schedule.temperature},
      potential=scale * random.normal(k1),
      variance=var_scale * random.exponential(k2))

  def get(state):
    return {"variables": state.latent_variables, "likelihood": -state.potential,
            "model_state": state.model_state}
  return (init, update, get), sample, values


SCHEDULES = {
  "harmonic": lambda n: 1 / n,
  "root": lambda n: n ** -0.5,
  "constant": lambda n: 0.3,
  "shifted": lambda n: 5.0 / (5.0 + n),
}
REFERENCE = {
  "harmonic": lambda n: 1.0 / n,
  "root": lambda n: float(n) ** -0.5,
  "constant": lambda n: 0.3,
  "shifted": lambda n: 5.0 / (5.0 + n),
}


def swaps(case, ctx, rng):
  from jax_sgmc import integrator, solver
  n = 3000
  updates = int(rng.integers(4, 12))
  magnitude = None
  kw = {}
  setup = None
  if case["kind"] == "synthetic":
    integ, sample, values = synthetic(rng)
    magnitude = values["scale"]
    eps = 0.1
    other = tree_util.tree_map(lambda l: l + 1.0, sample)
  else:
    s = setup = Setup(rng)
    integ = integrator.langevin_diffusion(s.potential, s.batches.triple())
    sample = s.model.sample
    from checks.c16 import step_of
    eps = step_of(rng, s, onp.eye(s.model.d), 0.05, 0.6) ** 2
    other = tree_util.tree_map(lambda l: l + 0.5, sample)
    kw = dict(init_model_state=s.state, batch_kwargs={"start": int(rng.integers(0, 4))})
    magnitude = s.model.d
  name = u.choice(rng, list(SCHEDULES))
  kwargs = {} if name == "harmonic" and rng.random() < 0.5 else {"sa_schedule": SCHEDULES[name]}
  init, update, get = solver.parallel_tempering(integ, **kwargs)

  ssq0 = float(onp.float32(u.logu(rng, 0.01, 10))) if rng.random() < 0.6 else None
  F = None
  if rng.random() < 0.7:
    F = float(onp.float32(u.logu(rng, 0.3, 300)))
  extra = dict(kw)
  if ssq0 is not None:
    extra["ssq_init"] = jnp.float32(ssq0)
  if F is not None:
    extra["F"] = jnp.float32(F)
  keys = random.split(random.PRNGKey(int(case["seed"])), n)
  state = jax.jit(jax.vmap(lambda k: init(sample, other, key=k, **extra)))(keys)
  # Temperatures of interest: the exponent is of order one
  tc = float(onp.float32(u.logu(rng, 0.3, 3.0)))
  gap = min(0.95, 1.0 / magnitude) * u.logu(rng, 0.3, 3.0)
  inv_h = 1 / tc - gap
  th = float(onp.float32(1 / inv_h if inv_h > 1e-3 else 1000.0))
  cold_s = make_schedule(jnp.float32(eps), jnp.float32(tc))
  hot_s = make_schedule(jnp.float32(eps * u.choice(rng, [1.0, 0.5])), jnp.float32(th))
  what = f"{case['kind']} T={tc}/{th} F={F} ssq={ssq0} schedule {name}"

  chain_keys = onp.asarray(state[0].key), onp.asarray(state[1].key)
  u.equal(ctx, get(state)["variables"], state[0].latent_variables, "initial-sample", what)
  want = tree_util.tree_map(lambda l: onp.broadcast_to(l, (n,) + onp.shape(l)), sample)
  u.equal(ctx, state[0].latent_variables, want, "initial-sample", f"{what} cold")
  want = tree_util.tree_map(lambda l: onp.broadcast_to(l, (n,) + onp.shape(l)), other)
  u.equal(ctx, state[1].latent_variables, want, "initial-sample", f"{what} hot")
  ctx.check(onp.all(onp.any(chain_keys[0] != chain_keys[1], axis=-1)), "chain-keys",
            f"{what}: both chains share their randomness")

  @jax.jit
  @jax.vmap
  def both(st):
    cold = integ[1](st[0], cold_s)
    hot = integ[1](st[1], hot_s)
    new, stats = update(st, cold_s, hot_s)
    return cold, hot, new, get(new)

  ssq = onp.full(n, 0.0 if ssq0 is None else ssq0)
  resid, probs, impossible = [], [], 0
  for k in range(updates):
    w = f"{what} update {k}"
    cold, hot, new, out = both(state)
    swapped = decide(ctx, state, cold, hot, new, out, n, w)
    if swapped is None:
      return
    lr = REFERENCE[name](k + 1)
    ssq = (1 - lr) * ssq + lr * onp.asarray(cold.variance, float)
    got = onp.asarray(new[2], float)
    ctx.check(onp.all(onp.abs(got - ssq) <= 1e-4 * onp.abs(ssq) + 1e-6), "variance-estimate",
              lambda: f"{w}: {u.short(got[:4])} instead of {u.short(ssq[:4])}")
    if setup is not None and setup.T == 1.0:
      # Variance of the stochastic potential, independently of the integrator
      for j in range(3):
        one = tree_util.tree_map(lambda l: onp.asarray(l)[j], state[0])
        ref = setup.ref(u.flat(one.latent_variables), int(one.data_state),
                        float(one.model_state["s"]) if setup.has_state else 0.0)
        u.close(ctx, onp.asarray(cold.variance, float)[j], ref["variance"], "potential-variance",
                w, rtol=2e-4, atol=1e-5, scale=0.05 * ref["varscale"])
        u.close(ctx, onp.asarray(cold.potential, float)[j], ref["value"], "potential", w,
                rtol=2e-4, atol=1e-4, scale=ref["vscale"])
    temps = 1 / tc - 1 / th
    uc, uh = onp.asarray(cold.potential, float), onp.asarray(hot.potential, float)
    log_s = temps * (uc - uh - temps * ssq / (1.0 if F is None else F))
    tol = abs(temps) * 1e-5 * (onp.abs(uc) + onp.abs(uh) + abs(temps) * ssq) + 1e-5
    ctx.check(onp.all(swapped[log_s > tol]), "certain-swap",
              f"{w}: exchange with probability one did not happen")
    # A uniform number in single precision is zero once in 2 ** 23 draws
    impossible += int(onp.sum(swapped[log_s < -40]))
    ctx.check(impossible <= 2, "impossible-swap",
              f"{w}: exchange with probability zero happened")
    p = onp.exp(onp.minimum(log_s, 0))
    resid.append(swapped - p)
    probs.append(p)
    ctx.count("swaps", swapped.sum())
    ctx.count("kept", n - swapped.sum())
    state = new
  resid, probs = onp.asarray(resid), onp.asarray(probs)
  var = probs * (1 - probs)
  for lo, hi in ((0, 1), (0, .2), (.2, .5), (.5, .8), (.8, 1)):
    mask = (probs >= lo) & (probs < hi)
    sd = onp.sqrt(var[mask].sum())
    if sd > 3:
      z = resid[mask].sum() / sd
      ctx.check(abs(z) < 6.5, "swap-frequency",
                f"{what}: exchanges with probability {lo}-{hi} deviate, z = {z}")
  for key, prod, sd in (
      ("chains", resid[:, 1:] * resid[:, :-1], var[:, 1:] * var[:, :-1]),
      ("updates", resid[1:] * resid[:-1], var[1:] * var[:-1])):
    if onp.sqrt(sd.sum()) > 3:
      z = prod.sum() / onp.sqrt(sd.sum())
      ctx.check(abs(z) < 7, "swap-independence", f"{what}: exchanges of {key} correlated, z = {z}")
  ctx.count("undecided", onp.sum((probs > 0.05) & (probs < 0.95)))
  ctx.state(case["kind"], name, F is None, int(10 * probs.mean()))
  ctx.interesting(onp.any((probs > 0.05) & (probs < 0.95)))
  ctx.sample = {"swap_probability": float(probs.mean()), "T": [tc, th]}


def rare(case, ctx, rng):
  """Exchanges which happen nearly always, or nearly never."""
  from jax_sgmc import solver
  from jax_sgmc.integrator import LangevinState
  n = 100000
  tc = float(onp.float32(u.logu(rng, 0.3, 3.0)))
  th = float(onp.float32(tc * u.logu(rng, 1.2, 20.0)))

  def init(smp, key=None, **kwargs):
    return LangevinState(
      latent_variables=smp, key=key, adapt_state=None, data_state=jnp.int32(0),
      model_state=None, potential=jnp.array(0.0), variance=jnp.array(0.0))

  def update(state, schedule, **kwargs):
    key, split = random.split(state.key)
    v = state.latent_variables
    return state._replace(
      latent_variables={"energy": v["energy"], "n": v["n"] + 1}, key=key,
      potential=v["energy"] * (1.0 + v["n"]), variance=jnp.array(0.0))

  def get(state):
    return {"variables": state.latent_variables, "likelihood": -state.potential}

  init, update, get = solver.parallel_tempering((init, update, get))
  gap = float(onp.float32(1 / onp.float32(tc) - 1 / onp.float32(th)))
  log_s = onp.where(onp.arange(n) % 2, rng.uniform(-11, 0, size=n),
                    -onp.exp(rng.uniform(onp.log(1e-4), 0, size=n)))
  energy = (log_s / gap).astype(onp.float32)
  keys = random.split(random.PRNGKey(int(case["seed"])), n)
  cold_s, hot_s = (make_schedule(jnp.float32(0.1), jnp.float32(t)) for t in (tc, th))

  @jax.jit
  @jax.vmap
  def step(e, key):
    zero = jnp.int32(0)
    state = init({"energy": e, "n": zero}, {"energy": jnp.float32(0), "n": zero}, key=key)
    new, _ = update(state, cold_s, hot_s)
    return get(new)["variables"]["energy"]
  got = onp.asarray(step(jnp.asarray(energy), keys))
  swapped = got == 0
  what = f"T={tc}/{th}"
  if not ctx.check(onp.all(swapped | (got == energy)), "lost-chain", what):
    return
  u.rare_decisions(ctx, onp.exp(gap * energy.astype(float)), swapped, "swap-frequency", what)
  ctx.count("swaps", swapped.sum())
  ctx.count("kept", n - swapped.sum())
  ctx.state("rare", th > 4 * tc)
  ctx.interesting(True)


def decide(ctx, old, cold, hot, new, out, n, w):
  """Requires the new chains to be the proposals; returns who is swapped."""
  def close(a, b, k):
    a, b = (onp.asarray(x, float).reshape(n, -1) for x in (a, b))
    return onp.all((onp.abs(a - b) <= 1e-4 * (1 + onp.abs(b))) | (a != a) & (b != b), axis=1)

  def same(got, want):
    ok = onp.ones(n, bool)
    a, b = tree_util.tree_leaves(got), tree_util.tree_leaves(want)
    if len(a) != len(b):
      return ~ok
    for k, (x, y) in enumerate(zip(a, b)):
      ok &= close(x, y, k)
    return ok
  # The keys identify the chains exactly
  kc, kh = onp.asarray(cold.key), onp.asarray(hot.key)
  n0, n1 = onp.asarray(new[0].key), onp.asarray(new[1].key)
  eq = lambda a, b: onp.all(a == b, axis=-1)
  swapped = eq(n0, kh) & eq(n1, kc)
  kept = eq(n0, kc) & eq(n1, kh)
  if not ctx.check(onp.all(swapped ^ kept), "lost-chain",
                   f"{w}: {onp.sum(~(swapped ^ kept))} pairs lost or duplicated a chain"):
    return None
  first = onp.where(swapped, same(new[0], hot), same(new[0], cold))
  second = onp.where(swapped, same(new[1], cold), same(new[1], hot))
  ctx.check(onp.all(first), "cold-state", f"{w}: state of {onp.sum(~first)} cold chains is incomplete")
  ctx.check(onp.all(second), "hot-state", f"{w}: state of {onp.sum(~second)} hot chains is incomplete")
  u.equal(ctx, out["variables"], new[0].latent_variables, "returned-chain", w)
  u.equal(ctx, out["likelihood"], -onp.asarray(new[0].potential), "returned-chain", w)
  ctx.check(onp.all(onp.any(onp.asarray(new[5]) != onp.asarray(old[5]), axis=-1)), "swap-key", w)
  return swapped


# --- Driver ------------------------------------------------------------------

def driver(case, ctx, rng):
  """Both schedules reach their chain and the result follows the cold chain."""
  from jax_sgmc import scheduler, solver
  from jax_sgmc.integrator import LangevinState
  mode = u.choice(rng, ["always", "never", "random"])
  T = [float(onp.float32(u.logu(rng, 0.5, 3))) for _ in range(2)]
  if T[0] > T[1]:
    T = T[::-1]
  sign = {"always": 1e6, "never": -1e6, "random": 0.0}[mode]

  def init(smp, key=None, **kwargs):
    return LangevinState(
      latent_variables=smp, key=key, adapt_state=None, data_state=jnp.int32(0),
      model_state=None, potential=jnp.array(0.0), variance=jnp.array(0.0))

  def update(state, schedule, **kwargs):
    key, split = random.split(state.key)
    v = state.latent_variables
    new = {"tag": v["tag"], "n": v["n"] + 1, "T": schedule.temperature,
           "eps": schedule.step_size}
    # The current cold chain has the higher potential
    pot = jnp.where(jnp.isclose(schedule.temperature, T[0]), sign, 0.0)
    pot = pot + (random.normal(split) if mode == "random" else 0.0)
    return state._replace(latent_variables=new, key=key, potential=pot,
                          variance=jnp.array(0.0))

  def get(state):
    return {"variables": state.latent_variables, "likelihood": -state.potential}

  tempering = solver.parallel_tempering((init, update, get))
  a, gamma = float(onp.float32(u.logu(rng, 0.01, 1))), 0.4
  hot_a = float(onp.float32(u.logu(rng, 0.01, 1)))
  iterations = int(rng.integers(1, 40))
  burn = int(rng.integers(0, max(iterations, 1)))
  sched = scheduler.init_scheduler(
    step_size=scheduler.polynomial_step_size(a=a, b=1.0, gamma=gamma),
    temperature=scheduler.constant_temperature(T[0]),
    burn_in=scheduler.initial_burn_in(burn), progress_bar=False)
  run_mcmc = solver.mcmc(tempering, sched, strategy="map")
  zero = jnp.float32(0)
  chains = int(rng.integers(1, 4))
  states = [tempering[0]({"tag": jnp.int32(10 * c), "n": jnp.int32(0), "T": zero, "eps": zero},
                         {"tag": jnp.int32(10 * c + 1), "n": jnp.int32(0), "T": zero, "eps": zero},
                         key=random.PRNGKey(int(rng.integers(1 << 30))))
            for c in range(chains)]
  override = {"temperature": {"tau": T[1]}}
  if rng.random() < 0.6:
    override["step_size"] = {"a": hot_a}
    eps_hot = hot_a
  else:
    eps_hot = a
  results = run_mcmc(*states, iterations=iterations, schedulers=[override])
  what = f"driver {mode} T={T} iterations={iterations} burn in={burn} chains={chains}"
  ctx.check(len(results) == chains, "chains", what)
  for c, res in enumerate(results):
    v = {k: onp.asarray(x) for k, x in res["samples"]["variables"].items()}
    count = iterations - burn
    if not ctx.check(res["sample_count"] == count and all(len(x) == count for x in v.values()),
                     "count", f"{what}: {res['sample_count']} samples"):
      return
    its = onp.arange(burn, iterations)
    u.equal(ctx, v["n"], its + 1, "iterations", what)
    tag = v["tag"] - 10 * c
    if not ctx.check(onp.all((tag == 0) | (tag == 1)), "chain-mixed", what):
      return
    if mode == "always":
      u.equal(ctx, tag, (its + 1) % 2, "always-swapped", what)
    elif mode == "never":
      u.equal(ctx, tag, 0 * its, "never-swapped", what)
    # A swapped-in chain has been advanced with the hot schedule
    prev = onp.concatenate([[0 if burn == 0 else -1], tag[:-1]])
    known = prev >= 0
    swapped = tag != prev
    T_want = onp.where(swapped, T[1], T[0])
    u.close(ctx, v["T"][known], T_want[known], "temperature", what, rtol=1e-6)
    base = onp.where(swapped, eps_hot, a) * (1.0 + its) ** -gamma
    u.close(ctx, v["eps"][known], base[known], "step-size", what, rtol=1e-4, atol=0)
    ctx.count("driver_samples", count)
    ctx.count("driver_swaps", swapped[known].sum())
  ctx.state("driver", mode, burn > 0, chains)
  ctx.interesting(iterations > 3)
