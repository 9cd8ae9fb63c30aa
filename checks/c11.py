"""C11: exactly the promised samples are collected."""
import itertools
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, random, tree_util

from vlib import util as u

PROPERTY = "C11"
RULE = (
  "Schedulers with burn-in and random thinning for random iterations, step "
  "size schedules, selections and keys are run to the end in python and in "
  "compiled loops and through the driver, some for more than 65536 "
  "iterations; the kept iterations are compared with the promise. For "
  "small schedules the selections of 20000 keys are compared with the exact "
  "probabilities of drawing without replacement weighted by the step size. "
  "Non-trivial: burn-in and thinning both discard iterations.")
ASSUMPTIONS = [
  "burn-in does not exceed the number of iterations",
  "the burn-in schedule given to the thinning is the one of the run",
  "statistical alarms: p < 1e-9"]
X64 = 0.15  # part of the cases in double precision
DEVICES = 3
BUDGET = {"quick": 45, "thorough": 300}


def gen(rng, tier):
  for i in range(16):
    yield dict(core=True, kind=["run", "law"][i % 2], edge=i < 8, seed=u.seed(rng))
  # Iterations beyond the range of short integers
  for _ in range(3):
    yield dict(core=True, kind="run", edge=False, long=True, seed=u.seed(rng))
  for i in range(6):
    yield dict(core=True, kind="driver", edge=i < 3, strategy=["map", "vmap", "pmap"][i % 3], seed=u.seed(rng))
  for _ in range(500 if tier == "quick" else 8000):
    if rng.random() < 0.1:
      yield dict(kind="driver", edge=bool(rng.random() < 0.2),
                 strategy=u.choice(rng, ["map", "vmap", "pmap"]), seed=u.seed(rng))
      continue
    yield dict(kind="run" if rng.random() < 0.7 else "law",
               edge=bool(rng.random() < 0.2),
               long=bool(rng.random() < 0.03), seed=u.seed(rng))


def step_schedule(rng):
  from jax_sgmc import scheduler
  if rng.random() < 0.5:
    p = dict(a=u.logu(rng, 1e-6, 1.0), b=u.logu(rng, 0.1, 20.0), gamma=float(rng.uniform(0, 2)))
    return scheduler.polynomial_step_size(**p), lambda its: (
      p["a"] * (p["b"] + onp.arange(its)) ** (-p["gamma"]))
  first = u.logu(rng, 1e-5, 1.0)
  last = first / u.logu(rng, 1.1, 50.0 if rng.random() < 0.6 else 1e6)
  g = float(rng.uniform(0.2, 1.5))

  def ref(its):
    if its == 1:
      return onp.asarray([first])
    f, l = first ** (-1 / g), last ** (-1 / g)
    # Accurate for any ratio of first and last
    t = onp.arange(its) / (its - 1)
    return (f * (1 - t) + l * t) ** (-g)
  return scheduler.polynomial_step_size_first_last(first=first, last=last, gamma=g), ref


def kept_of(init, update, get, its, kw, compiled):
  state, static = init(its, **kw)
  if compiled:
    def body(st, _):
      sched = get(st)
      return update(st), sched.burn_in * sched.accept
    keep = jax.jit(lambda s: lax.scan(body, s, None, length=its)[1])(state)
  else:
    keep = []
    for _ in range(its):
      sched = get(state)
      keep.append(float(sched.burn_in * sched.accept))
      state = update(state)
  return onp.asarray(keep, dtype=float), int(static.samples_collected)


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  if case["kind"] == "law":
    law(case, ctx, rng)
  elif case["kind"] == "driver":
    driver(case, ctx, rng)
  else:
    promise(case, ctx, rng)


def driver(case, ctx, rng):
  """Iterations whose samples the driver returns."""
  from jax_sgmc import scheduler
  its = u.randint(rng, 1, 120)
  burn = u.choice(rng, [0, its - 1, its // 2]) if case["edge"] else int(rng.integers(0, its))
  schedule, _ = step_schedule(rng)
  burn_schedule = scheduler.initial_burn_in(burn)
  thin = rng.random() < 0.7
  sel = int(rng.integers(1, its - burn + 1))
  kwargs = dict(step_size=schedule, burn_in=burn_schedule, progress_bar=False)
  if thin:
    kwargs["thinning"] = scheduler.random_thinning(
      schedule, burn_schedule, sel, random.PRNGKey(int(rng.integers(2**31 - 1))))
  sched = scheduler.init_scheduler(**kwargs)
  keep, announced = kept_of(*sched, its, {}, True)
  # The collection follows the first schedule, not the helpers
  helpers = [{"burn_in": {"n": int(rng.integers(0, its))}}] if rng.random() < 0.3 and not thin else []
  chains = int(rng.integers(1, 4))
  for c, (count, n, _) in enumerate(u.driven(sched, its, strategy=case["strategy"], chains=chains,
                                             helpers=helpers)):
    what = f"{case['strategy']} chain {c} its={its} burn-in={burn} thinning={sel if thin else None}"
    want = sel if thin else its - burn
    ctx.check(count == want == announced == len(n), "kept-count",
              f"{what}: {len(n)} samples, count {count}, announced {announced}, promised {want}")
    ctx.check(onp.all(n >= burn), "burn-in-kept", f"{what}: {u.short(n)}")
    ctx.check(onp.array_equal(n, onp.flatnonzero(keep)), "collected",
              lambda: f"{what}: {u.short(n)} instead of {u.short(onp.flatnonzero(keep))}")
    ctx.count("iterations", its)
  ctx.state("driver", case["strategy"], thin, burn == 0, burn == its - 1, bool(helpers))
  ctx.interesting(thin and burn > 0)


def promise(case, ctx, rng):
  from jax_sgmc import scheduler
  edge = case["edge"]
  its = u.randint(rng, 1, 300)
  if case.get("long"):
    its = int(rng.integers(66000, 120000))
  burn = int(rng.integers(0, its))
  if edge:
    burn = u.choice(rng, [0, its - 1, its // 2])
  schedule, _ = step_schedule(rng)
  burn_schedule = scheduler.initial_burn_in(burn)
  thin = rng.random() < 0.75
  sel = int(rng.integers(1, its - burn + 1))
  if edge:
    sel = u.choice(rng, [1, its - burn])
  kwargs = dict(step_size=schedule, burn_in=burn_schedule, progress_bar=False)
  if burn == 0 and rng.random() < 0.5:
    del kwargs["burn_in"]
  key = random.PRNGKey(int(rng.integers(2**31 - 1)))
  use_key = rng.random() < 0.8
  if thin:
    tkw = dict(key=key) if use_key else {}
    kwargs["thinning"] = scheduler.random_thinning(schedule, burn_schedule, sel, **tkw)
  init, update, get = scheduler.init_scheduler(**kwargs)

  def verify(keep, announced, sel, burn, what):
    its = len(keep)
    ctx.count("iterations", its)
    ctx.check(onp.all((keep == 0) | (keep == 1)), "indicator", f"{what}: {u.short(keep)}")
    it = onp.flatnonzero(keep)
    ctx.check(onp.all(it >= burn), "burn-in-kept",
              f"{what}: iterations {it[it < burn]} before the end of the burn-in {burn} are kept")
    want = sel if sel is not None else its - burn
    ctx.check(len(it) == want, "kept-count",
              f"{what}: {len(it)} iterations kept instead of {want} (its={its}, burn-in={burn})")
    if sel is None:
      ctx.check(onp.array_equal(it, onp.arange(burn, its)), "all-kept", f"{what}: {u.short(it)}")
    ctx.check(announced == len(it), "announced",
              f"{what}: announced {announced} samples, kept {len(it)}")
    return it.tolist()

  small = its <= 25
  base = None
  for compiled in ([True, False] if small else [True, True]):
    keep, announced = kept_of(init, update, get, its, {}, compiled)
    it = verify(keep, announced, sel if thin else None, burn,
                "compiled" if compiled else "python")
    if base is not None:
      ctx.check(it == base, "reproducible", f"{it} instead of {base}")
    base = it
  # Overrides at initialization of a chain
  if thin:
    key2 = random.PRNGKey(int(rng.integers(2**31 - 1)))
    keep, announced = kept_of(init, update, get, its, {"thinning": {"key": key2}}, True)
    other = verify(keep, announced, sel, burn, "other key")
    again = scheduler.random_thinning(schedule, burn_schedule, sel, key2)
    i2, u2, g2 = scheduler.init_scheduler(**dict(kwargs, thinning=again))
    keep, announced = kept_of(i2, u2, g2, its, {}, True)
    ctx.check(verify(keep, announced, sel, burn, "same key") == other, "reproducible",
              "the override of the key does not reproduce the selection")
    avail = its - burn
    from math import comb
    if comb(avail, sel) > 10**15:
      ctx.check(other != base, "key-unused", f"different keys select the same {sel} of {avail}")
    sel2 = int(rng.integers(1, avail + 1))
    keep, announced = kept_of(init, update, get, its, {"thinning": {"selections": sel2}}, True)
    verify(keep, announced, sel2, burn, "other number of selections")
    # Both schedules of the chain use another burn-in
    burn2 = int(rng.integers(0, its - sel + 1))
    if "burn_in" in kwargs:
      keep, announced = kept_of(init, update, get, its, {
        "burn_in": {"n": burn2},
        "thinning": {"burn_in_schedule": scheduler.initial_burn_in(burn2)}}, True)
      verify(keep, announced, sel, burn2, "other burn-in")
    # More selections than iterations are refused
    raised = False
    try:
      init(its, thinning={"selections": avail + 1})
    except Exception:  # pylint: disable=broad-except
      raised = True
    ctx.check(raised, "impossible-selection",
              f"{avail + 1} selections of {avail} iterations were promised")
  elif "burn_in" in kwargs:
    burn2 = int(rng.integers(0, its + 1))
    keep, announced = kept_of(init, update, get, its, {"burn_in": {"n": burn2}}, True)
    verify(keep, announced, None, burn2, "other burn-in")
  # Another run of a different length with the same scheduler
  its3 = its + int(rng.integers(1, 40))
  keep, announced = kept_of(init, update, get, its3, {}, True)
  verify(keep, announced, sel if thin else None, burn, "longer run")
  ctx.state(thin, use_key, burn == 0, burn == its - 1, sel == its - burn, its < 3)
  ctx.interesting(thin and burn > 0)
  ctx.sample = {"iterations": its, "burn_in": burn, "kept": base[:10], "of": len(base)}


def law(case, ctx, rng):
  """Selection probabilities of many keys."""
  from jax_sgmc import scheduler
  its = int(rng.integers(2, 9))
  burn = int(rng.integers(0, its - 1))
  sel = 1 if rng.random() < 0.4 else int(rng.integers(1, its - burn + 1))
  schedule, ref = step_schedule(rng)
  thinning = scheduler.random_thinning(
    schedule, scheduler.initial_burn_in(burn), sel, random.PRNGKey(0))
  m = 20000
  keys = random.split(random.PRNGKey(int(case["seed"])), m)

  def accepted(key):
    state, count = thinning.init(its, key=key)
    return jax.vmap(lambda i: thinning.get(state, i))(jnp.arange(its))
  try:
    acc = onp.asarray(jax.vmap(accepted)(keys)).astype(int)
  except (jax.errors.ConcretizationTypeError, jax.errors.TracerArrayConversionError):
    # Initialization is not necessarily vectorizable
    m = 800
    acc = onp.stack([onp.asarray(accepted(k)) for k in keys[:m]]).astype(int)
  ctx.count("selections", m)
  ctx.check(onp.all(acc.sum(1) == sel), "kept-count",
            f"{onp.unique(acc.sum(1))} distinct iterations instead of {sel}")
  ctx.check(onp.all(acc[:, :burn] == 0), "burn-in-kept", "iterations of the burn-in selected")
  w = ref(its)
  w[:burn] = 0
  w = w / w.sum()
  # Exact probability of each subset when drawing without replacement
  prob = {}
  live = range(burn, its)
  for order in itertools.permutations(live, sel):
    p, rest = 1.0, 1.0
    for i in order:
      p *= w[i] / rest
      rest -= w[i]
      if rest < 1e-12:
        rest = 1e-12
    key = frozenset(order)
    prob[key] = prob.get(key, 0.0) + p
  incl = onp.zeros(its)
  for s, p in prob.items():
    for i in s:
      incl[i] += p
  freq = acc.mean(0)
  z = (freq - incl) / onp.sqrt(onp.maximum(incl * (1 - incl), 1e-6) / m)
  ctx.check(onp.all(onp.abs(z) < 6.8), "weighted-selection",
            lambda: f"{sel} of {its} (burn-in {burn}): frequencies {u.short(freq)} "
                    f"instead of {u.short(incl)} (z = {u.short(z)})")
  # Joint frequencies of the subsets
  codes = acc @ (1 << onp.arange(its))
  stat, dof = 0.0, -1
  for s, p in prob.items():
    code = sum(1 << i for i in s)
    if p * m >= 10:
      stat += (onp.sum(codes == code) - p * m) ** 2 / (p * m)
      dof += 1
  if dof >= 1:
    from scipy import stats
    pval = stats.chi2.sf(stat, dof + 1)
    ctx.check(pval > 1e-9, "weighted-selection",
              f"{sel} of {its}: joint selection frequencies are wrong (p = {pval})")
  ctx.state("law", its, burn, sel)
  ctx.interesting(burn > 0 and sel < its - burn)
  ctx.sample = {"frequencies": freq.round(4).tolist(), "expected": incl.round(4).tolist()}
