"""C21: saved samples are exactly the kept states of the trajectory."""
import json
import os
import shutil
import tempfile
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import random, tree_util

from vlib import util as u

PROPERTY = "C21"
DEVICES = 4
RULE = (
  "The driver runs instrumented samplers, whose state is a hash chain over all "
  "schedules and statistics it was given, with random numbers of iterations and "
  "chains, burn-in, thinning, feedback, sample structures and types, for every "
  "saving backend and execution strategy. A host-side model follows the hash "
  "chain and the schedule and predicts every kept sample bit by bit. Non-trivial: "
  "kept and discarded samples.")
ASSUMPTIONS = [
  "host-side collectors run with the sequential and the parallel strategy",
  "samples consist of numeric and boolean arrays without NaN"]
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 30, "thorough": 360}
TIMEOUT = 150

BACKENDS = ["default", "no_save", "memory", "npz", "json", "hdf5"]


def gen(rng, tier):
  for backend in BACKENDS:
    for strategy in ("map", "vmap", "pmap"):
      if strategy == "vmap" and backend not in ("default", "no_save"):
        continue
      for _ in range(2):
        yield dict(core=True, backend=backend, strategy=strategy, seed=u.seed(rng))
    yield dict(core=True, backend=backend, strategy="map", zero=True, seed=u.seed(rng))
  yield dict(core=True, backend="default", strategy="map", defaults=True, seed=u.seed(rng))
  for backend, strategy in [("default", "map"), ("no_save", "vmap"), ("memory", "map"), ("hdf5", "pmap")]:
    yield dict(core=True, backend=backend, strategy=strategy, long=True, seed=u.seed(rng))
  for _ in range(400 if tier == "quick" else 6000):
    strategy = u.choice(rng, ["map", "vmap", "pmap"])
    backend = u.choice(rng, BACKENDS[:2] if strategy == "vmap" else BACKENDS)
    yield dict(backend=backend, strategy=strategy, seed=u.seed(rng))


MUL, ADD = 1664525, 1013904223
LEAF_TYPES = ["float32", "int32", "uint8", "bool", "float16", "int16"]


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  folder = tempfile.mkdtemp(prefix="verif_c21_")
  try:
    part = defaults if case.get("defaults") else long if case.get("long") else driver
    part(case, ctx, rng, folder)
  finally:
    shutil.rmtree(folder, ignore_errors=True)


class Sampler:
  """Solver triple with a predictable trajectory."""

  def __init__(self, rng, feedback):
    self.spec = u.tree_spec(rng, depth=3, max_leaves=5, max_rank=3, max_dim=3)
    self.feedback = feedback
    self.types = None
    self.keys = [rng.integers(1 << 30) for _ in range(64)]
    self.dts = [u.choice(rng, LEAF_TYPES) for _ in range(64)]
    self.named = bool(rng.random() < 0.3)
    self.helper = int(u.choice(rng, [0, 0, 0, 1, 1, 2]))

  def sample_of(self, h, xp, n):
    """Sample tree of the hash value, leaf by leaf."""
    count = [0]

    def leaf(shape):
      k = count[0]
      count[0] += 1
      size = int(onp.prod(shape))
      dt = self.dts[k]
      base = xp.arange(size, dtype=xp.uint32) * xp.uint32(2654435761 % 2**32) + xp.uint32(self.keys[k])
      v = (base ^ h) % xp.uint32(251)
      if dt == "bool":
        v = v % xp.uint32(2) == 1
      elif dt.startswith("float"):
        v = v.astype(dt) / xp.asarray(8, dt)
      else:
        v = v.astype(dt)
      return xp.reshape(v, shape)
    tree = u.build_tree(self.spec, leaf)
    return {"variables": tree, "hash": h, "n": n, "empty": None}

  def triple(self):
    def init(seed):
      return {"h": jnp.uint32(seed), "n": jnp.int32(0), "stat": jnp.float32(0)}

    def update(state, schedule, *more):
      h = state["h"] * jnp.uint32(MUL) + jnp.uint32(ADD)
      h = h ^ jax.lax.bitcast_convert_type(schedule.step_size.astype(jnp.float32), jnp.uint32)
      h = h * jnp.uint32(MUL) ^ jax.lax.bitcast_convert_type(
        schedule.temperature.astype(jnp.float32), jnp.uint32)
      for s in more:
        h = h * jnp.uint32(MUL) ^ jax.lax.bitcast_convert_type(
          s.temperature.astype(jnp.float32), jnp.uint32)
        h = h * jnp.uint32(MUL) ^ jax.lax.bitcast_convert_type(
          s.burn_in.astype(jnp.float32), jnp.uint32)
      stat = ((h >> 8) % jnp.uint32(1024)).astype(jnp.float32) / 1024
      new = {"h": h, "n": state["n"] + 1, "stat": stat}
      if self.feedback is None:
        return new, None
      return new, {"acceptance_ratio": stat}

    def get(state):
      return self.sample_of(state["h"], jnp, state["n"])
    return init, update, get


def bits(v):
  return onp.asarray(v, onp.float32).reshape(1).view(onp.uint32)[0]


def advance(h, step, temp, helpers):
  with onp.errstate(over="ignore"):
    h = onp.uint32(h) * onp.uint32(MUL) + onp.uint32(ADD)
    h = h ^ bits(step)
    for t in (temp,) + tuple(helpers):
      h = onp.uint32(h * onp.uint32(MUL)) ^ bits(t)
  return onp.uint32(h)


def feedback_step(e0):
  """Step size whose value follows the last statistics."""
  from jax_sgmc.scheduler import specific_scheduler

  def init(iterations, scale=1.0):
    return jnp.float32(e0), jnp.float32(0.0)

  def update(state, iteration, acceptance_ratio=-1.0, **kwargs):
    _, total = state
    return jnp.float32(acceptance_ratio), total + acceptance_ratio

  def get(state, iteration, **kwargs):
    return state[0] + 2.0 * state[1]
  return specific_scheduler(init, update, get)


def driver(case, ctx, rng, folder):
  from jax_sgmc import scheduler, solver
  from jax_sgmc.scheduler import specific_scheduler
  backend, strategy = case["backend"], case["strategy"]
  feedback = True if rng.random() < 0.6 else None
  s = Sampler(rng, feedback)
  e0 = 0.5
  step = feedback_step(e0)
  temps = [float(onp.float32(rng.uniform(0.1, 4))) for _ in range(1 + s.helper)]
  burn = int(rng.integers(0, 12)) if rng.random() < 0.7 else 0
  mode = u.choice(rng, ["none", "mask", "random"])
  if case.get("zero"):
    # All iterations belong to the burn in
    burn, mode = max(burn, 1), "none"
  masks = {}

  def mask_of(iterations):
    if iterations not in masks:
      m = onp.random.default_rng([case["seed"], iterations]).random(iterations) < 0.5
      masks[iterations] = m
    return masks[iterations]

  thinning = None
  if mode == "mask":
    thinning = specific_scheduler(
      lambda iterations: (jnp.asarray(mask_of(iterations)),
                          int(mask_of(iterations)[min(burn, iterations):].sum())),
      lambda state, iteration, **kw: state,
      lambda state, iteration, **kw: state[iteration])
  elif mode == "random":
    selections = int(rng.integers(1, 5))
    burn = min(burn, 8)
    thinning = scheduler.random_thinning(
      scheduler.polynomial_step_size(a=1.0, b=1.0, gamma=0.3),
      scheduler.initial_burn_in(burn), selections=selections,
      key=random.PRNGKey(int(rng.integers(1 << 30))))
  progress = bool(rng.random() < 0.3)
  sched = scheduler.init_scheduler(
    step_size=step, temperature=scheduler.constant_temperature(temps[0]),
    burn_in=scheduler.initial_burn_in(burn), thinning=thinning,
    progress_bar=progress)
  triple = s.triple()
  kwargs = {}
  saving, collector, file = make_saving(backend, folder, rng)
  if saving is not None:
    kwargs["saving"] = saving
  run_mcmc = solver.mcmc(triple, sched, strategy=strategy, **kwargs)
  runs = int(rng.integers(1, 3))
  chain_id = 0
  for r in range(runs):
    chains = int(rng.integers(1, 5))
    iterations = int(rng.integers(max(1, burn + (6 if mode == "random" else 0)), burn + 40))
    if case.get("zero"):
      iterations = burn
    seeds = [int(v) for v in rng.integers(1, 1 << 31, size=chains)]
    more = {}
    # Only the main schedule decides which samples are kept
    ends = [int(rng.integers(0, iterations + 1)) if rng.random() < 0.7 else None for _ in temps[1:]]
    if s.helper:
      more["schedulers"] = [
        dict({"temperature": {"tau": t}}, **({} if end is None else {"burn_in": {"n": end}}))
        for t, end in zip(temps[1:], ends)]
    helpers = [(t, burn if end is None else end) for t, end in zip(temps[1:], ends)]
    states = [triple[0](v) for v in seeds]
    with silent():
      results = run_mcmc(*states, iterations=iterations, **more)
    what = (f"{backend}/{strategy} run {r} chains={chains} iterations={iterations} burn in={burn} "
            f"thinning={mode} feedback={feedback} helpers={helpers}")
    if not ctx.check(isinstance(results, list) and len(results) == chains, "chain-count", what):
      return
    if mode == "random":
      keep = random_keep(ctx, sched, burn, iterations, selections, what)
    else:
      mask = mask_of(iterations) if mode == "mask" else onp.ones(iterations, bool)
      keep = mask & (onp.arange(iterations) >= burn)
    for c in range(chains):
      w = f"{what} chain {c}"
      want = expected(s, seeds[c], iterations, keep, e0, temps[0], helpers, feedback)
      n = int(keep.sum())
      ctx.check(int(results[c]["sample_count"]) == n, "sample-count",
                f"{w}: {results[c]['sample_count']} instead of {n}")
      got = read(ctx, backend, folder, file, results[c], chain_id, want, n, w)
      chain_id += 1
      if got is None:
        continue
      if not u.same_structure(ctx, got, want, "structure"):
        continue
      # The JSON format knows no types
      u.equal(ctx, got, want, "samples", w, dtype=backend != "json")
      ctx.count("samples", n)
      ctx.count("iterations", iterations)
    ctx.state(backend, strategy, chains, mode, bool(feedback), s.helper, burn > 0)
    ctx.interesting(0 < keep.sum() < iterations)
  if file is not None:
    file.close()
  ctx.sample = {"backend": backend, "strategy": strategy, "runs": runs}


def defaults(case, ctx, rng, folder):
  """The default number of iterations works with every schedule."""
  del case, folder
  from jax_sgmc import scheduler, solver
  step = scheduler.polynomial_step_size_first_last(first=0.1, last=0.01)
  burn = scheduler.initial_burn_in(int(rng.integers(0, 1000)))
  count = int(rng.integers(1, 20))
  thinning = scheduler.random_thinning(step, burn, selections=count)
  sched = scheduler.init_scheduler(step_size=step, burn_in=burn, thinning=thinning, progress_bar=False)
  run_mcmc = solver.mcmc((lambda n: n, lambda s, sch: (s + 1, None), lambda s: {"n": s}), sched)
  result, = run_mcmc(jnp.int32(0))
  n = onp.asarray(result["samples"]["n"])
  ctx.check(n.shape == (count,) and onp.all(onp.diff(n) > 0) and int(result["sample_count"]) == count,
            "sample-count", f"default iterations, {count} selections: {n}")
  ctx.count("samples", count)
  ctx.interesting(True)


def long(case, ctx, rng, folder):
  """More iterations than short integers can count."""
  from jax_sgmc import io, scheduler, solver
  backend, strategy = case["backend"], case["strategy"]
  host = backend in ("memory", "hdf5")
  iterations = int(rng.integers(66000, 70000))
  # The device backends hold all samples
  burn = iterations - 300 if host else int(rng.integers(0, 300))
  sched = scheduler.init_scheduler(
    step_size=scheduler.polynomial_step_size(a=0.1, b=1.0, gamma=0.33),
    burn_in=scheduler.initial_burn_in(burn), progress_bar=False)
  saving, _, file = make_saving(backend, folder, rng)
  kwargs = {} if saving is None else {"saving": saving}
  run_mcmc = solver.mcmc((lambda n: n, lambda s, sch: (s + 1, None), lambda s: {"n": s}),
                         sched, strategy=strategy, **kwargs)
  starts = [0, 1000000]
  results = run_mcmc(*[jnp.int32(s) for s in starts], iterations=iterations)
  for c, s in enumerate(starts):
    want = {"n": onp.arange(s + burn + 1, s + iterations + 1, dtype=onp.int32)}
    n = iterations - burn
    what = f"{backend}/{strategy} iterations={iterations} burn in={burn} chain {c}"
    ctx.check(int(results[c]["sample_count"]) == n, "sample-count",
              f"{what}: {results[c]['sample_count']} instead of {n}")
    got = read(ctx, backend, folder, file, results[c], c, want, n, what)
    if got is not None:
      u.equal(ctx, got, want, "samples", what, dtype=True)
    ctx.count("samples", n)
    ctx.count("iterations", iterations)
  if file is not None:
    file.close()
  ctx.state("long", backend, strategy)
  ctx.interesting()


def silent():
  import contextlib
  import io
  return contextlib.redirect_stdout(io.StringIO())


def make_saving(backend, folder, rng):
  from jax_sgmc import io
  file = None
  if backend == "default":
    return None, None, None
  if backend == "no_save":
    return io.no_save(), None, None
  if backend == "memory":
    collector = io.MemoryCollector()
  elif backend == "npz":
    collector = io.MemoryCollector(save_dir=os.path.join(folder, "npz"))
  elif backend == "json":
    collector = io.JSONCollector(os.path.join(folder, "json"),
                                 write_frequency=int(u.choice(rng, [0, 0, 3])))
  else:
    import h5py
    file = h5py.File(os.path.join(folder, "out.hdf5"), "w")
    collector = io.HDF5Collector(file)
  return io.save(collector), collector, file


def expected(s, seed, iterations, keep, e0, temp, helpers, feedback):
  h, eps, total = onp.uint32(seed), onp.float32(e0), onp.float32(0)
  state0 = onp.float32(e0)
  kept = []
  for k in range(iterations):
    eps = onp.float32(state0 + onp.float32(2.0) * total)
    flags = [v for t, end in helpers for v in (t, float(end <= k))]
    h = advance(h, eps, temp, flags)
    stat = onp.float32(((h >> 8) % 1024) / 1024) if feedback else onp.float32(-1.0)
    state0 = stat
    total = onp.float32(total + stat)
    if keep[k]:
      kept.append(s.sample_of(onp.uint32(h), onp, onp.int32(k + 1)))
  if not kept:
    like = s.sample_of(onp.uint32(1), onp, onp.int32(0))
    return tree_util.tree_map(lambda l: onp.zeros((0,) + onp.shape(l), onp.asarray(l).dtype), like)
  return tree_util.tree_map(lambda *l: onp.stack([onp.asarray(v) for v in l]), *kept)


def random_keep(ctx, sched, burn, iterations, selections, what):
  """The kept iterations follow from the schedule alone."""
  init, nxt, get = sched
  state, _ = init(iterations)
  keep = onp.zeros(iterations, bool)
  step = jax.jit(lambda st: (nxt(st, acceptance_ratio=0.0), get(st)))
  for k in range(iterations):
    state, values = step(state)
    keep[k] = bool(values.accept) and bool(values.burn_in)
  ctx.check(keep.sum() == selections and not keep[:burn].any(), "thinning",
            f"{what}: kept {onp.flatnonzero(keep)}")
  return keep


def read(ctx, backend, folder, file, result, chain_id, want, n, w):
  """Samples from the place where the backend puts them."""
  from jax_sgmc import io
  if backend in ("default", "no_save", "memory"):
    return result["samples"]
  names = ["/".join(k) for k in io.pytree_dict_keys(want)]
  td = tree_util.tree_structure(want)
  if backend == "npz":
    u.equal(ctx, result["samples"], want, "samples", f"{w} returned", dtype=True)
    path = os.path.join(folder, "npz", f"chain_{chain_id}.npz")
    if not ctx.check(os.path.exists(path), "file", f"{w}: no file {os.path.basename(path)}"):
      return None
    with onp.load(path) as z:
      if not ctx.check(sorted(z.files) == sorted(names), "names", lambda: f"{w}: {z.files}"):
        return None
      return tree_util.tree_unflatten(td, [z[k] for k in names])
  if backend == "hdf5":
    base = f"/chain~{chain_id}/"
    if not ctx.check(all(base + k in file for k in names), "names", f"{w}: {list(file)}"):
      return None
    return tree_util.tree_unflatten(td, [file[base + k][()] for k in names])
  path = os.path.join(folder, "json", f"chain_{chain_id}_iteration_{n}.json")
  if n == 0:
    return None
  if not ctx.check(os.path.exists(path), "file",
                   lambda: f"{w}: no file {os.path.basename(path)} in {os.listdir(os.path.dirname(path))}"):
    return None
  with open(path) as f:
    data = json.load(f)
  ls = tree_util.tree_leaves(want)
  if not ctx.check(len(data) == len(ls), "names", f"{w}: {len(data)} leaves"):
    return None
  return tree_util.tree_unflatten(td, [onp.asarray(v).reshape((n,) + l.shape[1:]) if onp.size(v) == l.size
                                       else onp.asarray(v) for v, l in zip(data, ls)])
