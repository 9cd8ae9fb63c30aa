"""C22: runs are deterministic and independent of presentation options."""
import contextlib
import io as pyio
import json
import os
import random as pyrandom
import re
import subprocess
import sys
import tempfile
import threading
import warnings

if __name__ == "__main__":
  sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import numpy as onp

import jax
import jax.numpy as jnp
from jax import random, tree_util

from vlib import util as u

PROPERTY = "C22"
RULE = (
  "Kind pair: every ready-made sampler runs twice with random options; the second "
  "run gets a disturbed environment (consumed global random states, other samplers "
  "in between, another process with another hash seed) and must agree bit by bit. "
  "Further runs differ only in progress bar, place of the samples and cache size. "
  "Kind state: the driver runs repeatedly from the same initial states with "
  "different device data loaders, strategies and backends. Kind bar: the printed "
  "progress is parsed and compared with the samples which the same run returned. "
  "Non-trivial: at least two compared runs, or a bar which shows several counts.")
ASSUMPTIONS = [
  "runs with other options compile to other programs, hence agree up to rounding; a "
  "difference is reported if it exists for three independent configurations",
  "reference data is served by the NumPy loaders"]
DEVICES = 4
BUDGET = {"quick": 34, "thorough": 420}
TIMEOUT = 200

ALL = ["sgld", "rms", "re_sgld", "sghmc", "noise", "obabo", "amagold", "sggmc", "adaptive"]


def gen(rng, tier):
  for name in ALL:
    yield dict(core=True, kind="pair", sampler=name, seed=u.seed(rng))
  for name in ("sgld", "sghmc", "sggmc"):
    yield dict(core=True, kind="fresh", sampler=name, seed=u.seed(rng))
  for loader in ("device", "host"):
    yield dict(core=True, kind="state", loader=loader, seed=u.seed(rng))
  for thinning in ("none", "random", "stateful"):
    for strategy in ("map", "vmap", "pmap"):
      yield dict(core=True, kind="bar", thinning=thinning, strategy=strategy, seed=u.seed(rng))
  for _ in range(200 if tier == "quick" else 4000):
    r = rng.random()
    if r < 0.45:
      yield dict(kind="pair", sampler=u.choice(rng, ALL), seed=u.seed(rng))
    elif r < 0.55:
      yield dict(kind="fresh", sampler=u.choice(rng, ALL), seed=u.seed(rng))
    elif r < 0.7:
      yield dict(kind="state", loader=u.choice(rng, ["device", "host"]), seed=u.seed(rng))
    else:
      yield dict(kind="bar", thinning=u.choice(rng, ["none", "random", "stateful"]), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  {"pair": pair, "fresh": fresh, "state": state, "bar": bar}[case["kind"]](case, ctx, rng)


def captured(fn):
  """Result and everything printed."""
  out = pyio.StringIO()
  with contextlib.redirect_stdout(out):
    result = fn()
    result = jax.block_until_ready(result)
    jax.effects_barrier()
    from jax.experimental import host_callback as hcb
    hcb.barrier_wait()
  return result, out.getvalue()


LINE = re.compile(r"\[Step (-?\d+)/(-?\d+)\]\((-?\d+)%\) Collected (-?\d+) of (-?\d+) samples")


def build(name, seed, **change):
  """Fresh sampler and arguments of the configuration given by the seed."""
  from jax_sgmc import alias, potential
  from jax_sgmc.data import numpy_loader
  rng = onp.random.default_rng(seed)
  d, N = int(rng.integers(1, 6)), int(rng.integers(4, 40))
  device = bool(rng.random() < 0.3)
  X = rng.normal(size=(N, d)).astype(onp.float32)
  y = rng.normal(size=N).astype(onp.float32)
  cls = numpy_loader.DeviceNumpyDataLoader if device else numpy_loader.NumpyDataLoader
  loader = cls(x=X, y=y)

  def ll(sample, obs):
    return -0.5 * jnp.sum((obs["y"] - jnp.dot(obs["x"], sample["w"]) - sample["b"]) ** 2)

  def prior(sample):
    return -0.5 * (jnp.sum(sample["w"] ** 2) + sample["b"] ** 2)
  pot = potential.minibatch_potential(prior, ll, strategy=u.choice(rng, ["map", "vmap"]))
  full = potential.full_potential(prior, ll, strategy=u.choice(rng, ["map", "vmap"]))
  iterations = int(rng.integers(5, 60))
  burn = int(rng.integers(0, iterations // 2))
  accepted = int(rng.integers(2, iterations - burn + 1))
  batch = int(rng.integers(2, N + 1))
  chains = int(rng.integers(1, 4))
  h = float(rng.uniform(0.05, 0.3)) / (N + 1)
  if name in ("amagold", "sggmc", "adaptive", "obabo", "sghmc", "noise"):
    h = float(rng.uniform(0.1, 0.4)) / onp.sqrt(N + 1)
  kw = dict(cache_size=int(u.choice(rng, [1, 2, 7, 30])), batch_size=batch, burn_in=burn,
            first_step_size=h, progress_bar=False, save_to_numpy=bool(rng.random() < 0.5))
  if name != "adaptive":
    kw.update(last_step_size=h * float(rng.uniform(0.3, 1)), accepted_samples=accepted)
  else:
    accepted = iterations - burn
    kw.update(adaptive_step_size=True, stabilization_constant=20, speed_constant=2.0,
              target_acceptance_rate=0.6)
  if name not in ("sgld", "rms", "re_sgld"):
    kw.update(integration_steps=int(rng.integers(1, 5)))
    kw["friction_coefficient" if name in ("sggmc",) else "friction"] = float(rng.uniform(0.5, 2))
    if name in ("adaptive", "amagold"):
      kw["friction"] = float(rng.uniform(0.1, 0.9))
  if name == "rms":
    kw.update(rms_prop=True)
  if name == "re_sgld":
    kw.update(temperature=float(rng.uniform(1, 100)))
  if name == "noise":
    kw.update(adapt_noise_model=True, diagonal_noise=bool(rng.random() < 0.5))
  if device:
    # These loaders do not cache
    kw["cache_size"] = 1
    change.pop("cache_size", None)
  kw.update(change)
  fn = {"rms": "sgld", "noise": "sghmc", "adaptive": "amagold"}.get(name, name)
  args = (pot, full, loader) if fn in ("amagold", "sggmc") else (pot, loader)
  sampler = getattr(alias, fn)(*args, **kw)
  point = lambda: {"w": jnp.asarray(rng.normal(size=d), jnp.float32),
                   "b": jnp.asarray(rng.normal(), jnp.float32)}
  starts = [(point(), point()) if name == "re_sgld" else point() for _ in range(chains)]

  def go():
    return [{"count": int(r["sample_count"]), "samples": tree_util.tree_map(onp.array, r["samples"])}
            for r in sampler(*starts, iterations=iterations)]
  return go, dict(iterations=iterations, burn=burn, accepted=accepted, kw=kw, device=device,
                  chains=chains)


def disturb(rng):
  """State which must not leak into the runs."""
  onp.random.seed(int(rng.integers(1 << 30)))
  onp.random.random(int(rng.integers(1, 20)))
  pyrandom.seed(int(rng.integers(1 << 30)))
  random.normal(random.PRNGKey(int(rng.integers(1 << 30))), (3,))


def bitwise(ctx, a, b, key, what):
  if not ctx.check(len(a) == len(b), key, f"{what}: {len(a)} and {len(b)} chains"):
    return
  for c, (x, y) in enumerate(zip(a, b)):
    if u.same_structure(ctx, y, x, key):
      u.equal(ctx, y, x, key, f"{what} chain {c}", dtype=True)


def differs(a, b, tol=2e-3):
  """Largest difference beyond rounding, None if there is none."""
  if len(a) != len(b):
    return "number of chains"
  for c, (x, y) in enumerate(zip(a, b)):
    if x["count"] != y["count"]:
      return f"chain {c}: {x['count']} and {y['count']} samples"
    lx, tx = tree_util.tree_flatten(x["samples"])
    ly, ty = tree_util.tree_flatten(y["samples"])
    if tx != ty:
      return f"chain {c}: {tx} and {ty}"
    for p, q in zip(lx, ly):
      if p.shape != q.shape or p.dtype != q.dtype:
        return f"chain {c}: {p.shape} {p.dtype} and {q.shape} {q.dtype}"
      if p.size:
        scale = 1.0 + onp.max(onp.abs(p))
        err = onp.max(onp.abs(p - q)) / scale if onp.all(onp.isfinite(p) == onp.isfinite(q)) else onp.inf
        if not err < tol and not onp.array_equal(p, q, equal_nan=True):
          return f"chain {c}: relative difference {err}"
  return None


def pair(case, ctx, rng):
  name = case["sampler"]
  seed = int(rng.integers(1 << 40))
  go, info = build(name, seed)
  what = f"{name} {info}"
  base, out = captured(go)
  ctx.check("[Step" not in out, "silent", f"{what}: printed {out[:100]!r}")
  for c, r in enumerate(base):
    ctx.check(r["count"] == info["accepted"], "sample-count", f"{what} chain {c}: {r['count']}")
    ctx.count("samples", r["count"])
  moved = any(onp.ptp(l) > 0 for r in base for l in tree_util.tree_leaves(r["samples"]) if l.size)
  # Repeat in a disturbed environment
  disturb(rng)
  again, _ = build(name, seed)
  if rng.random() < 0.5:
    other, _ = build(u.choice(rng, ALL), int(rng.integers(1 << 40)))
    captured(other)
  bitwise(ctx, base, captured(again)[0], "repeat", what)
  ctx.count("compared_runs")
  # Presentation
  changes = {
    "progress-bar": dict(progress_bar=True),
    "save-to-numpy": dict(save_to_numpy=not info["kw"]["save_to_numpy"]),
    "cache-size": dict(cache_size=int(u.choice(rng, [1, 3, 5, 11, 64])))}
  for key, change in changes.items():
    if not case.get("core") and rng.random() < 0.3:
      continue
    for attempt in range(3):
      s = seed + attempt
      if attempt:
        base, _ = captured(build(name, s)[0])
      go, info = build(name, s, **change)
      alt, out = captured(go)
      ctx.count("compared_runs")
      if key == "progress-bar" and name != "re_sgld":
        check_lines(ctx, out, info["iterations"], None, info["accepted"], info["chains"],
                    f"{name} {info}")
      diff = differs(base, alt)
      if diff is None:
        break
      ctx.count("suspicious")
    ctx.check(diff is None, key, f"{what} with {change}: {diff}")
    if attempt:
      base, _ = captured(build(name, seed)[0])
  ctx.state(name, info["device"], info["chains"], info["kw"]["cache_size"], info["kw"]["save_to_numpy"])
  ctx.interesting(moved)
  ctx.sample = {"sampler": name, "iterations": info["iterations"], "chains": info["chains"]}


def fresh(case, ctx, rng):
  """The same run in another process."""
  name = case["sampler"]
  seed = int(rng.integers(1 << 40))
  disturb(rng)
  captured(build(u.choice(rng, ALL), int(rng.integers(1 << 40)))[0])
  go, info = build(name, seed)
  here, _ = captured(go)
  fd, path = tempfile.mkstemp(prefix="verif_c22_", suffix=".npz")
  os.close(fd)
  try:
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 1 << 30))))
    p = subprocess.run([sys.executable, os.path.abspath(__file__), name, str(seed), path],
                       env=env, capture_output=True, text=True, timeout=150, check=False)
    if p.returncode != 0:
      key = "fresh-process" if "/jax_sgmc/" in p.stderr else None
      if key is None:
        raise RuntimeError(f"subprocess: {p.stderr[-1500:]}")
      ctx.violate(key, f"{name} {info}: {p.stderr[-600:]}")
      return
    with onp.load(path) as z:
      there = {k: z[k] for k in z.files}
  finally:
    os.remove(path)
  mine = flat_results(here)
  what = f"{name} {info}"
  ctx.check(sorted(mine) == sorted(there), "fresh-process", f"{what}: {sorted(there)}")
  for k in mine:
    if k in there:
      u.equal(ctx, there[k], mine[k], "fresh-process", f"{what} {k}", dtype=True)
  ctx.count("compared_runs")
  ctx.count("processes")
  ctx.state("fresh", name, info["device"])
  ctx.interesting(True)


def flat_results(results):
  out = {"chains": onp.asarray(len(results))}
  for c, r in enumerate(results):
    out[f"{c}/count"] = onp.asarray(r["count"])
    for k, l in enumerate(tree_util.tree_leaves(r["samples"])):
      out[f"{c}/{k}"] = l
  return out


def state(case, ctx, rng):
  """The driver starts repeatedly from the same states."""
  from jax_sgmc import data, integrator, io, potential, scheduler, solver
  from jax_sgmc.data import numpy_loader
  device = case["loader"] == "device"
  N, d = int(rng.integers(3, 30)), int(rng.integers(1, 5))
  X = rng.normal(size=(N, d)).astype(onp.float32)
  chains = int(rng.integers(1, 4))
  mb = int(rng.integers(1, N + 1))
  iterations = int(rng.integers(3, 40))
  cache = 1 if device else int(rng.integers(1, 9))
  strategy = u.choice(rng, ["map", "vmap"]) if device else "map"
  pot = potential.minibatch_potential(
    lambda s: -0.5 * jnp.sum(s["w"] ** 2),
    lambda s, o: -0.5 * jnp.sum((o["x"] - s["w"]) ** 2))
  loader_kw = u.choice(rng, [{}, {"shuffle": True}]) if not device else {}
  keys = [int(k) for k in rng.integers(1 << 30, size=chains)]
  seeds = [int(k) for k in rng.integers(1 << 30, size=chains)]
  h = float(rng.uniform(0.05, 0.3)) / (N + 1)

  def make():
    cls = numpy_loader.DeviceNumpyDataLoader if device else numpy_loader.NumpyDataLoader
    loader = cls(x=X)
    batch_fn = data.random_reference_data(loader, cache, mb)
    integ = integrator.langevin_diffusion(pot, batch_fn)
    solve = solver.sgmc(integ)
    sched = scheduler.init_scheduler(
      step_size=scheduler.polynomial_step_size_first_last(first=h, last=h / 2), progress_bar=False)
    saving = None if device else io.save(io.MemoryCollector())
    mcmc = solver.mcmc(solve, sched, strategy=strategy, saving=saving)
    states = []
    for k, s in zip(keys, seeds):
      bkw = dict(loader_kw)
      bkw["key" if device else "seed"] = random.PRNGKey(s) if device else s
      states.append(solve[0]({"w": jnp.ones(d)}, key=random.PRNGKey(k), batch_kwargs=bkw))
    return lambda: [{"count": int(r["sample_count"]), "samples": tree_util.tree_map(onp.array, r["samples"])}
                    for r in mcmc(*states, iterations=iterations)]
  what = f"{case['loader']} loader {strategy} chains={chains} iterations={iterations} mb={mb} cache={cache} {loader_kw}"
  go = make()
  first, _ = captured(go)
  if device:
    # No hidden state in the driver or the loader
    for k in range(2):
      disturb(rng)
      bitwise(ctx, first, captured(go)[0], "same-state", f"{what} repetition {k}")
      ctx.count("compared_runs")
  disturb(rng)
  bitwise(ctx, first, captured(make())[0], "repeat", what)
  ctx.count("compared_runs")
  # Different seeds matter
  for c in range(1, chains):
    if keys[c] != keys[0]:
      ctx.check(not onp.array_equal(first[c]["samples"]["variables"]["w"],
                                    first[0]["samples"]["variables"]["w"]), "seed-used",
                f"{what}: chains 0 and {c} are equal")
  ctx.count("samples", sum(r["count"] for r in first))
  ctx.state("state", device, strategy, chains, bool(loader_kw))
  ctx.interesting(True)


def check_lines(ctx, out, iterations, kept, total, chains, what, strategy="map"):
  """Every printed line must be true."""
  lines = [tuple(int(v) for v in m.groups()) for m in LINE.finditer(out)]
  if strategy != "map":
    # The lines of chains which run at the same time are mixed
    lines = sorted(lines)
    lines = [line for c in range(chains) for line in lines[c::chains]]
  if not ctx.check(len(lines) >= chains, "progress-shown", f"{what}: {len(lines)} lines, {out[:200]!r}"):
    return 0
  ctx.check(out.count("[Step") == len(lines), "progress-format", f"{what}: {out[:200]!r}")
  last, chain = -1, -1
  counts = set()
  for i, n, percent, c, t in lines:
    if i <= last or chain < 0:
      chain += 1
      floor = 0
      if not ctx.check(chain < chains, "progress-iteration", f"{what}: iteration {i} after {last}"):
        return 0
    last = i
    ctx.check(n == iterations and 0 <= i < iterations, "progress-iteration", f"{what}: step {i}/{n}")
    ctx.check(abs(percent - 100.0 * i / iterations) <= 1.01, "progress-percentage",
              f"{what}: step {i}/{n} is {percent} %")
    ctx.check(t == total, "progress-total", f"{what}: {t} samples instead of {total}")
    if kept is None:
      ctx.check(floor <= c <= min(i + 1, total), "progress-collected", f"{what}: step {i} collected {c}")
    else:
      true = sum(1 for k in kept[chain] if k <= i)
      ctx.check(c == true, "progress-collected", f"{what}: step {i} collected {c} instead of {true}")
    floor = c
    counts.add(c)
    ctx.count("progress_lines")
  ctx.check(chain == chains - 1, "progress-shown", f"{what}: bars of {chain + 1} chains")
  return len(counts)


def bar(case, ctx, rng):
  from jax_sgmc import io, scheduler, solver
  from jax_sgmc.scheduler import specific_scheduler
  iterations = int(u.choice(rng, [1, 2, 7, 19, 20, 21, 40])) if rng.random() < 0.3 else int(rng.integers(20, 300))
  mode = case["thinning"]
  burn = int(rng.integers(0, iterations)) if rng.random() < 0.7 else 0
  steps = u.choice(rng, [None, 1, 3, 20, 50])
  chains = int(rng.integers(1, 4))
  step_size = scheduler.polynomial_step_size_first_last(first=0.1, last=0.01)
  burn_in = scheduler.initial_burn_in(burn)
  total = iterations - burn
  thinning = None
  if mode == "random":
    total = int(rng.integers(1, iterations - burn + 1))
    thinning = scheduler.random_thinning(step_size, burn_in, selections=total)
  elif mode == "stateful":
    # Keeps a sample after a growing number of iterations
    first = int(rng.integers(0, 5))
    growth = int(rng.integers(1, 4))

    def accepted_of(n):
      wait, gap, out = first, 1, []
      for k in range(n):
        if wait == 0:
          out.append(k)
          gap += growth
          wait = gap
        else:
          wait -= 1
      return out
    total = sum(1 for k in accepted_of(iterations) if k >= burn)
    thinning = specific_scheduler(
      lambda n: ((jnp.int32(first), jnp.int32(1)), total),
      lambda st, it, **kw: (jnp.where(st[0] == 0, st[1] + growth, st[0] - 1),
                            jnp.where(st[0] == 0, st[1] + growth, st[1])),
      lambda st, it, **kw: st[0] == 0)
  kw = {} if steps is None else {"progress_bar_steps": steps}
  sched = scheduler.init_scheduler(step_size=step_size, burn_in=burn_in, thinning=thinning,
                                   progress_bar=True, **kw)
  stats = {"acceptance_ratio": jnp.float32(0.5)} if rng.random() < 0.5 else None
  saving = io.save(io.MemoryCollector()) if rng.random() < 0.5 else None
  strategy = case.get("strategy") or u.choice(rng, ["map", "map", "vmap", "pmap"])
  explicit = strategy != "map" or rng.random() < 0.5
  if strategy == "vmap":
    saving = None
  run_mcmc = solver.mcmc((lambda n: n, lambda s, sch: (s + 1, stats), lambda s: {"n": s}),
                         sched, saving=saving, **({"strategy": strategy} if explicit else {}))
  what = (f"thinning={mode} iterations={iterations} burn in={burn} steps={steps} chains={chains} "
          f"stats={stats is not None} host={saving is not None} strategy={strategy}")
  for r in range(int(rng.integers(1, 3))):
    results, out = captured(lambda: run_mcmc(*[jnp.int32(0)] * chains, iterations=iterations))
    kept = [[int(n) - 1 for n in onp.asarray(res["samples"]["n"])] for res in results]
    for c, k in enumerate(kept):
      ctx.check(len(k) == total == int(results[c]["sample_count"]), "sample-count", f"{what}: {k}")
    if mode == "stateful":
      for k in kept:
        ctx.check(k == [i for i in accepted_of(iterations) if i >= burn], "kept", f"{what}: {k}")
    n = check_lines(ctx, out, iterations, kept, total, chains, f"{what} run {r}", strategy)
    ctx.count("bars", chains)
    ctx.interesting(n > 1)
  ctx.state("bar", mode, strategy, steps, chains, burn > 0, iterations < 20)


def main():
  name, seed, path = sys.argv[1:]
  warnings.simplefilter("ignore")
  results, _ = captured(build(name, int(seed))[0])
  onp.savez(path, **flat_results(results))


if __name__ == "__main__":
  main()
