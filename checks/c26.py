"""C26: requests which cannot be honoured are refused."""
import os
import shutil
import tempfile
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import random, tree_util

from vlib import util as u

PROPERTY = "C26"
RULE = (
  "Randomly parametrized requests beyond the limit of what can be honoured (by one, by "
  "far, of the wrong kind) must raise an error, the neighbouring requests at the limit "
  "must give the correct result. Every script of valid requests runs in two worlds, one "
  "of them with refused requests in between: all results must agree bit by bit. "
  "Non-trivial: at least one refused and one accepted request.")
ASSUMPTIONS = [
  "any exception counts as refusal; it may be raised by the request itself or by the "
  "first use of its result"]
BUDGET = {"quick": 30, "thorough": 240}
DEVICES = 4
TIMEOUT = 150

KINDS = ["random", "full", "mapper", "potential", "schedule", "thinning", "driver", "io",
         "tensorflow", "hdf5", "alias", "misc"]


def gen(rng, tier):
  for kind in KINDS:
    for _ in range(1 if kind in ("tensorflow", "alias") else 2):
      yield dict(core=True, kind=kind, seed=u.seed(rng))
  for _ in range(400 if tier == "quick" else 8000):
    yield dict(kind=u.choice(rng, KINDS), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  {"random": random_data, "full": full, "mapper": mapper, "potential": potentials,
   "schedule": schedules, "thinning": thinning, "driver": driver, "io": saving,
   "tensorflow": tensorflow, "hdf5": hdf5, "alias": aliases, "misc": misc}[case["kind"]](rng, ctx)
  ctx.interesting(True)


def refused(ctx, key, fn, what):
  ctx.count("refusals")
  ctx.state(key)
  try:
    result = jax.block_until_ready(fn())
  except Exception:  # pylint: disable=broad-except
    ctx.check(True, key)
    return
  ctx.check(False, key, lambda: f"{what} was not refused but returned {str(result)[:200]}")


def beyond(rng, n):
  return int(n + u.choice(rng, [1, 1, 2, 7, 1000]))


def loader_of(rng, n, device, s):
  from jax_sgmc.data import numpy_loader as nl
  cls = nl.DeviceNumpyDataLoader if device else nl.NumpyDataLoader
  return cls(**u.dataset(n, s))


def no_loader(rng, n):
  """Objects which look like loaders but are none."""
  from jax_sgmc import data

  class Duck:
    static_information = {"observation_count": n}

    def register_random_pipeline(self, *args, **kwargs):
      return 0

    register_ordered_pipeline = register_random_pipeline

    def get_full_data(self):
      return {"idx": jnp.arange(n)}

    def initializer_batch(self, mb):
      return {"idx": jnp.zeros(mb, dtype=jnp.int32)}

  class Base(data.DataLoader):
    static_information = {"observation_count": n}
    _format = {"idx": jax.ShapeDtypeStruct(dtype=jnp.int32, shape=())}

  return u.choice(rng, [Duck, Base])()


# --- Data ----------------------------------------------------------------------

def random_data(rng, ctx):
  from jax_sgmc import data
  from jax_sgmc.data import numpy_loader as nl
  n = int(rng.integers(2, 30))
  s = u.seed(rng)
  device = bool(rng.random() < 0.35)
  mb = int(u.choice(rng, [1, n, rng.integers(1, n + 1)]))
  cache = 1 if device else int(rng.integers(1, 6))

  # Fields of different lengths
  cls = u.choice(rng, [nl.NumpyDataLoader, nl.DeviceNumpyDataLoader])
  lengths = [n] * int(rng.integers(2, 5))
  pos = int(rng.integers(len(lengths)))
  lengths[pos] = max(0, n + int(u.choice(rng, [-n, -1, 1, 1, n])))
  refused(ctx, "different-lengths",
          lambda: cls(copy=bool(rng.random() < 0.7),
                      **{f"x{k}": onp.ones((m, 2)) for k, m in enumerate(lengths)}).static_information,
          f"a loader over fields of the lengths {lengths}")

  def bad_requests(loader):
    count = beyond(rng, n)
    refused(ctx, "batch-too-large",
            lambda: run_random(data.random_reference_data(loader, cache, count)),
            f"a batch of {count} of {n} observations")
    small = int(u.choice(rng, [0, -1, -mb]))
    refused(ctx, "batch-not-positive",
            lambda: run_random(data.random_reference_data(loader, cache, small)),
            f"a batch size of {small}")
    refused(ctx, "cache-not-positive",
            lambda: run_random(data.random_reference_data(loader, int(u.choice(rng, [0, -1, -5])), mb)),
            "a cache without batches")
    refused(ctx, "no-loader",
            lambda: run_random(data.random_reference_data(no_loader(rng, n), 1, mb)),
            "a loader of a foreign type")
    if device:
      refused(ctx, "cache-on-device",
              lambda: run_random(data.random_reference_data(loader, int(rng.integers(2, 9)), mb)),
              "caching on the device")
    else:
      kw = dict(in_epochs=True)
      if rng.random() < 0.5:
        kw["shuffle"] = False
      if rng.random() < 0.5:
        kw["seed"] = int(rng.integers(100))
      refused(ctx, "epochs-without-shuffle",
              lambda: run_random(data.random_reference_data(loader, cache, mb), **kw),
              f"a chain with the options {kw}")
      refused(ctx, "epochs-without-shuffle", lambda: loader.register_random_pipeline(cache, mb_size=mb, **kw),
              f"a chain with the options {kw}")
      for register in (loader.register_random_pipeline, loader.register_ordered_pipeline):
        refused(ctx, "batch-too-large", lambda: register(cache, mb_size=count), "a too large batch")

  def run_random(triple, **kw):
    init, get, _ = triple
    return get(init(**kw))[1]

  def too_many_devices(get, state):
    count = jax.device_count() + int(u.choice(rng, [1, 1, 4, 100]))
    fn = get
    if rng.random() < 0.5:
      fn = jax.jit(get, static_argnames=("device_count", "information"))
    if not device:
      refused(ctx, "too-many-devices", lambda: fn(state, device_count=count),
              f"data for {count} of {jax.device_count()} devices")

  script = [int(rng.integers(3)) for _ in range(int(rng.integers(2, 7)))]

  def world(bad):
    loader = loader_of(rng, n, device, s)
    outs = []
    init, get, _ = data.random_reference_data(loader, cache, mb)
    if device:
      states = [init(key=random.PRNGKey(5)), init()]
    else:
      states = [init(shuffle=True, in_epochs=True)]
      if bad:
        bad_requests(loader)
      states.append(init())  # default seed
    for k, act in enumerate(script):
      if bad and act == 0:
        bad_requests(loader)
      if bad and act == 1:
        too_many_devices(get, states[k % 2])
      states[k % 2], out = get(states[k % 2], information=True)
      idx = u.check_rows(ctx, out[0], u.dataset(n, s), "boundary-batch")
      ctx.check(idx is not None and len(idx) == mb, "boundary-batch", f"batch of {mb} of {n}")
      outs.append(out)
    return outs

  u.equal(ctx, world(True), world(False), "side-effect", "batches after refused requests")


def full(rng, ctx):
  from jax_sgmc import data
  n = int(rng.integers(2, 25))
  s = u.seed(rng)
  device = bool(rng.random() < 0.5)
  mb = int(u.choice(rng, [1, n, rng.integers(1, n + 1)]))
  cache = int(rng.integers(1, 5))
  idx = u.dataset(n, s)["idx"]

  def pass_over(triple, **kw):
    init, scan, _ = triple
    return scan(lambda b, m, c: (b["idx"] * m, c + 1), init(**kw), 0, masking=True)[1]

  def bad_requests(loader):
    count = beyond(rng, n)
    refused(ctx, "batch-too-large", lambda: pass_over(data.full_reference_data(loader, cache, count)),
            f"a batch of {count} of {n} observations")
    small = int(u.choice(rng, [0, -1, -mb]))
    refused(ctx, "batch-not-positive", lambda: pass_over(data.full_reference_data(loader, cache, small)),
            f"a batch size of {small}")
    refused(ctx, "no-loader",
            lambda: pass_over(data.full_reference_data(no_loader(rng, n), cache, mb)),
            "a loader of a foreign type")
    if device:
      offset = n + int(u.choice(rng, [0, 0, 1, n, 1000]))
      refused(ctx, "offset", lambda: pass_over(data.full_reference_data(loader, cache, mb), offset=offset),
              f"the offset {offset} of {n} observations")
    else:
      devices = jax.device_count() + int(u.choice(rng, [1, 1, 50]))

      def on_devices():
        init, scan, _ = data.full_reference_data(loader, cache, mb)
        return scan(lambda b, c: (b["idx"], c), init(), 0, device_count=devices)
      refused(ctx, "too-many-devices", on_devices, f"data for {devices} devices")

  def world(bad):
    loader = loader_of(rng, n, device, s)
    triple = data.full_reference_data(loader, cache, mb)
    outs = []
    for k in range(2):
      if bad:
        bad_requests(loader)
      if device:
        init, scan, _ = triple
        start = n - 1 if k else 0
        _, (got, carry) = scan(lambda b, c: (b["idx"], c + 1), init(offset=start), 0)
        ctx.check(onp.array_equal(onp.asarray(got), onp.roll(idx, -start)), "boundary-pass",
                  lambda: f"offset {start} of {n}: {u.short(got)}")
      else:
        init, scan, _ = triple
        _, (got, carry) = scan(lambda b, c: (b["idx"], c + 1), init(), 0)
        ctx.check(onp.array_equal(onp.asarray(got), idx), "boundary-pass",
                  lambda: f"batch of {mb} of {n}: {u.short(got)}")
      outs.append((got, carry))
    return outs

  u.equal(ctx, world(True), world(False), "side-effect", "results after refused requests")


def mapper(rng, ctx):
  from jax_sgmc import data
  n = int(rng.integers(2, 20))
  s = u.seed(rng)
  device = bool(rng.random() < 0.5)
  mb = int(u.choice(rng, [1, n, rng.integers(1, n + 1)]))
  cache = int(rng.integers(1, 5))
  idx = u.dataset(n, s)["idx"]
  loader = loader_of(rng, n, device, s)
  call, release = data.full_data_mapper(loader, cache, mb)
  information = bool(rng.random() < 0.3)

  def single(obs, *rest):
    if information:
      obs, _ = obs
    return obs["idx"] * 2, rest[-1]

  def wrong():
    fn = lambda: call(single, 0, masking=True, batched=False, information=information)
    refused(ctx, "mask-for-single", jax.jit(fn) if rng.random() < 0.4 else fn,
            f"masking of a function of single observations (batch size {mb})")
    count = beyond(rng, n)
    refused(ctx, "batch-too-large", lambda: data.full_data_mapper(loader, cache, count)[0](
      lambda b, c: (b["idx"], c), 0), f"a batch of {count} of {n} observations")
    refused(ctx, "no-loader", lambda: data.full_data_mapper(no_loader(rng, n), cache, mb)[0](
      lambda b, c: (b["idx"], c), 0), "a loader of a foreign type")

  for k in range(3):
    if k:
      wrong()
    got, _ = call(single, 0, batched=False, information=information)
    ctx.check(onp.array_equal(onp.asarray(got), 2 * idx), "side-effect",
              lambda: f"results of single observations: {u.short(got)}")
    got, carry = call(lambda b, m, c: (jnp.sum(m * b["idx"]), c + 1), 0, masking=True)
    ctx.check(int(onp.sum(onp.asarray(got))) == int(idx.sum()) and int(carry) == -(-n // mb),
              "side-effect", lambda: f"masked results {u.short(got)}")
  release()


# --- Potential -------------------------------------------------------------------

def potentials(rng, ctx):
  from jax_sgmc import data, potential
  n, d = int(rng.integers(2, 15)), int(rng.integers(1, 4))
  mb = int(rng.integers(1, n + 1))
  data_ = {"x": rng.normal(size=(n, d)).astype(onp.float32)}
  from jax_sgmc.data import numpy_loader as nl

  def prior(sample):
    return -0.5 * jnp.sum(sample["w"] ** 2)

  def ll(sample, obs):
    return -0.5 * jnp.sum((obs["x"] - sample["w"]) ** 2, axis=-1)

  sample = {"w": jnp.asarray(rng.normal(size=d), dtype=jnp.float32)}
  loader = nl.NumpyDataLoader(**data_)
  init, scan, _ = data.full_reference_data(loader, 2, mb)
  batch = ({k: jnp.asarray(v[:mb]) for k, v in data_.items()},
           data.MiniBatchInformation(observation_count=n, batch_size=mb, mask=jnp.ones(mb, dtype=bool)))
  batched = bool(rng.random() < 0.5)
  for name in (u.choice(rng, ["", "Vmap", "vmapp", "map ", "scan", "loop", "PMAP"]), None, 3):
    refused(ctx, "unknown-strategy", lambda: potential.minibatch_potential(
      prior, ll, strategy=name)(sample, batch), f"the strategy {name!r}")
    refused(ctx, "unknown-strategy", lambda: potential.full_potential(
      prior, ll, strategy=name)(sample, init(), scan), f"the strategy {name!r}")
  refused(ctx, "full-potential-in-parallel", lambda: potential.full_potential(
    prior, ll, strategy="pmap")(sample, init(), scan), "the strategy pmap of the full potential")
  w, x = onp.asarray(sample["w"], dtype=float), data_["x"].astype(float)
  lls = -0.5 * ((x - w) ** 2).sum(1)
  strategy = u.choice(rng, ["map", "vmap"])
  got, _ = potential.minibatch_potential(prior, ll, strategy=strategy, is_batched=batched)(sample, batch)
  u.close(ctx, got, 0.5 * (w ** 2).sum() - n * lls[:mb].mean(), "accepted-strategy", strategy, rtol=1e-3, atol=1e-3)
  out = potential.full_potential(prior, ll, strategy=strategy, is_batched=batched)(
    sample, init(), scan)
  got = out[0]
  u.close(ctx, got, 0.5 * (w ** 2).sum() - lls.sum(), "accepted-strategy", strategy, rtol=1e-3, atol=1e-3)


# --- Schedules -------------------------------------------------------------------

def schedules(rng, ctx):
  from jax_sgmc import scheduler
  its = int(rng.integers(1, 40))

  def read(schedule, kw):
    def make(override):
      if override:
        s = schedule()
        state = s.init(its, **kw)
      else:
        s = schedule(**kw)
        state = s.init(its)
      return onp.asarray([s.get(state, k) for k in range(its)])
    return make

  good = dict(a=u.logu(rng, 1e-4, 10), b=u.logu(rng, 1e-2, 10), gamma=float(rng.uniform(0.1, 1)))
  bads = [dict(good, **{name: float(value)}) for name in good
          for value in [-good[name], -1e-6, -1.0, onp.nan] + ([0.0] if name != "gamma" else [])]
  for override in (False, True):
    for bad in bads:
      refused(ctx, "undefined-schedule", lambda: read(scheduler.polynomial_step_size, bad)(override),
              f"the polynomial {bad}")
    limit = dict(good, gamma=0.0)
    got = read(scheduler.polynomial_step_size, limit)(override)
    u.close(ctx, got, onp.full(its, limit["a"]), "boundary-schedule", f"{limit}", rtol=1e-4, atol=0)

  first = u.logu(rng, 1e-5, 1)
  good = dict(first=first, last=first * float(rng.uniform(0.01, 0.9)), gamma=float(rng.uniform(0.2, 1)))
  bads = [
    dict(good, first=good["last"], last=good["first"]),
    dict(good, last=good["first"] * 1.01), dict(good, last=0.0), dict(good, last=-good["last"]),
    dict(good, first=-good["first"]), dict(good, first=-good["last"], last=-good["first"]),
    dict(good, first=0.0, last=0.0), dict(good, first=-good["first"], last=-good["first"]),
    dict(good, gamma=0.0), dict(good, gamma=-good["gamma"]), dict(good, gamma=onp.nan),
    dict(good, first=onp.nan), dict(good, last=onp.nan)]
  for override in (False, True):
    for bad in bads:
      refused(ctx, "undefined-schedule", lambda: read(scheduler.polynomial_step_size_first_last, bad)(override),
              f"the schedule {bad} for {its} iterations")
    limit = dict(good, last=good["first"])
    got = read(scheduler.polynomial_step_size_first_last, limit)(override)
    u.close(ctx, got, onp.full(its, limit["first"]), "boundary-schedule", f"{limit}", rtol=1e-4, atol=0)
    got = read(scheduler.polynomial_step_size_first_last, good)(override)
    u.close(ctx, got[[0, -1]], onp.asarray([good["first"], good["last"] if its > 1 else good["first"]]),
            "boundary-schedule", f"{good}", rtol=2e-3, atol=0)
  for cls in (scheduler.cyclic_temperature, scheduler.cyclic_burn_in):
    refused(ctx, "not-implemented", lambda: cls(beta=0.5, k=2).init(its), cls.__name__)


def thinning(rng, ctx):
  from jax_sgmc import scheduler
  its = int(rng.integers(1, 60))
  burn = int(u.choice(rng, [0, its - 1, its, its + 3, rng.integers(0, its)]))
  available = max(0, its - burn)
  step = scheduler.polynomial_step_size(a=0.1, b=1.0, gamma=float(rng.uniform(0, 0.7)))
  burn_in = scheduler.initial_burn_in(burn)
  key = random.PRNGKey(u.seed(rng))

  def kept(selections, override):
    if override:
      s = scheduler.random_thinning(step, burn_in, 1)
      kw = {"thinning": dict(selections=selections, key=key)}
    else:
      s = scheduler.random_thinning(step, burn_in, selections, key=key)
      kw = {}
    init, update, get = scheduler.init_scheduler(
      step_size=step, burn_in=burn_in, thinning=s)[:3]
    state, static = init(its, **kw)
    out = []
    for _ in range(its):
      now = get(state)
      out.append(bool(now.accept) and bool(now.burn_in))
      state = update(state)
    return onp.asarray(out), int(static.samples_collected)

  for override in (False, True):
    count = beyond(rng, available)
    refused(ctx, "more-than-available", lambda: kept(count, override),
            f"{count} of {available} iterations after burn-in ({its} iterations)")
    if available:
      mask, announced = kept(available, override)
      ctx.check(mask.sum() == available == announced and not mask[:burn].any(), "boundary-thinning",
                lambda: f"{mask.sum()} kept, {announced} announced, {available} available")
      fewer = int(rng.integers(1, available + 1))
      mask, announced = kept(fewer, override)
      ctx.check(mask.sum() == fewer == announced and not mask[:burn].any(), "boundary-thinning",
                lambda: f"{mask.sum()} kept, {announced} announced, {fewer} requested")


# --- Driver, saving --------------------------------------------------------------

class Walk:
  """Sampler which counts its updates."""

  def solver(self):
    def init(x):
      return jnp.asarray(x, dtype=jnp.float32)

    def update(state, parameters):
      return state + parameters.step_size, None

    return init, update, lambda state: {"variables": {"w": state}}


def driver(rng, ctx):
  from jax_sgmc import io, scheduler, solver
  its = int(rng.integers(2, 25))
  chains = int(rng.integers(1, 4))
  sch = scheduler.init_scheduler(
    step_size=scheduler.polynomial_step_size(a=1.0, b=1.0, gamma=0.0),
    burn_in=scheduler.initial_burn_in(int(rng.integers(0, its))))
  triple = Walk().solver()
  collector = bool(rng.random() < 0.5)
  states = [triple[0](10.0 * k) for k in range(chains)]

  def make(strategy, **kw):
    if collector:
      kw.setdefault("saving", io.save(io.MemoryCollector()))
    return solver.mcmc(triple, sch, strategy=strategy, **kw)

  wrong = u.choice(rng, ["", "Map", "vmapp", "scan", "parallel", "PMAP", None])
  good = u.choice(rng, ["map", "pmap"] if collector else ["map", "vmap", "pmap"])
  want = None
  for k in range(2):
    refused(ctx, "unknown-strategy", lambda: make(wrong)(*states, iterations=its), f"the strategy {wrong!r}")
    refused(ctx, "load", lambda: make(good, loading=u.choice(rng, [io.load, "file", 1, (1, 2)]))(
      *states, iterations=its), "the start from a checkpoint")
    refused(ctx, "load", lambda: io.load(states[0], {"w": states[0]}), "the start from a checkpoint")
    got = make(good)(*states, iterations=its)
    got = [onp.asarray(r["samples"]["variables"]["w"]) for r in got]
    for c, g in enumerate(got):
      ctx.check(onp.array_equal(g, 10.0 * c + onp.arange(its - len(g), its) + 1), "accepted-run",
                lambda: f"chain {c}: {u.short(g)}")
    want = got if want is None else want
    u.equal(ctx, got, want, "side-effect", "samples after refused runs")


def saving(rng, ctx):
  from jax_sgmc import io, scheduler
  folder = tempfile.mkdtemp(prefix="verif_c26_")
  try:
    import h5py
    rows = int(rng.integers(1, 12))
    static = scheduler.static_information(samples_collected=rows)
    values = rng.normal(size=(rows, 3)).astype(onp.float32)
    example = {"w": jnp.zeros(3)}
    backend = u.choice(rng, ["memory", "npz", "json", "hdf5"])
    file = None
    if backend == "memory":
      collector = io.MemoryCollector()
    elif backend == "npz":
      collector = io.MemoryCollector(folder)
    elif backend == "json":
      collector = io.JSONCollector(folder)
    else:
      file = h5py.File(os.path.join(folder, "s.h5"), "w")
      collector = io.HDF5Collector(file)

    def bad():
      every = int(u.choice(rng, [1, 2, 100, -1]))
      refused(ctx, "checkpoint", lambda: io.save(collector, checkpoint_every=every),
              f"a checkpoint every {every} iterations")
      if backend in ("memory", "npz", "hdf5"):
        refused(ctx, "no-sample", lambda: collector.register_chain(
          None, {"s": jnp.zeros(2)}, static), "a chain without a sample")
      if backend == "hdf5":
        refused(ctx, "no-sample", lambda: collector.register_chain(example, None, static),
                "a chain without a checkpoint")
      if backend == "json":
        refused(ctx, "checkpoint", lambda: collector.checkpoint(0, {"s": jnp.zeros(2)}), "a checkpoint in JSON")
        refused(ctx, "checkpoint", collector.resume, "the start from a JSON file")

    if rng.random() < 0.7:
      bad()
    init_save, save, post = io.save(collector)
    state = init_save(example, {}, static)
    bad()

    @jax.jit
    def loop(state):
      def body(state, row):
        return save(state, jnp.asarray(True), {"w": row})
      return jax.lax.scan(body, state, jnp.asarray(values))[0]
    state = loop(state)
    result = post(state, None)
    got = None
    if backend in ("memory", "npz"):
      got = result["samples"]["w"]
    if backend == "npz":
      files = sorted(f for f in os.listdir(folder) if f.endswith(".npz"))
      ctx.check(len(files) == 1, "side-effect", lambda: f"files {files} for one chain")
    if backend == "json":
      import json
      files = sorted(os.listdir(folder))
      ctx.check(len(files) == 1, "side-effect", lambda: f"files {files} for one chain")
      with open(os.path.join(folder, files[-1])) as f:
        content = json.load(f)
      got = onp.asarray([onp.asarray(c[0]) for c in content] if len(content) != 1 or rows == 1
                        else content[0], dtype=onp.float32).reshape(-1, 3)
    if backend == "hdf5":
      ctx.check(sorted(file.keys()) == ["chain~0"], "side-effect", lambda: f"groups {list(file.keys())}")
      got = onp.asarray(file["chain~0"]["w"])
    u.close(ctx, got, values, "side-effect", f"samples of {backend} after refused requests", rtol=1e-6, atol=1e-6)
    if file is not None:
      file.close()
  finally:
    shutil.rmtree(folder, ignore_errors=True)


# --- Other loaders ---------------------------------------------------------------

def tensorflow(rng, ctx):
  import tensorflow as tf
  from jax_sgmc import data
  from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader
  n = int(rng.integers(2, 20))
  pipeline = tf.data.Dataset.from_tensor_slices(
    {"idx": onp.arange(n, dtype=onp.int32), "y": 10 * onp.arange(n, dtype=onp.int32)})
  refused(ctx, "deprecated-option", lambda: TensorflowDataLoader(pipeline, mini_batch_size=2), "a batch size of the loader")
  loader = TensorflowDataLoader(pipeline, shuffle_cache=int(rng.integers(1, 30)))
  mb = int(u.choice(rng, [1, n, rng.integers(1, n + 1)]))
  cache = int(rng.integers(1, 4))
  init, get, _ = data.random_reference_data(loader, cache, mb)
  state = init()
  for _ in range(2):
    kw = u.choice(rng, [dict(seed=3), dict(shuffle=True), dict(shuffle=True, in_epochs=True)])
    refused(ctx, "tensorflow-options", lambda: init(**kw), f"the options {kw}")
    count = beyond(rng, n)
    refused(ctx, "batch-too-large", lambda: data.random_reference_data(loader, cache, count)[0](),
            f"a batch of {count} of {n} observations")
    refused(ctx, "unsupported-access", lambda: data.full_reference_data(loader, cache, mb)[0](), "ordered access")
    refused(ctx, "unsupported-access", lambda: loader.save_state(0), "a saved state")
    refused(ctx, "unsupported-access", lambda: loader.load_state(0, {}), "a restored state")
    state, (batch, info) = get(state, information=True)
    ctx.check(onp.asarray(batch["idx"]).shape == (mb,)
              and onp.array_equal(onp.asarray(batch["y"]), 10 * onp.asarray(batch["idx"]))
              and int(info.observation_count) == n, "boundary-batch", lambda: f"batch {batch}")


def hdf5(rng, ctx):
  import h5py
  from jax_sgmc import data, io, scheduler
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  folder = tempfile.mkdtemp(prefix="verif_c26_")
  try:
    n = int(rng.integers(2, 20))
    with h5py.File(os.path.join(folder, "s.h5"), "w") as file:
      values = onp.arange(n * 2, dtype=onp.float32).reshape(n, 2)
      init_save, save, post = io.save(io.HDF5Collector(file))
      state = init_save({"w": jnp.zeros(2)}, {}, scheduler.static_information(samples_collected=n))
      for row in values:
        state, _ = save(state, jnp.asarray(True), {"w": jnp.asarray(row)})
      post(state, None)
      loader = HDF5Loader(file, subdir="chain~0", sample={"w": jnp.zeros(2)})
      mb = int(u.choice(rng, [1, n, rng.integers(1, n + 1)]))
      cache = int(rng.integers(1, 4))

      def use(bad):
        rloader = HDF5Loader(file, subdir="chain~0", sample={"w": jnp.zeros(2)})
        init, get, _ = data.random_reference_data(rloader, cache, mb)
        state = init()
        outs = []
        for _ in range(3):
          if bad:
            count = beyond(rng, n)
            refused(ctx, "batch-too-large", lambda: data.random_reference_data(rloader, cache, count)[0](),
                    f"a batch of {count} of {n} rows")
            refused(ctx, "batch-too-large", lambda: data.full_reference_data(rloader, cache, count)[0](),
                    f"a batch of {count} of {n} rows")
            refused(ctx, "epochs-without-shuffle", lambda: init(in_epochs=True), "epochs without shuffling")
            refused(ctx, "unsupported-access", lambda: rloader.save_state(0), "a saved state")
            refused(ctx, "unsupported-access", lambda: rloader.load_state(0, {}), "a restored state")
          state, out = get(state)
          outs.append(out)
        init, get, _ = data.random_reference_data(rloader, 1, mb)
        outs.append(get(init())[1])  # default seed
        return outs
      u.equal(ctx, use(True), use(False), "side-effect", "rows after refused requests")
      init, scan, _ = data.full_reference_data(loader, cache, mb)
      _, (got, _) = scan(lambda b, c: (b["w"], c), init(), 0)
      u.equal(ctx, got, values, "boundary-pass", "ordered rows")
      # Leaves of different length; the shorter one may be in any place
      lengths = [int(v) for v in rng.permutation([n, n, int(u.choice(rng, [n - 1, n + 1, n + 5]))])]
      sample = {k: jnp.zeros(()) for k in "abc"}
      for k, length in zip("abc", lengths):
        file[f"other/{k}"] = onp.arange(length, dtype=onp.float32)

      def unequal():
        loader = HDF5Loader(file, subdir="other", sample=sample)
        init, scan, _ = data.full_reference_data(loader, 1, 1)
        scan(lambda b, c: (b, c), init(), 0)
      refused(ctx, "different-lengths", unequal, f"leaves with {lengths} samples")
      for k in "abc":
        del file[f"other/{k}"]
        file[f"other/{k}"] = onp.arange(n, dtype=onp.float32)
      loader = HDF5Loader(file, subdir="other", sample=sample)
      init, scan, _ = data.full_reference_data(loader, cache, mb)
      _, (got, _) = scan(lambda b, c: (b, c), init(), 0)
      for k in "abc":
        u.equal(ctx, got[k], onp.arange(n, dtype=onp.float32), "boundary-pass", "leaves of equal length")
  finally:
    shutil.rmtree(folder, ignore_errors=True)


# --- Others ------------------------------------------------------------------------

def aliases(rng, ctx):
  from jax_sgmc import alias, potential
  from jax_sgmc.data import numpy_loader as nl
  n, d = int(rng.integers(3, 12)), int(rng.integers(1, 3))
  loader = nl.NumpyDataLoader(x=rng.normal(size=(n, d)).astype(onp.float32))

  def prior(sample):
    return -0.5 * jnp.sum(sample["w"] ** 2)

  def ll(sample, obs):
    return -0.5 * jnp.sum((obs["x"] - sample["w"]) ** 2)
  pot = potential.minibatch_potential(prior, ll, strategy="vmap")
  full_pot = potential.full_potential(prior, ll, strategy="vmap")
  sample = {"w": jnp.zeros(d)}
  its = int(rng.integers(4, 12))
  burn = int(rng.integers(0, its - 1))
  for name in ("amagold", "sggmc"):
    fn = getattr(alias, name)
    refused(ctx, "thinning-of-adaptive-steps", lambda: fn(
      pot, full_pot, loader, cache_size=2, batch_size=2, adaptive_step_size=True, burn_in=burn,
      first_step_size=0.01, accepted_samples=2, progress_bar=False)(sample, iterations=its),
      f"thinning of {name} with adaptive step size")
  which = u.choice(rng, ["sgld", "sghmc", "obabo", "amagold", "sggmc"])
  args = (pot, full_pot, loader) if which in ("amagold", "sggmc") else (pot, loader)
  base = dict(cache_size=2, batch_size=n, burn_in=burn, first_step_size=0.01, last_step_size=0.005,
              accepted_samples=its - burn, progress_bar=False)

  def go(**kw):
    return getattr(alias, which)(*args, **dict(base, **kw))(sample, iterations=its)
  for kw in (dict(accepted_samples=beyond(rng, its - burn)), dict(batch_size=beyond(rng, n)),
             dict(cache_size=0), dict(first_step_size=0.005, last_step_size=0.01),
             dict(batch_size=0)):
    refused(ctx, "alias-options", lambda: go(**kw), f"{which} with {kw} ({its} iterations, burn-in {burn})")
  got = onp.asarray(go()[0]["samples"]["variables"]["w"])
  ctx.check(got.shape == (its - burn, d) and onp.all(onp.isfinite(got)), "accepted-run",
            lambda: f"{which}: shape {got.shape} instead of {(its - burn, d)}")


def misc(rng, ctx):
  from jax_sgmc import adaption, io
  from jax_sgmc.util import Tensor, tensor_matmul
  d = int(rng.integers(1, 5))
  vec = {"a": jnp.asarray(rng.normal(size=d), dtype=jnp.float32)}
  diag = {"a": jnp.asarray(rng.normal(size=d), dtype=jnp.float32)}
  ndim = int(u.choice(rng, [3, 4, -1, 10]))
  refused(ctx, "tensor-order", lambda: tensor_matmul(Tensor(ndim=ndim, tensor=diag), vec), f"a tensor of order {ndim}")
  u.close(ctx, tensor_matmul(Tensor(ndim=1, tensor=diag), vec),
          {"a": onp.asarray(diag["a"]) * onp.asarray(vec["a"])}, "accepted-tensor")
  refused(ctx, "fisher-without-potential", lambda: adaption.fisher_information(diagonal=bool(rng.random() < 0.5)),
          "a fisher information without potential")

  class Node:
    pass
  rule = lambda node: [("a", 1)]
  io.register_dictionize_rule(Node)(rule)
  kind = u.choice(rng, [Node, dict, list, tuple])
  tree = {"b": [jnp.ones(2), (jnp.zeros(1),)]}
  before = io.pytree_dict_keys(tree)
  refused(ctx, "second-rule", lambda: io.register_dictionize_rule(kind)(lambda node: [("wrong", 0)]),
          f"a second rule for {kind.__name__}")
  ctx.check(io.pytree_dict_keys(tree) == before, "side-effect", "the refused rule is used")
