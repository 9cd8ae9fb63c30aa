"""C03: random data chains are isolated and reproducible from their seed."""
import sys
import threading
import time
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, random, tree_util

from vlib import util as u

PROPERTY = "C03"
RULE = (
  "Each case registers several chains (equal, different and default seeds, "
  "different modes, batch and cache sizes, ordered chains) on one or two "
  "loaders and data functions and advances them in a random interleaving, from "
  "one thread, from several threads with injected delays, inside pmap, or "
  "registers them concurrently; every chain's stream is compared with the "
  "stream of the same chain running alone. Non-trivial: at least two chains "
  "whose requests alternated.")
ASSUMPTIONS = ["chains with different seeds are called different if at least "
               "24 random rows out of at least 50 differ"]
DEVICES = 4
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 36, "thorough": 420}


def gen(rng, tier):
  kinds = ["interleave", "threads", "register", "pmap", "device", "seeds"]
  for i in range(24):
    yield dict(core=True, kind=kinds[i % 6], seed=u.seed(rng))
  for _ in range(200 if tier == "quick" else 4000):
    yield dict(kind=u.choice(rng, kinds), seed=u.seed(rng))


MODES = {"draw": {}, "shuffle": {"shuffle": True},
         "epochs": {"shuffle": True, "in_epochs": True}}


class Chain:
  """One chain together with the stream it received."""

  def __init__(self, fn, loader_id, mode, seed, mb, cache):
    self.fn, self.loader_id, self.mode = fn, loader_id, mode
    self.seed, self.mb, self.cache = seed, mb, cache
    self.rows, self.masks = [], []
    self.state = None

  def start(self):
    kwargs = dict(MODES[self.mode])
    if self.seed is not None:
      kwargs["seed"] = self.seed
    self.state = self.fn[0](**kwargs)

  def request(self, k=1):
    step = self.fn[3]
    for _ in range(k):
      self.state, rows, mask = step(self.state)
      self.rows.append(onp.asarray(rows))
      self.masks.append(onp.asarray(mask))


def make_fn(loader, cache, mb):
  from jax_sgmc import data
  init, get, release = data.random_reference_data(loader, cache, mb)

  @jax.jit
  def step(state):
    state, (batch, info) = get(state, information=True)
    return state, batch["idx"], info.mask
  return init, get, release, step


_REF = {}


def alone(n, chain, count):
  """Stream of the same chain running alone on its own loader."""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  key = (n, chain.mode, chain.seed, chain.mb, chain.cache)
  if key not in _REF or len(_REF[key][0]) < count:
    loader = NumpyDataLoader(idx=onp.arange(n, dtype=onp.int32))
    ref = Chain(make_fn(loader, chain.cache, chain.mb), 0, chain.mode,
                chain.seed, chain.mb, chain.cache)
    ref.start()
    ref.request(count)
    if len(_REF) > 200:
      _REF.clear()
    _REF[key] = (ref.rows, ref.masks)
  rows, masks = _REF[key]
  return rows[:count], masks[:count]


def judge(ctx, n, chains):
  for i, c in enumerate(chains):
    ctx.count("chains")
    ctx.count("requests", len(c.rows))
    if c.seed is not None and c.rows:
      rows, masks = alone(n, c, len(c.rows))
      u.equal(ctx, onp.stack(c.rows), onp.stack(rows), "isolated",
              f"chain {i} seed {c.seed} {c.mode} mb {c.mb} cache {c.cache}: rows")
      u.equal(ctx, onp.stack(c.masks), onp.stack(masks), "isolated",
              f"chain {i}: masks")
  for i, a in enumerate(chains):
    for j, b in enumerate(chains[:i]):
      if a.mode != b.mode or a.mb != b.mb:
        continue
      same_seed = a.seed is not None and a.seed == b.seed
      # Default seeds distinguish the chains of one loader only
      differ = (a.seed is None and b.seed is None and a.loader_id == b.loader_id) \
          or (a.seed is not None and b.seed is not None and a.seed != b.seed)
      k = min(len(a.rows), len(b.rows))
      if k == 0:
        continue
      ra, rb = onp.concatenate(a.rows[:k]), onp.concatenate(b.rows[:k])
      if same_seed:
        ctx.check(onp.array_equal(ra, rb), "equal-seeds-equal-streams",
                  f"chains {j}, {i} with seed {a.seed}")
      elif differ and len(ra) >= 24 and n >= 50:
        ctx.check(not onp.array_equal(ra, rb), "different-streams",
                  lambda: f"chains {j} (seed {b.seed}), {i} (seed {a.seed}) got the same rows {u.short(ra)}")


def run(case, ctx):
  warnings.simplefilter("ignore")
  from jax_sgmc import data
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  rng = u.rng_of(case)
  kind = case["kind"]
  n = int(rng.integers(50, 90))

  if kind == "device":
    return run_device(ctx, rng, n)
  if kind == "pmap":
    return run_pmap(ctx, rng, n)
  if kind == "register":
    return run_register(ctx, rng, n)
  if kind == "seeds":
    return run_seeds(ctx, rng, n)

  loaders = [NumpyDataLoader(idx=onp.arange(n, dtype=onp.int32))
             for _ in range(int(rng.integers(1, 3)))]
  sizes = [(int(rng.integers(1, 4)), int(rng.integers(2, 12)))]
  if rng.random() < 0.6:
    sizes.append((int(rng.integers(1, 4)), int(rng.integers(2, 12))))
  fns = []
  for lid, l in enumerate(loaders):
    for cache, mb in sizes:
      for _ in range(1 + (rng.random() < 0.3)):
        fns.append((lid, cache, mb, make_fn(l, cache, mb)))
  seeds = [None, None, 3, 3, u.seed(rng), 0]
  chains = []
  common_mode = u.choice(rng, sorted(MODES))
  for _ in range(int(rng.integers(3, 7))):
    lid, cache, mb, fn = u.choice(rng, fns)
    mode = common_mode if rng.random() < 0.7 else u.choice(rng, sorted(MODES))
    chains.append(Chain(fn, lid, mode, u.choice(rng, seeds), mb, cache))

  # An ordered chain on the same loader
  cache, mb = sizes[0]
  oinit, omap, orelease = data.full_reference_data(loaders[0], cache, mb)
  mapper = jax.jit(lambda st: omap(lambda b, c: (b["idx"], c), st, None))

  def pass_ok(state, what):
    state, (rows, _) = mapper(state)
    ctx.check(onp.array_equal(rows, onp.arange(n)), "ordered-chain-isolated",
              lambda: f"{what}: {u.short(rows)}")
    return state

  ostate = oinit()
  switches = 0
  if kind == "interleave":
    last = None
    started = []
    waiting = list(chains)
    for _ in range(int(rng.integers(30, 80))):
      if waiting and (not started or rng.random() < 0.2):
        c = waiting.pop(0)
        c.start()
        started.append(c)
      c = u.choice(rng, started)
      c.request(int(rng.integers(1, 4)))
      switches += c is not last
      last = c
      if rng.random() < 0.1:
        ostate = pass_ok(ostate, "interleaved")
      if rng.random() < 0.2:
        onp.random.seed(int(rng.integers(1000)))
        onp.random.random(3)
    chains = started
  else:
    for c in chains:
      c.start()
    plans = [(c, [int(v) for v in rng.integers(1, 4, size=10)],
              rng.random(10) * 0.004) for c in chains]
    barrier = threading.Barrier(len(plans) + 1)
    log, errors = [], []

    def work(c, ks, sleeps):
      try:
        barrier.wait()
        for k, s in zip(ks, sleeps):
          time.sleep(s)
          c.request(k)
          log.append(id(c))
      except BaseException as e:  # pylint: disable=broad-except
        errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
      threads = [threading.Thread(target=work, args=p) for p in plans]
      for t in threads:
        t.start()
      barrier.wait()
      for _ in range(3):
        ostate = pass_ok(ostate, "concurrent")
      for t in threads:
        t.join()
    finally:
      sys.setswitchinterval(old)
    if errors:
      raise errors[0]
    switches = sum(a != b for a, b in zip(log, log[1:]))
    ctx.state("threads", tuple(log.index(x) for x in log))
  judge(ctx, n, chains)
  # Released data functions do not affect the others
  fns[0][3][2]()
  rest = [c for c in chains if c.fn is not fns[0][3]]
  for c in rest:
    c.request(2 * c.cache)
  judge(ctx, n, rest)
  ctx.count("switches", switches)
  ctx.state(kind, len(chains), len(loaders), len(fns),
            tuple(sorted(c.mode for c in chains)))
  ctx.interesting(len(chains) >= 2 and switches >= 3)
  ctx.sample = {"chains": len(chains), "switches": switches}


def run_seeds(ctx, rng, n):
  """Similar seeds (and many default ones) give different streams."""
  from jax_sgmc import data
  from jax_sgmc.data import numpy_loader as nl
  n = int(rng.integers(200, 400))
  table = onp.arange(n, dtype=onp.int32)
  base = int(u.choice(rng, [0, 1, 3, rng.integers(1 << 16), rng.integers(1 << 31)]))
  family = {base, base + 1, base + 1000, base * 2 + 1}
  for k in rng.choice(onp.arange(3, 63), size=14, replace=False):
    family.add(base ^ (1 << int(k)))
  family = sorted(family)
  mode = u.choice(rng, sorted(MODES))
  mb = int(rng.integers(20, 40))
  loader = nl.NumpyDataLoader(idx=table)

  def draw(lo, seed):
    kw = dict(MODES[mode])
    if seed is not None:
      kw["seed"] = seed
    chain = lo.register_random_pipeline(2, mb_size=mb, **kw)
    return onp.asarray(lo.get_batches(chain)[0]["idx"]).ravel()

  streams = {}
  for s in family:
    rows = draw(loader, s)
    other = streams.setdefault(rows.tobytes(), s)
    ctx.check(other == s, "different-streams", lambda: f"seeds {other} and {s} ({mode}) got the same rows")
    ctx.count("chains")
  for s in (family[0], family[-1], onp.int64(family[1]), onp.uint32(base & 0xffffffff)):
    again = draw(nl.NumpyDataLoader(idx=table), s)
    ctx.check(streams.get(again.tobytes(), int(s)) == int(s), "equal-seeds-equal-streams",
              lambda: f"seed {s}")
    if int(s) in family:
      ctx.check(again.tobytes() in streams, "equal-seeds-equal-streams", lambda: f"seed {s} ({mode})")
  # Default seeds
  loader = nl.NumpyDataLoader(idx=table)
  count = int(u.choice(rng, [40, 140, 270]))
  streams = {}
  for k in range(count):
    rows = draw(loader, None)
    other = streams.setdefault(rows.tobytes(), k)
    ctx.check(other == k, "different-streams",
              lambda: f"the chains {other} and {k} with default seeds ({mode}) got the same rows")
    ctx.count("chains")
  # Keys of the device loader
  init, get, _ = data.random_reference_data(nl.DeviceNumpyDataLoader(idx=table), 1, mb)
  streams = {}
  keys = [random.PRNGKey(s & 0xffffffff) for s in family]
  keys += [jnp.asarray([a, b], dtype=jnp.uint32) for a, b in ((1, 2), (2, 1), (1 << 31, 2), (1, 2 + (1 << 20)))]
  for key in keys:
    name = tuple(int(v) for v in onp.asarray(key))
    rows = onp.asarray(get(init(key=key))[1]["idx"])
    other = streams.setdefault(rows.tobytes(), name)
    ctx.check(other == name, "different-streams", lambda: f"the keys {other} and {name} got the same rows")
    ctx.count("chains")
  ctx.state("seeds", mode, count)
  ctx.interesting()
  ctx.sample = {"seeds": [int(s) for s in family], "default chains": count}


def run_register(ctx, rng, n):
  """Chains are registered at the same time."""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  old = sys.getswitchinterval()
  rounds = 4
  for r in range(rounds):
    loader = NumpyDataLoader(idx=onp.arange(n, dtype=onp.int32))
    mb, cache = 12, 2
    fn = make_fn(loader, cache, mb)
    mode = u.choice(rng, sorted(MODES))
    k = 8
    with_seed = rng.random() < 0.5
    chains = [Chain(fn, 0, mode, (100 + i) if with_seed else None, mb, cache)
              for i in range(k)]
    barrier = threading.Barrier(k)
    errors = []

    def work(c):
      try:
        barrier.wait()
        c.start()
      except BaseException as e:  # pylint: disable=broad-except
        errors.append(e)

    sys.setswitchinterval(1e-6)
    try:
      threads = [threading.Thread(target=work, args=(c,)) for c in chains]
      for t in threads:
        t.start()
      for t in threads:
        t.join()
    finally:
      sys.setswitchinterval(old)
    if errors:
      raise errors[0]
    for _ in range(3):
      for c in chains:
        c.request(1)
    judge(ctx, n, chains)
    ids = [int(c.state.chain_id) for c in chains]
    ctx.check(len(set(ids)) == k, "unique-chain", f"identities {ids}")
    ctx.state("register", with_seed, mode)
  ctx.interesting()
  ctx.sample = {"concurrently registered": k * rounds}


def run_device(ctx, rng, n):
  """Chains of a device loader are determined by their key."""
  from jax_sgmc import data
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
  mb = int(rng.integers(2, 12))
  streams = {}
  loader = DeviceNumpyDataLoader(idx=onp.arange(n, dtype=onp.int32))
  init, get, _ = data.random_reference_data(loader, 1, mb)
  step = jax.jit(lambda st: get(st))
  keys = [int(v) for v in rng.integers(0, 1000, size=4)] + [7]
  count = 30 // mb + 6
  for k in keys:
    st = init(key=random.PRNGKey(k))
    rows = []
    for _ in range(count):
      st, b = step(st)
      rows.append(onp.asarray(b["idx"]))
    streams[k] = onp.concatenate(rows)
  # Interleaved and vectorized
  states = [init(key=random.PRNGKey(k)) for k in keys]
  got = [[] for _ in keys]
  order = [i for i in range(len(keys)) for _ in range(count)]
  rng.shuffle(order)
  for i in order:
    states[i], b = step(states[i])
    got[i].append(onp.asarray(b["idx"]))
  stacked = tree_util.tree_map(lambda *x: jnp.stack(x),
                               *[init(key=random.PRNGKey(k)) for k in keys])
  _, vec = jax.jit(jax.vmap(lambda s: lax.scan(
    lambda st, _: get(st), s, jnp.arange(count))))(stacked)
  for i, k in enumerate(keys):
    ctx.count("chains")
    u.equal(ctx, onp.concatenate(got[i]), streams[k], "isolated", f"key {k}")
    u.equal(ctx, onp.asarray(vec["idx"])[i].ravel(), streams[k], "isolated",
            f"vectorized key {k}")
    for j in range(i):
      if keys[j] != k:
        ctx.check(not onp.array_equal(streams[k], streams[keys[j]]),
                  "different-streams", f"keys {k}, {keys[j]}")
  ctx.count("requests", len(order))
  ctx.state("device", mb)
  ctx.interesting()
  ctx.sample = {"keys": keys}


def run_pmap(ctx, rng, n):
  """Every device advances its own chain."""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  from jax_sgmc.util import list_pmap
  k = int(rng.integers(2, 5))
  mb, cache = int(rng.integers(2, 10)), int(rng.integers(1, 5))
  loader = NumpyDataLoader(idx=onp.arange(n, dtype=onp.int32))
  fn = make_fn(loader, cache, mb)
  mode = u.choice(rng, sorted(MODES))
  chains = [Chain(fn, 0, mode, [5, None, 5, 9][i], mb, cache) for i in range(k)]
  for c in chains:
    c.start()
  count = int(rng.integers(cache + 1, 3 * cache + 6))
  get = fn[1]

  def many(state):
    def step(st, _):
      st, (batch, info) = get(st, information=True)
      return st, (batch["idx"], info.mask)
    return lax.scan(step, state, jnp.arange(count))

  results = list_pmap(many)(*[c.state for c in chains])
  for c, (state, (rows, mask)) in zip(chains, results):
    c.rows, c.masks = list(onp.asarray(rows)), list(onp.asarray(mask))
  judge(ctx, n, chains)
  ctx.state("pmap", k, mode, cache)
  ctx.interesting()
  ctx.sample = {"devices": k, "requests": count}
