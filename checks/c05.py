"""C05: host data is requested once per cache refresh, delivered in order."""
import threading
import time
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, tree_util

from vlib import util as u

PROPERTY = "C05"
RULE = (
  "A recording host loader stamps every batch with chain, request and line "
  "number and logs every request. Cases run histories of draws with current, "
  "outdated, duplicated and replicated data states (sequentially, in scan, in "
  "pmap, from threads with slow loaders), failing loaders and released "
  "functions, and compare each delivered stamp and the request log with the "
  "protocol model. Non-trivial: at least three cache refreshes or one "
  "stale/replicated/failed request.")
ASSUMPTIONS = ["a data state whose cache is not consumed replays its own cache "
               "without contacting the host"]
DEVICES = 4
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 32, "thorough": 360}

KINDS = ["history", "stale", "replicated", "pmap", "fault", "release", "ordered"]


def gen(rng, tier):
  for i in range(35):
    yield dict(core=True, kind=KINDS[i % 7], seed=u.seed(rng))
  for _ in range(400 if tier == "quick" else 8000):
    yield dict(kind=u.choice(rng, KINDS), seed=u.seed(rng))


class LoaderFault(Exception):
  pass


def make_loader(n, masked, delay=0.0, fail_at=()):
  from jax_sgmc.data.core import HostDataLoader

  class Recorder(HostDataLoader):
    """Stamps batches with (chain, request, line, row)."""

    def __init__(self):
      self.sizes, self.counts, self.log, self.calls = [], [], [], 0
      self.lock = threading.Lock()
      self.running = 0
      self.fail_at = set(fail_at)

    @property
    def static_information(self):
      return {"observation_count": n}

    @property
    def _format(self):
      return {"stamp": jax.ShapeDtypeStruct(shape=(4,), dtype=onp.int32)}

    def register_random_pipeline(self, cache_size=1, mb_size=None, **kwargs):
      with self.lock:
        self.sizes.append((cache_size, mb_size))
        self.counts.append(0)
        return len(self.sizes) - 1

    register_ordered_pipeline = register_random_pipeline

    def get_batches(self, chain_id):
      chain_id = int(chain_id)
      with self.lock:
        self.calls += 1
        if self.calls in self.fail_at:
          self.log.append((chain_id, "fail"))
          raise LoaderFault("transient failure of the storage")
        req = self.counts[chain_id]
        self.counts[chain_id] += 1
        self.log.append((chain_id, req))
      if delay:
        time.sleep(delay)
      cache, mb = self.sizes[chain_id]
      stamp = onp.zeros((cache, mb, 4), dtype=onp.int32)
      stamp[..., 0] = chain_id
      stamp[..., 1] = req
      stamp[..., 2] = onp.arange(cache)[:, None]
      stamp[..., 3] = onp.arange(mb)
      return {"stamp": stamp}, mask_of(chain_id, req, cache, mb) if masked else None

  return Recorder()


def mask_of(chain, req, cache, mb):
  r = onp.random.default_rng([chain, req, 5])
  return r.random((cache, mb)) < 0.7


class Model:
  """Expected (request, line) of a data state."""

  def __init__(self, chain, req=0, line=0):
    self.chain, self.req, self.line = chain, req, line

  def copy(self):
    return Model(self.chain, self.req, self.line)


def verify(ctx, out, chain, req, line, cache, mb, masked, what):
  stamp, mask = (onp.asarray(v) for v in out)
  want = onp.stack([onp.full(mb, chain), onp.full(mb, req), onp.full(mb, line),
                    onp.arange(mb)], axis=-1)
  ok = u.equal(ctx, stamp, want, "delivered-in-order", what)
  want_mask = mask_of(chain, req, cache, mb)[line] if masked else onp.ones(mb, bool)
  return ok and u.equal(ctx, mask.astype(bool), want_mask, "mask-delivered", what)


def build(rng, verify_calls, delay=0.0, fail_at=(), cache=None):
  from jax_sgmc import data
  cache = cache or int(rng.integers(1, 6))
  mb = int(rng.integers(1, 5))
  masked = bool(rng.random() < 0.6)
  loader = make_loader(100, masked, delay, fail_at)
  init, get, release = data.random_reference_data(
    loader, cache, mb, verify_calls=verify_calls)

  def step(state, device_count=1):
    state, (batch, info) = get(state, information=True, device_count=device_count)
    return state, (batch["stamp"], info.mask)
  return loader, cache, mb, masked, init, step, release


def fails(fn):
  """The exception raised by a call, or None."""
  try:
    jax.block_until_ready(fn())
  except Exception as e:  # pylint: disable=broad-except
    return e
  return None


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  {"history": history, "stale": stale, "replicated": replicated, "pmap": in_pmap,
   "fault": fault, "release": released, "ordered": ordered}[case["kind"]](rng, ctx)


def history(rng, ctx):
  """Well-behaved consumers of several chains."""
  strict = bool(rng.random() < 0.5)
  loader, cache, mb, masked, init, step, release = build(rng, strict)
  jstep = jax.jit(step) if rng.random() < 0.7 else step
  chains = [[init(), 0] for _ in range(int(rng.integers(1, 4)))]
  ids = [int(c[0].chain_id) for c in chains]
  ctx.check(ids == list(range(len(ids))), "chain-id", f"{ids}")

  @jax.jit
  def many(state):
    return lax.scan(lambda s, _: step(s), state, None, length=7)

  for _ in range(int(rng.integers(10, 30))):
    i = int(rng.integers(len(chains)))
    if rng.random() < 0.3:
      chains[i][0], outs = many(chains[i][0])
      outs = [tuple(onp.asarray(o)[k] for o in outs) for k in range(7)]
    else:
      chains[i][0], out = jstep(chains[i][0])
      outs = [out]
    for out in outs:
      k = chains[i][1]
      verify(ctx, out, i, k // cache, k % cache, cache, mb, masked,
             f"chain {i} draw {k}")
      chains[i][1] += 1
      ctx.count("draws")
    want = max(1, -(-chains[i][1] // cache))
    ctx.check(loader.counts[i] == want, "one-request-per-refresh",
              f"chain {i}: {loader.counts[i]} requests after {chains[i][1]} draws of caches with {cache}")
  ctx.count("requests", len(loader.log))
  ctx.state("history", cache, len(chains), strict, masked)
  ctx.interesting(max(loader.counts) >= 3)
  ctx.sample = {"requests": loader.log[:10], "cache": cache}
  release()


def stale(rng, ctx):
  """Outdated data states are rejected (strict) or get fresh data."""
  strict = bool(rng.random() < 0.5)
  loader, cache, mb, masked, init, step, release = build(rng, strict)
  jstep = jax.jit(step)
  init_state = init()
  # Model: the request the cache of a state belongs to and the next line;
  # a refresh is valid if the state is the latest one of the chain.
  live = [[init_state, 0, 0]]
  latest = 0
  next_req = 1
  n_stale = 0
  for k in range(40):
    j = int(rng.integers(len(live))) if rng.random() < 0.5 else len(live) - 1
    state, req, line = live[j]
    if line < cache:
      new, out = jstep(state)
      verify(ctx, out, 0, req, line, cache, mb, masked, f"step {k} from state {j}")
      entry = [new, req, line + 1]
    elif req == latest:
      new, out = jstep(state)
      verify(ctx, out, 0, next_req, 0, cache, mb, masked, f"step {k} refresh")
      latest = next_req
      next_req += 1
      entry = [new, latest, 1]
    else:
      n_stale += 1
      ctx.count("stale")
      before = len(loader.log)
      if strict:
        e = fails(lambda: jstep(state))
        ctx.check(e is not None, "stale-rejected",
                  f"step {k}: an outdated data state was accepted")
        ctx.check(len(loader.log) == before, "stale-rejected",
                  f"step {k}: the loader was asked for a rejected request")
        continue
      new, out = jstep(state)
      verify(ctx, out, 0, next_req, 0, cache, mb, masked, f"step {k} outdated")
      latest = next_req
      next_req += 1
      entry = [new, latest, 1]
    live.append(entry)
    ctx.count("draws")
    ctx.check(loader.counts[0] == next_req, "one-request-per-refresh",
              f"step {k}: {loader.counts[0]} requests instead of {next_req}")
  # The chain still works
  state, req, line = max(live, key=lambda e: (e[1], e[2]))
  for k in range(2 * cache):
    if line == cache:
      req, line, next_req = next_req, 0, next_req + 1
    state, out = jstep(state)
    verify(ctx, out, 0, req, line, cache, mb, masked, "after outdated requests")
    line += 1
  ctx.count("requests", len(loader.log))
  ctx.state("stale", strict, cache, min(n_stale, 6))
  ctx.interesting(n_stale > 0)
  ctx.sample = {"stale": n_stale, "strict": strict}
  release()


def replicated(rng, ctx):
  """Replicas of a data state share the data of a single request."""
  strict = bool(rng.random() < 0.7)
  k = int(rng.integers(2, 5))
  threaded = bool(rng.random() < 0.5)
  loader, cache, mb, masked, init, step, release = build(
    rng, strict, delay=0.004 if threaded else 0.0)
  replicas = [init()] * k
  jstep = jax.jit(step, static_argnums=1)
  rounds = 3 * cache + 1
  draws = [0] * k
  results = [[] for _ in range(k)]

  def work(i, count):
    for _ in range(count):
      if threaded:
        time.sleep(float(i % 2) * 0.001)
      replicas[i], out = jstep(replicas[i], k)
      results[i].append(jax.tree_util.tree_map(onp.asarray, out))

  if threaded:
    # A replica may run ahead by one refresh, then waits for the others
    jstep(init(), k)  # compile
    extra = 1
    errors = []

    def guarded(i, barrier):
      try:
        for r in range(rounds):
          barrier.wait(60)
          work(i, 1)
      except BaseException as e:  # pylint: disable=broad-except
        errors.append(e)
        barrier.abort()

    barrier = threading.Barrier(k)
    threads = [threading.Thread(target=guarded, args=(i, barrier)) for i in range(k)]
    for t in threads:
      t.start()
    for t in threads:
      t.join()
    real = [e for e in errors if not isinstance(e, threading.BrokenBarrierError)]
    if real:
      raise real[0]
  else:
    for r in range(rounds):
      order = rng.permutation(k)
      for i in order:
        work(int(i), 1)
  for i in range(k):
    for d, out in enumerate(results[i]):
      verify(ctx, out, 0, d // cache, d % cache, cache, mb, masked,
             f"replica {i} of {k} draw {d}")
      ctx.count("draws")
  want = -(-rounds // cache)
  ctx.check(loader.counts[0] == want, "one-request-for-all-replicas",
            f"{loader.counts[0]} requests instead of {want} for {k} replicas")
  # A further replica than declared is outdated
  base = init()
  exhausted = base
  for _ in range(cache):
    exhausted, _ = jstep(exhausted, k)
  cid = int(base.chain_id)
  for i in range(k):
    jstep(exhausted, k)
  jax.effects_barrier()
  ctx.check(loader.counts[cid] == 2, "one-request-for-all-replicas",
            f"{loader.counts[cid]} requests instead of 2")
  if strict:
    e = fails(lambda: jstep(exhausted, k))
    ctx.check(e is not None, "stale-rejected",
              f"replica {k + 1} of {k} was accepted")
  else:
    _, out = jstep(exhausted, k)
    verify(ctx, out, cid, 2, 0, cache, mb, masked, "additional replica")
  ctx.count("requests", len(loader.log))
  ctx.state("replicated", k, strict, threaded, cache)
  ctx.interesting()
  ctx.sample = {"replicas": k, "threads": threaded}
  release()


def in_pmap(rng, ctx):
  """Replicated data states on several devices."""
  strict = True
  k = int(rng.integers(2, 5))
  loader, cache, mb, masked, init, step, release = build(rng, strict)
  length = int(rng.integers(cache + 1, 3 * cache + 3))

  def many(state):
    return lax.scan(lambda s, _: step(s, k), state, None, length=length)

  state = init()
  stacked = tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * k), state)
  stacked, outs = jax.pmap(many)(stacked)
  outs = [onp.asarray(o) for o in outs]
  for i in range(k):
    for d in range(length):
      verify(ctx, (outs[0][i, d], outs[1][i, d]), 0, d // cache, d % cache,
             cache, mb, masked, f"device {i} draw {d}")
      ctx.count("draws")
  want = max(1, -(-length // cache))
  ctx.check(loader.counts[0] == want, "one-request-for-all-replicas",
            f"{loader.counts[0]} requests instead of {want} for {k} devices")
  ctx.count("requests", len(loader.log))
  ctx.state("pmap", k, cache)
  ctx.interesting()
  ctx.sample = {"devices": k, "draws": length}
  release()


def fault(rng, ctx):
  """Transient failures of the loader."""
  strict = bool(rng.random() < 0.5)
  at = sorted(set(int(v) for v in rng.integers(3, 12, size=3)))
  loader, cache, mb, masked, init, step, release = build(rng, strict, fail_at=at)
  jstep = jax.jit(step)
  chains = [[init(), 0], [init(), 0]]
  n_faults = 0
  for k in range(14 * cache):
    i = int(rng.integers(2))
    state, d = chains[i]
    will_fail = d > 0 and d % cache == 0 and (loader.calls + 1) in loader.fail_at
    if will_fail:
      e = fails(lambda: jstep(state))
      n_faults += 1
      ctx.count("faults")
      if not ctx.check(e is not None, "failure-reported",
                       f"draw {d}: a failed request did not raise"):
        return
      continue
    chains[i][0], out = jstep(state)
    verify(ctx, out, i, d // cache, d % cache, cache, mb, masked,
           f"chain {i} draw {d} after {n_faults} failures")
    chains[i][1] += 1
    ctx.count("draws")
  ctx.count("requests", len(loader.log))
  ctx.state("fault", tuple(at), cache, strict)
  ctx.interesting(n_faults > 0)
  ctx.sample = {"failed": n_faults}
  release()


def released(rng, ctx):
  """Released functions request no more data."""
  from jax_sgmc import data
  loader, cache, mb, masked, init, step, release = build(rng, True)
  init2, get2, release2 = data.random_reference_data(loader, cache, mb)
  jstep = jax.jit(step)

  @jax.jit
  def jstep2(state):
    state, (batch, info) = get2(state, information=True)
    return state, (batch["stamp"], info.mask)

  a, b = init(), init2()
  ia, ib = int(a.chain_id), int(b.chain_id)
  ctx.check(ia != ib, "chain-id", "two functions share a chain of the loader")
  da = db = 0
  for _ in range(cache + 1):
    a, out = jstep(a)
    verify(ctx, out, ia, da // cache, da % cache, cache, mb, masked, "first function")
    da += 1
    b, out = jstep2(b)
    verify(ctx, out, ib, db // cache, db % cache, cache, mb, masked, "second function")
    db += 1
  release()
  before = len(loader.log)
  raised = None
  for _ in range(2 * cache):
    try:
      a, _ = jstep(a)
      jax.block_until_ready(a)
    except Exception as e:  # pylint: disable=broad-except
      raised = e
      break
  ctx.check(raised is not None, "released", "a released function still delivers data")
  ctx.check(len(loader.log) == before, "released",
            "the loader was asked for data by a released function")
  for _ in range(3 * cache):
    b, out = jstep2(b)
    verify(ctx, out, ib, db // cache, db % cache, cache, mb, masked,
           "second function after release of the first")
    db += 1
    ctx.count("draws")
  release2()
  ctx.count("requests", len(loader.log))
  ctx.state("release", cache, mb)
  ctx.interesting()
  ctx.sample = {"draws after release": db}


def ordered(rng, ctx):
  """Full passes consume the caches of an ordered chain in order."""
  from jax_sgmc import data
  cache, mb = int(rng.integers(1, 6)), int(rng.integers(1, 5))
  n = int(rng.integers(mb, 40))
  loader = make_loader(n, False)
  init, full_map, release = data.full_reference_data(loader, cache, mb)
  per_pass = -(-n // mb)

  def fun(batch, mask, carry):
    return (batch["stamp"], mask), carry

  mapper = jax.jit(lambda st: full_map(fun, st, None, masking=True))
  states = [init(), init()]
  count = [0, 0]
  for k in range(5):
    i = int(rng.integers(2))
    states[i], ((stamps, masks), _) = mapper(states[i])
    stamps = onp.asarray(stamps)
    if not ctx.check(stamps.shape == (per_pass, mb, 4), "pass-length", f"{stamps.shape}"):
      return
    for b in range(per_pass):
      d = count[i]
      verify(ctx, (stamps[b], onp.ones(mb, bool)), i, d // cache, d % cache,
             cache, mb, False, f"chain {i} batch {d}")
      count[i] += 1
      ctx.count("draws")
    ctx.check(onp.asarray(masks).sum() == n, "pass-mask", "wrong number of valid rows")
    want = max(1, -(-count[i] // cache))
    ctx.check(loader.counts[i] == want, "one-request-per-refresh",
              f"{loader.counts[i]} requests instead of {want}")
  # Calls with outdated states are always verified here
  st0 = init()
  st1 = st0
  c0 = int(st0.chain_id)
  reached = False
  for _ in range(8):
    st1, _ = mapper(st1)
    if loader.counts[c0] > 1:
      reached = True
      break
  if reached and per_pass > cache:  # the pass needs more than its own cache
    e = fails(lambda: mapper(st0))
    ctx.check(e is not None, "stale-rejected", "outdated state of a full data map accepted")
    ctx.count("stale")
  ctx.count("requests", len(loader.log))
  ctx.state("ordered", cache, per_pass)
  ctx.interesting()
  ctx.sample = {"batches per pass": per_pass, "cache": cache}
  release()
