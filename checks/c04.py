"""C04: a saved data loader state resumes exactly where it was saved."""
import copy
import pickle

import numpy as onp

from vlib import util as u

PROPERTY = "C04"
RULE = (
  "Each case is a random history of register / draw / save / restore over "
  "several chains and loaders of the same dataset; the model of a chain is a "
  "position in the stream of an undisturbed reference chain, a checkpoint is a "
  "remembered position. Restores go to the same chain, a sibling chain with "
  "another seed or another loader, repeatedly, from pickled or original "
  "checkpoints. Non-trivial: at least two restores, one of them from a "
  "checkpoint that was used before or whose chain has moved on.")
ASSUMPTIONS = ["a checkpoint is restored into a chain registered with the same "
               "mode, batch and cache size (seeds may differ)"]
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 28, "thorough": 360}

MODES = {"draw": {}, "shuffle": {"shuffle": True},
         "epochs": {"shuffle": True, "in_epochs": True}, "ordered": None}


def gen(rng, tier):
  modes = ["draw", "shuffle", "epochs", "ordered"]
  for i in range(24):
    yield dict(core=True, kind=modes[i % 4], seed=u.seed(rng), ops=60)
  # Exhaustive: save at every point of the first epochs
  for mode in modes:
    for n, mb, cache in ((7, 3, 1), (5, 5, 2), (6, 2, 2), (9, 4, 1)):
      yield dict(core=True, kind=mode + "-all", n=n, mb=mb, cache=cache,
                 seed=u.seed(rng))
  # More rows, or more batches per epoch, than short integers count
  for mode in modes:
    yield dict(core=True, kind=mode, n=70001, mb=9000, cache=1 + len(mode) % 2, seed=u.seed(rng), ops=50)
    yield dict(core=True, kind=mode, n=700, mb=1, cache=40, seed=u.seed(rng), ops=50)
  for _ in range(400 if tier == "quick" else 8000):
    yield dict(kind=u.choice(rng, modes + ["mixed"]), seed=u.seed(rng),
               ops=int(rng.integers(20, 140)))


class Ref:
  """Undisturbed stream of a chain."""

  def __init__(self, data, mode, mb, cache, seed):
    from jax_sgmc.data.numpy_loader import NumpyDataLoader
    self.loader = NumpyDataLoader(**data)
    self.chain = register(self.loader, mode, mb, cache, seed)
    self.stream = []

  def __getitem__(self, pos):
    while len(self.stream) <= pos:
      self.stream.append(draw(self.loader, self.chain))
    return self.stream[pos]


def register(loader, mode, mb, cache, seed):
  if mode == "ordered":
    return loader.register_ordered_pipeline(cache, mb_size=mb)
  kwargs = dict(MODES[mode])
  if seed is not None:
    kwargs["seed"] = seed
  return loader.register_random_pipeline(cache, mb_size=mb, **kwargs)


def draw(loader, chain):
  batch, mask = loader.get_batches(chain)
  return ({k: onp.array(v) for k, v in batch.items()}, onp.array(mask))


def same(a, b):
  if isinstance(a, dict):
    return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)):
    return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
  if isinstance(a, onp.ndarray):
    return isinstance(b, onp.ndarray) and onp.array_equal(a, b)
  return type(a) is type(b) and a == b


def verify(ctx, got, want, what):
  u.equal(ctx, got[0], want[0], "resumed-batches", what, dtype=True)
  u.equal(ctx, got[1], want[1], "resumed-masks", what)


def run(case, ctx):
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  rng = u.rng_of(case)
  if case["kind"].endswith("-all"):
    return run_all(case, ctx)
  n = case.get("n") or u.randint(rng, 1, 25)
  data = u.dataset(n, case["seed"], extra=1)
  loaders = [NumpyDataLoader(**data) for _ in range(2)]
  configs = []
  for _ in range(2):
    mode = case["kind"] if case["kind"] != "mixed" else u.choice(rng, sorted(MODES))
    configs.append((mode, case.get("mb") or u.randint(rng, 1, n),
                    case.get("cache") or u.randint(rng, 1, 4)))
  refs = {}

  def ref(config, seed):
    if (config, seed) not in refs:
      refs[config, seed] = Ref(data, *config, seed)
    return refs[config, seed]

  chains = []  # [loader, id, config, seed of the stream, position]
  ckpts = []   # [config, seed, position, checkpoint, snapshot, uses]
  restores = 0
  good = 0
  for op_idx in range(case["ops"]):
    op = rng.random()
    if len(chains) < 2 or (op < 0.08 and len(chains) < 6):
      config = u.choice(rng, configs)
      seed = int(rng.integers(0, 4))
      loader = u.choice(rng, loaders)
      cid = register(loader, *config, seed)
      chains.append([loader, cid, config, seed, 0])
    elif op < 0.55:
      c = u.choice(rng, chains)
      for _ in range(int(rng.integers(1, 4))):
        verify(ctx, draw(c[0], c[1]), ref(c[2], c[3])[c[4]],
               f"op {op_idx}: chain {c[1]} {c[2]} position {c[4]}")
        c[4] += 1
        ctx.count("draws")
    elif op < 0.75:
      c = u.choice(rng, chains)
      ckpt = c[0].save_state(c[1])
      snapshot = copy.deepcopy(ckpt)
      if rng.random() < 0.3:
        ckpt = pickle.loads(pickle.dumps(ckpt))
      ckpts.append([c[2], c[3], c[4], ckpt, snapshot, 0])
      ctx.count("saves")
    elif ckpts:
      k = u.choice(rng, ckpts)
      fits = [c for c in chains if c[2] == k[0]]
      c = u.choice(rng, fits)
      good += k[5] > 0 or c[4] != k[2]
      c[0].load_state(c[1], k[3])
      c[3], c[4] = k[1], k[2]
      k[5] += 1
      restores += 1
      ctx.count("restores")
      ctx.state(k[0][0], k[2] % 7, k[5] > 1, c[4] > 0)
    for k in ckpts:
      ctx.check(same(k[3], k[4]), "checkpoint-unchanged",
                lambda: f"op {op_idx}: checkpoint became {str(k[3])[:500]} from {str(k[4])[:500]}")
  for c in chains:
    for _ in range(3):
      verify(ctx, draw(c[0], c[1]), ref(c[2], c[3])[c[4]],
             f"end: chain {c[1]} {c[2]} position {c[4]}")
      c[4] += 1
  ctx.interesting(restores >= 2 and good)
  ctx.sample = {"restores": restores, "configs": configs, "rows": n}


def run_all(case, ctx):
  """Checkpoints at every point, each restored twice."""
  from jax_sgmc.data.numpy_loader import NumpyDataLoader
  mode = case["kind"].split("-")[0]
  n, mb, cache = case["n"], case["mb"], case["cache"]
  data = u.dataset(n, case["seed"], extra=1)
  ref = Ref(data, mode, mb, cache, 11)
  loader, other = NumpyDataLoader(**data), NumpyDataLoader(**data)
  chain = register(loader, mode, mb, cache, 11)
  sibling = register(loader, mode, mb, cache, 4)
  foreign = register(other, mode, mb, cache, 3)
  points = 3 * (-(-n // (mb * cache))) + 3
  ckpts = []
  for pos in range(points):
    ckpt = loader.save_state(chain)
    ckpts.append((ckpt, copy.deepcopy(ckpt)))
    verify(ctx, draw(loader, chain), ref[pos], f"undisturbed {pos}")
  for rounds in range(2):
    for pos, (ckpt, snapshot) in enumerate(ckpts):
      for ld, ch in ((loader, chain), (loader, sibling), (other, foreign)):
        ld.load_state(ch, ckpt)
        for k in range(points // 2 + 2):
          verify(ctx, draw(ld, ch), ref[pos + k],
                 f"round {rounds} restored at {pos}, draw {k}")
        ctx.count("restores")
        ctx.check(same(ckpt, snapshot), "checkpoint-unchanged", f"position {pos}")
      ctx.state(mode, n, mb, cache, pos)
  ctx.interesting()
  ctx.sample = {"save points": points}
