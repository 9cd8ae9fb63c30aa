"""C07: TensorFlow and HDF5 loaders deliver the stored data faithfully."""
import os
import shutil
import sys
import tempfile
import threading
import warnings
from collections import Counter

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, tree_util

from vlib import util as u

PROPERTY = "C07"
RULE = (
  "HDF5 cases write chains of samples of random tree structure (every value "
  "identifies chain, sample and leaf) with the real collector and read them "
  "back with the loader in order, randomly and shuffled, as whole trees and "
  "subtrees, by path and open handle. TensorFlow cases draw long streams from "
  "several interleaved or concurrently registered chains of a pipeline with "
  "excluded string fields; every drawn row and the multiset of all rows so far "
  "are checked. Non-trivial: several leaves or chains and more draws than "
  "stored rows.")
ASSUMPTIONS = ["a shuffle buffer of B elements may hold back B elements"]
BUDGET = {"quick": 34, "thorough": 360}
TIMEOUT = 150


def gen(rng, tier):
  kinds = ["h5-order", "h5-random", "h5-shuffle", "h5-sub", "tf", "tf-chains",
           "tf-threads"]
  for i in range(28):
    yield dict(core=True, kind=kinds[i % 7], seed=u.seed(rng))
  # More rows than a byte counts
  for kind in kinds[:3]:
    yield dict(core=True, kind=kind, rows=int(rng.integers(260, 420)), seed=u.seed(rng))
  for n in (int(rng.integers(300, 1000)), 70001):
    yield dict(core=True, kind="tf", rows=n, seed=u.seed(rng))
  for _ in range(200 if tier == "quick" else 3000):
    yield dict(kind=u.choice(rng, kinds), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  if case["kind"].startswith("h5"):
    tmp = tempfile.mkdtemp(prefix="c07_")
    try:
      hdf5(rng, ctx, case["kind"][3:], tmp, case.get("rows"))
    finally:
      shutil.rmtree(tmp, ignore_errors=True)
  else:
    kw = {"many": case["rows"]} if "rows" in case else {}
    {"tf": tf_single, "tf-chains": tf_chains, "tf-threads": tf_threads}[case["kind"]](rng, ctx, **kw)


# --- HDF5 --------------------------------------------------------------------

LEAF_DTYPES = [onp.float32, onp.float32, onp.int32, onp.uint8, onp.bool_, onp.float16]


def stamped(spec, chain, row, dtypes):
  """Sample whose leaves identify chain, row and leaf."""
  count = [0]

  def leaf(shape):
    k = count[0]
    count[0] += 1
    dt = dtypes[k]
    size = int(onp.prod(shape))
    base = row * 7 + chain * 3 + k * 5
    vals = base + onp.arange(size)
    if dt == onp.bool_:
      vals = (vals * 2654435761 >> 7) % 2
    elif dt == onp.uint8:
      vals = vals % 251
    elif dt == onp.float16:
      vals = vals % 2000
    else:
      vals = row * 1000 + chain * 100 + k * 10 + onp.arange(size)
    return vals.reshape(shape).astype(dt)
  return u.build_tree(spec, leaf)


def hdf5(rng, ctx, kind, tmp, many=None):
  import h5py
  from jax_sgmc import data, io, scheduler
  from jax_sgmc.data.hdf5_loader import HDF5Loader

  while True:
    spec = u.tree_spec(rng, depth=3, max_leaves=5)
    if spec["t"] == "dict" or kind != "sub":
      break
  # One leaf reliably identifies the row
  spec = {"t": "dict", "keys": ["variables", "likelihood"],
          "kids": [spec, {"t": "leaf", "shape": []}]}
  n_leaves = len(tree_util.tree_leaves(u.build_tree(spec, lambda s: 0)))
  dtypes = [u.choice(rng, LEAF_DTYPES) for _ in range(n_leaves)]
  dtypes[0] = onp.float32
  n_chains = int(rng.integers(1, 4))
  rows = [many or int(rng.integers(1, 26)) for _ in range(n_chains)]

  path = os.path.join(tmp, "samples.h5")
  file = h5py.File(path, "w")
  collector = io.HDF5Collector(file)
  init_save, save, post = io.save(collector)
  stored = []
  for c in range(n_chains):
    trees = [stamped(spec, c, r, dtypes) for r in range(rows[c])]
    stacked = tree_util.tree_map(lambda *x: onp.stack(x), *trees)
    stored.append(stacked)
    static = scheduler.static_information(samples_collected=rows[c])
    state = init_save(tree_util.tree_map(jnp.asarray, trees[0]), {}, static)
    # Samples which are not kept must not show up
    idx, keep = [], []
    for r in range(rows[c]):
      for _ in range(int(rng.integers(0, 3))):
        idx.append(int(rng.integers(rows[c])))
        keep.append(False)
      idx.append(r)
      keep.append(True)
    device = tree_util.tree_map(jnp.asarray, stacked)

    @jax.jit
    def write(state, device, idx, keep):
      def body(st, x):
        i, k = x
        return save(st, k, tree_util.tree_map(lambda l: l[i], device))
      return lax.scan(body, state, (idx, keep))[0]
    state = write(state, device, jnp.asarray(idx), jnp.asarray(keep))
    post(state, None)
    ctx.count("written", rows[c])
  as_file = bool(rng.random() < 0.5)
  file.close()

  # --- Read back
  c = int(rng.integers(n_chains))
  n = rows[c]
  if kind == "sub" or rng.random() < 0.3:
    sub = "variables"
    target = tree_util.tree_map(lambda x: x[0], stored[c]["variables"])
    want = stored[c]["variables"]
    subdir = f"/chain~{c}/variables/"
    if kind == "sub" and isinstance(target, dict):
      name = u.choice(rng, sorted(target))
      target, want = target[name], want[name]
      subdir = f"/chain~{c}/variables/{name}" + ("/" if not hasattr(target, "shape") else "")
      if hasattr(target, "shape"):  # a single array
        target, want, subdir = {name: target}, {name: want}, f"/chain~{c}/variables/"
  else:
    sub = "all"
    target = tree_util.tree_map(lambda x: x[0], stored[c])
    want = stored[c]
    subdir = f"/chain~{c}/"
  target = tree_util.tree_map(jnp.asarray, target)
  handle = h5py.File(path, "r") if as_file else path
  if as_file and hasattr(target, "shape"):
    return
  if hasattr(target, "shape"):  # the whole tree is one array
    subdir = subdir.rstrip("/")
  default = subdir == "/chain~0/variables/" and rng.random() < 0.5
  loader = (HDF5Loader(handle, sample=target) if default
            else HDF5Loader(handle, subdir=subdir, sample=target))
  try:
    ctx.check(int(loader.static_information["observation_count"]) == n,
              "observation-count", f"{loader.static_information} for {n} samples")
    init_batch = loader.initializer_batch()
    u.same_structure(ctx, init_batch, target, "tree-structure")
    for got, exp in zip(u.leaves(init_batch), u.leaves(target)):
      ctx.check(got.shape == exp.shape and got.dtype == exp.dtype, "format",
                f"{got.shape} {got.dtype} instead of {exp.shape} {exp.dtype}")

    # Rows are recognized by the content of all leaves
    def rowkey(leaf_list, r):
      return tuple(l[r].tobytes() for l in leaf_list)
    want_leaves = [onp.asarray(jnp.asarray(l)) for l in u.leaves(want)]
    known = {}
    for r in range(n):
      known.setdefault(rowkey(want_leaves, r), []).append(r)

    def rows_of(batch, what):
      """Indices of the stored rows (None if a row does not exist)."""
      if not u.same_structure(ctx, batch, target, "tree-structure"):
        return None
      ls = u.leaves(batch)
      out = []
      for l, w in zip(ls, want_leaves):
        if not ctx.check(l.shape[1:] == w.shape[1:] and l.dtype == w.dtype,
                         "format", f"{what}: {l.shape} {l.dtype}"):
          return None
      for r in range(len(ls[0])):
        found = known.get(rowkey(ls, r))
        if not ctx.check(found is not None, "row-exists-and-aligned",
                         f"{what}: row {[u.short(l[r]) for l in ls]} has never been saved"):
          return None
        out.append(found[0])
      return out

    cache = int(rng.integers(1, 6))
    mb = int(rng.integers(1, n + 1))
    if kind in ("order", "sub"):
      init, full_map, release = data.full_reference_data(loader, cache, mb)
      state = init()
      fn = jax.jit(lambda st: full_map(lambda b, car: (b, car), st, None))
      for k in range(3):
        state, (batch, _) = fn(state)
        u.same_structure(ctx, batch, target, "tree-structure")
        u.equal(ctx, batch, tree_util.tree_map(jnp.asarray, want), "ordered-rows",
                f"pass {k}")
        ctx.count("rows", n)
      release()
    else:
      shuffle = kind == "shuffle"
      init, get, release = data.random_reference_data(loader, cache, mb)
      states = [init(shuffle=shuffle, seed=int(rng.integers(1000))) for _ in range(2)]
      fn = jax.jit(lambda st: get(st, information=True))
      logs = [[], []]
      for k in range(3 * (-(-n // mb)) + 2):
        for j in range(2):
          states[j], (batch, info) = fn(states[j])
          ctx.check(int(info.observation_count) == n and int(info.batch_size) == mb
                    and bool(onp.all(onp.asarray(info.mask))), "information", f"{info}")
          got = rows_of(batch, f"draw {k}")
          if got is None:
            return
          ctx.check(len(got) == mb, "batch-size", f"{len(got)} rows instead of {mb}")
          logs[j] += got
          ctx.count("rows", mb)
      if shuffle and len(known) == n:
        for log in logs:
          for e in range(len(log) // n):
            ctx.check(sorted(log[e * n:(e + 1) * n]) == list(range(n)),
                      "shuffled-epoch", f"epoch {e}: {log[e * n:(e + 1) * n]}")
      release()
  finally:
    loader.close()
  ctx.state(kind, sub, n_leaves, n_chains, as_file, n % mb == 0)
  ctx.interesting(n_leaves > 2 or n_chains > 1)
  ctx.sample = {"leaves": n_leaves, "rows": n, "chains": n_chains, "mb": mb, "cache": cache}


# --- Tensorflow --------------------------------------------------------------

TF_DTYPES = ["float32", "int32", "uint8", "bool", "int64"]


def tf_setup(rng, n=None, buffer=None):
  from tensorflow import data as tfd
  from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader
  n = n or u.randint(rng, 2, 60)
  buffer = buffer or u.randint(rng, 1, 2 * n)
  fields = {"idx": onp.arange(n, dtype=onp.int32)}
  for k in range(int(rng.integers(1, 4))):
    shape = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))
    dt = onp.dtype(u.choice(rng, TF_DTYPES))
    raw = rng.integers(0, 2 if dt == bool else 200, size=(n,) + shape)
    fields[f"f{k}"] = raw.astype(dt)
  excluded = []
  full = dict(fields)
  if rng.random() < 0.6:
    full["name"] = onp.asarray([f"obs_{i}".encode() for i in range(n)])
    excluded.append("name")
    if rng.random() < 0.4:
      full["drop"] = rng.normal(size=(n, 2)).astype(onp.float32)
      excluded.append("drop")
  pipeline = tfd.Dataset.from_tensor_slices(full)
  kwargs = dict(shuffle_cache=buffer)
  if excluded or rng.random() < 0.5:
    kwargs["exclude_keys"] = excluded or None
  loader = TensorflowDataLoader(pipeline, **kwargs)
  data = {k: (v.astype(onp.int32) if v.dtype == onp.int64 else v)
          for k, v in fields.items()}
  return loader, data, n, buffer


class Multiset:
  """Each draw removes an element from the repeated, buffered pipeline."""

  def __init__(self, n, buffer):
    self.n, self.buffer, self.total, self.counts = n, buffer, 0, onp.zeros(n, int)

  def add(self, ctx, idx, what):
    for i in idx:
      self.counts[i] += 1
    self.total += len(idx)
    reach = self.total + self.buffer
    prefix = onp.full(self.n, reach // self.n)
    prefix[:reach % self.n] += 1
    return ctx.check(
      onp.all(self.counts <= prefix), "equally-often",
      lambda: f"{what}: after {self.total} draws of {self.n} observations "
              f"(buffer {self.buffer}) an observation was drawn "
              f"{self.counts.max()} times: {u.short(self.counts)}")


def check_format(ctx, loader, data, n):
  ctx.check(int(loader.static_information["observation_count"]) == n,
            "observation-count", f"{loader.static_information}")
  init = loader.initializer_batch()
  ctx.check(set(init) == set(data), "format", f"fields {sorted(init)}")
  for k, v in init.items():
    ctx.check(v.shape == data[k].shape[1:], "format", f"{k}: {v.shape}")


def draws(rng, n, mb):
  return int(rng.integers(2, 6)) * (-(-n // mb)) + 3


def tf_single(rng, ctx, many=None):
  """Chains used through the data access functions."""
  from jax_sgmc import data as jdata
  loader, data, n, buffer = tf_setup(rng, n=many)
  check_format(ctx, loader, data, n)
  mb, cache = u.randint(rng, n // 12 if many else 1, n), int(rng.integers(1, 6))
  init, get, release = jdata.random_reference_data(loader, cache, mb)
  step = jax.jit(lambda st: get(st, information=True))
  state = init()
  first = step(state)[1][0]
  again = step(state)[1][0]
  u.equal(ctx, again, first, "pure", "drawing twice from the same state")
  # The streams of the chain consist of complete caches
  pool = Multiset(n, buffer + cache * mb)
  for k in range(draws(rng, n, mb)):
    state, (batch, info) = step(state)
    ctx.check(int(info.observation_count) == n and int(info.batch_size) == mb
              and info.mask.shape == (mb,) and bool(onp.all(onp.asarray(info.mask))),
              "information", f"{info}")
    idx = u.check_rows(ctx, batch, data, "row-exists-and-aligned", f"draw {k}")
    if idx is None or not ctx.check(len(idx) == mb, "batch-size", f"{len(idx)}"):
      return
    ctx.count("rows", mb)
    if not pool.add(ctx, idx, f"draw {k}"):
      return
  release()
  ctx.state("tf", len(data), buffer >= n, n % mb == 0, cache)
  ctx.interesting(pool.total > n)
  ctx.sample = {"n": n, "buffer": buffer, "draws": pool.total}


def tf_chains(rng, ctx):
  """Several chains of one loader in turns."""
  n = int(rng.integers(20, 70))
  loader, data, n, buffer = tf_setup(rng, n=n, buffer=n if rng.random() < 0.6 else None)
  sizes = [(int(rng.integers(1, 5)), u.randint(rng, 1, n))
           for _ in range(int(rng.integers(2, 5)))]
  ids = [int(loader.register_random_pipeline(c, mb_size=m)) for c, m in sizes]
  ctx.check(len(set(ids)) == len(ids), "chain-ids", f"{ids}")
  pools = [Multiset(n, buffer) for _ in ids]
  seen = [[] for _ in ids]
  for k in range(60):
    # Some chains are asked more often
    j = min(int(rng.integers(len(ids))), int(rng.integers(len(ids))))
    batch, mask = loader.get_batches(ids[j])
    cache, mb = sizes[j]
    ctx.check(mask is None or bool(onp.all(onp.asarray(mask))), "mask", f"{mask}")
    flat = {}
    for f, v in batch.items():
      v = onp.asarray(v)
      if not ctx.check(v.shape[:2] == (cache, mb), "batch-shape",
                       f"chain {j}: {v.shape} instead of {(cache, mb)}"):
        return
      flat[f] = v.reshape((-1,) + v.shape[2:])
    idx = u.check_rows(ctx, flat, data, "row-exists-and-aligned", f"chain {j}")
    if idx is None or not pools[j].add(ctx, idx, f"chain {j} request {k}"):
      return
    seen[j] += idx.tolist()
    ctx.count("rows", len(idx))
  # Pairwise different order if the buffer really shuffles
  if buffer >= 20:
    for a in range(len(ids)):
      for b in range(a):
        m = min(len(seen[a]), len(seen[b]))
        if m >= 20:
          ctx.check(seen[a][:m] != seen[b][:m], "independent-streams",
                    f"chains {a} and {b} receive the same stream")
  # ... and no correlation between the epochs of one chain
  ctx.state("tf-chains", len(ids), buffer >= n)
  ctx.interesting()
  ctx.sample = {"chains": len(ids), "draws": [p.total for p in pools]}


def tf_threads(rng, ctx):
  """Chains registered and used by several threads."""
  loader, data, n, buffer = tf_setup(rng, n=int(rng.integers(6, 40)))
  k = int(rng.integers(3, 9))
  out = [None] * k
  errors = []
  barrier = threading.Barrier(k)

  def work(i):
    try:
      barrier.wait(60)
      cid = loader.register_random_pipeline(1 + i % 3, mb_size=i + 1)
      res = [loader.get_batches(cid)[0] for _ in range(4)]
      out[i] = (int(cid), res)
    except BaseException as e:  # pylint: disable=broad-except
      errors.append(e)
      barrier.abort()

  interval = sys.getswitchinterval()
  sys.setswitchinterval(1e-5)
  try:
    threads = [threading.Thread(target=work, args=(i,)) for i in range(k)]
    for t in threads:
      t.start()
    for t in threads:
      t.join()
  finally:
    sys.setswitchinterval(interval)
  if errors:
    raise errors[0]
  ids = [o[0] for o in out]
  ctx.check(len(set(ids)) == k, "chain-ids", f"concurrent chains have the ids {ids}")
  for i, (_, res) in enumerate(out):
    pool = Multiset(n, buffer)
    for batch in res:
      shapes = {tuple(onp.shape(v)[:2]) for v in batch.values()}
      if not ctx.check(shapes == {(1 + i % 3, i + 1)}, "batch-shape",
                       f"thread {i} received batches {shapes}"):
        return
      flat = {f: onp.asarray(v).reshape((-1,) + onp.shape(v)[2:]) for f, v in batch.items()}
      idx = u.check_rows(ctx, flat, data, "row-exists-and-aligned", f"thread {i}")
      if idx is None or not pool.add(ctx, idx, f"thread {i}"):
        return
      ctx.count("rows", len(idx))
  ctx.state("tf-threads", k, tuple(ids))
  ctx.interesting()
  ctx.sample = {"threads": k, "ids": ids}
