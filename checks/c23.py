"""C23: collected samples are complete and durable when a run returns."""
import contextlib
import json
import os
import shutil
import tempfile
import threading
import time
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import tree_util

from vlib import trees
from vlib import util as u

PROPERTY = "C23"
DEVICES = 4
RULE = (
  "Samplers walk through prepared tables of samples (all structures and types) with "
  "random keep patterns, several chains and several collectors, one after another, "
  "in parallel on devices and in concurrent threads. Monitors wrap the collectors, "
  "delay every save, every finalization and every writer at random and record the "
  "events. At the moment the run returns, the results and files are read and "
  "compared with the table bit by bit, and again after the file has been closed. "
  "Periodic files are compared with the samples collected until then. Kind fault: "
  "the collector or the storage fails once; the run must neither hang nor return "
  "as if everything were saved. Kind direct: the saving functions are used without "
  "driver, with interleaved chains. Kind names: the joined names of two leaves are "
  "equal; the samples must be complete or the run be refused. Non-trivial: delayed events of several chains "
  "or several samples.")
ASSUMPTIONS = [
  "several chains at a time run on several devices or in several threads with a "
  "collector each",
  "JSON samples are finite; JSON files list the leaves in the order of the tree"]
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 32, "thorough": 420}
TIMEOUT = 150

BACKENDS = ["memory", "npz", "json", "hdf5"]


def gen(rng, tier):
  for backend in BACKENDS:
    for kind in ("map", "pmap", "threads", "direct"):
      yield dict(core=True, kind=kind, backend=backend, seed=u.seed(rng))
    yield dict(core=True, kind="map", backend=backend, seed=u.seed(rng))
    yield dict(core=True, kind="names", backend=backend, seed=u.seed(rng))
    for where in ("save", "finalize", "storage"):
      yield dict(core=True, kind="fault", backend=backend, where=where, seed=u.seed(rng))
  for _ in range(600 if tier == "quick" else 10000):
    kind = u.choice(rng, ["map", "map", "pmap", "pmap", "threads", "direct", "fault", "names"])
    case = dict(kind=kind, backend=u.choice(rng, BACKENDS), seed=u.seed(rng))
    if kind == "fault":
      case["where"] = u.choice(rng, ["save", "finalize", "storage"])
    yield case


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  folder = tempfile.mkdtemp(prefix="verif_c23_")
  try:
    {"map": driver, "pmap": driver, "threads": concurrent, "direct": direct,
     "fault": fault, "names": names}[case["kind"]](case, ctx, rng, folder)
  finally:
    shutil.rmtree(folder, ignore_errors=True)


class Table:
  """Prepared samples of the chains."""

  def __init__(self, rng, backend, length, chains):
    # Types which the backends can represent and paths which they can name
    keys = trees.KEYS + ["mlp/~/linear_0", "mlp/~/linear_1", "linear/w"]
    spec = trees.array_leaf(rng)
    self.tree = trees.random_tree(rng, spec, depth=int(rng.integers(0, 4)), max_leaves=8, keys=keys)
    if not tree_util.tree_leaves(self.tree):
      self.tree = {"w": self.tree, "b": spec(0)}
    if not isinstance(self.tree, (dict, list, tuple)):
      self.tree = {"w": self.tree}  # needs a name
    self.names = ["/".join(str(k) for k in p) for p, _ in trees.paths(self.tree)]
    ls, self.td = tree_util.tree_flatten(self.tree)
    self.columns = []
    for l in ls:
      v = rng.integers(0, 250, size=(chains, length) + l.shape)
      if l.dtype == bool:
        v = v % 2
      col = v.astype(l.dtype)
      if l.dtype.kind == "f":
        col = (col / 8).astype(l.dtype)
        if backend != "json" and col.size and rng.random() < 0.3:
          flat = col.reshape(-1)
          flat[int(rng.integers(flat.size))] = u.choice(rng, [onp.nan, onp.inf, -onp.inf])
      self.columns.append(col)
    self.keep = rng.random(size=(length,)) < u.choice(rng, [0.2, 0.6, 1.0])

  def want(self, chain, count=None):
    idx = onp.flatnonzero(self.keep)[:count]
    return [c[chain][idx] for c in self.columns]

  def device(self):
    return [jnp.asarray(c) for c in self.columns]


class Log:
  """Recorded events (kind, chain) with a lock."""

  def __init__(self):
    self.lock = threading.Lock()
    self.events = []

  def __call__(self, *event):
    with self.lock:
      self.events.append(event)


def nap(delays, kind):
  lo, hi = delays.get(kind, (0, 0))
  if hi > 0:
    with delays["lock"]:
      t = delays["rng"].uniform(lo, hi)
      if delays["rng"].random() < 0.5:
        return
    time.sleep(t)


def random_delays(rng, slow=1.0):
  d = {"lock": threading.Lock(), "rng": onp.random.default_rng(int(rng.integers(1 << 30)))}
  for kind, most in (("save", 0.004), ("finalize", 0.08), ("late", 0.05), ("writer", 0.08),
                     ("finished", 0.02)):
    if rng.random() < 0.7:
      d[kind] = (0.0, float(rng.uniform(0.1, 1)) * most * slow)
  return d


def make_collector(backend, folder, rng, delays, log, frequency=None, fail=None):
  """Collector with monitors around its interface."""
  from jax_sgmc import io
  file = None
  fail = fail or {}
  if backend in ("memory", "npz"):
    base, args = io.MemoryCollector, {}
    if backend == "npz":
      args["save_dir"] = os.path.join(folder, "npz")
  elif backend == "json":
    base, args = io.JSONCollector, {"dir": os.path.join(folder, "json")}
    if frequency is not None:
      args["write_frequency"] = frequency
  else:
    import h5py
    file = h5py.File(os.path.join(folder, "out.hdf5"), "w")
    base, args = io.HDF5Collector, {"file": file}

  class Monitored(base):
    def register_chain(self, *a, **k):
      chain = super().register_chain(*a, **k)
      log("register", int(chain))
      return chain

    def save(self, chain_id, values):
      nap(delays, "save")
      if fail.get("save") is not None and len([e for e in log.events if e[0] == "saved"]) >= fail["save"]:
        fail["save"], fail["raised"] = None, True
        raise OSError("injected fault")
      log("save", int(chain_id))
      out = super().save(chain_id, values)
      log("saved", int(chain_id))
      return out

    def finalize(self, chain_id):
      log("finalize", int(chain_id))
      nap(delays, "finalize")
      if fail.pop("finalize", None):
        fail["raised"] = True
        raise OSError("injected fault")
      out = super().finalize(chain_id)
      log("finalized", int(chain_id))
      nap(delays, "late")
      return out

    def finished(self, chain_id):
      nap(delays, "finished")
      out = super().finished(chain_id)
      log("finished", int(chain_id))
      return out
  return Monitored(**args), file


@contextlib.contextmanager
def slow_writers(delays, fail=None):
  """The writers below the collectors need time or fail."""
  from jax_sgmc import io
  fail = fail or {}
  undo = []

  def wrap(owner, name):
    old = getattr(owner, name)

    def slow(*a, **k):
      nap(delays, "writer")
      if fail.pop("storage", None):
        fail["raised"] = True
        raise OSError("injected fault")
      return old(*a, **k)
    setattr(owner, name, slow)
    undo.append((owner, name, old))
  wrap(onp, "savez")
  wrap(onp, "savez_compressed")
  wrap(json, "dump")
  wrap(json, "dumps")
  if getattr(io, "ujson", None) is not None:
    wrap(io.ujson, "dump")
    wrap(io.ujson, "dumps")
  try:
    import h5py
    if fail.get("storage"):
      wrap(h5py.Dataset, "__setitem__")
    yield
  finally:
    for owner, name, old in reversed(undo):
      setattr(owner, name, old)


def sampler(table):
  """Solver which walks through the table."""
  cols = table.device()

  def init(chain):
    return {"chain": jnp.int32(chain), "n": jnp.int32(-1)}

  def update(state, schedule):
    del schedule
    return {"chain": state["chain"], "n": state["n"] + 1}, None

  def get(state):
    n = jnp.maximum(state["n"], 0)
    return tree_util.tree_unflatten(table.td, [c[state["chain"], n] for c in cols])
  return init, update, get


def scheduler_of(table):
  from jax_sgmc import scheduler
  from jax_sgmc.scheduler import specific_scheduler
  keep = jnp.asarray(table.keep)
  thinning = specific_scheduler(
    lambda iterations: (None, int(table.keep[:iterations].sum())),
    lambda state, iteration, **kw: None,
    lambda state, iteration, **kw: keep[iteration])
  return scheduler.init_scheduler(thinning=thinning, progress_bar=False)


def check_log(ctx, log, chains, count, what):
  """Order of the events at the collector."""
  for c in chains:
    mine = [e[0] for e in log.events if e[1] == c]
    ctx.check(mine.count("save") == count == mine.count("saved"), "saved-count",
              f"{what} chain {c}: {mine.count('saved')} saved of {count}")
    ctx.check(mine.count("finalized") == 1 and mine.count("finished") >= 1, "finalized",
              f"{what} chain {c}: {mine[-6:]}")
    if "finalize" in mine and "saved" in mine:
      last = len(mine) - 1 - mine[::-1].index("saved")
      ctx.check(last < mine.index("finalize"), "finalized-last",
                f"{what} chain {c}: saved a sample after finalizing: {mine[-6:]}")
  ctx.count("events", len(log.events))
  order = tuple(e[1] for e in log.events if e[0] in ("save", "finalize"))
  ctx.state("interleaving", order)


def check_result(ctx, table, chain, backend, folder, file, collector_chain, result, what, frequency=0):
  """Results and files at the moment the run returned."""
  want = table.want(chain)
  n = int(table.keep.sum())
  w = f"{what} chain {chain}"
  ctx.check(int(result["sample_count"]) == n, "sample-count", f"{w}: {result['sample_count']} of {n}")
  if backend in ("memory", "npz"):
    if u.same_structure(ctx, result["samples"], table.tree, "structure"):
      u.equal(ctx, tree_util.tree_leaves(result["samples"]), want, "samples", w, dtype=True)
  ctx.count("samples", n)
  check_files(ctx, table, chain, backend, folder, file, collector_chain, w, frequency)


def check_files(ctx, table, chain, backend, folder, file, cid, w, frequency=0):
  want = table.want(chain)
  n = int(table.keep.sum())
  if backend == "npz":
    path = os.path.join(folder, "npz", f"chain_{cid}.npz")
    if ctx.check(os.path.exists(path), "file", f"{w}: no file chain_{cid}.npz"):
      with onp.load(path) as z:
        if ctx.check(sorted(z.files) == sorted(table.names), "names", lambda: f"{w}: {z.files} instead of {table.names}"):
          u.equal(ctx, [z[k] for k in table.names], want, "samples", f"{w} npz", dtype=True)
      ctx.count("files")
  elif backend == "hdf5":
    group = f"chain~{cid}"
    for name, col in zip(table.names, want):
      path = f"/{group}/{name}"
      if ctx.check(path in file, "names", lambda: f"{w}: no dataset {path}"):
        u.equal(ctx, [file[path][()]], [col], "samples", f"{w} {path}", dtype=True)
    ctx.count("files")
  elif backend == "json":
    at = sorted(set(range(frequency, n + 1, frequency) if frequency else []) | ({n} if n else set()))
    have = sorted(int(f.split("_")[-1][:-5]) for f in os.listdir(os.path.join(folder, "json"))
                  if f.startswith(f"chain_{cid}_iteration_"))
    ctx.check(have == at, "file", f"{w} frequency {frequency}: files for {have} samples instead of {at}")
    for m in at:
      path = os.path.join(folder, "json", f"chain_{cid}_iteration_{m}.json")
      if not os.path.exists(path):
        continue
      with open(path) as f:
        text = f.read()
      try:
        data = json.loads(text)
      except ValueError as e:
        ctx.violate("file-complete", f"{w}: {os.path.basename(path)} is incomplete: {e}")
        continue
      part = table.want(chain, m)
      if ctx.check(len(data) == len(part), "names", f"{w}: {len(data)} leaves in the file"):
        for k, (g, col) in enumerate(zip(data, part)):
          g = onp.asarray(g)
          ctx.check(g.shape == col.shape and onp.array_equal(g, col), "samples",
                    lambda: f"{w} {os.path.basename(path)} leaf {k}: {u.short(g)} instead of {u.short(col)}")
      ctx.count("files")


def driver(case, ctx, rng, folder):
  """Chains one after another or in parallel."""
  from jax_sgmc import io, solver
  backend, strategy = case["backend"], case["kind"]
  length = int(rng.integers(1, 40))
  chains = int(rng.integers(1, 5))
  table = Table(rng, backend, length, chains)
  frequency = int(u.choice(rng, [0, 1, 2, 5])) if backend == "json" else 0
  delays = random_delays(rng)
  log = Log()
  collector, file = make_collector(backend, folder, rng, delays, log, frequency)
  triple = sampler(table)
  run_mcmc = solver.mcmc(triple, scheduler_of(table), strategy=strategy, saving=io.save(collector))
  what = f"{backend}/{strategy} chains={chains} iterations={length} kept={int(table.keep.sum())}"
  with slow_writers(delays):
    runs = int(rng.integers(1, 3))
    for r in range(runs):
      order = [int(c) for c in rng.permutation(chains)]
      results = run_mcmc(*[triple[0](c) for c in order], iterations=length)
      seen = len(log.events)
      for k, c in enumerate(order):
        check_result(ctx, table, c, backend, folder, file, r * chains + k, results[k],
                     f"{what} run {r}", frequency)
      check_log(ctx, log, range(r * chains, (r + 1) * chains), int(table.keep.sum()), what)
  time.sleep(0.02)
  late = log.events[seen:]
  ctx.check(not late, "late-events", f"{what}: events after the run returned: {late[:4]}")
  if file is not None:
    file.close()
    import h5py
    with h5py.File(os.path.join(folder, "out.hdf5"), "r") as again:
      for k, c in enumerate(order):
        check_files(ctx, table, c, backend, folder, again, (runs - 1) * chains + k, f"{what} reopened")
  ctx.count("runs", runs)
  ctx.state(backend, strategy, chains, frequency, sorted(k for k in delays if k not in ("lock", "rng")))
  ctx.interesting(int(table.keep.sum()) > 1 and any(k in delays for k in ("save", "finalize", "writer")))
  ctx.sample = {"backend": backend, "events": [list(e) for e in log.events[:6]]}


def concurrent(case, ctx, rng, folder):
  """Runs in threads, each with its collector."""
  from jax_sgmc import io, solver
  n = int(rng.integers(2, 5))
  jobs = []
  for k in range(n):
    sub = os.path.join(folder, str(k))
    os.mkdir(sub)
    backend = case["backend"] if k == 0 else u.choice(rng, BACKENDS)
    length, chains = int(rng.integers(1, 30)), int(rng.integers(1, 3))
    table = Table(rng, backend, length, chains)
    frequency = int(u.choice(rng, [0, 2])) if backend == "json" else 0
    delays, log = random_delays(rng), Log()
    collector, file = make_collector(backend, sub, rng, delays, log, frequency)
    triple = sampler(table)
    run_mcmc = solver.mcmc(triple, scheduler_of(table), saving=io.save(collector))
    jobs.append(dict(sub=sub, backend=backend, table=table, frequency=frequency, log=log, file=file,
                     run=run_mcmc, triple=triple, chains=chains, length=length))
  writers = random_delays(rng)
  errors = []

  def work(job):
    try:
      results = job["run"](*[job["triple"][0](c) for c in range(job["chains"])], iterations=job["length"])
      what = f"{job['backend']} in thread, chains={job['chains']} iterations={job['length']}"
      sub = Proxy()
      for c in range(job["chains"]):
        check_result(sub, job["table"], c, job["backend"], job["sub"], job["file"], c, results[c],
                     what, job["frequency"])
      check_log(sub, job["log"], range(job["chains"]), int(job["table"].keep.sum()), what)
      job["observed"] = sub
    except BaseException as e:  # pylint: disable=broad-except
      errors.append(e)
  with slow_writers(writers):
    threads = [threading.Thread(target=work, args=(j,), daemon=True) for j in jobs]
    for t in threads:
      t.start()
    for t in threads:
      t.join(100)
    alive = [t for t in threads if t.is_alive()]
  if not ctx.check(not alive, "hang", f"{len(alive)} of {n} concurrent runs do not return"):
    return
  if errors:
    raise errors[0]
  for job in jobs:
    job["observed"].replay(ctx)
    if job["file"] is not None:
      job["file"].close()
  ctx.count("runs", n)
  ctx.count("threads", n)
  ctx.state("threads", n, sorted(j["backend"] for j in jobs))
  ctx.interesting(True)


class Proxy:
  """Context of one thread."""

  def __init__(self):
    self.todo = []

  def check(self, cond, key, msg=""):
    ok = bool(cond)
    text = "" if ok else (msg() if callable(msg) else msg)
    self.todo.append(("check", (ok, key, text)))
    return ok

  def __getattr__(self, name):
    def record(*a):
      self.todo.append((name, a))
    return record

  def replay(self, ctx):
    for name, a in self.todo:
      getattr(ctx, name)(*a)


def direct(case, ctx, rng, folder):
  """Saving functions without the driver, chains interleaved."""
  from jax_sgmc import io, scheduler
  backend = case["backend"]
  length, chains = int(rng.integers(2, 30)), int(rng.integers(1, 5))
  table = Table(rng, backend, length, chains)
  frequency = int(u.choice(rng, [0, 3])) if backend == "json" else 0
  delays, log = random_delays(rng), Log()
  collector, file = make_collector(backend, folder, rng, delays, log, frequency)
  init, save, post = io.save(collector)
  cols, keep = table.device(), jnp.asarray(table.keep)
  static = scheduler.static_information(samples_collected=int(table.keep.sum()))

  def sample(chain, n):
    return tree_util.tree_unflatten(table.td, [c[chain, n] for c in cols])

  @jax.jit
  def scan(state, chain, its):
    return jax.lax.scan(lambda s, n: save(s, keep[n], sample(chain, n)), state, its)[0]
  what = f"{backend} direct chains={chains} iterations={length}"
  with slow_writers(delays):
    states = [init(sample(c, 0), {}, static) for c in range(chains)]
    # The chains proceed in pieces
    cut = sorted(int(v) for v in rng.integers(0, length + 1, size=2))
    pieces = [jnp.arange(a, b) for a, b in zip([0] + cut, cut + [length])]
    for piece in pieces:
      for c in rng.permutation(chains):
        states[c] = scan(states[c], jnp.int32(c), piece)
    for c in [int(v) for v in rng.permutation(chains)]:
      result = post(states[c], None)
      check_result(ctx, table, c, backend, folder, file, c, result, what, frequency)
  check_log(ctx, log, range(chains), int(table.keep.sum()), what)
  if file is not None:
    file.close()
  ctx.state("direct", backend, chains, frequency)
  ctx.count("runs")
  ctx.interesting(chains > 1)


def names(case, ctx, rng, folder):
  """Leaves with different paths whose joined names are equal."""
  from jax_sgmc import io, scheduler
  backend = case["backend"]
  a, b, c = [str(v) for v in rng.choice(["a", "b", "w", "linear", "mlp"], size=3)]
  tree = u.choice(rng, [
    {f"{a}/{b}": 0, a: {b: 1}},
    {a: {f"{b}/{c}": 0, b: {c: 1}}},
    {f"{a}/list_element_0": 0, a: [1, 2]},
    {a: {f"{b}/{c}": 0}, f"{a}/{b}": {c: 1}, "z": 2},
  ])
  count, rows = len(tree_util.tree_leaves(tree)), int(rng.integers(1, 6))
  values = rng.integers(0, 1000, size=(rows, count)).astype(onp.float32)
  collector, file = make_collector(backend, folder, rng, random_delays(rng), Log())
  init, save, post = io.save(collector)
  what = f"{backend} {tree}"
  ctx.state("names", backend, tree_util.tree_structure(tree))
  ctx.count("runs")
  ctx.interesting()

  def sample(row):
    return tree_util.tree_map(lambda k: row[k], tree)
  try:
    state = init(sample(jnp.zeros(count)), {}, scheduler.static_information(samples_collected=rows))
    for row in jnp.asarray(values):
      state, _ = save(state, jnp.asarray(True), sample(row))
    result = post(state, None)
    raised = False
  except Exception:  # refused
    raised = True
    ctx.count("refused")
  if not raised:
    if backend in ("memory", "npz"):
      for g, w in zip(tree_util.tree_leaves(result["samples"]), values[:, tree_util.tree_leaves(tree)].T):
        u.equal(ctx, onp.asarray(g), w, "ambiguous-names", what)
    if backend == "npz":
      with onp.load(os.path.join(folder, "npz", "chain_0.npz")) as content:
        stored = sorted(tuple(content[k]) for k in content.files)
      ctx.check(stored == sorted(tuple(v) for v in values.T), "ambiguous-names",
                lambda: f"{what}: stored {stored} instead of {values.T}")
  if file is not None:
    file.close()


def fault(case, ctx, rng, folder):
  """A lost sample must not go unnoticed and must not block the run."""
  from jax_sgmc import io, solver
  backend, where = case["backend"], case["where"]
  length, chains = int(rng.integers(3, 20)), int(rng.integers(1, 3))
  table = Table(rng, backend, length, chains)
  table.keep[:] = True
  delays, log = random_delays(rng, 0.5), Log()
  fail = {where: int(rng.integers(0, length)) if where == "save" else True}
  collector, file = make_collector(backend, folder, rng, delays, log, 0, fail)
  triple = sampler(table)
  run_mcmc = solver.mcmc(triple, scheduler_of(table), saving=io.save(collector))
  what = f"{backend} fault in {where} chains={chains} iterations={length}"
  outcome = {}

  def work():
    try:
      with slow_writers(delays, fail if where == "storage" else None):
        outcome["results"] = run_mcmc(*[triple[0](c) for c in range(chains)], iterations=length)
    except Exception as e:  # pylint: disable=broad-except
      outcome["error"] = e
  t = threading.Thread(target=work, daemon=True)
  t.start()
  t.join(45)
  ctx.count("faults", bool(fail.get("raised")))
  ctx.check(not t.is_alive(), "hang", f"{what}: the run does not return")
  if fail.get("raised") and not t.is_alive():
    ctx.check("error" in outcome, "silent-loss", f"{what}: the run returned as if all samples were saved")
  ctx.state("fault", backend, where, bool(fail.get("raised")), "error" in outcome)
  ctx.interesting(bool(fail.get("raised")))
