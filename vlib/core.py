"""Framework of the runtime monitors.

A check is a module with

- ``PROPERTY``: id of the property,
- ``RULE``: how cases are made and what makes one non-trivial,
- ``gen(rng, tier)``: yields JSON-able cases (dicts with a ``kind``),
- ``run(case, ctx)``: executes the real code and reports through ``ctx``.

Optional: ``DEVICES`` (number of XLA host devices), ``TIMEOUT`` (seconds per
case), ``BUDGET`` ({tier: seconds}), ``ASSUMPTIONS``, ``WORKERS``.

Cases are executed in worker processes. The verdict is three-valued: exit 0
(held on everything explored), exit 1 with a VIOLATION line (a monitor observed
a violation), exit 2 (no answer, e.g. the harness itself failed).
"""
import collections
import contextlib
import hashlib
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"


class Inconclusive(Exception):
  """The run gives no answer about the property."""


class Ctx:
  """Collects what the monitors observed in one case."""

  def __init__(self, case):
    self.case = case
    self.violations = []
    self.counters = collections.Counter()
    self.states = set()
    self.nontrivial = False
    self.sample = None

  def check(self, cond, key, msg=""):
    """One evaluated assertion of a monitor."""
    self.counters["assertions"] += 1
    if not bool(cond):
      if callable(msg):
        msg = msg()
      self.violate(key, msg)
      return False
    return True

  def violate(self, key, msg):
    if len(self.violations) < 20:
      self.violations.append({"key": str(key), "msg": str(msg)[:2000]})

  def count(self, name, n=1):
    self.counters[name] += int(n)

  def state(self, *what):
    """Records a distinct state / interleaving / regime observed."""
    self.states.add(hashlib.sha1(repr(what).encode()).hexdigest()[:12])

  def interesting(self, cond=True):
    if cond:
      self.nontrivial = True


def case_hash(case):
  return hashlib.sha1(
    json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


# ----------------------------------------------------------------------------
# Worker
# ----------------------------------------------------------------------------

def _repo_frames(exc):
  """True if the exception passed through the code under test."""
  seen = set()
  todo = [exc]
  while todo:
    e = todo.pop()
    if e is None or id(e) in seen:
      continue
    seen.add(id(e))
    for frame in traceback.extract_tb(e.__traceback__):
      if "/jax_sgmc/" in frame.filename:
        return True
    if "/jax_sgmc/" in str(e):
      return True
    todo += [e.__cause__, e.__context__]
  return False


@contextlib.contextmanager
def precision(double):
  """Runs a case with 64 bit types."""
  if not double:
    yield
    return
  import jax  # pylint: disable=import-outside-toplevel
  jax.config.update("jax_enable_x64", True)
  try:
    yield
  finally:
    jax.effects_barrier()
    jax.config.update("jax_enable_x64", False)


def run_case(module, case):
  ctx = Ctx(case)
  t0 = time.time()
  res = {"hash": case_hash(case), "error": None}
  try:
    with precision(case.get("x64")):
      module.run(case, ctx)
    if case.get("x64"):
      ctx.count("double precision")
  except Inconclusive as e:
    res["error"] = f"inconclusive: {e}"
  except (MemoryError, KeyboardInterrupt) as e:
    res["error"] = f"{type(e).__name__}: {e}"
  except BaseException as e:  # pylint: disable=broad-except
    tb = traceback.format_exc()
    nospace = isinstance(e, OSError) and getattr(e, "errno", None) in (12, 28)
    if _repo_frames(e) and not nospace:
      short = [l for l in str(e).strip().splitlines() if l.strip()]
      ctx.violate(
        f"exception-{type(e).__name__}",
        f"supported use raised {type(e).__name__}: "
        f"{(short or [''])[0][:300]} ... {tb[-900:]}")
    else:
      res["error"] = tb[-3000:]
  res.update(
    violations=ctx.violations, counters=dict(ctx.counters),
    states=sorted(ctx.states), nontrivial=ctx.nontrivial, sample=ctx.sample,
    wall=time.time() - t0)
  return res


def worker_main(name):
  out = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)  # prints of the code under test do not disturb the protocol
  sys.path.insert(0, ROOT)
  module = importlib.import_module(f"checks.{name}")
  import jax_sgmc  # pylint: disable=import-outside-toplevel
  if not os.path.abspath(jax_sgmc.__file__).startswith(REPO + "/"):
    raise SystemExit(f"wrong jax_sgmc: {jax_sgmc.__file__}")
  if hasattr(module, "setup"):
    module.setup()
  out.write(json.dumps({"ready": True}) + "\n")
  out.flush()
  for line in sys.stdin:
    case = json.loads(line)
    res = run_case(module, case)
    out.write(json.dumps(res) + "\n")
    out.flush()
  # Background threads of the code under test must not keep the worker alive
  out.close()
  os._exit(0)


class Worker:
  """A worker process executing one case at a time."""

  def __init__(self, name, env, logfile):
    self.log = open(logfile, "ab")
    self.proc = subprocess.Popen(
      [PYTHON, "-c",
       f"import sys; sys.path.insert(0, {ROOT!r}); "
       f"from vlib import core; core.worker_main({name!r})"],
      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
      env=env, cwd=ROOT, text=True, start_new_session=True)
    self.lines = queue.Queue()
    threading.Thread(target=self._pump, daemon=True).start()
    self.ready = False

  def _pump(self):
    for line in self.proc.stdout:
      self.lines.put(line)
    self.lines.put(None)

  def recv(self, timeout):
    """Returns the decoded message, 'timeout' or 'died'."""
    try:
      line = self.lines.get(timeout=max(0.1, timeout))
    except queue.Empty:
      return "timeout"
    if line is None:
      return "died"
    return json.loads(line)

  def start(self):
    if not self.ready:
      msg = self.recv(180)
      if msg in ("timeout", "died"):
        return False
      self.ready = True
    return True

  def send(self, case):
    try:
      self.proc.stdin.write(json.dumps(case) + "\n")
      self.proc.stdin.flush()
    except (BrokenPipeError, OSError):
      pass

  def kill(self):
    try:
      os.killpg(self.proc.pid, 9)
    except (ProcessLookupError, PermissionError):
      pass
    self.proc.wait()
    self.log.close()


def worker_env(module):
  env = {k: v for k, v in os.environ.items()}
  devices = getattr(module, "DEVICES", 1)
  env.update(
    JAX_PLATFORMS="cpu", TF_CPP_MIN_LOG_LEVEL="3", PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0", PYTHONPATH=REPO, JAX_TRACEBACK_FILTERING="off",
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore",
    CUDA_VISIBLE_DEVICES="",
    XLA_FLAGS=(f"--xla_force_host_platform_device_count={devices} "
               "--xla_cpu_multi_thread_eigen=false"))
  return env


# ----------------------------------------------------------------------------
# Findings
# ----------------------------------------------------------------------------

def known_findings(prop):
  """Entries ``KNOWN-FINDING: property=<id> key=<key> <what fails>``."""
  found = {}
  path = os.path.join(ROOT, "known_findings.txt")
  if os.path.exists(path):
    for line in open(path):
      if line.startswith("KNOWN-FINDING:"):
        head, _, rest = line[len("KNOWN-FINDING:"):].strip().partition(" ")
        key, _, what = rest.partition(" ")
        if head == f"property={prop}" and key.startswith("key="):
          found[key[4:]] = what.strip()
  return found


# ----------------------------------------------------------------------------
# Parent
# ----------------------------------------------------------------------------

def main(argv):
  import numpy as np  # pylint: disable=import-outside-toplevel
  t0 = time.time()
  name = argv[0]
  sys.path.insert(0, ROOT)
  os.environ.setdefault("JAX_PLATFORMS", "cpu")
  seed = int(os.environ.get("VERIF_SEED", "1"))
  tier = os.environ.get("VERIF_TIER", "quick")
  if tier not in ("quick", "thorough"):
    tier = "quick"
  module = importlib.import_module(f"checks.{name}")
  prop = module.PROPERTY

  scratch = os.path.join(ROOT, ".scratch")
  os.makedirs(scratch, exist_ok=True)
  os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
  logfile = os.path.join(scratch, f"{name}.log")
  open(logfile, "w").close()

  replay = None
  if len(argv) > 2 and argv[1] == "--replay":
    replay = json.load(open(argv[2]))["case"]

  if replay is not None:
    cases = [replay]
  else:
    rng = np.random.default_rng([seed, int(prop[1:]), 20240])
    cases = list(module.gen(rng, tier))
    # A part of the cases runs in double precision
    rng = np.random.default_rng([seed, int(prop[1:]), 64])
    cases = [dict(case, x64=True) if rng.random() < getattr(module, "X64", 0.0) else case
             for case in cases]
  budget = getattr(module, "BUDGET", {}).get(tier, 60 if tier == "quick" else 480)
  hard = 780 if tier == "quick" else 1500
  timeout = getattr(module, "TIMEOUT", 90)
  env = worker_env(module)

  seen, todo = set(), []
  for case in cases:
    h = case_hash(case)
    if h not in seen:
      seen.add(h)
      todo.append(case)
  core = [c for c in todo if c.get("core")]
  rest = [c for c in todo if not c.get("core")]
  lock = threading.Lock()
  results, errors, hangs = [], [], []
  skipped = [0]

  def next_case():
    with lock:
      if time.time() - t0 > hard:
        skipped[0] += len(core) + len(rest)
        if core:
          errors.append("hard time limit before all core cases were run")
        core.clear()
        rest.clear()
        return None
      if core:
        return core.pop(0)
      if rest:
        if replay is None and time.time() - t0 > budget:
          skipped[0] += len(rest)
          rest.clear()
          return None
        return rest.pop(0)
      return None

  def attempt(worker, case, limit):
    if worker is None or worker.proc.poll() is not None:
      if worker is not None:
        worker.kill()
      worker = Worker(name, env, logfile)
    if not worker.start():
      worker.kill()
      return None, "start"
    worker.send(case)
    msg = worker.recv(limit)
    if msg in ("timeout", "died"):
      worker.kill()
      return None, msg
    return worker, msg

  def serve():
    worker = None
    fails = 0
    while True:
      case = next_case()
      if case is None:
        break
      worker, msg = attempt(worker, case, timeout)
      if isinstance(msg, str):
        # Confirm in a fresh process before judging
        worker, again = attempt(None, case, 2 * timeout)
        if isinstance(again, str):
          with lock:
            if msg == "start" or again == "start":
              errors.append(f"worker did not start for {case}")
              fails += 1
            else:
              hangs.append((case, again))
          if fails >= 2:
            break
          continue
        msg = again
      with lock:
        results.append((case, msg))
        if msg["error"]:
          errors.append(f"{json.dumps(case)[:300]}\n{msg['error']}")
    if worker is not None:
      worker.kill()

  n_workers = min(getattr(module, "WORKERS", 8), max(1, len(todo)))
  threads = [threading.Thread(target=serve) for _ in range(n_workers)]
  for t in threads:
    t.start()
  for t in threads:
    t.join()

  # --- Verdict ---------------------------------------------------------------
  for case, how in hangs:
    msg = (f"the case did not finish within {2 * timeout} s (twice)"
           if how == "timeout" else "the process was killed by the code (twice)")
    results.append((case, {
      "hash": case_hash(case), "error": None, "counters": {}, "states": [],
      "nontrivial": False, "sample": None, "wall": 0.0,
      "violations": [{"key": "hang" if how == "timeout" else "crash",
                      "msg": msg}]}))

  known = known_findings(prop)
  violations, known_hit = [], {}
  for case, res in results:
    for v in res["violations"]:
      if v["key"] in known:
        known_hit.setdefault(v["key"], (case, v))
      else:
        violations.append((case, v))

  counters = collections.Counter()
  states, distinct = set(), set()
  kinds = collections.Counter()
  for case, res in results:
    counters.update(res["counters"])
    states.update(res["states"])
    kinds[case.get("kind", "-")] += 1
    if res["nontrivial"]:
      distinct.add(res["hash"])
  samples = []
  shown = set()
  for case, res in sorted(results, key=lambda cr: cr[1]["hash"]):
    k = case.get("kind", "-")
    if k not in shown and res["nontrivial"]:
      shown.add(k)
      samples.append({"case": case, "observed": res["sample"],
                      "counters": res["counters"]})
    if len(samples) >= 8:
      break

  if replay is None:
    evidence = {
      "property": prop, "tier": tier, "seed": seed, "level": "exploration",
      "coverage": {
        "evaluations": len(results),
        "distinct_nontrivial": len(distinct),
        "rule": module.RULE,
        "samples": samples,
        "cases_by_kind": dict(kinds),
        "observed": dict(counters),
        "distinct_observed_states": len(states),
        "cases_not_run_in_budget": skipped[0],
        "harness_errors": len(errors),
      },
      "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
      "wall_s": round(time.time() - t0, 2),
      "violations": len(violations),
    }
    path = os.path.join(ROOT, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
      json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)

  for key, (case, v) in known_hit.items():
    print(f"KNOWN-FINDING: property={prop} {known[key] or v['msg']}")

  if violations:
    outdir = os.path.join(ROOT, "replays", prop)
    os.makedirs(outdir, exist_ok=True)
    reported = set()
    for case, v in violations:
      if v["key"] in reported:
        continue
      reported.add(v["key"])
      path = os.path.join(outdir, f"{v['key'][:40]}-{case_hash(case)}.json"
                          .replace("/", "_"))
      with open(path, "w") as f:
        json.dump({"property": prop, "case": case, "violation": v}, f, indent=1)
      print(f"VIOLATION property={prop} replay={path}")
      print(f"  [{v['key']}] {v['msg'][:1500]}")
      if len(reported) >= 5:
        break
    sys.stdout.flush()
    return 1

  if errors:
    print(f"NO ANSWER property={prop}: {len(errors)} harness errors")
    for e in errors[:3]:
      print("  " + e[:3000])
    try:
      print(open(logfile, errors="replace").read()[-2000:])
    except OSError:
      pass
    return 2
  if not distinct and replay is None:
    print(f"NO ANSWER property={prop}: nothing non-trivial was observed")
    return 2
  print(f"OK property={prop} tier={tier} seed={seed} cases={len(results)} "
        f"nontrivial={len(distinct)} states={len(states)} "
        f"observed={dict(counters)} skipped={skipped[0]} "
        f"wall={time.time() - t0:.1f}s")
  return 0


if __name__ == "__main__":
  sys.exit(main(sys.argv[1:]))
