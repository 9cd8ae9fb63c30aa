"""C27: components have no hidden state."""
import copy
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import lax, random, tree_util

from vlib import util as u
from checks.c15 import Setup, make_schedule, user_manifold

PROPERTY = "C27"
RULE = (
  "Integrators, samplers, adaptions, schedulers, potentials, device data, device saving and "
  "the driver are built with random options. Several instances (two with equal, "
  "one with other options) execute a random interleaved history of initializations, "
  "updates of old and new states (direct, compiled, vectorized, in a compiled loop), repeated "
  "and failing calls. Each result is compared with the one of a pristine instance which did "
  "nothing else, and the arguments with copies made before. Non-trivial: states were "
  "advanced repeatedly after other calls.")
ASSUMPTIONS = [
  "host data loaders, host collectors and automatically chosen seeds are documented state",
  "compiled calls are repeated bit by bit, other ways of execution up to rounding"]
BUDGET = {"quick": 32, "thorough": 300}
TIMEOUT = 150

KINDS = ["langevin", "rms", "obabo", "reversible", "friction", "noise-model", "amagold",
         "sggmc", "tempering", "scheduler", "adaptive", "mass", "adaption", "potential",
         "full", "fisher", "device", "saving", "driver"]

CHEAP = ["scheduler", "adaptive", "mass", "adaption", "potential", "full", "fisher", "device",
         "saving"]


def gen(rng, tier):
  for kind in KINDS + 2 * CHEAP:
    yield dict(core=True, kind=kind, seed=u.seed(rng))
  for _ in range(500 if tier == "quick" else 9000):
    yield dict(kind=u.choice(rng, KINDS), seed=u.seed(rng))


class Machine:
  """A component, ways to start it and inputs of its updates."""

  def __init__(self, make, starts, inputs, label, compiled=True, bare=False,
               unique=True):
    self.make, self.starts, self.label = make, starts, label
    # Inputs of each start
    self.inputs = inputs if isinstance(inputs[0], list) else [inputs] * len(starts)
    # Updates can be compiled; they return the state only or (state, more)
    self.compiled, self.bare = compiled, bare
    # Rounding errors have small effects (roots of full matrices are not unique)
    self.unique = unique

  def state_of(self, result):
    return result if self.bare else result[0]


# --- Components ------------------------------------------------------------------

def schedules(rng, eps, temperature=True):
  out = []
  for _ in range(2):
    T = u.logu(rng, 0.3, 3.0) if temperature else 1.0
    out.append(((make_schedule(jnp.float32(eps * u.logu(rng, 0.3, 1.0)), jnp.float32(T)),), {}))
  return out


def step_size(s):
  lam = 0.0
  for k in range(s.count):
    b = s.batch(k)
    H = s.N / s.n * sum(w * s.model.A.T @ s.model.A for w in b["w"].astype(float))
    H = (H + s.model.prior_prec * onp.eye(s.model.d) + s.N * onp.diag(onp.abs(s.model.c))) / s.T
    lam = max(lam, onp.abs(onp.linalg.eigvals(H)).max())
  return 0.3 / onp.sqrt(lam)


def samples_of(rng, sample, count=2):
  """Initial samples, some with numpy arrays."""
  out = []
  for _ in range(count):
    kind = jnp.asarray if rng.random() < 0.6 else onp.asarray
    out.append(tree_util.tree_map(
      lambda l: kind(onp.asarray(l + rng.normal(size=onp.shape(l)), onp.float32)), sample))
  return out


def keys(rng):
  return random.PRNGKey(int(rng.integers(1 << 30)))


def options(rng, values):
  """Options of both starts; most are given for one of them only."""
  out = [{}, {}]
  for name, value in values.items():
    roll = rng.random()
    given = [0] if roll < 0.35 else [1] if roll < 0.7 else [0, 1] if roll < 0.9 else []
    for k in given:
      out[k][name] = value()
  return out


def langevin(rng, kind):
  from jax_sgmc import adaption, integrator, solver
  s = Setup(rng)
  eps = step_size(s) ** 2
  manifold = rng.random() < 0.5
  parameters = user_manifold(rng, s.model.d) if kind == "langevin" and manifold else None
  pack = bool(rng.random() < 0.5)

  def make():
    adapt = adaption.rms_prop() if kind == "rms" else parameters[0] if parameters else None
    out = integrator.langevin_diffusion(s.potential, s.batches.triple(), adaption=adapt)
    return solver.sgmc(out) if pack else out
  starts = []
  values = dict(key=lambda: keys(rng), batch_kwargs=lambda: {"start": int(rng.integers(1, 3))})
  if kind == "rms":
    values["adaption_kwargs"] = lambda: {
      "alpha": float(rng.uniform(0.1, 0.8)), "lmbd": u.logu(rng, 1e-3, 1)}
  for smp, kw in zip(samples_of(rng, s.model.sample), options(rng, values)):
    starts.append(((smp,), dict(kw, init_model_state=s.state)))
  return Machine(make, starts, schedules(rng, eps), f"adaption {kind}", bare=not pack)


def hamilton(rng, kind):
  from jax_sgmc import adaption, integrator, solver
  while True:
    s = Setup(rng)
    if s.n > 1 or kind != "noise-model":
      break
  eps = step_size(s)
  steps = int(rng.integers(1, 5))
  friction = float(onp.float32(rng.uniform(0.05, 0.4) / eps))
  mass = None
  if rng.random() < 0.6:
    mass = tree_util.tree_map(
      lambda l: jnp.asarray(onp.exp(rng.uniform(-1, 1, size=onp.shape(l))), jnp.float32),
      s.model.sample)
  diagonal = bool(rng.random() < 0.6)
  pack = bool(rng.random() < 0.25)
  fn = {"noise-model": "friction_leapfrog", "friction": "friction_leapfrog", "obabo": "obabo",
        "reversible": "reversible_leapfrog"}[kind]

  def make():
    kw = {}
    if kind == "noise-model":
      kw["noise_model"] = adaption.fisher_information(
        minibatch_potential=s.potential, diagonal=diagonal)
    out = getattr(integrator, fn)(s.potential, s.batches.triple(), steps=steps,
                                  friction=friction, const_mass=mass, **kw)
    return solver.sgmc(out) if pack else out
  values = dict(key=lambda: keys(rng), batch_kwargs=lambda: {"start": int(rng.integers(1, 3))})
  starts = [((smp,), dict(kw, init_model_state=s.state))
            for smp, kw in zip(samples_of(rng, s.model.sample), options(rng, values))]
  inputs = schedules(rng, eps)
  if not pack:
    # One of the inputs replaces the mass
    from jax_sgmc.util import Tensor
    tree = lambda f: tree_util.tree_map(
      lambda l, x: jnp.asarray(onp.broadcast_to(f(x), onp.shape(l)), jnp.float32),
      s.model.sample, other)
    other = tree_util.tree_map(lambda l: onp.exp(rng.uniform(-1, 1)), s.model.sample)
    inputs[0][1]["mass"] = adaption.MassMatrix(
      inv=Tensor(1, tree(lambda x: 1 / x)), sqrt=Tensor(1, tree(onp.sqrt)))
  return Machine(make, starts, inputs, f"{kind} {steps} steps", bare=not pack,
                 unique=kind != "noise-model" or diagonal)


def metropolis(rng, kind):
  from jax_sgmc import adaption, integrator, solver
  from checks.c17 import Target
  target = Target(rng, has_state=bool(rng.random() < 0.4), max_leaves=2)
  d = target.d
  eps = target.stable_step(onp.eye(d), rng, 0.05, 0.3)
  steps = int(rng.integers(1, 4))
  friction = float(onp.float32(rng.uniform(0.05, 0.3) / eps))
  diagonal = bool(rng.random() < 0.6)
  adapted = bool(rng.random() < 0.6)
  burn = int(rng.integers(d + 3, d + 9))

  def make():
    fn = {"amagold": integrator.reversible_leapfrog, "sggmc": integrator.obabo}[kind]
    integ = fn(target.stochastic, target.batches(), steps=steps, friction=friction)
    mass = adaption.mass_matrix(diagonal=diagonal, burn_in=burn) if adapted else None
    return {"amagold": solver.amagold, "sggmc": solver.sggmc}[kind](
      integ, target.full, target.full_map(2), mass_adaption=mass)
  starts = []
  values = dict(key=lambda: keys(rng), batch_kwargs=lambda: {"key": keys(rng)},
                full_data_kwargs=lambda: {"start": int(rng.integers(1, 5))})
  if adapted:
    values["initial_mass"] = lambda: target.tree(onp.exp(rng.uniform(-0.5, 0.5, size=d)))
  for smp, kw in zip(samples_of(rng, target.sample), options(rng, values)):
    starts.append(((smp,), dict(
      kw, init_model_state={"s": jnp.float32(0.3)} if target.has_state else None)))
  return Machine(make, starts, schedules(rng, eps), f"{kind} {steps} steps",
                 unique=diagonal or not adapted)


def tempering(rng, kind):
  del kind
  from jax_sgmc import integrator, solver
  s = Setup(rng)
  eps = step_size(s) ** 2
  c = float(rng.uniform(0.1, 1))

  def make():
    integ = integrator.langevin_diffusion(s.potential, s.batches.triple())
    return solver.parallel_tempering(integ, sa_schedule=lambda n: c / (n + 1.0))
  a = schedules(rng, eps)
  starts = []
  values = dict(key=lambda: keys(rng), F=lambda: jnp.float32(10.0 ** rng.integers(-3, 8)),
                ssq_init=lambda: jnp.float32(u.logu(rng, 1, 1e3)))
  for kw in options(rng, values):
    starts.append((tuple(samples_of(rng, s.model.sample)), dict(kw, init_model_state=s.state)))
  inputs = [(a[0][0] + a[1][0], {}), (a[1][0] + a[0][0], {})]
  return Machine(make, starts, inputs, "replica exchange")


def schedulers(rng, kind):
  from jax_sgmc import scheduler
  iterations = [int(rng.integers(3, 12)) for _ in range(2)]
  burn = int(rng.integers(0, 3))
  p = dict(a=u.logu(rng, 0.01, 1), b=u.logu(rng, 0.5, 3), gamma=float(rng.uniform(0, 1)))
  first = u.logu(rng, 0.1, 1)
  tau = u.logu(rng, 0.3, 3)
  thin = kind == "scheduler" and bool(rng.random() < 0.6)
  poly = bool(rng.random() < 0.5)
  key = keys(rng)
  target = float(rng.uniform(0.3, 0.9))

  def make():
    if kind == "adaptive":
      step = scheduler.adaptive_step_size(burn_in=burn + 1, initial_step_size=first,
                                          target_acceptance_rate=target)
    elif poly:
      step = scheduler.polynomial_step_size(**p)
    else:
      step = scheduler.polynomial_step_size_first_last(first=first, last=0.1 * first, gamma=0.5)
    burn_in = scheduler.initial_burn_in(burn)
    thinning = scheduler.random_thinning(step, burn_in, 1, key=key) if thin else None
    init, update, get = scheduler.init_scheduler(
      step_size=step, temperature=scheduler.constant_temperature(tau), burn_in=burn_in,
      thinning=thinning, progress_bar=False)

    def start(*a, **k):
      return init(*a, **k)[0]

    def advance(state, **kw):
      return update(state, **kw)
    return start, advance, get
  starts = []
  step = ("initial_step_size" if kind == "adaptive" else "a" if poly else "first")
  values = dict(temperature=lambda: {"tau": u.logu(rng, 0.3, 3)},
                burn_in=lambda: {"n": int(rng.integers(0, 3))},
                step_size=lambda: {step: u.logu(rng, 1.0, 3)})
  if thin:
    values["thinning"] = lambda: {"key": keys(rng)}
    del values["burn_in"]
  for k, kw in enumerate(options(rng, values)):
    starts.append(((iterations[k],), kw))
  inputs = [((), {"acceptance_ratio": jnp.float32(v)}) for v in rng.uniform(size=2)]
  return Machine(make, starts, inputs, f"{kind} poly={poly} thinning={thin}", bare=True)


def adaptions(rng, kind):
  from jax_sgmc import adaption
  diagonal = bool(rng.random() < 0.5)
  burn = int(rng.integers(2, 5))
  # Samples of different structure, possibly of the same size
  trees = [u.normal_tree(u.tree_spec(rng), rng) for _ in range(2)]
  if rng.random() < 0.5:
    flat = u.flat(trees[0]).astype(onp.float32)
    cut = int(rng.integers(0, flat.size + 1))
    trees[1] = {"a": flat[:cut][::-1].copy(), "b": (flat[cut:].copy(),)}
  if not diagonal:
    burn = 2 + max(len(u.flat(t)) for t in trees)
  starts, inputs = [], []
  for k, smp in enumerate(trees):
    xs = samples_of(rng, smp, 4)
    if kind == "mass":
      first = tree_util.tree_map(lambda l: jnp.exp(jnp.asarray(l)), xs[0]) if k else None
      starts.append(((xs[1], first), {}))
      inputs.append([((x,), {}) for x in xs[2:]])
    else:
      starts.append(((xs[0],), {"alpha": float(rng.uniform(0.1, 0.9))} if rng.random() < 0.7 else {}))
      inputs.append([((x, y), {}) for x, y in (xs[:2], xs[2:])])

  def make():
    if kind == "mass":
      return adaption.mass_matrix(diagonal=diagonal, burn_in=burn)
    init, update, get = adaption.rms_prop()

    def read(st):
      one = st.unravel_fn(jnp.ones_like(st.state[0]))
      return get(st, one, one)
    return init, update, read
  return Machine(make, starts, inputs, kind, bare=True, unique=diagonal)


def potentials(rng, kind):
  from jax_sgmc import data, potential
  from jax_sgmc.data import MiniBatchInformation
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
  s = Setup(rng)
  model = s.model
  N = int(rng.integers(4, 20))
  table = model.data(rng, N)
  mb = int(rng.integers(1, N + 1))
  T = u.logu(rng, 0.3, 3)
  strategy = u.choice(rng, ["map", "vmap"])

  def likelihood(*args):
    if s.has_state:
      st, smp, obs = args
      return model.loglik(smp, obs, st["s"]), {"s": st["s"] + 0.25 * obs["y"][0]}
    return model.loglik(*args)
  kw = dict(has_state=s.has_state, temperature=T, strategy=strategy)
  starts = [((smp,), {}) for smp in samples_of(rng, model.sample)]
  if kind == "potential":
    def make():
      fn = potential.minibatch_potential(model.prior, likelihood, **kw)

      def update(smp, rows):
        # The number of rows also determines the size of the dataset
        info = MiniBatchInformation(observation_count=N + 3 * len(rows), batch_size=len(rows),
                                    mask=jnp.ones(len(rows), bool))
        batch = {k: jnp.asarray(v)[rows] for k, v in table.items()}
        (v, aux), g = jax.value_and_grad(
          lambda x: fn(x, (batch, info), state=s.state, likelihoods=True), has_aux=True)(smp)
        return tree_util.tree_map(lambda x, y: x - 1e-3 / (1 + jnp.abs(y)) * y, smp, g), (v, aux)
      return (lambda x: tree_util.tree_map(jnp.asarray, x)), update, lambda st: st
    inputs = [((jnp.asarray(rng.integers(0, N, size=n)),), {})
              for n in (mb, int(rng.integers(1, N + 1)))]
  else:
    def make():
      fn = potential.full_potential(model.prior, likelihood, **kw)
      init, full_map, _ = data.full_reference_data(DeviceNumpyDataLoader(**table), 1, mb)

      def update(state, factor):
        smp, ds = state
        (v, (ds, ms)), g = jax.value_and_grad(
          lambda x: fn(x, ds, full_map, s.state), has_aux=True)(smp)
        return (tree_util.tree_map(lambda x, y: x - factor / (1 + jnp.abs(y)) * y, smp, g), ds), (v, ms)
      return (lambda x: (tree_util.tree_map(jnp.asarray, x), init())), update, lambda st: st[0]
    inputs = [((jnp.float32(f),), {}) for f in (1e-2, 2e-2)]
  return Machine(make, starts, inputs, f"{kind} {strategy} N={N} mb={mb}")


def fisher(rng, kind):
  from jax_sgmc import adaption, potential
  from jax_sgmc.data import MiniBatchInformation
  s = Setup(rng)
  model = s.model
  table = model.data(rng, 12)
  diagonal = bool(rng.random() < 0.6)
  strategy = u.choice(rng, ["map", "vmap"])

  def likelihood(*args):
    if s.has_state:
      st, smp, obs = args
      return model.loglik(smp, obs, st["s"]), {"s": st["s"] + 0.25 * obs["y"][0]}
    return model.loglik(*args)

  def make():
    fn = potential.minibatch_potential(model.prior, likelihood, has_state=s.has_state,
                                       strategy=strategy)
    init, update, get = adaption.fisher_information(minibatch_potential=fn, diagonal=diagonal)

    def advance(state, smp, friction, step_size, rows):
      batch = ({k: jnp.asarray(v)[rows] for k, v in table.items()},
               MiniBatchInformation(observation_count=12, batch_size=len(rows),
                                    mask=jnp.ones(len(rows), bool)))
      out = get(state, smp, smp, friction, mini_batch=batch, step_size=step_size,
                model_state=s.state)
      # The covariance, since the roots are not unique
      cov = [(t.tensor if t.ndim == 1 else t.tensor @ t.tensor.T) for t in out]
      return update(state, smp, smp, friction, mini_batch=batch, step_size=step_size), cov
    return init, advance, lambda st: st.unravel_fn(jnp.ones(model.d))
  inputs = []
  for n in (int(rng.integers(2, 12)), int(rng.integers(2, 12))):
    smp = samples_of(rng, model.sample, 1)[0]
    friction = tree_util.tree_map(
      lambda l: jnp.asarray(onp.exp(rng.uniform(-1, 1, size=onp.shape(l))), jnp.float32), smp)
    inputs.append(((smp, friction, jnp.float32(u.logu(rng, 1e-3, 1e-1)),
                    jnp.asarray(rng.integers(0, 12, size=n))), {}))
  starts = [((smp,), {}) for smp in samples_of(rng, model.sample)]
  return Machine(make, starts, inputs, f"{kind} {strategy} diagonal={diagonal}")


def device(rng, kind):
  del kind
  from jax_sgmc import data
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
  N = int(rng.integers(3, 30))
  table = u.dataset(N, int(rng.integers(1 << 30)), extra=1)
  mb = int(rng.integers(1, N + 1))
  ordered = bool(rng.random() < 0.5)

  def make():
    loader = DeviceNumpyDataLoader(**table)
    if ordered:
      init, full_map, _ = data.full_reference_data(loader, 1, mb)

      def update(state, factor):
        state, (out, total) = full_map(
          lambda b, c: (b["idx"] * factor, c + jnp.sum(b["idx"])), state, jnp.int32(0))
        return state, (out, total)
      return init, update, lambda st: st
    init, get, _ = data.random_reference_data(loader, 1, mb)

    def draw(state, factor):
      state, (batch, info) = get(state, information=True)
      return state, (batch, info.mask, batch["idx"] * factor)
    return init, draw, lambda st: st
  if ordered:
    starts = [((), {"offset": int(rng.integers(0, N))}) for _ in range(2)]
  else:
    starts = [((), {"seed": int(rng.integers(1 << 20))}) for _ in range(2)]
  return Machine(make, starts, [((jnp.int32(f),), {}) for f in (1, 3)],
                 f"device data ordered={ordered} N={N} mb={mb}")


def saving(rng, kind):
  del kind
  from jax_sgmc import io, scheduler

  def make():
    init, save, post = io.no_save()

    def start(sample, count):
      return init(sample, None, scheduler.static_information(samples_collected=count))
    return start, (lambda st, keep, x: save(st, keep, x)), (lambda st: post(st, None))
  starts, inputs = [], []
  smp = u.normal_tree(u.tree_spec(rng), rng)
  for _ in range(2):
    xs = [tree_util.tree_map(jnp.asarray, x) for x in samples_of(rng, smp, 3)]
    starts.append(((xs[0], int(rng.integers(4, 9))), {}))
    inputs.append([((jnp.asarray(True), xs[1]), {}),
                   ((jnp.asarray(bool(rng.random() < 0.5)), xs[2]), {})])
    if rng.random() < 0.4:
      smp = u.normal_tree(u.tree_spec(rng), rng)
  return Machine(make, starts, inputs, "device saving")


def driver(rng, kind):
  del kind
  from jax_sgmc import integrator, scheduler, solver
  s = Setup(rng)
  eps = step_size(s) ** 2
  burn = int(rng.integers(0, 2))
  strategy = u.choice(rng, ["map", "vmap"])
  keep = int(rng.integers(1, 3))
  key = keys(rng)

  def make():
    sol = solver.sgmc(integrator.langevin_diffusion(s.potential, s.batches.triple()))
    step = scheduler.polynomial_step_size(a=eps, b=1.0, gamma=0.4)
    burn_in = scheduler.initial_burn_in(burn)
    sched = scheduler.init_scheduler(
      step_size=step, burn_in=burn_in, progress_bar=False,
      thinning=scheduler.random_thinning(step, burn_in, keep, key=key))
    run_ = solver.mcmc(sol, sched, strategy=strategy)

    def update(state, iterations):
      out = run_(state, iterations=iterations)[0]
      return state._replace(latent_variables=tree_util.tree_map(
        lambda l: l[-1], out["samples"]["variables"])), out
    return sol[0], update, sol[2]
  starts = [((smp,), dict(key=keys(rng), init_model_state=s.state))
            for smp in samples_of(rng, s.model.sample)]
  return Machine(make, starts, [((int(n),), {}) for n in rng.integers(4, 9, size=2)],
                 f"driver {strategy}", compiled=False)


FACTORY = dict(
  langevin=langevin, rms=langevin, obabo=hamilton, reversible=hamilton, friction=hamilton,
  amagold=metropolis, sggmc=metropolis, tempering=tempering, scheduler=schedulers,
  adaptive=schedulers, mass=adaptions, adaption=adaptions, potential=potentials, fisher=fisher,
  full=potentials, device=device, saving=saving, driver=driver)
FACTORY["noise-model"] = hamilton


# --- Histories -------------------------------------------------------------------

def arrays(tree):
  return [onp.asarray(jnp.asarray(l)) for l in tree_util.tree_leaves(tree)]


def frozen(value):
  """Copy of the arguments."""
  if isinstance(value, dict):
    return {k: frozen(v) for k, v in value.items()}
  if isinstance(value, tuple) and hasattr(value, "_fields"):
    return type(value)(*[frozen(v) for v in value])
  if isinstance(value, (list, tuple)):
    return type(value)(frozen(v) for v in value)
  if isinstance(value, onp.ndarray):
    return value.copy()
  if hasattr(value, "dtype"):
    return onp.array(value)
  return copy.copy(value)


def unchanged(a, b):
  if isinstance(a, dict):
    return isinstance(b, dict) and list(a) == list(b) and all(unchanged(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)):
    return type(a) is type(b) and len(a) == len(b) and all(map(unchanged, a, b))
  if hasattr(a, "dtype"):
    return onp.array_equal(onp.asarray(a), onp.asarray(b))
  return a == b


class Instance:

  def __init__(self, machine, name):
    self.machine, self.name = machine, name
    self.init, self.update, self.get = machine.make()
    self.compiled, self.nodes = {}, {}

  def jitted(self, state, args, kwargs):
    """Compiled update, with a constant mass."""
    kwargs = dict(kwargs)
    mass = {"mass": kwargs.pop("mass")} if "mass" in kwargs else {}
    if bool(mass) not in self.compiled:
      self.compiled[bool(mass)] = jax.jit(lambda st, a, k: self.update(st, *a, **mass, **k))
    return self.compiled[bool(mass)](state, args, kwargs)


def reference(machine, refs, path):
  """Result of the path by instances which did nothing else."""
  if path in refs:
    return refs[path]
  init, update, get = machine.make()
  args, kwargs = machine.starts[path[0]]
  first = init(*args, **kwargs)
  if len(path) == 1:
    result, state = first, first
  else:
    before = reference(machine, refs, path[:-1])[1]
    a, k = machine.inputs[path[0]][path[-1]]
    if machine.compiled:
      k = dict(k)
      mass = {"mass": k.pop("mass")} if "mass" in k else {}
      result = jax.jit(lambda st, a, k: update(st, *a, **mass, **k))(before, a, k)
    else:
      result = update(before, *a, **k)
    state = machine.state_of(result)
  refs[path] = (arrays(result), state, arrays(get(state)))
  return refs[path]


def same(ctx, got, want, exact, key, what):
  if not ctx.check(len(got) == len(want) and all(
      a.shape == b.shape and a.dtype == b.dtype for a, b in zip(got, want)), key,
      lambda: f"{what}: {[a.shape for a in got]} instead of {[b.shape for b in want]}"):
    return False
  for a, b in zip(got, want):
    if exact or a.dtype.kind not in "fc":
      ok = onp.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    else:
      with onp.errstate(all="ignore"):
        ok = onp.allclose(a, b, rtol=5e-3, atol=5e-3 * (1e-3 + onp.max(onp.abs(b), initial=0.0)),
                          equal_nan=True)
    if not ctx.check(ok, key, lambda: f"{what}: {u.short(a)} instead of {u.short(b)}"):
      return False
  return True


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  build = FACTORY[case["kind"]]
  machines = [build(rng, case["kind"]), build(rng, case["kind"])]
  refs, snapshots = [{}, {}], []
  for m in machines:
    snapshots.append((frozen(m.starts), frozen(m.inputs)))
  instances = [Instance(machines[0], "first"), Instance(machines[0], "equal"),
               Instance(machines[1], "other")]
  repeated = 0
  modes = ["jit", "jit", "jit", "direct", "loop", "vmap"]
  count = int(rng.integers(3, 8)) * (3 if case["kind"] in CHEAP else 1)
  # Every history begins with both starts and both updates of one instance
  plan = [("start", 0), ("start", 1), ("start", 0)]
  if rng.random() < 0.5:
    plan = [(a, 1 - j) for a, j in plan]
  for j in rng.permutation(2):
    plan += [("update", int(j), 0), ("update", int(j), 1), ("update", int(j), 0)][:3 if not int(j) else 2]
  lead = u.choice(rng, instances)
  for op in range(len(plan) + count):
    step = plan.pop(0) if plan else None
    inst = lead if step else u.choice(rng, instances)
    m = inst.machine
    ref = refs[machines.index(m)]
    what = f"operation {op}, {inst.name} instance of {m.label}"
    roll = rng.random()
    if step:
      roll = 0.0 if step[0] == "start" else 1.0
    if roll < 0.2 or not inst.nodes:
      j = step[1] if step else int(rng.integers(2))
      args, kwargs = m.starts[j]
      state = inst.init(*args, **kwargs)
      inst.nodes[(j,)] = state
      same(ctx, arrays(state), reference(m, ref, (j,))[0], True, "initialization",
           f"{what}, start {j}")
      ctx.count("initializations")
      continue
    if roll < 0.27:
      # A failed call
      try:
        inst.update(u.choice(rng, list(inst.nodes.values())), object(), bad_argument=object())
      except Exception:  # pylint: disable=broad-except
        ctx.count("failed calls")
      continue
    path = (step[1],) if step else u.choice(rng, list(inst.nodes))
    if len(path) > 3:
      continue
    state = inst.nodes[path]
    j = step[2] if step else int(rng.integers(2))
    a, k = m.inputs[path[0]][j]
    mode = u.choice(rng, modes) if m.compiled else "direct"
    if not m.unique:
      mode = "jit"
    what = f"{what}, path {path + (j,)} {mode}"
    results = None
    if mode == "jit":
      results = [inst.jitted(state, a, k)]
    elif mode == "loop":
      # The same update twice, starting from the same state
      results = jax.jit(lambda st: lax.map(lambda _: inst.update(st, *a, **k), jnp.arange(2)))(state)
      results = [tree_util.tree_map(lambda l: l[i], results) for i in range(2)]
    elif mode == "vmap":
      others = [n for n in inst.nodes if n[0] == path[0] and
                tree_util.tree_structure(inst.nodes[n]) == tree_util.tree_structure(state)]
      n = u.choice(rng, others)
      if arrays(state) and len(arrays(inst.nodes[n])) == len(arrays(state)) and all(
          x.shape == y.shape for x, y in zip(arrays(inst.nodes[n]), arrays(state))):
        both = tree_util.tree_map(lambda x, y: jnp.stack([x, y]), state, inst.nodes[n])
        out = jax.jit(jax.vmap(lambda st: inst.update(st, *a, **k)))(both)
        results = [tree_util.tree_map(lambda l: l[0], out)]
        second = tree_util.tree_map(lambda l: l[1], out)
        if len(n) <= 3:
          same(ctx, arrays(second), reference(m, ref, n + (j,))[0], False, "history",
               f"{what}, second state {n}")
    if results is None:
      results = [inst.update(state, *a, **k)]
      mode = "direct"
    exact = mode == "jit" or not m.compiled
    for r in results:
      good = same(ctx, arrays(r), reference(m, ref, path + (j,))[0], exact, "history", what)
    repeated += path + (j,) in inst.nodes or inst.name != "first"
    ctx.count(f"updates {mode}")
    if good and mode == "jit" or not m.compiled:
      inst.nodes[path + (j,)] = new = m.state_of(results[0])
      got = inst.get(new)
      same(ctx, arrays(got), reference(m, ref, path + (j,))[2], True, "history", f"{what}, result")
    if rng.random() < 0.5:
      p = u.choice(rng, list(inst.nodes))
      same(ctx, arrays(inst.get(inst.nodes[p])), reference(m, ref, p)[2], True, "history",
           f"{what}, result of {p}")
  for m, (starts, inputs) in zip(machines, snapshots):
    ctx.check(unchanged(m.starts, starts), "arguments", lambda: f"{m.label}: {m.starts} was {starts}")
    ctx.check(unchanged(m.inputs, inputs), "arguments", lambda: f"{m.label}: {m.inputs} was {inputs}")
  ctx.state(case["kind"], machines[0].label)
  ctx.interesting(repeated > 1)
  ctx.sample = {"component": machines[0].label, "nodes": [len(i.nodes) for i in instances]}
