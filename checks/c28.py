"""C28: the layout of samples, model states and data does not matter."""
import collections
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import random, tree_util

from vlib import util as u

PROPERTY = "C28"
RULE = (
  "The ready-made samplers, potentials, adaptions and integrators are executed on twins of one "
  "problem which differ only in the layout: names and nesting of the leaves of the sample and "
  "of the model state (order kept; dictionaries, ordered dictionaries, tuples, lists, named "
  "tuples, registered classes, empty subtrees, bare arrays), shapes of the leaves (size kept), names and shapes of "
  "the fields of the data. Masses, frictions and initial quantities follow the sample. All "
  "values must agree in the order of the leaves, all structures with those of the sample. "
  "Non-trivial: several iterations.")
ASSUMPTIONS = [
  "jax.numpy draws the same numbers for arrays of the same size",
  "twins agree up to rounding: relative 2e-3 after a few iterations"]
BUDGET = {"quick": 32, "thorough": 300}
TIMEOUT = 150

SAMPLERS = ["sgld", "rms", "re_sgld", "amagold", "sggmc", "sghmc", "noise", "obabo"]
KINDS = SAMPLERS + ["potential", "adaption", "corrected", "mapped"]


def gen(rng, tier):
  for kind in KINDS + ["potential", "adaption", "corrected", "corrected", "mapped", "sghmc"]:
    yield dict(core=True, kind=kind, seed=u.seed(rng))
  for _ in range(500 if tier == "quick" else 9000):
    yield dict(kind=u.choice(rng, KINDS), seed=u.seed(rng))


# --- Layouts ---------------------------------------------------------------------

class Node:
  """User-defined container."""

  def __init__(self, *children):
    self.children = children


tree_util.register_pytree_node(
  Node, lambda n: (n.children, len(n.children)), lambda _, c: Node(*c))

Pair = collections.namedtuple("Pair", ["second", "first"])


def shapes_of(rng, size):
  """A random shape of the given size."""
  out, rest = [], size
  while rest > 1 and rng.random() < 0.7 and len(out) < 3:
    divisors = [k for k in range(1, rest + 1) if rest % k == 0]
    out.append(int(u.choice(rng, divisors)))
    rest //= out[-1]
  if rest > 1:
    out.append(rest)
  while len(out) < 3 and rng.random() < 0.4:
    out.insert(int(rng.integers(len(out) + 1)), 1)
  return tuple(out)


def layout(rng, leaf_shapes):
  """Function from the list of leaves to a tree with these leaves."""
  count = len(leaf_shapes)

  def node(indices, depth):
    if len(indices) == 1 and (depth == 0 or rng.random() < 0.5):
      return indices[0]
    pieces, rest = [], list(indices)
    if depth == 0:
      pieces = [[i] for i in rest]
    else:
      while rest:
        k = int(rng.integers(1, len(rest) + 1))
        pieces.append(rest[:k])
        rest = rest[k:]
    kids = [node(p, max(depth - 1, 0)) for p in pieces]
    if rng.random() < 0.1:
      kids.insert(int(rng.integers(len(kids) + 1)), ("none",))
    options = ["dict", "list", "tuple", "node", "ordered"] + (["pair"] if len(kids) == 2 else [])
    kind = u.choice(rng, options)
    names = sorted(rng.choice(["w", "b", "sigma", "a", "Z", "layer_10", "layer_9", "x1", "key",
                               "scale", "variables", "positions", "0"], size=len(kids), replace=False))
    # Dictionaries are also created in another order
    return (kind, [str(n) for n in names], kids, [int(i) for i in rng.permutation(len(kids))])

  spec = 0 if count == 1 and rng.random() < 0.5 else node(list(range(count)), int(rng.integers(0, 3)))

  def build(spec, leaves):
    if isinstance(spec, int):
      return leaves[spec]
    if spec[0] == "none":
      return ()
    kind, names, kids, order = spec
    kids = [build(k, leaves) for k in kids]
    return {"dict": lambda: {names[i]: kids[i] for i in order}, "list": lambda: list(kids),
            "tuple": lambda: tuple(kids), "node": lambda: Node(*kids),
            "ordered": lambda: collections.OrderedDict(zip(names[::-1], kids)),
            "pair": lambda: Pair(*kids)}[kind]()

  def make(values):
    return build(spec, [jnp.reshape(jnp.asarray(v, jnp.float32), s)
                        for v, s in zip(values, leaf_shapes)])
  make.spec = spec
  return make


def vector(tree):
  return jnp.concatenate([jnp.ravel(l) for l in tree_util.tree_leaves(tree)])


def host(tree, lead=0):
  """Values in the order of the leaves."""
  return onp.concatenate([
    onp.reshape(onp.asarray(l, float), onp.shape(l)[:lead] + (-1,))
    for l in tree_util.tree_leaves(tree)], axis=-1)


class Problem:
  """Nonlinear regression; everything but the layout is shared by the twins."""

  def __init__(self, rng):
    self.sizes = [int(v) for v in rng.choice([1, 2, 3, 4, 5, 6, 8], size=int(rng.integers(1, 5)))]
    self.d = sum(self.sizes)
    self.N = int(rng.integers(4, 20))
    self.q = int(u.choice(rng, [1, 2, 4, 6]))
    self.x = rng.normal(size=(self.N, self.q)).astype(onp.float32)
    self.y = rng.normal(size=self.N).astype(onp.float32)
    self.A = (rng.normal(size=(self.d, self.q)) / onp.sqrt(self.d)).astype(onp.float32)
    self.P = jnp.asarray(onp.exp(rng.uniform(-0.5, 0.5, size=self.d)), jnp.float32)
    self.has_state = bool(rng.random() < 0.65)
    self.state_sizes = [int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 3)))]
    self.state = [rng.normal(size=n) for n in self.state_sizes]
    self.N_scale = float(self.N)

  def values(self, rng, positive=False, low=-1.0, high=1.0):
    v = onp.exp(rng.uniform(low, high, size=self.d)) if positive else rng.normal(size=self.d)
    return onp.split(v.astype(onp.float32), onp.cumsum(self.sizes)[:-1])

  def loglik(self, flat, x, y, s):
    z = jnp.dot(flat, jnp.asarray(self.A)).reshape(-1)
    z = jnp.dot(z, x.reshape(-1))
    return -0.5 * jnp.square(jnp.tanh(z) + 0.2 * s - y.reshape(())) - 0.1 * z


class Twin:
  """The problem in a layout."""

  def __init__(self, problem, rng, plain=False):
    self.p = p = problem
    if plain:
      shapes = [(n,) for n in p.sizes]
      names = [f"p{k}" for k in range(len(p.sizes))]
      self.tree = lambda values: dict(zip(names, map(jnp.asarray, values)))
      self.model_state = {f"s{k}": jnp.asarray(v, jnp.float32) for k, v in enumerate(p.state)}
      self.fields, self.shapes = ("x", "y"), ((p.q,), ())
      self.label = "plain"
    else:
      shapes = [shapes_of(rng, n) for n in p.sizes]
      self.tree = layout(rng, shapes)
      state_shapes = [shapes_of(rng, n) for n in p.state_sizes]
      self.model_state = layout(rng, state_shapes)(p.state)
      names = [str(n) for n in rng.choice(["y", "x", "data", "mask", "a", "obs_1"], size=2, replace=False)]
      self.fields = tuple(names)
      self.shapes = (shapes_of(rng, p.q), shapes_of(rng, 1))
      self.label = f"{self.tree.spec} {shapes} {self.fields}"
    if not p.has_state:
      self.model_state = None

  def data(self):
    p = self.p
    columns = [(self.fields[0], p.x.reshape((p.N,) + self.shapes[0])),
               (self.fields[1], p.y.reshape((p.N,) + self.shapes[1]))]
    return dict(sorted(columns, key=lambda c: self.label + c[0] if len(c[0]) > 1 else c[0]))

  def likelihood(self, *args):
    p = self.p
    state, sample, obs = args if p.has_state else (None, *args)
    x, y = obs[self.fields[0]], obs[self.fields[1]]
    s = jnp.sum(vector(state)) if p.has_state else 0.0
    v = p.loglik(vector(sample), x, y, s)
    if not p.has_state:
      return v
    # Each entry of the state changes in a different way
    y = y.reshape(())
    leaves, treedef = tree_util.tree_flatten(state)
    leaves = [0.7 * l + 0.1 * (k + 1) * y * jnp.arange(1.0, l.size + 1).reshape(l.shape)
              for k, l in enumerate(leaves)]
    return v, tree_util.tree_unflatten(treedef, leaves)

  def prior(self, sample):
    return -0.5 * jnp.sum(self.p.P * jnp.square(vector(sample)))

  def potentials(self, **kw):
    from jax_sgmc import potential
    return (potential.minibatch_potential(self.prior, self.likelihood, has_state=self.p.has_state, **kw),
            potential.full_potential(self.prior, self.likelihood, has_state=self.p.has_state, **kw))


def agree(ctx, got, want, key, what, rtol=2e-3):
  got, want = onp.asarray(got, float), onp.asarray(want, float)
  if not ctx.check(got.shape == want.shape, key, f"{what}: {got.shape} instead of {want.shape}"):
    return False
  with onp.errstate(all="ignore"):
    scale = onp.max(onp.abs(want), initial=0.0, where=onp.isfinite(want))
    ok = onp.allclose(got, want, rtol=rtol, atol=rtol * scale + 1e-6, equal_nan=True)
  return ctx.check(ok, key, lambda: f"{what}: {u.short(got)} instead of {u.short(want)}")


def structure(ctx, tree, like, what, lead=()):
  """The tree has the structure, shapes and types of the sample."""
  a, b = tree_util.tree_structure(tree), tree_util.tree_structure(like)
  if not ctx.check(a == b, "structure", lambda: f"{what}: {a} instead of {b}"):
    return False
  return all(ctx.check(
    onp.shape(l) == lead + onp.shape(k) and jnp.asarray(l).dtype == jnp.asarray(k).dtype, "structure",
    lambda: f"{what}: leaf {onp.shape(l)} {jnp.asarray(l).dtype}, "
            f"expected {lead + onp.shape(k)} {jnp.asarray(k).dtype}")
    for l, k in zip(tree_util.tree_leaves(tree), tree_util.tree_leaves(like)))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  problem = Problem(rng)
  twins = [Twin(problem, rng, plain=True), Twin(problem, rng), Twin(problem, rng)]
  kind = case["kind"]
  if kind == "adaption":
    twins += [Twin(problem, rng) for _ in range(9)]
  {"potential": potentials, "adaption": adaptions, "corrected": corrected,
   "mapped": mapped}.get(kind, samplers)(
    kind, problem, twins, rng, ctx)
  ctx.state(kind, len(problem.sizes), problem.has_state)
  ctx.interesting(True)
  ctx.sample = {"sizes": problem.sizes, "layouts": [t.label for t in twins[1:]]}


# --- Kinds -----------------------------------------------------------------------

def samplers(kind, p, twins, rng, ctx):
  from jax_sgmc import alias
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader
  loader = u.choice(rng, [DeviceNumpyDataLoader, NumpyDataLoader])
  chains = int(rng.integers(1, 3))
  iterations = int(rng.integers(4, 10))
  low = 2 if kind == "noise" else 1
  batch = int(rng.integers(low, p.N + 1))
  lam = p.N * float(onp.max(onp.linalg.norm(p.x, axis=1)) * onp.linalg.norm(p.A, 2)) ** 2 + 2
  hamiltonian = kind not in ("sgld", "rms", "re_sgld")
  eps = 0.1 / onp.sqrt(lam) if hamiltonian else 0.1 / lam
  kw = dict(cache_size=int(rng.integers(1, 5)), batch_size=batch, first_step_size=eps,
            burn_in=int(rng.integers(0, 3)), save_to_numpy=bool(rng.random() < 0.5),
            progress_bar=False)
  kw["accepted_samples"] = int(rng.integers(1, iterations - kw["burn_in"] + 1))
  if rng.random() < 0.5:
    kw["last_step_size"] = eps * 0.5
  else:
    kw["last_step_size"] = eps
  if loader is DeviceNumpyDataLoader:
    kw["cache_size"] = 1
  mass = p.values(rng, positive=True) if hamiltonian and rng.random() < 0.7 else None
  friction = None
  if hamiltonian:
    kw["integration_steps"] = int(rng.integers(1, 4))
    name = "friction_coefficient" if kind == "sggmc" else "friction"
    kw[name] = 0.2 / eps * (0.2 if mass is None else 0.2 * min(m.min() for m in mass))
    if kind in ("sghmc", "noise") and rng.random() < 0.75:
      scale = kw.pop(name)
      friction = [scale * f for f in p.values(rng, positive=True)]
  if kind == "noise":
    kw.update(adapt_noise_model=True, diagonal_noise=bool(rng.random() < 0.5))
  if kind == "rms":
    kw.update(rms_prop=True, alpha=0.7, lmbd=0.05)
  if kind == "re_sgld":
    kw.update(temperature=20.0)
  strategy = u.choice(rng, ["map", "vmap"])
  starts = [p.values(rng) for _ in range(2 * chains)]
  make = alias.sgld if kind == "rms" else alias.sghmc if kind == "noise" else getattr(alias, kind)
  fractions = kind in ("amagold", "sggmc")
  results = []
  for t in twins:
    mini, full = t.potentials(strategy=strategy)
    more = dict(kw)
    if mass is not None:
      more["mass"] = t.tree(mass)
    if friction is not None:
      more["friction"] = t.tree(friction)
    data = loader(**t.data())
    sampler = make(mini, full, data, **more) if fractions else make(mini, data, **more)
    trees = [t.tree(s) for s in starts]
    args = list(zip(trees[::2], trees[1::2])) if kind == "re_sgld" else trees[:chains]
    results.append(sampler(*args, init_model_state=t.model_state, iterations=iterations))
  n = kw["accepted_samples"]
  for t, res in zip(twins, results):
    what = f"{kind} {t.label}"
    ctx.check(len(res) == chains, "chains", what)
    for c in range(chains):
      out, ref = res[c]["samples"], results[0][c]["samples"]
      if not structure(ctx, out["variables"], t.tree(starts[0]), f"{what}, variables", (n,)):
        return
      if p.has_state and not structure(ctx, out["model_state"], t.model_state, f"{what}, state", (n,)):
        return
      if fractions:
        a, b = onp.asarray(out["acceptance_ratio"], float), onp.asarray(ref["acceptance_ratio"], float)
        agree(ctx, a[:1], b[:1], "acceptance", what, rtol=2e-2)
      # The roots of full matrices are only unique up to rotations of the noise
      if kind != "noise" or kw["diagonal_noise"]:
        agree(ctx, host(out["variables"], 1), host(ref["variables"], 1), "variables",
              f"{what} chain {c}")
      if p.has_state:
        agree(ctx, host(out["model_state"], 1), host(ref["model_state"], 1), "state",
              f"{what} chain {c}")
      ctx.count("samples", n)


def potentials(kind, p, twins, rng, ctx):
  from jax_sgmc import data
  from jax_sgmc.data import MiniBatchInformation
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader
  del kind
  loader = u.choice(rng, [DeviceNumpyDataLoader, NumpyDataLoader])
  strategy = u.choice(rng, ["map", "vmap"])
  mb, cache = int(rng.integers(1, p.N + 1)), int(rng.integers(1, 4))
  points = [p.values(rng) for _ in range(3)]
  rows = rng.integers(0, p.N, size=mb)
  masked = rng.random(size=mb) < 0.6 if rng.random() < 0.5 else None
  T = u.logu(rng, 0.3, 3)
  want = None
  for t in twins:
    mini, full = t.potentials(strategy=strategy, temperature=T)
    table = t.data()
    batch = ({k: jnp.asarray(v)[rows] for k, v in table.items()},
             MiniBatchInformation(observation_count=p.N, batch_size=mb, mask=jnp.ones(mb, bool)))
    mask = None if masked is None else jnp.asarray(masked)
    init, full_map, release = data.full_reference_data(loader(**table), cache, mb)
    ds, ms = init(), t.model_state
    record = []
    for point in points:
      smp = t.tree(point)
      (v, aux), g = jax.jit(jax.value_and_grad(
        lambda x: mini(x, batch, state=t.model_state, mask=mask, likelihoods=True),
        has_aux=True))(smp)
      structure(ctx, g, smp, f"{t.label}, gradient")
      (V, (ds, ms)), G = jax.jit(jax.value_and_grad(
        lambda x, d, m: full(x, d, full_map, m), has_aux=True))(smp, ds, ms)
      structure(ctx, G, smp, f"{t.label}, full gradient")
      record += [v, host(g), aux[0], V, host(G)]
      if p.has_state:
        structure(ctx, ms, t.model_state, f"{t.label}, state")
        structure(ctx, aux[1], t.model_state, f"{t.label}, state")
        record += [host(aux[1]), host(ms)]
      ctx.count("evaluations")
    release()
    want = want or record
    for k, (a, b) in enumerate(zip(record, want)):
      agree(ctx, a, b, "potential", f"{t.label}, quantity {k}", rtol=1e-3)


def adaptions(kind, p, twins, rng, ctx):
  from jax_sgmc import adaption
  from jax_sgmc.util import Tensor, tensor_matmul, tree_dot
  del kind
  which = u.choice(rng, ["rms", "mass"])
  diagonal = bool(rng.random() < 0.5)
  burn = 3 if diagonal else p.d + 4
  stream = [p.values(rng) for _ in range(2 * (burn + 2))]
  first = p.values(rng, positive=True) if rng.random() < 0.5 else None
  want = None
  matrix = rng.normal(size=(p.d, p.d))
  for t in twins:
    trees = [t.tree(s) for s in stream]
    record = []
    # The algebra of the trees
    for tensor in (Tensor(2, jnp.asarray(matrix, jnp.float32)), Tensor(1, trees[0]), Tensor(0, 1.5)):
      out = tensor_matmul(tensor, trees[1])
      structure(ctx, out, trees[1], f"product {tensor.ndim} {t.label}")
      record.append(host(out))
    record.append(tree_dot(trees[0], trees[1]))
    if which == "rms":
      init, update, get = adaption.rms_prop()
      state = init(trees[0], alpha=0.7, lmbd=0.03)
    else:
      init, update, get = adaption.mass_matrix(diagonal=diagonal, burn_in=burn)
      state = init(trees[0], None if first is None else t.tree(first))
    update = jax.jit(update)
    for a, b in zip(trees[::2], trees[1::2]):
      args = (a, b) if which == "rms" else (a,)
      state = update(state, *args)
      out = get(state, *(args if which == "rms" else ()))
      for q in out:
        if q.ndim == 1:
          structure(ctx, q.tensor, a, f"{which} {t.label}")
          record.append(host(q.tensor))
        else:
          m = onp.asarray(q.tensor, float)
          record.append(m @ m.T)
      ctx.count("updates")
    want = want or record
    for k, (a, b) in enumerate(zip(record, want)):
      agree(ctx, a, b, "adaption", f"{which} {t.label}, quantity {k}", rtol=5e-3)


def corrected(kind, p, twins, rng, ctx):
  """Corrected samplers with an adapted mass and all integrators step by step."""
  from jax_sgmc import adaption, data, integrator, scheduler, solver
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader
  from jax_sgmc.util import Tensor
  from checks.c15 import user_manifold
  del kind
  which = u.choice(rng, ["amagold", "sggmc", "obabo", "reversible", "friction", "manifold"])
  lam = p.N * float(onp.max(onp.linalg.norm(p.x, axis=1)) * onp.linalg.norm(p.A, 2)) ** 2 + 2
  eps = 0.1 / onp.sqrt(lam)
  steps, mb = int(rng.integers(1, 4)), int(rng.integers(1, p.N + 1))
  key = random.PRNGKey(int(rng.integers(1 << 30)))
  start = p.values(rng)
  mass = p.values(rng, positive=True)
  given = bool(rng.random() < 0.6)
  burn = p.d + 3
  manifold = user_manifold(rng, p.d)[0]
  # Full mass matrix
  q, _ = onp.linalg.qr(rng.normal(size=(p.d, p.d)))
  eig = onp.exp(rng.uniform(-1, 1, size=p.d))
  full_mass = adaption.MassMatrix(
    inv=Tensor(2, jnp.asarray((q / eig) @ q.T, jnp.float32)),
    sqrt=Tensor(2, jnp.asarray((q * onp.sqrt(eig)) @ q.T, jnp.float32)))
  direct = bool(rng.random() < 0.5)
  friction = [0.05 / eps * f for f in p.values(rng, positive=True)] if rng.random() < 0.6 else None
  updates = burn + 3 if which in ("amagold", "sggmc") else 5
  sched = scheduler.schedule(step_size=jnp.float32(eps ** 2 if which == "manifold" else eps), temperature=jnp.float32(1.0),
                             burn_in=jnp.float32(1.0), accept=jnp.asarray(True))
  want = None
  for t in twins:
    mini, full = t.potentials(strategy="vmap")
    loader = DeviceNumpyDataLoader(**t.data())
    batches = data.random_reference_data(loader, 1, mb)
    fn = {"amagold": "reversible_leapfrog", "sggmc": "obabo", "obabo": "obabo",
          "reversible": "reversible_leapfrog", "friction": "friction_leapfrog",
          "manifold": "langevin_diffusion"}[which]
    constant = {"const_mass": t.tree(mass)} if which not in ("amagold", "sggmc") and given else {}
    if which == "manifold":
      integ = integrator.langevin_diffusion(mini, batches, adaption=manifold)
    else:
      f = t.tree(friction) if friction is not None and which == "friction" else 0.05 / eps
      integ = getattr(integrator, fn)(mini, batches, steps=steps, friction=f, **constant)
    kw = dict(key=key, init_model_state=t.model_state)
    if which in ("amagold", "sggmc"):
      triple = getattr(solver, which)(integ, full, data.full_reference_data(loader, 1, mb),
                                      mass_adaption=adaption.mass_matrix(burn_in=burn))
      if given:
        kw["initial_mass"] = t.tree(mass)
    elif direct and which != "manifold":
      triple = (integ[0], lambda st, sc: (integ[1](st, sc, full_mass), None), integ[2])
    else:
      triple = solver.sgmc(integ)
    state = triple[0](t.tree(start), **kw)
    advance = jax.jit(lambda st: triple[1](st, sched))
    record = []
    for _ in range(updates):
      state, stats = advance(state)
      out = triple[2](state)
      structure(ctx, out["variables"], t.tree(start), f"{which} {t.label}")
      record.append(host(out["variables"]))
      if p.has_state:
        structure(ctx, out["model_state"], t.model_state, f"{which} {t.label}")
        record.append(host(out["model_state"]))
      if stats is not None:
        record.append(host(state.mass_state.state[3]))
      ctx.count("updates")
    want = want or record
    for k, (a, b) in enumerate(zip(record, want)):
      if not agree(ctx, a, b, "corrected", f"{which} {t.label}, record {k}", rtol=1e-2):
        break


def mapped(kind, p, twins, rng, ctx):
  """Several chains in parallel with all ways to collect samples."""
  from jax_sgmc import adaption, data, integrator, io, scheduler, solver
  from jax_sgmc.data.numpy_loader import DeviceNumpyDataLoader, NumpyDataLoader
  del kind
  loader = u.choice(rng, [DeviceNumpyDataLoader, NumpyDataLoader])
  strategy = u.choice(rng, ["vmap", "pmap", "map"])
  collect = u.choice(rng, ["device", "memory"])
  chains = int(rng.integers(1, 1 + min(3, jax.device_count())))
  iterations = int(rng.integers(3, 8))
  lam = p.N * float(onp.max(onp.linalg.norm(p.x, axis=1)) * onp.linalg.norm(p.A, 2)) ** 2 + 2
  if strategy == "vmap":
    loader, collect = DeviceNumpyDataLoader, "device"
  mb = int(rng.integers(1, p.N + 1))
  cache = 1 if loader is DeviceNumpyDataLoader else int(rng.integers(1, 4))
  starts = [p.values(rng) for _ in range(chains)]
  key = random.PRNGKey(int(rng.integers(1 << 30)))
  rms = bool(rng.random() < 0.5)
  want = None
  for t in twins:
    mini, _ = t.potentials(strategy="vmap")
    sol = solver.sgmc(integrator.langevin_diffusion(
      mini, data.random_reference_data(loader(**t.data()), cache, mb),
      adaption=adaption.rms_prop() if rms else None))
    sched = scheduler.init_scheduler(
      step_size=scheduler.polynomial_step_size(a=0.1 / lam, b=1.0, gamma=0.4), progress_bar=False)
    saving = None if collect == "device" else io.save(io.MemoryCollector())
    run_ = solver.mcmc(sol, sched, strategy=strategy, saving=saving)
    options = {"adaption_kwargs": {"alpha": 0.6, "lmbd": 0.1}} if rms else {}
    states = [sol[0](t.tree(s), key=random.fold_in(key, k), init_model_state=t.model_state, **options)
              for k, s in enumerate(starts)]
    what = f"{strategy} {collect} {t.label}"
    record = []
    for out in run_(*states, iterations=iterations):
      smp = out["samples"]
      structure(ctx, smp["variables"], t.tree(starts[0]), what, (iterations,))
      record.append(host(smp["variables"], 1))
      if p.has_state:
        structure(ctx, smp["model_state"], t.model_state, what, (iterations,))
        record.append(host(smp["model_state"], 1))
    ctx.count("chains", chains)
    want = want or record
    ctx.check(len(record) == len(want), "chains", what)
    for k, (a, b) in enumerate(zip(record, want)):
      agree(ctx, a, b, "mapped", f"{what}, record {k}")
