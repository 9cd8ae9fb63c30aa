"""C25: tree algebra, list mapping and identifiers obey their laws."""
import threading
import unittest.mock
import uuid
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import tree_util

from vlib import trees
from vlib import util as u

PROPERTY = "C25"
DEVICES = 8
RULE = (
  "Kind algebra: random trees of all node types and shapes, evaluated eagerly, "
  "compiled, vectorized or differentiated, against linear algebra on the flattened "
  "vectors in double precision. Kind lists: random functions are mapped over lists "
  "of trees, vectorized or on up to eight devices, and compared with a loop; "
  "stacking and splitting are compared with numpy and undone. Kind uuid: random and "
  "extreme 128 bit identifiers pass through flattening, compiled code, devices and "
  "conversion; identifiers made concurrently must be distinct. Non-trivial: trees "
  "with several leaves, lists with several trees, several identifiers.")
ASSUMPTIONS = ["trees have at least one leaf if they are mapped or split"]
X64 = 0.15  # part of the cases in double precision
BUDGET = {"quick": 25, "thorough": 300}
TIMEOUT = 120


def gen(rng, tier):
  for kind in ("algebra", "lists", "uuid"):
    for _ in range(6):
      yield dict(core=True, kind=kind, seed=u.seed(rng))
  for _ in range(1200 if tier == "quick" else 20000):
    yield dict(kind=u.choice(rng, ["algebra", "algebra", "lists", "uuid"]), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  {"algebra": algebra, "lists": lists, "uuid": uuids}[case["kind"]](case, ctx, rng)


def random_structure(rng, zero_dims=False, max_leaves=10):
  """Tree of shapes with at least one leaf."""
  def leaf(_):
    rank = int(rng.integers(0, 4))
    return Shape(int(v) for v in rng.integers(0 if zero_dims else 1, 4, size=rank))
  while True:
    tree = trees.random_tree(rng, leaf, depth=int(rng.integers(0, 5)), max_leaves=max_leaves)
    if tree_util.tree_leaves(tree, is_leaf=lambda x: isinstance(x, Shape)):
      return tree


class Shape:
  """Leaf which stands for an array."""

  def __init__(self, dims):
    self.dims = tuple(dims)


def fill(tree, fn):
  return tree_util.tree_map(lambda s: fn(s.dims), tree)


def vec(tree):
  return onp.concatenate([onp.asarray(l, onp.float64).reshape(-1) for l in tree_util.tree_leaves(tree)])


def split(v, like):
  ls, td = tree_util.tree_flatten(like)
  out, k = [], 0
  for l in ls:
    n = int(onp.size(l))
    out.append(v[k:k + n].reshape(onp.shape(l)))
    k += n
  return tree_util.tree_unflatten(td, out)


def algebra(case, ctx, rng):
  from jax_sgmc import util
  structure = random_structure(rng, zero_dims=rng.random() < 0.3)
  kinds = u.choice(rng, [["float32"], ["float32"], ["float32", "float16"], ["int32"], ["float32", "int32"]])

  def number(shape, dt):
    if dt == "int32":
      return onp.asarray(rng.integers(-20, 20, size=shape), onp.int32)
    return onp.asarray(rng.normal(size=shape) * u.logu(rng, 0.1, 10), dt)
  dts = {}

  def trees_like():
    """The leaves of all trees have the same types."""
    count = [0]

    def one(shape):
      k = count[0]
      count[0] += 1
      dts.setdefault(k, u.choice(rng, kinds))
      return jnp.asarray(number(shape, dts[k]))
    return fill(structure, one)
  a, b = trees_like(), trees_like()
  n = len(vec(a))
  va, vb = vec(a), vec(b)
  half = any(d == "float16" for d in dts.values())
  tol = dict(rtol=4e-3, atol=1e-3) if half else dict(rtol=2e-6, atol=1e-6)
  mode = u.choice(rng, ["eager", "jit", "vmap"])
  what = f"{mode} {tree_util.tree_structure(a)} {sorted(set(dts.values()))} {n} elements"

  def call(fn, *args):
    if mode == "jit":
      return jax.jit(fn)(*args)
    if mode == "vmap":
      out = jax.vmap(fn)(*tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x), jnp.asarray(x)]), args))
      return tree_util.tree_map(lambda x: x[1], out)
    return fn(*args)

  def judge(got, want, key, scale=None, **tols):
    if not u.same_structure(ctx, got, a, f"{key}-structure"):
      return
    lg, la = tree_util.tree_leaves(got), tree_util.tree_leaves(a)
    if ctx.check(all(g.shape == l.shape for g, l in zip(lg, la)), f"{key}-structure", what):
      u.close(ctx, got, split(want, a), key, what, scale=scale, **(tols or tol))
  judge(call(util.tree_add, a, b), va + vb, "tree_add")
  judge(call(util.tree_multiply, a, b), va * vb, "tree_multiply")
  alpha = onp.float32(rng.normal())
  judge(call(util.tree_scale, alpha, a), float(alpha) * va, "tree_scale")
  factor = int(rng.integers(-4, 5))
  judge(util.tree_scale(factor, a), factor * va, "tree_scale")
  # Types of single trees are preserved
  for name, out in (("tree_add", util.tree_add(a, b)), ("tree_multiply", util.tree_multiply(a, b))):
    ctx.check(all(g.dtype == l.dtype for g, l in zip(tree_util.tree_leaves(out), tree_util.tree_leaves(a))),
              f"{name}-type", what)
  # Dot product
  dot = call(util.tree_dot, a, b)
  ctx.check(onp.shape(dot) == (), "tree_dot-shape", f"{what}: {onp.shape(dot)}")
  mag = float(onp.sum(onp.abs(va * vb)))
  ctx.check(abs(float(dot) - va @ vb) <= (4e-3 if half else 3e-6) * mag + 1e-6, "tree_dot",
            f"{what}: {float(dot)} instead of {va @ vb}")
  ctx.check(abs(float(util.tree_dot(a, b)) - float(util.tree_dot(b, a))) <= 1e-3 * mag + 1e-6,
            "tree_dot-symmetric", what)
  # Matrices: homogeneous half precision is not supported
  if n > 0 and not half and n <= 400:
    M = rng.normal(size=(n, n)).astype(onp.float32)
    x = tree_util.tree_map(lambda l: jnp.asarray(l, jnp.float32), a)
    vx = vec(x)
    scale = float(onp.max(onp.abs(M).astype(float) @ onp.abs(vx)))
    Mv = M.astype(float) @ vx
    judge(call(util.tree_matmul, M, x), Mv, "tree_matmul", scale=scale, rtol=3e-6, atol=1e-6)
    d = fill(structure, lambda s: jnp.asarray(onp.asarray(rng.normal(size=s), onp.float32)))
    fn = util.tensor_matmul
    judge(fn(util.Tensor(ndim=2, tensor=jnp.asarray(M)), x), Mv, "tensor_matmul", scale=scale,
          rtol=3e-6, atol=1e-6)
    judge(fn(util.Tensor(ndim=1, tensor=d), x), vec(d) * vx, "tensor_matmul")
    judge(fn(util.Tensor(ndim=0, tensor=jnp.float32(alpha)), x), float(alpha) * vx, "tensor_matmul")
    jitted = jax.jit(lambda t, y: fn(util.Tensor(ndim=1, tensor=t), y))
    judge(jitted(d, x), vec(d) * vx, "tensor_matmul")
    for bad in (3, -1):
      try:
        fn(util.Tensor(ndim=bad, tensor=d), x)
        ctx.violate("tensor_matmul-rank", f"{what}: dimension {bad} is accepted")
      except NotImplementedError:
        ctx.count("assertions")
    # Gradients
    if rng.random() < 0.3:
      g = jax.grad(lambda y: util.tree_dot(y, util.tree_matmul(M, y)))(x)
      S = M.astype(float) + M.astype(float).T
      judge(g, S @ vx, "gradient", scale=2 * scale, rtol=1e-5, atol=1e-5)
      ctx.count("gradients")
  ctx.count("trees")
  ctx.count("elements", n)
  ctx.state(mode, tree_util.tree_structure(a), sorted(set(dts.values())))
  ctx.interesting(len(dts) > 1)


def lists(case, ctx, rng):
  from jax_sgmc import util
  del case
  structure = random_structure(rng)
  pmap = bool(rng.random() < 0.4)
  count = int(rng.integers(1, 9))
  leaf = {}

  def tree(k):
    pos = [0]

    def one(shape):
      i = pos[0]
      pos[0] += 1
      dt = leaf.setdefault(i, u.choice(rng, ["float32", "int32", "uint8", "bool", "float16"]))
      v = rng.integers(0, 200, size=shape)
      return jnp.asarray(onp.asarray(v % 2 if dt == "bool" else v, dt))
    del k
    return fill(structure, one)
  ts = [tree(k) for k in range(count)]
  what = f"{'pmap' if pmap else 'vmap'} {count} trees {tree_util.tree_structure(ts[0])}"
  # Stack and split
  stacked = util.pytree_list_to_leaves(ts)
  want = tree_util.tree_map(lambda *l: onp.stack([onp.asarray(v) for v in l]), *ts)
  if u.same_structure(ctx, stacked, want, "stack-structure"):
    u.equal(ctx, stacked, want, "stack", what, dtype=True)
  back = util.pytree_leaves_to_list(stacked)
  if ctx.check(isinstance(back, list) and len(back) == count, "split-count", what):
    for k in range(count):
      if u.same_structure(ctx, back[k], ts[k], "split-structure"):
        u.equal(ctx, back[k], ts[k], "split", f"{what} tree {k}", dtype=True)
  again = util.pytree_list_to_leaves(util.pytree_leaves_to_list(want))
  u.equal(ctx, again, want, "split-stack", what, dtype=True)
  # Trees whose leaves differ in type, e. g. started from integers or floats:
  # The values survive (they are representable in all the types used)
  def other_type(tree):
    def one(l):
      v = onp.asarray(l)
      dt = u.choice(rng, ["same", "float32", "int32", "python"])
      if dt == "python":
        return float(v) + 0.5 if v.ndim == 0 else v.astype(onp.float32) + 0.25
      return jnp.asarray(v if dt == "same" else v.astype(dt) + (0.5 if dt == "float32" else 0))
    return tree_util.tree_map(one, tree)
  mixed = [other_type(t) for t in ts]
  stacked = util.pytree_list_to_leaves(mixed)
  for k, (got, given) in enumerate(zip(util.pytree_leaves_to_list(stacked), mixed)):
    if u.same_structure(ctx, got, given, "mixed-structure"):
      for g, w in zip(tree_util.tree_leaves(got), tree_util.tree_leaves(given)):
        g, w = onp.asarray(g), onp.asarray(w)
        ctx.check(g.shape == w.shape and onp.array_equal(g.astype(onp.float64), w.astype(onp.float64)),
                  "mixed-types", lambda: f"{what} tree {k}: {g!r} instead of {w!r}")
  # Map
  which = int(rng.integers(4))

  def integer(l):
    return l.astype(jnp.int32)
  c = int(rng.integers(1, 50))

  def fun(t):
    ls = [integer(l) for l in tree_util.tree_leaves(t)]
    total = sum(jnp.sum(l) for l in ls)
    if which == 0:
      return tree_util.tree_map(lambda l: integer(l) * c + total, t)
    if which == 1:
      return {"total": total, "first": ls[0]}
    if which == 2:
      return (total % c, [jnp.stack([total, total + c])], t)
    return jax.lax.fori_loop(0, total % 7, lambda i, s: s * 3 + i, total)
  mapper = util.list_pmap if pmap else util.list_vmap
  mapped = mapper(fun)
  if not pmap and rng.random() < 0.3:
    mapped = jax.jit(mapped)
  for rep in range(2):
    args = ts if rep == 0 else ts[::-1]
    out = mapped(*args)
    if not ctx.check(isinstance(out, list) and len(out) == count, "map-count", what):
      return
    for k, t in enumerate(args):
      ref = fun(t)
      if u.same_structure(ctx, out[k], ref, "map-structure"):
        u.equal(ctx, out[k], ref, "map", f"{what} tree {k} function {which}", dtype=True)
  ctx.count("mapped", 2 * count)
  ctx.count("devices", count if pmap else 0)
  ctx.state(pmap, count, which, tree_util.tree_structure(ts[0]))
  ctx.interesting(count > 1)


def uuids(case, ctx, rng):
  from jax_sgmc.util import list_map
  from jax_sgmc.util.uuid import JaxUUID
  del case
  numbers = [0, 1, 2**128 - 1, 2**127, 2**32 - 1, 2**32, 2**31, 2**96, 2**64 - 1]
  for _ in range(8):
    words = [int(v) for v in rng.integers(0, 2**32, size=4)]
    for k in range(4):
      r = rng.random()
      words[k] = 0 if r < 0.2 else (0xFFFFFFFF if r < 0.3 else (words[k] | 0x80000000 if r < 0.5 else words[k]))
    numbers.append(sum(w << (32 * k) for k, w in enumerate(words)))
  ids = []
  for number in numbers:
    want = uuid.UUID(int=number)
    with unittest.mock.patch("uuid.uuid4", return_value=want) as fake:
      one = JaxUUID()
    if not fake.called:  # made in another way
      want = one.as_uuid
    ids.append((one, want))
  # Identifiers of the standard generator, made in several threads
  made = []

  def work():
    made.extend([JaxUUID() for _ in range(50)])
  threads = [threading.Thread(target=work) for _ in range(4)]
  for t in threads:
    t.start()
  for t in threads:
    t.join()
  ctx.check(len({m.as_uuid for m in made}) == 200, "unique",
            lambda: f"{len({m.as_uuid for m in made})} distinct of 200 identifiers")
  ctx.check(len({tuple(int(v) for v in m.as_int32s) for m in made}) == 200, "unique", "integers")
  ids += [(m, m.as_uuid) for m in made[:5]]
  identity = jax.jit(lambda x: x)
  branch = jax.jit(lambda x, y, c: jax.lax.cond(c, lambda: x, lambda: y))
  for k, (one, want) in enumerate(ids):
    ctx.check(isinstance(one.as_uuid, uuid.UUID) and one.as_uuid == want, "convert",
              lambda: f"{one.as_uuid} instead of {want}")
    ctx.check(uuid.UUID(repr(one)) == want and uuid.UUID(str(one)) == want, "print", f"{one!r} {want}")
    ctx.check(JaxUUID(ints=one.as_int32s).as_uuid == want, "integers", f"{want}")
    ls, td = tree_util.tree_flatten(one)
    ctx.check(tree_util.tree_unflatten(td, ls).as_uuid == want, "flatten", f"{want}")
    ctx.check(tree_util.tree_map(lambda l: onp.asarray(l), one).as_uuid == want, "flatten", f"{want}")
    ctx.check(identity(one).as_uuid == want, "compiled", lambda: f"{identity(one).as_uuid} instead of {want}")
    other, wother = ids[(k + 1) % len(ids)]
    ctx.check(branch(one, other, True).as_uuid == want and branch(one, other, False).as_uuid == wother,
              "compiled", f"{want} {wother}")
    ctx.check(jax.device_put(one).as_uuid == want, "device", f"{want}")
  some = [one for one, _ in ids[:6]]
  stacked = list_map.pytree_list_to_leaves(some)
  for back in (list_map.pytree_leaves_to_list(stacked), list_map.list_vmap(lambda x: x)(*some),
               list_map.list_pmap(lambda x: {"id": x})(*some)):
    back = [b["id"] if isinstance(b, dict) else b for b in back]
    ctx.check([b.as_uuid for b in back] == [w for _, w in ids[:6]], "mapped", f"{back}")
  carried, seen = jax.lax.scan(lambda c, _: (c, c), ids[-1][0], None, length=3)
  ctx.check(carried.as_uuid == ids[-1][1], "scan", f"{ids[-1][1]}")
  ctx.check([b.as_uuid for b in list_map.pytree_leaves_to_list(seen)] == [ids[-1][1]] * 3, "scan", f"{ids[-1][1]}")
  ctx.count("identifiers", len(ids) + len(made))
  ctx.state("uuid", tuple(n % 2**40 for n in numbers))
  ctx.interesting(True)
