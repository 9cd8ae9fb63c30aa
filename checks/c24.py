"""C24: pytrees survive the conversion to dictionaries and back."""
import warnings

import numpy as onp

import jax
import jax.numpy as jnp
from jax import tree_util

from vlib import trees
from vlib import util as u

PROPERTY = "C24"
RULE = (
  "Random pytrees which mix dictionaries (sorted or ordered), lists, tuples, named "
  "tuples, nodes of user-defined types with and without conversion rule, empty nodes "
  "and None, with leaves of all kinds, are converted to dictionaries and back, "
  "completely and for random subtrees, also inside compiled code. A recursive model "
  "gives the path and the leaf of every position. Non-trivial: at least two leaves "
  "and two node types.")
ASSUMPTIONS = ["dictionary keys are strings or sortable hashables of one type"]
BUDGET = {"quick": 25, "thorough": 240}
TIMEOUT = 120
PER_CASE = 40


class Ruled:
  """Node with a registered rule."""

  def __init__(self, left, right):
    self.left, self.right = left, right


class Unruled:
  """Node without rule."""

  def __init__(self, items):
    self.items_ = items


def setup():
  from jax_sgmc import io
  tree_util.register_pytree_node(
    Ruled, lambda n: ((n.left, n.right), None), lambda _, c: Ruled(*c))
  tree_util.register_pytree_node(
    Unruled, lambda n: (tuple(n.items_), len(n.items_)), lambda _, c: Unruled(list(c)))
  io.register_dictionize_rule(Ruled)(lambda n: [("left", n.left), ("right", n.right)])


def gen(rng, tier):
  for kind in ("builtin", "custom", "strings", "integers"):
    for _ in range(4):
      yield dict(core=True, kind=kind, seed=u.seed(rng))
  for _ in range(2000 if tier == "quick" else 40000):
    yield dict(kind=u.choice(rng, ["builtin", "builtin", "custom", "strings", "integers"]), seed=u.seed(rng))


def run(case, ctx):
  warnings.simplefilter("ignore")
  rng = u.rng_of(case)
  for _ in range(PER_CASE):
    one(case, ctx, rng)


def model(tree):
  """(path, leaf) in the order of the flattened tree."""
  if isinstance(tree, Ruled):
    kids = [("left", tree.left), ("right", tree.right)]
  elif isinstance(tree, Unruled):
    return [((ANY,), l) for l in tree_util.tree_leaves(tree)]
  else:
    kids = trees.children(tree)
  if kids is None:
    return [((), tree)]
  return [((k,) + p, l) for k, v in kids for p, l in model(v)]


class Any:
  """Name of a leaf in a node without rule, only required to be unique."""

  def __eq__(self, other):
    return isinstance(other, str)

  def __repr__(self):
    return "*"


ANY = Any()


class Tag:
  """Leaf identified by identity."""

  def __init__(self, n):
    self.n = n

  def __repr__(self):
    return f"Tag({self.n})"


def make(case, rng):
  arrays = trees.array_leaf(rng, zero_dims=True)

  def leaf(i):
    r = int(rng.integers(6))
    return [lambda: Tag(i), lambda: arrays(i), lambda: float(i), lambda: int(i),
            lambda: f"s{i}", lambda: bool(i % 2)][r]()
  if case["kind"] == "strings":
    leaf = Tag
  keys = None
  if case["kind"] == "integers":
    keys = list(range(12))
  tree = trees.random_tree(rng, leaf, depth=int(rng.integers(1, 6)), keys=keys)
  if case["kind"] == "custom":
    tree = wrap(rng, tree, leaf)
  return tree


def wrap(rng, tree, leaf):
  """Exchanges some nodes by nodes of own types."""
  if isinstance(tree, (list, tuple)) and not hasattr(tree, "_fields"):
    kids = [wrap(rng, v, leaf) for v in tree]
    r = rng.random()
    if r < 0.3:
      return Unruled(kids)
    if r < 0.6 and len(kids) >= 2:
      return Ruled(kids[0], kids[1])
    return type(tree)(kids)
  if isinstance(tree, dict):
    return type(tree)((k, wrap(rng, v, leaf)) for k, v in tree.items())
  if isinstance(tree, tuple):
    return type(tree)(*[wrap(rng, v, leaf) for v in tree])
  return tree


def same(a, b):
  return a is b or (type(a) is type(b) and onp.array_equal(a, b))


def lookup(d, path):
  for k in path:
    if not isinstance(d, dict) or k not in d:
      return None, False
    d = d[k]
  return d, True


def count_leaves(d):
  if isinstance(d, dict):
    return sum(count_leaves(v) for v in d.values())
  return 0 if len(tree_util.tree_leaves(d)) == 0 else 1


def one(case, ctx, rng):
  from jax_sgmc import io
  tree = make(case, rng)
  what = lambda: f"tree {str(tree)[:400]}"
  want = model(tree)
  leaves, treedef = tree_util.tree_flatten(tree)
  assert len(want) == len(leaves) and all(l is m for l, (_, m) in zip(leaves, want))
  keys = io.pytree_dict_keys(tree)
  if not ctx.check(len(keys) == len(want) and
                   all(len(k) == len(p) and all(b == a for a, b in zip(k, p))
                       for k, (p, _) in zip(keys, want)), "keys",
                   lambda: f"{what()}: keys {keys} instead of {[p for p, _ in want]}"):
    return
  want = [(tuple(k), l) for k, (_, l) in zip(keys, want)]
  ctx.check(len(set(keys)) == len(leaves), "unique", lambda: f"{what()}: {keys}")
  d = io.pytree_to_dict(tree)
  if want and want[0][0] != ():
    ctx.check(isinstance(d, dict), "dict", lambda: f"{what()}: {d}")
  elif want:
    ctx.check(d is tree, "dict", lambda: f"{what()}: {d}")
  for p, l in want:
    got, found = lookup(d, p)
    ctx.check(found and got is l, "leaf", lambda: f"{what()}: {p} leads to {got!r} instead of {l!r}")
  ctx.check(count_leaves(d) == len(want), "extra", lambda: f"{what()}: {d}")
  back = io.dict_to_pytree(d, tree)
  check_back(ctx, back, tree, "restore", what)
  # The target determines only the structure
  blank = tree_util.tree_unflatten(treedef, [object() for _ in leaves])
  check_back(ctx, io.dict_to_pytree(d, blank), tree, "restore", what)
  # The dictionary may be ordered in any way
  check_back(ctx, io.dict_to_pytree(shuffled(rng, d), tree), tree, "restore-order", what)
  # Subtrees
  nodes = [(p, s) for p, s in trees.subtrees(tree) if len(p) > 0]
  for _ in range(min(3, len(nodes))):
    p, s = nodes[int(rng.integers(len(nodes)))]
    sub, found = lookup(d, p)
    if not found or not tree_util.tree_leaves(s):
      continue
    check_back(ctx, io.dict_to_pytree(sub, s), s, "subtree", what)
    ctx.count("subtrees")
  # Dictionaries are trees, too
  if isinstance(d, dict) and want:
    again = io.pytree_to_dict(d)
    for p, l in want:
      got, found = lookup(again, p)
      ctx.check(found and got is l, "idempotent", lambda: f"{what()}: {p} leads to {got!r}")
  if case["kind"] != "strings" and rng.random() < 0.03:
    compiled(ctx, rng, tree, what)
  ctx.count("trees")
  ctx.count("leaves", len(leaves))
  kinds = {type(s).__name__ for _, s in trees.subtrees(tree)}
  ctx.state(case["kind"], treedef if len(leaves) < 5 else len(leaves), sorted(kinds))
  ctx.interesting(len(leaves) >= 2 and len(kinds) >= 3)


def shuffled(rng, d):
  if not isinstance(d, dict):
    return d
  items = list(d.items())
  rng.shuffle(items)
  return {k: shuffled(rng, v) for k, v in items} if len(items) > 1 else \
      {k: shuffled(rng, v) for k, v in d.items()}


def check_back(ctx, got, want, key, what):
  gl, gt = tree_util.tree_flatten(got)
  wl, wt = tree_util.tree_flatten(want)
  if ctx.check(gt == wt, key, lambda: f"{what()}: restored {gt} instead of {wt}"):
    for i, (g, w) in enumerate(zip(gl, wl)):
      ctx.check(g is w or same(g, w), key, lambda: f"{what()}: leaf {i} is {g!r} instead of {w!r}")


def compiled(ctx, rng, tree, what):
  """The conversions work on traced leaves."""
  from jax_sgmc import io
  numbers = tree_util.tree_map(lambda _: jnp.float32(rng.normal()), tree)

  @jax.jit
  def roundtrip(t):
    d = tree_util.tree_map(lambda l: 2 * l, io.pytree_to_dict(t))
    return io.dict_to_pytree(d, t)
  out = roundtrip(numbers)
  if u.same_structure(ctx, out, numbers, "compiled"):
    u.equal(ctx, out, tree_util.tree_map(lambda l: 2 * l, numbers), "compiled", what()[:200])
  ctx.count("compiled")
