"""Random pytrees of all supported node types and the paths of their leaves."""
import collections

import numpy as onp

from vlib import util as u

Point = collections.namedtuple("Point", ["y", "x"])
Zed = collections.namedtuple("Zed", ["z", "b", "a", "list_element_0"])
One = collections.namedtuple("One", ["only"])
Empty = collections.namedtuple("Empty", [])
NAMED = [Point, Zed, One, Empty]

KEYS = ["w", "b", "sigma", "a", "Z", "layer_10", "layer_9", "layer_1", "x1", "k",
        "list_element_0", "list_element_1", "only", "~", "linear~bias", "A b", "ä", "0", "10", "9"]


def random_tree(rng, leaf, depth=4, width=5, max_leaves=40, empties=True, ordered=True, keys=None):
  """Tree with leaves made by ``leaf(index)``; mixes all node types."""
  keys = keys or KEYS
  count = [0]

  def node(d, top=False):
    r = rng.random()
    if not top and (d == 0 or count[0] >= max_leaves or r < 0.3):
      if empties and rng.random() < 0.15:
        return u.choice(rng, [None, {}, [], (), Empty(), collections.OrderedDict()])
      count[0] += 1
      return leaf(count[0] - 1)
    kind = u.choice(rng, ["dict", "dict", "list", "tuple", "named"] + (["ordered"] if ordered else []))
    n = int(rng.integers(0 if empties else 1, width + 1))
    if kind in ("dict", "ordered"):
      names = [keys[i] for i in rng.permutation(len(keys))[:n]]
      items = [(name, node(d - 1)) for name in names]
      return dict(items) if kind == "dict" else collections.OrderedDict(items)
    if kind == "named":
      t = u.choice(rng, NAMED if empties else NAMED[:3])
      return t(*[node(d - 1) for _ in t._fields])
    values = [node(d - 1) for _ in range(n)]
    return values if kind == "list" else tuple(values)

  return node(depth, top=rng.random() < 0.95)


def children(tree):
  """Named children of a node in the order of the flattened tree, None for leaves."""
  if tree is None:
    return []
  if isinstance(tree, collections.OrderedDict):
    return list(tree.items())
  if isinstance(tree, dict):
    return [(k, tree[k]) for k in sorted(tree)]
  if isinstance(tree, tuple) and hasattr(tree, "_fields"):
    return list(zip(tree._fields, tree))
  if isinstance(tree, (list, tuple)):
    return [(f"list_element_{i}", v) for i, v in enumerate(tree)]
  return None


def paths(tree):
  """(path, leaf) of all leaves in the order of the flattened tree."""
  kids = children(tree)
  if kids is None:
    return [((), tree)]
  return [((k,) + p, l) for k, v in kids for p, l in paths(v)]


def subtrees(tree, path=()):
  yield path, tree
  for k, v in children(tree) or []:
    yield from subtrees(v, path + (k,))


def array_leaf(rng, dtypes=("float32", "int32", "uint8", "bool", "float16", "int16"),
               max_rank=3, max_dim=3, zero_dims=False):
  def leaf(_):
    rank = int(rng.integers(0, max_rank + 1))
    shape = tuple(int(v) for v in rng.integers(0 if zero_dims else 1, max_dim + 1, size=rank))
    dt = u.choice(rng, list(dtypes))
    v = onp.asarray(rng.integers(0, 200, size=shape))
    if dt == "bool":
      v = v % 2 == 1
    elif dt.startswith("float"):
      v = v / 8 - 4
    elif dt == "int16":
      v = v * 100 - 9000
    elif dt == "int32":
      v = v * 10000019 - 10**9
    return v.astype(dt)
  return leaf
