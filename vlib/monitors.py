"""Online monitors: wrappers installed at run time around public entry points of
jax-cfd.  The wrapped call runs unchanged; the observer then sees its concrete
arguments and result.  Calls with traced (abstract) values are counted, not judged."""
import contextlib
import functools
import inspect
import numpy as np
import jax


def concrete(*trees):
  for x in jax.tree_util.tree_leaves(trees):
    if isinstance(x, jax.core.Tracer):
      return False
  return True


class _Renamed(Exception): pass


class _Args(dict):
  def __missing__(self, key): raise _Renamed(key)


@contextlib.contextmanager
def hook(targets, rec):
  """targets: list of (object, attribute, observer(rec, bound_args, result))."""
  saved = []
  depth = {'in': 0}
  for obj, name, observer in targets:
    if not hasattr(obj, name):
      rec.notes[f'hook-missing:{name}'] += 1
      continue
    inherited = name not in vars(obj)
    orig = next(vars(k)[name] for k in obj.__mro__ if name in vars(k)) if inherited else vars(obj)[name]
    raw = orig.__func__ if isinstance(orig, staticmethod) else orig
    def make(raw, observer, name):
      sig = inspect.signature(raw)
      @functools.wraps(raw)
      def wrapper(*args, **kwargs):
        result = raw(*args, **kwargs)
        if depth['in']:
          return result
        try:
          b = sig.bind(*args, **kwargs); b.apply_defaults()
        except TypeError:
          return result
        if not concrete(list(b.arguments.values()), result):
          rec.notes['traced:' + name] += 1
          return result
        depth['in'] += 1
        try:
          observer(rec, _Args(b.arguments), result)
        except _Renamed:  # a parameter goes by another name: counted, not judged
          rec.notes['unknown-signature:' + name] += 1
        finally:
          depth['in'] -= 1
        return result
      return wrapper
    saved.append((obj, name, orig, inherited))
    setattr(obj, name, make(raw, observer, name))
  try:
    yield
  finally:
    for obj, name, orig, inherited in reversed(saved):
      if inherited: delattr(obj, name)
      else: setattr(obj, name, orig)
