"""Shared machinery of the bounded exhaustive explorations in /verif.

A check is a module mc/checks/<id>.py with

  PROPERTY   its id
  SHARDS     dict: shard name -> function(ctx) that explores one part
  RULE       how the space is made and what is compared
  shards(tier) (optional) -> list of (shard name, kwargs) ; default: all SHARDS
  ENV        dict of extra environment variables for the worker processes

Each shard runs in its own process (several modules of the code under test flip
global JAX settings when imported) and reports what it covered in a JSON file.
"""

import collections
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

MAX_REPORTS = 5  # violations recorded per shard


def _short(x, limit=600):
  s = repr(x) if not isinstance(x, str) else x
  s = " ".join(s.split())
  return s if len(s) <= limit else s[:limit] + "..."


def _plain(x):
  """Something json can write."""
  if isinstance(x, (str, int, float, bool)) or x is None:
    return x
  if isinstance(x, np.generic):
    x = x.item()
    return x if isinstance(x, (str, int, float, bool)) else repr(x)
  if isinstance(x, complex):
    return repr(x)
  if isinstance(x, dict):
    return {str(k): _plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [_plain(v) for v in x]
  try:
    a = np.asarray(x)
    if a.dtype != object and a.dtype.kind in "biuf" and a.size <= 64:
      return a.tolist()
    return _short(x)
  except Exception:  # pylint: disable=broad-except
    return _short(x)


class Ctx:
  """What one shard explored, and what it found."""

  def __init__(self, prop, shard, tier, seed):
    self.prop, self.shard, self.tier, self.seed = prop, shard, tier, seed
    self.states = 0  # distinct explored points (counted by the shard)
    self.transitions = 0  # steps of the real code executed
    self.traces = 0  # complete executions compared with the reference model
    self.outcomes = collections.Counter()  # distinct observed outcomes
    self.samples = []
    self.bounds = {}
    self.failures = []  # dicts key, detail
    self.n_failures = 0
    self._seen = set()

  @property
  def quick(self):
    return self.tier == "quick"

  @property
  def thorough(self):
    return self.tier != "quick"

  # -- coverage -----------------------------------------------------------
  def cover(self, states=0, transitions=0, traces=0):
    self.states += int(states)
    self.transitions += int(transitions)
    self.traces += int(traces)

  def state(self, key):
    """Counts `key` as a state if it is new; True if new."""
    h = hashlib.blake2b(repr(key).encode(), digest_size=12).digest()
    if h in self._seen:
      return False
    self._seen.add(h)
    self.states += 1
    return True

  def outcome(self, key, n=1):
    if len(self.outcomes) < 5000 or key in self.outcomes:
      self.outcomes[str(key)] += n

  def sample(self, x):
    if len(self.samples) < 4:
      self.samples.append(_plain(x))

  def bound(self, **kw):
    for k, v in kw.items():
      self.bounds[k] = _plain(v)

  # -- verdicts -----------------------------------------------------------
  def fail(self, key, **detail):
    self.n_failures += 1
    if len(self.failures) < 400:
      d = {k: _plain(v) for k, v in detail.items()}
      self.failures.append({"key": str(key), "detail": d})

  def check(self, ok, key, **detail):
    if not bool(ok):
      self.fail(key, **detail)
      return False
    return True

  def equal(self, key, expected, got, mod=None, **detail):
    """Compares arrays/values; reports the first differing position."""
    e = np.asarray(expected)
    try:
      g = np.asarray(got)
    except Exception as ex:  # pylint: disable=broad-except
      self.fail(key, problem="result cannot be read", error=repr(ex), **detail)
      return False
    if e.shape != g.shape:
      self.fail(
          key, problem="shape", expected_shape=e.shape, got_shape=g.shape,
          **detail
      )
      return False
    if e.dtype == object or g.dtype == object:
      eo, go = e.astype(object), g.astype(object)
    elif e.dtype.kind in "fc" or g.dtype.kind in "fc":
      eo, go = e, g
    else:  # integers and bools of any signedness
      eo, go = e.astype(object), g.astype(object)
      if e.dtype.kind in "uib" and g.dtype.kind in "uib":
        if e.dtype == g.dtype:
          eo, go = e, g
        elif e.dtype != np.uint64 and g.dtype != np.uint64:
          eo, go = e.astype(np.int64), g.astype(np.int64)
    if mod is not None:
      eo, go = np.asarray(eo.astype(object) % mod), np.asarray(
          go.astype(object) % mod
      )
    bad = np.asarray(eo != go)
    if bad.any():
      idx = tuple(int(i[0]) for i in np.nonzero(bad)) if bad.ndim else ()
      self.fail(
          key, mismatches=int(bad.sum()), of=int(bad.size), index=idx,
          expected=eo[idx] if bad.ndim else eo.item(),
          got=go[idx] if bad.ndim else go.item(), **detail,
      )
      return False
    return True

  def close(self, key, expected, got, tol, **detail):
    e, g = np.asarray(expected), np.asarray(got)
    if e.shape != g.shape:
      self.fail(key, problem="shape", expected_shape=e.shape,
                got_shape=g.shape, **detail)
      return False
    err = np.abs(e - g)
    if not np.all(err <= tol):
      idx = np.unravel_index(int(np.argmax(np.nan_to_num(err, nan=np.inf))), err.shape) if err.ndim else ()
      self.fail(key, tolerance=tol, worst=float(np.max(err)),
                index=[int(i) for i in idx], expected=str(e[idx]),
                got=str(g[idx]), **detail)
      return False
    return True

  @contextlib.contextmanager
  def impl(self, key, **detail):
    """The code under test runs inside: it must not raise."""
    try:
      yield
    except HarnessError:
      raise
    except Exception as ex:  # pylint: disable=broad-except
      tb = traceback.extract_tb(ex.__traceback__)
      where = [
          f"{os.path.relpath(f.filename, REPO)}:{f.name}" for f in tb
          if f.filename.startswith(REPO + os.sep)
      ]
      self.fail(key, problem="raised", error=_short(repr(ex), 800),
                where=where[-4:], **detail)

  def raises(self, key, exc, fn, **detail):
    """`fn` must raise one of `exc`."""
    try:
      r = fn()
    except exc:
      return True
    except Exception as ex:  # pylint: disable=broad-except
      self.fail(key, problem="wrong exception", error=_short(repr(ex)), **detail)
      return False
    self.fail(key, problem="accepted", got=_short(r), **detail)
    return False

  def dump(self, wall):
    return {
        "shard": self.shard, "states": self.states,
        "transitions": self.transitions, "traces": self.traces,
        "outcomes": len(self.outcomes),
        "top_outcomes": dict(self.outcomes.most_common(6)),
        "samples": self.samples, "bounds": self.bounds,
        "failures": self.failures, "n_failures": self.n_failures,
        "wall_s": wall,
    }


class HarnessError(Exception):
  """Something is wrong with the check itself."""


def setup_imports():
  """Makes `jaxite` and `jaxite.jaxite_ec` resolve to REPO."""
  sys.path.insert(0, REPO)
  import jaxite  # pylint: disable=g-import-not-at-top

  if not os.path.abspath(jaxite.__path__[0]).startswith(REPO + os.sep):
    raise HarnessError(f"jaxite came from {list(jaxite.__path__)}")
  if REPO not in jaxite.__path__:
    jaxite.__path__.append(REPO)


def run_shard_here(module, shard, kwargs, tier, seed):
  ctx = Ctx(module.PROPERTY, shard, tier, seed)
  t0 = time.time()
  error = None
  try:
    module.SHARDS[shard.split("@")[0]](ctx, **kwargs)
  except HarnessError:
    error = traceback.format_exc()
  except Exception as ex:  # pylint: disable=broad-except
    tb = traceback.extract_tb(ex.__traceback__)
    inner = [f for f in tb if f.filename.startswith(REPO + os.sep)]
    # the code under test raised where the harness expects an answer, or gave
    # something that the harness could not take as one
    if inner or isinstance(ex, (ValueError, TypeError, LookupError, ArithmeticError, AssertionError)):
      ctx.fail(
          f"{shard}:raised:{type(ex).__name__}", problem="raised",
          error=_short(repr(ex), 800),
          where=[f"{os.path.relpath(f.filename, REPO)}:{f.name}" for f in inner][-4:],
          harness=[f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb
                   if f.filename.startswith(VERIF)][-3:],
      )
    else:
      error = traceback.format_exc()
  out = ctx.dump(time.time() - t0)
  out["error"] = error
  return out
