"""C12: privacy events survive conversion to and from plain tuples."""
import collections

import attr
from hypothesis import strategies as st

import core
from core import require
import custom_events as CE
import events as ev
import more_events as ME
from dp_accounting import dp_event as E

ASSUMPTIONS = ['fields hold numbers, strings, bytes, None, events, or lists, tuples, dicts and ordered dicts of those']
sub = core.Registry()

num = st.one_of(st.integers(-5, 1000), st.floats(allow_nan=False), st.sampled_from([0, 1, 1.0, 0.5, True, False]))
text = st.sampled_from(['', 'a', 'ab', 'abc', 'module_name', '[1]', 'é', 'GaussianDpEvent'])
plain = st.one_of(num, text, text.map(lambda s: dict(b=s)), st.none())


@st.composite
def value(draw, depth):
  """Anything a field can hold."""
  c = draw(st.integers(0, 7))
  if c <= 2 or depth <= 0:
    return dict(v=draw(plain))
  if c <= 4:
    return dict(ev=draw(event(depth - 1)))
  xs = [draw(value(depth - 1)) for _ in range(draw(st.integers(0, 3)))]
  if c == 5:
    return dict(seq=draw(st.sampled_from(['list', 'tuple'])), xs=xs)
  return dict(map=draw(st.sampled_from(['dict', 'odict'])), ks=draw(st.permutations(['k', '', 'module_name', 3]))[:len(xs)], xs=xs)


@st.composite
def event(draw, depth):
  kinds = ['noop', 'nonprivate', 'unsupported', 'base', 'gaussian', 'laplace', 'rr', 'mog', 'tree', 'scaled', 'gaussian2', 'laplace2']
  if depth > 0:
    kinds += ['self', 'comp', 'comp', 'poisson', 'wor', 'wr', 'ras', 'tagged', 'groups', 'pair', 'anything', 'tagged2']
  t = draw(st.sampled_from(kinds))
  sub_ = lambda: draw(event(depth - 1))
  if t in ('noop', 'nonprivate', 'unsupported', 'base'):
    return dict(t=t)
  if t in ('gaussian', 'laplace', 'laplace2'):
    return dict(t=t, z=draw(num))
  if t == 'rr':
    return dict(t=t, p=draw(num), k=draw(st.integers(1, 9)))
  if t == 'mog':
    n = draw(st.integers(0, 3))
    xs = lambda: [draw(num) for _ in range(n)]
    return dict(t='mogx', sd=draw(num), sens=xs(), probs=xs(), seq=draw(st.sampled_from(['list', 'tuple'])))
  if t == 'tree':
    return dict(t=t, z=draw(num), steps=draw(st.one_of(st.integers(0, 9), st.lists(st.integers(0, 9), max_size=4))))
  if t == 'gaussian2':
    return dict(t=t, clip=draw(num), z=draw(num))
  if t == 'tagged2':
    return dict(t=t, e=sub_(), tags=draw(value(depth - 1)))
  if t == 'scaled':
    return dict(t=t, z=draw(num), scale=draw(num), note=draw(text))
  if t == 'self':
    return dict(t=t, e=sub_(), n=draw(st.integers(0, 9)))
  if t == 'comp':
    return dict(t=t, es=[sub_() for _ in range(draw(st.integers(0, 4)))])
  if t == 'poisson':
    return dict(t=t, q=draw(num), e=sub_())
  if t in ('wor', 'wr'):
    return dict(t=t, n=draw(st.integers(0, 99)), m=draw(st.integers(0, 9)), e=sub_())
  if t == 'ras':
    return dict(t=t, e=sub_(), mean=draw(num), shape=draw(num))
  if t == 'tagged':
    return dict(t=t, name=draw(text), payload=draw(text), e=sub_())
  if t == 'groups':
    n = draw(st.integers(0, 3))
    return dict(t=t, ks=draw(st.permutations(['k', '', 'module_name', 'x y']))[:n], es=[sub_() for _ in range(n)], w=draw(num),
                map=draw(st.sampled_from(['dict', 'odict'])))
  if t == 'pair':
    return dict(t=t, es=[sub_() for _ in range(draw(st.integers(0, 3)))], label=draw(value(depth - 1)))
  return dict(t='anything', value=draw(value(depth - 1)), other=draw(value(depth - 1)))


MAPS = dict(dict=dict, odict=collections.OrderedDict)
SEQS = dict(list=list, tuple=tuple)


def make_value(s):
  if 'v' in s:
    v = s['v']
    return v['b'].encode() if isinstance(v, dict) else v
  if 'ev' in s:
    return make(s['ev'])
  if 'seq' in s:
    return SEQS[s['seq']](make_value(x) for x in s['xs'])
  return MAPS[s['map']](zip(s['ks'], map(make_value, s['xs'])))


def make(s):
  t = s['t']
  if t == 'base':
    return E.DpEvent()
  if t == 'mogx':
    return E.MixtureOfGaussiansDpEvent(s['sd'], SEQS[s['seq']](s['sens']), SEQS[s['seq']](s['probs']))
  if t == 'gaussian2':
    return ME.GaussianDpEvent(s['clip'], s['z'])
  if t == 'laplace2':
    return ME.LaplaceDpEvent(s['z'])
  if t == 'tagged2':
    return ME.Tagged(make(s['e']), make_value(s['tags']))
  if t == 'scaled':
    return CE.ScaledGaussian(s['z'], s['scale'], s['note'])
  if t == 'self':
    return E.SelfComposedDpEvent(make(s['e']), s['n'])
  if t == 'comp':
    return E.ComposedDpEvent([make(e) for e in s['es']])
  if t == 'poisson':
    return E.PoissonSampledDpEvent(s['q'], make(s['e']))
  if t == 'wor':
    return E.SampledWithoutReplacementDpEvent(s['n'], s['m'], make(s['e']))
  if t == 'wr':
    return E.SampledWithReplacementDpEvent(s['n'], s['m'], make(s['e']))
  if t == 'ras':
    return E.RepeatAndSelectDpEvent(make(s['e']), s['mean'], s['shape'])
  if t == 'tagged':
    return CE.Tagged(s['name'], s['payload'].encode(), make(s['e']))
  if t == 'groups':
    return CE.Groups(MAPS[s['map']](zip(s['ks'], map(make, s['es']))), s['w'])
  if t == 'pair':
    return CE.Pair(tuple(make(e) for e in s['es']), make_value(s['label']))
  if t == 'anything':
    return CE.Anything(value=make_value(s['value']), other=make_value(s['other']))
  return ev.to_event(s)


def alike(a, b, path):
  """Strictly the same: types, containers, fields, leaf values."""
  require(type(a) is type(b), 'at %s: %r (%s) became %r (%s)', path, a, type(a).__name__, b, type(b).__name__)
  if isinstance(a, E.DpEvent):
    for f in attr.fields(type(a)):
      alike(getattr(a, f.name), getattr(b, f.name), path + '.' + f.name)
  elif isinstance(a, (list, tuple)):
    require(len(a) == len(b), 'at %s: %r became %r', path, a, b)
    for i, (x, y) in enumerate(zip(a, b)):
      alike(x, y, '%s[%d]' % (path, i))
  elif isinstance(a, dict):
    require(list(a) == list(b), 'at %s: keys %r became %r', path, list(a), list(b))
    for k in a:
      alike(a[k], b[k], '%s[%r]' % (path, k))
  else:
    require(a == b, 'at %s: %r became %r', path, a, b)


def plain_form(e, t, path):
  """`t` is the plain form of `e`: only tuples, named fields, names needed to rebuild it."""
  if isinstance(e, E.DpEvent):
    require(isinstance(t, tuple) and not isinstance(t, E.DpEvent), 'at %s: the plain form has %r', path, t)
    names = [f.name for f in attr.fields(type(e))]
    require(sorted(t._fields) == sorted(['module_name', 'class_name'] + names), 'at %s: fields %r', path, t._fields)
    require(t.module_name == type(e).__module__ and t.class_name == type(e).__name__, 'at %s: names %r %r', path, t.module_name,
            t.class_name)
    for n in names:
      plain_form(getattr(e, n), getattr(t, n), path + '.' + n)
    return
  require(type(e) is type(t), 'at %s: %r became %r in the plain form', path, e, t)
  if isinstance(e, (list, tuple)):
    require(len(e) == len(t), 'at %s: %r became %r in the plain form', path, e, t)
    for i, (x, y) in enumerate(zip(e, t)):
      plain_form(x, y, '%s[%d]' % (path, i))
  elif isinstance(e, dict):
    require(list(e) == list(t), 'at %s: %r became %r in the plain form', path, e, t)
    for k in e:
      plain_form(e[k], t[k], '%s[%r]' % (path, k))
  else:
    require(e == t, 'at %s: %r became %r in the plain form', path, e, t)


def rebuild(t, names):
  """The same plain form built elsewhere (another named tuple class), with names(text)."""
  if hasattr(t, '_fields'):
    cls = collections.namedtuple('Foreign', t._fields)
    return cls(*[names(getattr(t, f)) if f in ('module_name', 'class_name') else rebuild(getattr(t, f), names) for f in t._fields])
  if isinstance(t, (list, tuple)):
    return type(t)([rebuild(x, names) for x in t])
  if isinstance(t, dict):
    return type(t)([(k, rebuild(v, names)) for k, v in t.items()])
  return t


def depth(s):
  if isinstance(s, dict):
    return ('t' in s) + max([0] + [depth(x) for x in s.values()])
  if isinstance(s, list):
    return max([0] + [depth(x) for x in s])
  return 0


@sub('round_trip', event(4), quick=12000, thorough=300000,
     rule='event trees of all library event classes and user-defined ones with strings, bytes, and (nested) list, tuple and '
          'mapping fields; non-trivial: nested at least twice')
def round_trip(case, ctx):
  e = make(case)
  t = e.to_named_tuple()
  require(isinstance(t, E.DpEventNamedTuple), 'not a named tuple: %r', t)
  alike(e, make(case), 'original')
  plain_form(e, t, 'event')
  before = repr(t)
  for what, u in (('', t), ('foreign ', rebuild(t, lambda s: s)), ('bytes ', rebuild(t, lambda s: s.encode()))):
    b = E.DpEvent.from_named_tuple(u)
    alike(e, b, what + 'event')
    require(e == b and hash_ok(e, b), '%sround trip of %r gave %r', what, e, b)
  require(repr(t) == before, 'rebuilding changed the plain form')
  require(repr(b.to_named_tuple()) == before, 'converting again gives %r, before %r', b.to_named_tuple(), before)
  ctx.nontrivial(depth(case) >= 2)
  ctx.label(case['t'])


def hash_ok(a, b):
  try:
    return hash(a) == hash(b)
  except TypeError:
    return True


@st.composite
def bad(draw):
  inner = draw(event(1))
  return dict(kind=draw(st.sampled_from(['private', 'computed'])), e=inner,
              wrap=draw(st.lists(st.sampled_from(['self', 'comp', 'poisson', 'pair', 'groups', 'anything', 'deep']), max_size=3)))


@sub('rejected', bad(), quick=1600, thorough=20000,
     rule='event classes with private or computed fields, alone or inside other events, and plain forms that name them or a '
          'class that is no event: ValueError; non-trivial: nested')
def rejected(case, ctx):
  inner = make(case['e'])
  e = CE.PrivateField([inner], 0.25) if case['kind'] == 'private' else CE.ComputedField(inner)
  for w in case['wrap']:
    e = dict(self=lambda: E.SelfComposedDpEvent(e, 2), comp=lambda: E.ComposedDpEvent([inner, e]),
             poisson=lambda: E.PoissonSampledDpEvent(0.5, e), pair=lambda: CE.Pair((e,)),
             groups=lambda: CE.Groups({'a': inner, 'b': e}), anything=lambda: CE.Anything(value=e),
             deep=lambda: CE.Anything(value={'x': [inner, (e,)]}))[w]()
  ctx.nontrivial(bool(case['wrap']))
  try:
    t = e.to_named_tuple()
  except ValueError:
    pass
  else:
    raise core.Violation('%r was converted to %r' % (e, t))
  it = inner.to_named_tuple()
  F = collections.namedtuple
  forged = [F('F', ['module_name', 'class_name', 'event', 'twice'])('custom_events', 'ComputedField', it, 2.0),
            F('F', ['module_name', 'class_name', 'b'])('custom_events', 'NotAttrs', 1.0),
            F('F', ['module_name', 'class_name', 'event', 'twice'])(b'custom_events', b'ComputedField', it, 2.0)]
  for f in forged:
    for g in (f, F('G', ['module_name', 'class_name', 'event', 'count'])('dp_accounting.dp_event', 'SelfComposedDpEvent', f, 3)):
      try:
        b = E.DpEvent.from_named_tuple(g)
      except ValueError:
        continue
      raise core.Violation('%r was converted to %r' % (g, b))
