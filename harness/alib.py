"""Imports dp_auditorium with stand-ins for TensorFlow, Vizier, etils and PipelineDP (not installed here)."""
import sys
import types

import numpy as np

import boot


def _module(name, **attrs):
  m = types.ModuleType(name)
  m.__path__ = []
  for k, v in attrs.items():
    setattr(m, k, v)
  sys.modules[name] = m
  return m


# --- TensorFlow: models are deterministic numpy functions; training only records what it is given. ---


class Model:
  """A network. Subclasses implement call(); scripted networks are given a function."""

  def __init__(self, *args, **kwargs):
    self.fits, self.evals, self.calls = [], [], []

  def __call__(self, data, *args, **kwargs):
    self.calls.append(data)
    return self.call(data, *args, **kwargs)

  def call(self, data, training=None):
    return data

  def compile(self, *args, **kwargs):
    self.compiled = kwargs
    self.optimizer = kwargs.get('optimizer')

  def fit(self, x=None, y=None, **kwargs):
    self.fits.append((np.array(x), None if y is None else np.array(y), kwargs))
    EVENTS.append(('fit', self, np.array(x), None if y is None else np.array(y)))

  def evaluate(self, x=None, y=None, batch_size=None, **kwargs):
    x, y = np.array(x), np.array(y)
    EVENTS.append(('evaluate', self, x, y))
    logits = np.asarray(self.call(x), dtype=float).reshape(len(x), -1)
    threshold = 0.0
    for m in (getattr(self, 'compiled', {}) or {}).get('metrics', []):
      threshold = getattr(m, 'threshold', threshold)
    acc = float(np.mean((logits > threshold) == (y.reshape(len(y), -1) > 0.5))) if len(x) else 0.0
    return [float('nan'), acc]

  def predict(self, x, **kwargs):
    return np.asarray(self.call(np.array(x)))

  @property
  def layers(self):
    return []

  @property
  def trainable_variables(self):
    return []


class Sequential(Model):

  def __init__(self, layers=None):
    super().__init__()
    self._layers = list(layers or [])

  @property
  def layers(self):
    return self._layers

  def add(self, layer):
    self._layers.append(layer)

  def call(self, data, training=None):
    for layer in self._layers:
      data = layer(data)
    return data


class Activation:

  def __init__(self, f):
    self.f = f

  def __call__(self, x, **kw):
    return self.f(x)


class Fn:
  """A layer that applies a given function."""

  def __init__(self, f):
    self.f = f

  def __call__(self, x, **kw):
    return self.f(np.asarray(x))


class _Anything:

  def __init__(self, *args, **kwargs):
    self.args, self.kwargs = args, kwargs
    for k, v in kwargs.items():
      setattr(self, k, v)

  def __call__(self, x, **kw):
    return x


class BinaryAccuracy(_Anything):

  def __init__(self, *args, threshold=0.5, **kwargs):
    self.threshold = threshold


EVENTS = []


def _clone(model):
  out = Sequential(list(model.layers))
  EVENTS.append(('clone', out, model))
  return out


def _install_tf():
  tf = _module('tensorflow')
  keras = _module('tensorflow.keras', Model=Model, Sequential=Sequential)
  keras.models = _module('tensorflow.keras.models', Model=Model, Sequential=Sequential, clone_model=_clone)
  keras.layers = _module('tensorflow.keras.layers', Dense=_Anything, Activation=Activation, Layer=_Anything, Input=_Anything)
  keras.activations = _module('tensorflow.keras.activations', tanh=np.tanh)
  keras.optimizers = _module('tensorflow.keras.optimizers', Adam=_Anything, SGD=_Anything)
  keras.losses = _module('tensorflow.keras.losses', BinaryCrossentropy=_Anything)
  keras.metrics = _module('tensorflow.keras.metrics', BinaryAccuracy=BinaryAccuracy)
  keras.Input = _Anything
  tf.keras = keras
  tf.math = _module('tensorflow.math', reduce_mean=np.mean, reduce_sum=np.sum, log=np.log, exp=np.exp, abs=np.abs, tanh=np.tanh,
                    reduce_max=np.max, log1p=np.log1p, expm1=np.expm1, sqrt=np.sqrt, maximum=np.maximum, minimum=np.minimum,
                    divide=np.divide, multiply=np.multiply, subtract=np.subtract, add=np.add)
  for n in ('reduce_mean', 'reduce_sum', 'exp', 'abs', 'tanh', 'reduce_max', 'sqrt', 'maximum', 'minimum'):
    setattr(tf, n, getattr(tf.math, n))
  for n, f in dict(concat=lambda v, axis=0: np.concatenate(v, axis=axis), shape=np.shape, squeeze=np.squeeze, reshape=np.reshape,
                   convert_to_tensor=np.asarray, constant=np.asarray, cast=lambda x, t: np.asarray(x), identity=lambda x: x).items():
    setattr(tf, n, f)
  tf.Tensor, tf.float32, tf.GradientTape, tf.Variable = np.ndarray, np.float64, _Anything, _Anything


# --- Vizier: a study whose suggestions are scripted by the check. ---


class Trial:

  def __init__(self, uid, parameters):
    self.id, self.parameters, self.completed = uid, parameters, []

  def complete(self, measurement=None, **kw):
    self.completed.append(measurement)
    STUDY.log.append(('complete', self.id, measurement))


class Study:

  def __init__(self):
    self.config, self.owner, self.study_id, self.log, self.n, self.suggest_values = None, None, None, [], 0, None

  def suggest(self, count=None, **kw):
    out = []
    for _ in range(1 if count is None else count):
      values = self.suggest_values(self.n, self.config.search_space.root.params)
      t = None if values is None else Trial(self.n, values)
      self.log.append(('suggest', self.n, values))
      self.n += 1
      out.append(t)
    return out

  @classmethod
  def from_study_config(cls, config, owner=None, study_id=None):
    STUDY.config, STUDY.owner, STUDY.study_id = config, owner, study_id
    return STUDY


STUDY = Study()


def new_study(suggest_values):
  global STUDY
  STUDY = Study()
  STUDY.suggest_values = suggest_values
  return STUDY


class _Root:

  def __init__(self):
    self.params = []

  def add_float_param(self, name, min_value, max_value, **kw):
    self.params.append(('float', name, min_value, max_value))

  def add_int_param(self, name, min_value, max_value, **kw):
    self.params.append(('int', name, min_value, max_value))


class _ProblemStatement:

  def __init__(self, *a, **kw):
    self.search_space = types.SimpleNamespace(root=_Root())
    self.metric_information = []


class _StudyConfig(_ProblemStatement):

  @classmethod
  def from_problem(cls, problem):
    out = cls()
    out.search_space, out.metric_information = problem.search_space, problem.metric_information
    out.algorithm = None
    return out


class _Goal:
  MAXIMIZE, MINIMIZE = 'MAXIMIZE', 'MINIMIZE'


class _MetricInformation:

  def __init__(self, name='', goal=None, **kw):
    self.name, self.goal = name, goal


class Measurement:

  def __init__(self, metrics=None, **kw):
    self.metrics = dict(metrics or {})


def _install_vizier():
  v = _module('vizier')
  v.service = _module('vizier.service')
  v.service.clients = _module('vizier.service.clients', Study=Study, Trial=Trial)
  v.service.pyvizier = _module('vizier.service.pyvizier', ProblemStatement=_ProblemStatement, MetricInformation=_MetricInformation,
                               ObjectiveMetricGoal=_Goal, StudyConfig=_StudyConfig, Measurement=Measurement, Algorithm=str)


# --- PipelineDP: an engine that records what it is asked to aggregate. ---


class BudgetAccountant:

  def __init__(self, epsilon=None, delta=None, **kw):
    self.epsilon, self.delta, self.computed = epsilon, delta, 0
    PDP.accountants.append(self)

  def compute_budgets(self):
    self.computed += 1


class DataExtractors:

  def __init__(self, partition_extractor=None, privacy_id_extractor=None, value_extractor=None, **kw):
    self.partition_extractor, self.privacy_id_extractor, self.value_extractor = partition_extractor, privacy_id_extractor, value_extractor


class DPEngine:

  def __init__(self, budget_accountant, backend):
    self.accountant = budget_accountant

  def aggregate(self, col, params=None, data_extractors=None, public_partitions=None, **kw):
    call = dict(rows=list(col), params=params, ex=data_extractors, public=public_partitions, accountant=self.accountant, index=len(PDP.calls))
    PDP.calls.append(call)
    if not isinstance(col, list):
      PDP.problems.append('the local backend was given %s' % type(col).__name__)

    def lazily():
      # As in PipelineDP, results are computed lazily, after the budgets.
      if self.accountant.computed != 1:
        PDP.problems.append('results used with budgets computed %d times' % self.accountant.computed)
      for key, values in PDP.answer(call):
        yield key, values

    return lazily()


PDP = types.SimpleNamespace(accountants=[], calls=[], problems=[], answer=None)


def new_pipeline(answer):
  PDP.accountants, PDP.calls, PDP.problems, PDP.answer = [], [], [], answer
  return PDP


class AggregateParams(_Anything):
  pass


def _install_others():
  _module('etils')
  sys.modules['etils'].array_types = _module('etils.array_types', IntArray=np.ndarray, FloatArray=np.ndarray)
  _module('pipeline_dp', NaiveBudgetAccountant=BudgetAccountant, DPEngine=DPEngine, LocalBackend=_Anything, DataExtractors=DataExtractors,
          AggregateParams=AggregateParams)
  try:
    import typing_extensions  # noqa: F401
  except ImportError:
    _module('typing_extensions', override=lambda f: f)


_install_tf()
_install_vizier()
_install_others()

import dp_auditorium                                                   # noqa: E402
from dp_auditorium import privacy_test_runner as RUN                   # noqa: E402
from dp_auditorium.configs import dataset_generator_config as DGC      # noqa: E402
from dp_auditorium.configs import mechanism_config as MC               # noqa: E402
from dp_auditorium.configs import privacy_property as PP               # noqa: E402
from dp_auditorium.configs import privacy_test_runner_config as RC     # noqa: E402
from dp_auditorium.configs import property_tester_config as TC         # noqa: E402
from dp_auditorium.generators import classification_dataset_generator as GCL     # noqa: E402
from dp_auditorium.generators import constant_dataset_generator as GCO           # noqa: E402
from dp_auditorium.generators import pipeline_dp_vizier_dataset_generator as GP  # noqa: E402
from dp_auditorium.generators import vizier_dataset_generator as GV              # noqa: E402
from dp_auditorium.mechanisms import mean as MEAN                      # noqa: E402
from dp_auditorium.mechanisms import mechanisms_utils as MU            # noqa: E402
from dp_auditorium.mechanisms import noisy_max as NOISY                # noqa: E402
from dp_auditorium.mechanisms import sparse_vector_technique as SVT    # noqa: E402
from dp_auditorium.mechanisms.pipeline_dp import aggregation as AGG    # noqa: E402
from dp_auditorium.testers import divergence_tester as DIV             # noqa: E402
from dp_auditorium.testers import histogram_tester as HIST             # noqa: E402
from dp_auditorium.testers import hockey_stick_tester as HOCKEY        # noqa: E402
from dp_auditorium.testers import mmd_tester as MMD                    # noqa: E402
from dp_auditorium.testers import property_tester_utils as UT          # noqa: E402
from dp_auditorium.testers import renyi_tester as RENYI                # noqa: E402
boot.check_origin(dp_auditorium)
boot.check_origin(SVT)
