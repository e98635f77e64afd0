"""Stand-in for tensorflow on plain numpy arrays.

Only what a model-based tester needs from its environment: models are supplied by the caller, `fit` drives the
model's own train_step over shuffled batches, gradients come from the caller's model. Everything is recorded in LOG.
"""
import types
import numpy as np

LOG = []
Tensor = np.ndarray
float32, float64, int32, int64 = np.float32, np.float64, np.int32, np.int64
_NP = dict(reduce_mean=np.mean, reduce_sum=np.sum, reduce_max=np.max, reduce_min=np.min, concat=np.concatenate,
           cast=lambda x, dtype: np.asarray(x).astype(dtype), constant=lambda x, *a, **k: np.asarray(x), pow=np.power,
           convert_to_tensor=lambda x, *a, **k: np.asarray(x), shape=np.shape, squeeze=np.squeeze, divide=np.divide,
           subtract=np.subtract, reduce_logsumexp=lambda x, *a, **k: np.logaddexp.reduce(np.asarray(x, float).ravel()))


def _lookup(name):
  if name in _NP:
    return _NP[name]
  if name.startswith('__'):
    raise AttributeError(name)
  return getattr(np, name)


class _Math(types.ModuleType):
  def __getattr__(self, name):
    return _lookup(name)


math = _Math('tensorflow.math')


def __getattr__(name):
  return _lookup(name)


class GradientTape:
  def __init__(self, *a, **k):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def watch(self, *a):
    pass

  def gradient(self, target, variables):
    LOG.append(('gradient', float(np.asarray(target)), len(variables)))
    return [None for _ in variables]


class Model:
  """keras.Model surface used by subclasses defined in the code under test."""

  def __init__(self, *a, **k):
    self.optimizer = None

  def __call__(self, *a, **k):
    return self.call(*a, **k)

  def compile(self, optimizer=None, loss=None, metrics=None, **k):
    self.optimizer, self.loss, self.metrics = optimizer, loss, metrics

  def fit(self, x, y=None, batch_size=32, epochs=1, verbose=0, shuffle=True, **k):
    n = len(x)
    LOG.append(('fit', np.array(x), None if y is None else np.array(y), batch_size, epochs))
    r = np.random.default_rng(n)
    for _ in range(int(epochs)):
      p = r.permutation(n) if shuffle else np.arange(n)
      for i in range(0, n, int(batch_size)):
        j = p[i:i + int(batch_size)]
        self.train_step((x[j], None if y is None else y[j]))


class Adam:
  def __init__(self, learning_rate=0.001, **k):
    self.learning_rate = learning_rate

  def apply_gradients(self, pairs):
    LOG.append(('apply', self.learning_rate, len(list(pairs))))


class BinaryCrossentropy:
  def __init__(self, from_logits=False, **k):
    self.from_logits = from_logits


class BinaryAccuracy:
  def __init__(self, threshold=0.5, **k):
    self.threshold = threshold


class Activation:
  def __init__(self, activation, **k):
    self.activation = activation

  def __call__(self, x, **k):
    return self.activation(x)


class Dense:
  def __init__(self, units, activation=None, **k):
    self.units, self.activation = units, activation


class Sequential(Model):
  def __init__(self, layers=()):
    super().__init__()
    self.layers = list(layers)

  def add(self, layer):
    self.layers.append(layer)


def clone_model(model):
  return model.clone()


def _mod(name, **k):
  m = types.ModuleType(name)
  m.__dict__.update(k)
  return m


def _sigmoid(x):
  return 1 / (1 + np.exp(-np.asarray(x)))


keras = _mod('tensorflow.keras', Model=Model, Sequential=Sequential,
             layers=_mod('l', Dense=Dense, Activation=Activation),
             models=_mod('m', Sequential=Sequential, Model=Model, clone_model=clone_model),
             optimizers=_mod('o', Adam=Adam), losses=_mod('s', BinaryCrossentropy=BinaryCrossentropy),
             metrics=_mod('e', BinaryAccuracy=BinaryAccuracy),
             activations=_mod('a', tanh=np.tanh, sigmoid=_sigmoid, relu=lambda x: np.maximum(x, 0)))
keras.metrics.Metric = BinaryAccuracy
