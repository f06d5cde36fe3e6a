"""Shared by the auditing harnesses: a stand-in for tensorflow."""

TEST = 'dp_auditorium.testers.'
CFG = 'dp_auditorium.configs.property_tester_config'
PROP = 'dp_auditorium.configs.privacy_property'


def tensorflow(env):
  """Models whose outputs are inputs of the harness; call before loading a tester."""
  tf = env.mod('tensorflow')
  np = env.np

  class Model:
    """Base of models; records what it is trained on and called with."""

    def __init__(self, *a, **k):
      self.trained = []

    def compile(self, *a, **k):
      pass

    def fit(self, *a, **k):
      self.trained.append(a)

    def __call__(self, data, training=None):
      return self.call(data, training=training)

  class Activation:
    def __init__(self, f):
      self.f = f
  keras = tf.keras
  keras.Model = Model
  keras.layers.Activation = Activation
  keras.layers.Dense = lambda *a, **k: None
  keras.activations.tanh = lambda x: x       # the raw output is a number in (-1, 1) already
  keras.optimizers.Adam = lambda *a, **k: None
  keras.losses.BinaryCrossentropy = lambda *a, **k: None
  keras.metrics.BinaryAccuracy = lambda *a, **k: None
  tf.exp = np.exp
  tf.math.exp = np.exp
  tf.math.log = np.log
  tf.math.reduce_mean = np.mean
  tf.reduce_mean = np.mean
  tf.shape = np.shape
  return tf


class Net:
  """A network with given outputs: out(sample) in (-1, 1)."""

  def __init__(self, env, out):
    self.env, self.out = env, out
    self.layers = []
    self.seen = []

  def add(self, layer):
    self.layers.append(layer)

  def __call__(self, x, training=None):
    self.seen.append((x, training))
    y = self.env.np.array([self.out(v) for v in x])
    for l in self.layers:
      y = l.f(y)
    return y


def training(env, bound=None, **k):
  C = env.mod(CFG)
  a = dict(training_epochs=1, batch_size=2, optimizer_learning_rate=0.5,
           model_output_coordinate_bound=bound)
  a.update(k)
  return C.TrainingConfig(**a)


def approx(env, eps, delta):
  return env.mod(PROP).ApproximateDp(epsilon=eps, delta=delta)
