"""Recording stand-in for the Vizier problem and measurement types."""


class ObjectiveMetricGoal:
  MAXIMIZE = 'MAXIMIZE'
  MINIMIZE = 'MINIMIZE'


Algorithm = str


class MetricInformation:
  def __init__(self, name, goal):
    self.name, self.goal = name, goal


class _Root:
  def __init__(self):
    self.params = []

  def add_float_param(self, name, min_value, max_value, **k):
    self.params.append((name, 'float', min_value, max_value))

  def add_int_param(self, name, min_value, max_value, **k):
    self.params.append((name, 'int', min_value, max_value))


class _Space:
  def __init__(self):
    self.root = _Root()


class ProblemStatement:
  def __init__(self, *a, **k):
    self.search_space = _Space()
    self.metric_information = []


class StudyConfig:
  def __init__(self, problem=None):
    self.problem = problem
    self.algorithm = None

  @classmethod
  def from_problem(cls, problem):
    return cls(problem)


class Measurement:
  def __init__(self, metrics=None, **k):
    self.metrics = dict(metrics or {})
