"""Recording stand-in for the Vizier client: SOURCE[0](params, number) supplies the suggested values."""
LOG = []
SOURCE = [None]


class Trial:
  def __init__(self, number, params):
    self.id = number
    self.parameters = params
    self.done = None

  def complete(self, measurement=None, **k):
    LOG.append(('complete', self.id, None if measurement is None else dict(measurement.metrics), self.done is not None))
    self.done = measurement


class Study:
  def __init__(self, config, owner, study_id):
    self.config, self.owner, self.study_id = config, owner, study_id
    self.n = 0

  @classmethod
  def from_study_config(cls, config, owner=None, study_id=None):
    LOG.append(('study', owner, study_id, config.algorithm, [(m.name, m.goal) for m in config.problem.metric_information],
                list(config.problem.search_space.root.params)))
    return cls(config, owner, study_id)

  def suggest(self, count=1, **k):
    out = []
    for _ in range(count):
      params = SOURCE[0](self.config.problem.search_space.root.params, self.n)
      if params is None:
        LOG.append(('exhausted', self.n))
        out.append(None)
        continue
      LOG.append(('suggest', self.n, dict(params)))
      out.append(Trial(self.n, params))
      self.n += 1
    return out
