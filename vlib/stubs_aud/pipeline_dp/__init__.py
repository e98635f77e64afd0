"""Recording stand-in for PipelineDP: the engine hands back what RESULT[0] makes of the extracted records."""
LOG = []
RESULT = [None]


class NaiveBudgetAccountant:
  def __init__(self, total_epsilon=None, total_delta=None, **k):
    self.eps, self.delta = total_epsilon, total_delta
    self.computed = 0
    LOG.append(('accountant', total_epsilon, total_delta, id(self)))

  def compute_budgets(self):
    self.computed += 1
    LOG.append(('compute', id(self)))


class LocalBackend:
  pass


class DataExtractors:
  def __init__(self, partition_extractor=None, privacy_id_extractor=None, value_extractor=None):
    self.partition_extractor = partition_extractor
    self.privacy_id_extractor = privacy_id_extractor
    self.value_extractor = value_extractor


class AggregateParams:
  def __init__(self, **k):
    self.__dict__.update(k)


class DPEngine:
  def __init__(self, accountant, backend):
    self.acc = accountant

  def aggregate(self, col, params, extractors, public_partitions=None, **k):
    recs = [(extractors.partition_extractor(x), extractors.privacy_id_extractor(x), extractors.value_extractor(x)) for x in col]
    LOG.append(('aggregate', id(self.acc), recs, params, public_partitions))
    acc = self.acc

    def late():
      if not acc.computed:
        raise AssertionError('results read before the budgets were computed')
      yield from RESULT[0](recs, params, public_partitions)
    return late()
