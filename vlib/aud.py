"""Workload and instrumentation for the auditing package (python/dp_auditorium)."""
import os
import sys
import numpy as np

_ST = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs_aud')
REPO = os.environ.get('VERIF_REPO', '/repo')


def load():
  """Imports the real package; its uninstalled dependencies are recording stand-ins."""
  for p in (os.path.join(REPO, 'python', 'dp_auditorium'), _ST):
    if p not in sys.path:
      sys.path.insert(0, p)
  import tensorflow
  from vizier.service import clients
  assert hasattr(tensorflow, 'LOG') and hasattr(clients, 'SOURCE')
  import dp_auditorium
  from dp_auditorium import configs, generators, interfaces, mechanisms, privacy_test_runner, testers
  from dp_auditorium.configs import (dataset_generator_config, mechanism_config, privacy_property, privacy_test_runner_config,
                                     property_tester_config)
  from dp_auditorium.generators import vizier_dataset_generator, pipeline_dp_vizier_dataset_generator
  from dp_auditorium.mechanisms import mechanisms_utils
  del tensorflow.LOG[:], clients.LOG[:]
  return dict(tf=tensorflow, clients=clients, gens=generators, mech=mechanisms, run=privacy_test_runner, test=testers,
              gcfg=dataset_generator_config, mcfg=mechanism_config, prop=privacy_property, rcfg=privacy_test_runner_config,
              tcfg=property_tester_config, vgen=vizier_dataset_generator, pgen=pipeline_dp_vizier_dataset_generator,
              mutil=mechanisms_utils)
