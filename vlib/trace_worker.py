"""Traces programs in this (fresh) process: trace_worker.py SEED ITEM...; an item is a program number or fail:N (a trace that fails)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa
import logging
import warnings

warnings.filterwarnings('ignore')
import torch

torch.set_num_threads(1)
import tinynn.graph.tracer  # noqa
from vlib import tracing

logging.disable(logging.CRITICAL)
seed, res = int(sys.argv[1]), {}
for item in sys.argv[2:]:
    res[item] = tracing.fail(item[5:], seed) if item.startswith('fail:') else tracing.digest(seed, int(item))
print('RESULT ' + json.dumps(res))
