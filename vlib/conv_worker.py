"""Converts a list of models in this (fresh) process and prints digests of the files: conv_worker.py SEED ITEM..., an item is a model
number or fail:HOW (a conversion which must fail)."""
import hashlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core  # noqa
import logging
import warnings

warnings.filterwarnings('ignore')
import torch

torch.set_num_threads(1)
from tinynn.converter import TFLiteConverter  # noqa
from vlib import tfl, zoo  # noqa

logging.disable(logging.CRITICAL)


def sha(b):
    return hashlib.sha256(b).hexdigest()


seed = int(sys.argv[1])
res = {}
for item in sys.argv[2:]:
    if item.startswith('fail:'):
        how = item[5:]
        try:
            TFLiteConverter(zoo.Unsupported(how).eval(), torch.randn(2, 4), 'f.tflite' if how != 'path' else '/dev/null/x/f.tflite').convert()
            res[item] = 'succeeded'
        except BaseException as e:
            res[item] = f'{type(e).__name__}'
        continue
    m = zoo.model_for(seed, int(item))
    if m is None:
        continue
    net, inputs, kw, desc = m
    wh = sha(b''.join(v.detach().numpy().tobytes() for v in net.state_dict().values()) + desc.encode()
             + b''.join(x.numpy().tobytes() for x in tfl.flatten(list(inputs))))
    try:
        conv = TFLiteConverter(net, tfl.clone_inputs(inputs), 'm.tflite', **kw)
        conv.convert()
        with open('m.tflite', 'rb') as f:
            b = f.read()
        os.unlink('m.tflite')
        res[item] = [wh, sha(b), len(b), desc]
    except BaseException as e:
        res[item] = [wh, 'error ' + core.norm_msg(e), 0, desc]
print('RESULT ' + json.dumps(res))
