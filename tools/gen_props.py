#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the file is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ', '.join(files)} for m in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
CV = 'tinynn/converter/'
p('C01', 'A converted operator computes what the PyTorch operator computes',
  'For every PyTorch operator that the TFLite converter supports, with every supported combination of its arguments (ranks, axes, strides, padding, dilation, groups, keep-dim flags, broadcasting, scalar or tensor operands, integer or float dtypes), converting a model that applies it yields a TFLite model whose outputs equal the PyTorch outputs up to floating-point tolerance on every input of the declared shape. A supported use never makes the conversion crash and never yields a file that the TFLite runtime refuses to load or run.',
  ['inputs', 'programs', 'configurations'],
  'all supported operators, all argument combinations, all input shapes and values',
  'The operator tests convert one or two fixed argument combinations per operator and one random input each; argument handling (negative axes, asymmetric padding, ceil mode, non-default scalars, rank changes) is combinatorial.',
  [CV + 'base.py', CV + 'operators/torch/aten.py', CV + 'operators/torch/base.py', CV + 'operators/torch/prim.py', CV + 'schemas/torch/aten_schema.py', CV + 'operators/tflite'],
  ['each aten operator has a parser that normalises arguments and emits TFLite operators', 'helpers for elementwise, reduction, pooling, convolution and layout handling'])
p('C02', 'Graph optimisation never changes what a converted model computes',
  'For every supported model, the TFLite models produced at each optimisation level, from none to the most aggressive, compute the same outputs as the PyTorch model up to floating-point tolerance, for every input and for every way operators are chained, branched, shared or exposed as outputs. The number, order, shapes and types of the inputs and outputs are the same at every level.',
  ['programs', 'inputs', 'configurations'],
  'all operator graphs (chains, branches, joins, reused tensors, intermediate outputs) and all optimisation levels',
  'Optimiser tests cover one hand-written graph per pass and mostly assert operator counts; interactions between some sixty rewriting passes over arbitrary graphs are not sampled.',
  [CV + 'operators/optimize.py', CV + 'operators/graph.py', CV + 'operators/op_version.py'],
  ['constant folding, batch-norm, activation and padding fusion, transpose/reshape elimination, elementwise passthrough, branch expansion, gather/slice fusion, dead node cleanup'])
p('C03', 'Converter layout and rewrite options change representation, not function',
  'Options that choose layout or lowering (transposing inputs or outputs to channels-last for all or selected tensors, limiting transpose rank, rewriting grouped convolutions, grouping tensors, biased transposed convolutions, legacy activation lowering, micro-controller rewrites, passthrough constraints, constant outputs) change only how the model is represented. After undoing the documented layout change on inputs and outputs, the converted model computes the same outputs as the PyTorch model for every input.',
  ['configurations', 'programs', 'inputs'],
  'all combinations of layout/lowering options, models and inputs',
  'Tests exercise single options on single models, usually without comparing results; combinations of per-tensor transposes with branching models and other options are never sampled.',
  [CV + 'base.py', CV + 'operators/optimize.py', CV + 'operators/graph.py'],
  ['input/output transpose passes, transpose lowering, grouped (de)convolution splitting, tensor grouping, option plumbing'])
p('C04', 'Every emitted TFLite file is well formed and matches the model interface',
  'Every file the converter writes is a structurally valid TFLite model: all tensor, buffer and operator-code indices are in range, every tensor has at most one producer and is produced before it is used, constant buffers have exactly the size their shape and type require, and quantization parameters are well formed (positive finite scales, zero points within the type range, one entry per channel on a valid axis). Its inputs and outputs appear in the order, shapes and types of the PyTorch model after the documented conversions, and the shape stored for every tensor equals the shape the runtime computes.',
  ['programs', 'configurations', 'inputs'],
  'all models and converter configurations (float, quantized, dynamic-range, half precision, recurrent)',
  'No test inspects the emitted flatbuffer beyond loading it and reading outputs; malformed metadata often loads silently.',
  [CV + 'operators/graph.py', CV + 'operators/tflite', CV + 'base.py', CV + 'operators/op_version.py', CV + 'operators/optimize.py'],
  ['tensor and buffer collection, topological ordering of operators, serialisation, signature/IO collection'])
p('C05', 'Quantized models convert to TFLite models that agree within rounding',
  'For every model quantized by the quantizers (quantization-aware or post-training, per-tensor or per-channel, symmetric or asymmetric), the TFLite model obtained from it carries the same scales and zero points as the PyTorch quantized model, and its outputs differ from the PyTorch quantized outputs by at most a few quantization steps for every input. This holds for unsigned and signed 8-bit targets, for quantized or float model inputs and outputs, and with quantize/dequantize fusion.',
  ['programs', 'inputs', 'configurations'],
  'all quantizable models, calibration data, quantizer and converter settings',
  'Quantized conversion tests cover isolated operators with default backend parameters, and whole-model tests only warn on mismatch.',
  [CV + 'operators/torch/quantized.py', CV + 'operators/optimize.py', CV + 'operators/tflite/base.py', 'tinynn/graph/quantization/quantizer.py', CV + 'base.py'],
  ['quantized operator parsers, signed/unsigned reinterpretation, requantize fusion, quantize/dequantize fusion, quantized IO pass'])
p('C06', 'Weight-only compression bounds weight error and leaves the rest intact',
  'With dynamic-range quantization every compressed weight stored in the file, once dequantized, differs from the original by at most half a quantization step of its tensor or channel, uses a symmetric zero point and the requested integer type, only eligible layers selected by the configuration are compressed, and all other constants stay bit-identical. With half-precision compression every float constant is the correctly rounded half-precision value. In both modes the model still computes the float outputs up to the error implied by that rounding.',
  ['programs', 'inputs', 'configurations'],
  'all models with compressible layers and all compression settings',
  'Tests check one layer per mode at a loose output tolerance and never compare stored weights.',
  [CV + 'operators/hybrid_quantizer.py', CV + 'operators/half_quantizer.py', CV + 'base.py', CV + 'operators/tflite/base.py'],
  ['weight selection, per-tensor/per-channel symmetric quantization, half-precision constants behind dequantize operators'])
p('C07', 'Recurrent layers convert with the same sequence and state semantics',
  'For every supported recurrent layer (gated and long short-term memory, any number of layers, one or two directions, with or without bias, batch- or time-major, with or without initial state) the converted model returns the same output sequence and final states as PyTorch for every input sequence, under each lowering option (fused, unrolled, separated gates, mapped bidirectional).',
  ['programs', 'inputs', 'configurations'],
  'all recurrent configurations, lowering options and input sequences',
  'Tests fix one small size per variant; gate orders, direction reversal, layer stacking and state routing multiply.',
  [CV + 'operators/torch/aten.py', CV + 'operators/torch/base.py', CV + 'operators/optimize.py'],
  ['recurrent parsers, gate re-ordering, unrolling, state inputs/outputs'])
p('C08', 'Conversion is repeatable and does not disturb its inputs',
  'Converting the same model with the same options twice, in one process or in fresh ones and whatever was converted before, yields byte-identical files. Conversion leaves the parameters, buffers, training flags and hooks of the model, the example inputs, the random-number state visible to the caller and the numerical settings of PyTorch unchanged, and a failed conversion does not affect later ones.',
  ['histories', 'programs', 'configurations'],
  'all sequences of conversions (successful or failing) in one process or several',
  'Each test converts once and never compares files or the model state before and after.',
  [CV + 'base.py', CV + 'operators/graph.py', CV + 'operators/torch/base.py', CV + 'operators/tflite/base.py'],
  ['class-level counters and caches, name allocation, set iteration order, backend switching, model mode handling'])
p('C09', 'Generated code with saved weights reproduces the traced model',
  'For every traceable model, the Python source and weight file generated from its traced graph load into a new model that computes the same outputs as the original for every input with the same control flow, in training and evaluation mode, and owns the same parameters and buffers with the same values and sharing.',
  ['programs', 'inputs'],
  'all traceable models (nested, shared and repeated modules, containers, functional calls, in-place and indexed operations, constants, multiple outputs)',
  'The code generation tests run published architectures for crashes; unusual constructs and value equality are not covered.',
  ['tinynn/graph/tracer.py', 'tinynn/graph/configs/torch_module_override.yml', 'tinynn/util/util.py'],
  ['function and module interception, argument formatting, alias tracking, constructor line capture, code emission'])
p('C10', 'Tracing leaves PyTorch and the model as they were',
  'After a model has been traced, whether or not its forward pass raises, all PyTorch functions, tensor methods, module classes and global modes are exactly what they were before, and the parameters, buffers, hooks, structure and outputs of the model are unchanged. Tracing again, or tracing another model, gives the same graph as in a fresh process.',
  ['histories', 'fault_sequences', 'programs'],
  'all sequences of traces, including ones in which model code fails at any point',
  'Tests never inspect patched objects after tracing nor trace models that raise.',
  ['tinynn/graph/tracer.py'],
  ['patching and restoring of functions, methods and constructors, state-dict restoration, global trace registries'])
p('C11', 'Editing a traced graph rewires exactly what was asked',
  'After any sequence of graph edits (inserting a node before, after or between nodes, replacing or removing a node, fusing nodes into a function, committing in place), the graph is consistent (each edge recorded at both ends, each node after its producers) and the regenerated or committed model computes exactly the composition that the edits describe, for every input. A sub-graph extracted between chosen tensors computes the same intermediate values as the whole model.',
  ['histories', 'programs', 'inputs'],
  'all sequences of edits on all traced graphs',
  'Only a handful of edits are executed indirectly through the quantizer tests.',
  ['tinynn/graph/tracer.py'],
  ['edge bookkeeping between nodes, tensors and indices, ordering, dead-node elimination, code emission and in-place commit'])
p('C12', 'A physically pruned model computes what the masked model computed',
  'For every prunable model, the model after channels are physically removed computes, for every input, the same outputs as the same model with those channels masked to zero, and every remaining weight is an unmodified slice of the original. Pruning keeps the inputs of the model and the shapes of outputs that do not come straight from a pruned layer, never breaks the forward pass, and keeps layer attributes such as channel and group counts consistent with the weight shapes.',
  ['programs', 'configurations', 'inputs'],
  'all prunable topologies (residual, concatenation, split, depthwise/grouped, transposed, normalised, recurrent, linear after flattening) and ratios',
  'Tests check channel counts on hand-written topologies; numeric equivalence between masked and pruned models is not asserted.',
  ['tinynn/graph/modifier.py', 'tinynn/graph/masker.py', 'tinynn/prune/oneshot_pruner.py'],
  ['dimension dependency propagation, sub-graph construction, mask registration and application'])
p('C13', 'Pruning removes exactly the least important channels at the requested ratio',
  'For every prunable model and metric, the channels removed from each group of coupled layers are those with the lowest importance according to the chosen metric, the number removed is the requested fraction (rounded up to whole channels, and respecting the channel multiple if one is requested), kept channels stay in order, and layers excluded by the configuration keep all their output channels. Coupled layers always lose the same channels.',
  ['programs', 'configurations'],
  'all prunable models, weights, metrics, global and per-layer ratios, exclusions and multiples',
  'Tests check resulting counts for a few ratios and one or two metrics with fixed weights.',
  ['tinynn/graph/modifier.py', 'tinynn/prune/oneshot_pruner.py', 'tinynn/prune/base_pruner.py'],
  ['importance metrics, per-group index selection, grouped leaf handling, exclusion of operators and last layers'])
p('C14', 'Pruner configuration, masking and accounting are faithful',
  'A pruner configuration written to disk and read back drives the same pruning, from a mapping or a file alike, and invalid or missing required settings are rejected. Registering masks without applying them never changes shapes and keeps masked entries at zero through training updates until masks are removed, and the reported operation count is that of the current model before and after pruning. An identity pruning pass keeps the function of the model.',
  ['configurations', 'histories', 'programs'],
  'all configurations and all orders of mask, train, count, apply and save steps',
  'Tests use in-memory dictionaries and a fixed sequence of calls.',
  ['tinynn/prune/base_pruner.py', 'tinynn/prune/oneshot_pruner.py', 'tinynn/prune/identity_pruner.py', 'tinynn/graph/masker.py', 'tinynn/util/util.py'],
  ['configuration parsing and generation, masker hooks, FLOPs accounting'])
p('C15', 'Quantization preparation preserves the float function of the model',
  'For every model, the model that a quantizer prepares for quantization-aware training or post-training calibration computes, while its observers and fake quantizers are disabled, the same outputs as the original float model in the same mode for every input, including all operator rewrites and module fusions that preparation performs. The parameters of the original model are carried over unchanged, and observing data does not change results.',
  ['programs', 'inputs', 'configurations'],
  'all traceable models, quantizer kinds and settings',
  'Quantizer tests check that particular nodes were rewritten, not that results are preserved.',
  ['tinynn/graph/quantization/quantizer.py', 'tinynn/graph/quantization/modules.py', 'tinynn/graph/quantization/fused_modules.py', 'tinynn/graph/quantization/utils.py', 'tinynn/graph/quantization/qat_modules.py'],
  ['graph rewriting of arithmetic, stack, clamp, pooling, dropout and normalisation nodes, module substitution, fusion'])
p('C16', 'Quantizer configuration decides exactly what is quantized and how',
  'Layers disabled in the layer-wise configuration or by operator action stay in float and unquantized in the prepared and converted model, all other quantizable layers are quantized, an override function changes exactly the layers it chooses, and the scheme of every quantizer (bit range, symmetric or affine, per-tensor or per-channel, algorithm, fixed statistics) is the configured one. The configuration written by a quantization run, when read back, reproduces the same prepared model.',
  ['configurations', 'programs'],
  'all layer-wise selections, operator actions, backends and schemes on all models',
  'Tests check single settings on single models.',
  ['tinynn/graph/quantization/quantizer.py', 'tinynn/graph/quantization/observer.py'],
  ['layer-wise configuration file, quantize/dequantize stub placement, observer configuration per backend'])
p('C17', 'Dequantizing a prepared model gives back the float model',
  'For every model prepared by a quantizer in graph-rewriting mode, removing quantization again yields a model without any quantization nodes that computes the same outputs as the original float model for every input and carries its weights.',
  ['programs', 'inputs', 'configurations'],
  'all models that the quantizer can rewrite',
  'Dequantization is not covered by the existing tests for value equality.',
  ['tinynn/graph/quantization/quantizer.py', 'tinynn/graph/tracer.py'],
  ['removal of stubs, splitting fused adds, replacement of functional wrappers'])
p('C18', 'Equalisation, batch-norm folding and restoration keep the function',
  'Cross-layer equalisation, folding batch-norm layers into neighbouring convolutions or linear layers, and re-inserting batch-norm layers calibrated on data leave the outputs of the model in evaluation mode unchanged up to floating-point tolerance for every input. Equalisation balances the per-channel weight ranges of every eligible pair of layers and touches no others.',
  ['programs', 'inputs', 'configurations'],
  'all models with eligible layer pairs, thresholds, iteration counts and input data',
  'Three fixed two-layer networks are tested.',
  ['tinynn/graph/quantization/algorithm/cross_layer_equalization.py', 'tinynn/util/bn_restore.py', 'tinynn/graph/quantization/utils.py', 'tinynn/graph/quantization/fused_modules.py'],
  ['pair discovery on the traced graph, scale computation, weight folding formulas'])
p('C19', 'Quantization-aware replacement modules equal the modules they replace',
  'Each module substituted for quantization-aware training (activation, gating and normalisation replacements, quantization-aware convolutions and transposed convolutions with folded batch-norm, quantizable recurrent layers) computes with fake quantization disabled the same outputs, gradients and running statistics as the float module it was built from, for every input and in training and evaluation mode, and converts back without changing weights.',
  ['inputs', 'configurations', 'histories'],
  'all module hyper-parameters, inputs and training steps',
  'Tests compare six modules on one configuration each.',
  ['tinynn/graph/quantization/modules.py', 'tinynn/graph/quantization/qat_modules.py', 'tinynn/graph/quantization/fused_modules.py', 'tinynn/graph/quantization/quantizable/gru.py', 'tinynn/graph/quantization/quantizable/lstm.py'],
  ['decomposed activations, folded convolution forward, recurrent cell composition, statistics updates'])
p('C20', 'Fake quantizers and observers yield valid parameters and bounded error',
  'For every tensor, observed ranges cover the data as their algorithm promises, the derived scale is positive and finite and the zero point lies in the quantized range, and fake-quantized values lie on the quantization grid, are monotone in the input and differ from in-range inputs by at most one half step, for every rounding mode, bit range and granularity including half-precision brain floats. Rescaling to another bit width preserves the represented range, and enabling or disabling observers and fake quantizers does exactly that.',
  ['inputs', 'configurations', 'histories'],
  'all tensors (constant, one-sided, tiny, huge, skewed), bit ranges and enable/disable histories',
  'No existing test checks fake quantizers or observers numerically.',
  ['tinynn/graph/quantization/fake_quantize.py', 'tinynn/graph/quantization/observer.py', 'tinynn/graph/quantization/utils.py', 'tinynn/graph/quantization/quantizer.py'],
  ['range observation, threshold search, grid rounding, parameter derivation'])
p('C21', 'Training-based pruning keeps its promises at every step',
  'Alternating-direction pruning runs the configured number of training epochs with the configured learning-rate schedule and penalised loss, restores the original loss, leaves weights unmasked while training, and ends with a model pruned at the requested ratio by the same rules as one-shot pruning. Budgeted adaptive pruning only ever accepts plans that reduce the operation count below the round target, ends within the budget or the round limit, and restoring a saved round reproduces that model exactly.',
  ['histories', 'configurations', 'programs'],
  'all schedules of training callbacks, configurations and models',
  'Neither pruner is covered by the existing tests.',
  ['tinynn/prune/admm_pruner.py', 'tinynn/prune/netadapt_pruner.py', 'tinynn/prune/base_pruner.py'],
  ['penalty and dual variable updates, epoch and learning-rate bookkeeping, plan search, checkpointing'])
p('C22', 'Exported conversion artefacts describe the model faithfully',
  'The exported script model and its configuration list every input and output of the model in order with the right shape, type and layout flag and can be read back into inputs the script accepts, producing the outputs of the original model. Artefacts dumped during conversion (script model, configuration, example inputs and intermediate tensors) hold exactly the values used, and intermediate values reported for named tensors equal those of the PyTorch model.',
  ['programs', 'configurations', 'inputs'],
  'all models, input/output structures and layout settings',
  'Not covered by existing tests.',
  ['tinynn/util/converter_util.py', CV + 'base.py'],
  ['configuration generation and parsing, artefact dumping, intermediate tensor access'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
