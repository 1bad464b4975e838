#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
CPU = 'src/runtime/cpu/'
prop('C01', 'Tensor geometry: strides, element count and index range agree',
 'A tensor built from a shape of positive extents reports that shape, row-major strides for it and an element count equal to the product of the extents, and every element is addressable inside the buffer it owns. Allocating again or reshaping keeps that agreement; a reshape keeps the elements and their order and is refused when the element count would change. Shapes with negative (dynamic) extents are refused, and copies of a tensor handle share one buffer and shape.',
 ['inputs', 'histories'], 'every rank and every positive extents; every sequence of construct/allocate/reshape/copy-handle',
 'The tests use a handful of fixed shapes; the claim is about every rank and extent and about buffers staying within bounds.',
 ['src/runtime/tensor.cpp', 'include/deepworks/tensor.hpp', 'include/deepworks/shape.hpp'],
 [('Tensor constructor / init', 'src/runtime/tensor.cpp'), ('Tensor::allocate, reshape', 'src/runtime/tensor.cpp')],
 [('strides', 'row-major strides of the shape', 'src/runtime/tensor.cpp'), ('buffer', 'shared owned storage', 'src/runtime/tensor.cpp')], ['Tensor::shape', 'Tensor::strides', 'Tensor::total', 'Tensor::data'])
prop('C02', 'Tensor copies and initialisers are exact',
 'Copying a tensor into another of the same shape makes the destination equal to the source element for element and leaves the source unchanged, and copying between different shapes is refused. Zero and constant initialisers set every element to exactly that value, the uniform initialiser sets every element to a value in the requested range, and the Xavier initialiser to a value in [-a, a] with a no larger than sqrt(6/(fan_in+fan_out)). None of them touches anything outside the tensor.',
 ['inputs'], 'every shape, every contents, every constant and range',
 'Tests copy one or two small tensors; a copy that misses the last elements for some sizes or ranks passes them.',
 ['src/runtime/tensor.cpp', 'src/initializers.cpp', 'include/deepworks/initializers.hpp'], [('Tensor::copyTo', 'src/runtime/tensor.cpp'), ('initializers', 'src/initializers.cpp')], observe=['Tensor::data'])
prop('C03', 'Elementwise activations compute their function and its derivative',
 'ReLU, LeakyReLU, ELU and Sigmoid map every element x of a tensor of any shape to max(x,0), (x<0 ? a*x : x), (x<0 ? a*(e^x-1) : x) and 1/(1+e^-x). Their backward pass adds, element by element, the derivative at the input times the output gradient to the input gradient. Inputs, and the output gradient, are left unchanged.',
 ['inputs'], 'every rank, every extents, every contents, every slope parameter',
 'Tests compare fixed small tensors to a reference; sizes, ranks, signs and parameter values that matter are not enumerable.',
 [CPU+'layers/cpurelu.cpp', CPU+'layers/cpuleakyrelu.cpp', CPU+'layers/cpuelu.cpp', CPU+'layers/cpusigmoid.cpp', CPU+'kernels/kernels.cpp'], [('activation layers and kernels', CPU+'kernels/kernels.cpp')], observe=['layer forward/backward'])
prop('C04', 'Softmax is the stabilised row softmax with the exact Jacobian product',
 'For a two-dimensional input every output row is exp(x_c - m)/sum_k exp(x_k - m) with m the maximum of the row, so rows are non-negative, sum to one and do not overflow for large inputs. The backward pass adds y_c * (g_c - sum_k g_k y_k) to the input gradient.',
 ['inputs'], 'every batch size, class count and contents including large magnitudes',
 'Tests use moderate values where an unstabilised or mis-normalised formula still agrees.',
 [CPU+'layers/cpusoftmax.cpp', CPU+'kernels/kernels.cpp'], [('softmax kernels', CPU+'kernels/kernels.cpp')], observe=['layer forward/backward'])
prop('C05', 'Linear layer: affine map and its exact gradients',
 'A linear layer flattens everything after the batch dimension and returns W x + b for every row. Backward adds the transposed-weight product to the input gradient, and the parameter gradients are the exact sums over the batch of output gradient times input (weights) and of output gradient (bias). Parameters and inputs are not modified.',
 ['inputs', 'histories'], 'every batch, input rank, feature count and unit count, and successive batches of different size',
 'Tests use fixed sizes; layout mistakes that coincide for square or equal sizes, and dependence on a previous batch, are not reached.',
 [CPU+'layers/cpulinear.cpp', CPU+'kernels/kernels.cpp', 'src/expression/nn.cpp'], [('linear kernels', CPU+'kernels/kernels.cpp'), ('Linear op', 'src/expression/nn.cpp')], observe=['layer forward/backward/updateGradients'])
prop('C06', 'Convolution forward is the zero-padded strided cross-correlation plus bias',
 'Every output element of a convolution equals its bias plus the sum over input channels and kernel positions of weight times the input element at (row*stride + i - padding, col*stride + j - padding), positions outside the image counting as zero. This holds for every geometry the shape inference accepts and for every sequence of batch sizes.',
 ['inputs', 'histories', 'configurations'], 'every batch, channel counts, image size, kernel, stride, padding (also non-square) and every earlier batch',
 'Tests use a few mostly square configurations; swapped height/width, padding or stride handling in rare geometries stays invisible.',
 [CPU+'layers/cpuconvolution.cpp', CPU+'kernels/kernels.cpp'], [('im2col + matrix product', CPU+'kernels/kernels.cpp')], [('im2col buffer', 'scratch kept between calls', CPU+'layers/cpuconvolution.cpp')], ['layer forward'])
prop('C07', 'Convolution gradients are the adjoint of the forward map',
 'The convolution backward pass adds to the input gradient the adjoint of the forward map applied to the output gradient, and the parameter gradients are the exact weight and bias gradients summed over the batch and all output positions. This holds for every geometry and after any earlier batch.',
 ['inputs', 'histories', 'configurations'], 'every geometry as for the forward pass, every contents, every earlier batch',
 'Tests check few geometries against a reference; the adjoint identity for all geometries is out of reach.',
 [CPU+'layers/cpuconvolution.cpp', CPU+'kernels/kernels.cpp'], [('col2im and weight gradient products', CPU+'kernels/kernels.cpp')], observe=['layer backward/updateGradients'])
prop('C08', 'Max pooling takes the window maximum and routes gradients to it',
 'Every max pooling output is the maximum of the input elements its window covers inside the image; padding never contributes. Backward adds each output gradient to the input element that attained the maximum (the first in row-major order on ties) and to no other.',
 ['inputs', 'histories', 'configurations'], 'every image, kernel, stride, padding smaller than the kernel, every contents including all-negative ones, every earlier batch',
 'Tests use non-negative or unpadded data and disjoint windows; negative data at padded borders and overlapping windows are not reached.',
 [CPU+'layers/cpumaxpooling.cpp', CPU+'kernels/kernels.cpp'], [('max pooling kernels', CPU+'kernels/kernels.cpp')], [('max indices', 'positions kept for backward', CPU+'layers/cpumaxpooling.cpp')], ['layer forward/backward'])
prop('C09', 'Add and global average pooling and their gradients',
 'The add layer returns the elementwise sum of its two inputs and adds the output gradient to both input gradients. Global average pooling returns, per sample and channel, the mean over all spatial positions and adds the output gradient divided by the number of positions to every one of them.',
 ['inputs'], 'every batch, channel count, spatial size and contents',
 'Tests use one or two shapes.',
 [CPU+'layers/cpuadd.cpp', CPU+'layers/cpuglobalavgpooling.cpp', CPU+'kernels/kernels.cpp'], [('add and average pooling kernels', CPU+'kernels/kernels.cpp')], observe=['layer forward/backward'])
prop('C10', 'Batch normalisation forward and running statistics',
 'In training, batch normalisation returns gamma*(x-mean)/sqrt(var+eps)+beta with the per-feature (1d) or per-channel (2d) mean and biased variance of the current batch, and blends them into the running statistics as running*alpha + batch*(1-alpha). In evaluation it normalises with the running statistics and leaves them unchanged. Neither depends on the size or contents of an earlier batch except through the running statistics.',
 ['inputs', 'histories'], 'every batch size, feature count, spatial size, contents, parameters, and every earlier batch',
 'Tests run one batch of one size per layer; statistics over histories and changing batch sizes are not reached.',
 [CPU+'layers/cpubatchnorm1d.cpp', CPU+'layers/cpubatchnorm2d.cpp', CPU+'kernels/kernels.cpp'], [('batch norm kernels', CPU+'kernels/kernels.cpp')], [('running_mean, running_var', 'exponential averages', 'src/expression/nn.cpp'), ('scratch', 'centred input and std kept between calls', CPU+'layers/cpubatchnorm2d.cpp')], ['layer forward', 'buffers'])
prop('C11', 'Batch normalisation gradients',
 'After a training forward pass the batch normalisation backward pass adds to the input gradient the exact derivative through the batch mean and variance, gamma/std*(g - mean(g) - xhat*mean(g*xhat)). The parameter gradients are sum(g) for the shift and sum(g*xhat) for the scale, whatever batch came before.',
 ['inputs', 'histories'], 'every batch size, feature count, spatial size, contents and every earlier batch',
 'Tests compare one fixed batch; pre-existing input gradients and changed batch sizes are not exercised.',
 [CPU+'layers/cpubatchnorm1d.cpp', CPU+'layers/cpubatchnorm2d.cpp', CPU+'kernels/kernels.cpp'], [('batch norm backward kernels', CPU+'kernels/kernels.cpp')], observe=['layer backward/updateGradients'])
prop('C12', 'Dropout keeps or zeroes and rescales; backward uses the same mask',
 'In training every element of a dropout output is either zero (draw below p) or the input scaled by 1/(1-p), and backward adds to the input gradient the output gradient masked and scaled exactly the same way. In evaluation the output equals the input.',
 ['inputs', 'histories'], 'every shape, contents, drop probability in [0,1), draw of the random source and repeated passes',
 'The tests cannot enumerate draws; a mask or scale differing between the two directions is statistical at best.',
 [CPU+'layers/cpudropout.cpp', CPU+'kernels/kernels.cpp'], [('dropout kernels', CPU+'kernels/kernels.cpp')], [('mask', 'draws kept for backward', 'src/expression/nn.cpp')], ['layer forward/backward'])
prop('C13', 'Fan-out: every backward pass accumulates',
 'For every layer kind, backward adds its contribution to whatever the input gradient already holds and writes nothing else of its caller: running it twice adds the contribution twice, so a tensor consumed by several layers receives the sum of their gradients.',
 ['inputs', 'histories'], 'every layer kind, every shape and contents of the previously accumulated gradient',
 'Tests start from zero gradients, where overwriting and accumulating are indistinguishable.',
 [CPU+'layers', CPU+'kernels/kernels.cpp'], [('accumulating backward kernels', CPU+'kernels/kernels.cpp')], observe=['layer backward'])
prop('C14', 'Parallel loops are free of races and schedule independent',
 'The result of every layer pass does not depend on the number of threads or on how iterations of its parallel loops are scheduled: no iteration touches an element that another iteration writes.',
 ['schedules', 'inputs'], 'every thread count and interleaving of every parallel loop, every shape',
 'Tests run one schedule on small shapes; races show up rarely and only for some sizes.',
 [CPU+'kernels/kernels.cpp', CPU+'layers/cpuconvolution.cpp', CPU+'layers/cpuadd.cpp'], [('omp parallel for over disjoint slices', CPU+'layers')], observe=['layer outputs'])
prop('C15', 'Cross-entropy loss and its gradient',
 'The cross-entropy loss of a batch of probability rows is -1/B times the sum of the log of the probability of each target class. Its backward pass writes -1/(B*p) at each target position and zero everywhere else, whatever the gradient held before.',
 ['inputs', 'histories'], 'every batch size, class count, target assignment (also repeated classes) and previous contents of the gradient',
 'Tests use one small batch with an initially zero gradient.',
 ['src/loss.cpp', CPU+'kernels/kernels.cpp'], [('CrossEntropyLoss forward/backward', 'src/loss.cpp')], observe=['loss value and gradient'])
prop('C16', 'Accuracy metrics count correct rows exactly',
 'Accuracy is the number of rows whose index of the (first) largest prediction equals the label, divided by the number of rows; the one-hot form compares the index of the largest prediction with the index of the largest target.',
 ['inputs'], 'every batch size, class count, ties and labels',
 'Tests use one batch; off-by-one at the last column or row and tie handling are not reached.',
 ['src/metrics.cpp'], [('accuracy, accuracyOneHot', 'src/metrics.cpp')], observe=['returned value'])
prop('C17', 'Optimisers apply their update rule to exactly the trainable parameters',
 'One step of SGD, SGD with momentum or Adam changes every element of every trainable parameter by exactly its published update rule, using its own gradient and its own per-parameter state, over any number of steps. Parameters marked non-trainable, and all gradients, are left unchanged.',
 ['inputs', 'histories'], 'every set of parameters, shapes, gradients, hyper-parameters, trainability and any number of steps',
 'Tests run one or two steps on one or two parameters; state mixed between parameters and step counting appear over histories.',
 ['src/optimizer.cpp', CPU+'kernels/kernels.cpp'], [('step()', 'src/optimizer.cpp')], [('velocity, moments, step count', 'optimiser state per parameter', 'src/optimizer.cpp')], ['Parameter::data'])
prop('C18', 'Data loader delivers each batch from distinct in-range samples',
 'Without shuffling, successive pulls deliver samples pos..pos+B-1 in order, each image and label into its own row of the batch, and report the end (rewinding) exactly when fewer than B samples remain. With shuffling each batch consists of B distinct in-range samples. No pull reads or writes outside the batch tensors.',
 ['inputs', 'histories'], 'every dataset size, batch size, sample shape and number of pulls and rewinds',
 'Tests use one dataset size and batch size.',
 ['src/dataloader.cpp', 'include/deepworks/dataloader.hpp'], [('DataLoader::pull', 'src/dataloader.cpp')], [('position', 'next sample', 'src/dataloader.cpp')], ['pulled batches'])
prop('C19', 'Shape inference and parameter shapes',
 'Building a layer infers exactly the output shape its computation fills (flattened features, floor((h+2p-k)/s)+1 for windowed layers, one by one for global pooling, the input shape otherwise) and creates parameters and buffers with the shapes the computation reads (scales start at one; biases, shifts and running statistics at zero). Inputs of unsupported rank, windows larger than the padded image and mismatched shapes are refused, when the layer is built or at the latest when it is first run.',
 ['inputs', 'configurations'], 'every input shape and layer configuration',
 'Tests check a few configurations per layer.',
 ['src/expression/nn.cpp'], [('outShape and init of every op', 'src/expression/nn.cpp')], observe=['Placeholder::shape', 'parameters'])
prop('C20', 'Every layer kind is created by name with the configuration it was given',
 'Re-creating a layer from its type name, attributes and inputs yields a layer of the same kind, configuration, output shape and parameter shapes, and each kind is bound to the computation of that kind. Unknown names are refused.',
 ['inputs', 'configurations'], 'every layer kind, every attribute values',
 'Tests exercise default or symmetric attribute values, where swapped attributes agree.',
 ['src/expression/nn.cpp', CPU+'layers/cpulayer.cpp', 'src/expression/nn.cpp'], [('make_layer', 'src/expression/nn.cpp'), ('layer factory of the CPU runtime', CPU+'layers/cpulayer.cpp')], observe=['LayerInfo'])
prop('C21', 'NCHW/NHWC conversions are mutually inverse permutations',
 'Converting a tensor from channel-last to channel-first moves the element at (n,h,w,c) to (n,c,h,w), the opposite conversion moves it back, and neither changes its source.',
 ['inputs'], 'every batch, channel and spatial size',
 'Tests use one shape.',
 [CPU+'kernels/kernels.cpp', 'include/deepworks/utils/utils.hpp'], [('layout conversion', CPU+'kernels/kernels.cpp')], observe=['destination tensor'])
prop('C22', 'Saved state loads back identically',
 'Saving a state dictionary and loading the file into a dictionary with the same names and shapes restores every tensor bit for bit, whatever it held before. A file of another kind, with another number of entries, an unknown name or another shape, a file cut short anywhere and a path that cannot be opened are refused with an error; no load writes outside the tensors of the given dictionary.',
 ['inputs', 'histories', 'fault_sequences'], 'every model state, every truncated or foreign file',
 'No test of the stable set builds this code; a round trip of one model says nothing about other names, shapes, damaged or foreign files.', ['src/serialization.cpp'], [('save_state/load_state', 'src/serialization.cpp')], observe=['model state'])
prop('C23', 'Saved configuration rebuilds an equivalent model',
 'Loading a saved model configuration gives back the same input and output ids, the same placeholder ids and shapes, and the same operations in the same order with their names, types, attributes and wiring; a model built from it has the same layers, parameters, inputs and outputs, and a whole model saved and loaded has the same state too. A file of another kind, one cut short and a path that cannot be opened are refused.',
 ['inputs', 'configurations'], 'every model graph',
 'No test of the stable set builds this code; attribute kinds, wirings and damaged files cannot be enumerated.', ['src/serialization.cpp', 'src/model/model.cpp'], [('save_cfg/load_cfg', 'src/serialization.cpp')], observe=['model structure'])
prop('C24', 'A model runs every layer once, in dependency order, and back',
 'A model executes each of its layers exactly once after all of its inputs and propagates gradients in the reverse order, for every acyclic wiring: every layer reads what its producers wrote or the inputs given, in the order it was wired, and writes the output given or a tensor of its own of the inferred shape; backward hands every layer the accumulated gradient of its output, starting from zero on every call. The layers, the parameter map and the state share the tensors of the layers under the names layer.parameter and layer.buffer; two layers of one name and a run before compile are refused.',
 ['programs', 'inputs', 'histories'], 'every acyclic graph of layers, every topological order of it, every extent',
 'No test of the stable set builds this code; the number of wirings is unbounded and a wrong order or a lost gradient shows only in some.', ['src/model/model.cpp', 'src/model/graphbuilder.cpp', CPU+'cpubackend.cpp'], [('GraphBuilder::build: graph of data and operations', 'src/model/graphbuilder.cpp'), ('Model::Impl: ids, names, layers, parameters, state, configuration', 'src/model/model.cpp'), ('CPUBackend: topological execution and its reverse', CPU+'cpubackend.cpp')], observe=['outputs and gradients', 'parameters and state'])
prop('C25', 'Image reading yields the decoded pixels or a clean refusal',
 'Reading a PNG or JPEG file with 8 bits per sample and 1 to 4 channels gives exactly the decoded samples in row-major height x width x channels order: an empty tensor is allocated with that shape, an allocated one keeps its shape and memory and must hold exactly that many elements. A file that is missing, has another extension, is not a valid image of its kind, has another PNG sample width, or does not fit the tensor is refused with an exception: the process is not ended, no memory outside the tensor is touched, and the file is closed on every way out.',
 ['inputs', 'fault_sequences'], 'every image size and channel count; every missing, foreign, damaged or unsupported file',
 'Tests read four sample images that are all well formed, and never a missing, damaged, greyscale, interlaced or 16-bit file.', ['src/io/image_reader.cpp'], [('ReadImage: dispatch on the extension', 'src/io/image_reader.cpp'), ('ReadPngFile/ReadJpegFile: decode row by row, convert to float', 'src/io/image_reader.cpp'), ('setjmp and exceptions for decoder errors', 'src/io/image_reader.cpp')], observe=['returned tensor', 'exception', 'open descriptors'])

# properties claimed by a check, with a note
CLAIM = json.load(open(os.path.join(V, 'tools/claims.json')))
TECH = 'contract-based deductive verification of the extracted real code: per-function obligations discharged by normalisation, arithmetic certificates and z3'
NOTE = 'Every obligation (postconditions, bounds, no-throw, allocation, loop and race conditions) is generated from the current source and discharged for all inputs and iterations; floats are reals, ints mathematical, std/Eigen contracts trusted. Where a changed source leaves the verifier\'s reach, a bounded concrete run (ASan/UBSan) stands in and the evidence says BOUNDED.'
BOUNDED = ('C24',)
def main():
    for p in P:
        for f in p['anchors']['files']:
            if not os.path.exists('/repo/' + f): print('missing anchor', p['id'], f)
        for m in p['anchors']['mechanism'] + p['anchors']['state']:
            if not os.path.exists('/repo/' + m['where']): print('missing where', p['id'], m['where'])
        if len(p['title']) > 80: print('title', p['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as g:
        for p in P: g.write(json.dumps(p) + '\n')
    checks = []
    na = []
    for p in P:
        i = p['id']
        if i in CLAIM['claims']:
            checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=TECH, level='other' if i in BOUNDED else 'proof', level_note=(CLAIM['claims'][i] + ' ' if CLAIM['claims'][i] else '') + NOTE))
        else: na.append(dict(property=i, reason=CLAIM['not_applicable'].get(i, 'not built yet')))
    json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
                   notes='No hooks in /repo. See DESIGN.md and known_findings.txt.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
