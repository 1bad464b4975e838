K = 'src/runtime/cpu/kernels/kernels.cpp'
L = 'src/runtime/cpu/layers/'
SEEDS = {}
ASAN = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 4
srcs=$(ls /repo/src/*.cpp /repo/src/*/*.cpp /repo/src/runtime/cpu/kernels/*.cpp /repo/src/runtime/cpu/layers/*.cpp | grep -v -e model/model.cpp -e graphbuilder.cpp -e serialization.cpp -e image_reader.cpp)
for s in $srcs; do echo "$s"; done | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O1 -w -fopenmp -fsanitize=address -include array -include limits -include cstdint -D_GLIBCXX_USE_CXX11_ABI=0 -I/repo/include -I/repo/src -I/usr/include/eigen3 -c {} -o "$0/$(echo {} | tr / _).o"' "$t" || exit 3
g++ -std=c++17 -O1 -w -fopenmp -fsanitize=address -include array -include limits -include cstdint -D_GLIBCXX_USE_CXX11_ABI=0 -I/repo/include -I/repo/src -I/usr/include/eigen3 "$d/demo.cpp" "$t"/*.o -o "$t/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 200 "$t/demo"
'''
def seed(id, property, edits, demo, needs, breaks, **kw):
    SEEDS[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw)

seed('c06-padw', 'C06', [(K, 'int pad_h = padding[Kernel::KH];\n    int pad_w = padding[Kernel::KW];\n\n    int stride_h = stride[Kernel::KH];\n    int stride_w = stride[Kernel::KW];\n\n    int dilation_h = dilation[Kernel::KH];\n    int dilation_w = dilation[Kernel::KW];\n\n    int h_out = (h + 2',
  'int pad_h = padding[Kernel::KH];\n    int pad_w = padding[Kernel::KH];\n\n    int stride_h = stride[Kernel::KH];\n    int stride_w = stride[Kernel::KW];\n\n    int dilation_h = dilation[Kernel::KH];\n    int dilation_w = dilation[Kernel::KW];\n\n    int h_out = (h + 2')],
 r'''
int main() {
    dw::Placeholder in(Shape{1, 1, 3, 3}); dw::Convolution op(1, {3, 3}, {0, 1}, {1, 1}, "c"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    Tensor W = op.m_info.impl().params.at("weight").data(), b = op.m_info.impl().params.at("bias").data();
    for (int i = 0; i < 9; ++i) W.data()[i] = i + 1; b.data()[0] = 0;
    TV x{mk({1, 1, 3, 3}, [](int i) { return (float)(i * i + 1); })}, y{cst(out.shape(), 0)};
    Tensor big = cst({64}, 0); 
    l->forward(x, y);
    for (int c = 0; c < 3; ++c) { double s = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { int w = c + j - 1; if (w >= 0 && w < 3) s += (i * 3 + j + 1) * x[0].data()[i * 3 + w]; } eq("conv", y[0].data()[c], s); }
    return bad;
}
''', 'padding that differs between height and width', 'columns are shifted by the vertical padding')

seed('c06-bufstale', 'C06', [(L + 'cpuconvolution.cpp', 'if (im2col_buf.total() != batch * rows * cols) {', 'if (im2col_buf.empty()) {')],
 r'''
int main() {
    dw::Placeholder in(Shape{1, 2, 6, 6}); dw::Convolution op(2, {3, 3}, {1, 1}, {1, 1}, "c"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    for (int n : {1, 40}) {
        TV x{cst({n, 2, 6, 6}, 1)}, y{cst({n, 2, 6, 6}, 0)};
        Tensor guard = cst({200000}, 0.5f);
        l->forward(x, y);
        for (int i = 0; i < 200000; ++i) ok("memory outside the tensor changed", guard.data()[i] == 0.5f);
        if (bad) return 1;
    }
    return bad;
}
''', 'a larger batch after a smaller one on the same layer', 'the unfolding buffer is too small for the larger batch: out-of-bounds writes',
 sh='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 4
srcs=$(ls /repo/src/*.cpp /repo/src/*/*.cpp /repo/src/runtime/cpu/kernels/*.cpp /repo/src/runtime/cpu/layers/*.cpp | grep -v -e model/model.cpp -e graphbuilder.cpp -e serialization.cpp -e image_reader.cpp)
for s in $srcs; do echo "$s"; done | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O1 -w -fopenmp -fsanitize=address -include array -include limits -include cstdint -D_GLIBCXX_USE_CXX11_ABI=0 -I/repo/include -I/repo/src -I/usr/include/eigen3 -c {} -o "$0/$(echo {} | tr / _).o"' "$t" || exit 3
g++ -std=c++17 -O1 -w -fopenmp -fsanitize=address -include array -include limits -include cstdint -D_GLIBCXX_USE_CXX11_ABI=0 -I/repo/include -I/repo/src -I/usr/include/eigen3 "$d/demo.cpp" "$t"/*.o -o "$t/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 200 "$t/demo"
''')

seed('c07-biasgrad', 'C07', [(K, '    initializer::zeros(grad_bias); // zero grad\n', '')], r'''
int main() {
    dw::Placeholder in(Shape{2, 1, 3, 3}); dw::Convolution op(2, {2, 2}, {0, 0}, {1, 1}, "c"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    Tensor g = op.m_info.impl().params.at("bias").grad(); dw::initializer::zeros(g);
    TV x{mk({2, 1, 3, 3}, [](int i) { return i * 0.25f; })}, y{cst(out.shape(), 0)}, go{cst(out.shape(), 0.5f)};
    for (int k = 0; k < 2; ++k) { l->forward(x, y); l->updateGradients(x, go); eq("bias grad", g.data()[0], 4.0); eq("bias grad", g.data()[1], 4.0); }
    return bad;
}
''', 'a second gradient step on the same layer', 'bias gradients of earlier steps leak into later ones')

seed('c07-col2im', 'C07', [(K, '                    if (!(input_row >= 0 && input_row < h_in)) {\n                        src += w_out;', '                    if (!(input_row >= 0 && input_row < h_in)) {\n                        src += w_in;')], r'''
int main() {
    // 1 x 2 x 5 image, kernel 2x2, padding 1 x 0: w_out = 4 differs from w_in = 5, rows outside the image exist
    dw::Placeholder in(Shape{1, 1, 2, 5}); dw::Convolution op(1, {2, 2}, {1, 0}, {1, 1}, "c"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    Tensor W = op.m_info.impl().params.at("weight").data(); for (int i = 0; i < 4; ++i) W.data()[i] = i + 1;
    TV x{cst({1, 1, 2, 5}, 1)}, y{cst(out.shape(), 0)}, gi{cst({1, 1, 2, 5}, 0)}, go{mk(out.shape(), [](int i) { return (float)(i * i + 1); })};
    l->forward(x, y); l->backward(x, y, go, gi);
    int OH = 3, OW = 4;
    for (int u = 0; u < 2; ++u) for (int v = 0; v < 5; ++v) { double s = 0;
        for (int r = 0; r < OH; ++r) for (int c = 0; c < OW; ++c) { int i = u + 1 - r, j = v - c; if (i >= 0 && i < 2 && j >= 0 && j < 2) s += W.data()[i * 2 + j] * go[0].data()[r * OW + c]; }
        eq("input grad", gi[0].data()[u * 5 + v], s); }
    return bad;
}
''', 'vertical padding together with an output width different from the input width', 'gradient columns are read from the wrong place after a skipped row')

seed('c08-zerohoist', 'C08', [(K, '    for (size_t i = 0; i < batch * c; i++) {\n        initializer::zeros(im2col_buf);\n', '    initializer::zeros(im2col_buf);\n    for (size_t i = 0; i < batch * c; i++) {\n')], r'''
int main() {
    dw::Placeholder in(Shape{1, 2, 2, 2}); dw::MaxPooling op({2, 2}, {0, 0}, {2, 2}, "p"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    TV x{mk({1, 2, 2, 2}, [](int i) { return i == 0 || i == 7 ? 5.f : 0.f; })}, y{cst(out.shape(), 0)}, gi{cst({1, 2, 2, 2}, 0)}, go{cst(out.shape(), 1)};
    l->forward(x, y); l->backward(x, y, go, gi);
    for (int i = 0; i < 8; ++i) eq("grad", gi[0].data()[i], i == 0 || i == 7 ? 1 : 0);
    return bad;
}
''', 'at least two planes whose maxima sit at different window positions', 'gradients of an earlier plane are delivered again to later planes')

seed('c10-centered', 'C10', [(L + 'cpubatchnorm1d.cpp', 'if (m_input_centered.shape() != input.shape()) {', 'if (m_input_centered.total() < input.total()) {')], r'''
int main() {
    dw::Placeholder in(Shape{4, 2}); dw::BatchNorm1D op(0.001f, 0.1f, "b"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    for (int n : {4, 2}) {
        TV x{mk({n, 2}, [](int i) { return (float)((i * 7) % 5) - 2; })}, y{cst({n, 2}, 0)};
        try { l->forward(x, y); } catch (...) { std::printf("threw\n"); return 1; }
        for (int c = 0; c < 2; ++c) { double m = 0, v = 0; for (int i = 0; i < n; ++i) m += x[0].data()[i * 2 + c] / n; for (int i = 0; i < n; ++i) v += std::pow(x[0].data()[i * 2 + c] - m, 2) / n;
            for (int i = 0; i < n; ++i) eq("bn", y[0].data()[i * 2 + c], (x[0].data()[i * 2 + c] - m) / std::sqrt(v + 0.001)); }
    }
    return bad;
}
''', 'a smaller batch after a larger one', 'rows left over from the larger batch enter the statistics of the smaller one')

seed('c10-runvar', 'C10', [(K, 'running_var = running_var * alpha + input_var * (1 - alpha);', 'running_var = running_var * alpha + std.cwiseAbs2() * (1 - alpha);')], r'''
int main() {
    dw::Placeholder in(Shape{4, 1}); dw::BatchNorm1D op(0.5f, 0.25f, "b"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    TV x{mk({4, 1}, [](int i) { return (float)i; })}, y{cst({4, 1}, 0)};
    l->forward(x, y);
    eq("running var", op.m_info.impl().buffers.at("running_var").data()[0], 1.25 * 0.75);
    return bad;
}
''', 'an epsilon that is not negligible', 'the running variance includes epsilon, which is then added again in evaluation')

seed('c11-batch', 'C11', [(K, '    auto batch_size = input_centered.outerSize();', '    auto batch_size = grad_output.cols() > 1 ? input_centered.rows() : input_centered.innerSize();')], r'''
int main() {
    dw::Placeholder in(Shape{5, 1}); dw::BatchNorm1D op(0.001f, 0.1f, "b"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    TV x{mk({5, 1}, [](int i) { return (float)(i * i); })}, y{cst({5, 1}, 0)}, gi{cst({5, 1}, 0)}, go{mk({5, 1}, [](int i) { return i == 1 ? 1.f : 0.f; })};
    l->forward(x, y); l->backward(x, y, go, gi);
    double s = 0; for (int i = 0; i < 5; ++i) s += gi[0].data()[i];
    eq("input gradients of a normalised feature sum to zero", s, 0);
    return bad;
}
''', 'a single feature', 'means over the batch are divided by the number of features')

seed('c04-globalmax', 'C04', [(K, '(X.colwise() - X.rowwise().maxCoeff()).array().exp();', '(X.array() - X.maxCoeff()).exp();')], r'''
int main() {
    dw::Placeholder in(Shape{2, 2}); dw::Softmax op("s"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    TV x{mk({2, 2}, [](int i) { return i < 2 ? 0.f : 500.f; })}, y{cst({2, 2}, 0)};
    l->forward(x, y);
    for (int i = 0; i < 4; ++i) eq("softmax", y[0].data()[i], 0.5);
    return bad;
}
''', 'rows of very different magnitude in one batch', 'rows far below the batch maximum underflow to 0/0')

seed('c05-dwacc', 'C05', [(K, '    dW = dx.transpose() * input;', '    dW += dx.transpose() * input;')], r'''
int main() {
    dw::Placeholder in(Shape{2, 3}); dw::Linear op(2, "l"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    Tensor g = op.m_info.impl().params.at("weight").grad(); dw::initializer::zeros(g);
    TV x{cst({2, 3}, 1)}, y{cst({2, 2}, 0)}, go{cst({2, 2}, 1)};
    for (int k = 0; k < 2; ++k) { l->forward(x, y); l->updateGradients(x, go); for (int i = 0; i < 6; ++i) eq("dW", g.data()[i], 2); }
    return bad;
}
''', 'a second step', 'the weight gradient of a step contains the previous steps')

seed('c09-gap', 'C09', [(K, 'input_data[i * plane_size + j] += out_data[i] / plane_size;', 'input_data[i * plane_size + j] += out_data[i] / (input_shape[Input::W] * input_shape[Input::W]);')], r'''
int main() {
    dw::Placeholder in(Shape{1, 1, 2, 3}); dw::GlobalAvgPooling op("g"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    TV x{cst({1, 1, 2, 3}, 1)}, y{cst({1, 1, 1, 1}, 0)}, gi{cst({1, 1, 2, 3}, 0)}, go{cst({1, 1, 1, 1}, 6)};
    l->forward(x, y); l->backward(x, y, go, gi);
    for (int i = 0; i < 6; ++i) eq("grad", gi[0].data()[i], 1);
    return bad;
}
''', 'non-square images', 'the gradient is divided by the wrong number of positions')

seed('c03-leaky0', 'C03', [(K, 'grad_input += static_cast<V>((input.array() < 0.f)\n            .select(grad_output.array() * alpha, grad_output));', 'grad_input += static_cast<V>((input.array() > 0.f)\n            .select(grad_output, grad_output.array() * alpha));')], r'''
int main() {
    dw::Placeholder in(Shape{1, 2}); dw::LeakyReLU op(0.25f, "a"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    TV x{mk({1, 2}, [](int i) { return (float)i; })}, y{cst({1, 2}, 0)}, gi{cst({1, 2}, 0)}, go{cst({1, 2}, 1)};
    l->forward(x, y); l->backward(x, y, go, gi);
    eq("grad at zero", gi[0].data()[0], 1); eq("grad", gi[0].data()[1], 1);
    return bad;
}
''', 'an input that is exactly zero', 'the gradient at zero uses the negative slope although the forward pass does not')

HOIST_OLD = '''    #pragma omp parallel for
    for (size_t b = 0; b < batch; b++) {
        ConstMatrix weights_mat{weights.data(), c_out, rows};
        Tensor grad_im2col_buf({rows, cols});
'''
seed('c14-hoist', 'C14', [(K, HOIST_OLD, '''    Tensor grad_im2col_buf({rows, cols});
    #pragma omp parallel for
    for (size_t b = 0; b < batch; b++) {
        ConstMatrix weights_mat{weights.data(), c_out, rows};
''')], r'''
#include <omp.h>
int main() {
    omp_set_num_threads(8);
    int B = 32; Shape s{B, 3, 12, 12};
    dw::Placeholder in(s); dw::Convolution op(4, {3, 3}, {1, 1}, {1, 1}, "c"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    Tensor W = op.m_info.impl().params.at("weight").data(); for (size_t i = 0; i < W.total(); ++i) W.data()[i] = (float)(i % 5) - 2;
    TV x{cst(s, 1)}, y{cst(out.shape(), 0)}, go{mk(out.shape(), [](int i) { return (float)(i * 31 % 17) - 8; })};
    l->forward(x, y);
    omp_set_num_threads(1); TV ref{cst(s, 0)}; l->backward(x, y, go, ref);
    omp_set_num_threads(8);
    for (int r = 0; r < 60 && !bad; ++r) { TV gi{cst(s, 0)}; l->backward(x, y, go, gi); for (size_t i = 0; i < gi[0].total() && !bad; ++i) eq("parallel result differs", gi[0].data()[i], ref[0].data()[i]); }
    return bad;
}
''', 'several threads working on one batch', 'samples of one batch share the scratch buffer of the input gradient, so threads overwrite each other')
seed('c14-bias', 'C14', [(K, '''    Vector grad_bias_vec{grad_bias.data(), c_out};

    // #pragma omp parallel for
''', '''    Vector grad_bias_vec{grad_bias.data(), c_out};

    #pragma omp parallel for
''')], r'''
#include <omp.h>
int main() {
    omp_set_num_threads(8);
    int B = 4000; Shape s{B, 1, 2, 2};
    dw::Placeholder in(s); dw::Convolution op(8, {1, 1}, {0, 0}, {1, 1}, "c"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    Tensor g = op.m_info.impl().params.at("bias").grad();
    TV x{cst(s, 1)}, y{cst(out.shape(), 0)}, go{cst(out.shape(), 1)};
    l->forward(x, y);
    for (int r = 0; r < 60 && !bad; ++r) { l->updateGradients(x, go); for (int i = 0; i < 8; ++i) eq("bias grad", g.data()[i], 4.0 * B); }
    return bad;
}
''', 'several threads updating the bias gradient at the same time', 'additions to the shared bias gradient are lost')
seed('c13-pool', 'C13', [(K, '''        Tensor grad_input_plane({1, 1, h_in, w_in}, grad_input.data() + i * h_in * w_in);
        col2im(im2col_buf''', '''        Tensor grad_input_plane({1, 1, h_in, w_in}, grad_input.data() + i * h_in * w_in);
        if (kernel[Kernel::KH] == stride[Kernel::KH] && kernel[Kernel::KW] == stride[Kernel::KW]) initializer::zeros(grad_input_plane);
        col2im(im2col_buf''')], r'''
int main() {
    dw::Placeholder in(Shape{1, 1, 2, 2}); dw::MaxPooling op({2, 2}, {0, 0}, {2, 2}, "p"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    TV x{mk({1, 1, 2, 2}, [](int i) { return (float)i; })}, y{cst(out.shape(), 0)}, gi{cst({1, 1, 2, 2}, 3)}, go{cst(out.shape(), 1)};
    l->forward(x, y); l->backward(x, y, go, gi);
    for (int i = 0; i < 4; ++i) eq("grad", gi[0].data()[i], i == 3 ? 4 : 3);
    return bad;
}
''', 'a pooling input that also feeds another layer, and non-overlapping windows', 'the gradient delivered by the other consumer is erased')
seed('c07-convbuf', 'C07', [(K, '''        Tensor grad_im2col_buf({rows, cols});
        ConstMatrix grad_output_mat{grad_output.data() + b * output_offset, c_out, cols};
''', '''        Tensor grad_im2col_buf({rows, cols}, im2col_buf.data() + b * rows * cols);
        ConstMatrix grad_output_mat{grad_output.data() + b * output_offset, c_out, cols};
''')], r'''
int main() {
    dw::Placeholder in(Shape{1, 1, 3, 3}); dw::Convolution op(1, {2, 2}, {0, 0}, {1, 1}, "c"); auto out = op(in);
    auto l = dw::cpu::ICPULayer::create(op.m_info);
    Tensor W = op.m_info.impl().params.at("weight").data(), gW = op.m_info.impl().params.at("weight").grad();
    for (int i = 0; i < 4; ++i) W.data()[i] = i - 1.5f;
    TV x{mk({1, 1, 3, 3}, [](int i) { return (float)i; })}, y{cst(out.shape(), 0)}, gi{cst({1, 1, 3, 3}, 0)}, go{cst(out.shape(), 1)};
    l->forward(x, y); l->backward(x, y, go, gi); l->updateGradients(x, go);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { double s = 0; for (int r = 0; r < 2; ++r) for (int c = 0; c < 2; ++c) s += (r + i) * 3 + c + j; eq("dW", gW.data()[i * 2 + j], s); }
    return bad;
}
''', 'updateGradients called after backward (the order every model uses)', 'backward overwrites the unfolded input that the weight gradient still needs')

T = 'src/runtime/tensor.cpp'
seed('c01-viewalloc', 'C01', [(T, '''void dw::Tensor::allocate(const dw::Shape& shape) {
    init(shape);

    m_descriptor->memory.reset''', '''void dw::Tensor::allocate(const dw::Shape& shape) {
    const size_t capacity = m_descriptor->data ? m_descriptor->total : 0u;
    init(shape);

    // NB: Don't touch the allocator if the current storage is large enough
    if (m_descriptor->total <= capacity) {
        return;
    }

    m_descriptor->memory.reset''')], r'''
int main() {
    float mem[6] = {1, 2, 3, 4, 5, 6};
    Tensor t({2, 3}, mem);
    t.allocate({3, 2});
    for (size_t i = 0; i < t.total(); ++i) t.data()[i] = 9;
    for (int i = 0; i < 6; ++i) eq("memory of the user", mem[i], i + 1);
    return bad;
}
''', 'allocating a tensor that was a view of user memory', 'the tensor does not own a buffer: writes go to the memory it used to view')
seed('c01-reshapestride', 'C01', [(T, '''    m_descriptor->shape = shape;
    m_descriptor->strides = calculateStrides(shape);
}''', '''    if (m_descriptor->shape.size() != shape.size()) {
        m_descriptor->strides = calculateStrides(shape);
    }
    m_descriptor->shape = shape;
}''')], r'''
int main() {
    Tensor t({2, 6}); t.reshape({4, 3});
    ok("strides", t.strides() == dw::Strides({3, 1}));
    return bad;
}
''', 'a reshape that keeps the number of dimensions', 'strides describe the old shape')
seed('c02-copyshape', 'C02', [(T, '''    DeepWorks_Assert((m_descriptor->shape   == rhs.m_descriptor->shape    &&
                      m_descriptor->strides == rhs.m_descriptor->strides) &&''', '''    DeepWorks_Assert((m_descriptor->shape.size() == rhs.m_descriptor->shape.size() &&
                      m_descriptor->strides == rhs.m_descriptor->strides) &&''')], r'''
int main() {
    Tensor a = cst({2, 3}, 1), b = cst({4, 3}, 2);
    bool threw = false; try { a.copyTo(b); } catch (const std::exception&) { threw = true; }
    ok("copy between different shapes accepted", threw);
    return bad;
}
''', 'shapes that differ only in the first extent (equal strides)', 'a partial (or overflowing) copy is made instead of being refused')
seed('c15-stale', 'C15', [('src/loss.cpp', '    if (log_predictions.shape() != shape) {', '    if (log_predictions.empty() || log_predictions.shape()[1] != n_classes) {')], r'''
int main() {
    dw::loss::CrossEntropyLoss L;
    for (int B : {2, 5000}) { Tensor p = cst({B, 3}, 0.5f), t = cst({B, 1}, 1); Tensor g = cst({100000}, 1); eq("loss", L.forward(p, t), -std::log(0.5)); for (size_t i = 0; i < g.total(); ++i) ok("other memory", g.data()[i] == 1); if (bad) return bad; }
    return bad;
}
''', 'a larger batch after a smaller one on the same loss object', 'the scratch buffer is too small: out-of-bounds writes', sh=ASAN)
seed('c15-clamp', 'C15', [('src/loss.cpp', '    grad_output_1d(0, slice).array() = -1 / prob_mat_1d(0, slice).array();', '    grad_output_1d(0, slice).array() = -1 / prob_mat_1d(0, slice).array().max(1e-2f);')], r'''
int main() {
    dw::loss::CrossEntropyLoss L; Tensor p = cst({1, 2}, 0.001f), t = cst({1, 1}, 0), g = cst({1, 2}, 0);
    L.backward(p, t, g); eq("gradient", g.data()[0], -1000); eq("gradient", g.data()[1], 0);
    return bad;
}
''', 'a target probability below 0.01', 'the gradient is not the derivative of the loss there')
seed('c16-tie', 'C16', [('src/metrics.cpp', '''        y_pred_mat.row(i).maxCoeff(&pred_col);
        auto label''', '''        pred_col = 0;
        for (int j = 1; j < cols; ++j) {
            if (y_pred_mat(i, j) >= y_pred_mat(i, pred_col)) {
                pred_col = j;
            }
        }
        auto label''')], r'''
int main() {
    Tensor p = cst({1, 3}, 0.25f), t = cst({1, 1}, 0);
    eq("accuracy of a tie", dw::metric::accuracy(p, t), 1);
    return bad;
}
''', 'equal largest predictions in a row', 'the last instead of the first largest class is taken')
seed('c16-nonsquare', 'C16', [('src/metrics.cpp', '''    ConstMatrix y_true_mat(y_true.data(), rows, cols);
    float acc = 0;''', '''    ConstMatrix y_true_mat(y_true.data(), rows, std::min(rows, cols));
    float acc = 0;''')], r'''
int main() {
    Tensor p = mk({2, 3}, [](int i) { return i == 2 || i == 3 ? 1.f : 0.f; }), t = mk({2, 3}, [](int i) { return i == 2 || i == 3 ? 1.f : 0.f; });
    eq("accuracy", dw::metric::accuracyOneHot(p, t), 1);
    return bad;
}
''', 'fewer rows than classes', 'target rows are read at a wrong stride')
O = 'src/optimizer.cpp'
seed('c17-sharedstate', 'C17', [(O, '''    for (auto& [name, param]: m_params) {
        m_velocities.emplace(name, Tensor::zeros(param.data().shape()));
    }''', '''    Tensor velocity;
    for (auto& [name, param]: m_params) {
        if (velocity.shape() != param.data().shape()) {
            velocity = Tensor::zeros(param.data().shape());
        }
        m_velocities.emplace(name, velocity);
    }''')], r'''
int main() {
    dw::ParamMap m; for (const char* n : {"a", "b"}) { m.emplace(n, dw::Parameter(cst({2}, 1))); dw::initializer::constant(m.at(n).grad(), 1); }
    dw::optimizer::SGDMomentum o(m, 0.5f, 0.5f); o.step();
    for (const char* n : {"a", "b"}) eq(n, m.at(n).data().data()[0], 0.5);
    return bad;
}
''', 'two parameters of the same shape updated one after the other', 'their momentum is shared')
seed('c17-adamcount', 'C17', [(O, '    m_num_iterations++;\n', '    if (m_num_iterations < 100) m_num_iterations++;    // the correction has faded by then\n')], r'''
int main() {
    dw::ParamMap m; m.emplace("a", dw::Parameter(cst({1}, 0))); dw::initializer::constant(m.at("a").grad(), 1);
    dw::optimizer::Adam o(m, 0.5f, {0.875f, 0.998046875f}, 0.001f, 100); double a = 0, b = 0, w = 0;
    for (int k = 101; k <= 160; ++k) { o.step(); a = .875 * a + .125; b = 0.998046875 * b + 0.001953125; w -= .5 * (a / (1 - std::pow(.875, k))) / (std::sqrt(b / (1 - std::pow(0.998046875, k))) + .001); }
    eq("weight", m.at("a").data().data()[0], w);
    return bad;
}
''', 'more than a hundred steps', 'the bias correction stops while it still matters')
D = 'src/dataloader.cpp'
DS = r'''
struct Ds : dw::IDataset { int n; std::vector<int> log; size_t size() override { return n; } OutShape shape() override { return {{2}, {1}}; }
  void pull(int i, Tensor& x, Tensor& y) override { log.push_back(i); x.data()[0] = x.data()[1] = y.data()[0] = i; } };
'''
seed('c18-range', 'C18', [(D, 'randomIndices(m_batch_size, m_dataset->size() - 1)', 'randomIndices(m_batch_size, m_dataset->size())')], DS + r'''
int main() {
    auto d = std::make_shared<Ds>(); d->n = 3; dw::DataLoader l(d, 1, true); Tensor x, y;
    for (int k = 0; k < 400; ++k) l.pull(x, y);
    for (int i : d->log) ok("index in range", i >= 0 && i < 3);
    return bad;
}
''', 'a random draw equal to the dataset size', 'a sample beyond the end is requested')
seed('c18-epoch', 'C18', [(D, '''    if (m_pos + m_batch_size > m_dataset->size()) {
        reset();''', '''    if (m_pos + m_batch_size > m_dataset->size()) {
        m_pos %= m_batch_size * (m_dataset->size() / m_batch_size + 1);
        if (m_pos + m_batch_size <= m_dataset->size() + 1) reset();''')], DS + r'''
int main() {
    auto d = std::make_shared<Ds>(); d->n = 5; dw::DataLoader l(d, 2, false); Tensor x, y;
    for (int e = 0; e < 3; ++e) { for (int k = 0; k < 2; ++k) { ok("batch delivered", l.pull(x, y)); eq("first sample", x.data()[0], 2 * k); } ok("end reported", !l.pull(x, y)); }
    auto q = std::make_shared<Ds>(); q->n = 4; dw::DataLoader m(q, 2, false);
    for (int e = 0; e < 3; ++e) { for (int k = 0; k < 2; ++k) ok("batch delivered", m.pull(x, y)); ok("end reported", !m.pull(x, y)); }
    return bad;
}
''', 'a second epoch over a dataset whose size is a multiple of the batch', 'the position is not rewound')
N = 'src/expression/nn.cpp'
seed('c19-convw', 'C19', [(N, '''                                                                      kernel[Kernel::KH],
                                                                      kernel[Kernel::KW]}));''', '''                                                                      kernel[Kernel::KW],
                                                                      kernel[Kernel::KH]}));''')], r'''
int main() {
    dw::Placeholder in(Shape{1, 2, 5, 5}); dw::Convolution op(3, {2, 4}, {0, 0}, {1, 1}, "c"); op(in);
    ok("weight shape", op.m_info.params().at("weight").data().shape() == Shape({3, 2, 2, 4}));
    return bad;
}
''', 'a non-square kernel', 'the weight has height and width swapped')
seed('c19-addrank', 'C19', [(N, '    if (lhs_shape != rhs_shape) {', '    if (lhs_shape.size() != rhs_shape.size() || !std::equal(lhs_shape.begin() + 1, lhs_shape.end(), rhs_shape.begin() + 1)) {')], r'''
int main() {
    dw::Placeholder a(Shape{2, 3}), b(Shape{4, 3}); bool threw = false;
    try { dw::Add("a")(a, b); } catch (const std::exception&) { threw = true; }
    ok("shapes that differ in the batch are added", threw);
    return bad;
}
''', 'inputs that differ in the first extent only', 'mismatched inputs are accepted and the second is read or written beyond its end')
seed('c20-bnorder', 'C20', [(N, '''    auto make_batchnorm2d = [&]{
        return make_typed_layer<dw::BatchNorm2D, float, float>
            ({"eps", "alpha"})''', '''    auto make_batchnorm2d = [&]{
        return make_typed_layer<dw::BatchNorm2D, float, float>
            ({"alpha", "eps"})''')], r'''
int main() {
    dw::Placeholder in(Shape{2, 3, 2, 2}); dw::Attributes a; a["eps"] = 0.001f; a["alpha"] = 0.75f;
    auto out = dw::make_layer("BatchNorm2D", "n", a, {in});
    auto& i = out.impl().call.value().impl().info.impl();
    eq("eps", i.attrs.at("eps").get<float>(), 0.001, 1e-6); eq("alpha", i.attrs.at("alpha").get<float>(), 0.75);
    return bad;
}
''', 'epsilon and momentum that differ', 'a re-created layer has them swapped')
seed('c20-convattrs', 'C20', [(N, '            ({"out_channels", "kernel", "padding", "stride"})', '            ({"out_channels", "kernel", "stride", "padding"})')], r'''
int main() {
    dw::Placeholder in(Shape{1, 1, 8, 8}); dw::Attributes a; a["out_channels"] = 2; a["kernel"] = std::array<int, 2>{3, 3}; a["padding"] = std::array<int, 2>{1, 1}; a["stride"] = std::array<int, 2>{2, 2};
    auto out = dw::make_layer("Convolution", "n", a, {in});
    ok("shape", out.shape() == Shape({1, 2, 4, 4}));
    return bad;
}
''', 'padding different from stride', 'a re-created convolution has them swapped')
seed('c21-hw', 'C21', [(K, 'output_data[((n * C + c) * H + h) * W + w] = *(input_data++);', 'output_data[((n * C + c) * W + w) * H + h] = *(input_data++);')], r'''
int main() {
    Tensor a = mk({1, 2, 3, 2}, [](int i) { return (float)i; }), b = cst({1, 2, 2, 3}, 0);   // NHWC 2x3x2 -> NCHW 2x2x3
    dw::utils::NHWC2NCHW(a, b);
    for (int c = 0; c < 2; ++c) for (int h = 0; h < 2; ++h) for (int w = 0; w < 3; ++w) eq("element", b.data()[(c * 2 + h) * 3 + w], (h * 3 + w) * 2 + c);
    return bad;
}
''', 'an image whose height differs from its width', 'rows and columns are mixed up')

I = 'src/io/image_reader.cpp'
IMG = r"""
#include <deepworks/image_reader.hpp>
#include <png.h>
#include <jpeglib.h>
static void png_file(const char* p, int w, int h, int c, bool adam7, std::vector<unsigned char>& px) {
    FILE* f = fopen(p, "wb"); png_structp s = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(s);
    static const int T[5] = {0, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA};
    png_init_io(s, f); png_set_IHDR(s, i, w, h, 8, T[c], adam7 ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT); png_write_info(s, i);
    px.resize(w * h * c); for (int k = 0; k < w * h * c; ++k) px[k] = (unsigned char)(k * 37 + 11);
    std::vector<png_bytep> r; for (int y = 0; y < h; ++y) r.push_back(&px[y * w * c]);
    png_write_image(s, r.data()); png_write_end(s, 0); png_destroy_write_struct(&s, &i); fclose(f);
}
static void grey_jpeg(const char* p, int w, int h) {
    FILE* f = fopen(p, "wb"); jpeg_compress_struct c{}; jpeg_error_mgr e{}; c.err = jpeg_std_error(&e); jpeg_create_compress(&c); jpeg_stdio_dest(&c, f);
    c.image_width = w; c.image_height = h; c.input_components = 1; c.in_color_space = JCS_GRAYSCALE; jpeg_set_defaults(&c); jpeg_set_quality(&c, 100, TRUE); jpeg_start_compress(&c, TRUE);
    std::vector<unsigned char> row(w, 77); while (c.next_scanline < c.image_height) { JSAMPROW r = row.data(); jpeg_write_scanlines(&c, &r, 1); }
    jpeg_finish_compress(&c); jpeg_destroy_compress(&c); fclose(f);
}
"""
seed('c25-adam7', 'C25', [(I, '        png_read_image(png_ptr, row_pointers);\n', '        for (int y = 0; y < height; y++) {\n            png_read_row(png_ptr, row_pointers[y], nullptr);\n        }\n')],
IMG + r"""
int main() {
    for (bool a : {false, true}) {
        std::vector<unsigned char> px; png_file("i.png", 9, 7, 3, a, px);
        try { Tensor t = dw::io::ReadImage("i.png"); ok("shape", t.shape() == (Shape{7, 9, 3})); for (size_t i = 0; i < px.size(); ++i) eq("sample", t.data()[i], px[i]); }
        catch (...) { ok("a readable file is refused", false); }
    }
    std::remove("i.png"); return bad;
}
""", 'an interlaced (Adam7) PNG', 'only the first pass of an interlaced image is decoded')
seed('c25-handleleak', 'C25', [(I, '        free(row_pointers);\n        fclose(infile);\n        png_destroy_read_struct(&png_ptr, &info_ptr, NULL);\n        throw;', '        free(row_pointers);\n        if (png_ptr) {\n            fclose(infile);\n        }\n        png_destroy_read_struct(&png_ptr, &info_ptr, NULL);\n        throw;')],
IMG + r"""
#include <sys/resource.h>
int main() {
    std::vector<unsigned char> px; png_file("i.png", 4, 3, 3, false, px);
    rlimit r{}; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &r);
    FILE* f = fopen("bad.png", "wb"); fputs("this is no image at all", f); fclose(f);
    for (int i = 0; i < 200; ++i) { bool th = false; try { dw::io::ReadImage("bad.png"); } catch (...) { th = true; } ok("a foreign file is refused", th); }
    try { Tensor t = dw::io::ReadImage("i.png"); for (size_t i = 0; i < px.size(); ++i) eq("sample", t.data()[i], px[i]); } catch (...) { ok("a good file is refused after many foreign ones", false); }
    std::remove("bad.png"); std::remove("i.png"); return bad;
}
""", 'many foreign .png files read in one process', 'every refused file stays open, so that good files are refused once the process runs out of descriptors')

ADE = """#!/bin/bash
# the ADE graph library is not in the sandbox: a stand-in of its headers lies beside this file
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 4
for s in src/model/model.cpp src/model/graphbuilder.cpp src/runtime/cpu/cpubackend.cpp src/serialization.cpp; do echo $s; done | xargs -P 4 -I{} sh -c 'g++ -std=c++17 -O1 -w -fopenmp -include array -include limits -include cstdint -D_GLIBCXX_USE_CXX11_ABI=0 -I/repo/include -I/repo/src -I/usr/include/eigen3 -I"$1/ade_include" -c /repo/{} -o "$0/$(echo {} | tr / _).o"' "$t" "$d" || exit 3
g++ -std=c++17 -O1 -w -fopenmp -include array -include limits -include cstdint -D_GLIBCXX_USE_CXX11_ABI=0 -I/repo/include -I/repo/src -I/usr/include/eigen3 -I"$d/ade_include" "$d/demo.cpp" "$t"/*.o -o "$t/demo" -L/repo/_build/lib -ldeepworks -Wl,-rpath,/repo/_build/lib || exit 3
cd "$t" && timeout 200 "$t/demo"; rc=$?
rm -f "$t"/demo "$t"/*.o "$t"/f
exit $rc
"""
MINC = '#include <deepworks/model.hpp>\n#include <deepworks/serialization.hpp>\n#include <fstream>\n'
seed('c22-shaperank', 'C22', [('src/serialization.cpp', 'if (it->second.shape() != shape) {', 'if (it->second.shape().size() != shape.size() || it->second.shape()[0] > shape[0]) {')],
 MINC + r"""
int main() {
    dw::Model::StateDict a{{"w", mk({4, 3}, [](int i) { return i + 1.f; })}}, b{{"w", cst({3, 4}, 9)}}, c{{"w", cst({4, 3}, 9)}};
    dw::save_state(a, "f");
    dw::load_state(c, "f"); for (int i = 0; i < 12; ++i) eq("restored", c["w"].data()[i], i + 1);
    bool threw = false; try { dw::load_state(b, "f"); } catch (const std::exception&) { threw = true; }
    ok("a state of another shape is accepted", threw);
    return bad;
}
""", 'a state whose tensors have the same rank and a smaller leading extent', 'a state file with other shapes is loaded without an error', sh=ADE, ade=1)
seed('c22-kind', 'C22', [('src/serialization.cpp', 'if (kind != SerializationKind::STATE) {', 'if (kind == SerializationKind::CONFIG) {')],
 MINC + r"""
int main() {
    dw::Model::StateDict a{{"w", cst({2}, 1)}};
    dw::save_state(a, "f");
    { std::fstream f("f", std::ios::in | std::ios::out | std::ios::binary); int k = 7; f.write((char*)&k, 4); }
    bool threw = false; try { dw::load_state(a, "f"); } catch (const std::exception&) { threw = true; }
    ok("a file of an unknown kind is accepted", threw);
    return bad;
}
""", 'a file that is neither a state nor a configuration', 'a foreign file is taken for a state', sh=ADE, ade=1)
seed('c23-wiring', 'C23', [('src/model/model.cpp', '        for (auto id : op.in_ids) {\n            inps.push_back(id2ph.at(id));', '        std::vector<int> in_ids(op.in_ids);\n        std::sort(in_ids.begin(), in_ids.end());\n        for (auto id : in_ids) {\n            inps.push_back(id2ph.at(id));')],
 MINC + r"""
int main() {
    for (const char* o : {"0", "1", "2", "3", "4", "5"}) {
        setenv("ADE_STUB_ORDER", o, 1);
        for (int swap = 0; swap < 2; ++swap) {
            dw::Placeholder x(Shape{2, 3});
            auto a = dw::ReLU("r")(x); auto b = dw::Sigmoid("g")(a); auto y = swap ? dw::Add("s")(b, a) : dw::Add("s")(a, b);
            dw::Model m(x, y);
            auto n = dw::Model::Build(m.cfg());
            auto port0 = [](dw::Model& q) { auto in = q.outputs()[0].impl().call.value().impl().args[0]; return in.impl().call.value().impl().info.type(); };
            ok("an operand changed its place", port0(m) == port0(n));
        }
    }
    return bad;
}
""", 'a layer whose first input has a larger id than its second', 'a rebuilt model feeds the operands of a layer in another order', sh=ADE, ade=1)
seed('c23-outid', 'C23', [('src/serialization.cpp', '    for (const auto& op_info : cfg.sorted_ops) {\n        write_sequence(op_info.name   , file);', '    for (const auto& op_info : cfg.sorted_ops) {\n        if (op_info.type == "ELU") { auto it = op_info.attrs.find("alpha"); if (it != op_info.attrs.end() && it->second.get<float>() == 1.f) { dw::Model::Config::OperationInfo o = op_info; o.attrs.clear(); o.attrs.emplace("alpha", dw::Attribute(1)); write_sequence(o.name, file); write_sequence(o.type, file); write_sequence(o.in_ids, file); write_sequence(o.out_ids, file); write_attributes(o.attrs, file); continue; } }\n        write_sequence(op_info.name   , file);')],
 MINC + r"""
int main() {
    dw::Placeholder x(Shape{2, 3}); auto y = dw::ELU(1.f, "e")(x);
    dw::Model m(x, y); dw::save_cfg(m.cfg(), "f"); auto c = dw::load_cfg("f");
    bool same = false; try { same = c.sorted_ops.at(0).attrs.at("alpha").get<float>() == 1.f; } catch (...) {}
    ok("an attribute changed its kind", same);
    return bad;
}
""", 'an ELU layer whose alpha is exactly 1', 'a float attribute comes back as an integer', sh=ADE, ade=1)
seed('c24-pool', 'C24', [('src/runtime/cpu/cpubackend.cpp', '                    m_mem[d.id].allocate(d.ph.shape());\n', '                    if (d.id >= 2 && m_mem[d.id - 2].shape() == d.ph.shape()) {\n                        m_mem[d.id] = m_mem[d.id - 2];\n                    } else {\n                        m_mem[d.id].allocate(d.ph.shape());\n                    }\n')],
 MINC + r"""
int main() {
    setenv("ADE_STUB_ORDER", "0", 1);
    dw::Placeholder x(Shape{1, 2}); auto a = dw::ReLU("a")(x); auto b = dw::Sigmoid("b")(a); auto c = dw::Sigmoid("c")(b); auto d = dw::ReLU("d")(c); auto y = dw::Add("s")(d, a);
    dw::Model m(x, y); m.compile();
    Tensor i = mk({1, 2}, [](int k) { return k + 1.f; }), o = cst({1, 2}, 0);
    m.forward(i, o);
    for (int k = 0; k < 2; ++k) { double s = 1 / (1 + std::exp(-(k + 1.0))); eq("output", o.data()[k], k + 1 + 1 / (1 + std::exp(-s)), 1e-5); }
    return bad;
}
""", 'a tensor that is used again after two more layers have run', 'internal tensors share storage although the first is still needed', sh=ADE, ade=1)
seed('c24-zerograd', 'C24', [('src/runtime/cpu/cpubackend.cpp', 'if (d.s != graph::Data::Storage::OUTPUT) {\n            auto& grad = m_grad[d.id];', 'if (d.s == graph::Data::Storage::INTERNAL && nh->outEdges().size() > 1) {\n            auto& grad = m_grad[d.id];')],
 MINC + r"""
int main() {
    dw::Placeholder x(Shape{1, 2}); dw::Linear L(2, "l"); auto a = L(x); auto y = dw::ReLU("r")(a);
    dw::Model m(x, y); m.compile();
    Tensor i = mk({1, 2}, [](int k) { return k + 1.f; }), o = cst({1, 2}, 0), g = cst({1, 2}, 1);
    auto p = m.params().at("l.weight"); for (int k = 0; k < 4; ++k) p.data().data()[k] = 1;
    m.forward(i, o); m.backward(i, o, g); std::vector<float> first(p.grad().data(), p.grad().data() + 4);
    m.forward(i, o); m.backward(i, o, g);
    for (int k = 0; k < 4; ++k) eq("gradient of the second step", p.grad().data()[k], first[k], 1e-6);
    return bad;
}
""", 'a second backward pass', 'gradients of an earlier step are added to those of the next', sh=ADE, ade=1)
seed('c24-statealias', 'C24', [('src/model/model.cpp', '        for (auto&& [name, buffer] : it->second.buffers()) {\n            m_state.emplace(info.name() + std::string(".") + name, buffer);', '        for (auto&& [name, buffer] : it->second.buffers()) {\n            m_state.emplace(info.type() + std::string(".") + name, buffer);')],
 MINC + r"""
int main() {
    dw::Placeholder x(Shape{4, 2}); auto y = dw::BatchNorm1D(0.1f, 0.1f, "two")(dw::BatchNorm1D(0.1f, 0.1f, "one")(x));
    dw::Model m(x, y);
    ok("a buffer is missing from the state", m.state().count("one.running_mean") && m.state().count("two.running_mean"));
    return bad;
}
""", 'a model with a layer that keeps buffers', 'buffers are listed under the type of their layer, so those of a second one are lost', sh=ADE, ade=1)
