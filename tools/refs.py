#!/usr/bin/env python3
"""Behaviour-preserving edits of deepworks, to measure how the checks take refactorings.
   refs.py [--list] [id ...]   applies each edit to a scratch copy of /repo, runs the checks of
   the properties it touches with DW_REPO pointing at the copy, prints exit codes and modes."""
import sys, os, subprocess, shutil, re, json, time
from concurrent.futures import ThreadPoolExecutor
K='src/runtime/cpu/kernels/kernels.cpp'; T='src/runtime/tensor.cpp'; L='src/loss.cpp'; ME='src/metrics.cpp'
O='src/optimizer.cpp'; D='src/dataloader.cpp'; I='src/initializers.cpp'; N='src/expression/nn.cpp'
LD='src/runtime/cpu/layers/'
REFS={}
def ref(id,props,*edits): REFS[id]=(props.split(),edits)
def fn(file,head,new):
    """replace the whole function whose text starts with head"""
    return ('fn',file,head,new)
def sub(file,old,new): return ('sub',file,old,new)

ref('relu-loop','C03 C13',fn(K,'void deepworks::CPUReLUForward','''void deepworks::CPUReLUForward(ConstVector X, Vector result) {
    const float* src = X.data();
    float* dst = result.data();
    for (int i = 0; i < X.size(); ++i) {
        dst[i] = src[i] > 0.f ? src[i] : 0.f;
    }
}'''))
ref('relu-max','C03',fn(K,'void deepworks::CPUReLUForward','''void deepworks::CPUReLUForward(ConstVector X, Vector result) {
    result = X.cwiseMax(0.f);
}'''))
ref('relu-transform','C03',fn(K,'void deepworks::CPUReLUForward','''void deepworks::CPUReLUForward(ConstVector X, Vector result) {
    std::transform(X.data(), X.data() + X.size(), result.data(),
                   [](float x) { return x > 0.f ? x : 0.f; });
}'''))
ref('relugrad-loop','C03 C21',fn(K,'void deepworks::CPUReLUInputGrad','''void deepworks::CPUReLUInputGrad(ConstVector input,
                                 ConstVector grad_output,
                                 Vector grad_input) {
    for (int i = 0; i < input.size(); ++i) {
        if (input(i) > 0.f) {
            grad_input(i) += grad_output(i);
        }
    }
}'''))
ref('leaky-swap','C03',fn(K,'void deepworks::CPULeakyReLUForward','''void deepworks::CPULeakyReLUForward(ConstVector X, Vector result, float alpha) {
    result = (X.array() >= 0.f).select(X, X.array() * alpha);
}'''))
ref('elu-loop','C03',fn(K,'void deepworks::CPUELUForward','''void deepworks::CPUELUForward(ConstVector X, Vector result, float alpha) {
    for (Eigen::Index i = 0; i < X.size(); i++) {
        const float x = X[i];
        if (x < 0.f) result[i] = alpha * (std::exp(x) - 1.0f);
        else         result[i] = x;
    }
}'''),)
ref('elu-grad-tmp','C03',fn(K,'void deepworks::CPUELUInputGrad','''void deepworks::CPUELUInputGrad(ConstVector input, ConstVector grad_output, Vector grad_input, float alpha) {
    V slope = (input.array() < 0.f).select(input.array().exp() * alpha, 1.f);
    grad_input.array() += grad_output.array() * slope.array();
}'''))
ref('sigmoid-inv','C03',fn(K,'void deepworks::CPUSigmoidForward','''void deepworks::CPUSigmoidForward(ConstVector X, Vector result) {
    result = 1.0f / (1.0f + (-X.array()).exp());
}'''))
ref('sigmoid-grad','C03',fn(K,'void deepworks::CPUSigmoidInputGrad','''void deepworks::CPUSigmoidInputGrad(ConstVector output, ConstVector grad_output, Vector grad_input) {
    grad_input.array() += grad_output.array() * output.array() * (1.f - output.array());
}'''))
ref('softmax-loop','C04',fn(K,'void deepworks::CPUSoftmaxForward','''void deepworks::CPUSoftmaxForward(ConstMatrix X, Matrix result) {
    for (int i = 0; i < X.rows(); ++i) {
        float max_value = X.row(i).maxCoeff();
        float sum = 0.f;
        for (int j = 0; j < X.cols(); ++j) {
            result(i, j) = std::exp(X(i, j) - max_value);
            sum += result(i, j);
        }
        for (int j = 0; j < X.cols(); ++j) {
            result(i, j) /= sum;
        }
    }
}'''))
ref('softmax-rows','C04',fn(K,'void deepworks::CPUSoftmaxForward','''void deepworks::CPUSoftmaxForward(ConstMatrix X, Matrix result) {
    for (int i = 0; i < X.rows(); ++i) {
        V e = (X.row(i).array() - X.row(i).maxCoeff()).exp();
        result.row(i) = e / e.sum();
    }
}'''))
ref('softmaxgrad-loop','C04',fn(K,'void deepworks::CPUSoftmaxInputGrad','''void deepworks::CPUSoftmaxInputGrad(ConstMatrix output, ConstMatrix grad_output, Matrix grad_input) {
    for (int i = 0; i < output.rows(); ++i) {
        float k = 0.f;
        for (int j = 0; j < output.cols(); ++j) k += grad_output(i, j) * output(i, j);
        for (int j = 0; j < output.cols(); ++j) grad_input(i, j) += output(i, j) * (grad_output(i, j) - k);
    }
}'''))
ref('softmaxgrad-dot','C04',fn(K,'void deepworks::CPUSoftmaxInputGrad','''void deepworks::CPUSoftmaxInputGrad(ConstMatrix output, ConstMatrix grad_output, Matrix grad_input) {
    for (int i = 0; i < output.rows(); ++i) {
        const float k = output.row(i).dot(grad_output.row(i));
        grad_input.row(i).array() += output.row(i).array() * (grad_output.row(i).array() - k);
    }
}'''))
ref('linear-loop','C07 C11',fn(K,'void deepworks::CPULinearForward','''void deepworks::CPULinearForward(ConstMatrix X, ConstMatrix W, Matrix result) {
    for (int i = 0; i < X.rows(); ++i) {
        for (int j = 0; j < W.rows(); ++j) {
            float acc = 0.f;
            for (int k = 0; k < X.cols(); ++k) acc += X(i, k) * W(j, k);
            result(i, j) = acc;
        }
    }
}'''))
ref('linear-noalias','C07 C21',fn(K,'void deepworks::CPULinearForward','''void deepworks::CPULinearForward(ConstMatrix X, ConstMatrix W, Matrix result) {
    result.noalias() = X * W.transpose();
}'''),fn(K,'void deepworks::CPULinearBiasGrad','''void deepworks::CPULinearBiasGrad(ConstMatrix dx, Vector db) {
    db.setZero();
    for (int i = 0; i < dx.rows(); ++i) {
        db += dx.row(i);
    }
}'''),fn(K,'void deepworks::CPULinearAddBias','''void deepworks::CPULinearAddBias(ConstMatrix X, ConstVector b, Matrix result) {
    for (int i = 0; i < X.rows(); ++i) {
        result.row(i) = X.row(i) + b;
    }
}'''))
ref('linear-layer','C07 C14',sub(LD+'cpulinear.cpp','''    auto second_shape = std::accumulate(in_shape.begin() + 1, in_shape.end(), 1, std::multiplies<int>());

    deepworks::CPULinearForward({input.data() , in_shape[0] , second_shape},
                                {m_W.data()   , w_shape[0]  , w_shape[1]},
                                {output.data(), out_shape[0], out_shape[1]});

    deepworks::CPULinearAddBias({output.data(), out_shape[0], out_shape[1]},
                                {m_b.data(), b_shape[0]},
                                {output.data(), out_shape[0], out_shape[1]});''','''    int features = 1;
    for (size_t i = 1; i < in_shape.size(); ++i) {
        features *= in_shape[i];
    }

    const deepworks::ConstMatrix X(input.data(), in_shape[0], features);
    const deepworks::ConstMatrix W(m_W.data(), w_shape[0], w_shape[1]);
    deepworks::Matrix out(output.data(), out_shape[0], out_shape[1]);
    deepworks::CPULinearForward(X, W, out);

    deepworks::CPULinearAddBias({output.data(), out_shape[0], out_shape[1]},
                                {m_b.data(), b_shape[0]},
                                out);'''))
ref('add-loop','C12',fn(K,'void deepworks::CPUAddForward','''void deepworks::CPUAddForward(const Tensor& X1, const Tensor& X2, Tensor& result) {
    const float* a = X1.data();
    const float* b = X2.data();
    float* r = result.data();
    for (size_t i = 0; i < result.total(); ++i) r[i] = a[i] + b[i];
}'''))
ref('dropout-loop','C12',fn(K,'void deepworks::CPUDropoutForward','''void deepworks::CPUDropoutForward(const Tensor& input, Tensor& mask, Tensor& output, float p) {
    deepworks::initializer::uniform(mask);
    const float* src = input.data();
    const float* m   = mask.data();
    float*       dst = output.data();
    const float scale = 1 - p;
    for (size_t i = 0; i < input.total(); i++) {
        dst[i] = (m[i] < p) ? 0.f : src[i] / scale;
    }
}'''))
ref('gap-loop','C09',fn(K,'void deepworks::CPUGlobalAvgPoolingForward','''void deepworks::CPUGlobalAvgPoolingForward(const Tensor& input, Tensor& output) {
    const auto& shape = input.shape();
    const int planes = shape[Input::N] * shape[Input::C];
    const int plane_size = shape[Input::H] * shape[Input::W];
    const float* src = input.data();
    for (int i = 0; i < planes; ++i) {
        float sum = 0.f;
        for (int j = 0; j < plane_size; ++j) {
            sum += src[i * plane_size + j];
        }
        output.data()[i] = sum / plane_size;
    }
}'''))
ref('gap-hoist','C09',sub(K,'''        for (size_t j = 0; j < plane_size; j++) {
            input_data[i * plane_size + j] += out_data[i] / plane_size;
        }''','''        const float value = out_data[i] / plane_size;
        float* plane = input_data + i * plane_size;
        for (int j = 0; j < plane_size; ++j) {
            plane[j] += value;
        }'''))
ref('gap-ptr','C09',sub(K,'''        for (size_t j = 0; j < plane_size; j++) {
            input_data[i * plane_size + j] += out_data[i] / plane_size;
        }''','''        for (auto p = input_data + i * plane_size, e = p + plane_size; p != e; ++p) {
            *p += out_data[i] / plane_size;
        }'''))
ref('im2col-index','C06 C08 C05',fn(K,'void deepworks::im2col','''void deepworks::im2col(const Tensor& image,
                       Tensor& im2col_buf,
                       const std::array<int, 2>& kernel,
                       const std::array<int, 2>& padding,
                       const std::array<int, 2>& stride,
                       const std::array<int, 2>& dilation,
                       float fill_value) {
    const auto& shape = image.shape();
    const float* src = image.data();
    float* dst = im2col_buf.data();
    const int channels = shape[Input::C];
    const int h = shape[Input::H];
    const int w = shape[Input::W];
    const int h_out = (h + 2 * padding[0] - (dilation[0] * (kernel[0] - 1) + 1)) / stride[0] + 1;
    const int w_out = (w + 2 * padding[1] - (dilation[1] * (kernel[1] - 1) + 1)) / stride[1] + 1;
    for (int c = 0; c < channels; ++c) {
        for (int kh = 0; kh < kernel[0]; ++kh) {
            for (int kw = 0; kw < kernel[1]; ++kw) {
                const int row = (c * kernel[0] + kh) * kernel[1] + kw;
                for (int oh = 0; oh < h_out; ++oh) {
                    const int ih = oh * stride[0] + kh * dilation[0] - padding[0];
                    for (int ow = 0; ow < w_out; ++ow) {
                        const int iw = ow * stride[1] + kw * dilation[1] - padding[1];
                        const bool inside = ih >= 0 && ih < h && iw >= 0 && iw < w;
                        dst[row * h_out * w_out + oh * w_out + ow] =
                            inside ? src[(c * h + ih) * w + iw] : fill_value;
                    }
                }
            }
        }
    }
}'''))
ref('im2col-up','C06 C05',sub(K,'''                int input_row = k_h * dilation_h - pad_h;
                for (int out_r = h_out; out_r; out_r--) {
                    if (!(input_row >= 0 && input_row < h)) {
                        for (int out_col = w_out; out_col; out_col--) {
                            *(dst++) = fill_value;
                        }
                    } else {''','''                int input_row = k_h * dilation_h - pad_h;
                for (int out_r = 0; out_r < h_out; ++out_r) {
                    if (input_row < 0 || input_row >= h) {
                        std::fill_n(dst, w_out, fill_value);
                        dst += w_out;
                    } else {'''))
ref('im2col-helper','C06 C08 C05',sub(K,'''void deepworks::im2col(const Tensor& image,''','''static inline bool inRange(int idx, int size) {
    return idx >= 0 && idx < size;
}

void deepworks::im2col(const Tensor& image,'''),sub(K,'if (!(input_row >= 0 && input_row < h)) {','if (!inRange(input_row, h)) {'),
 sub(K,'(input_col >= 0 && input_col < w) ?','inRange(input_col, w) ?'),
 sub(K,'if (!(input_row >= 0 && input_row < h_in)) {','if (!inRange(input_row, h_in)) {'),
 sub(K,'if (input_col >= 0 && input_col < w_in) {','if (inRange(input_col, w_in)) {'))
ref('im2col-unsigned','C06 C05',sub(K,'''static_cast<int>(target(0, i))''','''static_cast<int>(target(0, i))'''),sub(K,'if (!(input_row >= 0 && input_row < h)) {','if (!(static_cast<unsigned>(input_row) < static_cast<unsigned>(h))) {'))
ref('col2im-index','C05 C06',fn(K,'void deepworks::col2im','''void deepworks::col2im(const Tensor& im2col_buf,
                       Tensor& image,
                       const std::array<int, 2>& kernel,
                       const std::array<int, 2>& padding,
                       const std::array<int, 2>& stride,
                       const std::array<int, 2>& dilation) {
    const auto& shape = image.shape();
    const float* src = im2col_buf.data();
    float* dst = image.data();
    const int channels = shape[Input::C];
    const int h = shape[Input::H];
    const int w = shape[Input::W];
    const int h_out = (h + 2 * padding[0] - (dilation[0] * (kernel[0] - 1) + 1)) / stride[0] + 1;
    const int w_out = (w + 2 * padding[1] - (dilation[1] * (kernel[1] - 1) + 1)) / stride[1] + 1;
    for (int c = 0; c < channels; ++c) {
        for (int kh = 0; kh < kernel[0]; ++kh) {
            for (int kw = 0; kw < kernel[1]; ++kw) {
                const int row = (c * kernel[0] + kh) * kernel[1] + kw;
                for (int oh = 0; oh < h_out; ++oh) {
                    const int ih = oh * stride[0] + kh * dilation[0] - padding[0];
                    for (int ow = 0; ow < w_out; ++ow) {
                        const int iw = ow * stride[1] + kw * dilation[1] - padding[1];
                        if (ih >= 0 && ih < h && iw >= 0 && iw < w) {
                            dst[(c * h + ih) * w + iw] += src[row * h_out * w_out + oh * w_out + ow];
                        }
                    }
                }
            }
        }
    }
}'''))
ref('col2im-outsize','C05 C06',sub(K,'''    int h_out = (h_in + 2 * pad_h - (dilation_h * (kernel_h - 1) + 1)) / stride_h + 1;
    int w_out = (w_in + 2 * pad_w - (dilation_w * (kernel_w - 1) + 1)) / stride_w + 1;
''','''    int h_out = outSize(h_in, kernel_h, pad_h, stride_h, dilation_h);
    int w_out = outSize(w_in, kernel_w, pad_w, stride_w, dilation_w);
'''),sub(K,'''    int h_out = (h + 2 * pad_h - (dilation_h * (kernel_h - 1) + 1)) / stride_h + 1;
    int w_out = (w + 2 * pad_w - (dilation_w * (kernel_w - 1) + 1)) / stride_w + 1;
''','''    int h_out = outSize(h, kernel_h, pad_h, stride_h, dilation_h);
    int w_out = outSize(w, kernel_w, pad_w, stride_w, dilation_w);
'''),sub(K,'void deepworks::CPULinearForward','''static int outSize(int in, int kernel, int pad, int stride, int dilation) {
    const int extent = dilation * (kernel - 1) + 1;
    return (in + 2 * pad - extent) / stride + 1;
}

void deepworks::CPULinearForward'''))
ref('maxpool-direct','C08',fn(K,'void deepworks::CPUMaxPoolingForward','''void deepworks::CPUMaxPoolingForward(const Tensor& input,
                                     Tensor& max_indices,
                                     Tensor& im2col_buf,
                                     Tensor& output,
                                     const std::array<int, 2>& kernel,
                                     const std::array<int, 2>& padding,
                                     const std::array<int, 2>& stride) {
    const auto& in_shape = input.shape();
    const int planes = in_shape[Input::N] * in_shape[Input::C];
    const int h_in = in_shape[Input::H];
    const int w_in = in_shape[Input::W];
    const int h_out = output.shape()[Input::H];
    const int w_out = output.shape()[Input::W];
    for (int p = 0; p < planes; ++p) {
        const float* src = input.data() + p * h_in * w_in;
        for (int oh = 0; oh < h_out; ++oh) {
            for (int ow = 0; ow < w_out; ++ow) {
                float best = -std::numeric_limits<float>::infinity();
                int best_idx = 0;
                for (int kh = 0; kh < kernel[0]; ++kh) {
                    for (int kw = 0; kw < kernel[1]; ++kw) {
                        const int ih = oh * stride[0] + kh - padding[0];
                        const int iw = ow * stride[1] + kw - padding[1];
                        if (ih < 0 || ih >= h_in || iw < 0 || iw >= w_in) continue;
                        const float v = src[ih * w_in + iw];
                        if (v > best) {
                            best = v;
                            best_idx = kh * kernel[1] + kw;
                        }
                    }
                }
                const int o = (p * h_out + oh) * w_out + ow;
                output.data()[o] = best;
                max_indices.data()[o] = best_idx;
            }
        }
    }
}'''))
ref('maxpool-col','C08 C13',sub(K,'''            dst[i * cols + j] = col_mat.col(j).maxCoeff(&max_row);
            indices[i * cols + j] = max_row;''','''            const size_t pos = i * cols + j;
            dst[pos] = col_mat.col(j).maxCoeff(&max_row);
            indices[pos] = static_cast<float>(max_row);'''))
ref('maxpool-argloop','C08',sub(K,'''            dst[i * cols + j] = col_mat.col(j).maxCoeff(&max_row);
            indices[i * cols + j] = max_row;''','''            int best = 0;
            for (int r = 1; r < rows; ++r) {
                if (col_mat(r, j) > col_mat(best, j)) best = r;
            }
            dst[i * cols + j] = col_mat(best, j);
            indices[i * cols + j] = best;'''))
ref('maxpoolgrad-nocopy','C08',sub(K,'''    std::vector<float> grad_output_copy(grad_output.data(), grad_output.data() + grad_output.total());
    Matrix grad{grad_output_copy.data(), batch * c, h_out * w_out};

    auto out_grad_ptr = grad_output_copy.data();''','''    const float* out_grad_ptr = grad_output.data();'''))
ref('conv-lt','C06 C13',sub(LD+'cpuconvolution.cpp','if (im2col_buf.total() != batch * rows * cols)','if (im2col_buf.total() < batch * rows * cols)'))
ref('conv-helper','C05 C06 C14',sub(LD+'cpuconvolution.cpp','''    int batch = input.shape()[0];
    int c_in  = input.shape()[1];
    int h_out = output.shape()[2];
    int w_out = output.shape()[3];

    int rows = c_in * kernel[0] * kernel[1];
    int cols = h_out * w_out;

    // FIXME: Move it to init method
    if (im2col_buf.total() != batch * rows * cols) {
        im2col_buf.allocate({batch * rows * cols});
    }
''','''    ensureBuffer(im2col_buf, bufferSize(input.shape(), output.shape(), kernel));
'''),sub(LD+'cpuconvolution.cpp','deepworks::cpu::CPUConvolution::CPUConvolution(','''static int bufferSize(const deepworks::Shape& in, const deepworks::Shape& out, const std::array<int, 2>& k) {
    return in[0] * in[1] * k[0] * k[1] * out[2] * out[3];
}

static void ensureBuffer(deepworks::Tensor& buf, int size) {
    if (buf.total() != static_cast<size_t>(size)) {
        buf.allocate({size});
    }
}

deepworks::cpu::CPUConvolution::CPUConvolution('''))
ref('conv-nopar','C05 C06',sub(K,'''    #pragma omp parallel for
    for (size_t b = 0; b < batch; b++) {
        Tensor src_tensor''','''    for (int b = 0; b < batch; ++b) {
        Tensor src_tensor'''),sub(K,'''        result = W * X;
        result = result.colwise() + bias_vec;''','''        result.noalias() = W * X;
        result.colwise() += bias_vec;'''))
ref('conv-rowbias','C06',sub(K,'''        result = W * X;
        result = result.colwise() + bias_vec;''','''        result = (W * X).colwise() + bias_vec;'''))
ref('conv-wgrad','C06 C13',sub(K,'''    initializer::zeros(grad_weights); // zero grad
    Matrix grad_weights_mat{grad_weights.data(), c_out, rows};
''','''    Matrix grad_weights_mat{grad_weights.data(), c_out, rows};
    grad_weights_mat.setZero();
'''),sub(K,'''    initializer::zeros(grad_bias); // zero grad
    Vector grad_bias_vec{grad_bias.data(), c_out};

    // #pragma omp parallel for
    for (size_t b = 0; b < batch; b++) {
        ConstMatrix grad_output_mat{grad_output.data() + b * output_offset, c_out, h_out * w_out};
        grad_bias_vec += grad_output_mat.rowwise().sum();
    }''','''    const int plane = h_out * w_out;
    float* db = grad_bias.data();
    for (int c = 0; c < c_out; ++c) {
        float acc = 0.f;
        for (int b = 0; b < batch; ++b) {
            const float* src = grad_output.data() + b * output_offset + c * plane;
            for (int i = 0; i < plane; ++i) {
                acc += src[i];
            }
        }
        db[c] = acc;
    }'''))
ref('nchw-index','C10',fn(K,'void deepworks::utils::NCHW2NHWC','''void deepworks::utils::NCHW2NHWC(const Tensor& input, Tensor& output) {
    const auto& s = input.shape();
    const int C = s[1], H = s[2], W = s[3];
    for (int n = 0; n < s[0]; n++) {
        for (int h = 0; h < H; h++) {
            for (int w = 0; w < W; w++) {
                for (int c = 0; c < C; c++) {
                    output.data()[((n * H + h) * W + w) * C + c] = input.data()[((n * C + c) * H + h) * W + w];
                }
            }
        }
    }
}'''))
ref('nchw-plane','C10',fn(K,'void deepworks::utils::NCHW2NHWC','''void deepworks::utils::NCHW2NHWC(const Tensor& input, Tensor& output) {
    const auto& s = input.shape();
    const int batch = s[0];
    const int channels = s[1];
    const int plane = s[2] * s[3];
    for (int n = 0; n < batch; n++) {
        const float* src = input.data() + n * channels * plane;
        float* dst = output.data() + n * channels * plane;
        for (int i = 0; i < plane; i++) {
            for (int c = 0; c < channels; c++) {
                dst[i * channels + c] = src[c * plane + i];
            }
        }
    }
}'''))
ref('bn-loop','C10',fn(K,'void deepworks::CPUBatchNorm1DForward','''void deepworks::CPUBatchNorm1DForward(ConstMatrix input, Matrix output,
                                      Matrix input_centered, Vector std,
                                      Vector running_mean, Vector running_var,
                                      bool is_training, float eps, float alpha,
                                      ConstVector gamma, ConstVector beta) {
    for (int c = 0; c < input.cols(); ++c) {
        if (is_training) {
            float mean = 0.f;
            for (int i = 0; i < input.rows(); ++i) mean += input(i, c);
            mean /= input.rows();
            float var = 0.f;
            for (int i = 0; i < input.rows(); ++i) {
                input_centered(i, c) = input(i, c) - mean;
                var += input_centered(i, c) * input_centered(i, c);
            }
            var /= input.rows();
            std(c) = std::sqrt(var + eps);
            running_mean(c) = running_mean(c) * alpha + mean * (1 - alpha);
            running_var(c)  = running_var(c) * alpha + var * (1 - alpha);
        } else {
            for (int i = 0; i < input.rows(); ++i) input_centered(i, c) = input(i, c) - running_mean(c);
            std(c) = std::sqrt(running_var(c) + eps);
        }
        for (int i = 0; i < input.rows(); ++i) {
            output(i, c) = input_centered(i, c) * (gamma(c) / std(c)) + beta(c);
        }
    }
}'''))
ref('bn-eval','C10',sub(K,'''    if (is_training) {
        auto input_mean = input.colwise().mean();
        input_centered = input.rowwise() - input_mean;

        auto input_var = input_centered.cwiseAbs2().colwise().mean();
        std = (input_var.array() + eps).cwiseSqrt();
''','''    if (is_training) {
        V input_mean = input.colwise().mean();
        input_centered = input.rowwise() - input_mean;

        V input_var = input_centered.array().square().colwise().mean();
        std = (input_var.array() + eps).sqrt();
'''))
ref('bn-grad','C10',fn(K,'void deepworks::CPUBatchNorm1DParamGrad','''void deepworks::CPUBatchNorm1DParamGrad(ConstMatrix input_centered, ConstVector std, ConstMatrix grad_output,
                                        Vector gamma_grad, Vector beta_grad) {
    beta_grad = grad_output.colwise().sum();
    gamma_grad = (input_centered.array() * grad_output.array()).colwise().sum() / std.array();
}'''))
ref('loss-loop','C15',fn(K,'float deepworks::CPUNLLLoss','''float deepworks::CPUNLLLoss(Matrix predictions, ConstVector target) {
    int batch_size = predictions.rows();

    float loss = 0.f;
    for (int i = 0; i < batch_size; ++i) {
        loss -= predictions(i, static_cast<int>(target(0, i)));
    }
    return loss / static_cast<float>(batch_size);
}'''))
ref('lossgrad-loop','C15',sub(L,'''    Matrix grad_output_mat(grad_output.data(), batch_size, n_classes);

    Vector grad_output_1d(grad_output_mat.data(), grad_output_mat.size());
    ConstVector prob_mat_1d(prob_mat.data(), prob_mat.size());

    std::vector<int> slice = MatchTargetTo1dMatrix(target_vec, batch_size, n_classes);

    grad_output_1d(0, slice).array() = -1 / prob_mat_1d(0, slice).array();

    grad_output_1d /= static_cast<float>(batch_size);''','''    for (int i = 0; i < batch_size; ++i) {
        const int label = static_cast<int>(target_vec(i));
        grad_output.data()[i * n_classes + label] = -1.f / prob_mat(i, label) / batch_size;
    }'''))
ref('loss-realloc','C15',sub(L,'''    if (log_predictions.shape() != shape) {
        log_predictions.allocate(shape);
    }
''','''    log_predictions.allocate(shape);
'''))
ref('metric-argmax','C16',fn(ME,'float deepworks::metric::accuracy(','''static int argmax(const float* row, int n) {
    int best = 0;
    for (int j = 1; j < n; ++j) {
        if (row[j] > row[best]) {
            best = j;
        }
    }
    return best;
}

float deepworks::metric::accuracy(const deepworks::Tensor& y_pred,
                                  const deepworks::Tensor& y_true) {
    const auto& shape = y_pred.shape();
    DeepWorks_Assert(shape.size() == 2);
    const int rows = shape[0];
    const int cols = shape[1];
    DeepWorks_Assert(y_true.total() == rows);

    float hits = 0;
    for (int i = 0; i < rows; i++) {
        if (argmax(y_pred.data() + i * cols, cols) == y_true.data()[i]) {
            hits += 1;
        }
    }
    return hits / rows;
}'''))
ref('metric-int','C16',sub(ME,'''    float acc = 0;
    ConstMatrix::Index pred_col, label_col;''','''    int acc = 0;
    ConstMatrix::Index pred_col, label_col;'''),sub(ME,'''        acc += pred_col == label_col;
    }
    return acc / rows;''','''        if (pred_col == label_col) ++acc;
    }
    return static_cast<float>(acc) / rows;'''))
ref('metric-maxel','C16',sub(ME,'''        y_pred_mat.row(i).maxCoeff(&pred_col);
        y_true_mat.row(i).maxCoeff(&label_col);
        acc += pred_col == label_col;''','''        const float* p = y_pred.data() + i * cols;
        const float* t = y_true.data() + i * cols;
        acc += std::max_element(p, p + cols) - p == std::max_element(t, t + cols) - t;'''))
ref('sgd-loop','C17',sub(O,'''            Vector      weight_mat(weight.data(), size);
            ConstVector grad_mat(grad.data(), size);

            weight_mat.array() -= m_lr * grad_mat.array();''','''            float*       w = weight.data();
            const float* g = grad.data();
            for (size_t i = 0; i < size; ++i) {
                w[i] -= m_lr * g[i];
            }'''))
ref('sgd-continue','C17',fn(O,'void SGD::step()','''void SGD::step() {
    for (auto& item : m_params) {
        auto& param = item.second;
        if (!param.is_trainable()) {
            continue;
        }
        auto       weight = param.data();
        const auto grad   = param.grad();
        DeepWorks_Assert(grad.shape() == weight.shape());

        Vector      w(weight.data(), weight.total());
        ConstVector g(grad.data(), grad.total());
        w -= m_lr * g;
    }
}'''))
ref('momentum-loop','C17',sub(O,'''            velocity_mat.array() = m_gamma * velocity_mat.array() + m_lr * grad_mat.array();

            weight_mat.array() -= velocity_mat.array();''','''            for (size_t i = 0; i < size; ++i) {
                velocity_mat(i) = m_gamma * velocity_mat(i) + m_lr * grad_mat(i);
                weight_mat(i) -= velocity_mat(i);
            }'''))
ref('momentum-scale','C17',sub(O,'''            velocity_mat.array() = m_gamma * velocity_mat.array() + m_lr * grad_mat.array();

            weight_mat.array() -= velocity_mat.array();''','''            velocity_mat *= m_gamma;
            velocity_mat += m_lr * grad_mat;
            weight_mat -= velocity_mat;'''))
ref('adam-hoist','C17',sub(O,'''            auto mean_hat     = moving_mean_mat.array()     / (1 - std::pow(m_betas[0], m_num_iterations));
            auto variance_hat = moving_variance_mat.array() / (1 - std::pow(m_betas[1], m_num_iterations));
''','''            auto mean_hat     = moving_mean_mat.array()     / bias1;
            auto variance_hat = moving_variance_mat.array() / bias2;
'''),sub(O,'''    m_num_iterations++;
''','''    ++m_num_iterations;
    const auto bias1 = 1 - std::pow(m_betas[0], m_num_iterations);
    const auto bias2 = 1 - std::pow(m_betas[1], m_num_iterations);
'''))
ref('adam-loop','C17',sub(O,'''            moving_mean_mat.array()     = m_betas[0] * moving_mean_mat.array()
                                          + (1 - m_betas[0]) * grad_mat.array();

            moving_variance_mat.array() = m_betas[1] * moving_variance_mat.array()
                                          + (1 - m_betas[1]) * grad_mat.cwiseAbs2().array();

            auto mean_hat     = moving_mean_mat.array()     / (1 - std::pow(m_betas[0], m_num_iterations));
            auto variance_hat = moving_variance_mat.array() / (1 - std::pow(m_betas[1], m_num_iterations));

            weight_mat.array() -= m_lr * mean_hat.array() / (variance_hat.cwiseSqrt().array() + m_epsilon).array();''','''            const double c1 = 1 - std::pow(m_betas[0], m_num_iterations);
            const double c2 = 1 - std::pow(m_betas[1], m_num_iterations);
            for (size_t i = 0; i < size; ++i) {
                float& m = moving_mean_mat(i);
                float& v = moving_variance_mat(i);
                const float g = grad_mat(i);
                m = m_betas[0] * m + (1 - m_betas[0]) * g;
                v = m_betas[1] * v + (1 - m_betas[1]) * g * g;
                weight_mat(i) -= m_lr * (m / c1) / (std::sqrt(v / c2) + m_epsilon);
            }'''))
ref('opt-helper','C17',sub(O,'''SGD::SGD(ParamMap& params''','''static size_t checkedSize(const Tensor& grad, const Tensor& weight) {
    DeepWorks_Assert(grad.shape() == weight.shape());
    return grad.total();
}

SGD::SGD(ParamMap& params'''),sub(O,'''            DeepWorks_Assert(grad.shape() == weight.shape());

            const size_t size = grad.total();

            Vector      weight_mat(''','''            const size_t size = checkedSize(grad, weight);

            Vector      weight_mat('''))
ref('dl-set','C18',sub(D,'std::unordered_set<int> unique;','std::set<int> unique;'),sub(D,'#include <unordered_set>','#include <set>'))
ref('dl-inline','C18',sub(D,'''    std::vector<int> indices(num);
    std::iota(indices.begin(), indices.end(), start);
    return indices;''','''    std::vector<int> indices;
    indices.reserve(num);
    for (int i = 0; i < num; ++i) {
        indices.push_back(start + i);
    }
    return indices;'''))
ref('dl-shape','C18',fn(D,'static deepworks::Shape makeShape','''static deepworks::Shape makeShape(int batch_size, const deepworks::Shape& shape) {
    deepworks::Shape new_shape{batch_size};
    new_shape.insert(new_shape.end(), shape.begin(), shape.end());
    return new_shape;
}'''))
ref('dl-branch','C18',sub(D,'''    auto indices = m_shuffle ? randomIndices(m_batch_size, m_dataset->size() - 1)
                             : seqIndices(m_batch_size, m_pos);''','''    std::vector<int> indices;
    if (m_shuffle) {
        indices = randomIndices(m_batch_size, m_dataset->size() - 1);
    } else {
        indices = seqIndices(m_batch_size, m_pos);
    }'''))
ref('dl-ptr','C18',sub(D,'''    for (int i = 0; i < m_batch_size; ++i) {
        deepworks::Tensor X_slice(m_dataset->shape().first , X.data() + i * X_batch_stride);
        deepworks::Tensor y_slice(m_dataset->shape().second, y.data() + i * y_batch_stride);
        m_dataset->pull(indices[i], X_slice, y_slice);
    }''','''    const auto shapes = m_dataset->shape();
    float* X_ptr = X.data();
    float* y_ptr = y.data();
    for (int idx : indices) {
        deepworks::Tensor X_slice(shapes.first , X_ptr);
        deepworks::Tensor y_slice(shapes.second, y_ptr);
        m_dataset->pull(idx, X_slice, y_slice);
        X_ptr += X_batch_stride;
        y_ptr += y_batch_stride;
    }'''))
ref('t-strides','C01 C02',fn(T,'dw::Strides calculateStrides','''dw::Strides calculateStrides(const dw::Shape& shape) {
    dw::Strides strides(shape.size());
    size_t stride = 1;
    for (int i = static_cast<int>(shape.size()) - 1; i >= 0; --i) {
        strides[i] = stride;
        stride *= shape[i];
    }
    return strides;
}'''))
ref('t-total','C01 C02',sub(T,'''    m_descriptor->total   = std::accumulate(shape.begin(),
                                            shape.end(),
                                            1,
                                            std::multiplies<>());''','''    size_t total = 1;
    for (int dim : shape) {
        total *= dim;
    }
    m_descriptor->total = total;'''))
ref('t-helper','C01 C02',sub(T,'dw::Tensor::Tensor() :','''static bool isDynamic(const dw::Shape& shape) {
    for (auto dim : shape) {
        if (dim < 0) {
            return true;
        }
    }
    return false;
}

dw::Tensor::Tensor() :'''),sub(T,'''    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
                                         [](int dim) { return dim < 0; });
    DeepWorks_Assert(!have_negative_dim && "Cannot allocate''','''    DeepWorks_Assert(!isDynamic(shape) && "Cannot allocate'''),sub(T,'''    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
                                         [](int dim) { return dim < 0; });
    DeepWorks_Assert(!have_negative_dim && "Cannot reshape''','''    DeepWorks_Assert(!isDynamic(shape) && "Cannot reshape'''))
ref('t-shared','C01 C02',sub(T,'''    m_descriptor->memory.reset(new Type[m_descriptor->total],
                               [](float* p){ delete[] p; });''','''    m_descriptor->memory = std::shared_ptr<Type>(new Type[m_descriptor->total],
                                                std::default_delete<Type[]>());'''))
ref('t-copy','C02 C12',sub(T,'std::copy_n(m_descriptor->data, m_descriptor->total, rhs.m_descriptor->data);','std::copy(data(), data() + total(), rhs.data());'))
ref('t-copyloop','C02 C12',sub(T,'std::copy_n(m_descriptor->data, m_descriptor->total, rhs.m_descriptor->data);','''for (size_t i = 0; i < m_descriptor->total; ++i) {
        rhs.m_descriptor->data[i] = m_descriptor->data[i];
    }'''))
ref('t-memcpy','C02 C12',sub(T,'std::copy_n(m_descriptor->data, m_descriptor->total, rhs.m_descriptor->data);','std::memcpy(rhs.m_descriptor->data, m_descriptor->data, m_descriptor->total * sizeof(Type));'),sub(T,'#include <numeric>','#include <numeric>\n#include <cstring>'))
ref('i-loops','C02 C06',fn(I,'void deepworks::initializer::zeros','''void deepworks::initializer::zeros(deepworks::Tensor& tensor) {
    constant(tensor, 0.f);
}'''),fn(I,'void deepworks::initializer::constant','''void deepworks::initializer::constant(deepworks::Tensor& tensor, float value) {
    float* data = tensor.data();
    for (size_t i = 0; i < tensor.total(); ++i) {
        data[i] = value;
    }
}'''),fn(I,'void deepworks::initializer::uniform','''void deepworks::initializer::uniform(deepworks::Tensor& tensor, float lower, float upper) {
    auto& gen = deepworks::utils::generator();
    std::uniform_real_distribution<float> dist(lower, upper);
    for (size_t i = 0; i < tensor.total(); ++i) {
        tensor.data()[i] = dist(gen);
    }
}'''))
ref('i-shared','C02',sub(I,'''    std::generate_n(tensor.data(), tensor.total(), [&dist, &gen]() { return dist(gen); });
}

void deepworks::initializer::uniform''','''    for (float* p = tensor.data(); p != tensor.data() + tensor.total(); ++p) {
        *p = dist(gen);
    }
}

void deepworks::initializer::uniform'''))
ref('n-outsize','C19 C20',sub(N,'dw::Linear::Linear(int units','''static int windowOut(int in, int kernel, int padding, int stride) {
    return (in + 2 * padding - kernel) / stride + 1;
}

dw::Linear::Linear(int units'''),sub(N,'''    int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
    int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
    return {in_shape[0], out_channels, h_out, w_out};''','''    const int h_out = windowOut(in_shape[Input::H], kernel[Kernel::KH], padding[Kernel::KH], stride[Kernel::KH]);
    const int w_out = windowOut(in_shape[Input::W], kernel[Kernel::KW], padding[Kernel::KW], stride[Kernel::KW]);
    dw::Shape result = in_shape;
    result[Input::C] = out_channels;
    result[Input::H] = h_out;
    result[Input::W] = w_out;
    return result;'''))
ref('n-ifchain','C20',sub(N,'''    auto f_it = supported_layers.find(type);
    if (f_it != supported_layers.end()) {
        return f_it->second();
    }

    DeepWorks_Throw()''','''    if (supported_layers.count(type) != 0) {
        return supported_layers.at(type)();
    }

    DeepWorks_Throw()'''))
ref('n-direct','C20',sub(N,'''        return make_typed_layer<dw::Linear, int>({"units"})(attrs, name)(inputs);''','''        dw::Linear layer(attrs.at("units").get<int>(), name);
        return layer(inputs);'''))
ref('n-linacc','C19 C20',sub(N,'''    auto second_shape = std::accumulate(in_shape.begin() + 1,
            in_shape.end(), 1, std::multiplies<int>());''','''    int second_shape = 1;
    for (auto it = std::next(in_shape.begin()); it != in_shape.end(); ++it) {
        second_shape *= *it;
    }'''))
ref('l-switch','C20 C03',sub(LD+'cpulayer.cpp','''    // FIXME: Should be the map[string]ptr
    if (info.type() == "ReLU") {''','''    const std::string type = info.type();
    if (type == "ReLU") {'''))
ref('l-attr','C03 C13',('subre',LD+'cpuleakyrelu.cpp',r'm_info\.impl\(\)\.attrs\["alpha"\]\.get<float>\(\)',r'm_info.impl().attrs.at("alpha").get<float>()'))
ref('bn2-helper','C10 C14',sub(LD+'cpubatchnorm2d.cpp','''    if (m_input_centered.shape() != deepworks::Shape{N * H * W, C}) {
        m_input_centered = Tensor({N * H * W, C});
    }
''','''    const int rows = N * H * W;
    const deepworks::Shape centered_shape{rows, C};
    if (m_input_centered.shape() != centered_shape) {
        m_input_centered.allocate(centered_shape);
    }
'''))
ref('bn1-realloc','C10 C13',sub(LD+'cpubatchnorm1d.cpp','''    if (m_input_centered.shape() != input.shape()) {
        m_input_centered = Tensor(in_shape);
    }''','''    m_input_centered = Tensor(in_shape);'''))
IR='src/io/image_reader.cpp'; S='src/serialization.cpp'; M='src/model/model.cpp'; G='src/model/graphbuilder.cpp'; B='src/runtime/cpu/cpubackend.cpp'
ref('ir-ext','C25',fn(IR,'bool IsPngFile','''std::string_view Extension(std::string_view path) {
    auto dot = path.find_last_of(".");
    return dot == std::string_view::npos ? path : path.substr(dot + 1);
}

bool IsPngFile(std::string_view path) {
    return Extension(path) == "png";
}'''),fn(IR,'bool IsJpegFile','''bool IsJpegFile(std::string_view path) {
    const auto ext = Extension(path);
    return ext == "jpg" || ext == "jpeg";
}'''))
ref('ir-rfind','C25',fn(IR,'bool IsPngFile','''bool IsPngFile(std::string_view path) {
    const auto pos = path.rfind('.');
    const auto ext = pos == std::string_view::npos ? path : path.substr(pos + 1);
    return ext == "png";
}'''))
ref('ir-helper','C25',sub(IR,'''void ReadJpegFile(std::string_view path,''','''void PrepareTensor(deepworks::Tensor& tensor, int height, int width, int channels) {
    if (!tensor.empty()) {
        DeepWorks_Assert(height * width * channels == tensor.total());
        return;
    }
    tensor.allocate(deepworks::Shape{height, width, channels});
}

void ReadJpegFile(std::string_view path,'''),('all',IR,'''if (out_tensor.empty()) {
            out_tensor.allocate(deepworks::Shape{height, width, channels});
        } else {
            DeepWorks_Assert(height * width * channels == out_tensor.total());
        }''','''PrepareTensor(out_tensor, height, width, channels);'''))
ref('ir-rowvec','C25',sub(IR,'''        row_pointers = (png_bytep *) malloc(sizeof(png_bytep) * height);
        for (int y = 0; y < height; y++) {
            row_pointers[y] = (png_byte *) malloc(png_get_rowbytes(png_ptr, info_ptr));
        }
        png_read_image(png_ptr, row_pointers);
        // it's works if we have default hwc layout for tensor
        const size_t elements_per_h_channel = width * channels;
        for (int h = 0; h < height; ++h) {
            std::copy_n(row_pointers[h], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
        }
        for (int y = 0; y < height; y++) {
            free(row_pointers[y]);
        }''','''        const size_t row_bytes = png_get_rowbytes(png_ptr, info_ptr);
        row_pointers = (png_bytep *) malloc(sizeof(png_bytep) * height);
        for (int y = 0; y < height; y++) {
            row_pointers[y] = (png_byte *) malloc(row_bytes);
        }
        png_read_image(png_ptr, row_pointers);
        const size_t row_size = static_cast<size_t>(width) * channels;
        for (int h = 0; h < height; ++h) {
            auto* dst = dst_data + h * row_size;
            const png_byte* src = row_pointers[h];
            for (size_t i = 0; i < row_size; ++i) {
                dst[i] = src[i];
            }
            free(row_pointers[h]);
        }'''))
ref('ir-copy','C25',('all',IR,'''std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);''','''std::copy(buffer[0], buffer[0] + elements_per_h_channel, dst_data + h * elements_per_h_channel);'''))
ref('ir-jptr','C25',sub(IR,'''            (void) jpeg_read_scanlines(&cinfo, buffer, 1);
            std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
            ++h;''','''            jpeg_read_scanlines(&cinfo, buffer, 1);
            for (size_t i = 0; i < elements_per_h_channel; ++i) {
                dst_data[h * elements_per_h_channel + i] = buffer[0][i];
            }
            h++;'''))
ref('ir-jrow','C25',sub(IR,'''            (void) jpeg_read_scanlines(&cinfo, buffer, 1);
            std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
            ++h;''','''            (void) jpeg_read_scanlines(&cinfo, buffer, 1);
            std::copy_n(buffer[0], elements_per_h_channel, dst_data);
            dst_data += elements_per_h_channel;'''))
ref('ir-jscan','C25',sub(IR,'''            (void) jpeg_read_scanlines(&cinfo, buffer, 1);
            std::copy_n(buffer[0], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
            ++h;''','''            const size_t row = cinfo.output_scanline;
            (void) jpeg_read_scanlines(&cinfo, buffer, 1);
            std::copy_n(buffer[0], elements_per_h_channel, &dst_data[row * elements_per_h_channel]);'''))
ref('ir-swap','C25',sub(IR,'''    if (IsPngFile(path)) {
        ReadPngFile(path, tensor);
        return;
    }
    if (IsJpegFile(path)) {
        ReadJpegFile(path, tensor);
        return;
    }
    DeepWorks_Assert(false && "image format not supported");''','''    if (IsJpegFile(path)) {
        ReadJpegFile(path, tensor);
    } else if (IsPngFile(path)) {
        ReadPngFile(path, tensor);
    } else {
        DeepWorks_Throw() << "image format not supported: " << path;
    }'''))
ref('ir-open','C25',sub(IR,'''void ReadJpegFile(std::string_view path,''','''FILE* OpenFile(std::string_view path) {
    const std::string name(path);
    FILE* file = fopen(name.c_str(), "rb");
    if (file == nullptr) {
        DeepWorks_Throw() << "can't open file: " << path;
    }
    return file;
}

void ReadJpegFile(std::string_view path,'''),('all',IR,'''FILE *infile = fopen(std::string(path).c_str(), "rb");''','''FILE *infile = OpenFile(path);'''))
ref('ir-sig','C25',sub(IR,'''        size_t sz = fread(header, 1, 8, infile);
        (void)sz;
        if (png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {''','''        const size_t sz = fread(header, 1, sizeof(header), infile);
        if (sz != sizeof(header) || png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, sizeof(header))) {'''))
ref('ir-dims','C25',sub(IR,'''        int width = static_cast<int>(png_get_image_width(png_ptr, info_ptr));
        int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
        int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));

        png_read_update_info(png_ptr, info_ptr);''','''        png_read_update_info(png_ptr, info_ptr);
        const int channels = png_get_channels(png_ptr, info_ptr);
        const int height   = png_get_image_height(png_ptr, info_ptr);
        const int width    = png_get_image_width(png_ptr, info_ptr);'''))
ref('s-open','C22 C23',sub(S,'''enum class SerializationKind''','''static std::ofstream open_output(const std::string& path) {
    std::ofstream file(path, std::ios::out | std::ios::binary);
    if (!file.is_open()) {
        DeepWorks_Throw() << "Failed to open the file: " << path;
    }
    return file;
}

enum class SerializationKind'''),('all',S,'''std::ofstream file(path, std::ios::out | std::ios::binary);
    if (!file.is_open()) {
        DeepWorks_Throw() << "Failed to open the file: " << path;
    }
    dw::''','''auto file = open_output(path);
    dw::'''))
ref('s-tensor','C22',sub(S,'''enum class SerializationKind''','''static void write_tensor(const dw::Tensor& tensor, std::ofstream& file) {
    write_sequence(tensor.shape(), file);
    const size_t bytes = sizeof(dw::Tensor::Type) * tensor.total();
    file.write(reinterpret_cast<const char*>(tensor.data()), bytes);
}

enum class SerializationKind'''),sub(S,'''        write_sequence(tensor.shape(), file);
        file.write(reinterpret_cast<char*>(tensor.data()),
                   tensor.total() * sizeof(dw::Tensor::Type));''','''        write_tensor(tensor, file);'''))
ref('s-iter','C22 C23',sub(S,'''    for (const auto& [name, tensor] : state) {
        write_sequence(name          , file);''','''    for (auto it = state.begin(); it != state.end(); ++it) {
        const auto& name   = it->first;
        const auto& tensor = it->second;
        write_sequence(name          , file);'''))
ref('s-find','C22',sub(S,'''    for (int i = 0; i < size; ++i) {
        auto name = read_sequence<std::string>(file);
        auto it = state.find(name);
        if (it == state.end()) {
            DeepWorks_Throw() << "Failed to find: " << name << " in state dict ";
        }

        auto shape = read_sequence<dw::Shape>(file);
        if (it->second.shape() != shape) {''','''    for (size_t i = 0; i < size; i++) {
        const auto name  = read_sequence<std::string>(file);
        const auto shape = read_sequence<dw::Shape>(file);
        auto it = state.find(name);
        if (it == state.end()) {
            DeepWorks_Throw() << "Failed to find: " << name << " in state dict ";
        }

        if (!(it->second.shape() == shape)) {'''))
ref('s-ref','C22',sub(S,'''        read_bytes(reinterpret_cast<char*>(it->second.data()),
                   it->second.total() * sizeof(dw::Tensor::Type), file);''','''        auto& tensor = it->second;
        auto* bytes = reinterpret_cast<char*>(tensor.data());
        const auto count = sizeof(dw::Tensor::Type) * tensor.total();
        read_bytes(bytes, count, file);'''))
ref('s-count','C22',sub(S,'''        if (it == state.end()) {
            DeepWorks_Throw()''','''        if (state.count(name) == 0) {
            DeepWorks_Throw()'''))
ref('s-at','C22',sub(S,'''        auto it = state.find(name);
        if (it == state.end()) {
            DeepWorks_Throw() << "Failed to find: " << name << " in state dict ";
        }
''','''        if (state.find(name) == state.end()) {
            DeepWorks_Throw() << "Failed to find: " << name << " in state dict ";
        }
        auto& target = state.at(name);
'''),sub(S,'''        if (it->second.shape() != shape) {
            DeepWorks_Throw() << "Shape mismatch for: " << name << "\\n"
                              << "Expected: " << it->second.shape()''','''        if (target.shape() != shape) {
            DeepWorks_Throw() << "Shape mismatch for: " << name << "\\n"
                              << "Expected: " << target.shape()'''),sub(S,'''        read_bytes(reinterpret_cast<char*>(it->second.data()),
                   it->second.total() * sizeof(dw::Tensor::Type), file);''','''        read_bytes(reinterpret_cast<char*>(target.data()),
                   target.total() * sizeof(dw::Tensor::Type), file);'''))
ref('s-kind','C22 C23',sub(S,'''void dw::save_state(const Model::StateDict& state, const std::string& path) {''','''static void write_kind(SerializationKind kind, std::ofstream& file) {
    write_value(static_cast<int>(kind), file);
}

static void check_kind(SerializationKind expected, std::ifstream& file) {
    const int kind = read_value<int>(file);
    if (kind != static_cast<int>(expected)) {
        DeepWorks_Throw() << "File contains something else";
    }
}

void dw::save_state(const Model::StateDict& state, const std::string& path) {'''),('all',S,'write_value(static_cast<int>(SerializationKind::STATE), file);','write_kind(SerializationKind::STATE, file);'),('all',S,'write_value(static_cast<int>(SerializationKind::CONFIG), file);','write_kind(SerializationKind::CONFIG, file);'),
 sub(S,'''    auto kind = static_cast<SerializationKind>(read_value<int>(file));
    if (kind != SerializationKind::STATE) {
        DeepWorks_Throw() << "File doesn't contain state dict";
    }''','''    check_kind(SerializationKind::STATE, file);'''),
 sub(S,'''    auto kind = static_cast<SerializationKind>(read_value<int>(file));
    if (kind != SerializationKind::CONFIG) {
        DeepWorks_Throw() << "File doesn't contain config";
    }''','''    check_kind(SerializationKind::CONFIG, file);'''))
ref('s-seqloop','C22 C23',sub(S,'''    file.write(reinterpret_cast<const char*>(seq.data()),
               seq.size() * sizeof(typename T::value_type));''','''    for (const auto& element : seq) {
        write_value(element, file);
    }'''))
ref('s-seqctor','C22 C23',sub(S,'''    T seq{};
    auto size = read_value<size_t>(file);
    seq.resize(size);
''','''    const auto size = read_value<size_t>(file);
    T seq(size, typename T::value_type{});
'''),)
ref('s-ifattr','C23',fn(S,'void write_attribute(','''void write_attribute(const dw::Attribute& attr, std::ofstream& file) {
    const auto shape = attr.shape();
    const auto type  = attr.type();
    write_value(static_cast<int>(shape), file);
    write_value(static_cast<int>(type), file);
    const bool is_value = shape == dw::AttrShape::VALUE;
    if (!is_value && shape != dw::AttrShape::ARRAY2) {
        DeepWorks_Assert(false && "Unsupported attribute shape");
    }
    if (type == dw::AttrType::INT) {
        if (is_value) write_value(attr.get<int>(), file);
        else          write_sequence(attr.get<std::array<int, 2>>(), file);
    } else if (type == dw::AttrType::FLOAT) {
        if (is_value) write_value(attr.get<float>(), file);
        else          write_sequence(attr.get<std::array<float, 2>>(), file);
    } else {
        DeepWorks_Assert(false && "Unsupported attribute type");
    }
}'''))
ref('s-readattr','C23',fn(S,'dw::Attribute read_attribute(','''template <typename T>
dw::Attribute read_typed(dw::AttrShape shape, std::ifstream& file) {
    if (shape == dw::AttrShape::VALUE) {
        return dw::Attribute(read_value<T>(file));
    }
    if (shape == dw::AttrShape::ARRAY2) {
        return dw::Attribute(read_array<T, 2>(file));
    }
    DeepWorks_Throw() << "Unsupported attribute shape";
}

dw::Attribute read_attribute(std::ifstream& file) {
    const auto shape = static_cast<dw::AttrShape>(read_value<int>(file));
    const auto type  = static_cast<dw::AttrType>(read_value<int>(file));
    if (type == dw::AttrType::INT) {
        return read_typed<int>(shape, file);
    }
    if (type == dw::AttrType::FLOAT) {
        return read_typed<float>(shape, file);
    }
    DeepWorks_Throw() << "Unsupported attribute type";
}'''))
ref('s-op','C23',sub(S,'''void dw::save_cfg(const Model::Config& cfg, const std::string& path) {''','''static void write_op(const dw::Model::Config::OperationInfo& op, std::ofstream& file) {
    write_sequence(op.name, file);
    write_sequence(op.type, file);
    write_sequence(op.in_ids, file);
    write_sequence(op.out_ids, file);
    write_attributes(op.attrs, file);
}

static dw::Model::Config::OperationInfo read_op(std::ifstream& file) {
    auto name    = read_sequence<std::string>(file);
    auto type    = read_sequence<std::string>(file);
    auto in_ids  = read_sequence<std::vector<int>>(file);
    auto out_ids = read_sequence<std::vector<int>>(file);
    auto attrs   = read_attributes(file);
    return {std::move(name), std::move(type), std::move(attrs), std::move(in_ids), std::move(out_ids)};
}

void dw::save_cfg(const Model::Config& cfg, const std::string& path) {'''),
 sub(S,'''        write_sequence(op_info.name   , file);
        write_sequence(op_info.type   , file);
        write_sequence(op_info.in_ids , file);
        write_sequence(op_info.out_ids, file);
        write_attributes(op_info.attrs, file);''','''        write_op(op_info, file);'''),
 sub(S,'''        dw::Model::Config::OperationInfo op_info;
        op_info.name    = read_sequence<std::string>(file);
        op_info.type    = read_sequence<std::string>(file);
        op_info.in_ids  = read_sequence<std::vector<int>>(file);
        op_info.out_ids = read_sequence<std::vector<int>>(file);
        op_info.attrs   = read_attributes(file);
        cfg.sorted_ops.push_back(std::move(op_info));''','''        cfg.sorted_ops.push_back(read_op(file));'''))
ref('s-reserve','C23',sub(S,'''    for (int i = 0; i < num_ops; ++i) {''','''    for (size_t i = 0; i != num_ops; ++i) {'''),sub(S,'''    for (int i = 0; i < map_size; ++i) {''','''    for (auto left = map_size; left > 0; --left) {'''))
ref('s-phidx','C23',sub(S,'''        cfg.ph_map.emplace(id,
                dw::Model::Config::PlaceholderInfo{shape, id});''','''        dw::Model::Config::PlaceholderInfo info;
        info.id    = id;
        info.shape = std::move(shape);
        cfg.ph_map[id] = info;'''))
ref('s-empback','C23',sub(S,'''        dw::Model::Config::OperationInfo op_info;
        op_info.name ''','''        cfg.sorted_ops.emplace_back();
        auto& op_info = cfg.sorted_ops.back();
        op_info.name '''),sub(S,'''        cfg.sorted_ops.push_back(std::move(op_info));
''',''))
ref('m-config','C24 C23',fn(M,'static void createConfig','''static int dataId(TypedGraph& tgraph, ade::NodeHandle nh) {
    return tgraph.metadata(nh).get<Data>().id;
}

static void createConfig(TypedGraph& tgraph, dw::Model::Config& cfg) {
    auto sorted = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
    for (auto nh : sorted) {
        if (tgraph.metadata(nh).get<Type>().t == Type::DATA) {
            const auto& d = tgraph.metadata(nh).get<Data>();
            cfg.ph_map.emplace(d.id, deepworks::Model::Config::PlaceholderInfo{d.ph.shape(), d.id});
        } else {
            const auto& op = tgraph.metadata(nh).get<Op>();
            deepworks::Model::Config::OperationInfo op_info;
            op_info.name    = op.info.impl().name;
            op_info.type    = op.info.impl().type;
            op_info.attrs   = op.info.impl().attrs;
            op_info.in_ids  = op.in_ids;
            op_info.out_ids = op.out_ids;
            cfg.sorted_ops.emplace_back(std::move(op_info));
        }
    }
    const auto& info = tgraph.metadata().get<Info>();
    std::transform(info.in_nhs.begin(), info.in_nhs.end(), std::back_inserter(cfg.input_ids),
                   [&](ade::NodeHandle nh) { return dataId(tgraph, nh); });
    std::transform(info.out_nhs.begin(), info.out_nhs.end(), std::back_inserter(cfg.output_ids),
                   [&](ade::NodeHandle nh) { return dataId(tgraph, nh); });
}'''))
ref('m-names','C24',sub(M,'''        auto it = unique_names.find(op.info.impl().name);
        if (it != unique_names.end()) {
            DeepWorks_Throw() << "Two layers in network have the same name: " << op.info.impl().name;
        }
        unique_names.insert(op.info.impl().name);''','''        const auto& name = op.info.impl().name;
        if (!unique_names.insert(name).second) {
            DeepWorks_Throw() << "Two layers in network have the same name: " << name;
        }'''))
ref('m-count','C24',sub(M,'''    for (auto it : ade::util::indexed(ade::util::filter(sorted, is_data{tgraph}))) {
        auto nh  = ade::util::value(it);
        auto idx = ade::util::index(it);
        tgraph.metadata(nh).get<Data>().id = idx;
    }''','''    int next_id = 0;
    for (auto nh : ade::util::filter(sorted, is_data{tgraph})) {
        tgraph.metadata(nh).get<Data>().id = next_id++;
    }'''))
ref('m-build','C23',sub(M,'''    // NB: Finally collect model inputs/outputs and create model.
    auto get_placeholder = [&](int id) { return id2ph.at(id); };

    dw::Placeholders inputs;
    ade::util::transform(cfg.input_ids, std::back_inserter(inputs), get_placeholder);

    Placeholders outputs;
    ade::util::transform(cfg.output_ids, std::back_inserter(outputs), get_placeholder);
''','''    auto collect = [&](const std::vector<int>& ids) {
        dw::Placeholders phs;
        phs.reserve(ids.size());
        for (int id : ids) {
            phs.push_back(id2ph.at(id));
        }
        return phs;
    };
    auto inputs  = collect(cfg.input_ids);
    auto outputs = collect(cfg.output_ids);
'''))
ref('m-state','C24',sub(M,'''            auto it = m_params.emplace(info.name() + std::string(".") + name, param).first;
            m_state.emplace(it->first, param.data());''','''            const std::string full_name = info.name() + "." + name;
            m_params.emplace(full_name, param);
            m_state.emplace(full_name, param.data());'''))
ref('m-train','C24',sub(M,'''    for (auto& [name, parameter] : params()) {
        parameter.train(mode);
    }''','''    for (auto& it : m_impl->m_params) {
        it.second.train(mode);
    }'''))
ref('g-link','C24',sub(G,'''        for (auto&& it : ade::util::indexed(cimpl.args)) {
            auto ph   = ade::util::value(it);
            auto port = ade::util::index(it);

            auto data_nh = getDataNode(ph);
            // NB: Link data to operation.
            auto eh = m_tgraph.link(data_nh, op_nh);
            m_tgraph.metadata(eh).set(graph::Port{port});
        }''','''        for (size_t port = 0; port < cimpl.args.size(); ++port) {
            auto eh = m_tgraph.link(getDataNode(cimpl.args[port]), op_nh);
            m_tgraph.metadata(eh).set(graph::Port{port});
        }'''))
ref('g-mark','C24',sub(G,'''    using namespace std::placeholders;
    std::for_each(in_handles.begin(), in_handles.end(),
            std::bind(mark_node, _1, graph::Data::Storage::INPUT));
    std::for_each(out_handles.begin(), out_handles.end(),
            std::bind(mark_node, _1, graph::Data::Storage::OUTPUT));''','''    for (auto nh : in_handles)  mark_node(nh, graph::Data::Storage::INPUT);
    for (auto nh : out_handles) mark_node(nh, graph::Data::Storage::OUTPUT);'''))
ref('g-count','C24',sub(G,'''            if (auto it = reached_data.find(&in_ph.impl()); it == reached_data.end()) {
                stack.push(in_ph);
            }''','''            if (reached_data.count(&in_ph.impl()) == 0) {
                stack.push(in_ph);
            }'''))
ref('g-vector','C24',sub(G,'''    std::stack<deepworks::Placeholder> stack;
    for (auto&& out : outs) stack.push(out);''','''    std::vector<deepworks::Placeholder> stack(outs.begin(), outs.end());'''),sub(G,'''        auto data = stack.top();
        stack.pop();''','''        auto data = stack.back();
        stack.pop_back();'''),sub(G,'''                stack.push(in_ph);''','''                stack.push_back(in_ph);'''))
ref('b-collect','C24',sub(B,'''    auto extract = [this](int id) { return m_mem[id]; };

    dwcpu::CPUGraph''','''    auto collect = [this](const auto& ids) {
        std::vector<deepworks::Tensor> tensors;
        tensors.reserve(ids.size());
        for (auto id : ids) {
            tensors.push_back(m_mem[id]);
        }
        return tensors;
    };

    dwcpu::CPUGraph'''),sub(B,'''        std::vector<deepworks::Tensor> inps;
        std::vector<deepworks::Tensor> outs;

        // NB: Get layer inps/outs.
        const auto& op = m_tgraph.metadata(nh).get<graph::Op>();
        std::transform(op.in_ids.begin() , op.in_ids.end() , std::back_inserter(inps),  extract);
        std::transform(op.out_ids.begin(), op.out_ids.end(), std::back_inserter(outs),  extract);
''','''        const auto& op = m_tgraph.metadata(nh).get<graph::Op>();
        auto inps = collect(op.in_ids);
        auto outs = collect(op.out_ids);
'''))
ref('b-if','C24',sub(B,'''                if (d.s == graph::Data::Storage::INTERNAL) {
                    // FIXME: Shape should be already propagated.
                    // Stop using placeholder here, it left on expression step.
                    m_mem[d.id].allocate(d.ph.shape());
                    m_grad[d.id].allocate(d.ph.shape());
                }
''','''                const auto& shape = d.ph.shape();
                if (d.s == graph::Data::Storage::INTERNAL) {
                    m_mem[d.id].allocate(shape);
                    m_grad[d.id].allocate(shape);
                }
'''))
ref('b-rit','C24',sub(B,'''    for (int i = m_ops.size() - 1; i >= 0; --i) {
        auto nh = m_ops[i];
''','''    for (auto it = m_ops.rbegin(); it != m_ops.rend(); ++it) {
        auto nh = *it;
'''))
ref('noop','C03 C05 C08 C10 C15 C17 C18 C01 C19',('subre',K,r'(enum Kernel \{KH, KW\};)',r'\1\n// comment'),('subre',O,r'\Z','\n// c\n'),('subre',T,r'\Z','\n// c\n'))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'refs2.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'refs3.py')).read())

def apply(dst,edits):
    for e in edits:
        p=os.path.join(dst,e[1]); s=open(p).read()
        if e[0]=='sub':
            assert e[2] in s,'pattern missing: '+e[2][:80]; s=s.replace(e[2],e[3],1)
        elif e[0]=='all':
            assert e[2] in s,'pattern missing: '+e[2][:80]; s=s.replace(e[2],e[3])
        elif e[0]=='subre':
            s,n=re.subn(e[2],e[3],s); assert n
        else:
            i=s.find(e[2]); assert i>=0,'fn missing '+e[2]
            j=s.index('{',s.index(')',i))
            # signature may contain braces in default args: none here
            d=0
            for k in range(j,len(s)):
                if s[k]=='{': d+=1
                elif s[k]=='}':
                    d-=1
                    if d==0: break
            s=s[:i]+e[3]+s[k+1:]
        open(p,'w').write(s)

def run(id):
    props,edits=REFS[id]; d='/tmp/refs/'+id
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    src=os.environ.get('REFS_SRC','/repo')
    for x in ('src','include','CMakeLists.txt'):
        q=os.path.join(src,x)
        if os.path.isdir(q): shutil.copytree(q,os.path.join(d,x))
        elif os.path.exists(q): shutil.copy(q,d)
    out=[]
    try: apply(d,edits)
    except AssertionError as e: return id,['EDIT '+str(e)]
    if "--noop" in sys.argv: return id,["prepared"]
    only=os.environ.get('ONLY')
    for p in props:
        if only and p not in only.split(): continue
        t=time.time()
        env=dict(os.environ,DW_REPO=d,DW_OUT=d)
        r=subprocess.run(['python3-vt','/verif/check.py',p,'quick'],env=env,capture_output=True,text=True)
        open(d+'/%s.out'%p,'w').write(r.stdout+r.stderr)
        last=r.stdout.strip().split('\n')[-1] if r.stdout.strip() else r.stderr[-200:]
        nb=[l for l in r.stdout.split('\n') if 'BOUNDED' in l or 'VIOLATION' in l]
        out.append('%s exit=%d %.0fs %s'%(p,r.returncode,time.time()-t,' | '.join(x[:160] for x in nb) or 'proved: '+last[:100]))
    return id,out
if __name__=='__main__':
    ids=[a for a in sys.argv[1:] if a[0]!='-'] or list(REFS)
    if '--list' in sys.argv: print('\n'.join(ids)); sys.exit()
    with ThreadPoolExecutor(int(os.environ.get('J','4'))) as ex:
        for id,out in ex.map(run,ids):
            print('%-18s'%id,'\n                   '.join(out),flush=True)
