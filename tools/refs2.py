"""A second, independent batch of behaviour-preserving edits: helpers extracted, statements
reordered, loops rewritten, with none of the first batch in mind."""

# ---- kernels
ref('2-lin-grad','C05 C13',fn(K,'void deepworks::CPULinearInputGrad','''static void accumulateProduct(const ConstMatrixT& lhs, const ConstMatrixT& rhs, deepworks::Matrix& acc) {
    acc.noalias() += lhs * rhs;
}

void deepworks::CPULinearInputGrad(ConstMatrix dx,
                                   ConstMatrix W,
                                   Matrix grad_input) {
    accumulateProduct(dx, W, grad_input);
}'''),sub(K,'enum Kernel {KH, KW};','enum Kernel {KH, KW};\n\nusing ConstMatrixT = deepworks::ConstMatrix;\n'),
fn(K,'void deepworks::CPULinearWeightGrad','''void deepworks::CPULinearWeightGrad(ConstMatrix input, ConstMatrix dx, Matrix dW) {
    dW.setZero();
    for (Eigen::Index b = 0; b < input.rows(); ++b) {
        dW += dx.row(b).transpose() * input.row(b);
    }
}'''))
ref('2-lin-colwise','C05',fn(K,'void deepworks::CPULinearBiasGrad','''void deepworks::CPULinearBiasGrad(ConstMatrix dx, Vector db) {
    for (int j = 0; j < dx.cols(); ++j) {
        db(j) = dx.col(j).sum();
    }
}'''),fn(K,'void deepworks::CPULinearAddBias','''void deepworks::CPULinearAddBias(ConstMatrix X, ConstVector b, Matrix result) {
    result = X + b.replicate(X.rows(), 1);
}'''))
ref('2-relu-cw','C03',fn(K,'void deepworks::CPUReLUForward','''void deepworks::CPUReLUForward(ConstVector X, Vector result) {
    const auto positive = X.array() > 0.f;
    result = positive.select(X, 0.f);
}'''),fn(K,'void deepworks::CPUReLUInputGrad','''void deepworks::CPUReLUInputGrad(ConstVector input,
                                 ConstVector grad_output,
                                 Vector grad_input) {
    const auto mask = (input.array() > 0.f).cast<float>();
    grad_input.array() += mask * grad_output.array();
}'''))
ref('2-leaky-unary','C03',fn(K,'void deepworks::CPULeakyReLUForward','''void deepworks::CPULeakyReLUForward(ConstVector X, Vector result, float alpha) {
    result = X.unaryExpr([alpha](float x) { return x < 0.f ? x * alpha : x; });
}'''),fn(K,'void deepworks::CPULeakyReLUInputGrad','''void deepworks::CPULeakyReLUInputGrad(ConstVector input, ConstVector grad_output,
                                      Vector grad_input, float alpha) {
    const int n = static_cast<int>(input.size());
    int i = 0;
    while (i < n) {
        const float slope = input(i) < 0.f ? alpha : 1.f;
        grad_input(i) += grad_output(i) * slope;
        ++i;
    }
}'''))
ref('2-elu-helper','C03',fn(K,'void deepworks::CPUELUForward','''static inline float eluValue(float x, float alpha) {
    return x < 0.f ? (std::exp(x) - 1.0f) * alpha : x;
}

static inline float eluSlope(float x, float alpha) {
    if (x < 0.f) {
        return std::exp(x) * alpha;
    }
    return 1.f;
}

void deepworks::CPUELUForward(ConstVector X, Vector result, float alpha) {
    for (int i = 0; i < X.cols(); ++i) {
        result(0, i) = eluValue(X(0, i), alpha);
    }
}'''),fn(K,'void deepworks::CPUELUInputGrad','''void deepworks::CPUELUInputGrad(ConstVector input, ConstVector grad_output, Vector grad_input, float alpha) {
    for (int i = 0; i < input.cols(); ++i) {
        grad_input(0, i) += grad_output(0, i) * eluSlope(input(0, i), alpha);
    }
}'''))
ref('2-elu-exprs','C03',fn(K,'void deepworks::CPUELUForward','''void deepworks::CPUELUForward(ConstVector X, Vector result, float alpha) {
    const auto x        = X.array();
    const auto negative = alpha * (x.exp() - 1.0f);
    result = (x < 0.f).select(negative, x);
}'''))
ref('2-sigmoid-unary','C03',fn(K,'void deepworks::CPUSigmoidForward','''void deepworks::CPUSigmoidForward(ConstVector X, Vector result) {
    auto sigmoid = [](float x) { return 1.f / (1.f + std::exp(-x)); };
    for (int i = 0; i < X.size(); ++i) {
        result.data()[i] = sigmoid(X.data()[i]);
    }
}'''),fn(K,'void deepworks::CPUSigmoidInputGrad','''void deepworks::CPUSigmoidInputGrad(ConstVector output, ConstVector grad_output, Vector grad_input) {
    const auto s     = output.array();
    const auto slope = s * (1.0f - s);
    grad_input.array() += grad_output.array() * slope;
}'''))
ref('2-softmax-tmp','C04',fn(K,'void deepworks::CPUSoftmaxForward','''void deepworks::CPUSoftmaxForward(ConstMatrix X, Matrix result) {
    const Eigen::VectorXf row_max = X.rowwise().maxCoeff();
    const M shifted = X.colwise() - row_max;
    const M exps    = shifted.array().exp();
    const Eigen::VectorXf sums = exps.rowwise().sum();
    for (Eigen::Index i = 0; i < exps.rows(); ++i) {
        result.row(i) = exps.row(i) / sums(i);
    }
}'''),fn(K,'void deepworks::CPUSoftmaxInputGrad','''void deepworks::CPUSoftmaxInputGrad(ConstMatrix output, ConstMatrix grad_output, Matrix grad_input) {
    const M weighted = grad_output.cwiseProduct(output);
    const Eigen::VectorXf k = weighted.rowwise().sum();
    grad_input.array() += output.array() * (grad_output.colwise() - k).array();
}'''))
ref('2-softmax-inplace','C04',fn(K,'void deepworks::CPUSoftmaxForward','''void deepworks::CPUSoftmaxForward(ConstMatrix X, Matrix result) {
    result = (X.colwise() - X.rowwise().maxCoeff()).array().exp();
    Eigen::VectorXf denominators = result.rowwise().sum();
    result = result.array().colwise() / denominators.array();
}'''))
ref('2-conv-lambda','C06 C14',fn(K,'void deepworks::CPUConvolutionalForward','''void deepworks::CPUConvolutionalForward(const Tensor& input,
                                        const Tensor& weights,
                                        const Tensor& bias,
                                        Tensor& output,
                                        Tensor& im2col_buf,
                                        const std::array<int, 2>& kernel,
                                        const std::array<int, 2>& padding,
                                        const std::array<int, 2>& stride) {
    const auto& in_shape  = input.shape();
    const auto& out_shape = output.shape();
    const int c_in  = in_shape[Input::C];
    const int h_in  = in_shape[Input::H];
    const int w_in  = in_shape[Input::W];
    const int c_out = weights.shape()[0];

    const int rows = c_in * kernel[Kernel::KH] * kernel[Kernel::KW];
    const int cols = out_shape[Input::H] * out_shape[Input::W];

    ConstColVector bias_vec{bias.data(), c_out};
    ConstMatrix W{weights.data(), c_out, rows};

    auto process_image = [&](float* src, float* col, float* dst) {
        Tensor src_tensor({1, c_in, h_in, w_in}, src);
        Tensor col_plane({rows, cols}, col);
        im2col(src_tensor, col_plane, kernel, padding, stride);

        ConstMatrix X{col, rows, cols};
        Matrix result{dst, c_out, cols};
        result = (W * X).colwise() + bias_vec;
    };

    #pragma omp parallel for
    for (int b = 0; b < in_shape[Input::N]; ++b) {
        process_image(input.data() + b * (c_in * h_in * w_in),
                      im2col_buf.data() + b * (rows * cols),
                      output.data() + b * (c_out * cols));
    }
}'''))
ref('2-conv-ingrad','C07 C13',fn(K,'void deepworks::CPUConvolutionalInputGrad','''void deepworks::CPUConvolutionalInputGrad(const Tensor& grad_output,
                                         const Tensor& weights,
                                         const Tensor& im2col_buf,
                                         Tensor& grad_input,
                                         const std::array<int, 2>& kernel,
                                         const std::array<int, 2>& padding,
                                         const std::array<int, 2>& stride) {
    const Shape out_shape = grad_output.shape();
    const Shape in_shape  = grad_input.shape();

    const int rows = in_shape[Input::C] * kernel[Kernel::KH] * kernel[Kernel::KW];
    const int cols = out_shape[Input::H] * out_shape[Input::W];
    const size_t out_step = grad_output.strides()[0];
    const size_t in_step  = grad_input.strides()[0];

    ConstMatrix weights_mat{weights.data(), out_shape[Input::C], rows};
    #pragma omp parallel for
    for (int b = 0; b < out_shape[Input::N]; b++) {
        ConstMatrix grad_output_mat{grad_output.data() + b * out_step, out_shape[Input::C], cols};
        Tensor column({rows, cols});
        Matrix{column.data(), rows, cols} = weights_mat.transpose() * grad_output_mat;

        Tensor plane({1, in_shape[Input::C], in_shape[Input::H], in_shape[Input::W]},
                     grad_input.data() + b * in_step);
        col2im(column, plane, kernel, padding, stride);
    }
}'''))
ref('2-conv-bgrad','C07',fn(K,'void deepworks::CPUConvolutionalBiasGrad','''void deepworks::CPUConvolutionalBiasGrad(const Tensor& grad_output, Tensor& grad_bias) {
    const auto& shape = grad_output.shape();
    const int plane = shape[Input::H] * shape[Input::W];
    const float* src = grad_output.data();
    float* dst = grad_bias.data();

    initializer::zeros(grad_bias);
    for (int b = 0; b < shape[Input::N]; ++b) {
        for (int c = 0; c < shape[Input::C]; ++c) {
            for (int k = 0; k < plane; ++k) {
                dst[c] += *src++;
            }
        }
    }
}'''))
ref('2-conv-bgrad-acc','C07',fn(K,'void deepworks::CPUConvolutionalBiasGrad','''void deepworks::CPUConvolutionalBiasGrad(const Tensor& grad_output, Tensor& grad_bias) {
    const auto& shape = grad_output.shape();
    const int batch = shape[Input::N];
    const int c_out = shape[Input::C];
    const int plane = shape[Input::H] * shape[Input::W];
    for (int c = 0; c < c_out; ++c) {
        float sum = 0.f;
        for (int b = 0; b < batch; ++b) {
            const float* src = grad_output.data() + (b * c_out + c) * plane;
            sum = std::accumulate(src, src + plane, sum);
        }
        grad_bias.data()[c] = sum;
    }
}'''),sub(K,'#include <deepworks/initializers.hpp>','#include <numeric>\n#include <deepworks/initializers.hpp>'))
ref('2-conv-wgrad','C07',fn(K,'void deepworks::CPUConvolutionalWeightsGrad','''void deepworks::CPUConvolutionalWeightsGrad(const Tensor& grad_output,
                                            const Tensor& im2col_buf,
                                            Tensor& grad_weights) {
    const auto& w_shape = grad_weights.shape();
    const auto& o_shape = grad_output.shape();
    const int c_out = o_shape[Input::C];
    const int cols  = o_shape[Input::H] * o_shape[Input::W];
    const int rows  = grad_weights.total() / w_shape[0];

    Matrix dW{grad_weights.data(), c_out, rows};
    dW.setZero();

    const float* grad = grad_output.data();
    const float* col  = im2col_buf.data();
    for (int b = o_shape[Input::N]; b > 0; --b) {
        dW.noalias() += ConstMatrix(grad, c_out, cols) * ConstMatrix(col, rows, cols).transpose();
        grad += c_out * cols;
        col  += rows * cols;
    }
}'''))
ref('2-pool-helper','C08',fn(K,'void deepworks::CPUMaxPoolingForward','''static int argmaxColumn(const float* col, int rows, int cols, int j) {
    int best = 0;
    for (int r = 1; r < rows; ++r) {
        if (col[r * cols + j] > col[best * cols + j]) {
            best = r;
        }
    }
    return best;
}

void deepworks::CPUMaxPoolingForward(const Tensor& input,
                                     Tensor& max_indices,
                                     Tensor& im2col_buf,
                                     Tensor& output,
                                     const std::array<int, 2>& kernel,
                                     const std::array<int, 2>& padding,
                                     const std::array<int, 2>& stride) {
    const auto& in  = input.shape();
    const auto& out = output.shape();
    const int planes = in[Input::N] * in[Input::C];
    const int rows = kernel[Kernel::KH] * kernel[Kernel::KW];
    const int cols = out[Input::H] * out[Input::W];
    const std::array<int, 2> dilation{1, 1};
    const float lowest = -std::numeric_limits<float>::infinity();

    for (int i = 0; i < planes; i++) {
        Tensor src_plane({1, 1, in[Input::H], in[Input::W]}, input.data() + i * in[Input::H] * in[Input::W]);
        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, lowest);

        for (int j = 0; j < cols; j++) {
            const int row = argmaxColumn(im2col_buf.data(), rows, cols, j);
            output.data()[i * cols + j] = im2col_buf.data()[row * cols + j];
            max_indices.data()[i * cols + j] = row;
        }
    }
}'''))
ref('2-pool-rowptr','C08',fn(K,'void deepworks::CPUMaxPoolingForward','''void deepworks::CPUMaxPoolingForward(const Tensor& input,
                                     Tensor& max_indices,
                                     Tensor& im2col_buf,
                                     Tensor& output,
                                     const std::array<int, 2>& kernel,
                                     const std::array<int, 2>& padding,
                                     const std::array<int, 2>& stride) {
    int h_in  = input.shape()[Input::H];
    int w_in  = input.shape()[Input::W];
    int rows = kernel[Kernel::KH] * kernel[Kernel::KW];
    int cols = output.shape()[Input::H] * output.shape()[Input::W];
    size_t n_planes = input.shape()[Input::N] * input.shape()[Input::C];

    float* dst     = output.data();
    float* indices = max_indices.data();
    for (size_t i = 0; i < n_planes; ++i) {
        Tensor src_plane({1, 1, h_in, w_in}, input.data() + i * h_in * w_in);
        im2col(src_plane, im2col_buf, kernel, padding, stride, {1, 1}, -std::numeric_limits<float>::infinity());

        ConstMatrix col_mat{im2col_buf.data(), rows, cols};
        for (int j = 0; j < cols; ++j) {
            ConstMatrix::Index max_row = 0;
            *dst++     = col_mat.col(j).maxCoeff(&max_row);
            *indices++ = static_cast<float>(max_row);
        }
    }
}'''))
ref('2-poolgrad-nomat','C08 C13',fn(K,'void deepworks::CPUMaxPoolingInputGrad','''void deepworks::CPUMaxPoolingInputGrad(const Tensor& grad_output,
                                       const Tensor& max_indices,
                                       Tensor& im2col_buf,
                                       Tensor& grad_input,
                                       const std::array<int, 2>& kernel,
                                       const std::array<int, 2>& padding,
                                       const std::array<int, 2>& stride) {
    const auto& in_shape = grad_input.shape();
    const int n_planes = in_shape[Input::N] * in_shape[Input::C];
    const int plane    = in_shape[Input::H] * in_shape[Input::W];
    const int cols     = grad_output.shape()[Input::H] * grad_output.shape()[Input::W];

    for (int i = 0; i < n_planes; i++) {
        const float* grad    = grad_output.data() + i * cols;
        const float* indices = max_indices.data() + i * cols;

        initializer::zeros(im2col_buf);
        float* column = im2col_buf.data();
        for (int j = 0; j < cols; j++) {
            column[static_cast<int>(indices[j]) * cols + j] = grad[j];
        }

        Tensor grad_plane({1, 1, in_shape[Input::H], in_shape[Input::W]}, grad_input.data() + i * plane);
        col2im(im2col_buf, grad_plane, kernel, padding, stride);
    }
}'''))
ref('2-log','C15',fn(K,'void deepworks::CPULog','''void deepworks::CPULog(ConstMatrix X, Matrix LogX) {
    for (int i = 0; i < X.rows(); ++i) {
        for (int j = 0; j < X.cols(); ++j) {
            LogX(i, j) = std::log(X(i, j));
        }
    }
}'''),fn(K,'std::vector<int> deepworks::MatchTargetTo1dMatrix','''std::vector<int> deepworks::MatchTargetTo1dMatrix(ConstVector target, int batch_size, int n_classes) {
    std::vector<int> slice;
    slice.reserve(batch_size);
    int row_start = 0;
    for (int i = 0; i < batch_size; ++i, row_start += n_classes) {
        slice.push_back(row_start + static_cast<int>(target(i)));
    }
    return slice;
}'''))
ref('2-nll-acc','C15',fn(K,'float deepworks::CPUNLLLoss','''float deepworks::CPUNLLLoss(Matrix predictions, ConstVector target) {
    const int batch_size = predictions.rows();
    float sum = 0.f;
    for (int i = 0; i < batch_size; ++i) {
        sum += predictions(i, static_cast<int>(target(0, i)));
    }
    return -sum / batch_size;
}'''))
ref('2-bn-fwd','C10',fn(K,'void deepworks::CPUBatchNorm1DForward','''void deepworks::CPUBatchNorm1DForward(ConstMatrix input, Matrix output,
                                      Matrix input_centered, Vector std,
                                      Vector running_mean, Vector running_var,
                                      bool is_training, float eps, float alpha,
                                      ConstVector gamma, ConstVector beta) {

    if (!is_training) {
        input_centered = input.rowwise() - running_mean;
        std = (running_var.array() + eps).sqrt();
    } else {
        const float beta_alpha = 1 - alpha;
        V mean = input.colwise().mean();
        input_centered = input.rowwise() - mean;

        V var = input_centered.array().square().colwise().mean();
        std = (var.array() + eps).sqrt();

        running_mean = alpha * running_mean + beta_alpha * mean;
        running_var  = alpha * running_var  + beta_alpha * var;
    }

    const V scale = gamma.array() / std.array();
    for (int i = 0; i < input.rows(); ++i) {
        output.row(i) = input_centered.row(i).cwiseProduct(scale) + beta;
    }
}'''))
ref('2-bn-param','C11',fn(K,'void deepworks::CPUBatchNorm1DParamGrad','''void deepworks::CPUBatchNorm1DParamGrad(ConstMatrix input_centered, ConstVector std, ConstMatrix grad_output,
                                        Vector gamma_grad, Vector beta_grad) {
    const int features = static_cast<int>(grad_output.cols());
    for (int j = 0; j < features; ++j) {
        const auto g = grad_output.col(j);
        gamma_grad(j) = input_centered.col(j).dot(g) / std(j);
        beta_grad(j)  = g.sum();
    }
}'''))
ref('2-bn-ingrad','C11 C13',fn(K,'void deepworks::CPUBatchNorm1DInputGrad','''void deepworks::CPUBatchNorm1DInputGrad(ConstMatrix input_centered, ConstVector std,
                                        ConstMatrix grad_output, Matrix grad_input,
                                        ConstVector gamma) {
    const float n = static_cast<float>(input_centered.rows());

    const M grad_norm = grad_output.array().rowwise() * gamma.array();
    const V grad_std  = -((input_centered.array() * grad_norm.array()).rowwise() / std.array().square()).colwise().sum();
    const V grad_var  = grad_std.array() / (2.0f * std.array());
    const M grad_centered = (grad_norm.array().rowwise() / std.array())
                          + (input_centered.array().rowwise() * grad_var.array()) * (2.0f / n);
    const V grad_mu   = grad_centered.colwise().sum() / n;

    grad_input += grad_centered.rowwise() - grad_mu;
}'''))
ref('2-drop-cw','C12',fn(K,'void deepworks::CPUDropoutForward','''void deepworks::CPUDropoutForward(const Tensor& input, Tensor& mask, Tensor& output, float p) {
    initializer::uniform(mask);
    const int size = static_cast<int>(input.total());
    ConstVector in_vec(input.data(), size);
    ConstVector m_vec(mask.data(), size);
    Vector      result(output.data(), size);

    const float scale = 1 / (1 - p);
    result = (m_vec.array() >= p).select(in_vec.array() * scale, 0.f);
}'''),fn(K,'void deepworks::CPUDropoutInputGrad','''void deepworks::CPUDropoutInputGrad(const Tensor& mask,
                                    const Tensor& grad_output,
                                    Tensor& grad_input,
                                    float p) {
    const float* m  = mask.data();
    const float* go = grad_output.data();
    float*       gi = grad_input.data();
    for (size_t i = 0, n = grad_input.total(); i < n; ++i) {
        if (m[i] < p) {
            continue;
        }
        gi[i] += go[i] / (1 - p);
    }
}'''))
ref('2-gap-acc','C09',fn(K,'void deepworks::CPUGlobalAvgPoolingForward','''void deepworks::CPUGlobalAvgPoolingForward(const Tensor& input, Tensor& output) {
    const auto& shape = input.shape();
    const int plane_size = shape[Input::H] * shape[Input::W];
    const float* src = input.data();
    float* dst = output.data();
    const float* const end = dst + output.total();
    while (dst != end) {
        *dst++ = std::accumulate(src, src + plane_size, 0.f) / plane_size;
        src += plane_size;
    }
}'''),sub(K,'#include <deepworks/initializers.hpp>','#include <numeric>\n#include <deepworks/initializers.hpp>'))
ref('2-gap-mat','C09',fn(K,'void deepworks::CPUGlobalAvgPoolingInputGrad','''void deepworks::CPUGlobalAvgPoolingInputGrad(const Tensor& grad_output, Tensor& grad_input) {
    const auto& shape = grad_input.shape();
    const int planes     = shape[Input::N] * shape[Input::C];
    const int plane_size = shape[Input::H] * shape[Input::W];

    Matrix grad_mat(grad_input.data(), planes, plane_size);
    ConstColVector out_vec(grad_output.data(), planes);
    grad_mat.colwise() += out_vec / plane_size;
}'''))
ref('2-im2col-split','C06 C08',fn(K,'void deepworks::im2col(const Tensor& image','''static float* copyRow(const float* src_row, float* dst, int w, int w_out,
                      int first_col, int stride_w, float fill_value) {
    for (int out_col = 0; out_col < w_out; ++out_col) {
        const int col = first_col + out_col * stride_w;
        const bool inside = 0 <= col && col < w;
        *dst++ = inside ? src_row[col] : fill_value;
    }
    return dst;
}

void deepworks::im2col(const Tensor& image,
                       Tensor& im2col_buf,
                       const std::array<int, 2>& kernel,
                       const std::array<int, 2>& padding,
                       const std::array<int, 2>& stride,
                       const std::array<int, 2>& dilation,
                       float fill_value) {
    const auto& image_shape = image.shape();
    const int ch = image_shape[Input::C];
    const int h  = image_shape[Input::H];
    const int w  = image_shape[Input::W];

    const int extent_h = dilation[0] * (kernel[0] - 1) + 1;
    const int extent_w = dilation[1] * (kernel[1] - 1) + 1;
    const int h_out = (h + 2 * padding[0] - extent_h) / stride[0] + 1;
    const int w_out = (w + 2 * padding[1] - extent_w) / stride[1] + 1;

    float* dst = im2col_buf.data();
    for (int c = 0; c < ch; ++c) {
        const float* src = image.data() + c * h * w;
        for (int k_h = 0; k_h < kernel[0]; k_h++) {
            for (int k_w = 0; k_w < kernel[1]; k_w++) {
                for (int out_r = 0; out_r < h_out; ++out_r) {
                    const int row = k_h * dilation[0] - padding[0] + out_r * stride[0];
                    if (row < 0 || row >= h) {
                        std::fill_n(dst, w_out, fill_value);
                        dst += w_out;
                        continue;
                    }
                    dst = copyRow(src + row * w, dst, w, w_out,
                                  k_w * dilation[1] - padding[1], stride[1], fill_value);
                }
            }
        }
    }
}'''))
ref('2-col2im-split','C07 C08',fn(K,'void deepworks::col2im(const Tensor& im2col_buf','''void deepworks::col2im(const Tensor& im2col_buf,
                       Tensor& image,
                       const std::array<int, 2>& kernel,
                       const std::array<int, 2>& padding,
                       const std::array<int, 2>& stride,
                       const std::array<int, 2>& dilation) {
    const auto& shape = image.shape();
    const int ch   = shape[Input::C];
    const int h_in = shape[Input::H];
    const int w_in = shape[Input::W];

    auto outputSize = [&](int in, int axis) {
        return (in + 2 * padding[axis] - (dilation[axis] * (kernel[axis] - 1) + 1)) / stride[axis] + 1;
    };
    const int h_out = outputSize(h_in, Kernel::KH);
    const int w_out = outputSize(w_in, Kernel::KW);

    for (int c = 0; c < ch; ++c) {
        float* plane = image.data() + c * h_in * w_in;
        for (int k_h = 0; k_h < kernel[Kernel::KH]; ++k_h) {
            for (int k_w = 0; k_w < kernel[Kernel::KW]; ++k_w) {
                const int row_idx = (c * kernel[Kernel::KH] + k_h) * kernel[Kernel::KW] + k_w;
                const float* src = im2col_buf.data() + row_idx * h_out * w_out;
                for (int r = 0; r < h_out; ++r) {
                    const int y = k_h * dilation[0] - padding[0] + r * stride[0];
                    if (y < 0 || y >= h_in) continue;
                    for (int s = 0; s < w_out; ++s) {
                        const int x = k_w * dilation[1] - padding[1] + s * stride[1];
                        if (x < 0 || x >= w_in) continue;
                        plane[y * w_in + x] += src[r * w_out + s];
                    }
                }
            }
        }
    }
}'''))
ref('2-nchw-strides','C21',fn(K,'void deepworks::utils::NCHW2NHWC','''void deepworks::utils::NCHW2NHWC(const Tensor& input, Tensor& output) {
    const auto& shape = input.shape();
    const int batch    = shape[0];
    const int channels = shape[1];
    const int plane    = shape[2] * shape[3];
    for (int n = 0; n < batch; ++n) {
        const float* src = input.data()  + n * channels * plane;
        float*       dst = output.data() + n * channels * plane;
        for (int p = 0; p < plane; ++p) {
            for (int c = 0; c < channels; ++c) {
                *dst++ = src[c * plane + p];
            }
        }
    }
}'''),fn(K,'void deepworks::utils::NHWC2NCHW','''void deepworks::utils::NHWC2NCHW(const Tensor& input, Tensor& output) {
    const auto& shape = output.shape();
    const int channels = shape[1];
    const int plane    = shape[2] * shape[3];
    for (int n = 0; n < shape[0]; ++n) {
        ConstMatrix src(input.data() + n * channels * plane, plane, channels);
        Matrix dst(output.data() + n * channels * plane, channels, plane);
        dst = src.transpose();
    }
}'''))
ref('2-add-transform','C09',fn(K,'void deepworks::CPUAddForward','''void deepworks::CPUAddForward(const Tensor& X1, const Tensor& X2, Tensor& result) {
    std::transform(X1.data(), X1.data() + X1.total(), X2.data(), result.data(), std::plus<float>());
}'''),sub(K,'#include <deepworks/initializers.hpp>','#include <algorithm>\n#include <functional>\n#include <deepworks/initializers.hpp>'))

# ---- layers
ref('2-add-bwd','C09 C13 C14',fn(LD+'cpuadd.cpp','void deepworks::cpu::CPUAdd::backward','''void deepworks::cpu::CPUAdd::backward(const  std::vector<deepworks::Tensor>& inputs,
                                      const  std::vector<deepworks::Tensor>& /* outputs */,
                                      const  std::vector<deepworks::Tensor>& grad_outputs,
                                             std::vector<deepworks::Tensor>& grad_inputs) {
    const float* go = grad_outputs.at(0).data();
    const int total = static_cast<int>(grad_outputs.at(0).total());
    for (auto& grad_input : grad_inputs) {
        float* gi = grad_input.data();
        for (int i = 0; i < total; ++i) {
            gi[i] += go[i];
        }
    }
}'''))
ref('2-add-bwd-helper','C09',fn(LD+'cpuadd.cpp','void deepworks::cpu::CPUAdd::backward','''static void accumulate(const deepworks::Tensor& from, deepworks::Tensor& to) {
    deepworks::ConstVector src(from.data(), static_cast<int>(from.total()));
    deepworks::Vector      dst(to.data(),   static_cast<int>(to.total()));
    dst += src;
}

void deepworks::cpu::CPUAdd::backward(const  std::vector<deepworks::Tensor>& /* inputs */,
                                      const  std::vector<deepworks::Tensor>& /* outputs */,
                                      const  std::vector<deepworks::Tensor>& grad_outputs,
                                             std::vector<deepworks::Tensor>& grad_inputs) {
    accumulate(grad_outputs.at(0), grad_inputs.at(0));
    accumulate(grad_outputs.at(0), grad_inputs.at(1));
}'''))
ref('2-lin-map','C05',sub(LD+'cpulinear.cpp','''void deepworks::cpu::CPULinear::forward(''','''static int flattenedFeatures(const deepworks::Shape& shape) {
    int features = 1;
    for (auto it = shape.begin() + 1; it != shape.end(); ++it) {
        features *= *it;
    }
    return features;
}

static deepworks::ConstMatrix asMatrix(const deepworks::Tensor& t) {
    return deepworks::ConstMatrix(t.data(), t.shape()[0], flattenedFeatures(t.shape()));
}

void deepworks::cpu::CPULinear::forward('''),
sub(LD+'cpulinear.cpp','''    const auto& w_grad_shape      = m_gradW.shape();
    const auto& b_grad_shape      = m_gradb.shape();
    const auto& grad_output       = grad_outputs.front();
    const auto& grad_output_shape = grad_output.shape();
    const auto& input             = inputs.front();
    const auto& input_shape       = input.shape();

    auto second_shape = std::accumulate(input_shape.begin() + 1, input_shape.end(), 1, std::multiplies<int>());

    deepworks::CPULinearWeightGrad({input.data(), input_shape[0], second_shape},
                                   {grad_output.data(), grad_output_shape[0], grad_output_shape[1]},
                                   {m_gradW.data(), w_grad_shape[0], w_grad_shape[1]});

    deepworks::CPULinearBiasGrad({grad_output.data(), grad_output_shape[0], grad_output_shape[1]},
                                 {m_gradb.data(), b_grad_shape[0]});''','''    const auto dx = asMatrix(grad_outputs.front());
    deepworks::CPULinearBiasGrad(dx, {m_gradb.data(), m_gradb.shape()[0]});
    deepworks::CPULinearWeightGrad(asMatrix(inputs.front()), dx,
                                   {m_gradW.data(), m_gradW.shape()[0], m_gradW.shape()[1]});'''),
sub(LD+'cpulinear.cpp','''    auto second_shape = std::accumulate(input_shape.begin() + 1, input_shape.end(), 1, std::multiplies<int>());

    deepworks::CPULinearInputGrad(''','''    const int second_shape = flattenedFeatures(input_shape);

    deepworks::CPULinearInputGrad('''))
ref('2-conv-layer','C06 C07',sub(LD+'cpuconvolution.cpp','''    int batch = input.shape()[0];
    int c_in  = input.shape()[1];
    int h_out = output.shape()[2];
    int w_out = output.shape()[3];

    int rows = c_in * kernel[0] * kernel[1];
    int cols = h_out * w_out;

    // FIXME: Move it to init method
    if (im2col_buf.total() != batch * rows * cols) {
        im2col_buf.allocate({batch * rows * cols});
    }
''','''    const int buffer_size = input.shape()[0]                              // batch
                          * input.shape()[1] * kernel[0] * kernel[1]      // rows
                          * output.shape()[2] * output.shape()[3];        // cols
    const bool need_realloc = static_cast<int>(im2col_buf.total()) != buffer_size;
    if (need_realloc) {
        im2col_buf.allocate({buffer_size});
    }
'''))
ref('2-conv-ctor','C07',sub(LD+'cpuconvolution.cpp','''    const auto& grad_output  = grad_outputs.front();
    deepworks::CPUConvolutionalWeightsGrad(grad_output, im2col_buf, grad_weights);
    deepworks::CPUConvolutionalBiasGrad(grad_output, grad_bias);''','''    auto& params = m_info.params();
    deepworks::Tensor dW = params.at("weight").grad();
    deepworks::Tensor db = params.at("bias").grad();
    deepworks::CPUConvolutionalBiasGrad(grad_outputs[0], db);
    deepworks::CPUConvolutionalWeightsGrad(grad_outputs[0], im2col_buf, dW);'''))
ref('2-pool-layer','C08',sub(LD+'cpumaxpooling.cpp','''    // FIXME: Move it to init method
    if (max_indices.shape() != output.shape()) {
        max_indices.allocate(output.shape());
    }

    int h_out = output.shape()[2];
    int w_out = output.shape()[3];

    int rows = kernel[0] * kernel[1];
    int cols = h_out * w_out;

    // FIXME: Move it to init method
    if (im2col_buf.total() != rows * cols) {
        im2col_buf.allocate({rows * cols});
    }
''','''    const auto& out_shape = output.shape();
    const int window = kernel[0] * kernel[1];
    const int plane  = out_shape[2] * out_shape[3];
    ensureShape(im2col_buf, {window * plane});
    ensureShape(max_indices, out_shape);
'''),sub(LD+'cpumaxpooling.cpp','void deepworks::cpu::CPUMaxPooling::forward(','''static void ensureShape(deepworks::Tensor& tensor, const deepworks::Shape& shape) {
    if (tensor.shape() == shape) {
        return;
    }
    tensor.allocate(shape);
}

void deepworks::cpu::CPUMaxPooling::forward('''))
ref('2-elu-layer','C03',sub(LD+'cpuelu.cpp','''    float alpha = m_info.impl().attrs["alpha"].get<float>();

    deepworks::CPUELUForward({input.data(), static_cast<int>(input.total())},
                             {output.data(), static_cast<int>(output.total())}, alpha);''','''    const auto& attrs = m_info.impl().attrs;
    const float alpha = attrs.at("alpha").get<float>();
    const int   total = static_cast<int>(input.total());

    deepworks::ConstVector src(input.data(), total);
    deepworks::Vector      dst(output.data(), total);
    deepworks::CPUELUForward(src, dst, alpha);'''))
ref('2-drop-layer','C12',sub(LD+'cpudropout.cpp','''    if (m_info.params().at("mask").is_trainable()) {
        float p = m_info.impl().attrs["p"].get<float>();
        deepworks::CPUDropoutForward(input, m_mask, output, p);
    } else {
        input.copyTo(output);
    }''','''    const bool training = m_info.params().at("mask").is_trainable();
    if (!training) {
        std::copy(input.data(), input.data() + input.total(), output.data());
        return;
    }
    const auto& attrs = m_info.impl().attrs;
    CPUDropoutForward(input, m_mask, output, attrs.at("p").get<float>());'''),sub(LD+'cpudropout.cpp','#include "runtime/cpu/kernels/kernels.hpp"','#include "runtime/cpu/kernels/kernels.hpp"\n#include <algorithm>'))
ref('2-bn1-layer','C10 C11',sub(LD+'cpubatchnorm1d.cpp','''    if (m_input_centered.shape() != input.shape()) {
        m_input_centered = Tensor(in_shape);
    }
''','''    if (m_input_centered.shape() != in_shape) {
        m_input_centered.allocate(in_shape);
    }
'''),sub(LD+'cpubatchnorm1d.cpp','''    bool is_trainable = gamma_is_trainable && beta_is_trainable;

    DeepWorks_Assert(gamma_is_trainable == beta_is_trainable &&
                     "Gamma and beta should have same trainable mode");
''','''    DeepWorks_Assert(gamma_is_trainable == beta_is_trainable &&
                     "Gamma and beta should have same trainable mode");
    const bool is_trainable = gamma_is_trainable;
'''))
ref('2-bn2-layer','C10 C11',sub(LD+'cpubatchnorm2d.cpp','''    if (nhwc_in.shape() != deepworks::Shape{N, H, W, C}) {
        nhwc_in  = Tensor({N, H, W, C});
        nhwc_out = Tensor({N, H, W, C});
    }

    if (m_input_centered.shape() != deepworks::Shape{N * H * W, C}) {
        m_input_centered = Tensor({N * H * W, C});
    }

    deepworks::utils::NCHW2NHWC(input, nhwc_in);
''','''    const int rows = N * H * W;
    const deepworks::Shape nhwc_shape{N, H, W, C};
    const deepworks::Shape flat_shape{rows, C};

    if (m_input_centered.shape() != flat_shape) {
        m_input_centered = Tensor(flat_shape);
    }
    if (nhwc_in.shape() != nhwc_shape) {
        nhwc_out = Tensor(nhwc_shape);
        nhwc_in  = Tensor(nhwc_shape);
    }

    deepworks::utils::NCHW2NHWC(input, nhwc_in);
'''))
ref('2-create-table','C20 C03',fn(LD+'cpulayer.cpp','deepworks::cpu::ICPULayer::Ptr deepworks::cpu::ICPULayer::create','''template <typename L>
static deepworks::cpu::ICPULayer::Ptr make(deepworks::LayerInfo&& info) {
    return std::make_shared<L>(std::move(info));
}

deepworks::cpu::ICPULayer::Ptr deepworks::cpu::ICPULayer::create(deepworks::LayerInfo info) {
    const std::string type = info.type();
    if (type == "Add")              return make<deepworks::cpu::CPUAdd>(std::move(info));
    if (type == "BatchNorm1D")      return make<deepworks::cpu::CPUBatchNorm1D>(std::move(info));
    if (type == "BatchNorm2D")      return make<deepworks::cpu::CPUBatchNorm2D>(std::move(info));
    if (type == "Convolution")      return make<deepworks::cpu::CPUConvolution>(std::move(info));
    if (type == "Dropout")          return make<deepworks::cpu::CPUDropout>(std::move(info));
    if (type == "ELU")              return make<deepworks::cpu::CPUELU>(std::move(info));
    if (type == "GlobalAvgPooling") return make<deepworks::cpu::CPUGlobalAvgPooling>(std::move(info));
    if (type == "LeakyReLU")        return make<deepworks::cpu::LeakyReLU>(std::move(info));
    if (type == "Linear")           return make<deepworks::cpu::CPULinear>(std::move(info));
    if (type == "MaxPooling")       return make<deepworks::cpu::CPUMaxPooling>(std::move(info));
    if (type == "ReLU")             return make<deepworks::cpu::CPUReLU>(std::move(info));
    if (type == "Sigmoid")          return make<deepworks::cpu::Sigmoid>(std::move(info));
    if (type == "Softmax")          return make<deepworks::cpu::CPUSoftmax>(std::move(info));

    DeepWorks_Assert(false && "Unsupported layer type in CPUBackend");
    return nullptr;
}'''))
ref('2-create-map','C20',fn(LD+'cpulayer.cpp','deepworks::cpu::ICPULayer::Ptr deepworks::cpu::ICPULayer::create','''deepworks::cpu::ICPULayer::Ptr deepworks::cpu::ICPULayer::create(deepworks::LayerInfo info) {
    using Factory = std::function<Ptr(LayerInfo&&)>;
    static const std::unordered_map<std::string, Factory> factories = {
        {"ReLU",             [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUReLU>(std::move(i)); }},
        {"Linear",           [](LayerInfo&& i) -> Ptr { return std::make_shared<CPULinear>(std::move(i)); }},
        {"Softmax",          [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUSoftmax>(std::move(i)); }},
        {"BatchNorm1D",      [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUBatchNorm1D>(std::move(i)); }},
        {"BatchNorm2D",      [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUBatchNorm2D>(std::move(i)); }},
        {"ELU",              [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUELU>(std::move(i)); }},
        {"LeakyReLU",        [](LayerInfo&& i) -> Ptr { return std::make_shared<LeakyReLU>(std::move(i)); }},
        {"MaxPooling",       [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUMaxPooling>(std::move(i)); }},
        {"Convolution",      [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUConvolution>(std::move(i)); }},
        {"Sigmoid",          [](LayerInfo&& i) -> Ptr { return std::make_shared<Sigmoid>(std::move(i)); }},
        {"Dropout",          [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUDropout>(std::move(i)); }},
        {"GlobalAvgPooling", [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUGlobalAvgPooling>(std::move(i)); }},
        {"Add",              [](LayerInfo&& i) -> Ptr { return std::make_shared<CPUAdd>(std::move(i)); }},
    };
    auto it = factories.find(info.type());
    DeepWorks_Assert(it != factories.end() && "Unsupported layer type in CPUBackend");
    return it->second(std::move(info));
}'''),sub(LD+'cpulayer.cpp','#include "runtime/cpu/layers/cpurelu.hpp"','#include <functional>\n#include <unordered_map>\n#include "runtime/cpu/layers/cpurelu.hpp"'))

# ---- tensor
ref('2-t-strides','C01 C02',fn(T,'dw::Strides calculateStrides','''dw::Strides calculateStrides(const dw::Shape& shape) {
    dw::Strides strides(shape.size());
    size_t stride = 1;
    for (size_t i = shape.size(); i > 0; --i) {
        strides[i - 1] = stride;
        stride *= shape[i - 1];
    }
    return strides;
}'''))
ref('2-t-strides2','C01 C02',fn(T,'dw::Strides calculateStrides','''dw::Strides calculateStrides(const dw::Shape& shape) {
    const int rank = static_cast<int>(shape.size());
    dw::Strides strides(rank, 1);
    for (int i = rank - 2; i >= 0; --i) {
        strides[i] = strides[i + 1] * shape[i + 1];
    }
    return strides;
}'''))
ref('2-t-neg','C01 C02',fn(T,'void dw::Tensor::init','''static void checkDims(const dw::Shape& shape) {
    for (int dim : shape) {
        DeepWorks_Assert(dim >= 0 && "Cannot allocate tensor dynamic shape.");
    }
}

void dw::Tensor::init(const dw::Shape& shape) {
    checkDims(shape);

    size_t total = 1;
    for (int dim : shape) {
        total *= dim;
    }
    m_descriptor->total   = total;
    m_descriptor->strides = calculateStrides(shape);
    m_descriptor->shape   = shape;
}'''))
ref('2-t-none','C01 C02',sub(T,'''    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
                                         [](int dim) { return dim < 0; });
    DeepWorks_Assert(!have_negative_dim && "Cannot reshape tensor to dynamic shape.");
''','''    DeepWorks_Assert(std::all_of(shape.begin(), shape.end(), [](int dim) { return dim >= 0; })
                     && "Cannot reshape tensor to dynamic shape.");
'''),sub(T,'''    auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
    DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");

    m_descriptor->shape = shape;
    m_descriptor->strides = calculateStrides(shape);''','''    int new_total = 1;
    for (auto dim : shape) new_total *= dim;
    DeepWorks_Assert(new_total == total() && "Total sizes must be equal");

    auto& desc = *m_descriptor;
    desc.strides = calculateStrides(shape);
    desc.shape   = shape;'''))
ref('2-t-copyif','C02',fn(T,'void dw::Tensor::copyTo','''void dw::Tensor::copyTo(dw::Tensor& rhs) const {
    const auto& src = *m_descriptor;
    auto&       dst = *rhs.m_descriptor;
    const bool same_layout = src.shape == dst.shape && src.strides == dst.strides;
    DeepWorks_Assert(same_layout && "Copy to another layout isn't supported");
    DeepWorks_Assert(dst.total != 0 && "copyTo: Output tensor should be allocated.");

    std::copy(src.data, src.data + src.total, dst.data);
}'''))
ref('2-t-alloc','C01 C02',fn(T,'void dw::Tensor::allocate','''void dw::Tensor::allocate(const dw::Shape& shape) {
    init(shape);
    auto* buffer = new Type[total()];
    m_descriptor->memory = std::shared_ptr<float>(buffer, std::default_delete<float[]>());
    m_descriptor->data   = buffer;
}'''),sub(T,'#include <numeric>','#include <numeric>\n#include <memory>'))
# ---- initializers
ref('2-i-for','C02 C19',fn(I,'void deepworks::initializer::zeros','''void deepworks::initializer::zeros(deepworks::Tensor& tensor) {
    constant(tensor, 0.f);
}'''),fn(I,'void deepworks::initializer::xavierUniform','''void deepworks::initializer::xavierUniform(deepworks::Tensor& tensor) {
    const auto& shape = tensor.shape();
    DeepWorks_Assert(!shape.empty());

    int inp_features = 0;
    int out_features = 0;
    if (shape.size() == 2) {
        inp_features = shape[0];
        out_features = shape[1];
    } else {
        out_features = shape[0];
        inp_features = tensor.total() / shape[0];
    }
    const auto bound = std::sqrt(6.0) / (inp_features + out_features);
    uniform(tensor, -bound, bound);
}'''))
ref('2-i-gen','C02 C19',fn(I,'void deepworks::initializer::uniform','''static void fillFrom(std::uniform_real_distribution<float>& dist, deepworks::Tensor& tensor) {
    auto& gen = deepworks::utils::generator();
    for (float* p = tensor.data(), *end = p + tensor.total(); p != end; ++p) {
        *p = dist(gen);
    }
}

void deepworks::initializer::uniform(deepworks::Tensor& tensor, float lower, float upper) {
    std::uniform_real_distribution<float> dist{lower, upper};
    fillFrom(dist, tensor);
}'''))
# ---- loss / metrics / optimizers / dataloader
ref('2-loss-check','C15',sub(L,'''namespace deepworks {
namespace loss {
''','''namespace deepworks {
namespace loss {

static void checkTarget(const Tensor& target, int batch_size) {
    const auto& shape = target.shape();
    DeepWorks_Assert(shape.size() == 2);
    DeepWorks_Assert(shape[0] == batch_size);
    DeepWorks_Assert(shape[1] == 1);
}
'''),sub(L,'''    DeepWorks_Assert(target.shape().size() == 2);
    DeepWorks_Assert(target.shape()[0] == batch_size);
    DeepWorks_Assert(target.shape()[1] == 1);
''','''    checkTarget(target, batch_size);
'''),sub(L,'''    DeepWorks_Assert(target.shape().size() == 2);
    DeepWorks_Assert(target.shape()[0] == batch_size);
    DeepWorks_Assert(target.shape()[1] == 1);
''','''    checkTarget(target, batch_size);
'''),sub(L,'''    float loss = CPUNLLLoss(log_prob_mat, target_vec);
    return loss;''','''    return CPUNLLLoss(log_prob_mat, target_vec);'''))
ref('2-loss-bwd','C15',sub(L,'''    Vector grad_output_1d(grad_output_mat.data(), grad_output_mat.size());
    ConstVector prob_mat_1d(prob_mat.data(), prob_mat.size());

    std::vector<int> slice = MatchTargetTo1dMatrix(target_vec, batch_size, n_classes);

    grad_output_1d(0, slice).array() = -1 / prob_mat_1d(0, slice).array();

    grad_output_1d /= static_cast<float>(batch_size);''','''    const float scale = static_cast<float>(batch_size);
    for (int i = 0; i < batch_size; ++i) {
        const int label = static_cast<int>(target_vec[i]);
        grad_output_mat(i, label) = -1 / prob_mat(i, label) / scale;
    }'''))
ref('2-loss-slice','C15',sub(L,'''    std::vector<int> slice = MatchTargetTo1dMatrix(target_vec, batch_size, n_classes);

    grad_output_1d(0, slice).array() = -1 / prob_mat_1d(0, slice).array();

    grad_output_1d /= static_cast<float>(batch_size);''','''    for (int idx : MatchTargetTo1dMatrix(target_vec, batch_size, n_classes)) {
        grad_output_1d(idx) = -1 / (prob_mat_1d(idx) * static_cast<float>(batch_size));
    }'''))
ref('2-metric-fn','C16',fn(ME,'float deepworks::metric::accuracyOneHot','''static ConstMatrix::Index argmax(const ConstMatrix& mat, int row) {
    ConstMatrix::Index col;
    mat.row(row).maxCoeff(&col);
    return col;
}

float deepworks::metric::accuracyOneHot(const deepworks::Tensor& y_pred,
                                        const deepworks::Tensor& y_true) {
    const auto& shape = y_pred.shape();
    DeepWorks_Assert(shape.size() == 2);
    DeepWorks_Assert(y_true.shape() == shape);

    ConstMatrix pred(y_pred.data(), shape[0], shape[1]);
    ConstMatrix truth(y_true.data(), shape[0], shape[1]);
    int matches = 0;
    for (int i = 0; i < pred.rows(); ++i) {
        if (argmax(pred, i) == argmax(truth, i)) {
            ++matches;
        }
    }
    return static_cast<float>(matches) / pred.rows();
}'''))
ref('2-metric-stl','C16',fn(ME,'float deepworks::metric::accuracy(','''float deepworks::metric::accuracy(const deepworks::Tensor& y_pred,
                                  const deepworks::Tensor& y_true) {
    const auto& shape = y_pred.shape();
    DeepWorks_Assert(shape.size() == 2);
    const int rows = shape[0];
    const int cols = shape[1];
    DeepWorks_Assert(y_true.total() == rows);

    const float* pred  = y_pred.data();
    const float* label = y_true.data();
    int correct = 0;
    for (int i = 0; i < rows; ++i, pred += cols) {
        const int cls = static_cast<int>(std::distance(pred, std::max_element(pred, pred + cols)));
        correct += static_cast<float>(cls) == label[i] ? 1 : 0;
    }
    return static_cast<float>(correct) / rows;
}'''))
ref('2-sgd-fn','C17',fn(O,'void SGD::step','''static size_t checkedSize(const Tensor& weight, const Tensor& grad) {
    DeepWorks_Assert(grad.shape() == weight.shape());
    return grad.total();
}

void SGD::step() {
    for (auto& item : m_params) {
        auto& param = item.second;
        if (!param.is_trainable()) {
            continue;
        }
        float*       w = param.data().data();
        const float* g = param.grad().data();
        const size_t n = checkedSize(param.data(), param.grad());
        for (size_t i = 0; i < n; ++i) {
            w[i] -= m_lr * g[i];
        }
    }
}'''))
ref('2-mom-find','C17',fn(O,'void SGDMomentum::step','''void SGDMomentum::step() {
    for (auto& [name, param] : m_params) {
        if (!param.is_trainable()) continue;

        Tensor weight = param.data();
        Tensor grad   = param.grad();
        DeepWorks_Assert(weight.shape() == grad.shape());

        Tensor& velocity = m_velocities.at(name);
        for (size_t i = 0; i != weight.total(); ++i) {
            float& v = velocity.data()[i];
            v = m_gamma * v + m_lr * grad.data()[i];
            weight.data()[i] -= v;
        }
    }
}'''))
ref('2-adam-split','C17',fn(O,'void Adam::step','''static void updateMoment(Vector moment, const ConstVector& value, float decay) {
    moment = decay * moment + (1 - decay) * value;
}

void Adam::step() {
    ++m_num_iterations;

    const auto mean_correction     = 1 - std::pow(m_betas[0], m_num_iterations);
    const auto variance_correction = 1 - std::pow(m_betas[1], m_num_iterations);

    for (auto& [name, param] : m_params) {
        if (!param.is_trainable()) {
            continue;
        }
        auto       weight = param.data();
        const auto grad   = param.grad();
        DeepWorks_Assert(grad.shape() == weight.shape());
        const size_t size = grad.total();

        Vector      mean    (m_moving_mean.at(name).data()    , size);
        Vector      variance(m_moving_variance.at(name).data(), size);
        Vector      w       (weight.data()                    , size);
        ConstVector g       (grad.data()                      , size);

        mean.array()     = m_betas[0] * mean.array()     + (1 - m_betas[0]) * g.array();
        variance.array() = m_betas[1] * variance.array() + (1 - m_betas[1]) * g.array().square();

        w.array() -= m_lr * (mean.array() / mean_correction)
                   / ((variance.array() / variance_correction).sqrt() + m_epsilon);
    }
}'''))
ref('2-opt-ctor','C17',sub(O,'''    for (auto& [name, param]: m_params) {
        m_moving_mean.emplace    (name, Tensor::zeros(param.data().shape()));
        m_moving_variance.emplace(name, Tensor::zeros(param.data().shape()));
    }''','''    for (const auto& item : m_params) {
        const auto& shape = item.second.data().shape();
        m_moving_variance[item.first] = Tensor::zeros(shape);
        m_moving_mean[item.first]     = Tensor::zeros(shape);
    }'''),sub(O,'''    for (auto& [name, param]: m_params) {
        m_velocities.emplace(name, Tensor::zeros(param.data().shape()));
    }''','''    for (auto it = m_params.begin(); it != m_params.end(); ++it) {
        m_velocities.insert({it->first, Tensor::zeros(it->second.data().shape())});
    }'''))
ref('2-dl-guard','C18',sub(D,'''    if (X.empty()) {
        X.allocate(X_shape);
    }

    if (y.empty()) {
        y.allocate(y_shape);
    }

    DeepWorks_Assert(X.shape() == X_shape);
    DeepWorks_Assert(y.shape() == y_shape);
''','''    prepare(X, X_shape);
    prepare(y, y_shape);
'''),sub(D,'''deepworks::DataLoader::DataLoader(''','''static void prepare(deepworks::Tensor& tensor, const deepworks::Shape& shape) {
    if (tensor.empty()) {
        tensor.allocate(shape);
    }
    DeepWorks_Assert(tensor.shape() == shape);
}

deepworks::DataLoader::DataLoader('''))
ref('2-dl-fill','C18',sub(D,'''    size_t X_batch_stride = X.strides()[0];
    size_t y_batch_stride = y.strides()[0];

    auto indices = m_shuffle ? randomIndices(m_batch_size, m_dataset->size() - 1)
                             : seqIndices(m_batch_size, m_pos);
    // NB: Fill batch
    for (int i = 0; i < m_batch_size; ++i) {
        deepworks::Tensor X_slice(m_dataset->shape().first , X.data() + i * X_batch_stride);
        deepworks::Tensor y_slice(m_dataset->shape().second, y.data() + i * y_batch_stride);
        m_dataset->pull(indices[i], X_slice, y_slice);
    }
''','''    std::vector<int> indices;
    if (m_shuffle) {
        indices = randomIndices(m_batch_size, m_dataset->size() - 1);
    } else {
        indices = seqIndices(m_batch_size, m_pos);
    }
    // NB: Fill batch
    const auto sample_shape = m_dataset->shape();
    float* X_ptr = X.data();
    float* y_ptr = y.data();
    for (int index : indices) {
        deepworks::Tensor X_slice(sample_shape.first , X_ptr);
        deepworks::Tensor y_slice(sample_shape.second, y_ptr);
        m_dataset->pull(index, X_slice, y_slice);
        X_ptr += X.strides()[0];
        y_ptr += y.strides()[0];
    }
'''))
ref('2-dl-shape','C18',fn(D,'static deepworks::Shape makeShape','''static deepworks::Shape makeShape(int batch_size, const deepworks::Shape& shape) {
    deepworks::Shape result{batch_size};
    result.insert(result.end(), shape.begin(), shape.end());
    return result;
}'''),fn(D,'static std::vector<int> seqIndices','''static std::vector<int> seqIndices(int num, int start) {
    std::vector<int> indices;
    for (int i = 0; i < num; ++i) {
        indices.push_back(start + i);
    }
    return indices;
}'''))
ref('2-dl-end','C18',sub(D,'''    if (m_pos + m_batch_size > m_dataset->size()) {
        reset();
        return false;
    }''','''    const int last = m_pos + m_batch_size;
    if (last > m_dataset->size()) {
        m_pos = 0;
        return false;
    }'''),sub(D,'''    m_pos += m_batch_size;
    return true;''','''    m_pos = last;
    return true;'''))
# ---- nn
ref('2-nn-pool','C19 C20',sub(N,'''void dw::Linear::init(const Shape& in_shape) {''','''static int windowCount(int in, int kernel, int padding, int stride) {
    return (in + 2 * padding - kernel) / stride + 1;
}

void dw::Linear::init(const Shape& in_shape) {'''),sub(N,'''    int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
    int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
    return {in_shape[0], in_shape[1], h_out, w_out};''','''    dw::Shape out_shape = in_shape;
    out_shape[Input::H] = windowCount(in_shape[Input::H], kernel[0], padding[0], stride[0]);
    out_shape[Input::W] = windowCount(in_shape[Input::W], kernel[1], padding[1], stride[1]);
    return out_shape;'''))
ref('2-nn-params','C19 C20',fn(N,'void dw::BatchNorm1D::init','''static void initBatchNorm(dw::LayerInfo& info, int features) {
    auto& params  = info.impl().params;
    auto& buffers = info.impl().buffers;
    const dw::Shape shape{features};
    params.emplace ("beta"        , dw::Tensor::zeros(shape));
    params.emplace ("gamma"       , dw::Tensor::constant(shape, 1.f));
    buffers.emplace("running_var" , dw::Tensor::zeros(shape));
    buffers.emplace("running_mean", dw::Tensor::zeros(shape));
}

void dw::BatchNorm1D::init(const Shape& in_shape) {
    initBatchNorm(m_info, in_shape[1]);
}'''),fn(N,'void dw::BatchNorm2D::init','''void dw::BatchNorm2D::init(const Shape& in_shape) {
    initBatchNorm(m_info, in_shape[Input::C]);
}'''))
ref('2-nn-conv','C19 C20',fn(N,'void dw::Convolution::init','''void dw::Convolution::init(const Shape& in_shape) {
    const auto& attrs = m_info.impl().attrs;
    const int out_channels = attrs.at("out_channels").get<int>();
    const auto kernel = attrs.at("kernel").get<std::array<int, 2>>();
    auto& params = m_info.impl().params;

    const dw::Shape weight_shape{out_channels, in_shape[Input::C], kernel[0], kernel[1]};
    params.emplace("weight", dw::Tensor::xavierUniform(weight_shape));
    params.emplace("bias", dw::Tensor::zeros({out_channels}));
}'''))
ref('2-nn-add','C19',fn(N,'deepworks::Shape deepworks::Add::outShape','''deepworks::Shape deepworks::Add::outShape(const deepworks::Shape& lhs_shape,
                                          const deepworks::Shape& rhs_shape) {
    if (lhs_shape == rhs_shape) {
        return rhs_shape;
    }
    DeepWorks_Throw() << "deepworks::Add: input shapes must be the same !\\n"
                         "First shape: "  << lhs_shape << "\\n"
                         "Second shape: " << rhs_shape << "\\n";
}'''))
# ---- images
ref('2-ir-is','C25',fn(IR,'bool IsPngFile','''std::string_view Extension(std::string_view path) {
    const auto dot = path.find_last_of('.');
    return path.substr(dot + 1);
}

bool IsPngFile(std::string_view path) {
    return Extension(path) == "png";
}'''),fn(IR,'bool IsJpegFile','''bool IsJpegFile(std::string_view path) {
    const auto ext = Extension(path);
    return ext == "jpg" || ext == "jpeg";
}'''))
ref('2-ir-rows','C25',sub(IR,'''        for (int h = 0; h < height; ++h) {
            std::copy_n(row_pointers[h], elements_per_h_channel, &dst_data[h * elements_per_h_channel]);
        }
        for (int y = 0; y < height; y++) {
            free(row_pointers[y]);
        }''','''        for (int h = 0; h < height; ++h) {
            const png_bytep row = row_pointers[h];
            for (size_t i = 0; i < elements_per_h_channel; ++i) {
                *dst_data++ = row[i];
            }
            free(row);
        }'''))
