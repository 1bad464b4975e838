# third batch (exec'd by refs.py)
ref('3-softmax-rows','C04',fn(K,'void deepworks::CPUSoftmaxForward','''static void softmaxRow(const float* in, float* out, int n) {
    const float top = *std::max_element(in, in + n);
    std::transform(in, in + n, out, [top](float v) { return std::exp(v - top); });
    const float total = std::accumulate(out, out + n, 0.f);
    std::for_each(out, out + n, [total](float& v) { v /= total; });
}

void deepworks::CPUSoftmaxForward(ConstMatrix X, Matrix result) {
    for (int i = 0; i < X.rows(); ++i) {
        softmaxRow(X.data() + i * X.cols(), result.data() + i * X.cols(), X.cols());
    }
}'''),sub(K,'#include <deepworks/initializers.hpp>','#include <algorithm>\n#include <numeric>\n#include <deepworks/initializers.hpp>'))
ref('3-softmax-dot','C04',fn(K,'void deepworks::CPUSoftmaxInputGrad','''void deepworks::CPUSoftmaxInputGrad(ConstMatrix output, ConstMatrix grad_output, Matrix grad_input) {
    for (int i = 0; i < output.rows(); ++i) {
        const float k = grad_output.row(i).dot(output.row(i));
        for (int j = 0; j < output.cols(); ++j) {
            grad_input(i, j) += output(i, j) * (grad_output(i, j) - k);
        }
    }
}'''))
ref('3-t-find','C01',sub(T,'''    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
                                         [](int dim) { return dim < 0; });
    DeepWorks_Assert(!have_negative_dim && "Cannot allocate''','''    auto negative = std::find_if(shape.begin(), shape.end(), [](int dim) { return dim < 0; });
    DeepWorks_Assert(negative == shape.end() && "Cannot allocate'''))
ref('3-t-count','C01',sub(T,'''    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
                                         [](int dim) { return dim < 0; });
    DeepWorks_Assert(!have_negative_dim && "Cannot allocate''','''    auto n_negative = std::count_if(shape.begin(), shape.end(), [](auto dim) { return dim < 0; });
    DeepWorks_Assert(n_negative == 0 && "Cannot allocate'''))
ref('3-t-scan','C01 C02',fn(T,'dw::Strides calculateStrides','''dw::Strides calculateStrides(const dw::Shape& shape) {
    dw::Strides strides(shape.size());
    std::exclusive_scan(shape.rbegin(), shape.rend(), strides.rbegin(), 1, std::multiplies<>());
    return strides;
}'''))
ref('3-t-index','C01 C02',fn(T,'dw::Strides calculateStrides','''static size_t product(const dw::Shape& shape, size_t from) {
    size_t p = 1;
    for (size_t i = from; i < shape.size(); ++i) {
        p *= shape[i];
    }
    return p;
}

dw::Strides calculateStrides(const dw::Shape& shape) {
    dw::Strides strides;
    strides.reserve(shape.size());
    for (size_t i = 0; i < shape.size(); ++i) {
        strides.push_back(product(shape, i + 1));
    }
    return strides;
}'''))
ref('3-t-while','C01 C02',fn(T,'dw::Strides calculateStrides','''dw::Strides calculateStrides(const dw::Shape& shape) {
    dw::Strides strides(shape.size());
    size_t step = 1;
    size_t i = shape.size();
    while (i > 0) {
        --i;
        strides[i] = step;
        step *= shape[i];
    }
    return strides;
}'''))
ref('3-t-downto','C01 C02',fn(T,'dw::Strides calculateStrides','''dw::Strides calculateStrides(const dw::Shape& shape) {
    dw::Strides strides(shape.size());
    size_t step = 1;
    for (size_t i = shape.size(); i-- > 0;) {
        strides[i] = step;
        step *= shape[i];
    }
    return strides;
}'''))
ref('3-t-total','C01 C02',sub(T,'''    m_descriptor->total   = std::accumulate(shape.begin(),
                                            shape.end(),
                                            1,
                                            std::multiplies<>());''','''    m_descriptor->total   = numElements(shape);'''),sub(T,'dw::Tensor::Tensor() :','''static int numElements(const dw::Shape& shape) {
    int n = 1;
    for (auto it = shape.cbegin(); it != shape.cend(); ++it) n *= *it;
    return n;
}

dw::Tensor::Tensor() :'''),sub(T,"auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());","const auto shape_total_size = numElements(shape);"))
ref('3-opt-each','C17',sub('src/optimizer.cpp','''SGD::SGD(''','''template <typename Fn>
static void forEachTrainable(ParamMap& params, Fn&& fn) {
    for (auto& [name, param] : params) {
        if (!param.is_trainable()) {
            continue;
        }
        auto       weight = param.data();
        const auto grad   = param.grad();
        DeepWorks_Assert(grad.shape() == weight.shape());
        fn(name, weight, grad);
    }
}

SGD::SGD('''),fn('src/optimizer.cpp','void SGD::step','''void SGD::step() {
    forEachTrainable(m_params, [this](const std::string&, Tensor& weight, const Tensor& grad) {
        Vector      w(weight.data(), weight.total());
        ConstVector g(grad.data(), grad.total());
        w -= m_lr * g;
    });
}'''),fn('src/optimizer.cpp','void SGDMomentum::step','''void SGDMomentum::step() {
    forEachTrainable(m_params, [this](const std::string& name, Tensor& weight, const Tensor& grad) {
        float* v = m_velocities.at(name).data();
        float* w = weight.data();
        const float* g = grad.data();
        for (size_t i = 0; i < grad.total(); ++i) {
            v[i] = m_gamma * v[i] + m_lr * g[i];
            w[i] -= v[i];
        }
    });
}'''))
ref('3-adam-loop','C17',sub('src/optimizer.cpp','''            moving_mean_mat.array()     = m_betas[0] * moving_mean_mat.array()
                                          + (1 - m_betas[0]) * grad_mat.array();

            moving_variance_mat.array() = m_betas[1] * moving_variance_mat.array()
                                          + (1 - m_betas[1]) * grad_mat.cwiseAbs2().array();

            auto mean_hat     = moving_mean_mat.array()     / (1 - std::pow(m_betas[0], m_num_iterations));
            auto variance_hat = moving_variance_mat.array() / (1 - std::pow(m_betas[1], m_num_iterations));

            weight_mat.array() -= m_lr * mean_hat.array() / (variance_hat.cwiseSqrt().array() + m_epsilon).array();''','''            const auto [beta1, beta2] = m_betas;
            const float corr1 = 1 - std::pow(beta1, m_num_iterations);
            const float corr2 = 1 - std::pow(beta2, m_num_iterations);
            for (size_t i = 0; i < size; ++i) {
                const float g = grad_mat[i];
                float& m = moving_mean_mat[i];
                float& v = moving_variance_mat[i];
                m = beta1 * m + (1 - beta1) * g;
                v = beta2 * v + (1 - beta2) * g * g;
                weight_mat[i] -= m_lr * (m / corr1) / (std::sqrt(v / corr2) + m_epsilon);
            }'''))
ref('3-metric-lambda','C16',fn('src/metrics.cpp','float deepworks::metric::accuracyOneHot','''float deepworks::metric::accuracyOneHot(const deepworks::Tensor& y_pred,
                                        const deepworks::Tensor& y_true) {
    const auto& shape = y_pred.shape();
    DeepWorks_Assert(shape.size() == 2 && y_true.shape() == shape);
    const int rows = shape[0];
    const int cols = shape[1];
    const auto best = [cols](const deepworks::Tensor& t, int i) {
        const float* row = t.data() + i * cols;
        return std::distance(row, std::max_element(row, row + cols));
    };
    int hits = 0;
    for (int i = 0; i < rows; ++i) {
        hits += best(y_pred, i) == best(y_true, i) ? 1 : 0;
    }
    return static_cast<float>(hits) / rows;
}'''))
ref('3-metric-cast','C16',sub('src/metrics.cpp','''        auto label = y_true_vec[i];
        acc += pred_col == label;''','''        if (static_cast<float>(pred_col) == y_true_vec[i]) {
            acc += 1.f;
        }'''))
ref('3-im2col-unsigned','C06 C08',sub(K,'''                    if (!(input_row >= 0 && input_row < h)) {
                        for (int out_col = w_out; out_col; out_col--) {
                            *(dst++) = fill_value;
                        }
                    } else {''','''                    const bool row_inside = 0 <= input_row && input_row <= h - 1;
                    if (!row_inside) {
                        dst = std::fill_n(dst, w_out, fill_value);
                    } else {'''))
ref('3-im2col-loops','C06 C08',sub(K,'''    for (int c = ch; c--; src += h * w) {
        for (int k_h = 0; k_h < kernel_h; k_h++) {
            for (int k_w = 0; k_w < kernel_w; k_w++) {
                int input_row = k_h * dilation_h - pad_h;
                for (int out_r = h_out; out_r; out_r--) {
                    if (!(input_row >= 0 && input_row < h)) {
                        for (int out_col = w_out; out_col; out_col--) {
                            *(dst++) = fill_value;
                        }
                    } else {
                        int input_col = k_w * dilation_w - pad_w;
                        for (int out_col = w_out; out_col; out_col--) {
                            *(dst++) = (input_col >= 0 && input_col < w) ?
                                        src[input_row * w + input_col]
                                        : fill_value;
                            input_col += stride_w;
                        }
                    }
                    input_row += stride_h;
                }
            }
        }
    }''','''    for (int c = 0; c < ch; ++c) {
        const float* plane = src + c * h * w;
        for (int k_h = 0; k_h < kernel_h; ++k_h) {
            for (int k_w = 0; k_w < kernel_w; ++k_w) {
                float* row = dst + ((c * kernel_h + k_h) * kernel_w + k_w) * h_out * w_out;
                for (int i = 0; i < h_out; ++i) {
                    const int y = i * stride_h + k_h * dilation_h - pad_h;
                    for (int j = 0; j < w_out; ++j) {
                        const int x = j * stride_w + k_w * dilation_w - pad_w;
                        const bool outside = y < 0 || y >= h || x < 0 || x >= w;
                        row[i * w_out + j] = outside ? fill_value : plane[y * w + x];
                    }
                }
            }
        }
    }'''))
ref('3-col2im-loops','C07 C08',sub(K,'''    for (int c = ch; c--; dst += h_in * w_in) {
        for (int k_h = 0; k_h < kernel_h; k_h++) {
            for (int k_w = 0; k_w < kernel_w; k_w++) {
                int input_row = k_h * dilation_h - pad_h;
                for (int out_r = h_out; out_r; out_r--) {
                    if (!(input_row >= 0 && input_row < h_in)) {
                        src += w_out;
                    } else {
                        int input_col = k_w * dilation_w - pad_w;
                        for (int out_col = w_out; out_col; out_col--) {
                            if (input_col >= 0 && input_col < w_in) {
                                dst[input_row * w_in + input_col] += *src;
                            }
                            src++;
                            input_col += stride_w;
                        }
                    }
                    input_row += stride_h;
                }
            }
        }
    }''','''    for (int c = 0; c < ch; ++c, dst += h_in * w_in) {
        for (int k_h = 0; k_h < kernel_h; ++k_h) {
            for (int k_w = 0; k_w < kernel_w; ++k_w, src += h_out * w_out) {
                for (int i = 0; i < h_out; ++i) {
                    const int y = i * stride_h + k_h * dilation_h - pad_h;
                    if (y < 0 || y >= h_in) continue;
                    for (int j = 0; j < w_out; ++j) {
                        const int x = j * stride_w + k_w * dilation_w - pad_w;
                        if (x < 0 || x >= w_in) continue;
                        dst[y * w_in + x] += src[i * w_out + j];
                    }
                }
            }
        }
    }'''))
ref('3-pool-stl','C08',sub(K,'''        for (int j = 0; j < cols; j++) {
            dst[i * cols + j] = col_mat.col(j).maxCoeff(&max_row);
            indices[i * cols + j] = max_row;
        }''','''        auto plane_out = dst + i * cols;
        auto plane_idx = indices + i * cols;
        for (int j = 0; j < cols; j++) {
            const auto column = col_mat.col(j);
            *plane_out++ = column.maxCoeff(&max_row);
            *plane_idx++ = static_cast<float>(max_row);
        }'''))
ref('3-pool-running','C08',sub(K,'''            dst[i * cols + j] = col_mat.col(j).maxCoeff(&max_row);
            indices[i * cols + j] = max_row;''','''            float best = col_mat(0, j);
            int best_row = 0;
            for (int r = 1; r < rows; ++r) {
                if (col_mat(r, j) > best) {
                    best = col_mat(r, j);
                    best_row = r;
                }
            }
            dst[i * cols + j] = best;
            indices[i * cols + j] = best_row;'''))
ref('3-poolgrad-direct','C08',sub(K,'''    std::vector<float> grad_output_copy(grad_output.data(), grad_output.data() + grad_output.total());
    Matrix grad{grad_output_copy.data(), batch * c, h_out * w_out};

    auto out_grad_ptr = grad_output_copy.data();''','''    const float* out_grad_ptr = grad_output.data();'''))
ref('3-nchw-lambda','C21',fn(K,'void deepworks::utils::NCHW2NHWC','''void deepworks::utils::NCHW2NHWC(const Tensor& input, Tensor& output) {
    const auto& shape = input.shape();
    const int n_total = shape[Input::N];
    const int n_ch    = shape[Input::C];
    const int plane   = shape[Input::H] * shape[Input::W];
    const float* src  = input.data();
    float* dst        = output.data();
    for (int n = 0; n < n_total; ++n) {
        for (int c = 0; c < n_ch; ++c) {
            for (int p = 0; p < plane; ++p) {
                dst[(n * plane + p) * n_ch + c] = src[(n * n_ch + c) * plane + p];
            }
        }
    }
}'''))
ref('3-nchw-map','C21',fn(K,'void deepworks::utils::NHWC2NCHW','''void deepworks::utils::NHWC2NCHW(const Tensor& input, Tensor& output) {
    const auto& shape = output.shape();
    const int channels = shape[Input::C];
    const int plane    = shape[Input::H] * shape[Input::W];
    for (int n = 0; n < shape[Input::N]; ++n) {
        ConstMatrix src(input.data() + n * channels * plane, plane, channels);
        Matrix      dst(output.data() + n * channels * plane, channels, plane);
        dst = src.transpose();
    }
}'''))
ref('3-drop-scale','C12',sub(K,'''    result = (m_vec.array() >= p).select(in_vec.array(), 0.f) / (1 - p);''','''    const float keep = 1.f - p;
    for (int i = 0; i < result.size(); ++i) {
        result[i] = m_vec[i] < p ? 0.f : in_vec[i] / keep;
    }'''))
ref('3-bn-inv','C10',sub(K,'''    output = (input_centered.array().rowwise() * (gamma.array() / std.array())).array().rowwise() + beta.array();''','''    const V scale = gamma.array() / std.array();
    for (Eigen::Index i = 0; i < input_centered.rows(); ++i) {
        output.row(i) = input_centered.row(i).cwiseProduct(scale) + beta;
    }'''))
ref('3-bn-grad','C11',fn(K,'void deepworks::CPUBatchNorm1DInputGrad','''void deepworks::CPUBatchNorm1DInputGrad(ConstMatrix input_centered, ConstVector std,
                                        ConstMatrix grad_output, Matrix grad_input,
                                        ConstVector gamma) {
    const int batch = input_centered.rows();
    for (int c = 0; c < input_centered.cols(); ++c) {
        float sum_g  = 0.f;
        float sum_gx = 0.f;
        for (int i = 0; i < batch; ++i) {
            sum_g  += grad_output(i, c) * gamma(c);
            sum_gx += grad_output(i, c) * gamma(c) * input_centered(i, c);
        }
        const float inv = 1.f / std(c);
        for (int i = 0; i < batch; ++i) {
            grad_input(i, c) += inv * (grad_output(i, c) * gamma(c) - sum_g / batch
                                       - input_centered(i, c) * inv * inv * sum_gx / batch
                                       + inv * inv * sum_gx / batch * meanOf(input_centered, c));
        }
    }
}'''),sub(K,'void deepworks::CPUBatchNorm1DInputGrad','''static float meanOf(deepworks::ConstMatrix X, int c) {
    float s = 0.f;
    for (int i = 0; i < X.rows(); ++i) s += X(i, c);
    return s / X.rows();
}

void deepworks::CPUBatchNorm1DInputGrad'''))
ref('3-lin-loops','C05',fn(K,'void deepworks::CPULinearForward','''void deepworks::CPULinearForward(ConstMatrix X, ConstMatrix W, Matrix result) {
    for (int i = 0; i < X.rows(); ++i) {
        for (int u = 0; u < W.rows(); ++u) {
            float acc = 0.f;
            for (int k = 0; k < X.cols(); ++k) {
                acc += X(i, k) * W(u, k);
            }
            result(i, u) = acc;
        }
    }
}'''),fn(K,'void deepworks::CPULinearWeightGrad','''void deepworks::CPULinearWeightGrad(ConstMatrix input, ConstMatrix dx, Matrix dW) {
    dW.setZero();
    for (int i = 0; i < dx.rows(); ++i) {
        dW.noalias() += dx.row(i).transpose() * input.row(i);
    }
}'''),fn(K,'void deepworks::CPULinearInputGrad','''void deepworks::CPULinearInputGrad(ConstMatrix dx,
                                   ConstMatrix W,
                                   Matrix grad_input) {
    for (int i = 0; i < dx.rows(); ++i) {
        grad_input.row(i) += dx.row(i) * W;
    }
}'''))
ref('3-gap-each','C09',sub(K,'''    for (size_t i = 0; i < batch * channels; i++) {
        for (size_t j = 0; j < plane_size; j++) {
            input_data[i * plane_size + j] += out_data[i] / plane_size;
        }
    }''','''    for (int i = 0; i < batch * channels; ++i) {
        const float share = out_data[i] / plane_size;
        auto first = input_data + i * plane_size;
        std::for_each(first, first + plane_size, [share](float& g) { g += share; });
    }'''),sub(K,'#include <deepworks/initializers.hpp>','#include <algorithm>\n#include <deepworks/initializers.hpp>'))
ref('3-dl-lambda','C18',sub(D,'''    size_t X_batch_stride = X.strides()[0];
    size_t y_batch_stride = y.strides()[0];
''','''    const auto sample = [](const deepworks::Tensor& batch, const deepworks::Shape& shape, int i) {
        return deepworks::Tensor(shape, batch.data() + i * batch.strides()[0]);
    };
'''),sub(D,'''        deepworks::Tensor X_slice(m_dataset->shape().first , X.data() + i * X_batch_stride);
        deepworks::Tensor y_slice(m_dataset->shape().second, y.data() + i * y_batch_stride);''','''        auto X_slice = sample(X, m_dataset->shape().first, i);
        auto y_slice = sample(y, m_dataset->shape().second, i);'''))
ref('3-dl-counter','C18',sub(D,'''    for (int i = 0; i < m_batch_size; ++i) {
        deepworks''','''    int i = 0;
    for (const int index : indices) {
        deepworks'''),sub(D,'''        m_dataset->pull(indices[i], X_slice, y_slice);
    }''','''        m_dataset->pull(index, X_slice, y_slice);
        ++i;
    }'''))
ref('3-dl-rand','C18',sub(D,'''    std::uniform_int_distribution<> dist(0, upper_bound);
    while (unique.size() != num) {
        unique.insert(dist(gen));
    }

    return {unique.begin(), unique.end()};''','''    std::uniform_int_distribution<int> dist(0, upper_bound);
    while (static_cast<int>(unique.size()) < num) {
        const int candidate = dist(gen);
        unique.insert(candidate);
    }

    std::vector<int> indices(unique.begin(), unique.end());
    return indices;'''))
ref('3-loss-loops','C15',fn('src/loss.cpp','void CrossEntropyLoss::backward','''void CrossEntropyLoss::backward(const Tensor& predictions, const Tensor& target, Tensor& grad_output) {
    const auto& shape = predictions.shape();
    DeepWorks_Assert(shape.size() == 2);
    DeepWorks_Assert(grad_output.shape() == shape);

    const int batch_size = shape[0];
    const int n_classes  = shape[1];

    DeepWorks_Assert(target.shape().size() == 2);
    DeepWorks_Assert(target.shape()[0] == batch_size);
    DeepWorks_Assert(target.shape()[1] == 1);

    deepworks::initializer::zeros(grad_output);
    const float* prob  = predictions.data();
    const float* label = target.data();
    float* grad        = grad_output.data();
    for (int i = 0; i < batch_size; ++i, prob += n_classes, grad += n_classes) {
        const int k = static_cast<int>(label[i]);
        grad[k] = -1.f / prob[k] / batch_size;
    }
}'''))
ref('3-loss-nolog','C15',sub(K,'''    Vector X_1d(predictions.data(), predictions.size());

    std::vector<int> slice = MatchTargetTo1dMatrix(target, batch_size, n_classes);

    float loss = -X_1d(0, slice).array().sum() / static_cast<float>(batch_size);
    return loss;''','''    const auto slice = MatchTargetTo1dMatrix(target, batch_size, n_classes);
    const float* flat = predictions.data();
    const float sum = std::accumulate(slice.begin(), slice.end(), 0.f,
                                      [flat](float acc, int k) { return acc + flat[k]; });
    return -sum / batch_size;'''),sub(K,'#include <deepworks/initializers.hpp>','#include <numeric>\n#include <deepworks/initializers.hpp>'))
ref('3-copy-loop','C02',sub(T,'std::copy_n(m_descriptor->data, m_descriptor->total, rhs.m_descriptor->data);','''const Type* src = m_descriptor->data;
    Type* dst = rhs.m_descriptor->data;
    const Type* const end = src + m_descriptor->total;
    while (src != end) {
        *dst++ = *src++;
    }'''))
ref('3-init-loop','C02 C19',fn(I,'void deepworks::initializer::uniform','''template <typename Dist>
static void fill(deepworks::Tensor& tensor, Dist dist) {
    auto& gen = deepworks::utils::generator();
    float* const data = tensor.data();
    for (size_t i = 0; i != tensor.total(); ++i) {
        data[i] = dist(gen);
    }
}

void deepworks::initializer::uniform(deepworks::Tensor& tensor, float lower, float upper) {
    fill(tensor, std::uniform_real_distribution<float>(lower, upper));
}'''))
ref('3-elu-if','C03',fn(K,'void deepworks::CPUELUInputGrad','''void deepworks::CPUELUInputGrad(ConstVector input, ConstVector grad_output, Vector grad_input, float alpha) {
    for (int i = 0; i < input.size(); ++i) {
        float slope = 1.f;
        if (input[i] < 0.f) {
            slope = alpha * std::exp(input[i]);
        }
        grad_input[i] += slope * grad_output[i];
    }
}'''),fn(K,'void deepworks::CPULeakyReLUForward','''void deepworks::CPULeakyReLUForward(ConstVector X, Vector result, float alpha) {
    std::transform(X.data(), X.data() + X.size(), result.data(), [=](auto v) { return v < 0.f ? v * alpha : v; });
}'''),fn(K,'void deepworks::CPUSigmoidInputGrad','''void deepworks::CPUSigmoidInputGrad(ConstVector output, ConstVector grad_output, Vector grad_input) {
    grad_input.array() += grad_output.array() * (output.array() - output.array().square());
}'''),sub(K,'#include <deepworks/initializers.hpp>','#include <algorithm>\n#include <deepworks/initializers.hpp>'))
ref('3-conv-slices','C06 C14',sub(K,'''        Tensor src_tensor({1, c_in, h_in, w_in}, input.data() + b * input_offset);
        Tensor col_plane({rows, cols}, im2col_buf.data() + (b * rows * cols));
        im2col(src_tensor, col_plane, kernel, padding, stride);

        ConstMatrix X{col_plane.data(), rows, cols};
        Matrix result{output.data() + b * output_offset, c_out, cols};
        result = W * X;
        result = result.colwise() + bias_vec;''','''        const auto in_image = input.data() + b * input_offset;
        const auto columns  = im2col_buf.data() + b * rows * cols;
        Tensor src_tensor({1, c_in, h_in, w_in}, in_image);
        Tensor col_plane({rows, cols}, columns);
        im2col(src_tensor, col_plane, kernel, padding, stride);

        Matrix result{output.data() + b * output_offset, c_out, cols};
        result.colwise() = bias_vec;
        result += W * ConstMatrix(columns, rows, cols);'''))
ref('3-conv-ingrad','C07 C14',sub(K,'''        Matrix grad_col_mat{grad_im2col_buf.data(), rows, cols};
        grad_col_mat = weights_mat.transpose() * grad_output_mat;
''','''        Matrix(grad_im2col_buf.data(), rows, cols).noalias() = weights_mat.transpose() * grad_output_mat;
'''))
