// Naive reference implementation of the layers (plain index loops over Ref<double>, no library code),
// and generators of layer stacks.
#pragma once
#include "common.h"
#include <memory>
#include "cnn_from_scratch/Layers/Kernel.h"
#include "cnn_from_scratch/Layers/Pooling.h"
#include "cnn_from_scratch/Layers/Activation.h"
#include "cnn_from_scratch/Layers/ConnectedLayer.h"
#include "cnn_from_scratch/Layers/Softmax.h"

using RD = Ref<double>;
using my_cnn::ModelLayer; using my_cnn::Kernel; using my_cnn::Pooling; using my_cnn::Activation; using my_cnn::ConnectedLayer; using my_cnn::Softmax;
using my_cnn::ModelLayerException;

inline RD refConv(const RD& in, const RD& W, const RD& b, D3 fd, int nf, int stride) {
    RD out(D3{(in.d.x - fd.x) / stride + 1, (in.d.y - fd.y) / stride + 1, nf});
    for (int f = 0; f < nf; f++) for (int x = 0; x < out.d.x; x++) for (int y = 0; y < out.d.y; y++) {
        double t = 0;
        for (int ch = 0; ch < fd.z; ch++) for (int i = 0; i < fd.x; i++) for (int j = 0; j < fd.y; j++) t += W.at(i, j, f * fd.z + ch) * in.at(x * stride + i, y * stride + j, ch);
        out.at(x, y, f) = t + b.at(f, 0, 0);
    }
    return out;
}
inline RD refConvAbs(const RD& in, const RD& W, const RD& b, D3 fd, int nf, int stride) {       // sum of magnitudes, for tolerances
    RD i2 = in, w2 = W, b2 = b; for (auto& v : i2.v) v = std::fabs(v); for (auto& v : w2.v) v = std::fabs(v); for (auto& v : b2.v) v = std::fabs(v);
    return refConv(i2, w2, b2, fd, nf, stride);
}
inline void refConvBack(const RD& in, const RD& W, const RD& dY, D3 fd, int nf, RD& dW, RD& dB, RD& dX) {   // unit stride
    dW = RD(W.d); dB = RD(D3{nf, 1, 1}); dX = RD(in.d);
    for (int f = 0; f < nf; f++) for (int x = 0; x < dY.d.x; x++) for (int y = 0; y < dY.d.y; y++) {
        double g = dY.at(x, y, f); dB.at(f, 0, 0) += g;
        for (int ch = 0; ch < fd.z; ch++) for (int i = 0; i < fd.x; i++) for (int j = 0; j < fd.y; j++) {
            dW.at(i, j, f * fd.z + ch) += g * in.at(x + i, y + j, ch); dX.at(x + i, y + j, ch) += g * W.at(i, j, f * fd.z + ch);
        }
    }
}
inline RD refPool(const RD& in, int wx, int wy, int sx, int sy, int kind) {
    RD out(D3{(in.d.x - wx) / sx + 1, (in.d.y - wy) / sy + 1, in.d.z});
    out.each([&](int x, int y, int z) {
        double t = kind == my_cnn::AVG ? 0 : in.at(x * sx, y * sy, z);
        for (int j = 0; j < wy; j++) for (int i = 0; i < wx; i++) { double v = in.at(x * sx + i, y * sy + j, z); if (kind == my_cnn::AVG) t += v; else if (kind == my_cnn::MAX) t = std::max(t, v); else t = std::min(t, v); }
        out.at(x, y, z) = kind == my_cnn::AVG ? t / (wx * wy) : t;
    });
    return out;
}
inline double refAct(int f, double v) {
    switch (f) { case my_cnn::RELU: return v > 0 ? v : 0; case my_cnn::SIGMOID: return v >= 0 ? 1 / (1 + std::exp(-v)) : std::exp(v) / (1 + std::exp(v)); case my_cnn::LINEAR: return v; case my_cnn::TANGENT: return std::tanh(v); default: return v > 0 ? v : 0.1 * v; }
}
inline double refActGrad(int f, double v) {
    switch (f) { case my_cnn::RELU: return v > 0 ? 1 : 0; case my_cnn::SIGMOID: { double e = std::exp(-std::fabs(v)); return e / ((1 + e) * (1 + e)); } case my_cnn::LINEAR: return 1; case my_cnn::TANGENT: { double c = std::cosh(v); return std::isfinite(c) ? 1 / (c * c) : 0; } default: return v > 0 ? 1 : 0.1; }
}
inline RD refSoftmax(const RD& in) {
    RD o(in.d); double m = *std::max_element(in.v.begin(), in.v.end()), t = 0; for (size_t i = 0; i < in.v.size(); i++) t += o.v[i] = std::exp(in.v[i] - m); for (auto& v : o.v) v /= t; return o;
}

enum LK { L_CONV, L_POOL, L_ACT, L_FC, L_SOFTMAX };
struct RefLayer {
    int kind = L_ACT; D3 fd; int nf = 0; int wx = 1, wy = 1, sx = 1, sy = 1, pk = 0; int act = 0; int nout = 0; RD W, b;
    RD forward(const RD& in) const {
        switch (kind) {
            case L_CONV: return refConv(in, W, b, fd, nf, 1);
            case L_POOL: return refPool(in, wx, wy, sx, sy, pk);
            case L_ACT: { RD o = in; for (auto& v : o.v) v = refAct(act, v); return o; }
            case L_FC: { RD o(D3{nout, 1, 1}); for (int r = 0; r < nout; r++) { double t = 0; for (size_t i = 0; i < in.v.size(); i++) t += W.at(r, (int)i, 0) * in.flat(i); o.at(r, 0, 0) = t + b.at(r, 0, 0); } return o; }
            default: return refSoftmax(in);
        }
    }
    // X: input as used for the gradients, Xf: input the forward pass saw; gW/gB accumulate
    RD backward(const RD& X, const RD& Xf, const RD& dY, RD& gW, RD& gB) const {
        switch (kind) {
            case L_CONV: { RD dW, dB, dX; refConvBack(X, W, dY, fd, nf, dW, dB, dX); gW = dW; gB = dB; return dX; }
            case L_POOL: {
                RD dX(X.d);
                dY.each([&](int x, int y, int z) {
                    double g = dY.at(x, y, z);
                    if (pk == my_cnn::AVG) { for (int i = 0; i < wx; i++) for (int j = 0; j < wy; j++) dX.at(x * sx + i, y * sy + j, z) += g / (wx * wy); return; }
                    int bi = 0, bj = 0; double best = Xf.at(x * sx, y * sy, z);
                    for (int j = 0; j < wy; j++) for (int i = 0; i < wx; i++) { double v = Xf.at(x * sx + i, y * sy + j, z); if (pk == my_cnn::MAX ? v > best : v < best) { best = v; bi = i; bj = j; } }
                    dX.at(x * sx + bi, y * sy + bj, z) += g;
                });
                return dX;
            }
            case L_ACT: { RD dX = dY; for (size_t i = 0; i < dX.v.size(); i++) dX.v[i] *= refActGrad(act, X.v[i]); return dX; }
            case L_FC: { gW = RD(W.d); gB = RD(b.d); RD dX(X.d); for (int r = 0; r < nout; r++) { double g = dY.at(r, 0, 0); gB.at(r, 0, 0) = g; for (size_t i = 0; i < X.v.size(); i++) { gW.at(r, (int)i, 0) = g * X.flat(i); dX.flat(i) += g * W.at(r, (int)i, 0); } } return dX; }
            default: return dY;
        }
    }
    // true if a tiny change of the input could flip a discrete choice (activation kink, pooling winner)
    bool nearKink(const RD& in, double eps) const {
        if (kind == L_ACT && (act == my_cnn::RELU || act == my_cnn::LEAKY_RELU)) for (auto v : in.v) if (v != 0 && std::fabs(v) < eps) return true;
        if (kind == L_POOL && pk != my_cnn::AVG) {
            RD o = refPool(in, wx, wy, sx, sy, pk); bool hit = false;
            o.each([&](int x, int y, int z) { for (int i = 0; i < wx; i++) for (int j = 0; j < wy; j++) { double d = std::fabs(in.at(x * sx + i, y * sy + j, z) - o.at(x, y, z)); if (d != 0 && d < eps) hit = true; } });
            return hit;
        }
        return false;
    }
    D3 outDim(const D3& d) const {
        switch (kind) { case L_CONV: return D3{d.x - fd.x + 1, d.y - fd.y + 1, nf}; case L_POOL: return D3{(d.x - wx) / sx + 1, (d.y - wy) / sy + 1, d.z}; case L_FC: return D3{nout, 1, 1}; default: return d; }
    }
    std::string name() const {
        std::ostringstream o;
        switch (kind) {
            case L_CONV: o << "Conv" << fd << "x" << nf; break;
            case L_POOL: o << (pk == my_cnn::MAX ? "MaxPool" : pk == my_cnn::MIN ? "MinPool" : "AvgPool") << wx << "x" << wy << "/" << sx << "," << sy; break;
            case L_ACT: o << my_cnn::toString((my_cnn::ModelActivationFunction)act); break;
            case L_FC: o << "FC" << nout; break;
            default: o << "Softmax" << nout;
        }
        return o.str();
    }
};

// values of ordinary magnitude with all bits random
inline double unit(Bulk& b) { return (double)(b.next() >> 11) / 9007199254740992.0 * 2 - 1; }
inline RD randRD(Src& s, D3 d, double scale) { RD r(d); Bulk b(s.draw(0xFFFFFF)); for (auto& v : r.v) v = unit(b) * scale; return r; }

struct StackOpts { int max_layers = 6; int max_side = 10; bool softmax = true; bool params = true; bool big = true; };
struct RefStack {
    D3 in; std::vector<RefLayer> L; int labels = 0;
    std::string name() const { std::ostringstream o; o << in; for (auto& l : L) o << " > " << l.name(); return o.str(); }
    // acts[i] is the input of layer i, acts.back() the output
    std::vector<RD> forward(const RD& x) const { std::vector<RD> a{x}; for (auto& l : L) a.push_back(l.forward(a.back())); return a; }
    bool nearKink(const std::vector<RD>& acts, double eps) const { for (size_t i = 0; i < L.size(); i++) if (L[i].nearKink(acts[i], eps)) return true; return false; }
    // gradient of -ln p[label]; inputs rounded to float where the library records them as float
    void backward(const std::vector<RD>& acts, int label, std::vector<RD>& gW, std::vector<RD>& gB) const {
        auto fl = [](RD r) { for (auto& v : r.v) v = (double)(float)v; return r; };
        gW.assign(L.size(), RD()); gB.assign(L.size(), RD());
        RD d = fl(acts.back()); d.flat((size_t)label) -= 1;
        for (int i = (int)L.size() - 2; i >= 0; i--) d = L[i].backward(fl(acts[i]), acts[i], d, gW[i], gB[i]);
    }
};
// A random stack: any mix of convolution, pooling and activation layers on images, then fully connected/activation layers, then softmax.
inline RefStack genStack(Src& s, const StackOpts& o = StackOpts()) {
    // now and then the size of a real network: wide layers, many filters, channels, labels and layers
    bool big = o.big && s.chance(1, 25); RefStack st; st.in = D3{s.range(1, big ? 2 * o.max_side : o.max_side), s.range(1, big ? 2 * o.max_side : o.max_side), s.range(1, big ? 6 : 3)}; D3 d = st.in; int n = s.range(0, big ? 2 * o.max_layers : o.max_layers - 1);
    bool flat = false; 
    for (int i = 0; i < n; i++) {
        RefLayer l; int k = flat ? (int)s.weighted({0, 1, 4, 4}) : (int)s.weighted({5, 4, 4, 2});
        if (k == 0) { l.kind = L_CONV; l.fd = D3{s.range(1, std::min(d.x, big ? 7 : 4)), s.range(1, std::min(d.y, big ? 7 : 4)), d.z}; l.nf = s.range(1, big ? 20 : 4); l.W = randRD(s, D3{l.fd.x, l.fd.y, l.fd.z * l.nf}, 1); l.b = randRD(s, D3{l.nf, 1, 1}, 1); }
        else if (k == 1) { l.kind = L_POOL; l.wx = s.range(1, std::min(d.x, big ? 6 : 3)); l.wy = s.range(1, std::min(d.y, big ? 6 : 3)); l.sx = s.range(1, big ? 6 : 3); l.sy = s.range(1, big ? 6 : 3); l.pk = s.range(0, 2); }
        else if (k == 2) { l.kind = L_ACT; l.act = s.range(0, 4); }
        else { l.kind = L_FC; l.nout = s.range(1, big ? 60 : 6); l.W = randRD(s, D3{l.nout, (int)d.size(), 1}, 1); l.b = randRD(s, D3{l.nout, 1, 1}, 1); flat = true; }
        st.L.push_back(l); d = l.outDim(d);
    }
    if (!(d.y == 1 && d.z == 1) || s.boolean() || d.x < 2) { RefLayer l; l.kind = L_FC; l.nout = s.range(2, big ? 40 : 5); l.W = randRD(s, D3{l.nout, (int)d.size(), 1}, 1); l.b = randRD(s, D3{l.nout, 1, 1}, 1); st.L.push_back(l); d = l.outDim(d); }
    st.labels = d.x;
    if (o.softmax) { RefLayer l; l.kind = L_SOFTMAX; l.nout = d.x; st.L.push_back(l); }
    return st;
}

// (the base class has no virtual destructor, so layers are owned through pointers that know the concrete type, as in ModelDescription)
inline std::shared_ptr<ModelLayer> makeLayer(const RefLayer& l) {
    switch (l.kind) {
        case L_CONV: return std::make_shared<Kernel>(l.fd.d(), (unsigned)l.nf, 1u);
        case L_POOL: return std::make_shared<Pooling>(dim2(l.wx, l.wy), dim2(l.sx, l.sy), (my_cnn::PoolingType)l.pk);
        case L_ACT: return std::make_shared<Activation>((my_cnn::ModelActivationFunction)l.act);
        case L_FC: return std::make_shared<ConnectedLayer>((unsigned)l.nout);
        default: return std::make_shared<Softmax>((size_t)l.nout);
    }
}
