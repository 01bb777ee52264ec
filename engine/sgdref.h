// Sequential mini-batch SGD on reference models.
#pragma once
#include "modelref.h"
struct RefRun { bool fragile = false; int lo = 0, hi = 0; };
// the first N samples of one epoch of sequential mini-batch SGD on the reference model
inline RefRun refEpoch(RefStack& st, const std::vector<RD>& xs, const std::vector<int>& lab, int B, double lr, double& gmax, size_t N) {
    RefRun r;
    for (size_t s0 = 0; s0 < N; s0 += (size_t)B) {
        size_t s1 = std::min(N, s0 + (size_t)B); std::vector<RD> aW(st.L.size()), aB(st.L.size());
        for (size_t i = s0; i < s1; i++) {
            auto acts = st.forward(xs[i]); for (auto& t : acts) for (auto v : t.v) if (!(std::fabs(v) < 1e4)) r.fragile = true; if (st.nearKink(acts, 1e-6)) r.fragile = true;
            const RD& p = acts.back(); size_t n = p.v.size(), best = 0; for (size_t k = 1; k < n; k++) if (p.flat(k) > p.flat(best)) best = k;
            bool close = false; for (size_t k = 0; k < n; k++) if (k != best && p.flat(best) - p.flat(k) < 1e-6) close = true;
            bool ok = (int)best == lab[i]; r.lo += ok && !close; r.hi += ok || (close && p.flat(best) - p.flat((size_t)lab[i]) < 1e-6);
            std::vector<RD> gW, gB; st.backward(acts, lab[i], gW, gB);
            for (size_t k = 0; k < st.L.size(); k++) { if (aW[k].v.empty()) { aW[k] = gW[k]; aB[k] = gB[k]; } else { for (size_t q = 0; q < gW[k].v.size(); q++) aW[k].v[q] += gW[k].v[q]; for (size_t q = 0; q < gB[k].v.size(); q++) aB[k].v[q] += gB[k].v[q]; } for (auto v : gW[k].v) gmax = std::max(gmax, std::fabs(v)); }
        }
        for (size_t k = 0; k < st.L.size(); k++) { for (size_t q = 0; q < aW[k].v.size(); q++) st.L[k].W.v[q] -= lr * aW[k].v[q] / (double)(s1 - s0); for (size_t q = 0; q < aB[k].v.size(); q++) st.L[k].b.v[q] -= lr * aB[k].v[q] / (double)(s1 - s0); }
    }
    return r;
}
// Training amplifies rounding: a twin with slightly different parameters is trained alongside, and if the two part, the exact result is not predictable.
struct Twin {
    RefStack t;
    explicit Twin(const RefStack& st) : t(st) { Bulk b(12345); for (auto& l : t.L) { for (auto& v : l.W.v) v += 1e-7 * unit(b) * (1 + std::fabs(v)); for (auto& v : l.b.v) v += 1e-7 * unit(b) * (1 + std::fabs(v)); } }
    bool parted(const RefStack& st, double g) const {
        double d = 0; for (size_t i = 0; i < st.L.size(); i++) { for (size_t q = 0; q < st.L[i].W.v.size(); q++) d = std::max(d, std::fabs(st.L[i].W.v[q] - t.L[i].W.v[q])); for (size_t q = 0; q < st.L[i].b.v.size(); q++) d = std::max(d, std::fabs(st.L[i].b.v[q] - t.L[i].b.v[q])); }
        return !(d < 2e-6 * g);
    }
};
