// Reference P2 estimator (the variant the library documents: observations that
// are a new minimum or maximum replace the end marker and count for nothing
// else).  With a perturbation source, every computed marker height is moved by
// about one unit in the last place: an input on which such copies disagree is
// one where rounding decides, and it is not judged.
#pragma once
#include "common.hpp"

struct RefP2 {
    static double run(double p, const double *x, size_t size, Rng *noise) {
        double q[5], n[5], np[5], dn[5];
        for (int i = 0; i < 5; i++) q[i] = x[i], n[i] = i;
        std::sort(q, q + 5);
        double np0[5] = {0, 2 * p, 4 * p, 2 + 2 * p, 4}, dn0[5] = {0, p / 2, p, (1 + p) / 2, 1};
        memcpy(np, np0, sizeof np);
        memcpy(dn, dn0, sizeof dn);
        auto jit = [&](double v) {
            if (!noise) return v;
            long k = (long)noise->below(5) - 2;
            return v * (1 + (double)k * 1.2e-16);
        };
        for (size_t j = 5; j < size; j++) {
            double v = x[j];
            if (v < q[0]) {
                q[0] = v;
                continue;
            }
            if (v > q[4]) {
                q[4] = v;
                continue;
            }
            int first = 0; // first marker at or above v moves up, and those after it
            while (v > q[first]) first++;
            for (int i = first; i < 5; i++) n[i]++;
            for (int i = 0; i < 5; i++) np[i] += noise ? dn[i] * (1 + ((double)noise->below(5) - 2) * 1.2e-16) : dn[i];
            for (int i = 1; i < 4; i++) {
                double d = np[i] - n[i];
                if ((d >= 1 && n[i + 1] - n[i] > 1) || (d <= -1 && n[i - 1] - n[i] < -1)) {
                    int s = d > 0 ? 1 : -1;
                    double a = (n[i] - n[i - 1] + s) * (q[i + 1] - q[i]) / (n[i + 1] - n[i]);
                    double b = (n[i + 1] - n[i] - s) * (q[i] - q[i - 1]) / (n[i] - n[i - 1]);
                    double h = jit(q[i] + s / (n[i + 1] - n[i - 1]) * (a + b));
                    if (!(q[i - 1] < h && h < q[i + 1]))
                        h = jit(q[i] + s * (q[i + s] - q[i]) / (n[i + s] - n[i]));
                    q[i] = h;
                    n[i] += s;
                }
            }
        }
        return q[2];
    }
    // value, and whether rounding cannot matter; spread over the perturbed copies
    static double stable(double p, const std::vector<double> &x, bool *ok, double *tol, uint64_t seed = 7) {
        double mn = x[0], mx = x[0];
        for (double v : x) mn = std::min(mn, v), mx = std::max(mx, v);
        double base = run(p, x.data(), x.size(), nullptr), spread = 0;
        for (int k = 0; k < 5; k++) {
            Rng r(seed + k);
            double pp = k == 3 ? p * (1 - 2e-16) : k == 4 ? p * (1 + 2.5e-16) : p;
            double v = run(pp, x.data(), x.size(), &r);
            spread = std::max(spread, std::fabs(v - base));
        }
        double mag = std::max({mx - mn, 1e-9 * std::fabs(mn), 1e-9 * std::fabs(mx)});
        *ok = spread <= 1e-8 * (mx - mn);
        *tol = 20 * spread + 1e-9 * (mx - mn) + 4e-16 * mag;
        return base;
    }
};
