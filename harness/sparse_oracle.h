// The block diagonal (PITC / FITC) approximation of a Gaussian process,
// evaluated directly from its definition in long double.
#ifndef VERIF_SPARSE_ORACLE_H
#define VERIF_SPARSE_ORACLE_H

#include "gp_oracle.h"

#include <albatross/SparseGP>

namespace vfgp {

inline LM identity(std::size_t n) {
  LM o(n, n);
  for (std::size_t i = 0; i < n; ++i)
    o(i, i) = 1.L;
  return o;
}

inline LM inverse(const LM &a) { return solve(a, identity(a.r)); }

inline void add(LM *a, const LM &b, LD s = 1.L) {
  for (std::size_t i = 0; i < a->a.size(); ++i)
    a->a[i] += s * b.a[i];
}

// What is known through values at the inducing points: their precision
// (Sigma^-1 in the approximation's coordinates) and its right hand side.
struct SparseState {
  LM kuu;     // prior covariance of the inducing points
  LM sig_inv; // K_uu + K_uf A^-1 K_fu
  LV b;       // K_uf A^-1 (y - m)
  std::size_t n() const { return kuu.r; }
};

inline SparseState sparse_prior(const LM &kuu) {
  SparseState s;
  s.kuu = kuu;
  s.sig_inv = kuu;
  s.b = LV(kuu.r, 0.L);
  return s;
}

// K_ff + errors - Q_ff inside each group, as a dense matrix
inline LM block_noise(const LM &kuu, const LM &kfu, const LM &kff,
                      const std::vector<double> &var,
                      const std::vector<long> &group, LD nugget) {
  const std::size_t n = kff.r;
  const LM q = mul(kfu, solve(kuu, transpose(kfu)));
  LM A(n, n);
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t j = 0; j < n; ++j) {
      if (group[i] != group[j])
        continue;
      A(i, j) = kff(i, j) - q(i, j);
      if (i == j)
        A(i, i) += static_cast<LD>(var[i]) + nugget;
    }
  return A;
}

inline void sparse_absorb(SparseState *s, const LM &A, const LM &kfu,
                          const LV &residual) {
  const LM AiK = solve(A, kfu);
  add(&s->sig_inv, mul(transpose(kfu), AiK));
  const LV t = mul(transpose(AiK), residual);
  for (std::size_t i = 0; i < t.size(); ++i)
    s->b[i] += t[i];
}

// ksu: covariance of the requested features and the inducing points
inline Post sparse_predict(const SparseState &s, const LM &kss, const LM &ksu,
                           const LV &mean) {
  Post p;
  p.mean = mul(ksu, solve(s.sig_inv, s.b));
  for (std::size_t i = 0; i < mean.size(); ++i)
    p.mean[i] += mean[i];
  p.cov = kss;
  add(&p.cov, mul(ksu, solve(s.kuu, transpose(ksu))), -1.L);
  add(&p.cov, mul(ksu, solve(s.sig_inv, transpose(ksu))));
  return p;
}

// Knowledge given as the distribution of the values at some points (without
// the prior mean), everything else depends on those through the prior.
struct JointState {
  LM kzz;
  LV mean;
  LM cov;
};

inline void joint_absorb(JointState *s, const LM &A, const LM &kfz,
                         const LV &residual) {
  const LM W = transpose(solve(s->kzz, transpose(kfz)));
  LM S = mul(W, mul(s->cov, transpose(W)));
  add(&S, A);
  LV r = residual;
  const LV predicted = mul(W, s->mean);
  for (std::size_t i = 0; i < r.size(); ++i)
    r[i] -= predicted[i];
  const LM WC = mul(W, s->cov);
  const LV d = mul(transpose(WC), solve(S, r));
  for (std::size_t i = 0; i < d.size(); ++i)
    s->mean[i] += d[i];
  add(&s->cov, mul(transpose(WC), solve(S, WC)), -1.L);
}

inline Post joint_predict(const JointState &s, const LM &kss, const LM &ksz,
                          const LV &mean) {
  const LM w = solve(s.kzz, transpose(ksz));
  Post p;
  p.mean = mul(transpose(w), s.mean);
  for (std::size_t i = 0; i < mean.size(); ++i)
    p.mean[i] += mean[i];
  p.cov = kss;
  add(&p.cov, mul(ksz, w), -1.L);
  add(&p.cov, mul(transpose(w), mul(s.cov, w)));
  return p;
}

// Smallest squared Cholesky pivot (0 when there is none).
inline LD least_pivot(const LM &m) {
  LM L;
  if (!cholesky(m, &L))
    return 0.L;
  LD least = m.r ? HUGE_VALL : 0.L;
  for (std::size_t i = 0; i < m.r; ++i)
    least = std::min(least, L(i, i) * L(i, i));
  return least;
}

} // namespace vfgp

#endif
