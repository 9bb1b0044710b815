// C10: the linear optimiser meets every constraint and is continuous.
#include "lin.hpp"
using namespace mtg;
using vf::fmt;

template <int N>
static void one(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  lin::Problem p = lin::problem(g, N);
  const double tol = N == 4 ? 1e-12 : N == 6 ? 1e-11 : N == 8 ? 1e-9 : N == 10 ? 1e-8 : 1e-6;
  PolynomialOptimization<N> opt(p.D);
  // an earlier, different problem on the same object must leave no trace
  if (g.p(0.4)) {
    lin::Problem q = lin::problem(g, N);
    q.D = p.D;
    q.v.clear();
    for (int i = 0; i <= q.K(); ++i) { Vertex v(p.D); Eigen::VectorXd c(p.D); for (int d = 0; d < p.D; ++d) c[d] = g.normal(); if (i == 0 || i == q.K() || g.p(0.05)) v.makeStartOrEnd(c, N / 2 - 1); else v.addConstraint(0, c); q.v.push_back(v); }
    opt.setupFromVertices(q.v, q.T, q.k);
    opt.solveLinear();
    vf::count("reused_objects");
  }
  bool full = g.p(0.1);
  if (full)
    for (auto& v : p.v) for (int q = 0; q < N / 2; ++q) if (!v.hasConstraint(q)) { Eigen::VectorXd c(p.D); for (int d = 0; d < p.D; ++d) c[d] = g.normal(); v.addConstraint(q, c); }
  // constraints beyond the highest usable derivative are to be ignored
  lin::Problem given = p;
  if (g.p(0.2)) { given.v[g.i(0, p.K())].addConstraint(N / 2 + g.i(0, 2), Eigen::VectorXd::Constant(p.D, 3.0)); vf::count("ignored_constraints"); }
  vf::evaluated();
  if (!opt.setupFromVertices(given.v, p.T, p.k) || !opt.solveLinear()) { vf::viol("C10.refused", lin::show(p)); return; }
  vf::count(fmt("problems_N%d", N));
  if (full) vf::count("fully_constrained");
  Trajectory t;
  opt.getTrajectory(&t);
  lin::checkSpline(p, t.segments(), tol, "C10", lin::show(p));
  // accessors agree with the problem
  std::vector<double> times;
  opt.getSegmentTimes(&times);
  Vertex::Vector back;
  opt.getVertices(&back);
  if (times != p.T) vf::viol("C10.times", "segment times differ");
  bool vok = back.size() == p.v.size();
  for (size_t i = 0; vok && i < back.size(); ++i) vok = back[i].isEqualTol(p.v[i], 0);
  if (!vok) vf::viol("C10.vertices", "the optimiser's vertices are not the usable constraints given");
  size_t fixed = 0, all = (size_t)p.K() * N;
  for (auto& v : p.v) for (int q = 0; q < N / 2; ++q) fixed += v.hasConstraint(q);
  size_t nfree = (size_t)(p.K() + 1) * (N / 2) - fixed;
  if (opt.getNumberAllConstraints() != all || opt.getNumberFixedConstraints() != fixed || opt.getNumberFreeConstraints() != nfree || opt.getNumberSegments() != (size_t)p.K() || (int)opt.getDimension() != p.D || opt.getDerivativeToOptimize() != p.k)
    vf::viol("C10.counts", fmt("all %zu/%zu fixed %zu/%zu free %zu/%zu", opt.getNumberAllConstraints(), all, opt.getNumberFixedConstraints(), fixed, opt.getNumberFreeConstraints(), nfree));
  // new segment times
  if (g.p(0.6)) {
    lin::Problem q = p;
    for (double& T : q.T) T *= g.logu(0.6, 1.7);
    opt.updateSegmentTimes(q.T);
    opt.solveLinear();
    Trajectory u, w;
    opt.getTrajectory(&u);
    lin::checkSpline(q, u.segments(), tol, "C10", "after updateSegmentTimes: " + lin::show(q));
    PolynomialOptimization<N> fresh(p.D);
    fresh.setupFromVertices(q.v, q.T, q.k);
    fresh.solveLinear();
    fresh.getTrajectory(&w);
    if (!(u == w)) {
      for (int i = 0; i < q.K(); ++i) for (int d = 0; d < q.D; ++d) {
        Eigen::VectorXd a = u.segments()[i][d].getCoefficients(0), b = w.segments()[i][d].getCoefficients(0);
        if ((a - b).norm() > 1e-6 * (a.norm() + b.norm())) vf::viol("C10.update", fmt("updated and fresh solutions differ: %s", lin::show(q).c_str()));
      }
    }
    vf::count("time_updates");
  }
  // arbitrary free derivatives: still all constraints, and the chosen values
  if (nfree > 0 && g.p(0.6)) {
    opt.updateSegmentTimes(p.T);
    std::vector<Eigen::VectorXd> fr, got;
    opt.getFreeConstraints(&fr);
    bool shape = (int)fr.size() == p.D;
    for (auto& f : fr) shape &= (size_t)f.size() == nfree;
    if (!shape) vf::viol("C10.free.shape", "free constraints");
    else {
      for (auto& f : fr) for (int i = 0; i < f.size(); ++i) f[i] = f[i] * g.uni(0.5, 1.5) + 0.1 * g.normal();
      opt.setFreeConstraints(fr);
      opt.getFreeConstraints(&got);
      for (int d = 0; d < p.D; ++d) if (!(got[d] == fr[d])) vf::viol("C10.free.kept", "set and read free constraints differ");
      Trajectory u;
      opt.getTrajectory(&u);
      lin::checkSpline(p, u.segments(), tol, "C10", "after setFreeConstraints: " + lin::show(p));
      // every free value is the derivative it stands for (vertex order, then derivative)
      int idx = 0;
      for (int v = 0; v <= p.K(); ++v) for (int q = 0; q < N / 2; ++q) if (!p.v[v].hasConstraint(q)) {
        for (int d = 0; d < p.D; ++d) {
          int s = v < p.K() ? v : v - 1;
          ref::P r = ref::deriv(gen::refPoly(u.segments()[s][d]), q);
          double tt = v < p.K() ? 0 : p.T[s], e = (double)ref::eval(r, tt);
          if (!(std::abs(e - fr[d][idx]) <= tol * (ref::absEval(r, tt) + std::abs(fr[d][idx])))) vf::viol("C10.free.value", fmt("vertex %d derivative %d is %.12g, chosen %.12g; %s", v, q, e, fr[d][idx], lin::show(p).c_str()));
        }
        ++idx;
      }
      vf::count("chosen_free_values");
    }
  }
  vf::distinct(vf::fnv(p.T.data(), p.T.size() * 8, gen::hashVec(t.segments()[0][0].getCoefficients(0))));
  vf::sample(lin::show(p));
}
static void runCase(vf::Ctx& x) {
  switch (x.idx % 5) { case 0: one<4>(x); break; case 1: one<6>(x); break; case 2: one<8>(x); break; case 3: one<12>(x); break; default: one<10>(x); }
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C10", runCase); }
