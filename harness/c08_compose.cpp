// C08: composing and splitting trajectories and their vertices.
#include "trajref.hpp"
using namespace mtg;
using gen::EPS;
using vf::fmt;

static bool samePoly(const Polynomial& a, const Polynomial& b) {
  return a.N() == b.N() && a.getCoefficients(0) == b.getCoefficients(0);
}
static Segment::Vector segsOf(vf::Rng& g, int K, int N, int D, bool dyadic) { return gen::segments(g, K, N, D, dyadic); }

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  int K = g.i(1, 7), N = g.i(1, 12), D = g.i(1, 6);
  Segment::Vector segs = segsOf(g, K, N, D, g.p(0.5));
  Trajectory T;
  T.setSegments(segs);
  tref::Ref R(segs);
  std::string why;
  // ---- a single dimension -----------------------------------------------------
  {
    int d = g.i(0, D - 1);
    Trajectory S = T.getTrajectoryWithSingleDimension(d);
    vf::evaluated(); vf::count("single_dimensions");
    if (S.K() != K || S.D() != 1 || S.N() != N) vf::viol("C08.single.shape", fmt("K=%d D=%d N=%d", S.K(), S.D(), S.N()));
    if (!(std::abs(S.getMaxTime() - T.getMaxTime()) <= 1e-12 * T.getMaxTime())) vf::viol("C08.single.duration", fmt("%g instead of %g", S.getMaxTime(), T.getMaxTime()));
    for (int r = 0; r < 4; ++r) {
      double t = r == 0 ? T.getMaxTime() : g.uni(0, T.getMaxTime());
      int k = g.i(0, N);
      if (!R.match(t, 0, k, {d}, S.evaluate(t, k), &why)) vf::viol("C08.single.value", why);
    }
    for (int k = 0; k < K; ++k) {
      Segment one(1, 1);
      if (!segs[k].getSegmentWithSingleDimension(d, &one) || one.D() != 1 || one.N() != N || one.getTime() != segs[k].getTime() || !samePoly(one[0], segs[k][d]))
        vf::viol("C08.single.segment", fmt("dimension %d of segment %d", d, k));
      if (segs[k].getSegmentWithSingleDimension(D, &one) || segs[k].getSegmentWithSingleDimension(-1, &one)) vf::viol("C08.single.range", "a dimension that does not exist was returned");
    }
  }
  // ---- appended dimensions -----------------------------------------------------
  {
    int N2 = g.p(0.5) ? N : g.i(1, 12), D2 = g.i(1, 3);
    Segment::Vector s2 = segsOf(g, K, N2, D2, g.p(0.5));
    for (int k = 0; k < K; ++k) if (g.p(0.5)) s2[k].setTime(segs[k].getTime());
    Trajectory B, C;
    B.setSegments(s2);
    vf::evaluated(); vf::count(N2 == N ? "appended_same_order" : "appended_other_order");
    if (!T.getTrajectoryWithAppendedDimension(B, &C)) vf::viol("C08.append.refused", fmt("N %d and %d", N, N2));
    else {
      if (C.K() != K || C.D() != D + D2 || C.N() != std::max(N, N2)) vf::viol("C08.append.shape", fmt("K=%d D=%d N=%d", C.K(), C.D(), C.N()));
      else {
        double sum = 0;
        for (int k = 0; k < K; ++k) {
          const Segment& c = C.segments()[k];
          double want = std::max(segs[k].getTime(), s2[k].getTime());
          sum += want;
          if (c.getTime() != want) vf::viol("C08.append.time", fmt("segment lasts %g, the longer one %g", c.getTime(), want));
          for (int r = 0; r < 3; ++r) {
            double f = r == 0 ? 1.0 : g.u01();
            for (int d = 0; d < D + D2; ++d) {
              const Segment& o = d < D ? segs[k] : s2[k];
              const Polynomial& p = d < D ? o[d] : o[d - D];
              for (int q = 0; q <= 2; ++q) {
                double sc = std::pow(o.getTime() / want, q);
                gen::RV e = gen::refEval(gen::refPoly(p), q, f * o.getTime(), 8 * EPS * o.getTime());
                double got = c[d].evaluate(f * want, q);
                if (!gen::close(got, e.v * sc, (e.tol * 4) * sc + 1e-290)) vf::viol("C08.append.value", fmt("dim %d derivative %d at fraction %g: %.12g want %.12g (N %d+%d, T %g and %g)", d, q, f, got, e.v * sc, N, N2, segs[k].getTime(), s2[k].getTime()));
              }
            }
          }
        }
        if (!gen::close(C.getMaxTime(), sum, 1e-12 * sum)) vf::viol("C08.append.duration", fmt("%g want %g", C.getMaxTime(), sum));
      }
    }
    // the result may replace an operand
    {
      Segment u(1, 1), a = segs[0], b = s2[0];
      if (segs[0].getSegmentWithAppendedDimension(s2[0], &u)) {
        bool oa = a.getSegmentWithAppendedDimension(s2[0], &a), ob = segs[0].getSegmentWithAppendedDimension(b, &b);
        if (!oa || !ob || !(a == u) || !(b == u)) vf::viol("C08.append.alias", fmt("D %d+%d N %d+%d: into the first %d, into the second %d", D, D2, N, N2, a == u, b == u));
      }
      Segment z = segs[0];
      if (!z.getSegmentWithAppendedDimension(z, &z) || z.D() != 2 * D || z.N() != N || z.getTime() != segs[0].getTime()) vf::viol("C08.append.self", fmt("D %d", z.D()));
      else for (int d = 0; d < 2 * D; ++d) if (!samePoly(z[d], segs[0][d % D])) vf::viol("C08.append.self", fmt("dim %d", d));
      z = segs[0];
      int d = g.i(0, D - 1);
      if (!z.getSegmentWithSingleDimension(d, &z) || z.D() != 1 || !samePoly(z[0], segs[0][d]) || z.getTime() != segs[0].getTime()) vf::viol("C08.single.alias", fmt("dimension %d", d));
      Trajectory ta = T, tb = B;
      bool oa = ta.getTrajectoryWithAppendedDimension(B, &ta), ob = T.getTrajectoryWithAppendedDimension(tb, &tb);
      if (!oa || !ob || !(ta == C) || !(tb == C) || ta.getMaxTime() != C.getMaxTime() || tb.getMaxTime() != C.getMaxTime() || ta.D() != C.D() || tb.N() != C.N()) vf::viol("C08.append.alias", "trajectories");
      vf::count("in_place_results", 6);
    }
    // empty operands
    {
      Segment none(g.i(0, 1) * N, 0), u(1, 1), v(1, 1);
      none.setTime(g.logu(0.1, 9));
      if (!segs[0].getSegmentWithAppendedDimension(none, &u) || !none.getSegmentWithAppendedDimension(segs[0], &v) || !(u == segs[0]) || !(v == segs[0]) || u.getTime() != segs[0].getTime() || v.getTime() != segs[0].getTime()) vf::viol("C08.append.empty", "appending a segment without dimensions changed the other");
    }
    Trajectory E, r1, r2;
    if (!E.getTrajectoryWithAppendedDimension(T, &r1) || !T.getTrajectoryWithAppendedDimension(E, &r2) || !(r1 == T) || !(r2 == T)) vf::viol("C08.append.empty", "appending an empty trajectory changed the other");
  }
  // ---- concatenation ---------------------------------------------------------------
  {
    std::vector<Trajectory> add;
    Segment::Vector all = segs;
    int n = g.i(0, 3);
    for (int i = 0; i < n; ++i) {
      Segment::Vector s = segsOf(g, g.i(1, 4), N, D, g.p(0.5));
      all.insert(all.end(), s.begin(), s.end());
      Trajectory t;
      t.setSegments(s);
      add.push_back(t);
    }
    Trajectory M;
    M.setSegments(segsOf(g, 1, 2, 1, true));  // must be overwritten
    vf::evaluated(); vf::count("concatenations");
    if (!T.addTrajectories(add, &M)) vf::viol("C08.add.refused", "same shape refused");
    else {
      tref::Ref RA(all);
      if (M.K() != (int)all.size() || !gen::close(M.getMaxTime(), RA.total, 1e-12 * RA.total)) vf::viol("C08.add.shape", fmt("K=%d of %zu, %g s of %g", M.K(), all.size(), M.getMaxTime(), RA.total));
      for (int r = 0; r < 6; ++r) {
        double t = g.uni(0, RA.total);
        int k = g.i(0, N);
        if (!RA.match(t, 0, k, tref::allDims(D), M.evaluate(t, k), &why)) vf::viol("C08.add.value", why);
      }
      for (int k = 0; k < std::min(K, M.K()); ++k) if (!(M.segments()[k] == segs[k])) vf::viol("C08.add.segment", fmt("segment %d changed", k));
    }
    {  // in place: into the trajectory itself, into one of those added
      Trajectory a = T;
      std::vector<Trajectory> ad = add;
      bool ok = a.addTrajectories(ad, &a) && a.K() == (int)all.size() && a.getMaxTime() == M.getMaxTime();
      for (size_t k = 0; ok && k < all.size(); ++k) ok = a.segments()[k] == all[k];
      if (!ok) vf::viol("C08.add.alias", fmt("into itself: %d of %zu segments", a.K(), all.size()));
      if (!ad.empty()) {
        Trajectory* into = &ad[g.i(0, (int)ad.size() - 1)];
        ok = T.addTrajectories(ad, into) && into->K() == (int)all.size() && into->getMaxTime() == M.getMaxTime();
        for (size_t k = 0; ok && k < all.size(); ++k) ok = into->segments()[k] == all[k];
        if (!ok) vf::viol("C08.add.alias", fmt("into one of those added: %d of %zu segments", into->K(), all.size()));
      }
      vf::count("in_place_results", 2);
    }
    Trajectory w;
    w.setSegments(segsOf(g, 2, N + 1, D, true));
    if (T.addTrajectories({w}, &M)) vf::viol("C08.add.mismatch", "another number of coefficients was accepted");
    w.setSegments(segsOf(g, 2, N, D + 1, true));
    if (T.addTrajectories({w}, &M)) vf::viol("C08.add.mismatch", "another dimension was accepted");
    vf::count("refused_concatenations", 2);
  }
  // ---- translation ------------------------------------------------------------------
  {
    Trajectory O = T;
    Eigen::VectorXd off(std::max(std::min(D, 3), g.i(1, 6)));
    for (int i = 0; i < off.size(); ++i) off[i] = 10 * g.normal();
    vf::evaluated(); vf::count("translations");
    if (!O.offsetTrajectory(off)) vf::viol("C08.offset.refused", fmt("vector of %d for %d dimensions", (int)off.size(), D));
    if (O.K() != K || O.getSegmentTimes() != T.getSegmentTimes() || O.getMaxTime() != T.getMaxTime()) vf::viol("C08.offset.shape", "segments changed");
    else
      for (int r = 0; r < 6; ++r) {
        double t = g.uni(0, T.getMaxTime());
        int k = r < 3 ? 0 : g.i(1, N);
        Eigen::VectorXd a = T.evaluate(t, k), b = O.evaluate(t, k);
        for (int d = 0; d < D; ++d) {
          double want = a[d] + (k == 0 && d < 3 ? off[d] : 0);
          double sc = 0;
          for (size_t i : R.at(t, 1e-9)) sc = std::max(sc, gen::refEval(gen::refPoly(segs[i][d]), k, t - R.start[i], 1e-15 * R.total).tol);
          if (!gen::close(b[d], want, 4 * sc + 1e-14 * std::abs(want) + (k == 0 && d < 3 ? 1e-14 * std::abs(off[d]) : 0))) vf::viol("C08.offset.value", fmt("dim %d derivative %d: %.12g want %.12g", d, k, b[d], want));
        }
      }
    if (D > 1) {
      Trajectory q = T;
      Eigen::VectorXd small = Eigen::VectorXd::Ones(std::min(D, 3) - 1);
      if (q.offsetTrajectory(small) || !(q == T)) vf::viol("C08.offset.small", "a vector shorter than the position was applied");
      vf::count("refused_translations");
    }
  }
  // ---- vertices --------------------------------------------------------------------
  {
    int m = g.i(0, N);
    auto same = [&](const Vertex& v, double t, const std::vector<int>& dims, int mx, const char* key) {
      if (v.D() != dims.size()) { vf::viol(key, fmt("vertex of %zu dimensions", v.D())); return; }
      if ((int)v.getNumberOfConstraints() != mx + 1) vf::viol(key, fmt("%zu constraints, want derivatives 0..%d", v.getNumberOfConstraints(), mx));
      for (int k = 0; k <= mx; ++k) {
        Eigen::VectorXd c;
        if (!v.getConstraint(k, &c)) { vf::viol(key, fmt("derivative %d missing", k)); continue; }
        if (!R.match(t, 0, k, dims, c, &why)) vf::viol(key, why);
      }
      vf::count("vertices");
    };
    double t = g.uni(0, T.getMaxTime());
    vf::evaluated();
    same(T.getVertexAtTime(t, m), t, tref::allDims(D), m, "C08.vertex.at");
    same(T.getStartVertex(m), 0, tref::allDims(D), m, "C08.vertex.start");
    same(T.getGoalVertex(m), T.getMaxTime(), tref::allDims(D), m, "C08.vertex.goal");
    Vertex::Vector vs(2, Vertex(1)), pos, yaw;
    if (!T.getVertices(m, &vs) || (int)vs.size() != K + 1) vf::viol("C08.vertices", fmt("%zu vertices of %d segments", vs.size(), K));
    else for (int k = 0; k <= K; ++k) same(vs[k], k ? R.end[k - 1] : 0, tref::allDims(D), m, "C08.vertices.value");
    int mp = g.i(0, N), my = g.i(0, N);
    bool ok = T.getVertices(mp, my, &pos, &yaw);
    if (ok != (D >= 4)) vf::viol("C08.vertices.split", fmt("position/yaw vertices of a %d-dimensional trajectory: %d", D, ok));
    else if (ok) {
      if ((int)pos.size() != K + 1 || (int)yaw.size() != K + 1) vf::viol("C08.vertices.split", fmt("%zu %zu", pos.size(), yaw.size()));
      else for (int k = 0; k <= K; ++k) {
        double tt = k ? R.end[k - 1] : 0;
        same(pos[k], tt, {0, 1, 2}, mp, "C08.vertices.position");
        same(yaw[k], tt, {3}, my, "C08.vertices.yaw");
      }
      vf::count("split_vertices");
    }
  }
  // ---- identity ----------------------------------------------------------------------
  Trajectory cp = T;
  if (!(cp == T) || cp != T) vf::viol("C08.equal", "a copy differs");
  Segment::Vector ch = segs;
  int k = g.i(0, K - 1), d = g.i(0, D - 1), c = g.i(0, N - 1);
  Eigen::VectorXd co = ch[k][d].getCoefficients(0);
  co[c] += 1 + std::abs(co[c]);
  ch[k][d].setCoefficients(co);
  Trajectory df;
  df.setSegments(ch);
  if (df == T || !(df != T)) vf::viol("C08.equal", fmt("a trajectory with another coefficient (segment %d dim %d) is equal", k, d));
  vf::distinct(gen::hashVec(segs[0][0].getCoefficients(), gen::hashVec(segs.back()[D - 1].getCoefficients())));
  vf::sample(fmt("K=%d N=%d D=%d over %.6g s", K, N, D, R.total));
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C08", runCase); }
