// C15: rotations, angular rates and states.
#include <new>
#include "trajref.hpp"
#include "eigen_mav_msgs.hpp"
using namespace mav_msgs;
using vf::fmt;
typedef Eigen::Vector3d V;
typedef Eigen::Matrix3d M;

static V dir(vf::Rng& g) {
  if (g.p(0.2)) { V v = V::Zero(); v[g.i(0, 2)] = g.sgn(); return v; }
  if (g.p(0.2)) { V v(g.i(-1, 1), g.i(-1, 1), g.i(-1, 1)); if (v.norm() > 0) return v.normalized(); }
  V v(g.normal(), g.normal(), g.normal());
  return v.normalized();
}
static double angle(vf::Rng& g) {
  switch (g.i(0, 7)) {
    case 0: return 0;
    case 1: return g.logu(1e-12, 1e-3);
    case 2: return g.logu(9e-4, 2e-3);
    case 3: return M_PI - (g.p(0.3) ? 0 : g.logu(1e-16, 1e-2));
    case 4: return g.uni(0, 12);
    case 5: return g.i(0, 8) * M_PI / 4;
    default: return g.uni(0, M_PI);
  }
}
static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
static bool closeTo(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double tol) { return ((a - b).array().abs() <= tol).all(); }  // false for NaN

static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  vf::evaluated();
  V r = dir(g) * angle(g);
  std::string what = fmt("rotation vector %.17g %.17g %.17g", r[0], r[1], r[2]);
  // ---- exponential -------------------------------------------------------------------
  M R, want = tref::expQ(r);
  matrixFromRotationVector(r, &R);
  vf::maxv("matrix_error", (R - want).norm());
  if (!closeTo(R, want, 1e-14 * (10 + r.norm()))) vf::viol("C15.matrix", what);
  vf::count("matrices");
  // ---- logarithm ------------------------------------------------------------------------
  V back(9, 9, 9);
  if (!vectorFromRotationMatrix(R, &back)) vf::viol("C15.vector.refused", what);
  else {
    M R2 = tref::expQ(back);
    if (std::abs(r.norm() - M_PI) < 0.02) vf::count("half_turns");
    vf::maxv("vector_error", (R2 - R).norm());
    if (!(back.norm() <= M_PI * (1 + 1e-12)) || !closeTo(R2, R, 2e-6)) vf::viol("C15.vector", what + fmt(" comes back as %.12g %.12g %.12g", back[0], back[1], back[2]));
    // unique below half a turn
    if (r.norm() < M_PI - 1e-3 && !closeTo(back, r, 2e-6)) vf::viol("C15.vector.unique", what + fmt(" comes back as %.12g %.12g %.12g", back[0], back[1], back[2]));
    if (r.norm() > 1e-3 && !closeTo(R2, R, 1e-7)) vf::viol("C15.vector", what);
    vf::count("vectors");
  }
  // ---- what a rotation matrix is ---------------------------------------------------------
  {
    if (!isRotationMatrix(R)) vf::viol("C15.isrotation", what);
    M bad = R;
    int k = g.i(0, 3);
    if (k == 0) bad = R * V(1, 1, -1).asDiagonal();        // reflection
    else if (k == 1) bad = -R;
    else if (k == 2) bad *= 1 + g.sgn() * g.logu(1e-5, 1);
    else bad(g.i(0, 2), g.i(0, 2)) += g.sgn() * g.logu(1e-4, 1);
    if (k >= 3 && (bad.transpose() * bad - M::Identity()).norm() < 1e-5) ;
    else {
      V keep(1, 2, 3);
      if (isRotationMatrix(bad) || vectorFromRotationMatrix(bad, &keep)) vf::viol("C15.notrotation", fmt("kind %d of ", k) + what);
      vf::count("refused_matrices");
    }
  }
  // ---- skew ---------------------------------------------------------------------------------
  {
    V a(5 * g.normal(), 5 * g.normal(), 5 * g.normal()), b(g.normal(), g.normal(), g.normal()), c;
    M s;
    skewMatrixFromVector(a, &s);
    if (!closeTo(s * b, a.cross(b), 1e-13 * a.norm() * b.norm()) || !closeTo(s, -s.transpose(), 0)) vf::viol("C15.skew", "cross product");
    if (!vectorFromSkewMatrix(s, &c) || !(c == a)) vf::viol("C15.unskew", "not the vector");
    s(g.i(0, 2), g.i(0, 2)) += g.logu(1e-5, 1);
    if (vectorFromSkewMatrix(s, &c) || !(c == V::Zero())) vf::viol("C15.unskew.refuse", "accepted a matrix that is not skew symmetric");
  }
  // ---- angular velocity and acceleration ----------------------------------------------------------
  {
    V v(2 * g.normal(), 2 * g.normal(), 2 * g.normal()), a(3 * g.normal(), 3 * g.normal(), 3 * g.normal());
    if (g.p(0.1)) v.setZero();
    V w, wd, gw = omegaFromRotationVector(r, v), gd = omegaDotFromRotationVector(r, v, a);
    tref::omegaRef(r, v, a, &w, &wd);
    bool small = r.norm() < 1.001e-3;
    double tw = (small ? 6e-4 : 1e-9) * v.norm() + 1e-15, td = (small ? 1e-3 : 1e-8) * (a.norm() + v.squaredNorm()) + 1e-15;
    vf::maxv(small ? "omega_small" : "omega", (gw - w).norm() / (v.norm() + 1e-300));
    if (!closeTo(gw, w, tw)) vf::viol("C15.omega", what + fmt(" rate %.9g %.9g %.9g: got %.12g %.12g %.12g want %.12g %.12g %.12g", v[0], v[1], v[2], gw[0], gw[1], gw[2], w[0], w[1], w[2]));
    if (!closeTo(gd, wd, td)) vf::viol("C15.omegadot", what + fmt(" rate %.9g %.9g %.9g: got %.12g %.12g %.12g want %.12g %.12g %.12g", v[0], v[1], v[2], gd[0], gd[1], gd[2], wd[0], wd[1], wd[2]));
    vf::count(small ? "rates_small_angle" : "rates");
  }
  // ---- yaw and Euler angles --------------------------------------------------------------------------
  {
    double y = g.p(0.2) ? g.i(-8, 8) * M_PI / 4 : g.uni(-10, 10), p = g.p(0.3) ? g.sgn() * M_PI / 2 : g.uni(-M_PI / 2, M_PI / 2), ro = g.uni(-M_PI, M_PI);
    if (std::abs(wrap(yawFromQuaternion(quaternionFromYaw(y)) - y)) > 1e-12 * (1 + std::abs(y))) vf::viol("C15.yaw", fmt("yaw %.17g", y));
    Eigen::Quaterniond q = Eigen::AngleAxisd(y, V::UnitZ()) * Eigen::AngleAxisd(p, V::UnitY()) * Eigen::AngleAxisd(ro, V::UnitX());
    if (g.p(0.3)) q.coeffs() = -q.coeffs();
    V e;
    getEulerAnglesFromQuaternion(q, &e);
    bool lock = std::abs(std::abs(p) - M_PI / 2) < 1e-6;
    if (!e.allFinite() || !(std::abs(e[1] - p) <= 1e-7) || (!lock && !closeTo(e, V(wrap(ro), p, wrap(y)), 1e-8 / std::cos(p)) && !(std::abs(wrap(e[0] - ro)) < 1e-8 / std::cos(p) && std::abs(wrap(e[2] - y)) < 1e-8 / std::cos(p))))
      vf::viol("C15.euler", fmt("roll %.12g pitch %.17g yaw %.12g comes back as %.12g %.12g %.12g", ro, p, y, e[0], e[1], e[2]));
    if (lock) vf::count("gimbal_lock");
    else if (std::abs(wrap(yawFromQuaternion(q) - y)) > 1e-8 / std::cos(p)) vf::viol("C15.yaw.tilted", fmt("roll %g pitch %g yaw %g", ro, p, y));
    vf::count("euler_angles");
    // accessors of states
    EigenTrajectoryPoint tp;
    double ya = g.uni(-3, 3), yr = g.normal(), yc = g.normal();
    tp.angular_velocity_W = V(1, 2, 3);   // what was there before must not remain
    tp.angular_acceleration_W = V(4, 5, 6);
    tp.orientation_W_B = q;
    tp.setFromYaw(ya); tp.setFromYawRate(yr); tp.setFromYawAcc(yc);
    if (std::abs(tp.getYaw() - ya) > 1e-12 || tp.getYawRate() != yr || tp.getYawAcc() != yc || !closeTo(tp.orientation_W_B.toRotationMatrix(), M(Eigen::AngleAxisd(ya, V::UnitZ())), 1e-14) || !(tp.angular_velocity_W == V(0, 0, yr)) || !(tp.angular_acceleration_W == V(0, 0, yc))) vf::viol("C15.point.yaw", "trajectory point");
    EigenOdometry od;
    od.orientation_W_B = q;
    od.angular_velocity_B = V(1, 2, 3);
    od.velocity_B = V(g.normal(), g.normal(), g.normal());
    od.setFromYaw(ya); od.setFromYawRate(yr);
    if (std::abs(od.getYaw() - ya) > 1e-12 || od.getYawRate() != yr || !closeTo(od.orientation_W_B.toRotationMatrix(), M(Eigen::AngleAxisd(ya, V::UnitZ())), 1e-14) || !(od.angular_velocity_B == V(0, 0, yr))) vf::viol("C15.odometry.yaw", "odometry");
    od.orientation_W_B = q;
    V vw(g.normal(), g.normal(), g.normal()), oe;
    od.setVelocityWorld(vw);
    if (!closeTo(od.getVelocityWorld(), vw, 1e-12) || std::abs(od.velocity_B.norm() - vw.norm()) > 1e-12 || !closeTo(q.toRotationMatrix() * od.velocity_B, vw, 1e-12)) vf::viol("C15.odometry.velocity", "body and world velocity");
    od.getEulerAngles(&oe);
    if (!(oe == e)) vf::viol("C15.odometry.euler", "Euler angles");
  }
  // ---- transformed states ----------------------------------------------------------------------------------
  {
    auto rv = [&] { return V(g.normal(), g.normal(), g.normal()); };
    int64_t ns = g.i(0, 1000000000);
    Eigen::Quaterniond q(want);
    V p = rv(), v = rv(), a = rv(), j = rv(), s = rv(), w = rv(), wd = rv();
    alignas(64) unsigned char buf[sizeof(EigenTrajectoryPoint)], buf2[sizeof(EigenOdometry)];
    memset(buf, 0x5a, sizeof buf);
    memset(buf2, 0x5a, sizeof buf2);
    bool shortc = g.p(0.5);
    MavActuation dof = g.p(0.5) ? DOF4 : DOF6;
    EigenTrajectoryPoint* t = shortc ? new (buf) EigenTrajectoryPoint(ns, p, v, a, j, s, q, w, dof) : new (buf) EigenTrajectoryPoint(ns, p, v, a, j, s, q, w, wd, dof);
    if (t->timestamp_ns >= 0) vf::viol("C15.point.timestamp", fmt("a point made without timestamp has timestamp %lld", (long long)t->timestamp_ns));
    if (t->time_from_start_ns != ns || t->degrees_of_freedom != dof || !(t->position_W == p && t->orientation_W_B.coeffs() == q.coeffs() && t->velocity_W == v && t->acceleration_W == a && t->jerk_W == j && t->snap_W == s && t->angular_velocity_W == w && t->angular_acceleration_W == (shortc ? V(V::Zero()) : wd))) vf::viol("C15.point.members", "constructor");
    EigenOdometry* od = new (buf2) EigenOdometry(p, q, v, w);
    if (od->timestamp_ns >= 0 || !(od->position_W == p && od->orientation_W_B.coeffs() == q.coeffs() && od->velocity_B == v && od->angular_velocity_B == w)) vf::viol("C15.odometry.members", "constructor");
    {
      EigenMavState ms(p, v, a, q, w, wd);
      if (!(ms.position_W == p && ms.velocity_W == v && ms.acceleration_B == a && ms.orientation_W_B.coeffs() == q.coeffs() && ms.angular_velocity_B == w && ms.angular_acceleration_B == wd)) vf::viol("C15.state.members", "constructor");
      alignas(64) unsigned char b1[sizeof(EigenMavState)], b2[sizeof(EigenTrajectoryPoint)], b3[sizeof(EigenOdometry)], b4[sizeof(EigenRateThrust)], b5[sizeof(EigenTorqueThrust)], b6[sizeof(EigenRollPitchYawrateThrust)];
      for (auto* b : {b1, b2, b3, b4, b5, b6}) memset(b, 0x5a, b == b1 ? sizeof b1 : b == b2 ? sizeof b2 : b == b3 ? sizeof b3 : b == b4 ? sizeof b4 : b == b5 ? sizeof b5 : sizeof b6);
      EigenMavState* m0 = new (b1) EigenMavState;
      EigenTrajectoryPoint* t0 = new (b2) EigenTrajectoryPoint;
      EigenOdometry* o0 = new (b3) EigenOdometry;
      EigenRateThrust* r0 = new (b4) EigenRateThrust;
      EigenTorqueThrust* q0 = new (b5) EigenTorqueThrust;
      EigenRollPitchYawrateThrust* y0 = new (b6) EigenRollPitchYawrateThrust;
      auto z = [](const V& u) { return u == V::Zero(); };
      auto one = [](const Eigen::Quaterniond& u) { return u.coeffs() == Eigen::Vector4d(0, 0, 0, 1); };
      if (!(z(m0->position_W) && z(m0->velocity_W) && z(m0->acceleration_B) && z(m0->angular_velocity_B) && z(m0->angular_acceleration_B) && one(m0->orientation_W_B))) vf::viol("C15.default", "state");
      if (!(z(t0->position_W) && z(t0->velocity_W) && z(t0->acceleration_W) && z(t0->jerk_W) && z(t0->snap_W) && z(t0->angular_velocity_W) && z(t0->angular_acceleration_W) && one(t0->orientation_W_B) && t0->timestamp_ns < 0 && t0->time_from_start_ns == 0)) vf::viol("C15.default", "trajectory point");
      if (!(z(o0->position_W) && z(o0->velocity_B) && z(o0->angular_velocity_B) && one(o0->orientation_W_B) && o0->timestamp_ns < 0)) vf::viol("C15.default", "odometry");
      if (!(z(r0->angular_rates) && z(r0->thrust) && z(q0->torque) && z(q0->thrust) && y0->roll == 0 && y0->pitch == 0 && y0->yaw_rate == 0 && z(y0->thrust))) vf::viol("C15.default", "thrust commands");
      EigenRateThrust r1(w, a);
      EigenTorqueThrust q1(wd, a);
      EigenRollPitchYawrateThrust y1(1, 2, 3, a);
      if (!(r1.angular_rates == w && r1.thrust == a && q1.torque == wd && q1.thrust == a && y1.roll == 1 && y1.pitch == 2 && y1.yaw_rate == 3 && y1.thrust == a)) vf::viol("C15.command.members", "constructor");
      vf::count("default_states");
    }
    Eigen::Affine3d T = Eigen::Affine3d::Identity();
    Eigen::Quaterniond tq(tref::expQ(dir(g) * g.uni(0, 3)));
    V tt = 10 * rv();
    T.translate(tt).rotate(tq);
    M TR = tq.toRotationMatrix();
    EigenTrajectoryPoint u = T * *t;
    double tol = 1e-12;
    bool ok = closeTo(u.position_W, TR * p + tt, 1e-11) && closeTo(u.velocity_W, TR * v, tol) && closeTo(u.acceleration_W, TR * a, tol) && closeTo(u.jerk_W, TR * j, tol) && closeTo(u.snap_W, TR * s, tol) &&
              closeTo(u.angular_velocity_W, TR * w, tol) && closeTo(u.angular_acceleration_W, TR * t->angular_acceleration_W, tol) && closeTo(u.orientation_W_B.toRotationMatrix(), TR * q.toRotationMatrix(), tol) &&
              u.time_from_start_ns == ns && u.timestamp_ns == t->timestamp_ns && u.degrees_of_freedom == dof;
    if (!ok) vf::viol("C15.transform", "a rigid motion of a trajectory point");
    vf::count("transforms");
    // ---- rotor speeds --------------------------------------------------------------------------------------
    int nr = g.i(4, 8);
    Eigen::MatrixXd A = Eigen::MatrixXd::NullaryExpr(nr, 4, [&] { return g.normal(); });
    V I(g.logu(0.01, 1), g.logu(0.01, 1), g.logu(0.01, 1));
    double mass = g.logu(0.1, 5);
    Eigen::VectorXd n;
    getSquaredRotorSpeedsFromAllocationAndState(A, I, mass, w, wd, a, &n);
    Eigen::Vector4d in(I[0] * wd[0] + (I[2] - I[1]) * w[1] * w[2], I[1] * wd[1] + (I[0] - I[2]) * w[2] * w[0], I[2] * wd[2] + (I[1] - I[0]) * w[0] * w[1], mass * std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]));
    if (n.size() != nr || !closeTo(n, A * in, 1e-11 * (1 + A.norm() * in.norm()))) vf::viol("C15.rotors", "rotor speeds");
    vf::count("rotor_speeds");
  }
  // ---- time and gravity ------------------------------------------------------------------------------------------
  {
    double s = g.p(0.5) ? g.uni(0, 1e5) : g.logu(1e-9, 1);
    int64_t ns = secondsToNanoseconds(s);
    if (!(std::abs((double)ns - s * 1e9) <= 1 + 1e-6 * s) || std::abs(nanosecondsToSeconds(ns) - s) > 1.1e-9) vf::viol("C15.time", fmt("%.17g s is %lld ns", s, (long long)ns));
    double lat = g.uni(-M_PI / 2, M_PI / 2), h = g.uni(0, 10000), G = MagnitudeOfGravity(h, lat);
    double s2 = (1 - std::cos(2 * lat)) / 2, s22 = (1 - std::cos(4 * lat)) / 2, ref = 9.780327 * (1 + 0.0053024 * s2 - 0.0000058 * s22 - 3.155e-7 * h);
    if (!(std::abs(G - ref) <= 1e-9)) vf::viol("C15.gravity", fmt("latitude %g height %g: %.12g want %.12g", lat, h, G, ref));
  }
  vf::distinct(vf::fnv(r.data(), 24));
  vf::sample(what);
}
int main(int c, char** v) {
  gen::quiet(v[0]);
  std::cerr.setstate(std::ios::failbit);  // the library explains every refusal
  return vf::drive(c, v, "C15", runCase);
}
