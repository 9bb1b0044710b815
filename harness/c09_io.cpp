// C09: persistence of segments and trajectories.
#include "trajref.hpp"
#include <csignal>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <yaml-cpp/yaml.h>
#include "mav_trajectory_generation/io.h"
#include "mav_trajectory_generation/trajectory_sampling.h"
using namespace mtg;
using vf::fmt;

static Segment::Vector make(vf::Rng& g, int K, int N, int D) {
  Segment::Vector v;
  for (int k = 0; k < K; ++k) {
    Segment s(N, D);
    for (int d = 0; d < D; ++d) {
      Eigen::VectorXd c = gen::coeffs(g, N, 1.0);
      if (g.p(0.2)) for (int i = 0; i < N; ++i) c[i] = g.sgn() * g.logu(1e-290, 1e290);
      if (g.p(0.2)) for (int i = 0; i < N; ++i) c[i] = g.p(0.5) ? 1.0 / 3 * g.i(-9, 9) : g.sgn() * (1 + 2.3e-16 * g.i(0, 9));
      s[d] = Polynomial(c);
    }
    s.setTime(g.p(0.1) ? 0.0 : g.p(0.3) ? g.logu(1e-9, 1e-3) : g.p(0.1) ? g.logu(1e3, 1e8) : gen::duration(g, g.p(0.5)));
    v.push_back(s);
  }
  return v;
}
static bool consistent(const Segment::Vector& v, std::string* why) {
  for (size_t k = 0; k < v.size(); ++k) {
    if (v[k].D() < 0 || v[k].N() < 0) { *why = fmt("segment %zu N=%d D=%d", k, v[k].N(), v[k].D()); return false; }
    for (int d = 0; d < v[k].D(); ++d)
      if (v[k][d].N() != v[k].N() || v[k][d].getCoefficients(0).size() != v[k].N()) { *why = fmt("segment %zu says N=%d, dimension %d has %d coefficients", k, v[k].N(), d, v[k][d].N()); return false; }
  }
  return true;
}
static void same(const Segment::Vector& a, const Segment::Vector& b, bool exactTime, const char* key) {
  if (a.size() != b.size()) { vf::viol(key, fmt("%zu segments became %zu", a.size(), b.size())); return; }
  for (size_t k = 0; k < a.size(); ++k) {
    if (a[k].N() != b[k].N() || a[k].D() != b[k].D()) { vf::viol(key, fmt("segment %zu: shape %d,%d became %d,%d", k, a[k].N(), a[k].D(), b[k].N(), b[k].D())); return; }
    double tol = (exactTime ? 0 : 1.0000001e-9) + (exactTime && a[k].getTime() < 1e5 ? 0 : 1e-15 * a[k].getTime());
    if (std::abs(a[k].getTime() - b[k].getTime()) > tol) vf::viol(std::string(key) + ".time", fmt("segment %zu: %.17g s became %.17g s", k, a[k].getTime(), b[k].getTime()));
    for (int d = 0; d < a[k].D(); ++d) {
      Eigen::VectorXd x = a[k][d].getCoefficients(0), y = b[k][d].getCoefficients(0);
      if (x.size() != y.size() || !(x == y)) { vf::viol(std::string(key) + ".coefficients", fmt("segment %zu dim %d: %s became %s", k, d, gen::show(x).c_str(), gen::show(y).c_str())); return; }
    }
  }
}
static std::string path(const char* n) {
  const char* d = getenv("VERIF_SCRATCH");
  return std::string(d ? d : "/tmp") + "/" + n;
}
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string& p, const std::string& c) { std::ofstream f(p); f << c; }

static void corrupt(vf::Rng& g, const Segment::Vector& segs, const std::string& text) {
  // structured damage: the YAML of a node or file is changed in one place
  YAML::Node root = YAML::Load(text);
  YAML::Node s = root["segments"][g.i(0, (int)segs.size() - 1)];
  int N = s["N"].as<int>(), D = s["D"].as<int>();
  const char* keys[] = {"N", "D", "time", "coefficients"};
  std::string what;
  bool must_fail = true;
  switch (g.i(0, 11)) {
    case 0: { int k = g.i(0, 3); s.remove(keys[k]); what = std::string("missing ") + keys[k]; break; }
    case 1: s["N"] = N + g.i(1, 3); what = "N too large"; break;
    case 2: s["N"] = N - 1; what = "N too small"; break;
    case 3: s["D"] = D + g.i(1, 3); what = "D too large"; break;
    case 4: s["D"] = D - 1; what = "D too small"; break;
    case 5: s["coefficients"][g.i(0, D - 1)].push_back(1.0); what = "a coefficient more"; break;
    case 6: s["coefficients"].push_back(s["coefficients"][0]); what = "a row more"; break;
    case 7: s["coefficients"][g.i(0, D - 1)] = 3.5; what = "a row that is no list"; break;
    case 8: s["coefficients"][g.i(0, D - 1)][g.i(0, N - 1)] = "abc"; what = "a coefficient that is no number"; break;
    case 9: s["N"] = -N - 1; what = "negative N"; break;
    case 10: s["time"] = "soon"; what = "a time that is no number"; break;
    default: root = YAML::Node(); root["segmented"] = 3; what = "no segments"; break;
  }
  Segment::Vector out(1, Segment(2, 1));
  Trajectory keep, t;
  Segment::Vector ks(1, Segment(3, 2));
  ks[0].setTime(1.5);
  keep.setSegments(ks);
  std::string file = path("damaged.yaml");
  { YAML::Emitter e; e << root; spit(file, e.c_str()); }
  for (int how = 0; how < 4; ++how) {
    t = keep;
    bool ok = false;
    std::string result;
    try {
      if (how == 0) ok = segmentsFromFile(file, &out);
      else if (how == 1) ok = trajectoryFromFile(file, &t);
      else if (how == 2) ok = segmentsFromYaml(root["segments"], &out);
      else ok = trajectoryFromYaml(root, &t);
    } catch (const YAML::Exception& e) { result = "exception"; }
    vf::evaluated();
    vf::count(result.empty() ? "damaged_refused" : "damaged_exception");
    if (must_fail && ok) vf::viol("C09.damaged.accepted", fmt("%s (N=%d D=%d) was accepted by reader %d", what.c_str(), N, D, how));
    if (!ok && (how == 1 || how == 3) && !(t == keep)) vf::viol("C09.damaged.changed", fmt("%s: the trajectory was changed by a failed load", what.c_str()));
  }
}
static void byteDamage(vf::Rng& g, const std::string& text) {
  std::string c = text;
  int n = g.i(1, 3);
  for (int i = 0; i < n && !c.empty(); ++i) {
    int pos = g.i(0, (int)c.size() - 1);
    switch (g.i(0, 3)) {
      case 0: c.resize(pos); break;
      case 1: c[pos] = "0123456789-.,:[]{} \nabcND"[g.i(0, 23)]; break;
      case 2: c.erase(pos, g.i(1, 5)); break;
      default: c.insert(pos, 1, ",]-0 \n"[g.i(0, 5)]); break;
    }
  }
  std::string file = path("bytes.yaml"), why;
  spit(file, c);
  Segment::Vector out;
  Trajectory t;
  vf::evaluated();
  try {
    bool ok = segmentsFromFile(file, &out);
    if (ok && !consistent(out, &why)) vf::viol("C09.bytes.inconsistent", why);
    vf::count(ok ? "byte_damage_readable" : "byte_damage_refused");
  } catch (const YAML::Exception&) { vf::count("byte_damage_exception"); }
  try {
    if (trajectoryFromFile(file, &t)) {
      if (!consistent(t.segments(), &why)) vf::viol("C09.bytes.inconsistent", why);
      for (auto& s : t.segments()) if (s.N() != t.N() || s.D() != t.D()) vf::viol("C09.bytes.shape", "segments of different shape form a trajectory");
    } else if (!t.empty()) vf::viol("C09.bytes.partial", "a failed load left segments behind");
  } catch (const YAML::Exception&) {}
}
static void table(vf::Rng& g) {
  int K = g.p(0.3) ? g.i(3, 8) : g.i(1, 4), N = g.i(2, 8), D = g.p(0.3) ? g.i(1, 6) : g.i(3, 4);
  Segment::Vector segs;
  bool shortOnes = g.p(0.3);
  for (int k = 0; k < K; ++k) {
    double T = shortOnes ? g.uni(0.001, 0.012) : g.uni(0.05, 0.6);
    Segment s(N, D);
    for (int d = 0; d < D; ++d) { Eigen::VectorXd c(N); for (int i = 0; i < N; ++i) c[i] = g.normal(); s[d] = Polynomial(c); }
    s.setTime(T);
    segs.push_back(s);
  }
  Trajectory t;
  t.setSegments(segs);
  std::string file = path("table.txt");
  bool ok = sampledTrajectoryStatesToFile(file, t);
  vf::evaluated();
  if (ok != (D >= 3)) { vf::viol("C09.table.result", fmt("D=%d: %d", D, ok)); return; }
  if (!ok) { vf::count("tables_refused"); return; }
  if (sampledTrajectoryStatesToFile(path("no/such/dir/table.txt"), t)) vf::viol("C09.table.unwritable", "success for a file that cannot be written");
  mav_msgs::EigenTrajectoryPoint::Vector pts;
  sampleWholeTrajectory(t, 0.01, &pts);
  std::ifstream f(file);
  std::string line;
  std::vector<std::vector<double>> rows;
  while (std::getline(f, line)) { std::stringstream ss(line); rows.emplace_back(); double v; while (ss >> v) rows.back().push_back(v); }
  vf::count("tables");
  vf::count(pts.size() < (size_t)K ? "tables_with_more_segments_than_samples" : "tables_ordinary");
  if (rows.size() < pts.size() || rows.size() < (size_t)K) { vf::viol("C09.table.rows", fmt("%zu rows for %zu samples and %d segments", rows.size(), pts.size(), K)); return; }
  auto near = [&](double a, double b) { return std::abs(a - b) <= 1e-5 * std::max(std::abs(a), std::abs(b)) + 1e-12; };
  for (size_t i = 0; i < rows.size(); ++i) {
    if (rows[i].size() != 27) { vf::viol("C09.table.columns", fmt("row %zu has %zu columns", i, rows[i].size())); return; }
    std::vector<double> w(27, 0.0);
    if (i < pts.size()) {
      const auto& p = pts[i];
      w[0] = (double)p.time_from_start_ns;
      const Eigen::Vector3d* v[] = {&p.position_W, &p.velocity_W, &p.acceleration_W, &p.jerk_W, &p.snap_W};
      for (int q = 0; q < 5; ++q) for (int k = 0; k < 3; ++k) w[1 + 3 * q + k] = (*v[q])[k];
      w[16] = p.orientation_W_B.w(); w[17] = p.orientation_W_B.x(); w[18] = p.orientation_W_B.y(); w[19] = p.orientation_W_B.z();
      for (int k = 0; k < 3; ++k) { w[20 + k] = p.angular_velocity_W[k]; w[23 + k] = p.angular_acceleration_W[k]; }
    }
    if (i < (size_t)K) { double e = 0; for (size_t k = 0; k <= i; ++k) e += segs[k].getTime(); w[26] = e; }
    for (int c = 0; c < 27; ++c) if (!near(rows[i][c], w[c])) { vf::viol("C09.table.value", fmt("row %zu column %d: %g want %g (%zu samples, %d segments)", i, c, rows[i][c], w[c], pts.size(), K)); return; }
  }
}
// The file system gives out of space after some bytes of a file.
struct FileLimit {
  rlimit old;
  explicit FileLimit(long bytes) {
    std::signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit r = old;
    r.rlim_cur = bytes;
    setrlimit(RLIMIT_FSIZE, &r);
  }
  ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};
// Success is reported exactly if everything was written.
template <class Write>
static void fullDisk(vf::Rng& g, const char* what, Write write) {
  std::string file = path("limited.txt");
  remove(file.c_str());
  if (!write(file)) { vf::viol("C09.full.refused", fmt("%s: refused with space left", what)); return; }
  std::string all = slurp(file);
  for (int i = 0; i < 3; ++i) {
    long limit = i == 0 ? g.i(0, (int)all.size() - 1) : i == 1 ? (long)all.size() - 1 : (long)all.size() + g.i(0, 2);
    bool ok;
    remove(file.c_str());
    { FileLimit l(limit); ok = write(file); }
    std::string got = slurp(file);
    vf::evaluated();
    bool complete = got == all;
    if (ok && !complete) vf::viol("C09.full.success", fmt("%s: success reported with %zu of %zu bytes written", what, got.size(), all.size()));
    if (!ok && limit >= (long)all.size()) vf::viol("C09.full.refused", fmt("%s: refused with space for %ld bytes, %zu are needed", what, limit, all.size()));
    vf::count(complete ? "limited_writes_complete" : "limited_writes_cut");
  }
  struct stat st;
  if (stat("/dev/full", &st) == 0 && S_ISCHR(st.st_mode)) {
    vf::evaluated();
    vf::count("full_device_writes");
    if (write("/dev/full")) vf::viol("C09.full.success", fmt("%s: success reported for a full device", what));
  }
}
static void runCase(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  int K = g.i(1, 6), N = g.i(1, 12), D = g.i(1, 6);
  Segment::Vector segs = make(g, K, N, D), out(3, Segment(2, 2)), again;
  Trajectory T, U, V;
  T.setSegments(segs);
  std::string file = path("t.yaml"), why;
  vf::evaluated(4);
  // in memory
  if (!segmentsFromYaml(segmentsToYaml(segs)["segments"], &out)) vf::viol("C09.yaml.refused", "segments");
  else same(segs, out, false, "C09.yaml.segments");
  if (!trajectoryFromYaml(trajectoryToYaml(T), &U)) vf::viol("C09.yaml.refused", "trajectory");
  else {
    same(segs, U.segments(), false, "C09.yaml.trajectory");
    double sum = 0; for (auto& s : U.segments()) sum += s.getTime();
    if (std::abs(U.getMaxTime() - sum) > 1e-12 * sum) vf::viol("C09.yaml.duration", fmt("%g %g", U.getMaxTime(), sum));
  }
  int k = g.i(0, K - 1);
  Segment one(1, 1);
  if (!segmentFromYaml(segmentToYaml(segs[k]), &one)) vf::viol("C09.yaml.refused", "segment");
  else same(Segment::Vector{segs[k]}, Segment::Vector{one}, false, "C09.yaml.segment");
  Eigen::VectorXd c;
  if (!coefficientsFromYaml(coefficientsToYaml(segs[k][0].getCoefficients(0)), &c) || !(c == segs[k][0].getCoefficients(0))) vf::viol("C09.yaml.coefficients", gen::show(segs[k][0].getCoefficients(0)));
  // through text
  { YAML::Emitter e; e << trajectoryToYaml(T); Trajectory W; if (!trajectoryFromYaml(YAML::Load(e.c_str()), &W)) vf::viol("C09.yaml.refused", "text"); else same(segs, W.segments(), false, "C09.yaml.text"); }
  vf::count("yaml_round_trips", 4);
  // through files; a longer older file must not shine through
  if (g.p(0.5)) segmentsToFile(file, make(g, 8, 12, 6));
  if (!segmentsToFile(file, segs)) vf::viol("C09.file.write", "refused");
  std::string text = slurp(file);
  if (!segmentsFromFile(file, &again)) vf::viol("C09.file.refused", "segments");
  else same(segs, again, false, "C09.file.segments");
  if (!trajectoryToFile(file, T) || slurp(file) != text) vf::viol("C09.file.writers", "trajectory and segments are written differently");
  if (!trajectoryFromFile(file, &V)) vf::viol("C09.file.refused", "trajectory");
  else same(segs, V.segments(), false, "C09.file.trajectory");
  // what was read is a fixed point of writing and reading
  if (trajectoryToFile(file, V)) { Trajectory W; if (!trajectoryFromFile(file, &W)) vf::viol("C09.file.refused", "again"); else same(V.segments(), W.segments(), true, "C09.file.again"); }
  vf::count("file_round_trips", 3);
  vf::evaluated(3);
  // failures
  if (segmentsToFile(path("no/such/dir/x.yaml"), segs)) vf::viol("C09.file.unwritable", "success for a file that cannot be written");
  Segment::Vector none;
  Trajectory M = T;
  if (segmentsFromFile(path("does-not-exist.yaml"), &none) || trajectoryFromFile(path("does-not-exist.yaml"), &M)) vf::viol("C09.file.missing", "success for a file that does not exist");
  if (!(M == T)) vf::viol("C09.file.missing", "a missing file changed the trajectory");
  vf::count("missing_files");
  mkdir(path("directory").c_str(), 0755);
  for (int how = 0; how < 2; ++how) {
    bool ok = false;
    try { ok = how ? trajectoryFromFile(path("directory"), &M) : segmentsFromFile(path("directory"), &none); }
    catch (const YAML::Exception&) {}
    catch (const std::exception& e) { vf::viol("C09.file.directory", fmt("reading a directory: %s", e.what())); }
    if (ok || !(M == T)) vf::viol("C09.file.directory", "a directory was read");
    vf::count("directories");
  }
  if (trajectoryToFile(path("directory"), T)) vf::viol("C09.file.unwritable", "success for writing to a directory");
  if (x.idx % 4 == 1) {
    fullDisk(g, "segments", [&](const std::string& f) { return segmentsToFile(f, segs); });
    fullDisk(g, "trajectory", [&](const std::string& f) { return trajectoryToFile(f, T); });
    Trajectory P;
    Segment::Vector ps;
    for (int i = g.i(1, 3); i > 0; --i) ps.push_back(gen::segment(g, 6, 3, g.uni(0.05, 0.4)));
    P.setSegments(ps);
    fullDisk(g, "table of states", [&](const std::string& f) { return sampledTrajectoryStatesToFile(f, P); });
  }
  spit(path("empty.yaml"), "segments: []\n");
  try { if (trajectoryFromFile(path("empty.yaml"), &M)) vf::viol("C09.file.notrajectory", "no segments were accepted as a trajectory"); }
  catch (const YAML::Exception&) {}
  for (int kind = 0; kind < 4; ++kind) {  // one segment unlike the others
    int n2 = N + (kind == 0) - (kind == 1), d2 = D + (kind == 2) - (kind == 3);
    if (n2 < 1 || d2 < 1) continue;
    Segment::Vector mixed = segs;
    Segment odd = gen::segment(g, n2, d2, 1.0);
    if (g.p(0.5)) mixed.insert(mixed.begin() + g.i(0, K), odd);
    else mixed.push_back(odd);
    segmentsToFile(path("mixed.yaml"), mixed);
    Segment::Vector back;
    if (!segmentsFromFile(path("mixed.yaml"), &back)) vf::viol("C09.file.refused", "unlike segments"); else same(mixed, back, false, "C09.file.mixed");
    try { if (trajectoryFromFile(path("mixed.yaml"), &M)) vf::viol("C09.file.notrajectory", fmt("unlike segments were accepted as a trajectory: %d of %d coefficients, %d of %d dimensions", n2, N, d2, D)); }
    catch (const YAML::Exception&) {}
    if (!(M == T)) vf::viol("C09.file.missing", "a refused file changed the trajectory");
    vf::count("unlike_segments");
  }
  corrupt(g, segs, text);
  for (int i = 0; i < 4; ++i) byteDamage(g, text);
  if (x.idx % 3 == 0) table(g);
  vf::distinct(vf::hashStr(text));
  vf::sample(fmt("K=%d N=%d D=%d, %zu bytes of YAML", K, N, D, text.size()));
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C09", runCase); }
