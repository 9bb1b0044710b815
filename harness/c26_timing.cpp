// C26: timing statistics describe exactly the samples taken.
#include <deque>
#include <thread>
#include "gen.hpp"
#include "mav_trajectory_generation/timing.h"
using namespace mtg::timing;
using vf::fmt;

// the system clock of this process can be set: durations become exact
static std::atomic<long> g_now{-1};
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  long v = g_now.load();
  if (v >= 0) return time_point(duration(v));
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return time_point(duration(ts.tv_sec * 1000000000L + ts.tv_nsec));
}
}}}

struct Model {
  std::vector<long double> all;
  long double sum() const { long double s = 0; for (auto v : all) s += v; return s; }
  long double absSum() const { long double s = 0; for (auto v : all) s += std::abs(v); return s; }
  void window(int n, long double& mean, long double& var, long double& sc) const {
    int k = std::min<size_t>(n, all.size());
    mean = var = sc = 0;
    for (int i = 0; i < k; ++i) { mean += all[all.size() - 1 - i]; sc = std::max(sc, std::abs(all[all.size() - 1 - i])); }
    mean /= k;
    for (int i = 0; i < k; ++i) { long double d = all[all.size() - 1 - i] - mean; var += d * d; }
    var /= k;
  }
  long double mn() const { return *std::min_element(all.begin(), all.end()); }
  long double mx() const { return *std::max_element(all.begin(), all.end()); }
};
static bool near(double g, long double w, long double tol) { return std::abs((long double)g - w) <= tol; }

template <int N>
static void accumulator(vf::Rng& g) {
  Accumulator<double, double, N> a;
  Model m;
  int n = g.p(0.1) ? g.i(3 * N, 12 * N + 40) : g.i(1, 3 * N + 5), shape = g.i(0, 4);
  double off = g.p(0.3) ? g.normal() * 100 : 0, sc = g.logu(1e-6, 1e3);
  VF_EXPECT(a.TotalSamples() == 0 && a.Sum() == 0 && a.LazyVariance() == 0, "C26.empty", "N=%d", N);
  for (int i = 0; i < n; ++i) {
    double s = shape == 0 ? -std::abs(g.normal()) * sc : shape == 1 ? std::abs(g.normal()) * sc : shape == 2 ? off : shape == 3 ? sc * i : off + sc * g.normal();
    a.Add(s);
    m.all.push_back(s);
    long double mean, var, w, big = 0;
    m.window(N, mean, var, w);
    for (auto v : m.all) big = std::max(big, std::abs(v));
    long double e = 1e-13L * (m.absSum() + 1e-300L);
    if (a.TotalSamples() != i + 1 || !near(a.Sum(), m.sum(), e) || !near(a.Mean(), m.sum() / (i + 1), e / (i + 1) + 1e-15L * big)) vf::viol("C26.mean", fmt("N=%d after %d samples of shape %d: %d samples sum %.12g mean %.12g", N, i + 1, shape, a.TotalSamples(), a.Sum(), a.Mean()));
    if (a.Min() != (double)m.mn() || a.Max() != (double)m.mx()) vf::viol("C26.extremes", fmt("N=%d after %d samples of shape %d: [%.12g, %.12g], expected [%.12Lg, %.12Lg]", N, i + 1, shape, a.Min(), a.Max(), m.mn(), m.mx()));
    if (!near(a.RollingMean(), mean, 1e-13L * (i + 1) * big)) vf::viol("C26.rolling", fmt("N=%d after %d samples: rolling mean %.12g, expected %.12Lg", N, i + 1, a.RollingMean(), mean));
    if (!near(a.LazyVariance(), var, 1e-11L * (i + 1) * (var + 1e-3L * w * w * 1e-9L) + 1e-24L * (i + 1) * (i + 1) * big * big)) vf::viol("C26.variance", fmt("N=%d after %d samples: variance %.12g, expected %.12Lg", N, i + 1, a.LazyVariance(), var));
    vf::count(i >= N ? "window_full" : "window_filling");
  }
}

static void timers(vf::Ctx& x) {
  vf::Rng& g = x.rng;
  std::vector<std::string> tags;
  std::map<std::string, Model> model;
  int n = g.i(1, 5);
  long now = 1000000000L * g.i(1, 1000);
  for (int i = 0; i < n; ++i) {
    std::string t = fmt("case%ld/", x.idx) + std::string(1 + g.i(0, 12), 'a' + i);
    tags.push_back(t);
    size_t h = Timing::GetHandle(t);
    VF_EXPECT(Timing::GetHandle(t) == h && Timing::GetTag(h) == t, "C26.handle", "tag %s handle %zu", t.c_str(), h);
    for (int j = 0; j < i; ++j) VF_EXPECT(Timing::GetHandle(tags[j]) != h, "C26.handle.shared", "tag %s", t.c_str());
    VF_EXPECT(Timing::GetNumSamples(t) == 0 && Timing::GetTotalSeconds(h) == 0, "C26.fresh", "tag %s", t.c_str());
  }
  int ops = g.p(0.05) ? g.i(160, 900) : g.i(1, 160);
  for (int k = 0; k < ops; ++k) {
    const std::string& t = tags[g.i(0, n - 1)];
    double take = 0;
    int how = g.i(0, 3);
    g_now = now;
    long d1 = g.i(0, 2000000000), d2 = g.i(0, 1000000000);
    if (how == 0) {  // scope
      { Timer w(t); VF_EXPECT(w.IsTiming(), "C26.timing", "running timer"); g_now = now += d1; }
      take = d1 * 1e-9;
      model[t].all.push_back(take);
    } else if (how == 1) {  // by handle, stopped by hand, does not count twice
      { Timer w(Timing::GetHandle(t)); g_now = now += d1; w.Stop(); VF_EXPECT(!w.IsTiming(), "C26.timing", "stopped timer"); g_now = now += d2; }
      model[t].all.push_back(d1 * 1e-9);
    } else if (how == 2) {  // constructed stopped, started later, twice
      Timer w(t, true);
      VF_EXPECT(!w.IsTiming(), "C26.timing", "timer constructed stopped");
      g_now = now += d2;
      w.Start();
      g_now = now += d1;
      w.Stop();
      g_now = now += d2;
      w.Start();
      g_now = now += d2;
      w.Stop();
      model[t].all.push_back(d1 * 1e-9);
      model[t].all.push_back(d2 * 1e-9);
    } else {  // never started: no sample
      Timer w(t, true);
      g_now = now += d1;
      MiniTimer mt;
      g_now = now += d2;
      double e = mt.stop();
      VF_EXPECT(std::abs(e - d2 * 1e-9) <= 1e-12 && mt.getTime() == e, "C26.mini", "%.12g instead of %.12g", e, d2 * 1e-9);
      g_now = now += d1;
      mt.start();
      VF_EXPECT(mt.getTime() == 0 || d1 == 0, "C26.mini.restarted", "%g", mt.getTime());
      g_now = now += d1;
      mt.stop();
      VF_EXPECT(std::abs(mt.getTime() - d1 * 1e-9) <= 1e-12, "C26.mini", "%.12g instead of %.12g", mt.getTime(), d1 * 1e-9);
      DummyTimer dt(t);
      dt.Start();
      dt.Stop();
      VF_EXPECT(!dt.IsTiming(), "C26.dummy", "dummy timer");
    }
    now += g.i(0, 1000);
  }
  std::string table = Timing::Print();
  for (auto& t : tags) {
    Model& m = model[t];
    size_t h = Timing::GetHandle(t);
    if (Timing::GetNumSamples(t) != m.all.size() || Timing::GetNumSamples(h) != m.all.size()) { vf::viol("C26.samples", fmt("%zu samples of %s, took %zu", Timing::GetNumSamples(t), t.c_str(), m.all.size())); continue; }
    bool listed = false;
    std::stringstream ss(table);
    for (std::string line; std::getline(ss, line);) if (line.compare(0, t.size(), t) == 0 && (line[t.size()] == ' ' || line[t.size()] == '\t')) {
      listed = true;
      long cnt = -1;
      double tot = -1, mean = -1, sd = -1, mn = -1, mx = -1;
      int got = sscanf(line.c_str() + t.size(), " %ld %lf (%lf +- %lf) [%lf,%lf]", &cnt, &tot, &mean, &sd, &mn, &mx);
      if (cnt != (long)m.all.size()) vf::viol("C26.print.count", line);
      if (!m.all.empty()) {
        long double wm, wv, sc;
        m.window(50, wm, wv, sc);
        if (got != 6 || !near(tot, m.sum(), 1e-6) || !near(mean, m.sum() / m.all.size(), 1e-6) || !near(sd, std::sqrt(wv), 1e-6) || !near(mn, m.mn(), 1e-6) || !near(mx, m.mx(), 1e-6)) vf::viol("C26.print", line);
      }
    }
    VF_EXPECT(listed, "C26.print.missing", "%s", t.c_str());
    vf::count("tags_checked");
    if (m.all.empty()) continue;
    long double wm, wv, sc;
    m.window(50, wm, wv, sc);
    bool by = g.p(0.5);
    double s = by ? Timing::GetTotalSeconds(t) : Timing::GetTotalSeconds(h), mean = by ? Timing::GetMeanSeconds(t) : Timing::GetMeanSeconds(h), mn = by ? Timing::GetMinSeconds(t) : Timing::GetMinSeconds(h), mx = by ? Timing::GetMaxSeconds(t) : Timing::GetMaxSeconds(h), var = by ? Timing::GetVarianceSeconds(t) : Timing::GetVarianceSeconds(h), hz = by ? Timing::GetHz(t) : Timing::GetHz(h);
    long double e = 1e-9;  // clock ticks
    if (!near(s, m.sum(), e) || !near(mean, m.sum() / m.all.size(), e) || !near(mn, m.mn(), e) || !near(mx, m.mx(), e) || !near(var, wv, e) || (wm > 1e-3 && !near(hz * wm, 1, 1e-6)))
      vf::viol("C26.timer", fmt("%s: total %.12g mean %.12g min %.12g max %.12g variance %.12g rate %.12g; expected %.12Lg %.12Lg %.12Lg %.12Lg %.12Lg %.12Lg", t.c_str(), s, mean, mn, mx, var, hz, m.sum(), m.sum() / m.all.size(), m.mn(), m.mx(), wv, 1 / wm));
  }
  VF_EXPECT(Timing::GetTag((size_t)1 << 40).empty(), "C26.tag.unknown", "unknown handle has a tag");
  g_now = -1;
}
static void runCase(vf::Ctx& x) {
  vf::evaluated();
  switch (x.rng.i(0, 4)) {
    case 0: accumulator<1>(x.rng); break;
    case 1: accumulator<2>(x.rng); break;
    case 2: accumulator<7>(x.rng); break;
    case 3: accumulator<50>(x.rng); break;
    default: accumulator<13>(x.rng);
  }
  if (x.idx % 4 == 0) timers(x);
  // several threads
  if (x.idx % 40 == 1) {
    std::string t = fmt("threads%ld", x.idx);
    std::vector<std::thread> th;
    for (int i = 0; i < 4; ++i) th.emplace_back([&, i] { for (int k = 0; k < 200; ++k) { Timer a(t); Timer b(t + "/" + std::to_string(i) + "/" + std::to_string(k % 50)); if (k % 50 == 0) Timing::Print(); } });
    for (auto& q : th) q.join();
    VF_EXPECT(Timing::GetNumSamples(t) == 800, "C26.threads", "%zu of 800 samples", Timing::GetNumSamples(t));
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 50; ++k) VF_EXPECT(Timing::GetNumSamples(t + "/" + std::to_string(i) + "/" + std::to_string(k)) == 4, "C26.threads", "%zu of 4 samples", Timing::GetNumSamples(t + "/" + std::to_string(i) + "/" + std::to_string(k)));
    vf::count("thread_groups");
  }
  if (x.idx % 500 == 499) { Timing::Reset(); VF_EXPECT(Timing::Print().empty() && Timing::GetTimers().empty(), "C26.reset", "tags after a reset"); vf::count("resets"); }
  vf::distinct(x.rng.s);
  vf::sample(fmt("case %ld", x.idx));
}
int main(int c, char** v) { gen::quiet(v[0]); return vf::drive(c, v, "C26", runCase); }
