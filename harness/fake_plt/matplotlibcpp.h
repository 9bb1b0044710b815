// Stand-in for the plotting package: records what is drawn instead of calling
// Python.  Only the calls the repository's plotter uses (and their overloads).
#pragma once
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <functional>
namespace matplotlibcpp {
typedef std::vector<double> Vec;
typedef std::map<std::string, std::string> Style;
struct Curve {
  bool space = false, line = false;  // x,y,z in space or x over time
  Vec x, y, z;
  std::string colour;
};
struct Axes { std::vector<Curve> curves; std::string title; };
struct Figure { std::map<long, Axes> axes; long current = 0; };
struct Screen {
  std::mutex m;
  std::map<long, Figure> figures;
  long current = 0;
  long shown = 0, blocked = 0, closed = 0, pauses = 0, calls = 0;
  std::function<void(const char*)> delay;  // where the drawing thread may linger
};
inline Screen& screen() { static Screen* s = new Screen; return *s; }
inline void linger(const char* where) { if (screen().delay) screen().delay(where); }
template <class F> inline void with(const F& f) {
  Screen& s = screen();
  std::lock_guard<std::mutex> l(s.m);
  ++s.calls;
  f(s, s.figures[s.current]);
}
inline long figure(long n = -1) { with([&](Screen& s, Figure&) { s.current = n; s.figures[n]; }); linger("figure"); return n; }
inline void subplot(long r, long c, long n) { with([&](Screen&, Figure& f) { f.current = n; f.axes[n]; }); }
inline void subplot2grid(long r, long c, long a = 0, long b = 0, long = 1, long = 1) { subplot(r, c, a * c + b + 1); }
inline void cla() { with([&](Screen&, Figure& f) { f.axes[f.current].curves.clear(); }); linger("cla"); }
inline void clf() { with([&](Screen&, Figure& f) { f = Figure(); }); }
inline void grid(bool) {}
inline void title(const std::string& t, const Style& = {}) { with([&](Screen&, Figure& f) { f.axes[f.current].title = t; }); }
inline void xlabel(const std::string&, const Style& = {}) {}
inline void ylabel(const std::string&, const Style& = {}) {}
inline void legend() {}
inline void axis(const std::string&) {}
inline void xlim(double, double) {}
inline void ylim(double, double) {}
inline Curve curve(const Vec& x, const Vec& y, const std::string& fmt) {
  Curve c;
  c.x = x;
  c.y = y;
  c.line = fmt.find('-') != std::string::npos || fmt.find_first_of("ox.+*^v") == std::string::npos;
  c.colour = fmt.substr(0, 1);
  return c;
}
inline void draw(const Curve& c) {
  if (c.x.size() != c.y.size() || (c.space && c.z.size() != c.x.size())) __builtin_trap();  // as the real package
  with([&](Screen&, Figure& f) { f.axes[f.current].curves.push_back(c); });
  linger("plot");
}
inline bool plot(const Vec& x, const Vec& y, const std::string& fmt = "") { draw(curve(x, y, fmt)); return true; }
template <class... A>
inline bool plot(const Vec& x, const Vec& y, const std::string& fmt, A... more) { plot(x, y, fmt); return plot(more...); }
inline Curve curveOf(const Style& s) {
  Curve c;
  auto l = s.find("linestyle"), k = s.find("color");
  c.line = l == s.end() || (l->second != "none" && l->second != "None" && l->second != "");
  if (k != s.end()) c.colour = k->second;
  return c;
}
inline bool plot(const Vec& x, const Vec& y, const Style& st) { Curve c = curveOf(st); c.x = x; c.y = y; draw(c); return true; }
inline void plot3(const Vec& x, const Vec& y, const Vec& z, const Style& st = {}, long fig = 0) {
  Curve c = curveOf(st);
  c.space = true;
  c.x = x; c.y = y; c.z = z;
  if (fig) with([&](Screen& s, Figure&) { s.current = fig; s.figures[fig]; });
  draw(c);
}
inline void show(bool block = true) {
  linger("show");
  with([&](Screen& s, Figure&) { ++s.shown; if (block) ++s.blocked; });
}
inline void draw() {}
inline void pause(double) { with([&](Screen& s, Figure&) { ++s.pauses; }); linger("pause"); }
inline void close() { with([&](Screen& s, Figure&) { ++s.closed; }); }
}  // namespace matplotlibcpp
