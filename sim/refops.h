// What each operation of the command line tool means, written down independently of the library.
// Used by C11: after every operation of the reference pipeline the library's image is compared
// with this definition. Integer operations must agree exactly, floating point ones within one
// grey level (so that another order of summation is not an alarm).
#pragma once
#include <cmath>
#include <string>
#include <vector>
namespace refops {
using std::string; using std::vector;
struct Im { i64 w, h; const u8 *p; u8 at(i64 x, i64 y, int c) const { return p[(y * w + x) * 4 + c]; } };
static u8 gray_of(const u8 *p) { return (u8)((p[0] * 76 + p[1] * 150 + p[2] * 30) >> 8); }
static vector<u8> gray(const Im &a) { vector<u8> g((size_t)(a.w * a.h)); for (size_t k = 0; k < g.size(); k++) g[k] = gray_of(a.p + 4 * k); return g; }
static string multi(const vector<u8> &g) { string s; s.reserve(g.size() * 4); for (u8 v : g) { s.append(3, (char)v); s += (char)255; } return s; }
static void colour(const string &t, u8 *c) {
  string h = t; if (!h.empty() && h[0] == '#') h = h.substr(1);
  c[0] = c[1] = c[2] = 255; if (h.size() != 6) return;
  unsigned v[6]; for (int k = 0; k < 6; k++) { char d = h[(size_t)k]; if (d >= '0' && d <= '9') v[k] = (unsigned)(d - '0'); else if (d >= 'a' && d <= 'f') v[k] = (unsigned)(d - 'a' + 10); else if (d >= 'A' && d <= 'F') v[k] = (unsigned)(d - 'A' + 10); else return; }
  for (int k = 0; k < 3; k++) c[k] = (u8)(v[2 * k] * 16 + v[2 * k + 1]);
}
static string diff(const string &got, i64 gw, i64 gh, const string &want, i64 w, i64 h, int tol) {
  if (gw != w || gh != h) return "size " + std::to_string(gw) + "x" + std::to_string(gh) + " instead of " + std::to_string(w) + "x" + std::to_string(h);
  for (size_t k = 0; k < want.size(); k++) if (std::abs((int)(u8)got[k] - (int)(u8)want[k]) > tol)
    return "pixel (" + std::to_string((i64)(k / 4) % w) + "," + std::to_string((i64)(k / 4) / w) + ") channel " + std::to_string(k % 4) + " is " + std::to_string((int)(u8)got[k]) + " instead of " + std::to_string((int)(u8)want[k]);
  return "";
}
// normalised gaussian of the given radius, first along the rows, then along the columns
static string blur(const Im &a, double radius) {
  if (radius == 0) return string((const char *)a.p, (size_t)(a.w * a.h * 4));
  i64 n = (i64)radius; vector<float> k((size_t)(2 * n + 1)); float sigma = (float)(radius / 3.0), ss = sigma * sigma, d = 2 * ss, q = (float)(std::sqrt(2 * M_PI) * sigma);
  // the kernel is sampled at whole distances from the radius, rounded towards zero
  for (i64 j = 0; j < 2 * n + 1; j++) { i64 x = (i64)((double)j - radius); k[(size_t)j] = (float)(std::exp((double)(-(x * x) / d)) / q); }
  string t((size_t)(a.w * a.h * 4), (char)255), o = t;
  auto pass = [&](const u8 *s, string &r, bool rows) {
    for (i64 y = 0; y < a.h; y++) for (i64 x = 0; x < a.w; x++) {
      float sum[3] = {0, 0, 0}, ws = 0;
      for (i64 j = -n; j <= n; j++) { i64 xx = rows ? x + j : x, yy = rows ? y : y + j; if (xx < 0 || yy < 0 || xx >= a.w || yy >= a.h) continue; float w = k[(size_t)(j + n)]; ws += w; for (int c = 0; c < 3; c++) sum[c] += s[(yy * a.w + xx) * 4 + c] * w; }
      for (int c = 0; c < 3; c++) r[(size_t)((y * a.w + x) * 4 + c)] = (char)(u8)(sum[c] / ws);
    } };
  pass(a.p, t, true); pass((const u8 *)t.data(), o, false); return o;
}
static string resize(const Im &a, double fx, double fy, i64 w, i64 h) {
  string o((size_t)(w * h * 4), (char)255);
  for (i64 y = 0; y < h; y++) for (i64 x = 0; x < w; x++) {
    double sx = ((double)x + 0.5) / fx - 0.5, sy = ((double)y + 0.5) / fy - 0.5; double v[3] = {0, 0, 0};
    if (fx < 1 || fy < 1) {   // mean over the covered area
      double x0 = sx - 0.5 / fx, x1 = sx + 0.5 / fx, y0 = sy - 0.5 / fy, y1 = sy + 0.5 / fy, tw = 0;
      for (i64 j = std::max<i64>(0, (i64)std::floor(y0)); j < std::min<i64>(a.h, (i64)std::ceil(y1)); j++) for (i64 i = std::max<i64>(0, (i64)std::floor(x0)); i < std::min<i64>(a.w, (i64)std::ceil(x1)); i++) {
        double ox = std::min((double)i + 1, x1) - std::max((double)i, x0), oy = std::min((double)j + 1, y1) - std::max((double)j, y0);
        if (ox > 0 && oy > 0) { tw += ox * oy; for (int c = 0; c < 3; c++) v[c] += a.at(i, j, c) * ox * oy; } }
      for (int c = 0; c < 3; c++) v[c] = tw > 0 ? v[c] / tw : 0;
      if (tw > 0 && tw < 1e-9) { for (int c = 0; c < 3; c++) v[c] = -1; }   // numerically undefined
    } else {
      i64 x0 = std::max<i64>(0, (i64)std::floor(sx)), y0 = std::max<i64>(0, (i64)std::floor(sy)), x1 = std::min<i64>(a.w - 1, (i64)std::floor(sx) + 1), y1 = std::min<i64>(a.h - 1, (i64)std::floor(sy) + 1);
      double dx = std::min(1.0, std::max(0.0, sx - (double)x0)), dy = std::min(1.0, std::max(0.0, sy - (double)y0));
      for (int c = 0; c < 3; c++) v[c] = (a.at(x0, y0, c) * (1 - dx) + a.at(x1, y0, c) * dx) * (1 - dy) + (a.at(x0, y1, c) * (1 - dx) + a.at(x1, y1, c) * dx) * dy;
    }
    for (int c = 0; c < 3; c++) o[(size_t)((y * w + x) * 4 + c)] = (char)(u8)(v[c] + 0.5);
  }
  return o;
}
static string sobel(const Im &a) {
  vector<u8> g = gray(a); vector<double> m(g.size()); double lo = INFINITY, hi = 0;
  auto G = [&](i64 x, i64 y) { x = std::min(std::max<i64>(x, 0), a.w - 1); y = std::min(std::max<i64>(y, 0), a.h - 1); return (int)g[(size_t)(y * a.w + x)]; };
  for (i64 y = 0; y < a.h; y++) for (i64 x = 0; x < a.w; x++) {
    int gx = G(x + 1, y - 1) + 2 * G(x + 1, y) + G(x + 1, y + 1) - G(x - 1, y - 1) - 2 * G(x - 1, y) - G(x - 1, y + 1);
    int gy = G(x - 1, y + 1) + 2 * G(x, y + 1) + G(x + 1, y + 1) - G(x - 1, y - 1) - 2 * G(x, y - 1) - G(x + 1, y - 1);
    double v = std::sqrt((double)(gx * gx + gy * gy)); m[(size_t)(y * a.w + x)] = v; lo = std::min(lo, v); hi = std::max(hi, v); }
  double range = hi > lo ? hi - lo : 1; vector<u8> r; for (double v : m) r.push_back((u8)std::min(255.0, std::max(0.0, (v - lo) / range * 255.0)));
  return multi(r);
}
// all thresholds that maximise the variance between the classes (within rounding of a float)
static vector<int> otsu(const vector<u8> &g) {
  double h[256] = {0}, n = (double)g.size(), mean = 0; for (u8 v : g) h[v]++; for (int k = 0; k < 256; k++) mean += k * h[k] / n;
  double var[256], s = 0, m = 0, best = 0; for (int k = 0; k < 256; k++) { s += h[k] / n; m += k * h[k] / n; var[k] = s < 0.5 / n || 1 - s < 0.5 / n ? 0 : (mean * s - m) * (mean * s - m) / (s * (1 - s)); best = std::max(best, var[k]); }
  vector<int> r; for (int k = 0; k < 256; k++) if (var[k] >= best * (1 - 2e-4) - 1e-6) r.push_back(k);
  return r;
}
static string otsu_diff(const vector<u8> &g, bool smooth, const string &got) {
  vector<int> c = otsu(g); string first;
  bool flat = true; for (u8 v : g) if (v != g[0]) flat = false;
  for (int t : c) {
    vector<u8> r = g;
    if (!smooth) for (u8 &v : r) v = v > t ? 255 : 0;
    else { u8 lo = (u8)(t - 16), hi = (u8)(t + 16); if (lo >= hi) return ""; for (u8 &v : r) v = v < lo ? 0 : v > hi ? 255 : (u8)((v - lo) * 255 / (hi - lo)); }
    string e = diff(got, (i64)g.size(), 1, multi(r), (i64)g.size(), 1, 0); if (e.empty()) return ""; if (first.empty()) first = e;
  }
  if (flat && smooth) return "";
  return first + " (thresholds that Otsu's method allows: " + std::to_string(c.front()) + " to " + std::to_string(c.back()) + ")";
}
static vector<u8> dilate(const vector<u8> &g, i64 w, i64 h, i64 r) {
  vector<u8> o(g.size(), 0); for (i64 y = 0; y < h; y++) for (i64 x = 0; x < w; x++) { bool on = false; for (i64 j = -r; j <= r && !on; j++) for (i64 i = -r; i <= r && !on; i++) if (i * i + j * j <= r * r + r && x + i >= 0 && x + i < w && y + j >= 0 && y + j < h && g[(size_t)((y + j) * w + x + i)] == 255) on = true; o[(size_t)(y * w + x)] = on ? 255 : 0; }
  return o;
}
static vector<u8> erode(const vector<u8> &g, i64 w, i64 h, i64 r, bool replicate) {
  vector<u8> o(g.size(), 0); for (i64 y = 0; y < h; y++) for (i64 x = 0; x < w; x++) { bool on = true; for (i64 j = -r; j <= r && on; j++) for (i64 i = -r; i <= r && on; i++) if (i * i + j * j <= r * r + r) {
    i64 X = x + i, Y = y + j; if (X < 0 || Y < 0 || X >= w || Y >= h) { if (!replicate) { on = false; continue; } X = std::min(std::max<i64>(X, 0), w - 1); Y = std::min(std::max<i64>(Y, 0), h - 1); } if (g[(size_t)(Y * w + X)] != 255) on = false; }
    o[(size_t)(y * w + x)] = on ? 255 : 0; }
  return o;
}
static string watershed(const Im &a, const vector<Pt> &markers) {
  vector<u8> g = gray(a); vector<int> lab(g.size(), -1); for (size_t k = 0; k < markers.size(); k++) lab[(size_t)((i64)markers[k].y * a.w + (i64)markers[k].x)] = (int)k;
  for (int level = 0; level < 256; level++) for (;;) {
    vector<std::pair<size_t, int>> add;
    for (i64 y = 0; y < a.h; y++) for (i64 x = 0; x < a.w; x++) { size_t k = (size_t)(y * a.w + x); if (lab[k] >= 0 || g[k] > level) continue;
      int l = -1; if (x > 0) l = lab[k - 1]; if (l < 0 && x + 1 < a.w) l = lab[k + 1]; if (l < 0 && y > 0) l = lab[k - (size_t)a.w]; if (l < 0 && y + 1 < a.h) l = lab[k + (size_t)a.w];
      if (l >= 0) add.push_back({k, l}); }
    if (add.empty()) break; for (auto &q : add) lab[q.first] = q.second;
  }
  static const u8 col[11][3] = {{255, 0, 0}, {0, 255, 0}, {0, 0, 255}, {255, 255, 0}, {255, 0, 255}, {0, 255, 255}, {255, 128, 0}, {128, 0, 255}, {255, 192, 203}, {128, 128, 128}, {128, 128, 128}};
  string o; for (int l : lab) { if (l < 0) o.append(3, (char)0); else for (int c = 0; c < 3; c++) o += (char)col[std::min(l, 10)][c]; o += (char)255; }
  return o;
}
static void put(string &px, i64 w, i64 h, i64 x, i64 y, const u8 *c) { if (x < 0 || y < 0 || x >= w || y >= h) return; size_t k = (size_t)((y * w + x) * 4); px[k] = (char)c[0]; px[k + 1] = (char)c[1]; px[k + 2] = (char)c[2]; px[k + 3] = (char)255; }
static void round_shape(string &px, i64 w, i64 h, const string &hex, double radius, double cx0, double cy0, bool fill) {
  u8 c[3]; colour(hex, c); i64 r = (i64)radius, cx = (i64)cx0, cy = (i64)cy0, x = 0, y = r, d = 3 - 2 * r; if (radius < 0) return;
  auto points = [&] {
    if (!fill) { for (int s = 0; s < 4; s++) { i64 a = s & 1 ? -1 : 1, b = s & 2 ? -1 : 1; put(px, w, h, cx + a * x, cy + b * y, c); put(px, w, h, cx + a * y, cy + b * x, c); } }
    else { for (i64 i = -x; i <= x; i++) { put(px, w, h, cx + i, cy + y, c); put(px, w, h, cx + i, cy - y, c); } for (i64 i = -y; i <= y; i++) { put(px, w, h, cx + i, cy + x, c); put(px, w, h, cx + i, cy - x, c); } } };
  points(); while (y >= x) { x++; if (d > 0) { y--; d += 4 * (x - y) + 10; } else d += 4 * x + 6; points(); }
}
static string hist(const Im &a) {
  u64 n[3][256] = {{0}}; u64 top = 0; bool grey = true; for (i64 k = 0; k < a.w * a.h; k++) { const u8 *p = a.p + 4 * k; if (p[0] != p[1] || p[0] != p[2]) grey = false; for (int c = 0; c < 3; c++) top = std::max(top, ++n[c][p[c]]); }
  (void)grey;   // in a grey image the three bars coincide and are white
  string o((size_t)256 * 200 * 4, (char)0); for (i64 y = 0; y < 200; y++) for (i64 x = 0; x < 256; x++) { size_t k = (size_t)((y * 256 + x) * 4); for (int c = 0; c < 3; c++) o[k + (size_t)c] = (char)((u64)(199 - y) < n[c][x] * 200 / top ? 255 : 0); o[k + 3] = (char)255; }
  return o;
}
static void trim(const Im &a, int tol, i64 &L, i64 &T, i64 &R, i64 &Bt) {
  L = T = 0; R = a.w; Bt = a.h;
  auto close = [&](i64 x, i64 y, i64 X, i64 Y) { for (int c = 0; c < 4; c++) if (std::abs((int)a.at(x, y, c) - (int)a.at(X, Y, c)) > tol) return false; return true; };
  auto col = [&](i64 x) { for (i64 y = T; y < Bt; y++) if (!close(x, y, x, T)) return false; return true; };
  auto row = [&](i64 y) { for (i64 x = L; x < R; x++) if (!close(x, y, L, y)) return false; return true; };
  while (R - L > 1 && col(L)) L++;
  while (R - L > 1 && col(R - 1)) R--;
  while (Bt - T > 1 && row(T)) T++;
  while (Bt - T > 1 && row(Bt - 1)) Bt--;
}
// projective map from the rectangle w x h onto the corners; false if (nearly) degenerate
static bool homography(i64 w, i64 h, const double *q, double *m) {
  long double A[8][9] = {{0}}; double s[4][2] = {{0, 0}, {(double)(w - 1), 0}, {(double)(w - 1), (double)(h - 1)}, {0, (double)(h - 1)}};
  for (int i = 0; i < 4; i++) { long double x = s[i][0], y = s[i][1], X = q[2 * i], Y = q[2 * i + 1]; long double r1[9] = {x, y, 1, 0, 0, 0, -x * X, -y * X, X}, r2[9] = {0, 0, 0, x, y, 1, -x * Y, -y * Y, Y}; memcpy(A[i], r1, sizeof r1); memcpy(A[i + 4], r2, sizeof r2); }
  for (int i = 0; i < 8; i++) { int b = i; for (int k = i; k < 8; k++) if (fabsl(A[k][i]) > fabsl(A[b][i])) b = k; if (fabsl(A[b][i]) < 1e-5L) return false; if (b != i) for (int j = 0; j < 9; j++) std::swap(A[i][j], A[b][j]); for (int k = 0; k < 8; k++) if (k != i) { long double f = A[k][i] / A[i][i]; for (int j = i; j < 9; j++) A[k][j] -= f * A[i][j]; } }
  for (int i = 0; i < 8; i++) { m[i] = (double)(A[i][8] / A[i][i]); if (!std::isfinite(m[i]) || std::fabs(m[i]) > 1e4) return false; }
  m[8] = 1;
  if (std::fabs(m[0] + 1) < 1e-6 && std::fabs(m[4] + 1) < 1e-6) return false;   // the documented special case of a half turn
  return true;
}
static string warp_diff(const Im &a, const double *q, const string &got, i64 w, i64 h) {
  double m[9]; if (!homography(w, h, q, m)) return "";
  for (i64 y = 0; y < h; y++) for (i64 x = 0; x < w; x++) {
    double W = m[6] * (double)x + m[7] * (double)y + 1; if (std::fabs(W) < 1e-3) continue;
    double sx = (m[0] * (double)x + m[1] * (double)y + m[2]) / W, sy = (m[3] * (double)x + m[4] * (double)y + m[5]) / W; const double e = 1e-5;
    if (std::fabs(sx) > 1e7 || std::fabs(sy) > 1e7) continue;
    bool edge = std::fabs(sx) < e || std::fabs(sy) < e || std::fabs(sx - (double)a.w) < e || std::fabs(sy - (double)a.h) < e || std::fabs(sx - (double)(a.w - 1)) < e || std::fabs(sy - (double)(a.h - 1)) < e;
    bool in = sx >= 0 && sy >= 0 && sx < (double)a.w && sy < (double)a.h;
    const u8 *g = (const u8 *)got.data() + (y * w + x) * 4;
    auto zero = [&] { return !g[0] && !g[1] && !g[2] && !g[3]; };
    if (!in && !edge) { if (!zero()) return "pixel (" + std::to_string(x) + "," + std::to_string(y) + ") comes from outside of the image but is not empty"; continue; }
    if (edge && zero()) continue;
    sx = std::min(std::max(sx, 0.0), (double)a.w - 1); sy = std::min(std::max(sy, 0.0), (double)a.h - 1);
    i64 x0 = (i64)sx, y0 = (i64)sy, x1 = std::min(x0 + 1, a.w - 1), y1 = std::min(y0 + 1, a.h - 1); double dx = sx - (double)x0, dy = sy - (double)y0;
    for (int c = 0; c < 4; c++) { double v = (a.at(x0, y0, c) * (1 - dx) + a.at(x1, y0, c) * dx) * (1 - dy) + (a.at(x0, y1, c) * (1 - dx) + a.at(x1, y1, c) * dx) * dy; if (g[c] > v + 0.05 || g[c] < v - 1.05) { char b[200]; snprintf(b, 200, "pixel (%lld,%lld) channel %d is %d instead of %.2f", (long long)x, (long long)y, c, (int)g[c], v); return b; } }
  }
  return "";
}
}
