#include <zlib.h>
// Command line properties C05-C11, C13, C14: workload, model, faults and checks.
#include "plan.h"
#include <cmath>
#include <cctype>
#include <algorithm>
extern "C" void sim_exit(int);
extern "C" void sim_free(void *);

enum Op { O_GRAY, O_BLUR, O_RESIZE, O_THRESH, O_BWSMART, O_BWSMOOTH, O_DETECT, O_DRAWCORNERS, O_SOBEL, O_CIRCLE, O_DISK, O_WATERSHED, O_CROP, O_EXTRACT,
  O_EXTRACTTO, O_FLIPX, O_FLIPY, O_ROTATE, O_TRIM, O_HIST, O_BORDER, O_ERODE, O_DILATE, O_CLOSE, O_OPEN, O_UNKNOWN, NOPS };
static const char *op_names[] = {"grayscale", "blur", "resize", "threshold", "bw_smart", "bw_smooth", "detect_corners", "draw_corners", "sobel", "circle", "disk",
  "watershed", "crop", "extract_document", "extract_document_to", "flip_x", "flip_y", "rotate", "trim", "histogram", "border", "erode", "dilate", "close", "open", "sharpen"};
static bool heavy_op(i64 o) { return o == O_DETECT || o == O_DRAWCORNERS || o == O_EXTRACT || o == O_EXTRACTTO; }
static bool needs_param(i64 o) {
  switch (o) { case O_BLUR: case O_RESIZE: case O_CIRCLE: case O_DISK: case O_WATERSHED: case O_CROP: case O_EXTRACTTO: case O_ROTATE: case O_BORDER: case O_ERODE: case O_DILATE: case O_CLOSE: case O_OPEN: return true; default: return false; }
}
static string num(double v) { char t[64]; if (v == (double)(i64)v && std::fabs(v) < 1e9) snprintf(t, 64, "%lld", (long long)v); else snprintf(t, 64, "%.3f", v); return t; }
static string color_text(const OpSpec &o) { string s; for (char c : o.s) if (c > 32 && c < 127 && c != ',' && c != '(' && c != ')' && s.size() < 20) s += c; return s.empty() ? "000000" : s; }
static vector<string> tokens(const OpSpec &o) {
  vector<string> t; i64 op = std::min<i64>(std::max<i64>(o.op, 0), NOPS - 1);
  t.push_back(op_names[op]);
  if (o.style == 9) return t;
  switch (op) {
  case O_BLUR: case O_ERODE: case O_DILATE: case O_CLOSE: case O_OPEN: case O_ROTATE: t.push_back(num(o.d[0])); break;
  case O_RESIZE:
    if (o.style == 0) t.push_back(num(o.d[0]) + "%");
    else if (o.style == 1) t.push_back(num(o.d[0]) + "%x" + num(o.d[1]) + "%");
    else if (o.style == 2) t.push_back(num(o.d[0]) + "x" + num(o.d[1]));
    else if (o.style == 3) t.push_back(num(o.d[0] / 100));
    else { t.push_back(num(o.d[0] / 100)); t.push_back(num(o.d[1] / 100)); }
    break;
  case O_CIRCLE: case O_DISK: t.push_back(color_text(o)); t.push_back(num(o.d[0])); t.push_back(num(o.d[1]) + "x" + num(o.d[2])); break;
  case O_WATERSHED: {
    size_t n = std::min<size_t>(o.pts.size(), 5); if (!n) break;
    for (size_t k = 0; k < n; k++) { string s = num(o.pts[k].x) + "x" + num(o.pts[k].y); if (o.style == 1) { if (k == 0) s = "'" + s; if (k + 1 == n) s += "'"; } t.push_back(s); }
    break; }
  case O_CROP: {
    string s = num(o.d[2]) + "x" + num(o.d[3]); auto off = [](double v) { char b[32]; snprintf(b, 32, "%+lld", (long long)v); return string(b); };
    if (o.style >= 1) s += off(o.d[0]); if (o.style >= 2) s += off(o.d[1]);
    t.push_back(s); break; }
  case O_EXTRACTTO: t.push_back(num(o.d[0]) + "x" + num(o.d[1])); break;
  case O_TRIM: if (o.style == 1) t.push_back(num(o.d[0]) + "%"); else if (o.style == 2) t.push_back(num(o.d[0])); break;
  case O_BORDER: t.push_back(color_text(o)); t.push_back(num(o.d[0])); break;
  default: break;
  }
  return t;
}
// Equivalent spellings of one pipeline
static vector<string> spell(const vector<OpSpec> &ops, i64 sp) {
  vector<string> args; Rng r((u64)sp * 7 + 3);
  i64 form = sp & 3;               // 0 one string, 1 one argument per token, 2 one argument per operation, 3 tokens and commas apart
  bool par = sp & 4, blanks = sp & 8, extra = sp & 16; if (sp == 0) { par = blanks = extra = false; }
  string all;
  for (size_t k = 0; k < ops.size(); k++) {
    vector<string> t = tokens(ops[k]); bool p = par && r.chance(60); bool last = k + 1 == ops.size();
    auto sps = [&] { return string(blanks ? 1 + r.below(3) : 1, ' '); };
    if (p) { t[0] = "(" + string(blanks ? r.below(2) : 0, ' ') + t[0]; t.back() += string(blanks ? r.below(2) : 0, ' ') + ")"; }
    if (form == 0 || form == 2) {
      string s; for (size_t i = 0; i < t.size(); i++) s += (i ? sps() : "") + t[i];
      if (!last) s += blanks ? string(r.below(2), ' ') + "," + string(r.below(3), ' ') : form == 0 ? (r.chance(80) ? ", " : ",") : ",";
      if (extra && !last && r.chance(30)) s += " , ";
      if (form == 0) all += s; else args.push_back(s);
    } else {
      for (size_t i = 0; i < t.size(); i++) { string s = t[i]; if (i + 1 == t.size() && !last && form == 1) s += ","; args.push_back(s); }
      if (form == 3 && !last) args.push_back(",");
    }
  }
  if (extra) { if (form == 0) all += ","; else if (!args.empty()) args.back() += ","; }
  if (form == 0) args.push_back(all);
  return args;
}

static vector<string> misspell(vector<string> t, Rng &r) {
  size_t k = t.size() > 1 ? 1 + r.below(t.size() - 1) : 0; string &x = t[k];
  switch (r.below(6)) {
  case 0: if (!x.empty()) x.resize(r.below(x.size())); break;                                          // cut off
  case 1: t.resize(k ? k : 1); break;                                                                  // parameters are missing
  case 2: { vector<size_t> at; for (size_t i = 0; i < x.size(); i++) if (!isdigit((u8)x[i]) && x[i] != '.' && x[i] != '-') at.push_back(i); if (!at.empty()) { size_t i = at[r.below(at.size())]; if (r.chance(50)) x.erase(i, 1); else x[i] = ";y+x%"[r.below(5)]; } break; }
  case 3: { static const char *w[] = {"abc", "0", "x", "5x", "x5", "0x0", "+", "%", "#", "0x5", "5x0"}; x = w[r.below(11)]; break; }
  case 4: { static const char *w[] = {"7x", "zzz", "3", "0x0", "FF"}; t.push_back(w[r.below(5)]); break; }
  default: t[0] += r.chance(50) ? "s" : ""; if (t.size() > 2) std::swap(t[1], t[t.size() - 1]); break;  // another name, another order
  }
  return t;
}
static string ext_of(const string &p) { size_t k = p.rfind('.'); return k == string::npos ? "" : p.substr(k); }
static bool f0png(i64 f) { return f == 0 || (f >= 5 && f <= 10) || f == 21; }
static bool is_jpg(i64 f) { return f == 1 || f == 13 || f == 19 || f == 20; }
static string in_path(const CliPlan &c) {
  bool jpg = is_jpg(c.fmt);
  static const char *j[] = {"in/photo.jpg", "in/photo.jpeg", "in/PHOTO.JPG", "photo.JPEG", "in/sub/my photo.v2.jpg", "in/photo.png", "in/noext", "in/photo.Jpg"};
  static const char *o[] = {"in/img.png", "in/img.bmp", "img.tga", "in/sub/a b.png", "in/img", "in/img.jpg", "in/x.y.png", "in/img.PNG"};
  return (jpg ? j : o)[((c.inpath % 8) + 8) % 8];
}
static string out_path(const CliPlan &c) {
  static const char *o[] = {"out/r.png", "out/r.jpg", "out/r.jpeg", "out/noext", "r.png", "out/sub/a.b c.png", "out/r.png", "out/r.jpg", "out/r.bmp", "out/missing/r.png", "out/sub", "SAME", "out/r.jpg.png", "out/.png"};
  string s = o[((c.outpath % 14) + 14) % 14]; return s == "SAME" ? in_path(c) : s;
}
static bool wants_jpeg(const string &p) { string e = ext_of(p); return e == ".jpg" || e == ".jpeg"; }

// ---------------------------------------------------------------- reference model
struct Model { bool decoded = false, ok = false; Pixels img; string out; string note; };
static bool take(Pixels &im, B r, i64 w, i64 h) { if (!r) return false; im.w = w; im.h = h; im.px.assign((char *)r, (size_t)w * (size_t)h * 4); sim_free(r); return true; }
static Pixels geo(const Pixels &s, i64 w, i64 h, const std::function<void(i64, i64, i64 &, i64 &)> &f) {
  Pixels d; d.ok = true; d.w = w; d.h = h; d.px.resize((size_t)(w * h * 4));
  for (i64 y = 0; y < h; y++) for (i64 x = 0; x < w; x++) { i64 sx, sy; f(x, y, sx, sy); memcpy(&d.px[(size_t)((y * w + x) * 4)], &s.px[(size_t)((sy * s.w + sx) * 4)], 4); }
  return d;
}
static double dnum(const string &s) { return strtod(s.c_str(), nullptr); }
static bool interp(const Api &f, const OpSpec &o, Pixels &im, string &out) {
  if (o.op < 0 || o.op >= O_UNKNOWN) return false;
  if (needs_param(o.op) && o.style == 9) return false;
  vector<string> t = tokens(o); u32 w = (u32)im.w, h = (u32)im.h; u32 ow = 0, oh = 0; B px = (B)im.px.data();
  // an exact-size copy, so that the sanitizer sees any access outside
  vector<u8> keep; u8 *in = (u8 *)malloc(im.px.size() ? im.px.size() : 1); memcpy(in, im.px.data(), im.px.size()); px = in;
  struct F { u8 *p; ~F() { free(p); } } fr{in};
  auto morph = [&](B (*fn)(CB, int32_t, int32_t, int32_t)) {
    B g = f.fcv_rgba_to_grayscale(w, h, px); if (!g) return false;
    B m = fn(g, (int)w, (int)h, (int)dnum(t[1])); sim_free(g); if (!m) return false;
    B r = f.fcv_single_to_multichannel(w, h, m); sim_free(m); return take(im, r, w, h);
  };
  switch (o.op) {
  case O_GRAY: return take(im, f.fcv_grayscale(w, h, px), w, h);
  case O_BLUR: return take(im, f.fcv_apply_gaussian_blur(w, h, dnum(t[1]), px), w, h);
  case O_RESIZE: {
    double x, y; size_t k = t[1].find('x');
    auto factor = [](u32 size, double target) { double q = target / size; return size * q < target ? std::nextafter(q, INFINITY) : q; };
    if (o.style == 0) x = y = dnum(t[1]) / 100.0;
    else if (o.style == 1) { x = dnum(t[1].substr(0, k)) / 100.0; y = dnum(t[1].substr(k + 1)) / 100.0; }
    else if (o.style == 2) { x = factor(w, dnum(t[1].substr(0, k))); y = factor(h, dnum(t[1].substr(k + 1))); }
    else if (o.style == 3) x = y = dnum(t[1]);
    else { x = dnum(t[1]); y = dnum(t[2]); }
    B r = f.fcv_resize(w, h, x, y, &ow, &oh, px); return take(im, r, ow, oh); }
  case O_THRESH: return take(im, f.fcv_otsu_threshold_rgba(w, h, false, px), w, h);
  case O_BWSMART: return take(im, f.fcv_bw_smart(w, h, false, px), w, h);
  case O_BWSMOOTH: return take(im, f.fcv_bw_smart(w, h, true, px), w, h);
  case O_DETECT: case O_DRAWCORNERS: {
    Corners *c = f.fcv_detect_corners_ptr(px, (int)w, (int)h); if (!c) return false;
    double v[8] = {c->tl_x, c->tl_y, c->tr_x, c->tr_y, c->br_x, c->br_y, c->bl_x, c->bl_y}; sim_free(c);
    char b[600];
    if (o.op == O_DETECT) { snprintf(b, 600, "{\"corners\":{\"top_left\":[%.0f,%.0f],\"top_right\":[%.0f,%.0f],\"bottom_right\":[%.0f,%.0f],\"bottom_left\":[%.0f,%.0f]}}", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); out += b; return true; }
    snprintf(b, 600, "Detectedcorners:Top-left:(%.0f,%.0f)Top-right:(%.0f,%.0f)Bottom-right:(%.0f,%.0f)Bottom-left:(%.0f,%.0f)", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); out += b;
    double rad = std::fmin((double)w, (double)h) * 0.02;
    for (int k = 0; k < 4; k++) f.fcv_draw_disk(w, h, 4, "FF0000", rad, v[2 * k], v[2 * k + 1], px);
    im.px.assign((char *)px, im.px.size()); return true; }
  case O_SOBEL: { B g = f.fcv_sobel_edge_detection(w, h, 4, px); if (!g) return false; B r = f.fcv_single_to_multichannel(w, h, g); sim_free(g); return take(im, r, w, h); }
  case O_CIRCLE: case O_DISK: {
    size_t k = t[3].find('x'); auto fn = o.op == O_CIRCLE ? f.fcv_draw_circle : f.fcv_draw_disk;
    fn(w, h, 4, t[1].c_str(), dnum(t[2]), dnum(t[3].substr(0, k)), dnum(t[3].substr(k + 1)), px); im.px.assign((char *)px, im.px.size()); return true; }
  case O_WATERSHED: {
    vector<Point2D> m; for (size_t k = 1; k < t.size(); k++) { string s = t[k]; s.erase(std::remove(s.begin(), s.end(), '\''), s.end()); size_t q = s.find('x'); m.push_back({dnum(s.substr(0, q)), dnum(s.substr(q + 1))}); }
    if (m.empty()) return false;
    B g = f.fcv_rgba_to_grayscale(w, h, px); if (!g) return false;
    B r = f.fcv_watershed_segmentation(w, h, g, m.data(), (u32)m.size(), false); sim_free(g); return take(im, r, w, h); }
  case O_CROP: {
    i64 x = o.style >= 1 ? std::max<i64>(0, (i64)o.d[0]) : 0, y = o.style >= 2 ? std::max<i64>(0, (i64)o.d[1]) : 0;
    if ((i64)o.d[2] < 1 || (i64)o.d[3] < 1) return false;
    if (x >= im.w || y >= im.h) return false;
    i64 cw = std::min<i64>((i64)o.d[2], im.w - x), chh = std::min<i64>((i64)o.d[3], im.h - y);
    im = geo(im, cw, chh, [&](i64 a, i64 b, i64 &sx, i64 &sy) { sx = a + x; sy = b + y; }); return true; }
  case O_EXTRACT: { B r = f.fcv_extract_document_auto(w, h, px, &ow, &oh); return take(im, r, ow, oh); }
  case O_EXTRACTTO: { size_t k = t[1].find('x'); int a = atoi(t[1].substr(0, k).c_str()), b = atoi(t[1].substr(k + 1).c_str()); if (a <= 0 || b <= 0) return false; return take(im, f.fcv_extract_document(w, h, px, (u32)a, (u32)b), a, b); }
  case O_FLIPX: im = geo(im, im.w, im.h, [&](i64 a, i64 b, i64 &sx, i64 &sy) { sx = (i64)w - 1 - a; sy = b; }); return true;
  case O_FLIPY: im = geo(im, im.w, im.h, [&](i64 a, i64 b, i64 &sx, i64 &sy) { sx = a; sy = (i64)h - 1 - b; }); return true;
  case O_ROTATE: {
    int an = (((int)dnum(t[1]) % 360) + 360) % 360;
    if (an == 0) return true; if (an % 90) return false;
    im = orient_pixels(im, an == 90 ? 6 : an == 180 ? 3 : 8); return true; }
  case O_TRIM: { int32_t a = (int)w, b = (int)h; B r = o.style == 1 || o.style == 2 ? f.fcv_trim_threshold(&a, &b, 4, px, dnum(t[1])) : f.fcv_trim(&a, &b, 4, px); return take(im, r, a, b); }
  case O_HIST: { B r = f.fcv_generate_histogram(w, h, 4, px, &ow, &oh); return take(im, r, ow, oh); }
  case O_BORDER: {
    u32 bw = (u32)dnum(t[2]); if (dnum(t[2]) <= 0) return false;
    B r = f.fcv_add_border(w, h, 4, t[1].c_str(), bw, px, &ow, &oh); return take(im, r, ow, oh); }
  case O_ERODE: return morph(f.fcv_binary_erosion_disk);
  case O_DILATE: return morph(f.fcv_binary_dilation_disk);
  case O_CLOSE: return morph(f.fcv_binary_closing_disk);
  case O_OPEN: return morph(f.fcv_binary_opening_disk);
  }
  return false;
}
#include "refops.h"
// does what the library made of the image agree with the independent definition of the operation?
static string meaning(const Api &f, const OpSpec &o, const Pixels &a, const Pixels &g) {
  using namespace refops; vector<string> t = tokens(o); Im im{a.w, a.h, (const u8 *)a.px.data()}; i64 w = a.w, h = a.h;
  auto same = [&](const string &want, i64 W, i64 H, int tol) { return diff(g.px, g.w, g.h, want, W, H, tol); };
  auto sized = [&] { return g.w == w && g.h == h ? string() : string("size changed"); };
  auto lib_corners = [&](double *v) { u8 *c = (u8 *)malloc(a.px.size()); memcpy(c, a.px.data(), a.px.size()); Corners *k = f.fcv_detect_corners_ptr(c, (int)w, (int)h); free(c); if (!k) return false; double q[8] = {k->tl_x, k->tl_y, k->tr_x, k->tr_y, k->br_x, k->br_y, k->bl_x, k->bl_y}; memcpy(v, q, sizeof q); sim_free(k); return true; };
  switch (o.op) {
  case O_GRAY: return same(multi(gray(im)), w, h, 0);
  case O_BLUR: return same(blur(im, dnum(t[1])), w, h, 1);
  case O_RESIZE: {
    // the factors, from the text
    double x, y; size_t k = t[1].find('x');
    if (o.style == 0) x = y = dnum(t[1]) / 100.0; else if (o.style == 1) { x = dnum(t[1].substr(0, k)) / 100.0; y = dnum(t[1].substr(k + 1)) / 100.0; }
    else if (o.style == 2) { x = dnum(t[1].substr(0, k)) / (double)w; y = dnum(t[1].substr(k + 1)) / (double)h; } else if (o.style == 3) x = y = dnum(t[1]); else { x = dnum(t[1]); y = dnum(t[2]); }
    if (std::fabs((double)g.w - (double)w * x) > 1 || std::fabs((double)g.h - (double)h * y) > 1) return "size " + std::to_string(g.w) + "x" + std::to_string(g.h);
    return same(resize(im, x, y, g.w, g.h), g.w, g.h, 1); }
  case O_THRESH: { string e = sized(); return e.empty() ? otsu_diff(gray(im), false, g.px) : e; }
  case O_BWSMART: case O_BWSMOOTH: {
    string e = sized(); if (!e.empty()) return e;
    vector<u8> gr = gray(im); string m = multi(gr); u8 *c = (u8 *)malloc(m.size()); memcpy(c, m.data(), m.size());
    double rad = std::sqrt((double)w * (double)h) * 0.1; B b = f.fcv_apply_gaussian_blur((u32)w, (u32)h, rad, c); free(c); if (!b) return "";
    string bl((char *)b, m.size()); sim_free(b); Im gm{w, h, (const u8 *)m.data()}; e = diff(bl, w, h, blur(gm, rad), w, h, 1); if (!e.empty()) return "blurred background: " + e;
    for (size_t k = 0; k < gr.size(); k++) gr[k] = (u8)std::min(255, std::max(0, 127 + (int)gr[k] - (int)(u8)bl[4 * k]));
    string hf = multi(gr); Im hi{w, h, (const u8 *)hf.data()};   // grayscale weights sum to 256: unchanged
    return otsu_diff(gray(hi), o.op == O_BWSMOOTH, g.px); }
  case O_DRAWCORNERS: { double v[8]; if (!lib_corners(v)) return ""; string p = a.px; for (int k = 0; k < 4; k++) round_shape(p, w, h, "FF0000", std::fmin((double)w, (double)h) * 0.02, v[2 * k], v[2 * k + 1], true); return same(p, w, h, 0); }
  case O_DETECT: return same(a.px, w, h, 0);
  case O_SOBEL: return same(sobel(im), w, h, 1);
  case O_CIRCLE: case O_DISK: { size_t k = t[3].find('x'); string p = a.px; round_shape(p, w, h, t[1], dnum(t[2]), dnum(t[3].substr(0, k)), dnum(t[3].substr(k + 1)), o.op == O_DISK); return same(p, w, h, 0); }
  case O_WATERSHED: { vector<Pt> m; for (size_t k = 1; k < t.size(); k++) { string s = t[k]; s.erase(std::remove(s.begin(), s.end(), '\''), s.end()); size_t q = s.find('x'); Pt z; z.x = dnum(s.substr(0, q)); z.y = dnum(s.substr(q + 1)); if (z.x < 0 || z.y < 0 || z.x >= (double)w || z.y >= (double)h) return ""; for (auto &u : m) if ((i64)u.x == (i64)z.x && (i64)u.y == (i64)z.y) return ""; m.push_back(z); } return same(watershed(im, m), w, h, 0); }
  case O_EXTRACT: case O_EXTRACTTO: { double v[8]; if (!lib_corners(v)) return "";
    if (o.op == O_EXTRACT) { auto len = [&](int i, int j) { return std::hypot(v[2 * i] - v[2 * j], v[2 * i + 1] - v[2 * j + 1]); }; double W = std::max(100.0, std::max(len(0, 1), len(2, 3))), H = std::max(100.0, std::max(len(0, 3), len(1, 2))); if (std::fabs((double)g.w - W) > 0.501 || std::fabs((double)g.h - H) > 0.501) return "size " + std::to_string(g.w) + "x" + std::to_string(g.h); }
    return warp_diff(im, v, g.px, g.w, g.h); }
  case O_TRIM: { double pc = o.style == 1 || o.style == 2 ? std::min(100.0, std::max(0.0, dnum(t[1]))) : 0; double lv = pc * 255.0 / 100.0; string e;
    for (int tol : {(int)(lv - 1e-9 < 0 ? 0 : lv - 1e-9), (int)(lv + 1e-9)}) { i64 L, T, R, Q; trim(im, tol, L, T, R, Q); Pixels c = geo(a, R - L, Q - T, [&](i64 x, i64 y, i64 &sx, i64 &sy) { sx = x + L; sy = y + T; }); e = same(c.px, c.w, c.h, 0); if (e.empty()) return e; }
    return e; }
  case O_HIST: return same(hist(im), 256, 200, 0);
  case O_BORDER: { i64 bw = (i64)dnum(t[2]); if (bw < 1) return ""; u8 c[3]; colour(t[1], c); i64 W = w + 2 * bw, H = h + 2 * bw; string p((size_t)(W * H * 4), (char)0);
    for (i64 y = 0; y < H; y++) for (i64 x = 0; x < W; x++) { i64 X = x - bw, Y = y - bw; if (X >= 0 && Y >= 0 && X < w && Y < h) memcpy(&p[(size_t)((y * W + x) * 4)], &a.px[(size_t)((Y * w + X) * 4)], 4); else put(p, W, H, x, y, c); }
    return same(p, W, H, 0); }
  case O_ERODE: case O_DILATE: case O_CLOSE: case O_OPEN: {
    vector<u8> m = gray(im); i64 r = (i64)dnum(t[1]); if (r < 0) return "";
    if (o.op == O_ERODE) m = erode(m, w, h, r, false); else if (o.op == O_DILATE) m = dilate(m, w, h, r); else if (o.op == O_CLOSE) m = erode(dilate(m, w, h, r), w, h, r, true); else m = dilate(erode(m, w, h, r, false), w, h, r);
    return same(multi(m), w, h, 0); }
  }
  return "";   // the geometry of the others is not taken from the library in the first place
}
static string strip_ws(const string &s) { string o; for (char c : s) if (!isspace((u8)c)) o += c; return o; }

// ---------------------------------------------------------------- one run of the tool
struct Run { ChildResult c; int code = -1; string out, err; std::map<string, string> fs; std::map<string, string> touched; u64 allocs = 0, failed = 0, peak = 0, live_n = 0, live_b = 0, io = 0, lost = 0, maxreq = 0; std::map<string, u64> nops; bool ended = false; };
struct Disk { std::map<string, string> f; std::map<string, u64> mode; };
struct Env { const CliPlan *c = nullptr; bool afault = false, dfault = false, console = false, kill = false, shorts = false, clock = false; u64 junk = 1; u64 ref_allocs = 1, ref_steps = 0, ref_io = 0; u64 mem_cap = 0; i64 variant = 0; i64 fk = 0, fa = 0, fb = 0; i64 extra_clock = 0; };
static string g_in, g_out;

static string report_now() {
  Out o; o.s(G->out); o.s(G->err); o.u(G->fs.size()); for (auto &x : G->fs) { o.s(x.first); o.s(x.second->data); }
  o.u(G->touched.size()); for (auto &x : G->touched) { o.s(x.first); o.s(x.second); }
  o.u(G->allocs); o.u(G->win[0].failed); o.u(G->peak_bytes); o.u(G->live.size()); o.u(G->live_bytes); o.u(G->io_events); o.u(G->out_lost); o.u(G->max_request);
  o.u(G->nops.size()); for (auto &x : G->nops) { o.s(x.first); o.u(x.second); }
  return o.b;
}
static i64 work_budget(const vector<string> &args) {   // steps of an undisturbed run: far above what its operations need
  i64 n = 0; for (auto &a : args) for (const char *k : {"corners", "extract"}) for (size_t p = a.find(k); p != string::npos; p = a.find(k, p + 1)) n++;
  return 2000000000ll + 3000000000ll * n;
}
static Run run_cli(const vector<string> &args, const Disk &disk, const string &inp, const string &outp, const Env &e) {
  Run r;
  Sut &s = sut_by_name(e.variant & 1 ? "zero" : "split");
  r.c = run_child([&] {
    G->trace_on = TRACE; G->junk = e.junk; G->process_mode = true; G->rnd = mix64(e.junk, 17) | 1;
    for (auto &x : disk.f) { auto n = std::make_shared<Node>(); n->data = x.second; auto m = disk.mode.find(x.first); if (m != disk.mode.end()) n->mode = m->second; G->fs[x.first] = n; }
    if (e.mem_cap) G->mem_cap = e.mem_cap;
    i64 kill_in = 0;
    if (e.c) {
      const CliPlan &c = *e.c;
      if (e.clock) G->clock_mode = (u64)c.clock_mode;
      if (e.shorts) G->short_seed = c.short_seed;
      if (e.dfault) {
        static const char *ops[] = {"open", "read", "write", "close", "seek", "readat"};
        for (auto &d : c.df) { DFault f; f.op = ops[((d.op % 6) + 6) % 6]; f.nth = d.nth; f.err = d.err ? d.err : 5; f.partial = d.partial; f.sticky = d.sticky; f.path = d.where == 1 ? inp : d.where == 2 ? outp : ""; G->df.push_back(f); }
        G->df_count.assign(G->df.size(), 0); G->df_fired.assign(G->df.size(), 0);
        G->disk_capacity = c.capacity;
      }
      if (e.console) { G->out_cap = c.out_cap; G->err_cap = c.err_cap; G->out_errno = c.out_errno; extern void sim_stdout_linebuf(); if (c.out_linebuf) sim_stdout_linebuf(); }
      if (e.kill) {
        if (c.kill_io) { G->kill_io = 1 + ((u64)c.kill_io - 1) % std::max<u64>(1, e.ref_io); G->kill_partial = (u64)c.kill_partial; }
        else if (c.kill_step) kill_in = 1 + (i64)(((u64)c.kill_step - 1) % std::max<u64>(1, e.ref_steps));
      }
    }
    if (e.extra_clock) G->clock_mode = (u64)e.extra_clock;
    if (e.afault) { AWin &w = G->win[0]; w.af.kind = e.fk; w.af.a = e.fa; w.af.b = e.fb; w.n = std::max<u64>(1, e.ref_allocs); w.idx = 0; }
    vector<char *> av; vector<string> full = {"flatcv"}; for (auto &a : args) full.push_back(a);
    for (auto &a : full) { char *q = (char *)malloc(a.size() + 1); memcpy(q, a.c_str(), a.size() + 1); av.push_back(q); }
    int n = (int)av.size(); av.push_back(nullptr);
    char **argv = (char **)malloc(sizeof(char *) * av.size()); memcpy(argv, av.data(), sizeof(char *) * av.size());
    fatal_report = report_now;
    sim_set_budget(e.ref_steps ? (i64)e.ref_steps * 20 + 60000000 : work_budget(args), kill_in);
    int rc = s.f.sut_main(n, argv);
    sim_exit(rc);
    return string();
  });
  ST.child(r.c); ST.calls++;
  if (r.c.fate == F_EXIT || r.c.fate == F_KILLED) {
    r.ended = r.c.fate == F_EXIT; r.code = r.c.code;
    In i(r.c.report); r.out = i.s(); r.err = i.s();
    u64 k = i.u(); for (u64 j = 0; j < k && !i.bad; j++) { string a = i.s(); r.fs[a] = i.s(); }
    k = i.u(); for (u64 j = 0; j < k && !i.bad; j++) { string a = i.s(); r.touched[a] = i.s(); }
    r.allocs = i.u(); r.failed = i.u(); r.peak = i.u(); r.live_n = i.u(); r.live_b = i.u(); r.io = i.u(); r.lost = i.u(); r.maxreq = i.u();
    k = i.u(); for (u64 j = 0; j < k && !i.bad; j++) { string a = i.s(); r.nops[a] = i.u(); }
    if (i.bad) { r.c.fate = F_HARNESS; r.c.msg = "bad report"; r.ended = false; }
  }
  if (TRACE) { TRACE_OUT += "== run:"; for (auto &a : args) TRACE_OUT += " '" + a + "'"; TRACE_OUT += "\n" + r.c.trace + "-> " + fate_name[r.c.fate] + " " + std::to_string(r.code) + "\nstderr: " + r.err.substr(0, 2000) + "\nstdout: " + r.out.substr(0, 2000) + "\n"; }
  return r;
}
static Verdict bad(const string &cls, const string &d) { Verdict v; v.cls = cls; v.detail = d; return v; }
static Verdict crash(const Run &r, const string &what) {
  Verdict v;
  if (r.c.fate == F_HARNESS || r.c.fate == F_TIMEOUT) { v.harness = true; v.detail = what + ": " + fate_name[r.c.fate] + " " + r.c.msg.substr(0, 300); return v; }
  v.cls = r.c.fate == F_ASAN ? "memory" : fate_name[r.c.fate];
  v.detail = what + ": " + (r.c.fate == F_ASAN ? asan_summary(r.c.msg) : string(fate_name[r.c.fate]) + ": " + r.c.msg.substr(0, 200));
  return v;
}
static string cmdline(const vector<string> &a) { string s = "flatcv"; for (auto &x : a) s += " '" + x + "'"; return s.substr(0, 700); }
static bool has_message(const string &err) {
  string l; for (char c : err) l += (char)tolower((u8)c);
  for (const char *k : {"error", "fail", "could not", "couldn't", "cannot", "can't", "unable", "memory", "invalid", "no space", "not be"}) if (l.find(k) != string::npos) return true;
  return false;
}
// "" if every decoder accepts the PNG file: chunk structure, check sums, compressed data (the decoder used here is lenient)
static string png_invalid(const string &d) {
  const u8 *b = (const u8 *)d.data(); size_t n = d.size(), p = 8; string z; bool end = false, hdr = false; size_t want = 0;
  auto be = [&](size_t k) { return (u32)b[k] << 24 | (u32)b[k + 1] << 16 | (u32)b[k + 2] << 8 | b[k + 3]; };
  while (p + 12 <= n) {
    u32 l = be(p); if (l > n - p - 12) return "a PNG chunk is longer than the file"; string t = d.substr(p + 4, 4);
    if (be(p + 8 + l) != (u32)crc32(0, b + p + 4, l + 4)) return "the check sum of PNG chunk " + t + " is wrong";
    if (t == "IHDR") { if (hdr || l != 13) return "the PNG header is wrong"; hdr = true; static const int ch[] = {1, 0, 3, 1, 2, 0, 4}; int ct = b[p + 17]; if (ct > 6 || !ch[ct]) return "the PNG header is wrong"; if (!b[p + 20]) want = (size_t)be(p + 12) ? (((size_t)be(p + 8) * (size_t)ch[ct] * b[p + 16] + 7) / 8 + 1) * be(p + 12) : 0; }
    else if (!hdr) return "the PNG file does not begin with its header"; else if (t == "IDAT") z.append(d, p + 8, l);
    p += 12 + l; if (t == "IEND") { end = true; break; }
  }
  if (!end || p != n) return "the PNG file does not end with its last chunk";
  string o(want + 64, 0); uLongf got = (uLongf)o.size(); z_stream s; memset(&s, 0, sizeof s); inflateInit(&s); s.next_in = (Bytef *)z.data(); s.avail_in = (uInt)z.size(); s.next_out = (Bytef *)&o[0]; s.avail_out = (uInt)got; int rc = inflate(&s, Z_FINISH); got = s.total_out; bool rest = s.avail_in; inflateEnd(&s);
  if (rc != Z_STREAM_END || rest) return "the compressed data of the PNG file is damaged";
  if (want && got != want) return "the PNG file has data for another image size";
  return "";
}
// "" if data is the expected image
static string saved_wrong(const string &data, const Pixels &want, bool jpeg) {
  if (jpeg) {
    string v = encode_jpeg90(want); if (data == v) return "";
    if (data.size() < 4 || (u8)data[0] != 0xFF || (u8)data[1] != 0xD8) return "not a JPEG file (" + std::to_string(data.size()) + " bytes)";
    if ((u8)data[data.size() - 2] != 0xFF || (u8)data[data.size() - 1] != 0xD9) return "the JPEG file is cut off (" + std::to_string(data.size()) + " bytes)";
    Pixels a = decode_rgba(data), b = decode_rgba(v);
    if (!a.ok) return "the JPEG file cannot be decoded";
    if (a.w != want.w || a.h != want.h) return "wrong dimensions " + std::to_string(a.w) + "x" + std::to_string(a.h) + " instead of " + std::to_string(want.w) + "x" + std::to_string(want.h);
    double ea = 0, eb = 0; for (size_t i = 0; i < a.px.size(); i++) if (i % 4 != 3) { ea += std::abs((int)(u8)a.px[i] - (int)(u8)want.px[i]); eb += std::abs((int)(u8)b.px[i] - (int)(u8)want.px[i]); }
    double n = (double)a.px.size() * 0.75;
    if (ea / n > 1.5 * eb / n + 2) return "the JPEG file shows another image (mean error " + std::to_string(ea / n) + ")";
    return "";
  }
  Pixels a = decode_rgba(data);
  if (!a.ok) return "the file cannot be decoded (" + std::to_string(data.size()) + " bytes)";
  if (data.size() >= 8 && !memcmp(data.data(), "\x89PNG", 4)) { string w = png_invalid(data); if (!w.empty()) return w; }
  if (data.size() >= 8 && !memcmp(data.data(), "\x89PNG", 4) && data.find("IEND", data.size() - 8) == string::npos) return "the PNG file is cut off";
  if (a.w != want.w || a.h != want.h) return "wrong dimensions " + std::to_string(a.w) + "x" + std::to_string(a.h) + " instead of " + std::to_string(want.w) + "x" + std::to_string(want.h);
  for (size_t i = 0; i < a.px.size(); i++) if (a.px[i] != want.px[i]) { char t[120]; snprintf(t, 120, "wrong pixel at (%zu,%zu), channel %zu: %d instead of %d", i / 4 % (size_t)a.w, i / 4 / (size_t)a.w, i % 4, (u8)a.px[i], (u8)want.px[i]); return t; }
  return "";
}
static string disk_diff(const std::map<string, string> &before, const std::map<string, string> &after, const string &except) {
  for (auto &x : after) if (x.first != except) { auto it = before.find(x.first); if (it == before.end()) return "'" + x.first + "' was created"; if (it->second != x.second) return "'" + x.first + "' was modified"; }
  for (auto &x : before) if (x.first != except && !after.count(x.first)) return "'" + x.first + "' was deleted";
  return "";
}

struct Base {   // everything that does not depend on the faults; kept between plans with the same workload
  string key; vector<string> args; string inp, outp; Disk disk; Model m; Run ref; bool detect_only = false; bool broken_args = false; Verdict v; bool valid = false;
};
static Model make_model(const string &file, const string &inp, const vector<OpSpec> &ops, Verdict &v, bool mean) {
  Model m; Pixels p = decode_rgba(file);
  if (!p.ok) return m;
  m.decoded = true;
  string e = ext_of(inp);
  if (e == ".jpg" || e == ".jpeg" || e == ".JPG" || e == ".JPEG") p = orient_pixels(p, my_exif_orientation(file));
  ChildResult r = run_child([&] {
    sim_set_budget(2000000000ll + (mean ? 6000000000ll : 3000000000ll) * std::count_if(ops.begin(), ops.end(), [](const OpSpec &o) { return heavy_op(o.op); }), 0); Pixels im = p; string out, note; bool ok = true;
    Sut &s = sut_by_name("split");
    for (auto &o : ops) {
      Pixels before; if (mean) before = im;
      if (!interp(s.f, o, im, out)) { ok = false; break; }
      if (mean && note.empty()) { string e = meaning(s.f, o, before, im); if (!e.empty()) { string tx; for (auto &k : tokens(o)) tx += k + " "; note = tx + "of an image of " + std::to_string(before.w) + "x" + std::to_string(before.h) + ": " + e; } }
    }
    Out t; t.s(note); t.u(ok); t.u((u64)im.w); t.u((u64)im.h); t.s(im.px); t.s(out); return t.b;
  });
  ST.child(r);
  if (r.fate != F_RETURN) { Run x; x.c = r; v = crash(x, "library calls of the pipeline"); return m; }
  In i(r.report); m.note = i.s(); m.ok = i.u(); m.img.ok = true; m.img.w = (i64)i.u(); m.img.h = (i64)i.u(); m.img.px = i.s(); m.out = i.s();
  return m;
}
static const char *bad_args_text[] = {"", "no arguments", "input only", "no output path", "empty pipeline", "missing input file", "commas only", "crop without geometry", "circle without position", "parameter too long", "border of width 0", "disk with bad position", "extract_document_to 0x5", "input is a directory"};
static Base make_base(const Plan &p, const vector<OpSpec> &ops, i64 spelling, bool need_model, bool damage) {
  const CliPlan &c = p.cli; Base b;
  CliPlan k = c; Ar a; Plan q; q.prop = ""; q.has_cli = 1; q.cli = c; q.cli.df.clear(); q.cli.fk = q.cli.fa = q.cli.fb = 0; q.cli.capacity = q.cli.out_cap = q.cli.err_cap = -1; q.cli.short_seed = 0; q.cli.clock_mode = 0; q.cli.kill_io = q.cli.kill_partial = q.cli.kill_step = 0; q.cli.out_errno = 32; q.cli.out_linebuf = 0; q.cli.junk = 1; q.cli.ops = ops; q.cli.spelling = spelling;
  if (!damage) q.cli.damage.clear();
  b.key = save_plan(q) + (need_model ? "m" : "") + p.prop + std::to_string(p.junk);
  static Base last; if (last.valid && last.key == b.key && !TRACE && !NOMEMO) return last;
  b.inp = in_path(c); b.outp = out_path(c);
  string file = make_file(c); if (damage) file = apply_damage(file, c.damage);
  b.disk.f[b.inp] = file;
  b.disk.f["in/bystander.png"] = "do not touch"; b.disk.f["out/bystander"] = "do not touch either"; b.disk.f["r"] = "short name";
  if (b.outp != b.inp && !b.disk.f.count(b.outp) && b.outp != "out/sub" && b.outp != "out/missing/r.png") {
    if (c.preexist == 1) b.disk.f[b.outp] = string("old content of the output, longer than some results ") + string((size_t)(c.img.seed % 3000), 'o');
    else if (c.preexist == 2) { Pixels o; o.ok = true; o.w = 3; o.h = 2; o.px = string(24, 'z'); b.disk.f[b.outp] = encode_jpeg90(o); }
    else if (c.preexist == 3) { b.disk.f[b.outp] = "write protected"; b.disk.mode[b.outp] = 0444; }
  }
  vector<string> sp = spell(ops, spelling);
  b.detect_only = ops.size() == 1 && ops[0].op == O_DETECT && c.outpath == 13;
  if (b.detect_only) { b.args = {b.inp, "detect_corners"}; b.outp = ""; }
  else { b.args.push_back(b.inp); for (auto &x : sp) b.args.push_back(x); b.args.push_back(b.outp); }
  if (c.badargs >= 1000 && !ops.empty()) {   // one operation is misspelt; it may or may not mean something still
    b.broken_args = true; Rng r((u64)c.badargs); size_t at = r.below(ops.size()); string all;
    for (size_t k = 0; k < ops.size(); k++) { vector<string> t = tokens(ops[k]); if (k == at) t = misspell(t, r); for (size_t i = 0; i < t.size(); i++) all += (i ? " " : k ? ", " : "") + t[i]; }
    b.args = {b.inp, all, b.outp};
  } else if (c.badargs) {
    b.broken_args = true;
    switch (c.badargs % 14) {
    case 1: b.args.clear(); break;
    case 2: b.args = {b.inp}; break;
    case 3: b.args = {b.inp, "grayscale"}; break;
    case 4: b.args = {b.inp, "", b.outp}; break;
    case 5: b.args[0] = "in/nothing.png"; break;
    case 6: b.args = {b.inp, ",", ",", b.outp}; break;
    case 7: b.args = {b.inp, "flip_x, crop abc", b.outp}; break;
    case 8: b.args = {b.inp, "flip_x, circle FF0000 5", b.outp}; break;
    case 9: b.args = {b.inp, "flip_x, watershed " + string(30, '1') + "x2 " + string(40, '3') + "x4", b.outp}; break;
    case 10: b.args = {b.inp, "border 112233 0", b.outp}; break;
    case 11: b.args = {b.inp, "disk 112233 4 55", b.outp}; break;
    case 12: b.args = {b.inp, "extract_document_to 0x5", b.outp}; break;
    case 13: b.args[0] = "in/sub"; break;
    default: b.broken_args = false;
    }
  }
  if (need_model) { b.m = make_model(file, b.inp, ops, b.v, p.prop == "C11"); if (b.broken_args) b.m.ok = false; }
  if (b.v.cls.empty() && !b.v.harness) {
    Env e; e.junk = p.junk; e.variant = 0; if (c.mem_cap) e.mem_cap = (u64)c.mem_cap; else if (damage) e.mem_cap = 24ull << 20;
    b.ref = run_cli(b.args, b.disk, b.inp, b.outp, e);
    if (!b.ref.ended) b.v = crash(b.ref, "undisturbed " + cmdline(b.args));
  }
  b.valid = true; last = b;
  return b;
}
static void count_ops(const CliPlan &c) { for (auto &o : c.ops) ST.kinds[string("op-") + op_names[std::min<i64>(std::max<i64>(o.op, 0), NOPS - 1)]]++; static const char *f[] = {"png", "jpg", "bmp", "tga", "ppm", "png16", "png-palette", "png-1bit", "png-interlaced", "png-gray-alpha", "png-trns", "gif", "pgm", "jpg-lowq", "psd", "pic", "hdr", "tga-variants", "bmp-variants", "jpg-progressive", "jpg-coefficients", "png-variants", "gif-lzw", "pnm16"}; ST.kinds[string("fmt-") + f[((c.fmt % 24) + 24) % 24]]++; if (c.badargs) ST.kinds[string("badargs-") + (c.badargs >= 1000 ? "misspelt" : bad_args_text[c.badargs % 14])]++; }

static Verdict check_C14(const Plan &p);
static Verdict check_C11(const Plan &p);
static Verdict check_C10(const Plan &p);
static bool out_dir_bad(const string &o) { return o == "out/sub" || o == "out/missing/r.png"; }

Verdict check_cli(const Plan &p) {
  const CliPlan &c = p.cli; Verdict v;
  if (c.ops.empty()) return v;
  count_ops(c);
  if (p.prop == "C11") return check_C11(p);
  if (p.prop == "C14") return check_C14(p);
  if (p.prop == "C10") return check_C10(p);
  bool model = p.prop == "C06" || p.prop == "C07" || p.prop == "C13";
  Base b = make_base(p, c.ops, c.spelling, model, false);
  if (b.v.harness || !b.v.cls.empty()) return b.v;
  const Run &ref = b.ref; string what = cmdline(b.args);
  ST.states.insert(mix64(hash_str(ref.err), hash_str(ref.fs.count(b.outp) ? ref.fs.at(b.outp) : "")));
  bool jpeg = wants_jpeg(b.outp);
  auto at = [&](const Run &r, const string &path) { auto it = r.fs.find(path); return it == r.fs.end() ? string("(missing)") : it->second; };
  Env e; e.c = &c; e.junk = p.junk2; e.variant = p.variant; e.ref_allocs = ref.allocs; e.ref_steps = ref.c.steps; e.ref_io = ref.io; e.clock = true;
  e.fk = c.fk; e.fa = c.fa; e.fb = c.fb;
  auto note = [&](const Run &r) { ST.states.insert(mix64(mix64(hash_str(r.err), (u64)r.code), mix64(r.allocs, r.io))); };

  if (p.prop == "C05") {
    Disk d = b.disk;
    e.shorts = true; e.extra_clock = c.clock_mode; e.variant = p.variant;
    // the state of the output path before the run is not an input either
    if (c.preexist != 3 && b.outp != b.inp && !b.outp.empty() && !out_dir_bad(b.outp)) { if (c.preexist == 0) d.f[b.outp] = "left over " + string((size_t)(p.junk2 % 5000), 'x'); else { d.f.erase(b.outp); } }
    Run r = run_cli(b.args, d, b.inp, b.outp, e);
    if (!r.ended) return crash(r, "second run of " + what);
    note(r);
    if (r.code != ref.code) return bad("impure", what + ": exit status " + std::to_string(ref.code) + " in one run and " + std::to_string(r.code) + " in another (other memory contents, clock, old output)");
    if (ref.code == 0 && !b.outp.empty() && at(ref, b.outp) != at(r, b.outp)) return bad("impure", what + ": two runs write different files (" + std::to_string(at(ref, b.outp).size()) + "/" + std::to_string(at(r, b.outp).size()) + " bytes) though arguments and input are the same");
    if (r.out != ref.out) return bad("impure", what + ": two runs print different results on standard output");
    return v;
  }
  if (p.prop == "C06") {
    auto check = [&](const Run &r, const string &w, bool console_ok) -> Verdict {
      if (!r.ended) return crash(r, w);
      if (r.code == 0) {
        if (!b.m.ok && b.broken_args) return bad("false-success", w + ": exit status 0 though the arguments are invalid");
        if (!b.m.ok) return bad("false-success", w + ": exit status 0 though the pipeline fails");
        if (!b.outp.empty()) {
          auto it = r.fs.find(b.outp); if (it == r.fs.end()) return bad("false-success", w + ": exit status 0 but there is no file '" + b.outp + "'");
          string e2 = saved_wrong(it->second, b.m.img, jpeg); if (!e2.empty()) return bad("false-success", w + ": exit status 0 but '" + b.outp + "' is wrong: " + e2);
        }
      } else if (console_ok && !b.broken_args && !has_message(r.err)) return bad("silent-failure", w + ": exit status " + std::to_string(r.code) + " without a message on standard error");
      return Verdict();
    };
    v = check(ref, "undisturbed " + what, true); if (!v.cls.empty()) return v;
    e.dfault = e.console = e.shorts = true;
    Run r = run_cli(b.args, b.disk, b.inp, b.outp, e); note(r);
    return check(r, "with faults while saving " + what, c.err_cap < 0);
  }
  if (p.prop == "C07") {
    e.dfault = e.shorts = true;
    Run r = run_cli(b.args, b.disk, b.inp, b.outp, e); note(r);
    if (!r.ended) return crash(r, "with read faults " + what);
    if (r.code == 0) {
      if (!b.m.decoded) return bad("wrong-input", what + ": exit status 0 though the input is not an image");
      if (!b.m.ok) return bad("wrong-input", what + ": exit status 0 though the pipeline fails on the complete input");
      if (!b.outp.empty()) { string e2 = saved_wrong(at(r, b.outp), b.m.img, jpeg); if (!e2.empty()) return bad("wrong-input", "with read faults " + what + ": exit status 0 but the output is not that of the complete input in its orientation: " + e2); }
      if (strip_ws(r.out) != b.m.out) return bad("wrong-input", "with read faults " + what + ": exit status 0 but other corners are printed");
    } else {
      string d = disk_diff(b.disk.f, r.fs, ""); if (!d.empty()) return bad("touched", "with read faults " + what + ": exit status " + std::to_string(r.code) + " but " + d);
    }
    return v;
  }
  if (p.prop == "C08") {
    bool wf = false; for (auto &d : c.df) if (d.op == 2 || d.op == 3 || (d.op == 0 && d.where != 1)) wf = true; if (c.capacity >= 0) wf = true;
    auto check = [&](const Run &r, const string &w, bool write_faults) -> Verdict {
      if (!r.ended && r.c.fate != F_KILLED) return crash(r, w);
      string d = disk_diff(b.disk.f, r.fs, b.outp.empty() ? string("\1none") : b.outp);
      if (!d.empty()) return bad("stray", w + ": " + d + ", which is not the output path");
      for (auto &t : r.touched) if (t.first != b.outp) return bad("stray", w + ": '" + t.first + "' was touched (" + t.second + "), which is not the output path");
      if (r.ended && r.code != 0 && !write_faults) { d = disk_diff(b.disk.f, r.fs, ""); if (!d.empty()) return bad("touched", w + ": exit status " + std::to_string(r.code) + " but " + d); }
      if (r.c.fate == F_KILLED && !b.outp.empty()) {
        auto o = b.disk.f.find(b.outp); auto n = r.fs.find(b.outp); auto z = ref.fs.find(b.outp);
        bool old_ok = o == b.disk.f.end() ? n == r.fs.end() : n != r.fs.end() && n->second == o->second;
        bool new_ok = ref.code == 0 && n != r.fs.end() && z != ref.fs.end() && z->second.compare(0, n->second.size(), n->second) == 0 && n->second.size() <= z->second.size();
        if (!old_ok && !new_ok && !write_faults) return bad("torn", w + ": killed, and the output path holds neither the old content nor a prefix of the new image (" + (n == r.fs.end() ? string("missing") : std::to_string(n->second.size()) + " bytes") + ")");
      }
      return Verdict();
    };
    v = check(ref, "undisturbed " + what, false); if (!v.cls.empty()) return v;
    e.dfault = e.shorts = e.kill = e.afault = true;
    Run r = run_cli(b.args, b.disk, b.inp, b.outp, e); note(r);
    return check(r, "disturbed " + what, wf);
  }
  if (p.prop == "C09") {
    e.afault = true; vector<FaultSet> fs = p.faults; if (fs.empty()) { FaultSet f; f.kind = c.fk; f.a = c.fa; f.b = c.fb; fs.push_back(f); }
    for (auto &f : fs) {
      e.fk = f.kind; e.fa = f.a; e.fb = f.b;
      static const char *n[] = {"none", "single", "from", "pair", "mask", "size", "cap", "every"};
      string w = "under allocation faults " + string(n[((f.kind % 8) + 8) % 8]) + "(" + std::to_string(f.a) + "," + std::to_string(f.b) + ") of " + std::to_string(ref.allocs) + " " + what;
      Run r = run_cli(b.args, b.disk, b.inp, b.outp, e); note(r);
      if (!r.ended) return crash(r, w);
      if (r.code == 0) {
        if (ref.code != 0) return bad("false-success", w + ": exit status 0, but the undisturbed run fails");
        if (!b.outp.empty() && at(r, b.outp) != at(ref, b.outp)) return bad("wrong-output", w + ": exit status 0 but another output than without faults");
        if (r.out != ref.out) return bad("wrong-output", w + ": exit status 0 but standard output differs from the undisturbed run");
      } else if (r.failed && !has_message(r.err)) return bad("silent-failure", w + ": exit status " + std::to_string(r.code) + " without a message on standard error");
    }
    return v;
  }
  if (p.prop == "C13") {
    bool det = false; for (auto &o : c.ops) if (o.op == O_DETECT) det = true;
    auto check = [&](const Run &r, const string &w, bool faults) -> Verdict {
      if (!r.ended) return crash(r, w);
      string got = strip_ws(r.out), want = b.m.out;
      if (r.code == 0) {
        if (det && !b.m.ok && b.m.decoded && !b.broken_args) return bad("false-success", w + ": exit status 0 though the pipeline fails");
        if (b.m.ok && got != want) return bad("report", w + ": exit status 0 but standard output got '" + got.substr(0, 200) + "' instead of '" + want.substr(0, 200) + "'");
      } else {
        if (!faults && b.m.ok && !out_dir_bad(b.outp) && c.preexist != 3) return bad("report", w + ": fails without any fault");
        if (!b.broken_args && want.compare(0, got.size(), got) != 0) return bad("report", w + ": wrong coordinates were printed: '" + got.substr(0, 200) + "' instead of '" + want.substr(0, 200) + "'");
      }
      return Verdict();
    };
    v = check(ref, "undisturbed " + what, false); if (!v.cls.empty()) return v;
    e.console = e.afault = true;
    Run r = run_cli(b.args, b.disk, b.inp, b.outp, e); note(r);
    return check(r, "with faults " + what, true);
  }
  return v;
}

// ---------------------------------------------------------------- C10
static Verdict check_C10(const Plan &p) {
  const CliPlan &c = p.cli; Verdict v;
  Base b = make_base(p, c.ops, c.spelling, false, true);
  if (b.v.harness || !b.v.cls.empty()) return b.v;
  const Run &ref = b.ref; string what = "damaged input: " + cmdline(b.args);
  ST.states.insert(mix64(hash_str(ref.err), (u64)ref.code));
  auto one = [&](const Run &r) -> Verdict {
    if (r.code != 0) {
      string d = disk_diff(b.disk.f, r.fs, ""); if (!d.empty()) return bad("touched", what + ": exit status " + std::to_string(r.code) + " but " + d);
      if (!has_message(r.err)) return bad("silent-failure", what + ": exit status " + std::to_string(r.code) + " without a message on standard error");
    } else if (!b.outp.empty()) {
      string d = disk_diff(b.disk.f, r.fs, b.outp); if (!d.empty()) return bad("touched", what + ": " + d);
      auto it = r.fs.find(b.outp); if (it == r.fs.end() || !decode_rgba(it->second).ok) return bad("wrong-output", what + ": exit status 0 but the output is no image");
    }
    return Verdict();
  };
  v = one(ref); if (!v.cls.empty()) return v;
  Env e; e.c = &c; e.junk = p.junk2; e.variant = p.variant; e.shorts = true; e.clock = true; e.mem_cap = c.mem_cap ? (u64)c.mem_cap : 24ull << 20; 
  Run r = run_cli(b.args, b.disk, b.inp, b.outp, e);
  if (!r.ended) return crash(r, what);
  v = one(r); if (!v.cls.empty()) return v;
  if (r.code != ref.code) return bad("unstable", what + ": exit status " + std::to_string(ref.code) + " in one run, " + std::to_string(r.code) + " in another");
  if (r.code == 0 && !b.outp.empty() && ref.fs.at(b.outp) != r.fs.at(b.outp)) {
    return bad("unstable", what + ": two runs on the same damaged bytes write different images"); }
  if (r.out != ref.out) return bad("unstable", what + ": two runs on the same damaged bytes print different results");
  return v;
}

// ---------------------------------------------------------------- C11
static Verdict check_C11(const Plan &p) {
  const CliPlan &c = p.cli; Verdict v;
  Base b = make_base(p, c.ops, c.spelling, true, false);
  if (b.v.harness || !b.v.cls.empty()) return b.v;
  const Run &ref = b.ref; string what = cmdline(b.args);
  bool jpeg = wants_jpeg(b.outp);
  ST.states.insert(mix64(hash_str(ref.err), hash_str(ref.fs.count(b.outp) ? ref.fs.at(b.outp) : "")));
  bool can_save = !out_dir_bad(b.outp) && c.preexist != 3;
  if (!b.m.note.empty()) return bad("meaning", what + ": not the documented operation: " + b.m.note);
  auto judge = [&](const Run &r, const string &w) -> Verdict {
    if (r.code == 0) {
      if (!b.m.ok) return bad("pipeline", w + ": exit status 0 though an operation of the pipeline fails");
      if (!b.outp.empty()) { auto it = r.fs.find(b.outp); string e2 = it == r.fs.end() ? "no output" : saved_wrong(it->second, b.m.img, jpeg); if (!e2.empty()) return bad("pipeline", w + ": the result differs from applying the operations one by one: " + e2); }
      if (strip_ws(r.out) != b.m.out) return bad("pipeline", w + ": printed '" + strip_ws(r.out).substr(0, 200) + "' instead of '" + b.m.out.substr(0, 200) + "'");
    } else if (b.m.ok && can_save) return bad("pipeline", w + ": fails (exit status " + std::to_string(r.code) + ") though every operation succeeds: " + r.err.substr(r.err.size() > 200 ? r.err.size() - 200 : 0));
    return Verdict();
  };
  v = judge(ref, what); if (!v.cls.empty()) return v;
  if (b.broken_args || b.detect_only) return v;
  // another clock, other memory, another spelling
  Env e; e.c = &c; e.clock = true; e.junk = p.junk2; e.variant = p.variant;
  vector<string> args2 = {b.inp}; for (auto &x : spell(c.ops, p.repeat)) args2.push_back(x); args2.push_back(b.outp);
  Run r2 = run_cli(args2, b.disk, b.inp, b.outp, e);
  if (!r2.ended) return crash(r2, cmdline(args2));
  v = judge(r2, cmdline(args2)); if (!v.cls.empty()) return v;
  // cut into successive runs that hand over a PNG
  std::set<size_t> cuts; for (auto &k : p.cuts) if (c.ops.size() > 1) cuts.insert(1 + (size_t)(std::llabs(k.a)) % (c.ops.size() - 1));
  if (cuts.empty() || !can_save) return v;
  Disk d = b.disk; string cur = b.inp; size_t from = 0; string outs; cuts.insert(c.ops.size()); int step = 0; string done;
  for (size_t to : cuts) {
    vector<OpSpec> part(c.ops.begin() + (long)from, c.ops.begin() + (long)to); from = to;
    bool last = to == c.ops.size(); string next = last ? b.outp : "tmp/step" + std::to_string(step++) + ".png";
    vector<string> a = {cur}; for (auto &x : spell(part, step % 2 ? p.repeat : c.spelling)) a.push_back(x); a.push_back(next);
    Run r = run_cli(a, d, cur, next, e);
    if (!r.ended) return crash(r, cmdline(a));
    outs += r.out; done += "; " + cmdline(a);
    if (r.code != 0) { if (ref.code == 0) return bad("pipeline", what + " succeeds but cut into runs it fails" + done.substr(0, 900)); return v; }
    d.f = r.fs; cur = next;
  }
  if (ref.code != 0) return bad("pipeline", what + " fails but cut into runs it succeeds" + done.substr(0, 900));
  if (d.f[b.outp] != ref.fs.at(b.outp)) {
    Pixels x = decode_rgba(d.f[b.outp]), y = decode_rgba(ref.fs.at(b.outp));
    if (!x.ok || !y.ok || x.w != y.w || x.h != y.h || x.px != y.px) return bad("pipeline", what + " gives another image than the same operations in successive runs" + done.substr(0, 900));
  }
  if (strip_ws(outs) != strip_ws(ref.out)) return bad("pipeline", what + " prints another report than the same operations in successive runs");
  return v;
}

// ---------------------------------------------------------------- C14
static Verdict check_C14(const Plan &p) {
  const CliPlan &c = p.cli; Verdict v;
  auto times = [&](i64 n) { vector<OpSpec> o; for (i64 k = 0; k < n; k++) for (auto &x : c.ops) o.push_back(x); if (c.badargs == 99) { OpSpec u; u.op = O_UNKNOWN; o.push_back(u); } return o; };
  Plan q = p; q.cli.badargs = c.badargs == 99 ? 0 : c.badargs; q.cli.preexist = 0;
  i64 n = 3 + std::max<i64>(0, p.repeat);
  if (c.fk || !c.df.empty() || c.capacity >= 0 || (c.badargs && c.badargs != 99)) {   // runs that fail: everything is released all the same
    Base b = make_base(q, times(1), c.spelling, false, false);
    if (b.v.harness || !b.v.cls.empty()) return b.v;
    string what = cmdline(b.args);
    auto held = [&](const Run &r, const string &w) -> Verdict {
      if (!r.ended) return crash(r, w);
      if (r.live_n) return bad("held", w + ": " + std::to_string(r.live_n) + " allocation(s), " + std::to_string(r.live_b) + " bytes, still held at the normal exit with status " + std::to_string(r.code));
      return Verdict();
    };
    v = held(b.ref, "undisturbed " + what); if (!v.cls.empty() || v.harness) return v;
    Env e; e.c = &c; e.junk = p.junk2; e.variant = p.variant; e.ref_allocs = b.ref.allocs; e.ref_steps = b.ref.c.steps; e.ref_io = b.ref.io; e.fk = c.fk; e.fa = c.fa; e.fb = c.fb;
    e.afault = c.fk && (c.badargs == 99 || (c.badargs >= 1000 && b.ref.code)); e.dfault = true; e.shorts = true;   // running out of memory while encoding ends the process without cleaning up
    Run r = run_cli(b.args, b.disk, b.inp, b.outp, e);
    ST.states.insert(mix64(mix64(hash_str(r.err), (u64)r.code), mix64(r.allocs, r.io)));
    return held(r, "with faults " + what);
  }
  Base b = make_base(q, times(2), c.spelling, false, false);
  if (b.v.harness || !b.v.cls.empty()) return b.v;
  Base l = make_base(q, times(n), c.spelling, false, false);
  if (l.v.harness || !l.v.cls.empty()) return l.v;
  ST.states.insert(mix64(b.ref.peak, l.ref.peak));
  u64 img = (u64)std::max<i64>(1, c.img.w) * (u64)std::max<i64>(1, c.img.h) * 4;
  u64 ops = (u64)n * c.ops.size(); u64 slack = img + img / 2 + ops * 600 + 4096;
  if (l.ref.code == 0) slack += std::min<u64>(2 << 20, 60 * img + 200000);   // the encoder's needs depend on how well the final image compresses
  string what = cmdline(b.args);
  for (const Base *x : {&b, &l}) if (x->ref.live_n) return bad("held", cmdline(x->args) + ": " + std::to_string(x->ref.live_n) + " allocation(s), " + std::to_string(x->ref.live_b) + " bytes, still held at the normal exit with status " + std::to_string(x->ref.code));
  if (b.ref.code == l.ref.code && l.ref.peak > b.ref.peak + slack)
    return bad("growth", what + ": peak memory " + std::to_string(b.ref.peak) + " bytes for twice the operations, but " + std::to_string(l.ref.peak) + " bytes when repeated " + std::to_string(n) + " times (one image has " + std::to_string(img) + " bytes)");
  return v;
}

// ---------------------------------------------------------------- generation
static string gen_hex(Rng &r) { static const char *odd[] = {"#00FF00", "abcdef", "FFF", "red", "#1", "0"}; if (r.chance(12)) return odd[r.below(6)]; char t[8]; snprintf(t, 8, "%06X", (unsigned)r.below(1 << 24)); return t; }
static double q3(double v) { return std::round(v * 1000) / 1000; }
static OpSpec gen_op(Rng &r, i64 op, i64 &w, i64 &h, i64 cap) {
  OpSpec o; o.op = op;
  switch (op) {
  case O_BLUR: o.d[0] = r.chance(60) ? (double)r.range(0, 5) : q3(0.1 + r.unit() * 6); break;
  case O_RESIZE: {
    o.style = (i64)r.below(5);
    if (o.style == 2) { o.d[0] = (double)r.range(1, std::min<i64>(60, 2 * w + 4)); o.d[1] = (double)r.range(1, std::min<i64>(60, 2 * h + 4)); w = (i64)o.d[0]; h = (i64)o.d[1]; }
    else {
      static const double ps[] = {50, 25, 75, 100, 150, 200, 33, 10, 99, 101}; o.d[0] = r.chance(70) ? ps[r.below(10)] : (double)r.range(20, 180); o.d[1] = r.chance(70) ? ps[r.below(10)] : (double)r.range(20, 180); if (o.style == 0 || o.style == 3) o.d[1] = o.d[0];
      if (o.style < 2 && r.chance(10)) o.d[0] = q3(r.unit() * 200 + 1);
      if (o.style == 0 || o.style == 3) o.d[1] = o.d[0];
      if ((double)w * h * o.d[0] * o.d[1] / 10000 > (double)cap) { o.d[0] = o.d[1] = 50; }
      w = std::max<i64>(1, (i64)(w * o.d[0] / 100)); h = std::max<i64>(1, (i64)(h * o.d[1] / 100));
    }
    break; }
  case O_CIRCLE: case O_DISK: o.s = gen_hex(r); o.d[0] = r.chance(70) ? (double)r.range(0, 12) : q3(r.unit() * 20); o.d[1] = r.chance(70) ? (double)r.range(0, w) : q3(r.unit() * (double)w); o.d[2] = r.chance(70) ? (double)r.range(0, h) : q3(r.unit() * (double)h); if (r.chance(5)) o.d[1] = -o.d[1]; break;
  case O_WATERSHED: { int n = (int)r.range(1, 5); o.style = r.chance(40); for (int k = 0; k < n; k++) { Pt q; q.x = (double)r.range(0, std::max<i64>(0, w - 1)); q.y = (double)r.range(0, std::max<i64>(0, h - 1)); o.pts.push_back(q); } break; }
  case O_CROP:
    o.style = (i64)r.below(3); o.d[0] = (double)r.range(0, std::max<i64>(0, w - 1)); o.d[1] = (double)r.range(0, std::max<i64>(0, h - 1));
    if (r.chance(12)) o.d[r.below(2)] = -(double)r.range(1, 9);
    o.d[2] = (double)r.range(1, w); o.d[3] = (double)r.range(1, h);
    if (r.chance(80) && w > 4 && h > 4) { o.d[2] = (double)r.range((w + 1) / 2, w); o.d[3] = (double)r.range((h + 1) / 2, h); o.d[0] = (double)r.range(0, w / 3); o.d[1] = (double)r.range(0, h / 3); }
    if (r.chance(4)) o.d[0] = (double)(w + r.range(0, 3));
    w = std::max<i64>(1, std::min<i64>((i64)o.d[2], w)); h = std::max<i64>(1, std::min<i64>((i64)o.d[3], h));
    break;
  case O_EXTRACTTO: o.d[0] = (double)r.range(1, 40); o.d[1] = (double)r.range(1, 40); w = (i64)o.d[0]; h = (i64)o.d[1]; break;
  case O_ROTATE: { static const double a[] = {90, 180, 270, 0, -90, 360, 450, -270, 45, 1, 630, -180, 720}; int k = (int)r.below(100); o.d[0] = k < 70 ? a[r.below(6)] : k < 80 ? a[r.below(13)] : (double)(90 * r.range(-14, 14)); if (k >= 97) o.d[0] = (double)r.range(-1500, 1500); if (((int)o.d[0] / 90) % 2) std::swap(w, h); break; }
  case O_TRIM: o.style = (i64)r.below(3); o.d[0] = r.chance(60) ? (double)r.range(0, 12) : q3(r.unit() * 60); break;
  case O_HIST: w = 256; h = 200; break;
  case O_BORDER: o.s = gen_hex(r); o.d[0] = (double)r.range(1, 6); if ((w + 12) * (h + 12) < cap) { w += 2 * (i64)o.d[0]; h += 2 * (i64)o.d[0]; } break;
  case O_ERODE: case O_DILATE: case O_CLOSE: case O_OPEN: o.d[0] = (double)r.range(0, 4); break;
  default: break;
  }
  if (needs_param(op) && r.chance(1)) o.style = 9;
  return o;
}
static i64 pick_op(Rng &r, int heavy_pct, bool fail_ok) {
  for (;;) {
    i64 o = (i64)r.below(NOPS);
    if (o == O_UNKNOWN && (!fail_ok || !r.chance(15))) continue;
    if (heavy_op(o) && !r.chance(heavy_pct)) continue;
    if (o == O_HIST && !r.chance(30)) continue;
    return o;
  }
}
static vector<OpSpec> gen_ops(Rng &r, i64 w, i64 h, int maxn, int heavy_pct, bool fail_ok) {
  vector<OpSpec> v; int k = (int)r.below(100); int n = k < 55 ? (int)r.range(1, 3) : k < 80 ? (int)r.range(3, 9) : (int)r.range(8, 40); if (n > maxn) n = (int)r.range(1, maxn);
  int hv = 0;
  static const i64 cheap[] = {O_FLIPX, O_FLIPY, O_ROTATE, O_GRAY, O_CROP, O_BORDER, O_CIRCLE, O_DISK, O_THRESH, O_SOBEL, O_TRIM, O_RESIZE};
  for (int j = 0; j < n; j++) {
    i64 op = n > 12 && r.chance(85) ? cheap[r.below(12)] : pick_op(r, hv ? 0 : heavy_pct, fail_ok);
    if (heavy_op(op)) hv++;
    if (n > 12 && (op == O_RESIZE || op == O_CROP) && r.chance(60)) op = O_FLIPX;
    if (w * h > 2500 && (op == O_WATERSHED || op == O_CLOSE || op == O_OPEN || op == O_ERODE || op == O_DILATE)) op = O_CROP;
    if (w * h > 9000 && op != O_CROP) { op = O_CROP; }
    v.push_back(gen_op(r, op, w, h, 6000));
    if (v.back().op == O_CROP && w * h > 9000) { v.back().style = 2; v.back().d[0] = v.back().d[1] = 1; v.back().d[2] = v.back().d[3] = 30; w = h = 30; }
  }
  return v;
}
static ImgSpec cli_img(Rng &r) {
  ImgSpec s = gen_img(r, r.chance(35)); while (s.w * s.h > 3600) { if (s.w > s.h) s.w = (s.w + 1) / 2; else s.h = (s.h + 1) / 2; }
  if (r.chance(15)) s.pat = 16 + (i64)r.below(4);
  return s;
}
static void gen_alloc_fault(Rng &r, i64 &k, i64 &a, i64 &b) {
  int q = (int)r.below(100); b = 0;
  if (q < 60) { k = AFault::SINGLE; a = r.chance(30) ? -1 - (i64)r.below(40) : (i64)r.below(r.chance(70) ? 40 : 400); }
  else if (q < 75) { k = AFault::FROM; a = (i64)r.below(r.chance(70) ? 40 : 400); }
  else if (q < 82) { k = AFault::PAIR; a = (i64)r.below(60); b = (i64)r.below(60); }
  else if (q < 88) { k = AFault::MASK; a = (i64)r.below(100000); b = 1 + (i64)r.below(30); }
  else if (q < 93) { k = AFault::SIZE; a = 1ll << (5 + r.below(14)); }
  else { k = AFault::CAP; a = 1ll << (9 + r.below(12)); }
}
static CliPlan gen_workload(const string &prop, Rng &r) {
  CliPlan c; c.img = cli_img(r);
  static const i64 fmts[] = {0, 0, 0, 1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 21, 22, 23};
  c.fmt = fmts[r.below(sizeof fmts / sizeof *fmts)]; c.ncomp = r.range(1, 4); if (r.chance(50)) c.ncomp = 4;
  if (prop == "C11" && r.chance(50)) { c.fmt = 0; c.ncomp = 4; }
  if (prop == "C07" && r.chance(35)) c.fmt = r.chance(75) ? 1 : 13 + (i64)r.below(2);
  if (is_jpg(c.fmt) && r.chance(prop == "C07" ? 90 : 60)) { c.orient = r.chance(90) ? r.range(1, 8) : r.range(0, 12); c.exif = (i64)r.below(512); if (r.chance(85)) c.exif &= ~16; }
  c.inpath = r.chance(70) ? (is_jpg(c.fmt) ? (i64)r.below(5) : 0) : (i64)r.below(8);
  c.outpath = r.chance(75) ? (i64)r.below(8) : (i64)r.below(13); c.preexist = r.chance(60) ? 0 : r.chance(90) ? r.range(1, 2) : 3;
  c.spelling = r.chance(30) ? 0 : (i64)r.below(32);
  int heavy = prop == "C11" ? 5 : 1;
  c.ops = gen_ops(r, c.img.w, c.img.h, prop == "C11" ? 40 : prop == "C09" ? 12 : 6, heavy, true);
  if (c.img.pat >= 16 && r.chance(60)) { i64 w = c.img.w, h = c.img.h; c.ops.insert(c.ops.begin(), gen_op(r, O_TRIM, w, h, 6000)); if (c.ops[0].style && r.chance(50)) c.ops[0].d[0] = q3(0.4 + r.unit() * 5); }
  return c;
}
Plan gen_cli(const string &prop, Rng &r, u64 index) {
  Plan p; p.prop = prop; p.has_cli = 1; p.junk = 1 + r.below(1000); p.junk2 = 1001 + r.below(1000); p.variant = r.chance(prop == "C10" || prop == "C05" ? 60 : 25);
  static CliPlan base; static u64 bj; static string bprop; static int left = 0;
  auto family = [&](int n) { if (left <= 0 || bprop != prop) { base = gen_workload(prop, r); left = n; bprop = prop; bj = p.junk; } left--; p.cli = base; p.junk = bj; };
  if (prop == "C05") { p.cli = gen_workload(prop, r); p.cli.clock_mode = (i64)r.below(6); p.cli.short_seed = r.chance(50) ? 1 + r.below(1000) : 0; if (r.chance(96)) p.cli.outpath %= 9; return p; }
  if (prop == "C06") {
    family(12); CliPlan &c = p.cli;
    if (c.ops.size() > 5) c.ops.resize(5);
    if (c.outpath == 9 || c.outpath == 10) { if (left > 1) left = 1; }
    static const i64 errs[] = {5, 28, 122, 4, 13, 24, 30};
    int k = (int)r.below(100);
    auto fault = [&](i64 op) { DiskFault d; d.op = op; d.where = op == 0 ? (r.chance(80) ? 2 : 0) : 2; d.nth = r.chance(60) ? 0 : (i64)r.below(6); d.err = errs[r.below(7)]; d.partial = r.chance(50) ? 0 : (i64)r.below(3000); d.sticky = r.chance(50); c.df.push_back(d); };
    if (k < 28) fault(2); else if (k < 44) fault(3); else if (k < 52) fault(0); else if (k < 72) { c.capacity = r.chance(30) ? (i64)r.below(200) : (i64)r.below(9000); }
    else if (k < 80) { fault(2); fault(3); } else if (k < 88) { c.err_cap = (i64)r.below(600); fault(r.chance(50) ? 2 : 3); } else if (k < 94) { c.err_cap = (i64)r.below(600); }
    if (r.chance(35)) c.short_seed = 1 + r.below(100000);
    if (r.chance(10)) c.out_cap = (i64)r.below(50);
    c.clock_mode = r.chance(30) ? (i64)r.below(6) : 0;
    return p;
  }
  if (prop == "C07") {
    family(12); CliPlan &c = p.cli; if (c.ops.size() > 2) c.ops.resize(2);
    if (c.outpath >= 9 && c.outpath <= 10) c.outpath = 0; 
    static const i64 errs[] = {5, 5, 4, 116, 13, 24, 12};
    int n = (int)r.range(0, 2); if (r.chance(70) && !n) n = 1;
    for (int k = 0; k < n; k++) {
      DiskFault d; d.op = r.chance(80) ? 1 : 0; d.where = 1; d.err = errs[r.below(7)]; d.partial = d.op == 1 && r.chance(60) ? (i64)r.below(r.chance(50) ? 64 : 4000) : 0; d.sticky = r.chance(50);
      d.nth = d.op == 0 ? (i64)r.below(2) : r.chance(60) ? (i64)r.below(4) : (i64)r.below(20); c.df.push_back(d);
    }
    bool exif = c.orient > 1 && c.orient < 9 && c.inpath < 5 && !(c.exif & 16);
    if (r.chance(exif ? 75 : 25)) {   // a bad spot: reads through the first or second stream work up to one byte of the file and fail there
      DiskFault d; d.op = 5; d.where = 1; d.err = errs[r.below(7)]; d.sticky = r.chance(30); d.nth = (i64)r.below(2);
      d.partial = r.chance(70) ? (i64)r.below(90) : (i64)r.below(r.chance(50) ? 600 : 9000);
      if (exif && r.chance(85)) { string f = make_file(c); size_t at = f.find(string("Exif\0\0", 6)); if (at != string::npos) { d.nth = r.chance(90); d.partial = (i64)at - 4 + (i64)r.below(r.chance(60) ? 26 : 80); d.sticky = r.chance(10); } }
      c.df.push_back(d);
      if (r.chance(70)) { c.df.erase(c.df.begin(), c.df.end() - 1); return p; }
    }
    if (r.chance(60)) { c.short_seed = 1 + r.below(100000); for (auto &d : c.df) if (d.op == 1) d.nth = (i64)r.below(r.chance(50) ? 12 : 300); }
    return p;
  }
  if (prop == "C08") {
    family(10); CliPlan &c = p.cli; if (c.ops.size() > 4) c.ops.resize(4);
    if (r.chance(8)) { c.badargs = r.range(1, 13); left = 0; }
    int k = (int)r.below(100);
    if (k < 25) c.kill_step = 1 + (i64)(r.next() >> 20); else if (k < 50) { c.kill_io = 1 + (i64)r.below(1000); c.kill_partial = (i64)r.below(5000); if (r.chance(40)) c.short_seed = 1 + r.below(1000); }
    else if (k < 80) gen_alloc_fault(r, c.fk, c.fa, c.fb);
    else if (k < 92) { DiskFault d; d.op = r.chance(70) ? 1 : 0; d.where = 1; d.err = 5; d.nth = (i64)r.below(3); d.sticky = r.chance(50); d.partial = r.chance(50) ? (i64)r.below(500) : 0; c.df.push_back(d); }
    else { DiskFault d; d.op = r.chance(70) ? 2 : 3; d.where = 2; d.err = r.chance(50) ? 28 : 5; d.nth = (i64)r.below(2); d.sticky = 1; d.partial = (i64)r.below(500); c.df.push_back(d); if (r.chance(30)) c.kill_io = 1 + (i64)r.below(1000); }
    return p;
  }
  if (prop == "C09") {
    p.cli = gen_workload(prop, r); if (p.cli.outpath == 9 || p.cli.outpath == 10) p.cli.outpath = 0;
    if (index < 2 * (u64)O_UNKNOWN) { p.cli.ops.clear(); i64 w = p.cli.img.w, h = p.cli.img.h; p.cli.ops.push_back(gen_op(r, (i64)(index / 2) % O_UNKNOWN, w, h, 6000)); }
    if (index >= 2 * (u64)O_UNKNOWN && r.chance(8)) {   // misspelt operations
      CliPlan &c = p.cli; c.ops.clear(); for (int q = (int)r.range(1, 3); q > 0; q--) { i64 w = c.img.w, h = c.img.h; i64 op = (i64)r.below(O_UNKNOWN); if (heavy_op(op) && op != O_EXTRACTTO) op = O_CIRCLE; c.ops.push_back(gen_op(r, op, w, h, 6000)); }
      c.badargs = 1000 + (i64)r.below(1000000); c.mem_cap = 24 << 20; for (int k = 0; k < 6; k++) { FaultSet f; f.kind = AFault::SINGLE; f.a = -1 - k; p.faults.push_back(f); }
      return p;
    }
    int n = 6; for (auto &o : p.cli.ops) if (heavy_op(o.op)) n = 2; i64 b0 = (i64)r.below(60);
    if (r.chance(25) || n == 2) { static i64 seq = 0; b0 = seq; seq = (seq + n) % 120; }
    if (n == 2 && index < 2 * (u64)O_UNKNOWN) {   // costly operations: a window of single failures per plan, another one in each shard, counted back from the end of a run that saves as JPEG (saving allocates nothing then)
      p.cli.outpath = 1; p.cli.img.w = std::min<i64>(p.cli.img.w, 12); p.cli.img.h = std::min<i64>(p.cli.img.h, 12); i64 base0 = ((i64)SHARD * 2 + (i64)index % 2) * 4;
      for (int k = 0; k < 4; k++) { FaultSet f; f.kind = AFault::SINGLE; f.a = -1 - (base0 + k) % 64; p.faults.push_back(f); }
      return p;
    }
    for (int k = 0; k < n; k++) { FaultSet f; gen_alloc_fault(r, f.kind, f.a, f.b); if (f.kind == AFault::SINGLE && r.chance(70)) f.a = b0 + k; p.faults.push_back(f); }
    return p;
  }
  if (prop == "C10") {
    if (left <= 0 || bprop != prop) { base = gen_workload(prop, r); base.inpath = r.chance(85) ? (is_jpg(base.fmt) ? (i64)r.below(5) : 0) : (i64)r.below(8); if (r.chance(70)) base.inpath = is_jpg(base.fmt) ? (i64)r.below(5) : 5; left = 15; bprop = prop; base.outpath = (i64)r.below(6); base.preexist = r.range(0, 2); if (base.ops.size() > 2) base.ops.resize(2); for (auto &o : base.ops) if (heavy_op(o.op) || o.op == O_WATERSHED || o.op == O_UNKNOWN || (o.op >= O_ERODE && o.op <= O_OPEN) || o.op == O_BLUR || o.op == O_RESIZE) o = OpSpec(); }
    left--; p.cli = base; CliPlan &c = p.cli;
    int n = r.chance(70) ? 1 : (int)r.range(1, 4); string f = make_file(c); i64 sz = std::max<i64>(1, (i64)f.size());
    for (int k = 0; k < n; k++) {
      Damage d; static const i64 kinds[] = {0, 0, 0, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 9, 10, 10, 11, 12, 12, 13, 14, 15}; d.kind = kinds[r.below(22)]; if (is_jpg(c.fmt) && r.chance(12)) d.kind = 14; if (f0png(c.fmt) && r.chance(18)) d.kind = r.chance(60) ? 14 : 15; if (left % 9 == 4 && (c.fmt == 11 || c.fmt == 22)) d.kind = 13;
      d.pos = r.chance(45) ? (i64)r.below((u64)std::min<i64>(sz, 64)) : r.chance(40) ? (i64)r.below((u64)std::min<i64>(sz, 400)) : (i64)r.below((u64)sz);
      if (d.kind == 1 && r.chance(50)) d.pos = (i64)r.below((u64)sz);
      d.len = r.chance(60) ? 1 : r.chance(60) ? (i64)r.range(1, 8) : (i64)r.range(1, 300); d.val = r.chance(50) ? (i64)r.below(256) : (i64)(r.chance(50) ? 0xFF : r.chance(50) ? 0x7F : 1);
      if (d.kind >= 6) d.val = (i64)r.below(100000);
      if (d.kind >= 9) { d.pos = (i64)r.below(400); if (r.chance(60)) d.len = (i64)r.below(r.chance(50) ? 32 : 1100); }
      c.damage.push_back(d);
    }
    if (r.chance(40)) c.short_seed = 1 + r.below(100000);
    return p;
  }
  if (prop == "C11") {
    p.cli = gen_workload(prop, r); CliPlan &c = p.cli; c.clock_mode = (i64)r.below(6); p.repeat = (i64)r.below(32);
    if (index < 2 * (u64)O_UNKNOWN) { c.ops.clear(); i64 w = c.img.w, h = c.img.h; c.ops.push_back(gen_op(r, (i64)(index / 2) % O_UNKNOWN, w, h, 6000)); }
    c.preexist = r.range(0, 2);
    if (c.outpath == 9 || c.outpath == 10 || c.outpath == 11) c.outpath = 0;
    int n = (int)r.range(1, 3); for (int k = 0; k < n; k++) { FaultSet f; f.a = (i64)r.below(40); p.cuts.push_back(f); }
    if (r.chance(3)) { c.badargs = r.range(1, 13); }
    return p;
  }
  if (prop == "C13") {
    if (left <= 0 || bprop != prop) {
      base = gen_workload(prop, r); left = 6; bprop = prop; bj = p.junk;
      i64 side = r.range(2, 60); base.img.w = side; base.img.h = r.chance(50) ? side : r.range(1, side); base.img.pat = r.chance(60) ? 3 : base.img.pat;
      OpSpec d; d.op = O_DETECT;
      if (r.chance(50)) { base.ops = {d}; base.outpath = 13; if (r.chance(35)) { base.img.w = r.range(200, 2500); base.img.h = r.range(20, 120); if (r.chance(50)) std::swap(base.img.w, base.img.h); base.img.pat = 3; } }
      else { if (base.ops.size() > 2) base.ops.resize(2); for (auto &o : base.ops) if (heavy_op(o.op) || o.op == O_UNKNOWN) o.op = O_FLIPX; base.ops.insert(base.ops.begin() + (long)r.below(base.ops.size() + 1), d); if (r.chance(15)) { OpSpec u; u.op = O_UNKNOWN; base.ops.push_back(u); } }
    }
    left--; p.cli = base; p.junk = bj; CliPlan &c = p.cli;
    int k = (int)r.below(100);
    if (k < 55) { c.out_cap = r.chance(25) ? 0 : r.chance(70) ? (i64)r.below(220) : (i64)r.below(400); static const i64 er[] = {32, 28, 5, 9}; c.out_errno = er[r.below(4)]; c.out_linebuf = r.chance(40); }
    else { gen_alloc_fault(r, c.fk, c.fa, c.fb); if (r.chance(70)) c.fa = (i64)r.below(70); if (c.fk == AFault::SIZE) c.fa = 1ll << (8 + r.below(19)); if (c.fk == AFault::CAP) c.fa = 1ll << (14 + r.below(14)); if (r.chance(20)) { c.out_cap = (i64)r.below(220); } }
    return p;
  }
  if (prop == "C14" && index > 60 && r.chance(55)) {
    p.cli = gen_workload(prop, r); CliPlan &c = p.cli; if (c.ops.size() > 5) c.ops.resize(5);
    int k = (int)r.below(100);
    if (k < 18) {
      c.ops.clear(); for (int q = (int)r.range(1, 3); q > 0; q--) { i64 w = c.img.w, h = c.img.h; i64 op = (i64)r.below(O_UNKNOWN); if (op >= O_ERODE && op <= O_OPEN && r.chance(70)) op = O_EXTRACTTO; c.ops.push_back(gen_op(r, op, w, h, 6000)); }
      c.badargs = 1000 + (i64)r.below(1000000); c.mem_cap = 24 << 20; c.outpath = 0; c.preexist = 0; if (r.chance(40)) { c.fk = AFault::SINGLE; c.fa = -1 - (i64)r.below(6); c.fmt = 0; c.ncomp = 4; c.orient = 0; }
    }
    else if (k < 60) { c.badargs = 99; gen_alloc_fault(r, c.fk, c.fa, c.fb); c.fmt = 0; c.ncomp = 4; if (c.inpath < 5) c.orient = 0; }
    else if (k < 75) { DiskFault d; d.op = r.chance(60) ? 1 : 0; d.where = 1; d.err = 5; d.nth = (i64)r.below(4); d.sticky = r.chance(50); d.partial = r.chance(50) ? (i64)r.below(500) : 0; c.df.push_back(d); }
    else if (k < 90) { DiskFault d; d.op = r.chance(50) ? 2 : r.chance(50) ? 3 : 0; d.where = 2; d.err = r.chance(50) ? 28 : 5; d.nth = (i64)r.below(2); d.sticky = r.chance(50); d.partial = (i64)r.below(500); c.df.push_back(d); }
    else c.badargs = r.range(1, 13);
    return p;
  }
  if (prop == "C14") {
    p.cli = CliPlan(); CliPlan &c = p.cli; c.img = cli_img(r); while (c.img.w * c.img.h < 900) { c.img.w = c.img.w * 2 + 1; c.img.h = c.img.h + 5; }
    static const i64 keep[] = {O_GRAY, O_BLUR, O_THRESH, O_BWSMART, O_BWSMOOTH, O_SOBEL, O_CIRCLE, O_DISK, O_WATERSHED, O_FLIPX, O_FLIPY, O_ROTATE, O_CROP, O_ERODE, O_DILATE, O_CLOSE, O_OPEN, O_RESIZE, O_TRIM, O_DETECT, O_DRAWCORNERS};
    int n = r.chance(60) ? 1 : (int)r.range(2, 4); bool hv = false, slow = false;
    for (int k = 0; k < n; k++) {
      i64 op = index < 42 && k == 0 ? keep[(index / 2) % 21] : keep[r.below(21)]; if (heavy_op(op) && !(index < 42 && k == 0 && (SHARD ^ index) % 4 == 0) && !r.chance(1)) op = O_FLIPX;
      i64 w = c.img.w, h = c.img.h; OpSpec o = gen_op(r, op, w, h, 6000); if (o.style == 9) o.style = 0;
      if (op == O_ROTATE) o.d[0] = (double)(90 * r.range(-2, 4)); if (op == O_RESIZE) { o.style = (i64)r.below(5); if (o.style == 2) { o.d[0] = (double)c.img.w; o.d[1] = (double)c.img.h; } else o.d[0] = o.d[1] = 100; }
      if (op == O_CROP) { o.style = 2; o.d[0] = o.d[1] = 0; o.d[2] = (double)c.img.w; o.d[3] = (double)c.img.h; }
      if (op == O_TRIM) { c.img.pat = 0; o.style = 0; }
      if (heavy_op(op)) hv = true; if (op == O_WATERSHED || (op >= O_ERODE && op <= O_OPEN) || op == O_BLUR) slow = true;
      c.ops.push_back(o);
    }
    for (auto &o : c.ops) if (o.op == O_ROTATE && ((int)o.d[0] / 90) % 2) { c.img.h = c.img.w = std::min<i64>(60, std::max(c.img.w, c.img.h)); for (auto &z : c.ops) { if (z.op == O_CROP || (z.op == O_RESIZE && z.style == 2)) { int b0 = z.op == O_CROP ? 2 : 0; z.d[b0] = z.d[b0 + 1] = (double)c.img.w; } } }
    if (hv) { c.img.w = c.img.h = 40; for (auto &z : c.ops) { if (z.op == O_CROP || (z.op == O_RESIZE && z.style == 2)) { int b0 = z.op == O_CROP ? 2 : 0; z.d[b0] = z.d[b0 + 1] = 40; } } }
    c.spelling = (i64)r.below(4); c.outpath = (i64)r.below(2); p.repeat = hv ? 1 : slow ? (i64)r.range(4, 10) : (i64)r.range(5, 40);
    if (r.chance(60)) c.badargs = 99;
    return p;
  }
  return p;
}
void mutate_cli(Plan &p, Rng &r) {
  CliPlan &c = p.cli; p.junk2 = 1001 + r.below(1000);
  Plan o = gen_cli(p.prop, r, 1000000);
  if (p.prop == "C14") { if (c.fk || !c.df.empty()) { gen_alloc_fault(r, c.fk, c.fa, c.fb); if (c.df.empty()) c.badargs = 99; else c.fk = 0; } else p.repeat = std::min<i64>(p.repeat + r.range(0, 3), 40); return; }
  switch (r.below(8)) {
  case 0: c.df = o.cli.df; c.capacity = o.cli.capacity; c.short_seed = o.cli.short_seed; break;
  case 1: c.fk = o.cli.fk; c.fa = o.cli.fa; c.fb = o.cli.fb; p.faults = o.faults; c.out_cap = o.cli.out_cap; c.err_cap = o.cli.err_cap; break;
  case 2: c.kill_io = o.cli.kill_io; c.kill_step = o.cli.kill_step; c.kill_partial = o.cli.kill_partial; break;
  case 3: if (p.prop == "C10") { if (r.chance(50) || c.damage.empty()) { for (auto &d : o.cli.damage) c.damage.push_back(d); if (c.damage.size() > 6) c.damage.erase(c.damage.begin()); } else { Damage &d = c.damage[r.below(c.damage.size())]; if (r.chance(50)) d.pos = std::max<i64>(0, d.pos + r.range(-4, 4)); else d.val = (i64)r.below(256); } } else { p.cuts = o.cuts; c.spelling = o.cli.spelling; } break;
  case 4: if (p.prop != "C13" && !c.ops.empty() && !o.cli.ops.empty() && p.prop != "C10") { c.ops[r.below(c.ops.size())] = o.cli.ops[r.below(o.cli.ops.size())]; bool hv = false; for (auto &x : c.ops) { if (heavy_op(x.op)) { if (hv) x.op = O_FLIPX; hv = true; } } } break;
  case 5: c.img.seed = o.cli.img.seed; c.img.pat = o.cli.img.pat; break;
  case 6: c.orient = o.cli.orient; c.exif = o.cli.exif; break;
  default: if (p.prop != "C13") { c.outpath = o.cli.outpath; c.preexist = o.cli.preexist; if (p.prop == "C11" && (c.outpath >= 9 && c.outpath <= 11)) c.outpath = 0; }
  }
}
