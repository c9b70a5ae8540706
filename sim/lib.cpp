// Library properties C01-C05: workload, faults, schedules and checks.
#include "plan.h"
#include <cmath>
#include <algorithm>
extern "C" void sim_free(void *);
extern "C" void *__asan_region_is_poisoned(void *beg, size_t size);

enum Fn { DILATE, ERODE, CLOSE, OPEN, BLUR, GRAY, GRAYSTRETCH, GLOBALTHRESH, OTSU, BWSMART, RESIZE, TOBINARY, PEAKS, CROP, CIRCLE, DISK, BORDER,
  EXIF, EXTRACT, EXTRACTAUTO, FLIPX, FLIPY, TRANSPOSE, TRANSVERSE, FOERSTNER, HISTOGRAM, PARSEHEX, PERSPECTIVE, APPLYMATRIX, DETECT, DETECTPTR,
  TOGRAY1, ROT90, ROT180, ROT270, SINGLETOMULTI, SOBEL, SORTCORNERS, TRIM, TRIMTHRESH, WATERSHED, NFNS };
const char *fn_names[] = {"binary_dilation_disk", "binary_erosion_disk", "binary_closing_disk", "binary_opening_disk", "apply_gaussian_blur", "grayscale",
  "grayscale_stretch", "apply_global_threshold", "otsu_threshold_rgba", "bw_smart", "resize", "convert_to_binary", "corner_peaks", "crop", "draw_circle",
  "draw_disk", "add_border", "get_exif_orientation", "extract_document", "extract_document_auto", "flip_x", "flip_y", "transpose", "transverse",
  "foerstner_corner", "generate_histogram", "parse_hex_color", "calculate_perspective_transform", "apply_matrix_3x3", "detect_corners",
  "detect_corners_ptr", "rgba_to_grayscale", "rotate_90_cw", "rotate_180", "rotate_270_cw", "single_to_multichannel", "sobel_edge_detection",
  "sort_corners", "trim", "trim_threshold", "watershed_segmentation"};
const int n_fns = NFNS;
static bool heavy(int f) { return f == EXTRACT || f == EXTRACTAUTO || f == DETECT || f == DETECTPTR; }
static i64 in_channels(const Call &c) {
  switch (c.fn) {
  case DILATE: case ERODE: case CLOSE: case OPEN: case FOERSTNER: case SINGLETOMULTI: case WATERSHED: case GLOBALTHRESH: return 1;
  case PEAKS: return 2;
  case CROP: case CIRCLE: case DISK: case BORDER: case HISTOGRAM: case SOBEL: case TRIM: case TRIMTHRESH: return c.ch;
  default: return 4;
  }
}
static bool in_place(int f) { return f == CIRCLE || f == DISK || f == GLOBALTHRESH; }

// ---------------------------------------------------------------- generation
i64 gen_dim(Rng &r, bool small) {
  int k = (int)r.below(100);
  if (small) return k < 80 ? r.range(1, 9) : r.range(1, 20);
  if (k < 45) return r.range(1, 12);
  if (k < 75) return r.range(3, 40);
  if (k < 87 && !DICT.ints.empty()) { for (int t = 0; t < 8; t++) { i64 v = r.pick(DICT.ints) + r.range(-1, 1); if (v >= 1 && v <= 700) return v; } }
  if (k < 96) return r.range(20, 130);
  return r.range(100, 400);
}
ImgSpec gen_img(Rng &r, bool small) {
  ImgSpec s; s.w = gen_dim(r, small); s.h = gen_dim(r, small);
  i64 cap = small ? 200 : r.chance(96) ? 6000 : 60000;
  while (s.w * s.h > cap) { if (s.w > s.h) s.w = std::max<i64>(1, r.chance(50) ? s.w / 2 : s.w); else s.h = std::max<i64>(1, s.h / 2); if (s.w * s.h > cap) { if (s.w > s.h) s.w = (s.w + 1) / 2; else s.h = (s.h + 1) / 2; } }
  s.pat = r.range(0, 15); s.seed = r.below(1000000) + 1; return s;
}
static double gen_double(Rng &r, double lo, double hi) {
  int k = (int)r.below(10);
  if (k == 0) return lo; if (k == 1) return hi;
  if (k < 4) return (double)r.range((i64)lo, (i64)hi);
  if (k < 6 && !DICT.floats.empty()) for (int t = 0; t < 6; t++) { double v = r.pick(DICT.floats); if (v >= lo && v <= hi) return v; }
  if (k < 7 && !DICT.ints.empty()) for (int t = 0; t < 6; t++) { double v = (double)r.pick(DICT.ints); if (v >= lo && v <= hi) return v; }
  double v = lo + (hi - lo) * r.unit();
  return r.chance(50) ? std::round(v * 4) / 4 : v;
}
static string gen_color(Rng &r) {
  static const vector<string> cs = {"FF0000", "#00FF00", "0000ff", "ffffff", "000000", "#abcdef", "123456", "red", "", "FFF", "#GG0000", "FF00001", "#"};
  if (r.chance(60)) { char t[8]; snprintf(t, 8, "%06X", (unsigned)r.below(1 << 24)); return (r.chance(30) ? "#" : "") + string(t); }
  return r.pick(cs);
}
static i64 gen_ch(Rng &r) { static const i64 c[] = {4, 4, 4, 3, 1}; return c[r.below(5)]; }
Call gen_call(Rng &r, int fn, bool small) {
  Call c; c.fn = fn; c.img = gen_img(r, small); c.ch = 4;
  auto shrink_to = [&](i64 cap) { while (c.img.w * c.img.h > cap) { if (c.img.w > c.img.h) c.img.w = (c.img.w + 1) / 2; else c.img.h = (c.img.h + 1) / 2; } };
  i64 w = c.img.w, h = c.img.h;
  switch (fn) {
  case DILATE: case ERODE: case CLOSE: case OPEN:
    shrink_to(4000); c.img.pat = r.chance(75) ? (i64)(r.below(2) ? 8 : r.below(2) ? 12 : r.below(2) ? 14 : 15) : c.img.pat; c.p[0] = r.chance(90) ? r.range(0, 5) : r.range(0, 14); if (c.p[0] > 5) shrink_to(900); break;
  case BLUR: c.d[0] = r.chance(80) ? std::fabs(gen_double(r, 0, 8)) : std::fabs(gen_double(r, 0, 40)); if (c.d[0] < 0.01) c.d[0] = 0; if (c.d[0] > 8) shrink_to(2500); break;
  case GLOBALTHRESH: c.p[0] = r.range(0, 255); break;
  case OTSU: case BWSMART: c.p[0] = r.range(0, 1); break;
  case RESIZE: {
    c.d[0] = r.chance(50) ? gen_double(r, 0, 1) : gen_double(r, 1, 4); c.d[1] = r.chance(40) ? c.d[0] : r.chance(50) ? gen_double(r, 0, 1) : gen_double(r, 1, 4);
    if (c.d[0] < 0.005) c.d[0] = 0.5; if (c.d[1] < 0.005) c.d[1] = 0.5;
    while (w * c.d[0] * h * c.d[1] > 40000) { c.d[0] /= 2; c.d[1] /= 2; }
    break; }
  case TOBINARY: { c.s1 = gen_color(r); c.s2 = gen_color(r); if (r.chance(50)) { c.s1 = "FFFFFF"; c.s2 = "000000"; c.img.pat = 8; } break; }
  case PEAKS: c.p[0] = r.chance(20) ? 0 : r.range(0, 20); c.d[0] = gen_double(r, 0, 1); c.d[1] = gen_double(r, 0, 1); shrink_to(3000); if (r.chance(30)) { c.d[0] = c.d[1] = 0; } break;
  case CROP: c.ch = r.range(1, 4); c.p[0] = r.range(0, w - 1); c.p[1] = r.range(0, h - 1); c.p[2] = r.range(1, w - c.p[0]); c.p[3] = r.range(1, h - c.p[1]);
    if (r.chance(12)) c.p[2] += r.range(1, 3); if (r.chance(5)) c.p[r.below(4)] = 0xFFFFFFFF - r.range(0, 2); break;
  case CIRCLE: case DISK: c.ch = gen_ch(r); c.s1 = gen_color(r); c.d[0] = gen_double(r, 0, 60); c.d[1] = gen_double(r, -20, w + 20); c.d[2] = gen_double(r, -20, h + 20); break;
  case BORDER: c.ch = gen_ch(r); c.s1 = gen_color(r); c.p[0] = r.chance(80) ? r.range(0, 10) : r.range(0, 60); break;
  case EXTRACT: c.p[0] = r.range(1, 80); c.p[1] = r.range(1, 80); break;
  case FOERSTNER: c.d[0] = gen_double(r, 0, 4); shrink_to(4000); break;
  case HISTOGRAM: c.ch = gen_ch(r); break;
  case SOBEL: c.ch = gen_ch(r); break;
  case TRIM: c.ch = r.range(1, 4); if (r.chance(70)) c.img.pat = r.chance(50) ? 6 : r.chance(50) ? 15 : 10; break;
  case TRIMTHRESH: c.ch = r.range(1, 4); if (r.chance(70)) c.img.pat = r.chance(40) ? 6 : r.chance(50) ? 11 : 10; c.d[0] = gen_double(r, 0, 100); break;
  case PARSEHEX: c.s1 = gen_color(r); break;
  case WATERSHED: {
    shrink_to(r.chance(90) ? 600 : 2000); w = c.img.w; h = c.img.h;
    int n = r.chance(80) ? (int)r.range(1, 6) : (int)r.range(1, 40); c.p[0] = r.range(0, 1);
    for (int k = 0; k < n; k++) { Pt p; p.x = (double)r.range(0, w - 1) + (r.chance(20) ? 0.5 : 0); p.y = (double)r.range(0, h - 1); if (r.chance(2)) p.x = (double)w; c.pts.push_back(p); }
    break; }
  case SORTCORNERS: {
    c.p[0] = r.range(1, 400); c.p[1] = r.range(1, 400); int n = r.chance(85) ? (int)r.range(3, 8) : (int)r.range(0, 30);
    for (int k = 0; k < n; k++) { Pt p; p.x = gen_double(r, 0, 300); p.y = gen_double(r, 0, 300); if (k && r.chance(10)) p = c.pts[r.below((u64)k)]; c.pts.push_back(p); }
    break; }
  case PERSPECTIVE: { for (int k = 0; k < 8; k++) { Pt p; p.x = gen_double(r, 0, 200); p.y = gen_double(r, 0, 200); if (k % 4 && r.chance(15)) p = c.pts[(size_t)k - 1]; c.pts.push_back(p); }
    static const double odd[] = {NAN, INFINITY, -INFINITY, -0.0, 1e-9, -1e-9, -3.25, 1e6, 65535.5, 1e-300};
    if (r.chance(12)) for (int k = (int)r.range(1, 3); k > 0; k--) { Pt &p = c.pts[r.below(8)]; (r.below(2) ? p.x : p.y) = odd[r.below(10)]; }
    if (r.chance(4)) for (int k = 0; k < 4; k++) c.pts[(size_t)k + 4] = c.pts[(size_t)k];
    break; }
  case APPLYMATRIX: {
    c.p[0] = r.range(1, 40); c.p[1] = r.range(1, 40);
    double m[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
    if (r.chance(20)) { m[0] = m[4] = -1; } else if (r.chance(85)) { for (int k = 0; k < 6; k++) m[k] += gen_double(r, -2, 2); m[2] *= 10; m[5] *= 10; m[6] = r.chance(50) ? gen_double(r, -1, 1) / 50 : 0; m[7] = r.chance(50) ? gen_double(r, -1, 1) / 50 : 0; }
    for (int k = 0; k < 9; k += 2) { Pt p; p.x = m[k]; p.y = k + 1 < 9 ? m[k + 1] : 0; c.pts.push_back(p); }
    break; }
  case EXIF: c.p[0] = r.range(0, 9); c.p[1] = r.range(0, 511); c.p[2] = r.chance(50) ? 0 : r.range(1, 400); shrink_to(64); break;
  default: break;
  }
  if (heavy(fn)) {
    i64 side = r.chance(70) ? r.range(1, 60) : r.range(40, 240);
    c.img.w = side; c.img.h = r.chance(60) ? side : r.range(1, side); c.img.pat = r.chance(60) ? 3 : c.img.pat;
  }
  return c;
}

// ---------------------------------------------------------------- one call
struct SharedArgs { std::map<string, u8 *> bufs; };   // read-only images used by several callers
struct Buf {   // exact-size heap copy, so that the sanitizer sees any access outside
  u8 *p = nullptr; size_t n = 0; bool own = true; u64 h = 0;
  Buf() {}
  void set(const void *d, size_t k) { n = k; p = (u8 *)malloc(k ? k : 1); memcpy(p, d, k); h = hash_bytes(p, n); }
  void borrow(u8 *q, size_t k) { p = q; n = k; own = false; h = hash_bytes(p, n); }
  bool same() const { return hash_bytes(p, n) == h; }
  ~Buf() { if (own) free(p); }
  Buf(const Buf &) = delete;
};
static void bad(Outcome &o, const char *cls, const string &m) { if (o.viol.empty()) { o.viol = m; o.violcls = cls; } }

string img_key(const Call &c) { char t[120]; snprintf(t, 120, "%lld %lld %lld %llu %lld", (long long)c.img.w, (long long)c.img.h, (long long)c.img.pat, (unsigned long long)c.img.seed, (long long)in_channels(c)); return t; }

static u64 next_tag = 1;
static string call_text(const Call &c) {
  char t[400]; snprintf(t, 400, "%s(%lldx%lldx%lld pattern %lld, p=%lld,%lld,%lld,%lld d=%g,%g,%g s='%s','%s' pts=%zu)", fn_names[c.fn], (long long)c.img.w, (long long)c.img.h, (long long)in_channels(c), (long long)c.img.pat,
    (long long)c.p[0], (long long)c.p[1], (long long)c.p[2], (long long)c.p[3], c.d[0], c.d[1], c.d[2], c.s1.c_str(), c.s2.c_str(), c.pts.size());
  return t;
}
Outcome exec_call(const Api &f, const Call &c, const SharedArgs *sh) {
  Outcome o;
  u32 w = (u32)std::max<i64>(1, c.img.w), h = (u32)std::max<i64>(1, c.img.h); i64 ch = in_channels(c);
  Buf img, s1, s2, pts, mat, mat2;
  bool shared = false;
  if (sh && !in_place((int)c.fn)) { auto it = sh->bufs.find(img_key(c)); if (it != sh->bufs.end()) { img.borrow(it->second, (size_t)w * h * (size_t)ch); shared = true; } }
  if (!shared && c.fn != EXIF && c.fn != PARSEHEX && c.fn != SORTCORNERS && c.fn != PERSPECTIVE) { string px = make_image(c.img, ch); img.set(px.data(), px.size()); }
  s1.set(c.s1.c_str(), c.s1.size() + 1); s2.set(c.s2.c_str(), c.s2.size() + 1);
  vector<Point2D> pv; for (auto &p : c.pts) pv.push_back({p.x, p.y});
  pts.set(pv.data(), pv.size() * sizeof(Point2D));
  AWin &win = G->win[sim_current_thread() + 1];
  win.tag = ++next_tag; u64 tag = win.tag;
  u64 a0 = win.idx;
  u64 st0 = sim_steps();
  B r = nullptr; size_t rn = 0; bool has_result = true; string extra; string before;
  u32 ow = 0xDEADBEEF, oh = 0xDEADBEEF;
  int32_t iw = (int32_t)w, ih = (int32_t)h;
  vector<void *> owned;
  ev("call", (u64)c.fn, tag);
  switch (c.fn) {
  case DILATE: r = f.fcv_binary_dilation_disk(img.p, iw, ih, (int)c.p[0]); rn = (size_t)w * h; break;
  case ERODE: r = f.fcv_binary_erosion_disk(img.p, iw, ih, (int)c.p[0]); rn = (size_t)w * h; break;
  case CLOSE: r = f.fcv_binary_closing_disk(img.p, iw, ih, (int)c.p[0]); rn = (size_t)w * h; break;
  case OPEN: r = f.fcv_binary_opening_disk(img.p, iw, ih, (int)c.p[0]); rn = (size_t)w * h; break;
  case BLUR: r = f.fcv_apply_gaussian_blur(w, h, c.d[0], img.p); rn = (size_t)w * h * 4; break;
  case GRAY: r = f.fcv_grayscale(w, h, img.p); rn = (size_t)w * h * 4; break;
  case GRAYSTRETCH: r = f.fcv_grayscale_stretch(w, h, img.p); rn = (size_t)w * h * 4; break;
  case GLOBALTHRESH: before.assign((char *)img.p, img.n); f.fcv_apply_global_threshold(w * h, img.p, (u8)c.p[0]); has_result = false; break;
  case OTSU: r = f.fcv_otsu_threshold_rgba(w, h, c.p[0] & 1, img.p); rn = (size_t)w * h * 4; break;
  case BWSMART: r = f.fcv_bw_smart(w, h, c.p[0] & 1, img.p); rn = (size_t)w * h * 4; break;
  case RESIZE: r = f.fcv_resize(w, h, c.d[0], c.d[1], &ow, &oh, img.p); rn = r ? (size_t)ow * oh * 4 : 0; break;
  case TOBINARY: r = f.fcv_convert_to_binary(img.p, iw, ih, (char *)s1.p, (char *)s2.p); rn = (size_t)w * h; break;
  case PEAKS: {
    CornerPeaks *pk = f.fcv_corner_peaks(w, h, img.p, (u32)c.p[0], c.d[0], c.d[1]); has_result = false; o.failed = !pk;
    if (pk) {
      if (!G->live.count(pk) || __asan_region_is_poisoned(pk, sizeof *pk)) bad(o, "ownership", "the peaks structure is not a live allocation");
      else {
        owned.push_back(pk); extra += std::to_string(pk->count) + ":";
        if (pk->points) { if (!G->live.count(pk->points) || __asan_region_is_poisoned(pk->points, pk->count * sizeof(Point2D))) bad(o, "ownership", "the peaks array is not a live allocation of its size"); else { owned.push_back(pk->points); extra.append((char *)pk->points, pk->count * sizeof(Point2D)); } }
        else if (pk->count) bad(o, "wrong", "peaks without array");
      }
    }
    break; }
  case CROP: r = f.fcv_crop(w, h, (u32)ch, img.p, (u32)c.p[0], (u32)c.p[1], (u32)c.p[2], (u32)c.p[3]); rn = (size_t)(u32)c.p[2] * (u32)c.p[3] * (size_t)ch; break;
  case CIRCLE: before.assign((char *)img.p, img.n); f.fcv_draw_circle(w, h, (u32)ch, (char *)s1.p, c.d[0], c.d[1], c.d[2], img.p); has_result = false; break;
  case DISK: before.assign((char *)img.p, img.n); f.fcv_draw_disk(w, h, (u32)ch, (char *)s1.p, c.d[0], c.d[1], c.d[2], img.p); has_result = false; break;
  case BORDER: r = f.fcv_add_border(w, h, (u32)ch, (char *)s1.p, (u32)c.p[0], img.p, &ow, &oh); rn = r ? (size_t)ow * oh * (size_t)ch : 0; break;
  case EXIF: {
    CliPlan cp; cp.img = c.img; cp.img.w = std::min<i64>(8, w); cp.img.h = std::min<i64>(8, h); cp.fmt = 1; cp.orient = c.p[0]; cp.exif = c.p[1];
    string file = make_file(cp); if (c.p[2]) file.resize(std::min<size_t>(file.size(), (size_t)c.p[2]));
    string path = "in/exif" + std::to_string(tag) + ".jpg"; G->fs[path] = std::make_shared<Node>(); G->fs[path]->data = file;
    int32_t v = f.fcv_get_exif_orientation(path.c_str()); has_result = false; extra = std::to_string(v);
    if (G->fs[path]->data != file) bad(o, "args", "the image file was modified");
    break; }
  case EXTRACT: r = f.fcv_extract_document(w, h, img.p, (u32)c.p[0], (u32)c.p[1]); rn = (size_t)c.p[0] * (size_t)c.p[1] * 4; break;
  case EXTRACTAUTO: r = f.fcv_extract_document_auto(w, h, img.p, &ow, &oh); rn = r ? (size_t)ow * oh * 4 : 0; break;
  case FLIPX: r = f.fcv_flip_x(w, h, img.p); rn = (size_t)w * h * 4; break;
  case FLIPY: r = f.fcv_flip_y(w, h, img.p); rn = (size_t)w * h * 4; break;
  case TRANSPOSE: r = f.fcv_transpose(w, h, img.p); rn = (size_t)w * h * 4; break;
  case TRANSVERSE: r = f.fcv_transverse(w, h, img.p); rn = (size_t)w * h * 4; break;
  case FOERSTNER: r = f.fcv_foerstner_corner(w, h, img.p, c.d[0]); rn = (size_t)w * h * 2; break;
  case HISTOGRAM: r = f.fcv_generate_histogram(w, h, (u32)ch, img.p, &ow, &oh); rn = r ? (size_t)ow * oh * 4 : 0; break;
  case PARSEHEX: { u8 R = 1, Gn = 2, Bl = 3; f.fcv_parse_hex_color((char *)s1.p, &R, &Gn, &Bl); has_result = false; extra = string({(char)R, (char)Gn, (char)Bl}); break; }
  case PERSPECTIVE: {
    double d[16] = {0}; for (size_t k = 0; k < 8 && k < pv.size(); k++) { d[2 * k] = pv[k].x; d[2 * k + 1] = pv[k].y; }
    mat.set(d, 64); mat2.set(d + 8, 64);
    r = (B)f.fcv_calculate_perspective_transform((Corners *)mat.p, (Corners *)mat2.p); rn = sizeof(Matrix3x3); break; }
  case APPLYMATRIX: {
    double d[10] = {0}; for (size_t k = 0; k < 5 && k < pv.size(); k++) { d[2 * k] = pv[k].x; d[2 * k + 1] = pv[k].y; }
    mat.set(d, 72);
    r = f.fcv_apply_matrix_3x3(iw, ih, img.p, (int)c.p[0], (int)c.p[1], (Matrix3x3 *)mat.p); rn = (size_t)c.p[0] * (size_t)c.p[1] * 4; break; }
  case DETECT: { Corners k = f.fcv_detect_corners(img.p, iw, ih); has_result = false; extra.assign((char *)&k, sizeof k);
    Corners whole = {0, 0, (double)w - 1, 0, (double)w - 1, (double)h - 1, 0, (double)h - 1}; o.failed = !memcmp(&k, &whole, sizeof k); break; }
  case DETECTPTR: r = (B)f.fcv_detect_corners_ptr(img.p, iw, ih); rn = sizeof(Corners); break;
  case TOGRAY1: r = f.fcv_rgba_to_grayscale(w, h, img.p); rn = (size_t)w * h; break;
  case ROT90: r = f.fcv_rotate_90_cw(w, h, img.p); rn = (size_t)w * h * 4; break;
  case ROT180: r = f.fcv_rotate_180(w, h, img.p); rn = (size_t)w * h * 4; break;
  case ROT270: r = f.fcv_rotate_270_cw(w, h, img.p); rn = (size_t)w * h * 4; break;
  case SINGLETOMULTI: r = f.fcv_single_to_multichannel(w, h, img.p); rn = (size_t)w * h * 4; break;
  case SOBEL: r = f.fcv_sobel_edge_detection(w, h, (u32)ch, img.p); rn = (size_t)w * h; break;
  case SORTCORNERS: {
    has_result = false; if (!f.sort_corners) break;
    vector<Point2D> z(std::max<size_t>(4, pv.size()), Point2D{-7, -7}); Buf res; res.set(z.data(), z.size() * sizeof(Point2D));
    Corners k = f.sort_corners((u32)c.p[0], (u32)c.p[1], 100, 100, (Point2D *)pts.p, (u32)pv.size(), (Point2D *)res.p);
    Corners zero = {0, 0, 0, 0, 0, 0, 0, 0};
    extra.assign((char *)&k, sizeof k); if (memcmp(&k, &zero, sizeof k)) extra.append((char *)res.p, res.n); else o.failed = true;
    break; }
  case TRIM: case TRIMTHRESH: {
    int32_t tw = iw, th = ih;
    r = c.fn == TRIM ? f.fcv_trim(&tw, &th, (u32)ch, img.p) : f.fcv_trim_threshold(&tw, &th, (u32)ch, img.p, c.d[0]);
    if (!r) { if (tw != iw || th != ih) bad(o, "dims", "a failed call changed the dimensions it was given"); }
    else { if (tw < 1 || th < 1 || tw > iw || th > ih) bad(o, "wrong", "impossible dimensions"); else rn = (size_t)tw * (size_t)th * (size_t)ch; }
    extra = std::to_string(tw) + "x" + std::to_string(th); break; }
  case WATERSHED: r = f.fcv_watershed_segmentation(w, h, img.p, (Point2D *)pts.p, (u32)pv.size(), c.p[0] & 1); rn = (size_t)w * h * 4; break;
  }
  o.steps = sim_steps() - st0;
  o.allocs = win.idx - a0;
  ev("returned", has_result ? r != nullptr : 2, (u64)c.fn);
  if (has_result) {
    o.failed = r == nullptr;
    if (r) {
      auto it = G->live.find(r);
      if (it == G->live.end()) bad(o, "ownership", "the result is not the start of a live allocation, free() would not accept it");
      else {
        owned.push_back(r);
        if (rn > it->second.size) bad(o, "ownership", "the result is smaller (" + std::to_string(it->second.size) + " bytes) than documented (" + std::to_string(rn) + ")");
        else { o.bytes.assign((char *)r, rn); }
        if (it->second.tag != tag) bad(o, "ownership", "the result was not allocated for this call");
      }
    }
  }
  else if (in_place((int)c.fn)) o.bytes.assign((char *)img.p, img.n);
  if (c.fn == RESIZE || c.fn == BORDER || c.fn == HISTOGRAM || c.fn == EXTRACTAUTO) { if (r) extra = std::to_string(ow) + "x" + std::to_string(oh); }
  if (!o.failed || c.fn == DETECT || c.fn == SORTCORNERS) o.bytes += "|" + extra;
  if (in_place((int)c.fn)) o.failed = o.bytes == before + "|";
  // arguments that are only read
  if (img.p && !in_place((int)c.fn) && !img.same()) bad(o, "args", "the input image was modified");
  if (!s1.same() || !s2.same()) bad(o, "args", "a string argument was modified");
  if (!pts.same()) bad(o, "args", "the points argument was modified");
  if ((mat.p && !mat.same()) || (mat2.p && !mat2.same())) bad(o, "args", "the corners or matrix argument was modified");
  // ownership: only the result is still allocated
  for (void *q : owned) { size_t d = 0; for (void *z : owned) d += z == q; if (d > 1) { bad(o, "ownership", "the same pointer handed out twice"); return o; } }
  for (void *q : owned) sim_free(q);
  size_t leaks = 0, lb = 0; for (auto &b : G->live) if (b.second.tag == tag) { leaks++; lb += b.second.size; }
  if (leaks) bad(o, "leak", std::to_string(leaks) + " allocation(s), " + std::to_string(lb) + " bytes, still held after the result was released");
  for (auto fit = G->fs.begin(); fit != G->fs.end();) { if (fit->first == "in/exif" + std::to_string(tag) + ".jpg") fit = G->fs.erase(fit); else ++fit; }
  return o;
}
static void put_outcome(Out &t, const Outcome &o) { t.u(o.failed); t.s(o.bytes); t.s(o.viol); t.s(o.violcls); t.u(o.allocs); t.u(o.steps); }
static Outcome get_outcome(In &i) { Outcome o; o.failed = i.u(); o.bytes = i.s(); o.viol = i.s(); o.violcls = i.s(); o.allocs = i.u(); o.steps = i.u(); return o; }
static void set_fault(i64 kind, i64 a, i64 b, u64 n) { AWin &w = G->win[sim_current_thread() + 1]; w.af.kind = kind; w.af.a = a; w.af.b = b; w.n = n; w.idx = 0; }

static Verdict crash_verdict(const ChildResult &r, const string &what) {
  Verdict v;
  if (r.fate == F_HARNESS || r.fate == F_TIMEOUT) { v.harness = true; v.detail = what + ": " + fate_name[r.fate] + " " + r.msg.substr(0, 300); return v; }
  v.cls = r.fate == F_ASAN ? "memory" : r.fate == F_HEAP ? "heap" : r.fate == F_HANG ? "hang" : r.fate == F_EXIT ? "exit" : fate_name[r.fate];
  v.detail = what + ": " + (r.fate == F_ASAN ? asan_summary(r.msg) : string(fate_name[r.fate]) + ": " + r.msg.substr(0, 200));
  return v;
}
static string diff_text(const string &a, const string &b) {
  size_t n = std::min(a.size(), b.size()), i = 0; while (i < n && a[i] == b[i]) i++;
  char t[160]; snprintf(t, 160, "sizes %zu/%zu, first difference at byte %zu (%02x/%02x)", a.size(), b.size(), i, i < a.size() ? (u8)a[i] : 0, i < b.size() ? (u8)b[i] : 0); return t;
}
static bool want(const string &prop, const string &cls) {
  static const std::map<string, std::set<string>> m = {
    {"C01", {"wrong", "memory", "heap", "hang", "exit", "abort", "assert", "signal", "deadlock"}},
    {"C02", {"leak", "ownership", "memory", "heap", "hang", "exit", "abort", "assert", "signal"}},
    {"C03", {"args", "dims", "retry", "memory", "heap", "hang", "exit", "abort", "assert", "signal"}}};
  auto it = m.find(prop); return it == m.end() || it->second.count(cls);
}
static Sut &variant(i64 v) { static const char *n[] = {"split", "amalg", "zero"}; return sut_by_name(n[((v % 3) + 3) % 3]); }
bool TRACE; string TRACE_OUT;

// ---------------------------------------------------------------- C01, C02, C03
static Verdict check_faults(const Plan &p) {
  Verdict v; if (p.calls.empty()) return v;
  const Call &c = p.calls[0]; Sut &s = variant(p.variant);
  ST.kinds[fn_names[c.fn]]++;
  ChildResult ra = run_child([&] { G->trace_on = TRACE; G->junk = p.junk; sim_set_budget(4000000000ll, 0); Outcome o = exec_call(s.f, c); Out t; put_outcome(t, o); return t.b; });
  ST.child(ra); ST.calls++;
  if (TRACE) TRACE_OUT += "== undisturbed " + call_text(c) + "\n" + ra.trace;
  if (ra.fate != F_RETURN) return crash_verdict(ra, "undisturbed " + call_text(c));
  In ia(ra.report); Outcome ref = get_outcome(ia);
  if (!ref.viol.empty() && want(p.prop, ref.violcls)) { v.cls = ref.violcls; v.detail = "undisturbed " + call_text(c) + ": " + ref.viol; return v; }
  ST.states.insert(mix64(mix64((u64)c.fn, ref.allocs), hash_str(ref.bytes)));
  // faulty calls, each followed by a retry
  ChildResult rb = run_child([&] {
    G->trace_on = TRACE; G->junk = p.junk2; Out t; t.u(p.faults.size());
    for (size_t k = 0; k < p.faults.size(); k++) {
      set_fault(p.faults[k].kind, p.faults[k].a, p.faults[k].b, ref.allocs);
      sim_set_budget((i64)ref.steps * 20 + 20000000, 0); G->fired["fault-sets"]++;
      fatal_report = [&t, k] { Out q; q.u(k); q.u(0); return q.b; };
      Outcome o = exec_call(s.f, c);
      put_outcome(t, o); t.u(G->win[0].failed);
      set_fault(0, 0, 0, 1);
      if (heavy((int)c.fn) && k + 1 < p.faults.size()) { put_outcome(t, ref); continue; }
      sim_set_budget((i64)ref.steps * 20 + 20000000, 0);
      fatal_report = [&t, k] { Out q; q.u(k); q.u(1); return q.b; };
      Outcome o2 = exec_call(s.f, c);
      put_outcome(t, o2);
    }
    fatal_report = nullptr;
    return t.b;
  });
  ST.child(rb); ST.calls += 2 * p.faults.size();
  if (TRACE) TRACE_OUT += "== with faults, each call retried\n" + rb.trace;
  auto ftext = [&](size_t k) { static const char *n[] = {"none", "single", "from", "pair", "mask", "size", "cap", "every"}; const FaultSet &f = p.faults[std::min(k, p.faults.size() - 1)]; return string(n[f.kind]) + "(" + std::to_string(f.a) + "," + std::to_string(f.b) + ") of " + std::to_string(ref.allocs) + " allocations"; };
  if (rb.fate != F_RETURN) {
    string w = " " + call_text(c);
    if (rb.report.size() >= 16) { In q(rb.report); u64 k = q.u(), st = q.u(); w = (st ? " retry after faults " : " under faults ") + ftext(k) + " " + call_text(c); }
    return crash_verdict(rb, w.substr(1));
  }
  In ib(rb.report); u64 n = ib.u(); u64 prev_failed = 0;
  for (u64 k = 0; k < n; k++) {
    Outcome o = get_outcome(ib); u64 nf = ib.u(); Outcome o2 = get_outcome(ib);
    u64 here = nf - prev_failed; prev_failed = nf;
    ST.states.insert(mix64(mix64(mix64((u64)c.fn, o.allocs), here), (u64)o.failed * 2 + 1));
    string what = "under allocation faults " + ftext(k) + " " + call_text(c);
    if (!o.viol.empty() && want(p.prop, o.violcls)) { v.cls = o.violcls; v.detail = what + ": " + o.viol; return v; }
    bool fail_ok = o.failed && (here > 0 || ref.failed);
    if (!fail_ok && (o.bytes != ref.bytes || o.failed != ref.failed) && want(p.prop, "wrong")) { v.cls = "wrong"; v.detail = what + ": neither its failure value nor the undisturbed result: " + diff_text(ref.bytes, o.bytes); return v; }
    if (!o2.viol.empty() && want(p.prop, o2.violcls)) { v.cls = o2.violcls; v.detail = "retry after " + what + ": " + o2.viol; return v; }
    if ((o2.bytes != ref.bytes || o2.failed != ref.failed) && want(p.prop, "retry")) { v.cls = "retry"; v.detail = "retry after " + what + ": differs from the undisturbed result: " + diff_text(ref.bytes, o2.bytes); return v; }
  }
  return v;
}

// ---------------------------------------------------------------- C04
static Verdict check_threads(const Plan &p) {
  Verdict v; if (p.threads.empty()) return v;
  Sut &s = variant(p.variant);
  struct Solo { vector<Outcome> o; u64 steps = 0; };
  // every call alone, in a process of its own
  vector<vector<Outcome>> solo(p.threads.size()); u64 total = 0;
  std::map<string, Outcome> memo;
  for (size_t t = 0; t < p.threads.size(); t++)
    for (auto &c : p.threads[t].calls) {
      Ar a; Call cc = c; cc.io(a);
      auto it = memo.find(a.out);
      if (it == memo.end()) {
        ChildResult r = run_child([&] {
          G->junk = p.junk; sim_set_budget(4000000000ll, 0);
          if (c.fk) { set_fault(0, 0, 0, 1); }
          Out q; set_fault(c.fk, c.fa, c.fb, 8); Outcome o = exec_call(s.f, c); put_outcome(q, o); return q.b; });
        ST.child(r); ST.calls++;
        if (r.fate != F_RETURN) return crash_verdict(r, "alone " + call_text(c));
        In i(r.report); it = memo.emplace(a.out, get_outcome(i)).first;
        if (!it->second.viol.empty()) { v.cls = it->second.violcls; v.detail = "alone " + call_text(c) + ": " + it->second.viol; return v; }
      }
      ST.kinds[fn_names[c.fn]]++;
      solo[t].push_back(it->second); total += it->second.steps;
    }
  ChildResult r = run_child([&] {
    G->trace_on = TRACE; G->junk = p.junk2;
    SharedArgs sh;
    if (p.share) for (auto &t : p.threads) for (auto &c : t.calls) { string k = img_key(c); if (!sh.bufs.count(k)) { string px = make_image(c.img, in_channels(c)); u8 *q = (u8 *)malloc(px.size() ? px.size() : 1); memcpy(q, px.data(), px.size()); sh.bufs[k] = q; } }
    vector<vector<Outcome>> res(p.threads.size());
    vector<std::function<void()>> bodies;
    for (size_t t = 0; t < p.threads.size(); t++) bodies.push_back([&, t] { for (auto &c : p.threads[t].calls) { set_fault(c.fk, c.fa, c.fb, 8); res[t].push_back(exec_call(s.f, c, p.share ? &sh : nullptr)); } });
    vector<SchedSlot> sl; for (auto &x : p.slots) sl.push_back({x.quantum, x.next});
    sim_set_budget((i64)total * 20 + 20000000, 0);
    sim_run_threads(bodies, sl, p.fallback);
    Out q; for (auto &t : res) for (auto &o : t) put_outcome(q, o); q.u(sim_sched_hash); q.u(sim_switches); q.u(G->live.size());
    G->fired["preemptions"] += sim_switches;
    return q.b;
  });
  ST.child(r); ST.calls += total ? 1 : 0;
  if (TRACE) TRACE_OUT += "== concurrent run\n" + r.trace;
  if (r.fate != F_RETURN) return crash_verdict(r, "concurrent calls");
  In i(r.report);
  for (size_t t = 0; t < p.threads.size(); t++)
    for (size_t k = 0; k < p.threads[t].calls.size(); k++) {
      Outcome o = get_outcome(i); const Outcome &e = solo[t][k];
      string what = "thread " + std::to_string(t) + " call " + std::to_string(k) + " " + call_text(p.threads[t].calls[k]);
      if (v.cls.empty() && !o.viol.empty()) { v.cls = o.violcls; v.detail = what + ": " + o.viol; }
      if (v.cls.empty() && (o.bytes != e.bytes || o.failed != e.failed)) { v.cls = "interference"; v.detail = what + ": result differs from the call made alone: " + diff_text(e.bytes, o.bytes); }
      if (v.cls.empty() && o.allocs != e.allocs && !p.threads[t].calls[k].fk) ST.kinds["alloc-count-differs"]++;
    }
  u64 sh = i.u(), sw = i.u(); ST.sched.insert(sh); ST.kinds["switches"] += sw;
  return v;
}

// ---------------------------------------------------------------- C05 (library part)
static Verdict check_purity(const Plan &p) {
  Verdict v; if (p.calls.empty()) return v;
  const Call &c = p.calls.back();
  ST.kinds[fn_names[c.fn]]++;
  auto run = [&](Sut &s, u64 junk, bool history, i64 clock) {
    return run_child([&, junk, history, clock] {
      G->trace_on = TRACE; G->junk = junk; G->clock_mode = (u64)clock; G->rnd = mix64(junk, 3) | 1; sim_set_budget(6000000000ll, 0);
      vector<void *> pads; Rng pr(junk);
      if (history) {
        for (int k = 0; k < (int)(junk % 7); k++) pads.push_back(malloc(16 + pr.below(3000)));
        for (size_t k = 0; k + 1 < p.calls.size(); k++) { const Call &hc = p.calls[k]; set_fault(hc.fk, hc.fa, hc.fb, 8); exec_call(s.f, hc); }
        set_fault(0, 0, 0, 1);
      }
      Outcome o = exec_call(s.f, c); Out t; put_outcome(t, o); return t.b;
    });
  };
  ChildResult a = run(sut_by_name("split"), p.junk, false, 0);
  ST.child(a); ST.calls++;
  if (TRACE) TRACE_OUT += "== first process " + call_text(c) + "\n" + a.trace;
  if (a.fate != F_RETURN) return crash_verdict(a, call_text(c));
  In ia(a.report); Outcome oa = get_outcome(ia);
  ChildResult b = run(variant(p.variant), p.junk2, true, p.share);
  ST.child(b); ST.calls += p.calls.size();
  if (TRACE) TRACE_OUT += "== second process: after the history, other memory contents, other build\n" + b.trace;
  if (b.fate != F_RETURN) return crash_verdict(b, "after history " + call_text(c));
  In ib(b.report); Outcome ob = get_outcome(ib);
  ST.states.insert(mix64((u64)c.fn, hash_str(oa.bytes)));
  if (oa.bytes != ob.bytes || oa.failed != ob.failed) { v.cls = "impure"; v.detail = call_text(c) + " gives different results in two processes (history of " + std::to_string(p.calls.size() - 1) + " calls, build " + variant(p.variant).name + "): " + diff_text(oa.bytes, ob.bytes); }
  return v;
}
Verdict check_lib(const Plan &p) {
  if (p.prop == "C04") return check_threads(p);
  if (p.prop == "C05") return check_purity(p);
  return check_faults(p);
}

// ---------------------------------------------------------------- plan generation
static int pick_fn(Rng &r, u64 index) {
  if (index < (u64)NFNS && !(heavy((int)index) && (SHARD ^ index) % 4)) return (int)index;
  int f = (int)r.below(NFNS);
  if (heavy(f) && !r.chance(12)) f = (int)r.below(NFNS);
  if (heavy(f) && !r.chance(25)) f = (int)r.below(NFNS);
  return f;
}
static FaultSet gen_fault(Rng &r, int k) {
  FaultSet f; int q = (int)r.below(100);
  if (q < 50) { f.kind = AFault::SINGLE; f.a = k >= 0 && r.chance(70) ? k : r.chance(25) ? -1 - (i64)r.below(8) : (i64)r.below(24); }
  else if (q < 65) { f.kind = AFault::FROM; f.a = (i64)r.below(24); }
  else if (q < 75) { f.kind = AFault::PAIR; f.a = (i64)r.below(24); f.b = (i64)r.below(24); }
  else if (q < 85) { f.kind = AFault::MASK; f.a = (i64)r.below(100000); f.b = 5 + (i64)r.below(60); }
  else if (q < 90) { f.kind = AFault::SIZE; f.a = 1ll << r.below(18); }
  else if (q < 96) { f.kind = AFault::CAP; f.a = 1ll << r.below(20); }
  else { f.kind = AFault::EVERY; f.a = 1 + (i64)r.below(5); f.b = (i64)r.below(5); }
  return f;
}
Plan gen_lib(const string &prop, Rng &r, u64 index) {
  Plan p; p.prop = prop; p.junk = 1 + r.below(1000); p.junk2 = 1001 + r.below(1000);
  if (prop == "C04") {
    int nt = (int)r.range(2, r.chance(80) ? 2 : 4); p.share = r.chance(60);
    p.variant = r.chance(30);
    int fn = (int)((index / 2) % NFNS); if (index >= 2 * NFNS || heavy(fn)) do fn = (int)r.below(NFNS); while (heavy(fn) && !r.chance(2));
    bool same = r.chance(75); Call proto = gen_call(r, fn, true);
    for (int t = 0; t < nt; t++) {
      ThreadPlan tp; int nc = heavy(fn) ? 1 : (int)r.range(1, r.chance(70) ? 1 : 3);
      for (int k = 0; k < nc; k++) {
        int g = same ? fn : (int)r.below(NFNS); if (heavy(g) && g != fn) g = BLUR;
        Call c = gen_call(r, g, true);
        if (same && t && r.chance(30)) { c = proto; }                          // same arguments
        else if (same && t && r.chance(40)) { ImgSpec im = c.img; c.img = proto.img; if (g == CROP || g == WATERSHED) { c = proto; } (void)im; }  // same image, other parameters
        if (same && !t && !k) c = proto;
        if (r.chance(8)) { FaultSet f = gen_fault(r, -1); if (f.kind == AFault::CAP) f.kind = AFault::SIZE; c.fk = f.kind; c.fa = f.a % 8; c.fb = f.kind == AFault::MASK ? f.b : f.b % 8; if (f.kind == AFault::SIZE) c.fa = f.a; }
        tp.calls.push_back(c);
      }
      p.threads.push_back(tp);
    }
    static const i64 means[] = {1, 3, 8, 25, 80, 300, 1000, 4000};
    i64 mean = means[r.below(8)]; int ns = (int)r.range(1, r.chance(50) ? 6 : 300);
    for (int k = 0; k < ns; k++) { Slot s; s.quantum = 1 + (i64)(-std::log(1 - r.unit()) * (double)mean); if (r.chance(5)) s.quantum *= 20; s.next = (i64)r.below((u64)nt); p.slots.push_back(s); }
    static const i64 fb[] = {1000, 5000, 20000, 1000000}; p.fallback = fb[r.below(4)]; if (heavy(fn)) p.fallback = 3000000; else p.fallback = std::max<i64>(p.fallback, 2000);
    return p;
  }
  if (prop == "C05") {
    int fn = pick_fn(r, index);
    Call t = gen_call(r, fn, r.chance(50));
    int nh = heavy(fn) ? (int)r.range(0, 1) : (int)r.range(0, r.chance(70) ? 3 : 8);
    for (int k = 0; k < nh; k++) {
      int g = r.chance(65) ? fn : (int)r.below(NFNS); if (heavy(g) && !r.chance(5)) g = (fn % 2) ? BLUR : OTSU;
      Call c = gen_call(r, g, r.chance(60));
      if (g == fn && r.chance(40)) { Call o = c; c = t; int q = (int)r.below(4); if (q == 0) c.img.seed = o.img.seed; else if (q == 1) { c.d[0] = o.d[0]; c.d[1] = o.d[1]; } else if (q == 2 && fn != CROP && fn != WATERSHED) { c.img.w = o.img.w; c.img.h = o.img.h; } else { c.s1 = o.s1; c.p[0] = fn == CROP ? c.p[0] : o.p[0]; } }
      if (r.chance(30)) { FaultSet f = gen_fault(r, -1); c.fk = f.kind; c.fa = f.a; c.fb = f.b; }
      p.calls.push_back(c);
    }
    p.calls.push_back(t);
    p.variant = (i64)r.below(3); p.share = (i64)r.below(6);
    return p;
  }
  if (index >= (u64)NFNS && index < (u64)NFNS + 4) {   // the costly functions on a picture of a document: a window of single failures per plan, another one in each shard
    static const int hf[] = {DETECT, DETECTPTR, EXTRACTAUTO, EXTRACT}; i64 k = (i64)index - NFNS; Call c = gen_call(r, hf[k % 4], false); c.img.pat = 3; c.img.w = r.range(24, 60); c.img.h = r.range(24, 60);
    p.calls.push_back(c); i64 at = (i64)SHARD * 6;
    bool wide = k == 0 || k == 3; for (int q = 0; q < (wide ? 6 : 1); q++) { FaultSet f; f.kind = AFault::SINGLE; f.a = wide ? (at + q) % 48 : -1 - (i64)SHARD; p.faults.push_back(f); }
    return p;
  }
  int fn = pick_fn(r, index);
  p.calls.push_back(gen_call(r, fn, r.chance(45)));
  p.variant = r.chance(25) ? 1 : 0;
  int nf = heavy(fn) ? (int)r.range(1, 2) : (int)r.range(2, 8);
  i64 base = (i64)r.below(24);
  for (int k = 0; k < nf; k++) p.faults.push_back(gen_fault(r, (int)(base + k)));
  return p;
}
static void tweak_call(Call &c, Rng &r) {
  Call o = gen_call(r, (int)c.fn, r.chance(50));
  switch (r.below(7)) {
  case 0: c.img.seed = o.img.seed; break;
  case 1: c.img.pat = o.img.pat; break;
  case 2: if (c.fn != CROP && c.fn != WATERSHED) { c.img.w = o.img.w; c.img.h = o.img.h; if (c.fn == RESIZE) { c.d[0] = std::min(c.d[0], 2.0); c.d[1] = std::min(c.d[1], 2.0); } if (c.fn >= DILATE && c.fn <= OPEN) c.p[0] = std::min<i64>(c.p[0], 3); } else c = o; break;
  case 3: if (c.fn != CROP) { i64 k = c.img.w; c.img.w = c.img.h; c.img.h = k; if (c.fn == WATERSHED) for (auto &p : c.pts) std::swap(p.x, p.y); } break;
  case 4: if (c.fn != CROP && c.fn != WATERSHED && !heavy((int)c.fn)) { if (c.img.w * c.img.h < 4000) { c.img.w += r.range(0, 2); c.img.h += r.range(0, 2); } } break;
  case 5: { int fn = (int)c.fn; ImgSpec im = c.img; if (fn != CROP && fn != WATERSHED) { c = o; c.img = im; if (fn == RESIZE) while (im.w * c.d[0] * im.h * c.d[1] > 40000) { c.d[0] /= 2; c.d[1] /= 2; } if (fn == BLUR && im.w * im.h > 2500) c.d[0] = std::min(c.d[0], 8.0); if (fn <= OPEN) c.p[0] = std::min<i64>(c.p[0], 3); } else c = o; break; }
  default: c = o;
  }
}
void mutate_lib(Plan &p, Rng &r) {
  p.junk = 1 + r.below(1000); p.junk2 = 1001 + r.below(1000);
  if (p.prop == "C04") {
    if (r.chance(60)) { for (auto &s : p.slots) if (r.chance(30)) { s.quantum = std::max<i64>(1, s.quantum + r.range(-20, 20)); s.next = (i64)r.below(p.threads.size()); } }
    if (r.chance(50)) { auto &t = p.threads[r.below(p.threads.size())]; if (!t.calls.empty()) tweak_call(t.calls[r.below(t.calls.size())], r); }
    return;
  }
  if (p.calls.empty()) return;
  int n = (int)r.range(1, 2);
  for (int k = 0; k < n; k++) tweak_call(p.prop == "C05" && r.chance(60) ? p.calls.back() : p.calls[r.below(p.calls.size())], r);
  if (p.prop == "C05") { p.variant = (i64)r.below(3); return; }
  if (r.chance(50)) for (auto &f : p.faults) f = gen_fault(r, -1);
}
