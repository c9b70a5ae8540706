// Workload images and files, and the independent decoder used as oracle.
#define STB_IMAGE_STATIC
#define STB_IMAGE_WRITE_STATIC
#define STB_IMAGE_IMPLEMENTATION
#define STB_IMAGE_WRITE_IMPLEMENTATION
#include "third_party/stb_image.h"
#include "third_party/stb_image_write.h"
#include "plan.h"
#include <stdexcept>
#include <cmath>
#include <algorithm>

static inline u8 clamp8(double v) { return v < 0 ? 0 : v > 255 ? 255 : (u8)v; }

string make_image(const ImgSpec &s, i64 ch) {
  i64 w = std::max<i64>(1, s.w), h = std::max<i64>(1, s.h);
  string px((size_t)(w * h * ch), 0);
  Rng r(s.seed * 31 + (u64)s.pat);
  i64 pat = s.pat % 20;
  u8 c0[4], c1[4];
  for (int k = 0; k < 4; k++) { c0[k] = (u8)r.below(256); c1[k] = (u8)r.below(256); }
  if (ch == 4 && r.chance(70)) c0[3] = c1[3] = 255;
  if (r.chance(25)) { for (int k = 0; k < 3; k++) { c0[k] = 0; c1[k] = 255; } }
  // quadrilateral for the document pattern
  double qx[4], qy[4]; double fx = w, fy = h;
  double m = 0.05 + 0.3 * r.unit();
  double jx[4], jy[4]; for (int k = 0; k < 4; k++) { jx[k] = (r.unit() - 0.5) * 0.2; jy[k] = (r.unit() - 0.5) * 0.2; }
  qx[0] = fx * (m + jx[0]); qy[0] = fy * (m + jy[0]); qx[1] = fx * (1 - m + jx[1]); qy[1] = fy * (m + jy[1]);
  qx[2] = fx * (1 - m + jx[2]); qy[2] = fy * (1 - m + jy[2]); qx[3] = fx * (m + jx[3]); qy[3] = fy * (1 - m + jy[3]);
  i64 bx = (i64)r.below((u64)w), by = (i64)r.below((u64)h), bw = 1 + (i64)r.below((u64)w), bh = 1 + (i64)r.below((u64)h);
  i64 cell = 1 + (i64)r.below(6);
  for (i64 y = 0; y < h; y++)
    for (i64 x = 0; x < w; x++) {
      u8 v[4]; memcpy(v, c0, 4);
      switch (pat) {
      case 0: for (int k = 0; k < 4; k++) v[k] = (u8)r.next(); break;                                   // noise
      case 1: break;                                                                                     // constant
      case 2: for (int k = 0; k < 3; k++) v[k] = clamp8(255.0 * (k == 1 ? y : x) / std::max<i64>(1, (k == 1 ? h : w) - 1)); break;
      case 3: {                                                                                          // document
        bool in = true; for (int k = 0; k < 4; k++) { int n = (k + 1) & 3; if ((qx[n] - qx[k]) * (y - qy[k]) - (qy[n] - qy[k]) * (x - qx[k]) < 0) in = false; }
        int base = in ? 225 : 40; for (int k = 0; k < 3; k++) v[k] = clamp8(base + (int)r.below(8)); v[3] = 255; break; }
      case 4: if (((x / cell) + (y / cell)) & 1) memcpy(v, c1, 4); break;                                // checkerboard
      case 5: if (r.chance(50)) memcpy(v, c1, 4); break;                                                 // two colours
      case 6: if (x >= bx && x < bx + bw && y >= by && y < by + bh) { for (int k = 0; k < 3; k++) v[k] = (u8)r.next(); } break;  // noise in a uniform border
      case 7: if (x >= bx) memcpy(v, c1, 4); break;
      case 8: { u8 g = r.chance(50) ? 255 : 0; v[0] = v[1] = v[2] = g; v[3] = 255; break; }             // binary noise
      case 9: { u8 g = (u8)r.next(); v[0] = v[1] = v[2] = g; break; }                                    // gray noise
      case 10: if (x == bx && y == by) memcpy(v, c1, 4); break;                                          // single pixel
      case 11: for (int k = 0; k < 3; k++) v[k] = clamp8(c0[k] + (int)r.below(5) - 2); break;           // nearly constant
      case 12: { u8 g = r.chance(90) ? 255 : 0; v[0] = v[1] = v[2] = g; v[3] = 255; break; }
      case 13: { double t = 127 + 127 * sin(x * 0.7 + y * 0.3); v[0] = clamp8(t); v[1] = clamp8(255 - t); v[2] = clamp8(t / 2); break; }
      case 14: { u8 g = r.chance(3) ? 255 : 0; v[0] = v[1] = v[2] = g; v[3] = 255; break; }
      case 15: { u8 g = (x >= bx && x < bx + bw && y >= by && y < by + bh) ? 255 : 0; v[0] = v[1] = v[2] = g; v[3] = 255; break; }
      }
      if (pat >= 16) {   // noise framed by lines that are (nearly) of one colour each
        bool in = x >= bx && x < bx + bw && y >= by && y < by + bh; bool side = x < bx || x >= bx + bw;
        if (in) for (int k = 0; k < 4; k++) v[k] = (u8)r.next();
        else if (pat == 16) { int k = (int)(s.seed % 4), n = 1 + (int)(s.seed % 9); v[k] = clamp8(v[k] + (int)r.below((u64)n) - n / 2); }       // one channel wavers
        else if (pat == 17) { if (r.chance(10)) { int k = s.seed & 1 ? 3 : (int)(s.seed / 2 % 3); v[k] = (u8)(v[k] ^ 0x0c); } }                                     // rare odd pixels
        else if (pat == 18) { for (int k = 0; k < 3; k++) v[k] = (u8)(c0[k] + 37 * (side ? x : y)); }                                          // another colour in every line
        else { if (side ? (x & 1) : (y & 1)) memcpy(v, c1, 4); }
      }
      size_t o = (size_t)((y * w + x) * ch);
      for (i64 k = 0; k < ch; k++) px[o + (size_t)k] = (char)v[k & 3];
    }
  return px;
}

static void to_string(void *ctx, void *data, int n) { ((string *)ctx)->append((char *)data, (size_t)n); }
static void be32(string &s, u32 v) { s += (char)(v >> 24); s += (char)(v >> 16); s += (char)(v >> 8); s += (char)v; }
static u32 crc32_(const string &s) { u32 c = 0xffffffffu; for (u8 b : s) { c ^= b; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); } return ~c; }
static void chunk(string &o, const string &type, const string &d) { be32(o, (u32)d.size()); string t = type + d; o += t; be32(o, crc32_(t)); }
static string zstored(const string &d) {
  string o = "\x78\x01"; size_t p = 0;
  do { size_t n = std::min<size_t>(65535, d.size() - p); o += (char)(p + n == d.size()); o += (char)n; o += (char)(n >> 8); o += (char)~n; o += (char)(~n >> 8); o += d.substr(p, n); p += n; } while (p < d.size());
  u32 a = 1, b = 0; for (u8 c : d) { a = (a + c) % 65521; b = (b + a) % 65521; } be32(o, (b << 16) | a); return o;
}
// 8/16-bit, palette and interlaced PNGs, which stb_image_write cannot make
static string raw_png(const string &rgba, i64 w, i64 h, int kind, Rng &r) {
  // kind 0: rgb16, 1: palette, 2: gray 1 bit, 3: rgba interlaced, 4: gray+alpha 8, 5: rgb with tRNS
  static const int x0[7] = {0, 4, 0, 2, 0, 1, 0}, y0[7] = {0, 0, 4, 0, 2, 0, 1}, dx[7] = {8, 8, 4, 4, 2, 2, 1}, dy[7] = {8, 8, 8, 4, 4, 2, 2};
  string o = "\x89PNG\r\n\x1a\n", hd; be32(hd, (u32)w); be32(hd, (u32)h);
  int depth = kind == 0 ? 16 : kind == 2 ? 1 : 8, ct = kind == 0 ? 2 : kind == 1 ? 3 : kind == 2 ? 0 : kind == 3 ? 6 : kind == 4 ? 4 : 2;
  hd += (char)depth; hd += (char)ct; hd += (char)0; hd += (char)0; hd += (char)(kind == 3);
  chunk(o, "IHDR", hd);
  int pn = 256;
  if (r.chance(50)) chunk(o, "tEXt", "Comment\0simulated");
  if (kind == 1) { string pl; pn = r.chance(60) ? 256 : (int)r.range(1, 60); for (int k = 0; k < pn; k++) { pl += (char)r.next(); pl += (char)r.next(); pl += (char)r.next(); } chunk(o, "PLTE", pl); if (r.chance(50)) { string t; for (int k = 0; k < std::min(pn, 40); k++) t += (char)r.next(); chunk(o, "tRNS", t); } }
  if (kind == 5) chunk(o, "tRNS", string("\0\x10\0\x20\0\x30", 6));
  string raw; int filt = (int)r.below(2);
  auto row = [&](i64 y, i64 xs, i64 xd) {
    string l; int acc = 0, nb = 0;
    for (i64 x = xs; x < w; x += xd) {
      const u8 *p = (const u8 *)&rgba[(size_t)((y * w + x) * 4)];
      if (kind == 0) for (int k = 0; k < 3; k++) { l += (char)p[k]; l += (char)(p[k] * 7); }
      else if (kind == 1) l += (char)(p[0] % pn);
      else if (kind == 2) { acc = acc * 2 + (p[0] > 127); if (++nb == 8) { l += (char)acc; acc = nb = 0; } }
      else if (kind == 3) l.append((const char *)p, 4);
      else if (kind == 4) { l += (char)p[0]; l += (char)p[3]; }
      else l.append((const char *)p, 3);
    }
    if (nb) l += (char)(acc << (8 - nb));
    if (l.empty()) return;
    int bpp = kind == 0 ? 6 : kind == 3 ? 4 : kind == 4 ? 2 : kind == 5 ? 3 : 1;
    if (filt) { raw += (char)1; for (size_t k = 0; k < l.size(); k++) raw += (char)((u8)l[k] - (k >= (size_t)bpp ? (u8)l[k - bpp] : 0)); }
    else { raw += (char)0; raw += l; }
  };
  if (kind == 3) { for (int ps = 0; ps < 7; ps++) for (i64 y = y0[ps]; y < h; y += dy[ps]) row(y, x0[ps], dx[ps]); }
  else for (i64 y = 0; y < h; y++) row(y, 0, 1);
  string z = zstored(raw);
  if (r.chance(40)) { size_t m = z.size() / 2; chunk(o, "IDAT", z.substr(0, m)); chunk(o, "IDAT", z.substr(m)); } else chunk(o, "IDAT", z);
  chunk(o, "IEND", ""); return o;
}
static string gif_file(const string &rgba, i64 w, i64 h, Rng &r) {
  string o = "GIF89a"; auto le = [&](i64 v) { o += (char)v; o += (char)(v >> 8); };
  le(w); le(h); o += (char)0xF6; o += (char)0; o += (char)0;   // 128 colours
  for (int k = 0; k < 384; k++) o += (char)r.next();
  o += ','; le(0); le(0); le(w); le(h); o += (char)0; o += (char)7;
  string bits; u32 acc = 0; int nb = 0; auto put = [&](int c) { acc |= (u32)c << nb; nb += 8; while (nb >= 8) { bits += (char)acc; acc >>= 8; nb -= 8; } };
  int since = 0; put(128);
  for (i64 i = 0; i < w * h; i++) { if (++since > 120) { put(128); since = 1; } put((u8)rgba[(size_t)i * 4] >> 1); }
  put(129);
  for (size_t p = 0; p < bits.size(); p += 255) { size_t n = std::min<size_t>(255, bits.size() - p); o += (char)n; o += bits.substr(p, n); }
  o += (char)0; o += ';'; return o;
}
static string exif_segment(i64 orient, i64 ex, Rng &r) {
  bool le = ex & 1; string t;
  auto u16 = [&](u32 v) { if (le) { t += (char)v; t += (char)(v >> 8); } else { t += (char)(v >> 8); t += (char)v; } };
  auto u32_ = [&](u32 v) { if (le) { u16(v & 0xffff); u16(v >> 16); } else { u16(v >> 16); u16(v & 0xffff); } };
  t += le ? "II" : "MM"; u16(42);
  u32 off = (ex & 2) ? 8 + (u32)(2 * r.below(20)) : 8; u32_(off);
  while (t.size() < off) t += (char)r.next();
  int before = (ex & 4) ? (int)r.below(5) : 0, after = (ex & 8) ? (int)r.below(4) : 0;
  bool have = !(ex & 16);
  u16((u32)(before + after + (have ? 1 : 0)));
  for (int k = 0; k < before; k++) { u16(0x0100 + (u32)k); u16(3); u32_(1); u32_((u32)r.next()); }
  if (have) { u16(0x0112); u16(3); u32_(1); u16((u32)orient); u16(0); }
  for (int k = 0; k < after; k++) { u16(0x0200 + (u32)k); u16(4); u32_(1); u32_((u32)r.next()); }
  u32_(0);
  string body = string("Exif\0\0", 6) + t; string o = "\xFF\xE1"; o += (char)((body.size() + 2) >> 8); o += (char)(body.size() + 2); return o + body;
}
static string segment(u8 m, const string &body) { string o = "\xFF"; o += (char)m; o += (char)((body.size() + 2) >> 8); o += (char)(body.size() + 2); return o + body; }
static string with_exif(const string &jpg, i64 orient, i64 ex, u64 seed) {
  Rng r(seed * 77 + (u64)ex);
  string ins;
  if (ex & 32) ins += segment(0xFE, "a comment of some length " + string((size_t)r.below(200), 'c'));
  if (ex & 64) ins += segment(0xE1, "http://ns.adobe.com/xap/1.0/" + string(1, 0) + string((size_t)r.below(300), 'x'));
  if (ex & 128) ins += segment(0xE0 + 13, string((size_t)r.below(5000), 'p'));
  ins += exif_segment(orient, ex, r);
  size_t at = 2;
  if (ex & 256 && jpg.size() > 20 && (u8)jpg[3] == 0xE0) at = 2 + 2 + ((u8)jpg[4] << 8 | (u8)jpg[5]);  // after JFIF
  return jpg.substr(0, at) + ins + jpg.substr(at);
}
#include "formats.h"
// fmt: 0 png, 1 jpg, 2 bmp, 3 tga, 4 ppm, 5..10 unusual png, 11 gif, 12 pgm, 13 jpg low quality, 14.. see names in cli.cpp
string make_file(const CliPlan &c) {
  i64 w = std::max<i64>(1, c.img.w), h = std::max<i64>(1, c.img.h);
  string rgba = make_image(c.img, 4), o; Rng r(c.img.seed ^ 99);
  int nc = (int)std::min<i64>(4, std::max<i64>(1, c.ncomp));
  string px; for (i64 i = 0; i < w * h; i++) { const char *p = &rgba[(size_t)i * 4]; if (nc == 2) { px += p[0]; px += p[3]; } else px.append(p, (size_t)nc); }
  switch (c.fmt) {
  case 1: case 13:
    stbi_write_jpg_to_func(to_string, &o, (int)w, (int)h, nc == 2 ? 1 : nc, nc == 2 ? rgba.data() : px.data(), c.fmt == 13 ? 40 : 92);
    if (c.orient || c.exif) o = with_exif(o, c.orient, c.exif, c.img.seed);
    break;
  case 2: stbi_write_bmp_to_func(to_string, &o, (int)w, (int)h, nc, px.data()); break;
  case 3: stbi_write_tga_to_func(to_string, &o, (int)w, (int)h, nc, px.data()); break;
  case 4: { char t[64]; snprintf(t, 64, "P6\n%lld %lld\n255\n", (long long)w, (long long)h); o = t; for (i64 i = 0; i < w * h; i++) o.append(&rgba[(size_t)i * 4], 3); break; }
  case 12: { char t[64]; snprintf(t, 64, "P5\n%lld %lld\n255\n", (long long)w, (long long)h); o = t; for (i64 i = 0; i < w * h; i++) o += rgba[(size_t)i * 4]; break; }
  case 5: case 6: case 7: case 8: case 9: case 10: o = raw_png(rgba, w, h, (int)c.fmt - 5, r); break;
  case 11: o = gif_file(rgba, w, h, r); break;
  case 14: o = formats::psd(rgba, w, h, r); break;
  case 15: o = formats::pic(rgba, w, h, r); break;
  case 16: o = formats::hdr(rgba, w, h, r); break;
  case 17: o = formats::tga(rgba, w, h, r); break;
  case 18: o = formats::bmp(rgba, w, h, r); break;
  case 19: case 20: o = formats::Jpeg(r, w, h, c.fmt == 19).make(); if (c.orient || c.exif) o = with_exif(o, c.orient, c.exif, c.img.seed); break;
  case 21: o = formats::png(rgba, w, h, r); break;
  case 22: o = formats::gif(rgba, w, h, r); break;
  case 23: o = formats::pnm16(rgba, w, h, r); break;
  default: stbi_write_png_to_func(to_string, &o, (int)w, (int)h, nc, px.data(), (int)w * nc);
  }
  return o;
}
// chunks of a PNG, segments of a JPEG, otherwise the head of the file: {start, body, end}
struct Part { size_t at, body, end; };
static vector<Part> parts(const string &f) {
  vector<Part> v; const u8 *b = (const u8 *)f.data(); size_t n = f.size();
  if (n > 8 && b[0] == 0x89) { size_t p = 8; while (p + 12 <= n) { size_t l = (size_t)b[p] << 24 | (size_t)b[p + 1] << 16 | (size_t)b[p + 2] << 8 | b[p + 3]; if (l > n || p + 12 + l > n) break; v.push_back({p, p + 8, p + 8 + l}); p += 12 + l; } }
  else if (n > 4 && b[0] == 0xFF && b[1] == 0xD8) { size_t p = 2; while (p + 4 <= n && b[p] == 0xFF) { size_t l = (size_t)b[p + 2] << 8 | b[p + 3]; if (l < 2 || p + 2 + l > n) break; v.push_back({p, p + 4, p + 2 + l}); bool sos = b[p + 1] == 0xDA; p += 2 + l; if (sos) break; } }
  else if (n > 13 && !memcmp(b, "GIF8", 4)) {   // header with screen, palette, extensions, image descriptor, sub-blocks
    size_t p = 13; v.push_back({0, 6, 13}); if (b[10] & 0x80) { size_t l = (size_t)3 << ((b[10] & 7) + 1); v.push_back({p, p, std::min(n, p + l)}); p += l; }
    while (p + 1 < n && v.size() < 60) {
      size_t s = p; if (b[p] == 0x21) p += 2; else if (b[p] == ',' && p + 10 < n) { u8 fl = b[p + 9]; p += 10; v.push_back({s, s + 1, p}); if (fl & 0x80) { size_t l = (size_t)3 << ((fl & 7) + 1); v.push_back({p, p, std::min(n, p + l)}); p += l; } s = p; p++; } else break;
      while (p < n && b[p] && v.size() < 60) { size_t e = std::min(n, p + 1 + b[p]); v.push_back({s, p + 1, e}); s = p = e; }
      p++;
    }
  }
  if (v.empty()) v.push_back({0, 0, std::min<size_t>(n, 60)});
  return v;
}
// a GIF whose clear codes got lost: only plain codes, far more than the code table has room for
static bool gif_codes(string &f, u64 h, size_t count) {
  if (f.size() < 14 || f.compare(0, 4, "GIF8")) return false;
  size_t p = 13 + (((u8)f[10] & 0x80) ? (size_t)3 << (((u8)f[10] & 7) + 1) : 0);
  while (p + 2 < f.size() && f[p] == 0x21) { p += 2; while (p < f.size() && f[p]) p += 1 + (u8)f[p]; p++; }
  if (p + 11 > f.size() || f[p] != ',') return false;
  u8 fl = (u8)f[p + 9]; p += 10 + ((fl & 0x80) ? (size_t)3 << ((fl & 7) + 1) : 0); if (p >= f.size()) return false;
  int mcs = (u8)f[p]; if (mcs < 2 || mcs > 8) return false;
  string bits; u32 acc = 0; int nb = 0, cs = mcs + 1, avail = (1 << mcs) + 2; auto put = [&](u32 c) { acc |= c << nb; nb += cs; while (nb >= 8) { bits += (char)acc; acc >>= 8; nb -= 8; } };
  put(1u << mcs); bool first = true; int style = (int)(h % 3);
  for (size_t i = 0; i < count; i++) {
    u64 x = mix64(h, i); u32 c = style == 0 ? (u32)(x % (1u << mcs)) : style == 1 ? 0 : (u32)(x % 8 ? x % (1u << mcs) : (x >> 8) % (u64)std::min(avail + (first ? 0 : 1), 4096));
    if (first && c >= (1u << mcs)) c = 1; if (c == (1u << mcs) || c == (1u << mcs) + 1) c = 0;
    put(c); if (!first) { avail++; } first = false; if ((avail & ((1 << cs) - 1)) == 0 && avail <= 0x0fff) cs++;
  }
  put((1u << mcs) + 1); if (nb) bits += (char)acc;
  f.resize(p + 1); for (size_t q = 0; q < bits.size(); q += 255) { size_t n = std::min<size_t>(255, bits.size() - q); f += (char)n; f += bits.substr(q, n); } f += (char)0; f += ';';
  return true;
}
static void structural(string &f, const Damage &d) {
  vector<Part> ps = parts(f); u64 h = mix64((u64)d.val, 77); const Part pt = ps[(size_t)d.pos % ps.size()];
  bool png = (u8)f[0] == 0x89 && ps[0].end > ps[0].body && ps[0].at >= 8, jpg = (u8)f[0] == 0xFF && ps[0].at >= 2;
  size_t len = (size_t)std::max<i64>(0, d.len);
  string noise; for (size_t i = 0; i < len; i++) noise += (char)((h >> 40) % 3 == 0 ? (int)(mix64(h, i) % 4) : (int)mix64(h, i));
  auto make = [&](const string &type, u8 marker, const string &body) {
    if (png) { string o; chunk(o, type, body); return o; }
    string o = "\xFF"; o += (char)marker; o += (char)((body.size() + 2) >> 8); o += (char)(body.size() + 2); return o + body;
  };
  switch (d.kind) {
  case 15: {  // a deflate stream whose block header is consistent, but describes odd codes
    if (!png) { Damage e = d; e.kind = 9; structural(f, e); break; }
    vector<Part> ids; for (auto &q : ps) if (!f.compare(q.at + 4, 4, "IDAT")) ids.push_back(q);
    if (ids.empty()) break;
    const Part q = ids[(size_t)d.pos % ids.size()]; string o = "\x78\x01"; u32 acc = 0; int nb = 0;
    auto put = [&](u32 v, int n) { for (int i = 0; i < n; i++) { acc |= (v >> i & 1) << nb; if (++nb == 8) { o += (char)acc; acc = 0; nb = 0; } } };
    u64 x = mix64(h, 5); int type = x % 10 < 8 ? 2 : (int)(x >> 8) % 4; put((x >> 16) & 1, 1); put((u32)type, 2);
    int hl = (x >> 20) % 3 ? (int)(x >> 24) % 32 : 0, hd = (x >> 30) % 3 ? (int)(x >> 32) % 32 : 0, hc = (x >> 40) % 3 ? 15 : (int)(x >> 44) % 16;
    if (type == 2) {
      put((u32)hl, 5); put((u32)hd, 5); put((u32)hc, 4); int len[19] = {0}, n = hc + 4; u64 y = mix64(h, 6);
      static const int sets[5][8] = {{1, 1}, {1, 2, 2}, {2, 2, 2, 2}, {1, 2, 3, 3}, {3, 3, 3, 3, 3, 3, 3, 3}};
      const int *t = sets[y % 5]; int want = y % 5 == 4 ? 8 : y % 5 == 1 ? 3 : y % 5 == 0 ? 2 : 4; for (int i = 0, tries = 0; i < want && tries < 99; tries++) { int k = (int)(mix64(y, (u64)tries) % (u64)n); if (!len[k]) len[k] = t[i++]; }
      if (y >> 20 & 1) len[mix64(y, 100) % (u64)n] = (int)(y >> 24) % 8;
      for (int i = 0; i < n; i++) put((u32)len[i], 3);
    }
    size_t rest = 8 + (x >> 50) % 300; for (size_t i = 0; i < rest; i++) put((u32)mix64(h, 1000 + i) & ((x >> 18 & 1) ? (u32)mix64(h, 5000 + i) : 255u), 8);
    if (nb) put(0, 8 - nb);
    if (x >> 60 & 1) o += f.substr(q.body + std::min<size_t>(q.end - q.body, 40), q.end > q.body + 40 ? q.end - q.body - 40 : 0);
    string c; chunk(c, "IDAT", o); f.replace(q.at, std::min(f.size(), q.end + 4) - q.at, c);
    break; }
  case 14: {  // a list inside a part has another number of entries than allowed, and the count and length fields agree with that
    if (png) {   // header fields, palette and transparency that are legal by themselves, but do not belong together
      const Part i = ps[0]; if (i.end - i.body < 13) break;
      string hd = f.substr(i.body, 13), add, plc, ih; static const u8 depths[] = {1, 2, 4, 8, 16, 16, 16}, colors[] = {0, 2, 3, 4, 6};
      u64 x = mix64(h, 8); int mode = (int)(mix64(h, 9) % 5);   // 0 header, 1 palette, 2 transparency, else any mixture
      bool head = mode == 0 || mode > 2, pal = mode == 1 || mode > 2, tra = mode == 2 || mode > 2;
      if (head && (x & 1)) hd[8] = (char)depths[(x >> 8) % 7];
      if (head && (x & 2)) hd[9] = (char)colors[(x >> 16) % 5];
      if (head && (x & 12) == 0) hd[12] ^= 1;
      if (head && (x & 16)) { u32 v = 1 + (u32)(x >> 24) % 9; hd[4] = hd[5] = hd[6] = 0; hd[7] = (char)std::min<u32>(v, (u8)hd[7] ? (u8)hd[7] : 9); }
      static const int chans[] = {1, 1, 3, 1, 2, 1, 4}, counts[] = {0, 1, 2, 3, 4, 30, 255 * 3, 256 * 3, 256 * 3 + 1, 257 * 3};
      if (tra && (mode == 2 || (x >> 32) % 3 == 0)) { string t; size_t n = (x & 32) ? (size_t)chans[(u8)hd[9] % 7] * 2 : (size_t)(x >> 36) % 20; for (size_t k = 0; k < n; k++) t += (char)(mix64(x, k) % 3 ? 0 : mix64(h, k)); chunk(add, "tRNS", t); }
      if (pal && (x >> 40) % 4 == 0) { string t; for (int k = 0; k < counts[(x >> 44) % 10]; k++) t += (char)mix64(h, (u64)k); chunk(plc, "PLTE", t); }
      if (pal && (mode == 1 || (x >> 50) % 4 == 0)) for (size_t k = ps.size(); k-- > 1;) if (!f.compare(ps[k].at + 4, 4, "PLTE") || ((x >> 54 & 1) && !f.compare(ps[k].at + 4, 4, "tRNS"))) f.erase(ps[k].at, std::min(f.size(), ps[k].end + 4) - ps[k].at);
      chunk(ih, "IHDR", hd); f.replace(i.at, std::min(f.size(), i.end + 4) - i.at, ih + plc);
      if (!add.empty()) { vector<Part> now = parts(f); for (auto &q : now) if (!f.compare(q.at + 4, 4, (x >> 56) % 3 ? "IDAT" : "PLTE")) { f.insert(q.at, add); break; } }
      break;
    }
    if (!jpg) { Damage e = d; e.kind = 9; structural(f, e); break; }
    vector<Part> lists; for (auto &q : ps) { u8 m = (u8)f[q.at + 1]; if (m == 0xDA || m == 0xC0 || m == 0xC1 || m == 0xC2 || m == 0xDB || m == 0xC4) lists.push_back(q); }
    if (lists.empty()) break;
    const Part q = lists[(size_t)d.pos % lists.size()]; u8 m = (u8)f[q.at + 1]; string body = f.substr(q.body, q.end - q.body), nb;
    size_t want = (h >> 12) % 3 ? (h >> 14) % 9 : (h >> 14) % 256;
    if (m == 0xDA && body.size() >= 6) { size_t n = (u8)body[0]; if (1 + 2 * n + 3 > body.size()) break; nb += (char)want; for (size_t i = 0; i < want; i++) nb += n ? body.substr(1 + 2 * ((h >> 30 & 1) ? i % n : 0), 2) : string("\1\0", 2); nb += body.substr(1 + 2 * n); }
    else if (m < 0xC4 && body.size() >= 9) { size_t n = (u8)body[5]; if (6 + 3 * n > body.size() || !n) break; if ((h >> 33) % 3 == 0) { nb = body; for (size_t i = 0; i < n; i++) { u64 x = mix64(h, i); if (x & 1) nb[7 + 3 * i] = (char)((x >> 8) % 6 << 4 | (x >> 16) % 6); if ((x & 14) == 0) nb[8 + 3 * i] = (char)((x >> 24) % 6); if ((x & 112) == 0) nb[6 + 3 * i] = (char)((x >> 32) % 5); } f.replace(q.at, q.end - q.at, make("", m, nb)); break; } nb = body.substr(0, 5); nb += (char)want; for (size_t i = 0; i < want; i++) { string t = body.substr(6 + 3 * (i % n), 3); if (h >> 30 & 1) t[0] = (char)(i + 1); nb += t; } }
    else if (m == 0xDB) { for (size_t i = 0; i + 65 <= body.size() && nb.size() < 20000; i += 65) for (size_t k = 0; k <= want % 20; k++) { string t = body.substr(i, 65); t[0] = (char)((u8)t[0] + k); nb += t; } }
    else { nb = body; size_t at = 0; while (at + 17 <= body.size()) { size_t n = 0; for (int k = 1; k <= 16; k++) n += (u8)body[at + (size_t)k]; if (at + 17 + n > body.size()) break; string t = body.substr(at, 17 + n); t[0] = (char)(h >> 40); if (want % 3 == 0 && n) { t[1 + (h >> 48) % 16]++; t += t.back(); } nb += t; at += 17 + n; } }
    f.replace(q.at, q.end - q.at, make("", m, nb));
    break; }
  case 13: {  // much more data of the same kind than there should be
    if (gif_codes(f, h, len * (1 + (h >> 20) % 60))) break;
    string t = f.substr(pt.body, pt.end - pt.body); if (t.empty()) t = noise; string rep; size_t k = 1 + (h >> 20) % 400; while (k-- && rep.size() < 100000) rep += t; f.insert(pt.end, rep);
    break; }
  case 9: {   // a 1, 2 or 4 byte field of the part takes an unusual value
    static const u32 odd[] = {0, 1, 2, 3, 7, 8, 9, 16, 17, 63, 64, 127, 128, 255, 256, 257, 1024, 4096, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff0u};
    u32 v = odd[h % 26]; size_t w = (size_t)1 << ((h >> 8) % 3); size_t span = pt.end - pt.at; if (span > 40) span = 40; size_t p = pt.at + (h >> 16) % std::max<size_t>(1, span); bool be = (h >> 30) & 1;
    for (size_t i = 0; i < w && p + i < f.size(); i++) f[p + i] = (char)(v >> (8 * (be ? w - 1 - i : i)));
    break; }
  case 10: {  // an extra part of another kind and any length
    if (!png && !jpg) { f.insert(pt.end, noise); break; }
    static const char *types[] = {"tRNS", "PLTE", "IDAT", "IHDR", "IEND", "tEXt", "CgBI", "gAMA", "zzZz"}; static const u8 marks[] = {0xC4, 0xDB, 0xC0, 0xC2, 0xDD, 0xDA, 0xE0, 0xE1, 0xEE, 0xFE, 0xD0, 0xD9, 0xC1};
    f.insert((h >> 5) & 1 ? pt.at : std::min(f.size(), png ? pt.end + 4 : pt.end), make(types[(h >> 8) % 9], marks[(h >> 8) % 13], noise));
    break; }
  case 11: {  // a part is repeated elsewhere, or lost
    size_t e = std::min(f.size(), png ? pt.end + 4 : pt.end); string t = f.substr(pt.at, e - pt.at);
    if (h & 1) f.erase(pt.at, e - pt.at); else { const Part q = ps[(h >> 4) % ps.size()]; f.insert(q.at, t); }
    break; }
  case 12: {  // a part has another length than it should, with a matching length field
    size_t e = std::min(f.size(), png ? pt.end + 4 : pt.end); string body = f.substr(pt.body, pt.end - pt.body), type = png ? f.substr(pt.at + 4, 4) : "";
    if (h & 1) body += noise; else body.resize(std::min(body.size(), len)); if (body.size() > 60000) body.resize(60000);
    if (png || jpg) f.replace(pt.at, e - pt.at, make(type, jpg ? (u8)f[pt.at + 1] : 0, body)); else f.replace(pt.at, pt.end - pt.at, body);
    break; }
  }
}
string apply_damage(string f, const vector<Damage> &ds) {
  for (auto &d : ds) {
    if (f.empty()) break;
    size_t p = (size_t)d.pos % f.size(), n = (size_t)std::max<i64>(1, d.len);
    size_t e = std::min(f.size(), p + n);
    if (d.kind >= 9) { string g = f; try { structural(f, d); } catch (const std::out_of_range &) { f = g; } if (f.size() > (1 << 22)) f.resize(1 << 22); continue; }
    switch (d.kind % 9) {
    case 0: for (size_t i = p; i < e; i++) f[i] = (char)((u8)f[i] ^ (1 << ((u64)d.val % 8))); break;
    case 1: f.resize(p); break;                                        // cut off
    case 2: f.erase(p, n); break;                                      // lost
    case 3: f.insert(p, f.substr(p, std::min<size_t>(n, 4096))); break; // duplicated
    case 4: for (size_t i = p; i < e; i++) f[i] = 0; break;
    case 5: for (size_t i = p; i < e; i++) f[i] = (char)d.val; break;
    case 6: for (size_t i = p; i < e; i++) f[i] = (char)mix64((u64)d.val, i); break;
    case 7: { size_t s = p & ~(size_t)511; for (size_t i = s; i < std::min(f.size(), s + 512); i++) f[i] = 0; break; }  // lost sector
    case 8: { size_t q = (size_t)d.val % f.size(); string t = f.substr(q, std::min<size_t>(n, 2048)); f.replace(p, std::min(t.size(), f.size() - p), t); break; }  // misplaced
    }
    if (f.size() > (1 << 22)) f.resize(1 << 22);
  }
  return f;
}
Pixels decode_rgba(const string &f) {
  Pixels p; int w = 0, h = 0, n = 0;
  u8 *d = stbi_load_from_memory((const u8 *)f.data(), (int)f.size(), &w, &h, &n, 4);
  if (!d || w < 1 || h < 1) { free(d); return p; }
  p.ok = true; p.w = w; p.h = h; p.px.assign((char *)d, (size_t)w * (size_t)h * 4); free(d); return p;
}
string encode_jpeg90(const Pixels &p) { string o; stbi_write_jpg_to_func(to_string, &o, (int)p.w, (int)p.h, 4, p.px.data(), 90); return o; }

// EXIF orientation according to the EXIF/TIFF structure (independent of the code under test); -1: none
int my_exif_orientation(const string &f) {
  const u8 *b = (const u8 *)f.data(); size_t n = f.size(), p = 2;
  if (n < 4 || b[0] != 0xFF || b[1] != 0xD8) return -1;
  while (p + 4 <= n && b[p] == 0xFF) {
    u8 m = b[p + 1]; if (m == 0xD9 || m == 0xDA) return -1;
    size_t len = (size_t)(b[p + 2] << 8 | b[p + 3]); if (len < 2) return -1;
    if (m == 0xE1 && p + 10 <= n && !memcmp(b + p + 4, "Exif\0\0", 6)) {
      size_t t = p + 10; if (t + 8 > n) return -1;
      bool le = b[t] == 'I';
      auto r16 = [&](size_t q) -> u32 { if (q + 2 > n) return 0; return le ? b[q] | b[q + 1] << 8 : b[q] << 8 | b[q + 1]; };
      auto r32 = [&](size_t q) -> u32 { return le ? r16(q) | r16(q + 2) << 16 : r16(q) << 16 | r16(q + 2); };
      size_t q = t + r32(t + 4); u32 cnt = r16(q); q += 2;
      for (u32 k = 0; k < cnt; k++, q += 12) if (r16(q) == 0x0112) return (int)r16(q + 8);
      return -1;
    }
    p += 2 + len;
  }
  return -1;
}
Pixels orient_pixels(const Pixels &s, int o) {
  if (!s.ok || o < 2 || o > 8) return s;
  Pixels d; d.ok = true; bool sw = o >= 5; d.w = sw ? s.h : s.w; d.h = sw ? s.w : s.h; d.px.resize(s.px.size());
  for (i64 y = 0; y < d.h; y++)
    for (i64 x = 0; x < d.w; x++) {
      i64 sx, sy;
      switch (o) {
      case 2: sx = s.w - 1 - x; sy = y; break;
      case 3: sx = s.w - 1 - x; sy = s.h - 1 - y; break;
      case 4: sx = x; sy = s.h - 1 - y; break;
      case 5: sx = y; sy = x; break;
      case 6: sx = y; sy = s.h - 1 - x; break;
      case 7: sx = s.w - 1 - y; sy = s.h - 1 - x; break;
      default: sx = s.w - 1 - y; sy = x; break;
      }
      memcpy(&d.px[(size_t)(y * d.w + x) * 4], &s.px[(size_t)(sy * s.w + sx) * 4], 4);
    }
  return d;
}
