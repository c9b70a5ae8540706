// Writers for the input formats and variants stb_image_write cannot make. The pictures are
// derived from the plan's image and seed; what matters is that the files are valid and use every
// part of the decoders.
#pragma once
#include <zlib.h>
namespace formats {
static void le16(string &o, i64 v) { o += (char)v; o += (char)(v >> 8); }
static void le32(string &o, i64 v) { le16(o, v & 0xffff); le16(o, (v >> 16) & 0xffff); }
static void be16(string &o, i64 v) { o += (char)(v >> 8); o += (char)v; }
static string packbits(const string &s, Rng &r) {
  string o; size_t p = 0;
  while (p < s.size()) {
    size_t n = 1; while (p + n < s.size() && s[p + n] == s[p] && n < 128) n++;
    if (n >= 2) { o += (char)(257 - n); o += s[p]; p += n; continue; }
    n = 1; while (p + n < s.size() && n < 128 && !(p + n + 1 < s.size() && s[p + n] == s[p + n + 1])) n++;
    o += (char)(n - 1); o += s.substr(p, n); p += n; if (r.chance(5)) o += (char)128;
  }
  return o;
}
static string psd(const string &px, i64 w, i64 h, Rng &r) {
  int ch = r.chance(40) ? 4 : (int)r.range(3, 5), depth = r.chance(75) ? 8 : 16, rle = depth == 8 && r.chance(55);
  string o = "8BPS"; be16(o, 1); o.append(6, 0); be16(o, ch); be32(o, (u32)h); be32(o, (u32)w); be16(o, depth); be16(o, 3);
  be32(o, 0); u32 res = r.chance(30) ? (u32)r.below(300) : 0; be32(o, res); o.append(res, 'R'); res = r.chance(20) ? (u32)r.below(200) : 0; be32(o, res); o.append(res, 'L'); be16(o, rle);
  string lens, data;
  for (int c = 0; c < ch; c++) for (i64 y = 0; y < h; y++) { string row; for (i64 x = 0; x < w; x++) { u8 v = (u8)px[(size_t)((y * w + x) * 4 + (c & 3))]; if (ch >= 4 && c < 3) v = std::max<u8>(v, (u8)(255 - (u8)px[(size_t)((y * w + x) * 4 + 3)])); /* colours are stored over white: darker ones do not exist */ row += (char)v; if (depth == 16) row += (char)(v * 3); } if (rle) { row = packbits(row, r); be16(lens, (i64)row.size()); } data += row; }
  return o + lens + data;
}
static string pic(const string &px, i64 w, i64 h, Rng &r) {
  string o = "\x53\x80\xF6\x34"; o.append(84, 0); o += "PICT"; be16(o, w); be16(o, h); be32(o, 0); be16(o, 3); be16(o, 0);
  bool alpha = r.chance(50); struct Pk { int type, mask; }; vector<Pk> pk;
  if (r.chance(70)) { pk.push_back({(int)r.below(3), 0xE0}); if (alpha) pk.push_back({(int)r.below(3), 0x10}); } else { for (int m : {0x80, 0x40, 0x20}) pk.push_back({(int)r.below(3), m}); if (alpha) pk.push_back({(int)r.below(3), 0x10}); }
  for (size_t k = 0; k < pk.size(); k++) { o += (char)(k + 1 < pk.size()); o += (char)8; o += (char)pk[k].type; o += (char)pk[k].mask; }
  for (i64 y = 0; y < h; y++) for (auto &q : pk) {
    auto val = [&](i64 x) { string v; for (int c = 0; c < 4; c++) if (q.mask & (0x80 >> c)) v += px[(size_t)((y * w + x) * 4 + c)]; return v; };
    if (q.type == 0) { for (i64 x = 0; x < w; x++) o += val(x); continue; }
    for (i64 x = 0; x < w;) {
      i64 n = 1; while (x + n < w && n < (q.type == 1 ? 255 : 300) && val(x + n) == val(x)) n++;
      if (q.type == 1) { o += (char)n; o += val(x); x += n; continue; }
      if (n == 1) { i64 m = 1; while (x + m < w && m < 100 && (x + m + 1 >= w || val(x + m) != val(x + m + 1))) m++; o += (char)(m - 1); for (i64 k = 0; k < m; k++) o += val(x + k); x += m; }
      else if (n > 128 || r.chance(10)) { o += (char)128; be16(o, n); o += val(x); x += n; }
      else { o += (char)(n + 127); o += val(x); x += n; }
    }
  }
  return o;
}
static string hdr(const string &px, i64 w, i64 h, Rng &r) {
  char t[120]; string o = r.chance(70) ? "#?RADIANCE\n" : "#?RGBE\n"; if (r.chance(50)) o += "# made by a simulator\n"; o += "FORMAT=32-bit_rle_rgbe\n\n"; snprintf(t, 120, "-Y %lld +X %lld\n", (long long)h, (long long)w); o += t;
  bool flat = w < 8 || r.chance(25);
  for (i64 y = 0; y < h; y++) {
    string pl[4]; for (i64 x = 0; x < w; x++) for (int c = 0; c < 4; c++) pl[c] += c < 3 ? px[(size_t)((y * w + x) * 4 + c)] : (char)(u8)(122 + (u8)px[(size_t)((y * w + x) * 4)] % 9);
    if (flat) { for (i64 x = 0; x < w; x++) { if (x == 0 && y == 0 && w >= 8 && (u8)pl[0][0] == 2 && (u8)pl[1][0] == 2) pl[0][0] = 3; for (int c = 0; c < 4; c++) o += pl[c][(size_t)x]; } continue; }
    o += (char)2; o += (char)2; be16(o, w);
    for (int c = 0; c < 4; c++) for (size_t p = 0; p < pl[c].size();) { size_t n = 1; while (p + n < pl[c].size() && n < 127 && pl[c][p + n] == pl[c][p]) n++; if (n > 1) { o += (char)(128 + n); o += pl[c][p]; p += n; } else { size_t m = std::min<size_t>(pl[c].size() - p, 1 + r.below(60)); o += (char)m; o += pl[c].substr(p, m); p += m; } }
  }
  return o;
}
static string tga(const string &px, i64 w, i64 h, Rng &r) {
  int type = (int)r.below(3) + 1; bool rle = r.chance(60), top = r.chance(50); int bpp = type == 1 ? 8 : type == 3 ? (r.chance(70) ? 8 : 16) : r.chance(40) ? 24 : r.chance(60) ? 32 : 16, pbits = r.chance(50) ? 24 : r.chance(50) ? 32 : 16, pn = (int)r.range(1, 256), id = r.chance(30) ? (int)r.below(50) : 0;
  string o; o += (char)id; o += (char)(type == 1); o += (char)(type + (rle ? 8 : 0)); le16(o, type == 1 && r.chance(20) ? (i64)r.below(4) : 0); le16(o, type == 1 ? pn : 0); o += (char)(type == 1 ? pbits : 0); le16(o, 0); le16(o, 0); le16(o, w); le16(o, h); o += (char)bpp; o += (char)(top ? 0x20 : 0);
  i64 skip = type == 1 ? (u8)o[3] : 0; o.append((size_t)id, 'i'); if (type == 1) for (i64 k = 0; k < (skip + pn) * (pbits / 8); k++) o += (char)r.next();
  vector<string> v; for (i64 y = 0; y < h; y++) for (i64 x = 0; x < w; x++) { const u8 *p = (const u8 *)&px[(size_t)((y * w + x) * 4)]; string s; if (type == 1) s += (char)(p[0] % pn); else if (type == 3) { s += (char)p[0]; if (bpp == 16) s += (char)p[3]; } else if (bpp == 16) le16(s, (p[0] >> 3) << 10 | (p[1] >> 3) << 5 | p[2] >> 3); else { s += (char)p[2]; s += (char)p[1]; s += (char)p[0]; if (bpp == 32) s += (char)p[3]; } v.push_back(s); }
  if (!rle) { for (auto &s : v) o += s; return o; }
  for (size_t p = 0; p < v.size();) { size_t n = 1; while (p + n < v.size() && n < 128 && v[p + n] == v[p]) n++; if (n > 1) { o += (char)(127 + n); o += v[p]; p += n; } else { size_t m = std::min<size_t>(v.size() - p, 1 + r.below(30)); o += (char)(m - 1); for (size_t k = 0; k < m; k++) o += v[p + k]; p += m; } }
  return o;
}
static string bmp(const string &px, i64 w, i64 h, Rng &r) {
  static const int bits[] = {1, 4, 8, 8, 16, 24, 32, 32}; int bpp = bits[r.below(8)]; static const int hs_[] = {40, 40, 56, 108, 124, 12}; int hs = hs_[r.below(6)]; if (bpp == 16 || bpp == 32) { if (hs == 12) hs = 40; }
  bool top = hs != 12 && r.chance(30); int comp = (bpp == 16 || bpp == 32) && r.chance(60) ? 3 : 0; int pn = bpp < 16 ? (hs == 12 ? 1 << bpp : (int)r.range(1, 1 << bpp)) : 0; if (bpp == 24 && hs == 12) hs = 40;
  u32 m[4] = {0xff0000, 0xff00, 0xff, 0xff000000u}; if (bpp == 16) { static const u32 a[3][4] = {{0xf800, 0x7e0, 0x1f, 0}, {0x7c00, 0x3e0, 0x1f, 0x8000}, {0xf00, 0xf0, 0xf, 0xf000}}; memcpy(m, a[r.below(3)], sizeof m); if (!comp) { m[0] = 0x7c00; m[1] = 0x3e0; m[2] = 0x1f; m[3] = 0; } } else if (comp && r.chance(50)) { std::swap(m[0], m[2]); }
  string o = "BM"; string d; le32(d, hs); if (hs == 12) { le16(d, w); le16(d, h); le16(d, 1); le16(d, bpp); }
  else { le32(d, w); le32(d, top ? -h : h); le16(d, 1); le16(d, bpp); le32(d, comp); le32(d, 0); le32(d, 2835); le32(d, 2835); le32(d, pn); le32(d, 0);
    if (hs == 56) { for (u32 x : m) le32(d, x); } else if (hs >= 108) { for (u32 x : m) le32(d, x); d.append((size_t)hs - 56, 0); if (hs == 124) {} } else if (comp == 3) for (int k = 0; k < 3; k++) le32(d, m[k]); }
  string pal; for (int k = 0; k < pn; k++) { pal += (char)r.next(); pal += (char)r.next(); pal += (char)r.next(); if (hs != 12) pal += (char)0; }
  string gap(r.chance(20) ? (size_t)r.below(40) : 0, 'g'); i64 off = 14 + (i64)d.size() + (i64)pal.size() + (i64)gap.size();
  string body; for (i64 y = 0; y < h; y++) { string row; int acc = 0, nb = 0; for (i64 x = 0; x < w; x++) { const u8 *p = (const u8 *)&px[(size_t)((y * w + x) * 4)];
      if (bpp < 16) { int v = pn ? p[0] % pn : 0; if (bpp == 8) row += (char)v; else { acc = acc << bpp | v; nb += bpp; if (nb == 8) { row += (char)acc; acc = nb = 0; } } }
      else if (bpp == 24) { row += (char)p[2]; row += (char)p[1]; row += (char)p[0]; } else if (bpp == 16) le16(row, p[0] | p[1] << 8); else { row += (char)p[2]; row += (char)p[1]; row += (char)p[0]; row += (char)p[3]; } }
    if (nb) row += (char)(acc << (8 - nb)); while (row.size() % 4) row += (char)0; body += row; }
  le32(o, off + (i64)body.size()); le32(o, 0); le32(o, off); return o + d + pal + gap + body;
}
static string pnm16(const string &px, i64 w, i64 h, Rng &r) {
  bool col = r.chance(50); int maxv = r.chance(60) ? 65535 : r.chance(50) ? 255 : 300; char t[200]; snprintf(t, 200, "P%d%s%lld %s %lld\n%d\n", col ? 6 : 5, r.chance(50) ? " # a comment\n" : "\n", (long long)w, r.chance(40) ? "\n# another\n" : "", (long long)h, maxv);
  string o = t; for (i64 k = 0; k < w * h; k++) for (int c = 0; c < (col ? 3 : 1); c++) { u8 v = (u8)px[(size_t)(k * 4 + c)]; o += (char)v; if (maxv > 255) o += (char)(v * 5); } return o;
}
// PNG with real compression, all row filters, colour types and depths
static string png(const string &px, i64 w, i64 h, Rng &r) {
  static const int ct_[] = {0, 2, 3, 4, 6}; int ct = ct_[r.below(5)]; static const int d0[] = {1, 2, 4, 8, 16}; int depth = ct == 0 ? d0[r.below(5)] : ct == 3 ? d0[r.below(4)] : r.chance(50) ? 8 : 16; int ch = ct == 0 || ct == 3 ? 1 : ct == 2 ? 3 : ct == 4 ? 2 : 4; bool il = r.chance(35);
  string o = "\x89PNG\r\n\x1a\n", hd; be32(hd, (u32)w); be32(hd, (u32)h); hd += (char)depth; hd += (char)ct; hd += (char)0; hd += (char)0; hd += (char)il; chunk(o, "IHDR", hd);
  int pn = 1 << std::min(depth, 8); if (ct == 3) { if (r.chance(50)) pn = (int)r.range(1, pn); string pl; for (int k = 0; k < 3 * pn; k++) pl += (char)r.next(); chunk(o, "PLTE", pl); if (r.chance(50)) { string t; for (int k = 0; k < (int)r.range(1, pn); k++) t += (char)r.next(); chunk(o, "tRNS", t); } }
  if ((ct == 0 || ct == 2) && r.chance(35)) { string t; for (int c = 0; c < ch; c++) be16(t, (i64)r.below(1u << depth)); chunk(o, "tRNS", t); }
  if (r.chance(20)) { string z = "note"; z += (char)0; z += "text"; chunk(o, "tEXt", z); }
  static const int x0[7] = {0, 4, 0, 2, 0, 1, 0}, y0[7] = {0, 0, 4, 0, 2, 0, 1}, dx[7] = {8, 8, 4, 4, 2, 2, 1}, dy[7] = {8, 8, 8, 4, 4, 2, 2}; string raw; int bpp = std::max(1, ch * depth / 8);
  for (int ps = 0; ps < (il ? 7 : 1); ps++) {
    i64 X0 = il ? x0[ps] : 0, Y0 = il ? y0[ps] : 0, DX = il ? dx[ps] : 1, DY = il ? dy[ps] : 1; if (X0 >= w) continue; string prev;
    for (i64 y = Y0; y < h; y += DY) {
      string l; int acc = 0, nb = 0; for (i64 x = X0; x < w; x += DX) for (int c = 0; c < ch; c++) { u8 v = (u8)px[(size_t)((y * w + x) * 4 + (ch == 2 && c ? 3 : c))]; if (depth == 16) { l += (char)v; l += (char)(v * 7); } else if (depth == 8) l += (char)(ct == 3 ? v % pn : v); else { acc = acc << depth | (ct == 3 ? v % pn : v >> (8 - depth)); nb += depth; if (nb == 8) { l += (char)acc; acc = nb = 0; } } }
      if (nb) l += (char)(acc << (8 - nb)); if (prev.empty()) prev.assign(l.size(), 0);
      int ft = (int)r.below(5); raw += (char)ft; for (size_t k = 0; k < l.size(); k++) { int a = k >= (size_t)bpp ? (u8)l[k - (size_t)bpp] : 0, b = (u8)prev[k], c = k >= (size_t)bpp ? (u8)prev[k - (size_t)bpp] : 0, q = a + b - c, pa = std::abs(q - a), pb = std::abs(q - b), pc = std::abs(q - c); int pr = ft == 0 ? 0 : ft == 1 ? a : ft == 2 ? b : ft == 3 ? (a + b) / 2 : pa <= pb && pa <= pc ? a : pb <= pc ? b : c; raw += (char)((u8)l[k] - pr); }
      prev = l; } }
  z_stream z; memset(&z, 0, sizeof z); static const int strat[] = {Z_DEFAULT_STRATEGY, Z_DEFAULT_STRATEGY, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED}; deflateInit2(&z, (int)r.range(1, 9), Z_DEFLATED, (int)r.range(9, 15), 1 + (int)r.below(8), strat[r.below(5)]);
  string zz(deflateBound(&z, raw.size()) + 200, 0); z.next_in = (Bytef *)raw.data(); z.avail_in = (uInt)raw.size(); z.next_out = (Bytef *)&zz[0]; z.avail_out = (uInt)zz.size(); if (raw.size() > 50 && r.chance(40)) { z.avail_in = (uInt)(raw.size() / 2); deflate(&z, Z_FULL_FLUSH); z.avail_in = (uInt)(raw.size() - raw.size() / 2); } deflate(&z, Z_FINISH); zz.resize(z.total_out); deflateEnd(&z);
  size_t step = r.chance(60) ? zz.size() : 1 + r.below(zz.size()); for (size_t p = 0; p < zz.size(); p += step) chunk(o, "IDAT", zz.substr(p, step)); chunk(o, "IEND", ""); return o;
}
static string gif(const string &px, i64 w, i64 h, Rng &r) {
  string o = r.chance(80) ? "GIF89a" : "GIF87a"; int gb = (int)r.range(1, 8); bool local = r.chance(35), il = r.chance(35), part = w > 3 && h > 3 && r.chance(30); int lb = local ? (int)r.range(1, 8) : gb;
  le16(o, w); le16(o, h); bool global = !local || r.chance(60); o += (char)((global ? 0x80 : 0) | 0x70 | (gb - 1)); o += (char)r.below(1u << gb); o += (char)0; if (global) for (int k = 0; k < 3 << gb; k++) o += (char)r.next();
  if (r.chance(25)) { o += "\x21\xFE"; o += (char)5; o += "hello"; o += (char)0; }
  if (r.chance(50)) { o += "\x21\xF9"; o += (char)4; o += (char)(r.below(4) << 2 | r.below(2)); le16(o, 10); o += (char)r.below(1u << lb); o += (char)0; }
  i64 fx = part ? r.range(0, w / 2) : 0, fy = part ? r.range(0, h / 2) : 0, fw = part ? r.range(1, w - fx) : w, fh = part ? r.range(1, h - fy) : h;
  o += ','; le16(o, fx); le16(o, fy); le16(o, fw); le16(o, fh); o += (char)((local ? 0x80 | (lb - 1) : 0) | (il ? 0x40 : 0)); if (local) for (int k = 0; k < 3 << lb; k++) o += (char)r.next();
  int mcs = std::max(2, lb); o += (char)mcs; string bits; u32 acc = 0; int nb = 0, cs = mcs + 1; auto put = [&](int c) { acc |= (u32)c << nb; nb += cs; while (nb >= 8) { bits += (char)acc; acc >>= 8; nb -= 8; } };
  std::map<string, int> dict; int next; int limit = r.chance(60) ? 4096 : (int)r.range(20, 4096); auto reset = [&] { dict.clear(); for (int k = 0; k < 1 << mcs; k++) dict[string(1, (char)k)] = k; next = (1 << mcs) + 2; cs = mcs + 1; };
  reset(); put(1 << mcs); string cur; vector<i64> rows; if (!il) for (i64 y = 0; y < fh; y++) rows.push_back(y); else { for (i64 y = 0; y < fh; y += 8) rows.push_back(y); for (i64 y = 4; y < fh; y += 8) rows.push_back(y); for (i64 y = 2; y < fh; y += 4) rows.push_back(y); for (i64 y = 1; y < fh; y += 2) rows.push_back(y); }
  for (i64 y : rows) for (i64 x = 0; x < fw; x++) { char v = (char)((u8)px[(size_t)(((fy + y) * w + fx + x) * 4)] % (1 << lb)); if (dict.count(cur + v)) { cur += v; continue; }
    put(dict[cur]); if (next < 4096) { dict[cur + v] = next; if (next == (1 << cs) && cs < 12) cs++; next++; } if (next >= limit) { put(1 << mcs); reset(); } cur = string(1, v); }
  if (!cur.empty()) put(dict[cur]); if (next == (1 << cs) && cs < 12) cs++; put((1 << mcs) + 1); if (nb) bits += (char)acc;
  for (size_t p = 0; p < bits.size(); p += 255) { size_t n = std::min<size_t>(255, bits.size() - p); o += (char)n; o += bits.substr(p, n); } o += (char)0; o += ';'; return o;
}
// JPEG from random coefficients: baseline or progressive, any sampling, restarts, 1, 3 or 4 components
struct Jpeg {
  Rng &r; i64 w, h; bool prog; int nc; struct C { int hs, vs, bw, bh, rw, rh; vector<std::vector<int>> b; }; vector<C> c; string o; int hm = 1, vm = 1, restart = 0; u64 acc = 0; int nb = 0; int dcs[16], acs[256], acl[256];
  Jpeg(Rng &r_, i64 W, i64 H, bool p) : r(r_), w(W), h(H), prog(p) { nc = r.chance(60) ? 3 : r.chance(70) ? 1 : 4; }
  void bits(u32 v, int n) { for (int k = n - 1; k >= 0; k--) { acc = acc << 1 | ((v >> k) & 1); if (++nb == 8) { o += (char)acc; if ((u8)acc == 255) o += (char)0; acc = 0; nb = 0; } } }
  void flush() { while (nb) bits(1, 1); }
  void dc(int s) { bits((u32)dcs[s], 4); }
  void ac(int s) { bits((u32)acs[s], acl[s]); }
  static int cat(int v) { v = std::abs(v); int n = 0; while (v) { n++; v >>= 1; } return n; }
  void val(int v, int n) { if (n) bits((u32)(v < 0 ? v + (1 << n) - 1 : v), n); }
  void tables() {
    for (int t = 0; t < 2; t++) { string d; d += (char)t; for (int k = 1; k <= 16; k++) d += (char)(k == 4 ? 12 : 0); for (int k = 0; k < 12; k++) { d += (char)k; dcs[k] = k; } o += segment(0xC4, d); }
    vector<int> perm; for (int k = 0; k < 256; k++) perm.push_back(k); for (int k = 255; k > 0; k--) std::swap(perm[(size_t)k], perm[r.below((u64)k + 1)]);
    for (int t = 0; t < 2; t++) { string d; d += (char)(0x10 | t); for (int k = 1; k <= 16; k++) d += (char)(k == 8 ? 128 : k == 9 ? 128 : 0); for (int k = 0; k < 256; k++) { d += (char)perm[(size_t)k]; acs[perm[(size_t)k]] = k < 128 ? k : 256 + (k - 128); acl[perm[(size_t)k]] = k < 128 ? 8 : 9; } o += segment(0xC4, d); }
  }
  void sos(const vector<int> &cs, int ss, int se, int ah, int al) { string d; d += (char)cs.size(); for (int k : cs) { d += (char)(k + 1); d += (char)(k ? 0x11 : 0); } d += (char)ss; d += (char)se; d += (char)(ah << 4 | al); o += segment(0xDA, d); acc = 0; nb = 0; }
  template <class F, class G> void units(const vector<int> &cs, F block, G restarted) {   // every block of the scan in order
    int n = 0, rst = 0; auto tick = [&](bool last) { if (restart && ++n == restart && !last) { restarted(); flush(); o += (char)0xFF; o += (char)(0xD0 + (rst++ & 7)); n = 0; } };
    if (cs.size() == 1) { C &k = c[(size_t)cs[0]]; for (int y = 0; y < k.rh; y++) for (int x = 0; x < k.rw; x++) { block(cs[0], k.b[(size_t)(y * k.bw + x)]); tick(y + 1 == k.rh && x + 1 == k.rw); } }
    else { int mw = (int)((w + 8 * hm - 1) / (8 * hm)), mh = (int)((h + 8 * vm - 1) / (8 * vm)); for (int y = 0; y < mh; y++) for (int x = 0; x < mw; x++) { for (int q : cs) { C &k = c[(size_t)q]; for (int v = 0; v < k.vs; v++) for (int u = 0; u < k.hs; u++) block(q, k.b[(size_t)((y * k.vs + v) * k.bw + x * k.hs + u)]); } tick(y + 1 == mh && x + 1 == mw); } }
    restarted(); flush();
  }
  string make() {
    o = "\xFF\xD8"; if (r.chance(70)) o += segment(0xE0, string("JFIF\0\1\1\0\0\1\0\1\0\0", 14));
    if (nc == 4 || r.chance(15)) { string a = "Adobe"; a += (char)0; a += (char)100; a.append(4, 0); a += (char)(nc == 4 ? (r.chance(50) ? 2 : 0) : nc == 3 ? (int)r.below(2) : 0); o += segment(0xEE, a); }
    string q; q += (char)0; for (int k = 0; k < 64; k++) q += (char)(1 + r.below(k ? 30 : 8)); o += segment(0xDB, q);
    static const int sm[4][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}}; int s = (int)r.below(4); c.resize((size_t)nc); for (int k = 0; k < nc; k++) { c[(size_t)k].hs = k == 0 || (k == 3) ? sm[s][0] : 1; c[(size_t)k].vs = k == 0 || k == 3 ? sm[s][1] : 1; } if (nc == 1) { if (r.chance(70)) c[0].hs = c[0].vs = 1; } for (auto &k : c) { hm = std::max(hm, k.hs); vm = std::max(vm, k.vs); }
    int mw = (int)((w + 8 * hm - 1) / (8 * hm)), mh = (int)((h + 8 * vm - 1) / (8 * vm)); int dens = (int)r.below(30);
    for (auto &k : c) { k.bw = mw * k.hs; k.bh = mh * k.vs; k.rw = (int)(((w * k.hs + hm - 1) / hm + 7) / 8); k.rh = (int)(((h * k.vs + vm - 1) / vm + 7) / 8); int d = 0; for (int i = 0; i < k.bw * k.bh; i++) { std::vector<int> b(64, 0); d = std::max(-120, std::min(120, d + (int)r.below(41) - 20)); b[0] = d; for (int j = 1; j < 64; j++) if (r.chance(dens)) b[(size_t)j] = (int)r.below(j < 10 ? 41 : 9) - (j < 10 ? 20 : 4); k.b.push_back(b); } }
    string f; f += (char)8; be16(f, h); be16(f, w); f += (char)nc; for (int k = 0; k < nc; k++) { f += (char)(k + 1); f += (char)(c[(size_t)k].hs << 4 | c[(size_t)k].vs); f += (char)0; } o += segment(prog ? 0xC2 : r.chance(80) ? 0xC0 : 0xC1, f);
    tables(); if (r.chance(40)) { restart = 1 + (int)r.below(8); string d; be16(d, restart); o += segment(0xDD, d); }
    vector<int> all; for (int k = 0; k < nc; k++) all.push_back(k); int pred[4]; auto zero = [&] { memset(pred, 0, sizeof pred); };
    if (!prog) {
      auto one = [&](const vector<int> &cs) { sos(cs, 0, 63, 0, 0); zero(); units(cs, [&](int k, std::vector<int> &b) { int d = b[0] - pred[k]; pred[k] = b[0]; int n = cat(d); dc(n); val(d, n); int run = 0; for (int j = 1; j < 64; j++) { if (!b[(size_t)j]) { run++; continue; } while (run > 15) { ac(0xF0); run -= 16; } n = cat(b[(size_t)j]); ac(run << 4 | n); val(b[(size_t)j], n); run = 0; } if (run) ac(0); }, zero); };
      one(all);   // (decoders other than progressive ones need not accept several scans)
    } else {
      int al = (int)r.below(3);
      sos(all, 0, 0, 0, al); zero(); units(all, [&](int k, std::vector<int> &b) { int v = b[0] >> al, d = v - pred[k]; pred[k] = v; int n = cat(d); dc(n); val(d, n); }, zero);
      for (int a = al - 1; a >= 0; a--) { sos(all, 0, 0, a + 1, a); units(all, [&](int, std::vector<int> &b) { bits((u32)(b[0] >> a) & 1, 1); }, [] {}); }
      for (int k = 0; k < nc; k++) {
        int l = (int)r.below(3), cut = 1 + (int)r.below(62); int band[2][2] = {{1, cut}, {cut + 1, 63}}; int eob = 0; auto end = [&] { if (!eob) return; int n = cat(eob) - 1; ac(n << 4); if (n) bits((u32)eob & ((1u << n) - 1), n); eob = 0; };
        for (auto &bd : band) { sos({k}, bd[0], bd[1], 0, l); units({k}, [&](int, std::vector<int> &b) { int run = 0; for (int j = bd[0]; j <= bd[1]; j++) { int v = b[(size_t)j], t = std::abs(v) >> l; if (!t) { run++; continue; } end(); while (run > 15) { ac(0xF0); run -= 16; } int n = cat(t); ac(run << 4 | n); val(v < 0 ? -t : t, n); run = 0; } if (run) { if (++eob == 0x7fff) end(); } }, end); }
        for (int a = l - 1; a >= 0; a--) { sos({k}, 1, 63, a + 1, a); units({k}, [&](int, std::vector<int> &b) {
          int last = 0; for (int j = 1; j < 64; j++) if ((std::abs(b[(size_t)j]) >> a) == 1) last = j; string br; int run = 0; auto corr = [&] { for (char x : br) bits((u32)x, 1); br.clear(); };
          for (int j = 1; j < 64; j++) { int t = std::abs(b[(size_t)j]) >> a; if (!t) { run++; continue; } while (run > 15 && j <= last) { ac(0xF0); corr(); run -= 16; } if (t > 1) { br += (char)(t & 1); continue; } ac(run << 4 | 1); bits(b[(size_t)j] < 0 ? 0 : 1, 1); corr(); run = 0; }
          if (run || !br.empty()) { ac(0); corr(); } }, [] {}); }
      }
    }
    o += "\xFF\xD9"; return o;
  }
};
}
