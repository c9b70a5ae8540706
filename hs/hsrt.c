// Simulated allocator, files and reference calls beneath the Haskell bindings.
// Every allocation of the C library and of the bindings lives in its own pages, ends at a guard page, is filled
// with seeded noise and becomes inaccessible when it is freed.
#define _GNU_SOURCE
#include "flatcv.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "HsFFI.h"

#define BASE ((uint8_t *)0x5a0000000000ull)
#define SPAN (96ull << 30)
#define MAXB 65536
typedef struct { uint8_t *map, *p; size_t maplen, n; int phase, freed; } Blk;
static Blk blk[MAXB]; static int nblk; static size_t brk_;
static int serial, phase, count, nested, injecting;
static int fails[64], nfails, from_all, gcs[64], ngcs, nest_at[16], nest_id[16], nnest;
static int fired_fail, fired_gc, fired_nest, files_open, file_faults;
static uint64_t noise;
static char viol[4096]; static uint64_t trace_hash = 1469598103934665603ull;
static void (*nest_cb)(int);
static void report(const char *f, ...) { if (viol[0]) return; va_list a; va_start(a, f); vsnprintf(viol, sizeof viol, f, a); va_end(a); }
static void mixin(uint64_t v) { for (int i = 0; i < 8; i++) { trace_hash = (trace_hash ^ (v & 255)) * 1099511628211ull; v >>= 8; } }
static uint64_t rnd(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

static Blk *find(const void *p) {
  int lo = 0, hi = nblk - 1;
  while (lo <= hi) { int m = (lo + hi) / 2; if ((uint8_t *)p < blk[m].map) hi = m - 1; else if ((uint8_t *)p >= blk[m].map + blk[m].maplen + 4096) lo = m + 1; else return &blk[m]; }
  return NULL;
}
static void crash(int sig, siginfo_t *si, void *u) {
  char b[512]; Blk *k = find(si->si_addr); int n;
  if ((sig == SIGSEGV || sig == SIGBUS) && k)
    n = snprintf(b, sizeof b, "crash %s: block %d of %zu bytes, offset %ld\n", k->freed ? "use of freed memory" : "access outside of a block", (int)(k - blk), k->n, (long)((uint8_t *)si->si_addr - k->p));
  else n = snprintf(b, sizeof b, "crash signal %d\n", sig);
  write(1, b, n); _exit(71);
}
void rt_init(void (*cb)(int)) {
  nest_cb = cb;
  if (mmap(BASE, SPAN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != BASE) { perror("mmap"); _exit(3); }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  static char alt[65536]; stack_t st = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&st, 0);
  int s[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}; for (int i = 0; i < 5; i++) sigaction(s[i], &sa, 0);
}
static void *place(size_t n, int zero) {
  if (nblk == MAXB || n > (1ull << 30)) return NULL;
  size_t a = (n + 15) & ~15ull, len = (a + 4095) & ~4095ull; if (!len) len = 4096;
  if (brk_ + len + 8192 > SPAN) return NULL;
  Blk *b = &blk[nblk++]; b->map = BASE + brk_; b->maplen = len; b->n = n; b->phase = phase; b->freed = 0;
  brk_ += len + 4096;
  if (mprotect(b->map, len, PROT_READ | PROT_WRITE)) _exit(4);
  b->p = b->map + len - a;
  if (!n) b->p = b->map + len - 16;
  uint64_t s = noise + (uint64_t)++serial * 77;
  if (!zero) { size_t lim = n > 65536 ? 65536 : n; for (size_t i = 0; i < lim; i++) { if (!(i & 7)) s = rnd(&s); b->p[i] = (uint8_t)(s >> (8 * (i & 7))); } }
  memset(b->p + n, 0xCB, (size_t)(b->map + len - (b->p + n)));
  return b->p;
}
static int hit(const int *v, int n, int x) { for (int i = 0; i < n; i++) if (v[i] == x) return 1; return 0; }
static int inject(void) {
  if (phase != 1 || nested) return 0;
  int c = ++count; mixin(0xA110C + c);
  if (!injecting) return hit(fails, nfails, c) || (from_all && c >= from_all) ? (fired_fail++, 1) : 0;
  if (hit(gcs, ngcs, c)) { fired_gc++; hs_perform_gc(); }
  for (int i = 0; i < nnest; i++) if (nest_at[i] == c) { fired_nest++; nested = 1; nest_cb(nest_id[i]); nested = 0; }
  if (hit(fails, nfails, c) || (from_all && c >= from_all)) { fired_fail++; errno = ENOMEM; return 1; }
  return 0;
}
void *sim_malloc(size_t n) { return inject() ? NULL : place(n, 0); }
void *sim_calloc(size_t m, size_t n) {
  if (n && m > SIZE_MAX / n) return NULL;
  return inject() ? NULL : place(m * n, 1);
}
void sim_free(void *p) {
  if (!p) return;
  Blk *b = find(p);
  if (!b || b->p != (uint8_t *)p) { report("free of a pointer that no allocation returned"); return; }
  if (b->freed) { report("block of %zu bytes released twice", b->n); return; }
  for (uint8_t *q = b->p + b->n; q < b->map + b->maplen; q++) if (*q != 0xCB) { report("written past the end of a block of %zu bytes", b->n); break; }
  b->freed = 1; mprotect(b->map, b->maplen, PROT_NONE); madvise(b->map, b->maplen, MADV_DONTNEED);
}
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  if (inject()) return NULL;
  Blk *b = find(p); if (!b || b->p != (uint8_t *)p || b->freed) { report("realloc of a block that is not live"); return NULL; }
  size_t old = b->n; void *q = place(n, 0); if (!q) return NULL;
  memcpy(q, p, old < n ? old : n); sim_free(p); return q;
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = sim_malloc(n); if (p) memcpy(p, s, n); return p; }
// called between runs; everything of the earlier run is released first
void rt_reset(uint64_t seed) {
  int left = 0; for (int i = 0; i < nblk; i++) { left += !blk[i].freed; blk[i].phase = 0; }   // something of an earlier plan that is not collected yet keeps its address
  if (!left) { nblk = 0; brk_ = 0; }
  serial = 0; phase = count = nested = 0; nfails = ngcs = nnest = from_all = 0; fired_fail = fired_gc = fired_nest = file_faults = 0; files_open = 0; viol[0] = 0; noise = seed; trace_hash = 1469598103934665603ull;
}
void rt_plan(int kind, int a, int b) {
  if (kind == 0 && nfails < 64) fails[nfails++] = a;
  if (kind == 1 && ngcs < 64) gcs[ngcs++] = a;
  if (kind == 2 && nnest < 16) { nest_at[nnest] = a; nest_id[nnest++] = b; }
  if (kind == 3) from_all = a;
  if (kind == 4) nfails = ngcs = nnest = from_all = 0;
}
void rt_begin(int inj) { phase = 1; count = 0; injecting = inj; noise += 1000003; }
void rt_end(void) { phase = 0; }
int rt_phase(int p) { int o = phase; phase = p; return o; }
int rt_count(void) { return count; }
int rt_fired(int k) { return k == 0 ? fired_fail : k == 1 ? fired_gc : k == 2 ? fired_nest : file_faults; }
int rt_live(void) { int n = 0; for (int i = 0; i < nblk; i++) n += blk[i].phase == 1 && !blk[i].freed; return n; }
long rt_live_bytes(void) { long n = 0; for (int i = 0; i < nblk; i++) if (blk[i].phase == 1 && !blk[i].freed) n += (long)blk[i].n; return n; }
int rt_files(void) { return files_open; }
const char *rt_viol(void) { return viol; }
void rt_mix(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) trace_hash = (trace_hash ^ p[i]) * 1099511628211ull; mixin(n); }
void rt_mixw(uint64_t v) { mixin(v); }
uint64_t rt_hash(void) { return trace_hash; }
long rt_size(const void *p) { Blk *b = find(p); return b && !b->freed && b->p == (uint8_t *)p ? (long)b->n : -1; }

// ---- input images
void rt_image(uint8_t *o, int w, int h, int ch, uint64_t seed, int style) {
  uint64_t s = seed * 2654435761u + 17; uint8_t a[4], b[4];
  for (int i = 0; i < 4; i++) { a[i] = (uint8_t)rnd(&s); b[i] = (uint8_t)rnd(&s); }
  int bx = (int)(rnd(&s) % (uint64_t)(w > 0 ? w : 1)), by = (int)(rnd(&s) % (uint64_t)(h > 0 ? h : 1)), m = 1 + (int)(rnd(&s) % 3);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < ch; c++) {
    uint8_t v;
    switch (style) {
    case 0: v = (uint8_t)rnd(&s); break;                                                   // noise
    case 1: v = a[c]; break;                                                               // flat
    case 2: v = (x < bx) == (y < by) ? a[c] : b[c]; break;                                 // blocks
    case 3: v = (uint8_t)(x * 255 / (w > 1 ? w - 1 : 1)); break;                           // gradient
    case 4: v = x < m || y < m || x >= w - m || y >= h - m ? a[c] : (uint8_t)rnd(&s); break; // frame
    case 5: v = rnd(&s) % 5 ? 0 : 255; break;                                              // binary
    default: v = x > w / 5 && x < w - w / 4 && y > h / 6 && y < h - h / 5 ? 230 : 25; break; // document
    }
    o[(y * w + x) * ch + c] = v;
  }
}
// ---- one simulated file
static uint8_t file_data[8192]; static size_t file_len; static int file_there; static long file_err_at;
typedef struct { size_t pos; } Cur;
static ssize_t f_read(void *c, char *b, size_t n) {
  Cur *k = c; size_t left = k->pos < file_len ? file_len - k->pos : 0; if (n > left) n = left;
  if (file_err_at >= 0 && (long)(k->pos + n) > file_err_at) { if ((long)k->pos >= file_err_at) { file_faults++; errno = EIO; return -1; } n = (size_t)(file_err_at - (long)k->pos); }
  memcpy(b, file_data + k->pos, n); k->pos += n; return (ssize_t)n;
}
static int f_seek(void *c, off64_t *o, int wh) { Cur *k = c; off64_t p = *o + (wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)k->pos : (off64_t)file_len); if (p < 0) { errno = EINVAL; return -1; } k->pos = (size_t)p; *o = p; return 0; }
static int f_close(void *c) { files_open--; free(c); return 0; }
FILE *sim_fopen(const char *n, const char *m) {
  mixin(strlen(n));
  if (strcmp(n, "photo.jpg") || m[0] != 'r') { errno = ENOENT; return NULL; }
  if (!file_there) { file_faults++; errno = EMFILE; return NULL; }
  Cur *c = calloc(1, sizeof *c); files_open++;
  FILE *f = fopencookie(c, "r", (cookie_io_functions_t){f_read, 0, f_seek, f_close}); setvbuf(f, 0, _IOFBF, 64); return f;
}
FILE *sim_fopen64(const char *n, const char *m) { return sim_fopen(n, m); }
static void put16(size_t *n, int le, unsigned v) { file_data[(*n)++] = (uint8_t)(le ? v : v >> 8); file_data[(*n)++] = (uint8_t)(le ? v >> 8 : v); }
static void put32(size_t *n, int le, unsigned v) { if (le) { put16(n, 1, v & 0xffff); put16(n, 1, v >> 16); } else { put16(n, 0, v >> 16); put16(n, 0, v & 0xffff); } }
void rt_file(uint64_t seed, int orient, int there, int err_at, int cut) {
  uint64_t s = seed; size_t n = 0; int le = (int)(rnd(&s) & 1); file_there = there; file_err_at = err_at;
  file_data[n++] = 0xFF; file_data[n++] = 0xD8;
  for (int k = (int)(rnd(&s) % 3); k > 0; k--) { file_data[n++] = 0xFF; file_data[n++] = (uint8_t)(0xE0 + (k & 1) * 13); unsigned l = 2 + (unsigned)(rnd(&s) % 40); put16(&n, 0, l); for (unsigned i = 2; i < l; i++) file_data[n++] = (uint8_t)(rnd(&s) % 200); }
  file_data[n++] = 0xFF; file_data[n++] = 0xE1; size_t at = n; put16(&n, 0, 0);
  memcpy(file_data + n, "Exif\0", 6); n += 6; file_data[n++] = le ? 'I' : 'M'; file_data[n++] = le ? 'I' : 'M'; put16(&n, le, 42); put32(&n, le, 8);
  int before = (int)(rnd(&s) % 4); put16(&n, le, (unsigned)before + 1);
  for (int i = 0; i < before; i++) { put16(&n, le, 0x100 + (unsigned)i); put16(&n, le, 3); put32(&n, le, 1); put32(&n, le, (unsigned)rnd(&s)); }
  put16(&n, le, 0x112); put16(&n, le, 3); put32(&n, le, 1); put16(&n, le, (unsigned)orient); put16(&n, le, 0); put32(&n, le, 0);
  file_data[at] = (uint8_t)((n - at) >> 8); file_data[at + 1] = (uint8_t)(n - at);
  file_data[n++] = 0xFF; file_data[n++] = 0xD9;
  file_len = cut > 0 && (size_t)cut < n ? (size_t)cut : n;
}

// ---- reference: what the C library computes for the same arguments, called straight from C
static uint8_t *to_rgba(uint32_t w, uint32_t h, uint8_t *g) { if (!g) return NULL; uint8_t *o = fcv_single_to_multichannel(w, h, g); sim_free(g); return o; }
typedef uint8_t *(*Morph)(const uint8_t *, int32_t, int32_t, int32_t);
// returns 1: value, 0: the C library reports a failure. Scalars in sc (count in nsc), bytes in *out / *len (library block, to be freed by rt_ref_free)
int rt_ref(const char *op, int w, int h, int ch, const double *p, int np, const char *s1, const char *s2, const uint8_t *in, long inlen, double *sc, int *nsc, uint8_t **out, long *len) {
  *nsc = 0; *out = NULL; *len = 0; uint32_t W = (uint32_t)w, H = (uint32_t)h, C = (uint32_t)ch, a = 0, b = 0; size_t px = w > 0 && h > 0 ? (size_t)w * (size_t)h : 0;
  if (!strncmp(op, "ptr_", 4)) op += 4;
#define IS(x) (!strcmp(op, x))
#define DONE(e, n) do { *out = (uint8_t *)(e); *len = (long)(n); return *out != NULL; } while (0)
  if (IS("grayscale")) DONE(fcv_grayscale(W, H, in), px * 4);
  if (IS("grayscaleStretch")) DONE(fcv_grayscale_stretch(W, H, in), px * 4);
  if (IS("rgbaToGrayscale")) DONE(fcv_rgba_to_grayscale(W, H, in), px);
  if (IS("singleToMultichannel")) DONE(fcv_single_to_multichannel(W, H, in), px * 4);
  if (IS("gaussianBlur")) DONE(fcv_apply_gaussian_blur(W, H, p[0], in), px * 4);
  if (IS("otsuThreshold")) DONE(fcv_otsu_threshold_rgba(W, H, p[0] != 0, in), px * 4);
  if (IS("bwSmart")) DONE(fcv_bw_smart(W, H, p[0] != 0, in), px * 4);
  if (IS("applyGlobalThreshold")) { uint8_t *o = sim_malloc((size_t)inlen); memcpy(o, in, (size_t)inlen); fcv_apply_global_threshold((uint32_t)inlen, o, (uint8_t)p[0]); DONE(o, inlen); }
  if (IS("sobelEdgeDetection")) {
    uint8_t *g = fcv_sobel_edge_detection(W, H, C, in); if (!g || ch == 1) DONE(g, px);
    if (ch == 4) DONE(to_rgba(W, H, g), px * 4);
    uint8_t *o = sim_malloc(px * C); for (size_t i = 0; i < px; i++) for (uint32_t c = 0; c < C; c++) o[i * C + c] = g[i];
    sim_free(g); DONE(o, px * C);
  }
  if (IS("foerstnerCorner")) DONE(fcv_foerstner_corner(W, H, in, p[0]), px * 2);
  if (strstr(op, "binary") == op) {
    Morph f = IS("binaryDilationDisk") ? fcv_binary_dilation_disk : IS("binaryErosionDisk") ? fcv_binary_erosion_disk : IS("binaryClosingDisk") ? fcv_binary_closing_disk : fcv_binary_opening_disk;
    if (w <= 0 || h <= 0) return 0;
    uint8_t *g = fcv_rgba_to_grayscale(W, H, in); if (!g) return 0;
    uint8_t *m = f(g, w, h, (int)p[0]); sim_free(g); DONE(to_rgba(W, H, m), px * 4);
  }
  if (IS("flipX")) DONE(fcv_flip_x(W, H, in), px * 4);
  if (IS("flipY")) DONE(fcv_flip_y(W, H, in), px * 4);
  if (IS("transpose")) DONE(fcv_transpose(W, H, in), px * 4);
  if (IS("transverse")) DONE(fcv_transverse(W, H, in), px * 4);
  if (IS("rotate90CW")) DONE(fcv_rotate_90_cw(W, H, in), px * 4);
  if (IS("rotate180")) DONE(fcv_rotate_180(W, H, in), px * 4);
  if (IS("rotate270CW")) DONE(fcv_rotate_270_cw(W, H, in), px * 4);
#define SIZED(e, c) do { uint8_t *o = e; if (!o) return 0; sc[0] = a; sc[1] = b; *nsc = 2; DONE(o, (size_t)a * b * (c)); } while (0)
  if (IS("resize")) SIZED(fcv_resize(W, H, p[0], p[1], &a, &b, in), 4);
  if (IS("crop")) DONE(fcv_crop(W, H, C, in, (uint32_t)p[0], (uint32_t)p[1], (uint32_t)p[2], (uint32_t)p[3]), (size_t)p[2] * (size_t)p[3] * C);
  if (IS("trim") || IS("trimThreshold")) {
    int32_t tw = w, th = h; uint8_t *o = IS("trim") ? fcv_trim(&tw, &th, C, in) : fcv_trim_threshold(&tw, &th, C, in, p[0]);
    if (!o) return 0; sc[0] = tw; sc[1] = th; *nsc = 2; DONE(o, (size_t)tw * (size_t)th * C);
  }
  if (IS("calculatePerspectiveTransform")) {
    Corners s = {p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]}, d = {p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]};
    Matrix3x3 *m = fcv_calculate_perspective_transform(&s, &d); if (!m) return 0;
    double v[9] = {m->m00, m->m01, m->m02, m->m10, m->m11, m->m12, m->m20, m->m21, m->m22}; memcpy(sc, v, sizeof v); *nsc = 9; sim_free(m); return 1;
  }
  if (IS("applyMatrix3x3")) {
    Matrix3x3 m = {p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10]};
    DONE(fcv_apply_matrix_3x3(w, h, (uint8_t *)in, (int)p[0], (int)p[1], &m), (size_t)p[0] * (size_t)p[1] * 4);
  }
  if (IS("detectCorners")) {
    Corners *c = fcv_detect_corners_ptr(in, w, h); if (!c) return 0;
    double v[8] = {c->tl_x, c->tl_y, c->tr_x, c->tr_y, c->br_x, c->br_y, c->bl_x, c->bl_y}; memcpy(sc, v, sizeof v); *nsc = 8; sim_free(c); return 1;
  }
  if (IS("extractDocument")) DONE(fcv_extract_document(W, H, (uint8_t *)in, (uint32_t)p[0], (uint32_t)p[1]), (size_t)p[0] * (size_t)p[1] * 4);
  if (IS("extractDocumentAuto")) SIZED(fcv_extract_document_auto(W, H, (uint8_t *)in, &a, &b), 4);
  if (IS("drawCircle") || IS("drawDisk")) {
    uint8_t *o = sim_malloc((size_t)inlen); memcpy(o, in, (size_t)inlen);
    if (IS("drawCircle")) fcv_draw_circle(W, H, C, s1, p[0], p[1], p[2], o); else fcv_draw_disk(W, H, C, s1, p[0], p[1], p[2], o);
    DONE(o, inlen);
  }
  if (IS("addBorder")) SIZED(fcv_add_border(W, H, C, s1, (uint32_t)p[0], in, &a, &b), C);
  if (IS("generateHistogram")) SIZED(fcv_generate_histogram(W, H, C, in, &a, &b), 4);
  if (IS("watershedSegmentation")) {
    Point2D m[64]; int k = 0; for (int i = 1; i + 1 < np && k < 64; i += 2) m[k++] = (Point2D){p[i], p[i + 1]};
    DONE(fcv_watershed_segmentation(W, H, in, m, (uint32_t)k, p[0] != 0), px * 4);
  }
  if (IS("getExifOrientation")) { sc[0] = fcv_get_exif_orientation(p[3] != 0 ? "missing.jpg" : "photo.jpg"); *nsc = 1; return 1; }
  if (IS("parseHexColor")) { uint8_t r = 1, g = 2, bl = 3; fcv_parse_hex_color(s1, &r, &g, &bl); sc[0] = r; sc[1] = g; sc[2] = bl; *nsc = 3; return 1; }
  if (IS("convertToBinary")) DONE(to_rgba(W, H, fcv_convert_to_binary(in, w, h, s1, s2)), px * 4);
  fprintf(stderr, "unknown operation %s\n", op); _exit(5);
}
