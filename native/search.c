/* Native counterpart of the contracts: runs the real library at its API, buffers ending at guard pages.
   Used (1) to find and replay a failing input for an obligation the verifier refuted, (2) as the bounded stand-in for functions outside the
   verifier's reach.   search FAMILY KINDS SEED SECONDS OUTFILE [ONLY-REGEX]     |   search replay FILE */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <regex.h>
#include "rle.h"
#include "simd_platform.h"

#define M(k) static uint32_t rle8m##k##_c(const uint8_t *i, uint32_t n, uint8_t *o, uint32_t m) { return rle8m_compress(k, i, n, o, m); } \
  static uint32_t rle8m##k##_b(uint32_t n) { return rle8m_compress_bounds(k, n); }
M(1) M(2) M(3) M(7) M(32)
static uint32_t sections; static uint32_t rle8m_any(const uint8_t *i, uint32_t n, uint8_t *o, uint32_t m) { return rle8m_compress(sections, i, n, o, m); }
typedef uint32_t fn_t(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);
typedef struct { const char *name, *family; fn_t *c, *d; uint32_t (*b)(const uint32_t); int S; } codec_t;
#define CODEC(c, d, b, f, s) { #c, f, c, d, b, s },
static const codec_t codecs[] = {
#include "codecs.inc"
};
#define NC (sizeof(codecs) / sizeof(*codecs))
#define CAP ((size_t)40 << 20)
#define PAD 4096

static sigjmp_buf jb; static volatile int armed; static void *volatile fa; static volatile int fs;
static void onsig(int s, siginfo_t *si, void *u) { (void)u; if (!armed) _exit(99); fa = si ? si->si_addr : 0; fs = s; siglongjmp(jb, 1); }
static uint8_t *galloc(size_t cap) {
  size_t t = (cap + 4095) / 4096 * 4096;
  uint8_t *p = mmap(0, t + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  mprotect(p, 4096, PROT_NONE); mprotect(p + 4096 + t, 4096, PROT_NONE); return p + 4096 + t; }
static uint64_t rs; static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL >> 11; }
static int hw;
static void setsimd(int l) {
  if (l > hw) l = hw;
  avx512FSupported = avx512BWSupported = avx512VLSupported = avx512DQSupported = avx512CDSupported = l >= 8; avx2Supported = l >= 7; avxSupported = l >= 6; sse42Supported = l >= 5;
  sse41Supported = l >= 4; ssse3Supported = l >= 3; sse3Supported = l >= 2; sse2Supported = l >= 1; sseSupported = true; }
static const int levels[] = { 1, 3, 4, 6, 7, 8 };       /* sse2 ssse3 sse4.1 avx avx2 avx512 */

static uint8_t *inE, *outE, *cE, *dE, *buf, *st1;
typedef struct { int codec, enc, dec; uint32_t sl; char kind[48]; char msg[160]; } viol_t;
static viol_t V;
static const char *kinds;
static int kind_on(const char *k) { return strstr(kinds, "all") || strstr(kinds, k); }
static int bad(int c, int e, int d, const char *k, const char *fmt, long a, long b) {
  if (!kind_on(k)) return 0;
  V.codec = c; V.enc = e; V.dec = d; strcpy(V.kind, k); snprintf(V.msg, sizeof V.msg, fmt, a, b); return 1; }
#define CANARY 64
/* input bytes an encoder may read past its input (recorded finding), per codec; 0 with strict reads */
static uint32_t enc_slack(const codec_t *k) { return 2 * k->S + 16 < 64 ? 64 : 2 * k->S + 16; }
static int dirtyStack; static uint8_t dirtyByte;
static void __attribute__((noinline)) dirty(void) { volatile uint64_t a[3000]; for (int k = 0; k < 3000; k++) a[k] = 0x0101010101010101ull * dirtyByte; } /* what an uninitialized local would read */
static uint32_t guarded(fn_t *f, const uint8_t *i, uint32_t n, uint8_t *o, uint32_t m, int *crash) {
  uint32_t r = 0; *crash = 0;
  struct itimerval tv = { { 0, 0 }, { 20, 0 } }, off = { { 0, 0 }, { 0, 0 } };
  if (sigsetjmp(jb, 1)) { *crash = fs == SIGALRM ? 2 : 1; armed = 0; setitimer(ITIMER_REAL, &off, 0); return 0; }
  armed = 1; setitimer(ITIMER_REAL, &tv, 0);
  if (dirtyStack) dirty();
  r = f(i, n, o, m);
  armed = 0; setitimer(ITIMER_REAL, &off, 0);
  return r; }
static const char *where(void) {
  uint8_t *a = fa;
  if (a >= inE - 4096 && a < inE + 8192) return "enc-read";
  if (a >= outE - 4096 && a < outE + 8192) return "enc-write";
  if (a >= cE - 4096 && a < cE + 8192) return "dec-read";
  if (a >= dE - 4096 && a < dE + 8192) return "dec-write";
  return "crash"; }
static int chk(const uint8_t *p, size_t n, uint8_t v) { for (size_t k = 0; k < n; k++) if (p[k] != v) return 1; return 0; }

/* one case: n bytes in buf, codec c, encoder at SIMD level e, decoder at level d. returns 1 on violation */
static int run(int c, int e, int d, uint32_t n, uint32_t esl) {
  const codec_t *k = &codecs[c]; int cr; uint32_t B = k->b(n);
  uint32_t sl = esl; V.sl = sl;
  uint8_t *in = inE - n - sl, *o = outE - B;
  memcpy(in, buf, n); for (uint32_t q = 0; q < sl; q++) in[n + q] = (uint8_t)rnd();
  memset(o - CANARY, 0xC7, CANARY); memset(o, 0x5A, n < 65536 ? B : B > 131072 ? 131072 : B);
  setsimd(e); dirtyStack = kind_on("depends"); dirtyByte = 0;
  uint32_t cs = guarded(k->c, in, n, o, B, &cr);
  if (cr == 2) return bad(c, e, d, "hang", "compress does not return (%ld bytes)", n, 0);
  if (cr) { const char *w = where(); if (!strcmp(w, "crash") || !strcmp(w, "enc-write")) { if (bad(c, e, d, "roundtrip", "compress crashes, access at %ld relative to its output end", (long)((uint8_t *)fa - outE), 0)) return 1; }
    return bad(c, e, d, w, "compress accesses memory %ld bytes past the end of its %s buffer", (long)((uint8_t *)fa - (!strcmp(w, "enc-read") ? inE - sl : outE)), 0); }
  if (chk(o - CANARY, CANARY, 0xC7)) return bad(c, e, d, "enc-write", "compress writes before its output buffer", 0, 0);
  if (memcmp(in, buf, n)) return bad(c, e, d, "enc-write", "compress modifies its input", 0, 0);
  if (cs == 0) return !strcmp(k->family, "sections") ? 0 : bad(c, e, d, "roundtrip", "compress of %ld bytes into a buffer of the advertised bound (%ld) fails", n, B);
  if (cs > B) return bad(c, e, d, "enc-write", "compress returns %ld, more than the buffer of %ld bytes", cs, B);
  if (strcmp(k->family, "transform") && strcmp(k->family, "sections")) {
    uint32_t h[2]; memcpy(h, o, 8); int le = !strcmp(k->family, "lowentropy");
    if (h[le] != n) { if (bad(c, e, d, "header", "header declares %ld uncompressed bytes for %ld", h[le], n)) return 1; }
    if (strcmp(k->family, "huff") && strcmp(k->family, "mmtf") && h[!le] != cs) { if (bad(c, e, d, "header", "header declares %ld compressed bytes, compress returned %ld", h[!le], cs)) return 1; } }
  memcpy(st1, o, cs);
  if ((kind_on("depends") || kind_on("reads-value")) && (n < 65536)) { /* other bytes around the input, other output contents: same stream */
    for (uint32_t q = 0; q < sl; q++) in[n + q] = n > 16 && (rnd() & 1) ? in[n + q - 16] : q % k->S + n >= k->S ? in[n - k->S + q % k->S] : (uint8_t)rnd();
    memset(o, 0xA5, B); dirtyByte = 0xFF;
    uint32_t c2 = guarded(k->c, in, n, o, B, &cr);
    if (cr || c2 != cs || memcmp(o, st1, cs)) if (bad(c, e, d, "depends", "the stream depends on something else than the input (%ld vs %ld bytes)", cs, c2)) return 1; }
  uint8_t *ci = cE - cs - 64, *po = dE - n - 128;
  memcpy(ci, st1, cs); for (int q = 0; q < 64; q++) ci[cs + q] = (uint8_t)rnd();
  memset(po - CANARY, 0xC7, CANARY); memset(po, (uint8_t)(buf[n / 2] + 1), n);
  setsimd(d);
  uint32_t xi = strcmp(k->family, "transform") && (rnd() & 1) ? (uint32_t)(rnd() % 65) : 0; /* a buffer larger than the stream: the stream ends where its header says */
  uint32_t r = guarded(k->d, ci, cs + xi, po, n, &cr);
  if (cr == 2) return bad(c, e, d, "hang", "decompress does not return", 0, 0);
  if (cr) { const char *w = where(); if (!strcmp(w, "crash") || !strcmp(w, "dec-write")) { if (bad(c, e, d, "roundtrip", "decompress crashes, access at %ld relative to the end of its output", (long)((uint8_t *)fa - dE), 0)) return 1; }
    return bad(c, e, d, w, "decompress accesses memory %ld bytes past the end of its buffer", (long)((uint8_t *)fa - (!strcmp(w, "dec-read") ? cE - 64 : dE - 128)), 0); }
  if (chk(po - CANARY, CANARY, 0xC7)) return bad(c, e, d, "dec-write", "decompress writes before its output buffer", 0, 0);
  if (memcmp(ci, st1, cs)) return bad(c, e, d, "dec-write", "decompress modifies its input", 0, 0);
  if (r != n) { if (bad(c, e, d, "roundtrip", "decompress returns %ld instead of %ld", r, n)) return 1; if (bad(c, e, d, "header", "decompress returns %ld instead of %ld", r, n)) return 1; return 0; }
  if (memcmp(po, buf, n)) { uint32_t q = 0; while (po[q] == buf[q]) q++; return bad(c, e, d, "roundtrip", "output differs from the input at byte %ld of %ld", q, n); }
  return 0; }

/* unusable arguments: result 0, nothing written */
static int rejects(int c, int e, uint32_t n) {
  const codec_t *k = &codecs[c]; int cr; uint32_t B = k->b(n); uint32_t r;
  if ((!kind_on("reject") && strcmp(k->family, "sections")) || !strcmp(k->family, "transform")) return 0;
  int transform = !strcmp(k->family, "transform");
  uint8_t *in = inE - n - 64, *o = outE - B - 64; memcpy(in, buf, n);
  setsimd(e);
#define T(ii, nn, oo, mm, what) memset(o, 0x5A, B + 64); r = guarded(k->c, ii, nn, oo, mm, &cr); \
  if (cr) return bad(c, e, e, "reject", "compress crashes with " what " (n=%ld)", n, 0); \
  if (r != 0) return bad(c, e, e, "reject", "compress returns %ld with " what " (n=%ld)", r, n); \
  if (chk(o, B + 64, 0x5A)) return bad(c, e, e, "reject", "compress writes with " what " (n=%ld)", n, 0);
  T(NULL, n, o, B, "a null input") T(in, n, NULL, B, "a null output") T(in, 0, o, B, "an empty input")
  uint32_t sizes[] = { 0, 1, 7, 8, 15, B / 2, B > 64 ? B - 64 : 1, B - 2, B - 1 };
  for (unsigned q = 0; q < sizeof sizes / 4; q++) if (sizes[q] < B) { T(in, n, o, sizes[q], "an output smaller than the bound") }
#undef T
  if (!strcmp(k->family, "sections")) { static const uint32_t ss[] = { 0, 0x02AAAAAB, 0x10000000, 0x15555556, 0x2AAAAAAB, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x55555556, 0x80000000u, 0xAAAAAAABu, 0xC0000000u, 0xFFFFFFFFu };
    for (unsigned q = 0; q < sizeof ss / 4; q++) { sections = ss[q]; memset(o, 0x5A, B + 64); r = guarded(rle8m_any, in, n, o, B, &cr);
      if (cr || r || chk(o, B + 64, 0x5A)) { if (bad(c, e, e, "reject", "rle8m_compress with %ld sections writes into an output of %ld bytes", ss[q], B)) return 1; if (bad(c, e, e, "enc-write", "rle8m_compress with %ld sections writes into an output of %ld bytes", ss[q], B)) return 1; } } }
  memset(o, 0x5A, B); uint32_t cs = guarded(k->c, in, n, o, B, &cr); if (cr || !cs) return 0;
  uint8_t *ci = cE - cs - 64, *po = dE - n - 128; memcpy(ci, o, cs);
#define T(ii, nn, oo, mm, what) memset(po, 0x5A, n + 128); r = guarded(k->d, ii, nn, oo, mm, &cr); \
  if (cr) return bad(c, e, e, "reject", "decompress crashes with " what " (n=%ld)", n, 0); \
  if (r != 0) return bad(c, e, e, "reject", "decompress returns %ld with " what " (n=%ld)", r, n); \
  if (chk(po, n + 128, 0x5A)) return bad(c, e, e, "reject", "decompress writes with " what " (n=%ld)", n, 0);
  T(NULL, cs, po, n, "a null input") T(ci, cs, NULL, n, "a null output") T(ci, 0, po, n, "an empty input") T(ci, cs, po, 0, "an empty output")
  if (!transform) {
    uint32_t os[] = { 1, n / 2, n - 1 }; for (unsigned q = 0; q < 3; q++) if (os[q] < n) { T(ci, cs, po, os[q], "an output smaller than the declared size") }
    if (strcmp(k->family, "sections") && strcmp(k->family, "huff") && strcmp(k->family, "mmtf")) { uint32_t is[] = { 8, cs / 2, cs - 1 }; for (unsigned q = 0; q < 3; q++) if (is[q] < cs) { T(ci, is[q], po, n, "a stream shorter than it declares") } } }
#undef T
  return 0; }

/* structured inputs: literals and runs with lengths around the format's thresholds, symbols drawn from a small set */
static const uint32_t edge[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 20, 24, 30, 31, 32, 33, 34, 36, 40, 47, 48, 49, 60, 62, 63, 64, 65, 66, 68, 72, 80, 96, 120, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 136, 144, 160, 192, 240, 248, 250, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 264, 272, 300, 384, 508, 510, 511, 512, 513, 514, 516, 520, 528, 600, 762, 768, 774, 1020, 1024, 1028, 1032, 1524, 1536, 1548, 2032, 2040, 2048, 2064, 2080, 4064, 4080, 4096, 4112 };
static const uint32_t big[] = { 4094, 4098, 8190, 8191, 8192, 8193, 8194, 8196, 16380, 16382, 16383, 16384, 16386, 16400, 32760, 32766, 32767, 32768, 32770, 32784, 65520, 65530, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 65540, 65544, 65552, 131068, 131070, 131072, 131074, 131080, 196605, 196608, 196614, 262136, 262140, 262144, 262160, 393210, 393216, 393222, 524280, 524288, 524304, 1048560, 1048576, 1048592, 1048608 };
static const uint32_t huge[] = { 1048574, 1048575, 1048576, 1048577, 1048580, 2097150, 2097152, 2097156, 3145720, 3145728, 3145740, 4194300, 4194304, 4194310, 6291450, 6291456, 6291470, 8388600, 8388608, 8388624, 16777210, 16777216, 16777220, 16777240 };
static uint32_t pick(int cls) {
  if (cls == 2 && rnd() % 3 == 0) return huge[rnd() % (sizeof huge / 4)] + (uint32_t)(rnd() % 3) * 16;
  if (cls >= 1 && rnd() % 2 == 0) { uint32_t v = big[rnd() % (sizeof big / 4)]; return v + (uint32_t)(rnd() % 40) - (v > 20 ? 20 : 0); }
  switch (rnd() % 4) { case 0: return 1 + rnd() % 20; case 1: return 1 + rnd() % 300; default: { uint32_t v = edge[rnd() % (sizeof edge / 4)]; if (rnd() % 3 == 0) v += rnd() % 20; return v; } } }
static const int Ss[] = { 1, 2, 3, 4, 6, 8, 16 };
static uint32_t gen(int S0, int cls) {
  size_t lim = cls == 2 ? CAP - (8 << 20) : cls == 1 ? (size_t)3 << 20 : (rnd() % 4 ? 700 : 12000);
  size_t tgt = cls ? lim : rnd() % 5 == 0 ? 1 + rnd() % 40 : 1 + rnd() % lim;
  if (!cls && rnd() % 16 == 0) tgt = 1 + rnd() % 18;
  size_t n = 0; int nseg = 0, maxseg = cls == 2 ? 1 + rnd() % 4 : cls == 1 ? 1 + rnd() % 6 : 1000;
  int al = (int[]){ 1, 2, 2, 3, 4, 9, 17, 130, 256, 256 }[rnd() % 10]; uint8_t base = rnd() & 1 ? 0 : (uint8_t)rnd();
  uint8_t set[12][16]; int ns = 1 + rnd() % 11;
  for (int a = 0; a < 12; a++) for (int b = 0; b < 16; b++) set[a][b] = rnd() % 4 == 0 ? 0 : rnd() & 1 ? (uint8_t)(base + rnd() % al) : (uint8_t)rnd();
  if (rnd() % 3 == 0) for (int a = 0; a < 12; a++) { int b = 1 + rnd() % 15; for (; b < 16; b++) set[a][b] = set[0][b]; }
  if (rnd() % 4 == 0) for (int a = 0; a < 12; a++) for (int b = 0; b < 16; b++) set[a][b] = set[a][b % S0];
  int mode = rnd() % 6;
  while (n < tgt && nseg < maxseg) {
    nseg++; size_t room = tgt - n;
    int kindr = rnd() % 8; int mix = mode == 0 ? kindr < 1 : mode == 1 ? kindr < 6 : kindr < 3;
    if (mix) { /* literals */
      size_t l = cls ? pick(cls) : rnd() % 3 ? 1 + rnd() % (4 * S0 + 4) : pick(0); if (l > room) l = room;
      int la = rnd() % 3;
      for (; l; l--) { buf[n] = la == 0 ? (uint8_t)rnd() : la == 1 ? (uint8_t)(n ? buf[n - 1] + 1 + rnd() % 254 : 1) : (uint8_t)(base + rnd() % al); n++; }
    } else { /* run: whole symbols plus possibly a partial one */
      int S = rnd() % 5 ? S0 : Ss[rnd() % 7]; const uint8_t *s = set[rnd() % ns];
      size_t l = cls ? pick(cls) : rnd() & 1 ? S * (1 + rnd() % 9) + (rnd() & 1 ? rnd() % S : 0) : rnd() & 1 ? pick(0) : S * pick(0) % 40000;
      if (cls == 2 && rnd() % 2 && l * S < room) l *= S; else if (cls == 1 && rnd() % 3 == 0) l *= S; if (l > room) l = room;
      int ph = rnd() % 3 ? 0 : rnd() % S;
      for (size_t q = 0; q < l; q++) buf[n++] = s[(q + ph) % S];
    } }
  if (cls == 0 && rnd() % 8 == 0 && n > 4) { /* point mutations */ int m = 1 + rnd() % 4; while (m--) buf[rnd() % n] ^= (uint8_t)(1 << rnd() % 8); }
  return (uint32_t)n; }
/* many copies of one (literal, run) pair: the worst case for the size of the stream */
static uint32_t gen_worst(int S0, size_t lim) {
  size_t n = 0; uint32_t L = 1 + rnd() % (rnd() & 1 ? 8 : 300), R = S0 * (1 + rnd() % 6) + (rnd() & 1 ? 0 : rnd() % 16); uint8_t x = 0; int ns = 1 + rnd() % 16;
  if (rnd() % 4 == 0) L = pick(0); if (rnd() % 3 == 0) R = pick(0);
  uint8_t set[16][16]; for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) set[a][b] = (uint8_t)rnd();
  while (n + L + R < lim) { for (uint32_t q = 0; q < L; q++) { x = (uint8_t)(x + 1 + rnd() % 250); buf[n++] = x; } uint8_t *s = set[x % ns]; for (uint32_t q = 0; q < R; q++) buf[n++] = s[q % S0]; }
  if (!n) buf[n++] = 7; return (uint32_t)n; }

/* one random structured block repeated: amplifies a token that is larger than the bound accounts for */
static uint32_t gen_block(int S0, size_t lim) {
  size_t n = 0, tgt = 20 + rnd() % (rnd() & 1 ? 150 : 1300); int la = rnd() % 3, ll = (int[]){ 4, 20, 150, 300, 600 }[rnd() % 5]; uint8_t sym[4][16], x = (uint8_t)rnd(); int ns = 1 + rnd() % 4;
  for (int a = 0; a < 4; a++) for (int b = 0; b < 16; b++) sym[a][b] = (uint8_t)rnd();
  while (n < tgt) {
    uint32_t l = 1 + rnd() % ll; while (l--) { x = la == 0 ? (uint8_t)(x + 1) : (uint8_t)(x + 1 + rnd() % 254); buf[n++] = x; }
    int runs = 1 + rnd() % 3; while (runs--) { const uint8_t *s = sym[rnd() % ns]; uint32_t r = rnd() % 4 ? S0 * (1 + rnd() % 6) + rnd() % S0 : 1 + rnd() % 20; int ph = rnd() & 1 ? 0 : rnd() % S0; for (uint32_t q = 0; q < r; q++) buf[n++] = s[(q + ph) % S0]; } }
  size_t b = n; while (n + b < lim) { memcpy(buf + n, buf, b); n += b; }
  return (uint32_t)n; }

/* lengths taken from the refuted obligation (values of its model, constants of the function): VC_HINTS="65535,..." */
static uint32_t hints[512]; static int nh;
static uint32_t hpick(int S0, int lit) {
  switch (rnd() % 4) { case 0: return lit ? 1 + rnd() % 12 : S0 * (1 + rnd() % 8) + (rnd() & 1 ? rnd() % S0 : 0);
    case 1: return pick(0); default: { uint32_t v = hints[rnd() % nh]; if (!lit && rnd() % 3 == 0 && v < 4000000) v *= S0; uint32_t d = (uint32_t)(rnd() % 3 ? rnd() % 9 : rnd() % 48); return rnd() & 1 ? v + d : v > d ? v - d : 1; } } }
static uint32_t gen_hint(int S0) {
  size_t n = 0, lim = rnd() % 16 ? 400000 : 20000000; uint8_t x = (uint8_t)rnd(); int segs = 1 + rnd() % 4; uint8_t set[3][16]; for (int a = 0; a < 3; a++) for (int b = 0; b < 16; b++) set[a][b] = rnd() % 5 ? (uint8_t)rnd() : 0;
  if (rnd() & 1) { size_t r = rnd() & 1 ? S0 * (1 + rnd() % 9) : hpick(S0, 0); const uint8_t *s = set[rnd() % 3]; if (r < lim) for (size_t q = 0; q < r; q++) buf[n++] = s[q % S0]; }
  while (segs--) { size_t l = hpick(S0, 1), r = hpick(S0, 0); if (n + l + r > lim) continue; int up = rnd() & 1;
    while (l--) { x = up ? (uint8_t)(x + 1 + (n >> 8) % 7) : (uint8_t)(x + 1 + rnd() % 254); buf[n++] = x; }
    const uint8_t *s = set[rnd() % 3]; for (size_t q = 0; q < r; q++) buf[n++] = s[q % S0]; }
  if (rnd() & 1) { size_t l = hpick(S0, 1); if (n + l < lim) while (l--) { x = (uint8_t)(x + 1 + rnd() % 254); buf[n++] = x; } }
  if (!n) buf[n++] = 7; return (uint32_t)n; }

/* every byte value occurs: statistics driven codecs */
static uint32_t gen_stats(void) {
  size_t n = 0; int lo = 1 + rnd() % 3, sp = 1 + rnd() % 4, rounds = 1 + rnd() % 3, skip = rnd() % 4 ? 0 : rnd() % 256; int start = (int)rnd();
  for (int r = 0; r < rounds; r++) for (int a = 0; a < 256 - skip; a++) { uint8_t s = (uint8_t)(a * (rnd() % 9 ? 1 : 1) + start); int l = lo + rnd() % sp; while (l--) buf[n++] = s; if (rnd() % 40 == 0) { int x = 240 + rnd() % 40; while (x--) buf[n++] = s; } }
  if (rnd() & 1) { /* single occurrences of one symbol balanced by a long last run of it */ uint8_t s = (uint8_t)rnd(); int k = rnd() % 3000; for (int q = 0; q < k; q++) { buf[n++] = s; buf[n++] = (uint8_t)(s + 1 + rnd() % 255); } int l = rnd() & 1 ? k + 2 : rnd() % 4000; while (l--) buf[n++] = s; }
  return (uint32_t)n; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void save(const char *p, uint32_t n, const char *mode) {
  FILE *f = fopen(p, "wb"); if (!f) { perror(p); exit(3); }
  fprintf(f, "mode=%s\ncodec=%s\nencoder-level=%d\ndecoder-level=%d\nslack=%u\nkind=%s\nwhat=%s\nsize=%u\n\n", mode, codecs[V.codec].name, V.enc, V.dec, V.sl, V.kind, V.msg, n); fwrite(buf, 1, n, f); fclose(f);
  printf("FOUND codec=%s enc=%d dec=%d kind=%s size=%u: %s\n", codecs[V.codec].name, V.enc, V.dec, V.kind, n, V.msg); }
/* greedy shrinking keeps the violation kind */
static int again(int c, int e, int d, uint32_t n) { viol_t k = V; int r = n && run(c, e, d, n, k.sl) && !strcmp(V.kind, k.kind); if (!r) V = k; return r; }
static uint32_t shrink(uint32_t n) {
  int c = V.codec, e = V.enc, d = V.dec; double t = now() + 5; uint8_t *t2 = malloc(n + 1);
  for (uint32_t w = n / 2; w >= 1 && now() < t; w /= 2)
    for (uint32_t p = 0; p + w <= n && now() < t;) {
      memcpy(t2, buf, n); memmove(buf + p, buf + p + w, n - p - w);
      if (again(c, e, d, n - w)) n -= w; else { memcpy(buf, t2, n); p += w; } }
  again(c, e, d, n); free(t2); return n; }

/* distinct (codec, input) pairs in which at least one symbol of the codec's width repeats directly */
static uint64_t *seen; static long distinct;
static void note(int c, uint32_t n) {
  int S = codecs[c].S; uint32_t q = 0; while (q + 2 * S <= n && memcmp(buf + q, buf + q + S, S)) q++; if (q + 2 * S > n) return;
  uint64_t h = 1469598103934665603ULL ^ c, w; for (q = 0; q + 8 <= n; q += 8) { memcpy(&w, buf + q, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } for (; q < n; q++) h = (h ^ buf[q]) * 1099511628211ULL; h ^= h >> 32; h |= 1;
  if (!seen) seen = calloc(1 << 22, 8); for (uint32_t k = 0; k < 64; k++) { uint64_t *e = &seen[(h + k) & ((1 << 22) - 1)]; if (*e == h) return; if (!*e) { *e = h; distinct++; return; } } }
int main(int ac, char **av) {
  static uint8_t alt[1 << 16]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
  int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGTRAP }; for (int k = 0; k < 7; k++) sigaction(sg[k], &sa, 0);
  inE = galloc(CAP + PAD); outE = galloc(CAP * 2); cE = galloc(CAP * 2); dE = galloc(CAP + PAD); buf = galloc(CAP + PAD) - CAP - PAD; st1 = galloc(CAP * 2) - CAP * 2;
  _DetectCPUFeatures();
  hw = avx512FSupported && avx512BWSupported ? 8 : avx2Supported ? 7 : avxSupported ? 6 : sse41Supported ? 4 : ssse3Supported ? 3 : 1;
  if (ac >= 3 && !strcmp(av[1], "replay")) {
    FILE *f = fopen(av[2], "rb"); if (!f) { perror(av[2]); return 3; }
    char line[512], mode[32] = "", codec[128] = "", kind[48] = ""; int e = 0, d = 0; uint32_t sl = 0, n = 0;
    while (fgets(line, sizeof line, f) && line[0] != '\n') { sscanf(line, "mode=%31s", mode); sscanf(line, "codec=%127s", codec); sscanf(line, "encoder-level=%d", &e); sscanf(line, "decoder-level=%d", &d); sscanf(line, "slack=%u", &sl); sscanf(line, "kind=%47s", kind); sscanf(line, "size=%u", &n); }
    n = (uint32_t)fread(buf, 1, n, f); fclose(f); kinds = kind; rs = 1;
    for (unsigned c = 0; c < NC; c++) if (!strcmp(codecs[c].name, codec)) for (int k = 0; k < 20; k++) if (!strcmp(mode, "reject") ? rejects(c, e, n) : run(c, e, d, n, sl)) { printf("REPRODUCED %s: %s\n", codec, V.msg); return 1; }
    printf("not reproduced\n"); return 0; }
  if (ac < 6) return 3;
  const char *fam = av[1]; kinds = av[2]; uint64_t seed = strtoull(av[3], 0, 10); double secs = atof(av[4]);
  rs = seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; for (int k = 0; k < 8; k++) rnd();
  int sel[NC], ns = 0; regex_t re; if (ac > 6 && regcomp(&re, av[6], REG_EXTENDED | REG_NOSUB)) return 3;
  for (unsigned c = 0; c < NC; c++) if ((!strcmp(fam, "all") || strstr(fam, codecs[c].family)) && (ac <= 6 || !regexec(&re, codecs[c].name, 0, 0, 0))) sel[ns++] = c;
  if (!ns) { printf("no codec\n"); return 3; }
  if (getenv("VC_HINTS")) for (char *h = strdup(getenv("VC_HINTS")), *t = strtok(h, ","); t && nh < 512; t = strtok(0, ",")) if ((hints[nh] = (uint32_t)strtoul(t, 0, 10))) nh++;
  double t0 = now(); long cases = 0, bytes = 0, rej = 0; int pass = 0; int nl = 0; while (nl < 6 && levels[nl] <= hw) nl++;
  int perm = 0;
  while (now() - t0 < secs || pass < 1) {
    double fr = (now() - t0) / secs;
    int cls = pass % 32 == 31 ? (fr > 0.4 && rnd() % 4 == 0 ? 2 : 1) : 0; int worst = pass % 16 == 15;
    for (int q = 0; q < ns; q++) {
      int c = sel[(q + perm) % ns]; const codec_t *k = &codecs[c];
      if (pass && now() - t0 > secs) break;
      int reps = cls ? 1 : 40;
      for (int x = 0; x < reps; x++) {
        uint32_t n = nh && rnd() % 2 ? gen_hint(k->S) : x == 39 && rnd() % 3 == 0 ? gen_block(k->S, rnd() % 4 ? 20000 : 300000) : worst && x == 0 ? gen_worst(k->S, (rnd() % 8 || !cls) ? 3000 : 9000000) : !cls && x < 3 && rnd() % 2 ? gen_stats() : gen(k->S, cls);
        if (n >= 32 && rnd() % 4 == 0) n &= ~31u; /* aligned buffers */
        int e = levels[rnd() % nl], d = levels[rnd() % nl];
        cases++; bytes += n; note(c, n);
        uint32_t es = strstr(kinds, "strict-reads") ? 0 : enc_slack(k);
        if (run(c, e, d, n, es)) { n = shrink(n); save(av[5], n, "run"); return 1; }
        if (x < 2 && n < 5000 && (kind_on("reject") || (kind_on("enc-write") && !strcmp(k->family, "sections")))) { rej++; if (rejects(c, e, n)) { save(av[5], n, "reject"); return 1; } }
      } }
    pass++; perm++; }
  printf("CASES %ld bytes %ld distinct %ld reject %ld codecs %d levels %d passes %d\n", cases, bytes, distinct, rej, ns, nl, pass);
  return 0; }
