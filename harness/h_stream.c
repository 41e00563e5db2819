/* Compressed streams: reading, writing and closing in the middle, under every bounded schedule of the caller and of the helper threads. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/types.h>
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include "module.h"
#include "common.h"
#include "common_file.h"
#include "explore.h"

/* ---- pipes kept in memory ---- */
#define PN 16
#define FD0 5000
typedef struct { unsigned char buf[65536]; int cap, head, len, rd, wr; } Pipe;
static Pipe pp[PN]; static int ppn, pipecap = 65536, sigblk[64], earlyclose;
static int rready (void *p) { Pipe *q = p; return q->len > 0 || ! q->wr; }
static int wready (void *p) { Pipe *q = p; return q->len < q->cap || ! q->rd; }
int mcs_pipe (int *f) {
  Pipe *p;
  if (ppn >= PN) { x_abort ("too many pipes"); return -1; }
  p = &pp[ppn]; p->cap = pipecap; p->head = p->len = 0; p->rd = p->wr = 1;
  f[0] = FD0 + 2 * ppn; f[1] = f[0] + 1; ppn ++; return 0;
}
static Pipe *pof (int fd, int wr, const char *what) {
  Pipe *p;
  if (fd < FD0 || fd >= FD0 + 2 * ppn || ((fd - FD0) & 1) != wr) { x_abort ("%s on a descriptor which is not that end of a pipe", what); return NULL; }
  p = &pp[(fd - FD0) / 2];
  if (! (wr ? p->wr : p->rd)) { x_abort ("%s on a pipe end already closed", what); return NULL; }
  return p;
}
ssize_t mcs_read (int fd, void *b, size_t n) {
  Pipe *p; size_t i; x_point (); if ((p = pof (fd, 0, "read")) == NULL) return -1;
  if (n == 0) return 0;
  x_wait (rready, p, "data in a pipe");
  if ((size_t) p->len < n) n = p->len;
  for (i = 0; i < n; ) { size_t k = p->cap - p->head; if (k > n - i) k = n - i; memcpy ((char *) b + i, p->buf + p->head, k); i += k; p->head = (p->head + k) % p->cap; }
  p->len -= n; return n;
}
ssize_t mcs_write (int fd, const void *b, size_t n) {
  Pipe *p; size_t i = 0; x_point (); if ((p = pof (fd, 1, "write")) == NULL) return -1;
  while (i < n) {
    size_t k, t;
    x_wait (wready, p, "room in a pipe");
    if (! p->rd) {                                 /* nobody will ever read this */
      struct sigaction sa; int ign = sigaction (SIGPIPE, NULL, &sa) == 0 && sa.sa_handler != SIG_DFL;
      if (! sigblk[x_fiber () & 63] && ! ign) { x_abort ("the process is killed by SIGPIPE: a helper thread writes to a stream that has been closed"); return -1; }
      if (i > 0) return i;
      errno = EPIPE; return -1;
    }
    k = p->cap - p->len; if (k > n - i) k = n - i; t = (p->head + p->len) % p->cap;
    if (t + k <= (size_t) p->cap) memcpy (p->buf + t, (char *) b + i, k); else { size_t h = p->cap - t; memcpy (p->buf + t, (char *) b + i, h); memcpy (p->buf, (char *) b + i + h, k - h); }
    p->len += k; i += k;
    if (i < n) x_point ();
  }
  return n;
}
int mcs_close (int fd) {
  Pipe *p; x_point ();
  if (fd < FD0) return close (fd);
  if ((p = pof (fd, (fd - FD0) & 1, "close")) == NULL) return -1;
  if ((fd - FD0) & 1) p->wr = 0; else p->rd = 0;
  return 0;
}
static ssize_t c_rd (void *c, char *b, size_t n) { return mcs_read ((int) (intptr_t) c, b, n); }
static ssize_t c_wr (void *c, const char *b, size_t n) { ssize_t r = mcs_write ((int) (intptr_t) c, b, n); return r < 0 ? 0 : r; }
static int c_cl (void *c) { return mcs_close ((int) (intptr_t) c); }
FILE *mcs_fdopen (int fd, const char *m) {
  cookie_io_functions_t io = { c_rd, c_wr, NULL, c_cl }; FILE *f;
  if (pof (fd, m[0] == 'w', "fdopen") == NULL) return NULL;
  if ((f = fopencookie ((void *) (intptr_t) fd, m, io)) != NULL) setvbuf (f, NULL, _IOFBF, 4096);
  return f;
}
int mcs_sigmask (int how, const sigset_t *s, sigset_t *o) {
  int f = x_fiber () & 63;
  if (o) { sigemptyset (o); if (sigblk[f]) sigaddset (o, SIGPIPE); }
  if (s) { int in = sigismember (s, SIGPIPE); if (how == SIG_BLOCK) { if (in) sigblk[f] = 1; } else if (how == SIG_UNBLOCK) { if (in) sigblk[f] = 0; } else sigblk[f] = in; }
  return 0;
}
/* ---- reference (de)compression ---- */
enum { F_NONE, F_GZ, F_BZ2, F_XZ, F_LZMA, F_NBR };
static const char *ext[F_NBR] = { "", ".gz", ".bz2", ".xz", ".lzma" };
static size_t pack (int f, const unsigned char *d, size_t n, unsigned char *o, size_t m) {
  if (f == F_NONE) { memcpy (o, d, n); return n; }
  if (f == F_GZ) { z_stream z; size_t r; memset (&z, 0, sizeof (z)); deflateInit2 (&z, 6, Z_DEFLATED, 31, 8, 0); z.next_in = (void *) d; z.avail_in = n; z.next_out = o; z.avail_out = m; deflate (&z, Z_FINISH); r = z.total_out; deflateEnd (&z); return r; }
  if (f == F_BZ2) { unsigned int r = m; return BZ2_bzBuffToBuffCompress ((char *) o, &r, (char *) d, n, 1, 0, 0) == BZ_OK ? r : 0; }
  if (f == F_XZ) { size_t r = 0; return lzma_easy_buffer_encode (0, LZMA_CHECK_CRC64, NULL, d, n, o, &r, m) == LZMA_OK ? r : 0; }
  { lzma_options_lzma op; lzma_stream z = LZMA_STREAM_INIT; size_t r; lzma_lzma_preset (&op, 0); if (lzma_alone_encoder (&z, &op) != LZMA_OK) return 0; z.next_in = d; z.avail_in = n; z.next_out = o; z.avail_out = m; while (lzma_code (&z, LZMA_FINISH) == LZMA_OK) ; r = m - z.avail_out; lzma_end (&z); return r; }
}
/* decompresses a whole file content; -1 if it is not a valid one */
static long unpack (int f, const unsigned char *d, size_t n, unsigned char *o, size_t m) {
  if (f == F_NONE) { memcpy (o, d, n); return n; }
  if (f == F_GZ) { z_stream z; long r; int e; memset (&z, 0, sizeof (z)); inflateInit2 (&z, 31); z.next_in = (void *) d; z.avail_in = n; z.next_out = o; z.avail_out = m; e = inflate (&z, Z_FINISH); r = z.total_out; n = z.avail_in; inflateEnd (&z); return e == Z_STREAM_END && n == 0 ? r : -1; }
  if (f == F_BZ2) { unsigned int r = m; return BZ2_bzBuffToBuffDecompress ((char *) o, &r, (char *) d, n, 0, 0) == BZ_OK ? (long) r : -1; }
  { lzma_stream z = LZMA_STREAM_INIT; lzma_ret e; long r; if (lzma_auto_decoder (&z, UINT64_MAX, 0) != LZMA_OK) return -1; z.next_in = d; z.avail_in = n; z.next_out = o; z.avail_out = m; while ((e = lzma_code (&z, LZMA_FINISH)) == LZMA_OK) ; r = m - z.avail_out; n = z.avail_in; lzma_end (&z); return e == LZMA_STREAM_END && n == 0 ? r : -1; }
}
/* ---- data ---- */
#define MAXD 700000
static unsigned char dat[MAXD], pk[MAXD + 100000], got[MAXD + 100000], tmp[MAXD + 100000];
enum { C_ZERO, C_TEXT, C_RAND, C_NBR }; static const char *cnam[C_NBR] = { "constant", "text", "random" };
static void fill (unsigned char *d, int kind, size_t n, unsigned seed) {
  u64 x = 88172645463325252ULL + seed * 7919; size_t i;
  for (i = 0; i < n; i ++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; d[i] = kind == C_ZERO ? '7' : kind == C_RAND ? (unsigned char) (x >> 24) : (i % 7 == 6 ? '\n' : "0123456789 \t"[(x >> 24) % 12]); }
}
static char path[4][400];
static int put (const char *p, const unsigned char *d, size_t n) { FILE *f = fopen (p, "wb"); if (! f) return 1; if (n) fwrite (d, 1, n, f); fclose (f); return 0; }
static size_t gather (const char *p, unsigned char *d, size_t m) { FILE *f = fopen (p, "rb"); size_t n; if (! f) return (size_t) -1; n = fread (d, 1, m, f); fclose (f); return n; }

/* ---- scenarios ---- */
enum { A_READ, A_CLOSE, A_DAMAGED, A_WRITE, A_COPY, A_SHARE };
typedef struct { int act, fmt, fmt2, dash, chunk, how, cont, seed, cut, dmg; size_t n, stop; long m1, pkn; } Scn;     /* m1: size of the first member, or -1 */
static u64 outs;
static FILE *svin, *svout;
static void startrun (void) { ppn = 0; memset (sigblk, 0, sizeof (sigblk)); mc_errreset (); }
static void endrun (long live, int quiet) {
  int i;
  if (x_live () != 0) { x_abort ("a helper thread is still running after the block of files has been closed"); return; }
  for (i = 0; i < ppn; i ++) if (pp[i].rd || pp[i].wr) { x_abort ("the %s end of a pipe is left open after the block of files has been closed", pp[i].rd ? "reading" : "writing"); return; }
  if (mc_live () != live) { mc_dump_live (); x_abort ("%ld memory blocks are left after the block of files has been closed", mc_live () - live); return; }
  if (quiet && mc_errnbr) { x_abort ("an error is reported although nothing is wrong: %s", mc_errbuf); return; }
}
static void opened (int r) { if (r == 1 && x_createfails ()) return; x_abort ("the files cannot be opened (%d): %s", r, mc_errbuf); }
static void body (void *arg) {
  Scn *s = arg; File ft[3]; long live = mc_live (); size_t n = 0, k; int r, c, nf = 1;
  startrun (); mc_mark (); memset (ft, 0, sizeof (ft));
  ft[0].flagval = s->act == A_WRITE ? FILEMODEW : FILEMODER; ft[1].flagval = s->act == A_SHARE ? FILEMODER : FILEMODEW; ft[2].flagval = FILEMODEW;
  if (s->act == A_COPY || s->act == A_SHARE) nf = s->act == A_COPY ? 3 : 2;
  svin = stdin; svout = stdout;
  if (s->dash) { if (s->act == A_WRITE) stdout = fopen (path[0], "w"); else stdin = fopen (path[0], "r"); }
  fileBlockInit (ft, nf);
  { static char dn[16]; sprintf (dn, "-%s", ext[s->fmt]); ft[0].nameptr = s->dash ? dn : path[0]; }
  if (nf == 3) { ft[1].nameptr = path[1]; ft[2].nameptr = path[2]; }
  if (s->act == A_SHARE) ft[1].nameptr = path[0];
  r = fileBlockOpen (ft, nf);
  if (r != 0) { opened (r); fileBlockClose (ft, nf); goto done; }
  if (s->act == A_SHARE) { if (ft[0].fileptr != ft[1].fileptr) { x_abort ("two inputs of the same name do not share their stream"); return; } }
  switch (s->act) {
    case A_READ: case A_DAMAGED: case A_SHARE:
      while (n < sizeof (got) && (k = fread (got + n, 1, s->chunk, (s->act == A_SHARE && (n / s->chunk) % 2) ? ft[1].fileptr : ft[0].fileptr)) > 0) n += k;
      break;
    case A_CLOSE:
      while (n < s->stop && (k = fread (got + n, 1, s->stop - n < (size_t) s->chunk ? s->stop - n : (size_t) s->chunk, ft[0].fileptr)) > 0) n += k;
      break;
    case A_WRITE:
      while (n < s->n) { k = s->n - n < (size_t) s->chunk ? s->n - n : (size_t) s->chunk; if (fwrite (dat + n, 1, k, ft[0].fileptr) != k) { x_abort ("data cannot be written to the stream"); return; } n += k; if (s->how) fflush (ft[0].fileptr); }
      break;
    case A_COPY:
      while (n < sizeof (got) && (k = fread (got + n, 1, s->chunk, ft[0].fileptr)) > 0) { fwrite (got + n, 1, k, ft[1].fileptr); fwrite (got + n, 1, k, ft[2].fileptr); n += k; }
      break;
  }
  fileBlockClose (ft, nf);
  if (s->act == A_WRITE || s->act == A_COPY) {
    for (c = s->act == A_WRITE ? 0 : 1; c < nf; c ++) {
      int f = s->act == A_WRITE ? s->fmt : c == 1 ? s->fmt2 : F_NONE; long v; size_t m;
      if (s->dash && f == F_NONE) { fflush (stdout); }
      m = gather (path[c], tmp, sizeof (tmp)); if (m == (size_t) -1) { x_abort ("no output file"); return; }
      v = unpack (f, tmp, m, pk, sizeof (pk));
      if (v < 0) { x_abort ("what was written (%ld bytes) does not decompress", (long) s->n); return; }
      if (v != (long) s->n || memcmp (pk, dat, s->n)) { x_abort ("what was written decompresses to %ld bytes instead of the %ld written", v, (long) s->n); return; }
    }
  }
  else if (s->act == A_DAMAGED) { if (s->how == 0 && (s->fmt != F_GZ || s->pkn >= 10) && (n > s->n || memcmp (got, dat, n))) { x_abort ("a truncated file gives %ld bytes that are not a prefix of its content", (long) n); return; } }
  else {
    size_t w = s->act == A_CLOSE ? (s->stop < s->n ? s->stop : s->n) : s->n;
    if (n != w) { x_abort ("the stream gives %ld bytes instead of %ld", (long) n, (long) w); return; }
    if (memcmp (got, dat, n)) { x_abort ("the stream gives other bytes than those compressed"); return; }
  }
  outs ++;
done:
  if (s->dash) {
    if (s->fmt == F_NONE) fclose (s->act == A_WRITE ? stdout : stdin);        /* a plain standard stream is left to the caller */
    stdin = svin; stdout = svout;
  }
  endrun (live, s->act != A_DAMAGED && ! x_createfails ());
}
static void go (Scn *s, int bound, u64 max, const char *what) {
  XStat st; char nm[64];
  if (mc_skip ()) return;
  snprintf (path[0], sizeof (path[0]), "%s/f0%s", mc_tmpdir (), ext[s->fmt]);
  snprintf (path[1], sizeof (path[1]), "%s/f1%s", mc_tmpdir (), ext[s->fmt2]);
  snprintf (path[2], sizeof (path[2]), "%s/f2", mc_tmpdir ());
  if (! mc_case ("%s%s %s, %ld bytes, pipe of %d, units of %d, %d departures", s->dash ? "-" : "file", ext[s->fmt], what, (long) s->n, pipecap, s->chunk, bound)) return;
  if (s->cont >= 0) fill (dat, s->cont, s->n, s->seed);
  if (s->m1 < 0) s->pkn = pack (s->fmt, dat, s->n, pk, sizeof (pk));
  else { s->pkn = pack (s->fmt, dat, s->m1, pk, sizeof (pk)); s->pkn += pack (s->fmt, dat + s->m1, s->n - s->m1, pk + s->pkn, sizeof (pk) - s->pkn); }
  if (s->act == A_DAMAGED && s->how == 0) { long full = s->pkn, x = s->cut, cut = x == 0 ? 0 : x == 1 ? 1 : x == 2 ? 9 : x == 3 ? full / 2 : x == 4 ? full - 1 : x == 5 ? full - 8 : x == 6 ? full / 4 : full - full / 4; if (cut < 0 || cut >= full) return; s->pkn = cut; }
  if (s->act == A_DAMAGED && s->how == 1) pk[(s->pkn - 1) * s->cut / s->dmg] ^= 0x55;
  if (s->act == A_WRITE) s->pkn = 0;
  if (put (path[0], pk, s->pkn)) { mc_fail ("no scratch file"); return; }
  x_explore (body, s, bound, max, s->act == A_COPY || s->act == A_SHARE ? 0 : XP_CREATEFAIL, &st);
  stdin = svin ? svin : stdin; stdout = svout ? svout : stdout;
  mc_note ("schedules", st.runs); mc_note ("decisions", st.points); if (st.truncated) mc_note ("truncated", 1);
  if (st.maxpoints > 3) mc_nontrivial ();
  mc_state (mc_hashi (mc_hashi (mc_hashi (mc_hashi (0, s->act), s->fmt * 8 + s->fmt2), s->n * 16 + s->dash), s->stop * 4 + s->chunk));
  sprintf (nm, "%s", s->act == A_READ ? "reads" : s->act == A_CLOSE ? "early_closes" : s->act == A_DAMAGED ? "damaged" : s->act == A_WRITE ? "writes" : s->act == A_COPY ? "copies" : "shared"); mc_note (nm, 1);
}
static const int sizes[] = { 0, 1, 5, 4095, 4096, 4097, 8192, 16384, 20000, 65535, 65536, 65537, 69632, 131071, 131072, 131073, 135168, 196608, 262143, 262144, 262145, 300000, 524288, 600000 };
#define SN ((int) (sizeof (sizes) / sizeof (sizes[0])))
static const char quick[SN] = { 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1, 1, 0, 0, 0, 1, 0, 0, 0 };     /* sizes of the quick tier */
static const int chunks[] = { 1000, 4096, 65536, 1000000 };
void mc_run (void) {
  int f, c, i, k, j, T = mc_thorough; Scn s; char w[200];
  static const int caps[] = { 65536, 4096, 8192 };
  for (f = 0; f < F_NBR; f ++) for (i = 0; i < SN; i ++) for (c = 0; c < C_NBR; c ++) {
    size_t n = sizes[i]; int small = n <= 20000;
    if (n == 0 && c) continue;
    if (! T && (! quick[i] || (c == C_TEXT && n > 5000))) continue;
    for (k = 0; k < 3; k ++) {                     /* pipe capacities */
      int bnd, far; pipecap = caps[k];
      if (k == 2 && ! T) continue;
      far = small || (pipecap == 65536 && n <= 140000);
      bnd = f == F_NONE ? 0 : T ? (small ? 4 : 2) : (small ? 2 : 1);
      memset (&s, 0, sizeof (s)); s.fmt = f; s.n = n; s.cont = c; s.seed = i; s.m1 = -1;
      for (j = 0; j < 4; j ++) {                   /* complete reads and writes, as named files and as standard streams */
        if (j != 1 && ! far && ! T) continue;
        s.chunk = chunks[j];
        for (s.dash = 0; s.dash < 2; s.dash ++) {
          if (s.dash && j != 1) continue;
          s.act = A_READ; snprintf (w, sizeof (w), "%s read completely", cnam[c]); go (&s, j == 1 ? bnd : f ? 1 : 0, T ? 4000 : 50, w);
          s.act = A_WRITE; for (s.how = 0; s.how < 2; s.how ++) { if (s.how && (s.dash || j == 0)) continue; snprintf (w, sizeof (w), "%s written%s", cnam[c], s.how ? " and flushed every time" : ""); go (&s, j == 1 ? bnd : f ? 1 : 0, T ? (f == F_XZ || f == F_LZMA ? 200 : 1000) : f == F_XZ || f == F_LZMA || n > 200000 ? 5 : 20, w); }
          s.how = 0;
        }
      }
      if (n > 0) for (s.dash = 0, s.chunk = 4096; s.dash < 2; s.dash ++) {           /* closes in the middle */
        size_t st[12]; int q = 0, x;
        st[q ++] = 0; st[q ++] = 1; st[q ++] = n - 1; st[q ++] = n; st[q ++] = n / 2; if (n > 4096) { st[q ++] = 4096; st[q ++] = n - 4096; } if (n > 65536) { st[q ++] = 65536; st[q ++] = n - 65536; } if (n > 131072) { st[q ++] = 131072; st[q ++] = 131073; }
        for (x = 0; x < q; x ++) { s.act = A_CLOSE; s.stop = st[x]; if (s.dash && x > 4) continue; snprintf (w, sizeof (w), "%s closed after %ld", cnam[c], (long) s.stop); go (&s, bnd, T ? 4000 : 40, w); }
      }
      if (n > 0 && f != F_NONE && k == 0 && (T || i % 5 == 0)) {         /* damaged files */
        s.dash = 0; s.act = A_DAMAGED; s.chunk = 4096; s.how = 0;
        for (s.cut = 0; s.cut < 8; s.cut ++) { snprintf (w, sizeof (w), "%s truncated (%d)", cnam[c], s.cut); go (&s, 1, T ? 500 : 8, w); }
        s.how = 1; s.dmg = T ? 63 : 11;
        for (s.cut = 0; s.cut <= s.dmg; s.cut ++) { snprintf (w, sizeof (w), "%s with one byte damaged (%d/%d)", cnam[c], s.cut, s.dmg); go (&s, 1, T ? 100 : 4, w); }
      }
    }
    if (f != F_NONE && f != F_LZMA && n <= 300000) {              /* several members one after another */
      int m; size_t cut[4] = { n / 2, n, 0, n > 0 ? n - 1 : 0 };
      pipecap = 65536; memset (&s, 0, sizeof (s)); s.fmt = f; s.n = n; s.cont = c; s.seed = i; s.chunk = 4096; s.act = A_READ;
      for (m = 0; m < 4; m ++) { s.m1 = cut[m]; snprintf (w, sizeof (w), "%s of two members, %ld and %ld, read", cnam[c], (long) cut[m], (long) (n - cut[m])); go (&s, 1, T ? 1000 : 20, w); }
    }
  }
  /* members whose compressed form fills the internal buffers exactly */
  for (f = F_GZ; f <= F_BZ2; f ++) for (i = 1; i <= (T ? 6 : 3); i ++) {
    static const int found[2][6][2] = { { { 8169, 1 }, { 16361, 1 }, { 24548, 1 }, { 32740, 1 }, { 40927, 1 }, { 49119, 1 } }, { { 4487, 5 }, { 9523, 1 }, { 14507, 1 }, { 19520, 5 }, { 24521, 2 }, { 29515, 1 } } };   /* sizes and seeds of random data whose compressed size is exactly that */
    long want = f == F_BZ2 ? 5000L * i : 8192L * i, n = found[f == F_BZ2][i - 1][0]; int ok = found[f == F_BZ2][i - 1][1];
    pipecap = 65536; fill (dat, C_RAND, n, ok);
    if ((long) pack (f, dat, n, pk, sizeof (pk)) != want) mc_note ("exact_sizes_missed", 1);
    memset (&s, 0, sizeof (s)); s.fmt = f; s.n = n; s.cont = C_RAND; s.seed = ok; s.m1 = -1; s.chunk = 4096;
    for (s.dash = 0; s.dash < 2; s.dash ++) { s.act = A_READ; snprintf (w, sizeof (w), "compressed to exactly %ld, read", want); go (&s, 2, T ? 5000 : 100, w); s.act = A_CLOSE; s.stop = n - 1; go (&s, 2, T ? 5000 : 100, "compressed to a multiple of the buffer, closed before the end"); }
    s.dash = 0; s.act = A_READ; s.m1 = n; s.cont = -1; s.n = n + 3000; fill (dat, C_RAND, n, ok); fill (dat + n, C_TEXT, 3000, 5); go (&s, 2, T ? 5000 : 100, "second member starting on a buffer boundary");
  }
  /* three streams at the same time, and two names for one stream */
  for (i = T ? 0 : 1; i < SN; i += T ? 1 : 5) for (f = F_NONE; f < F_NBR; f ++) for (k = F_NONE; k < F_NBR; k ++) {
    size_t n = sizes[i]; memset (&s, 0, sizeof (s)); pipecap = n % 2 ? 65536 : 8192; s.cont = C_TEXT; s.seed = i; s.m1 = -1;
    s.fmt = f; s.fmt2 = k; s.n = n; s.chunk = 3000; s.act = A_COPY;
    go (&s, f || k ? 1 : 0, T ? 200 : 5, "copied to a compressed and a plain file");
    if (k == 0) { s.act = A_SHARE; go (&s, f ? 1 : 0, T ? 500 : 10, "read through two names"); }
  }
}
