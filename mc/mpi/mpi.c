#define _GNU_SOURCE
#include "mcmpi.h"
#include <signal.h>
#include <sys/mman.h>
#define NOI __attribute__ ((no_sanitize ("address", "thread")))
#define MAXP 16
#define MAXC 4096
u64 pm_messages, pm_collectives, pm_choices;
static int procnbr, mode;
static void *xalloc (size_t n) { void *p = calloc (n ? n : 1, 1); if (p == NULL) abort (); return p; }

/* ---- global data of each process ---- */
extern char __start_mcdata[], __stop_mcdata[], __start_mcbss[], __stop_mcbss[];
static char *img[MAXP + 1]; static int imgset[MAXP + 1]; static size_t dsiz, bsiz; static int curproc;
/* Only the pages of the data section that were ever written to are exchanged: the others are write-protected until the first write. */
static char *isdirty; static int *dirty; static int dirtynbr, pagnbr; static char *pag0;
static struct sigaction oldsegv;
NOI static void bcopy_ (char *d, const char *s, size_t n) { size_t k = n / 8; volatile u64 *a = (volatile u64 *) d; const u64 *b = (const u64 *) s; while (k --) *a ++ = *b ++; n &= 7; { volatile char *c = (volatile char *) a; const char *e = (const char *) b; while (n --) *c ++ = *e ++; } }
NOI static void pagerange (int i, size_t *o, size_t *n) { char *a = pag0 + 4096L * i, *b = a + 4096; if (a < __start_mcdata) a = __start_mcdata; if (b > __stop_mcdata) b = __stop_mcdata; *o = a - __start_mcdata; *n = b - a; }
NOI static void adddirty (int i) { if (! isdirty[i]) { isdirty[i] = 1; dirty[dirtynbr ++] = i; } }
NOI static void segv (int sig, siginfo_t *si, void *ctx) {
  char *a = si->si_addr;
  if (a >= __start_mcdata && a < __stop_mcdata) { int i = (a - pag0) / 4096; if (! isdirty[i]) { mprotect (pag0 + 4096L * i, 4096, PROT_READ | PROT_WRITE); adddirty (i); return; } }
  if (oldsegv.sa_flags & SA_SIGINFO) oldsegv.sa_sigaction (sig, si, ctx); else { signal (SIGSEGV, SIG_DFL); raise (SIGSEGV); }
}
NOI static void saveimg (int p) { int k; for (k = 0; k < dirtynbr; k ++) { size_t o, n; pagerange (dirty[k], &o, &n); bcopy_ (img[p] + o, __start_mcdata + o, n); } bcopy_ (img[p] + dsiz, __start_mcbss, bsiz); imgset[p] = 1; }
NOI static void loadimg (int p) { int k; if (! imgset[p]) p = 0; for (k = 0; k < dirtynbr; k ++) { size_t o, n; pagerange (dirty[k], &o, &n); bcopy_ (__start_mcdata + o, img[p] + o, n); } bcopy_ (__start_mcbss, img[p] + dsiz, bsiz); }
NOI static void procswitch (int from, int to) {
  int i, k;
  if (from == -1) {
    if (curproc != 0) { loadimg (0); curproc = 0; }
    for (i = 1; i <= MAXP; i ++) if (imgset[i]) { for (k = 0; k < dirtynbr; k ++) { size_t o, n; pagerange (dirty[k], &o, &n); bcopy_ (img[i] + o, img[0] + o, n); } bcopy_ (img[i] + dsiz, img[0] + dsiz, bsiz); imgset[i] = 0; }
    return;
  }
  saveimg (from); loadimg (to); curproc = to;
}
NOI static void datainit (void) {
  int i; struct sigaction sa; size_t a, e;
  if (img[0]) return;
  dsiz = __stop_mcdata - __start_mcdata; bsiz = __stop_mcbss - __start_mcbss;
  pag0 = (char *) ((size_t) __start_mcdata & ~4095UL); pagnbr = (__stop_mcdata - pag0 + 4095) / 4096;
  isdirty = xalloc (pagnbr + 1); dirty = xalloc ((pagnbr + 1) * sizeof (int));
  for (i = 0; i <= MAXP; i ++) { img[i] = xalloc (dsiz + bsiz + 16); bcopy_ (img[i], __start_mcdata, dsiz); bcopy_ (img[i] + dsiz, __start_mcbss, bsiz); }
  imgset[0] = 1;
  memset (&sa, 0, sizeof (sa)); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction (SIGSEGV, &sa, &oldsegv);
  a = (size_t) __start_mcdata; e = (size_t) __stop_mcdata;
  for (i = 0; i < pagnbr; i ++) { size_t p = (size_t) pag0 + 4096L * i; if (p < a || p + 4096 > e || mprotect ((void *) p, 4096, PROT_READ)) adddirty (i); }
}

/* ---- datatypes ---- */
typedef struct { long disp; int len, kind; } Blk;
typedef struct { int used, committed, basic, nb; Blk *b; long ext, size; int owner; } Type;
static Type typ[2048]; static int typnbr; enum { TFIRST = 20 };
static const int bsize[] = { 0, 1, 1, 4, 8, 4, 8, 4, 8, 2, 1, 4, 8 };
static Type *ty (int t, int comm) {
  static Type b[13]; if (t > 0 && t < 13) { b[t].used = b[t].committed = 1; b[t].basic = t; b[t].ext = b[t].size = bsize[t]; b[t].nb = 0; return &b[t]; }
  if (t < TFIRST || t >= typnbr || ! typ[t].used) x_abort ("invalid datatype %d", t);
  if (comm && ! typ[t].committed) x_abort ("communication with a datatype that was not committed");
  if (typ[t].owner != x_proc ()) x_abort ("datatype of another process");
  return &typ[t];
}
static int newtype (int nb) { int i; for (i = TFIRST; i < typnbr; i ++) if (! typ[i].used) break; if (i >= 2048) x_abort ("too many datatypes: they are not freed"); if (typnbr <= i) typnbr = i + 1; if (typnbr < TFIRST) typnbr = TFIRST; memset (&typ[i], 0, sizeof (Type)); typ[i].used = 1; typ[i].b = xalloc (nb * sizeof (Blk)); typ[i].owner = x_proc (); return i; }
static void addblk (Type *t, int o, long disp, int cnt) {    /* cnt copies of type o at disp; t->b is large enough */
  Type *s = ty (o, 0); int i, k;
  for (i = 0; i < cnt; i ++) if (s->nb == 0) { t->b[t->nb].disp = disp + i * s->ext; t->b[t->nb].len = s->size; t->b[t->nb].kind = s->basic; t->nb ++; t->size += s->size; if (disp + (i + 1) * s->ext > t->ext) t->ext = disp + (i + 1) * s->ext; }
    else { for (k = 0; k < s->nb; k ++) { t->b[t->nb] = s->b[k]; t->b[t->nb].disp += disp + i * s->ext; t->nb ++; t->size += s->b[k].len; } if (disp + (i + 1) * s->ext > t->ext) t->ext = disp + (i + 1) * s->ext; }
}
static int blks (int o) { Type *s = ty (o, 0); return s->nb ? s->nb : 1; }
int MPI_Type_contiguous (int n, MPI_Datatype o, MPI_Datatype *r) { int i; if (n < 0) x_abort ("MPI_Type_contiguous of %d elements", n); i = newtype (n * blks (o) + 1); addblk (&typ[i], o, 0, n); *r = i; return 0; }
int MPI_Type_create_struct (int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *o, MPI_Datatype *r) { int i, k, nb = 1; for (k = 0; k < n; k ++) nb += bl[k] * blks (o[k]); i = newtype (nb); for (k = 0; k < n; k ++) addblk (&typ[i], o[k], d[k], bl[k]); typ[i].ext = (typ[i].ext + 7) & ~7L; *r = i; return 0; }
int MPI_Type_create_hindexed (int n, const int *bl, const MPI_Aint *d, MPI_Datatype o, MPI_Datatype *r) { int i, k, nb = 1; for (k = 0; k < n; k ++) nb += bl[k] * blks (o); i = newtype (nb); for (k = 0; k < n; k ++) addblk (&typ[i], o, d[k], bl[k]); *r = i; return 0; }
int MPI_Type_create_resized (MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *r) { int i = newtype (blks (o) + 1); addblk (&typ[i], o, 0, 1); typ[i].ext = ext; *r = i; return 0; }
int MPI_Type_commit (MPI_Datatype *t) { ty (*t, 0)->committed = 1; return 0; }
int MPI_Type_free (MPI_Datatype *t) { Type *p = ty (*t, 0); if (*t < TFIRST) x_abort ("predefined datatype freed"); p->used = 0; free (p->b); *t = 0; return 0; }
int MPI_Type_size (MPI_Datatype t, int *s) { *s = ty (t, 0)->size; return 0; }
int MPI_Type_get_extent (MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = ty (t, 0)->ext; return 0; }
int MPI_Get_address (const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return 0; }
static void chkbuf (const void *p, long n) { const char *c = p; if (n > 0 && c == NULL) x_abort ("null buffer in communication"); }
static void pack (char *d, const void *s, long cnt, int t) { Type *y = ty (t, 1); long i; int k; if (cnt < 0) x_abort ("negative element count"); chkbuf (s, cnt * y->size); if (y->nb == 0) { if (cnt) memcpy (d, s, cnt * y->size); return; } for (i = 0; i < cnt; i ++) for (k = 0; k < y->nb; k ++) { memcpy (d, (const char *) s + i * y->ext + y->b[k].disp, y->b[k].len); d += y->b[k].len; } }
static void unpack (void *d, const char *s, long cnt, int t) { Type *y = ty (t, 1); long i; int k; chkbuf (d, cnt * y->size); if (y->nb == 0) { if (cnt) memcpy (d, s, cnt * y->size); return; } for (i = 0; i < cnt; i ++) for (k = 0; k < y->nb; k ++) { memcpy ((char *) d + i * y->ext + y->b[k].disp, s, y->b[k].len); s += y->b[k].len; } }
static void unpackb (void *d, const char *s, long bytes, int t) {  /* possibly partial last element */
  Type *y = ty (t, 1); long n = y->size ? bytes / y->size : 0, r = bytes - n * y->size; int k; unpack (d, s, n, t);
  if (r) { s += n * y->size; if (y->nb == 0) { memcpy ((char *) d + n * y->ext, s, r); return; } for (k = 0; k < y->nb && r > 0; k ++) { long l = y->b[k].len < r ? y->b[k].len : r; memcpy ((char *) d + n * y->ext + y->b[k].disp, s, l); s += l; r -= l; } } }
/* memory description usable from another process' context */
typedef struct { int nb; Blk *b; long ext, size; int basic; } TCopy;
static TCopy tcopy (int t) { TCopy c; Type *y = ty (t, 1); c.nb = y->nb; c.ext = y->ext; c.size = y->size; c.basic = y->basic; c.b = NULL; if (y->nb) { c.b = xalloc (y->nb * sizeof (Blk)); memcpy (c.b, y->b, y->nb * sizeof (Blk)); } return c; }
static void cpack (char *d, const void *s, long cnt, const TCopy *y) { long i; int k; if (y->nb == 0) { if (cnt) memcpy (d, s, cnt * y->size); return; } for (i = 0; i < cnt; i ++) for (k = 0; k < y->nb; k ++) { memcpy (d, (const char *) s + i * y->ext + y->b[k].disp, y->b[k].len); d += y->b[k].len; } }
static void cunpack (void *d, const char *s, long bytes, const TCopy *y) { long n = y->size ? bytes / y->size : 0, r = bytes - n * y->size, i; int k; if (y->nb == 0) { if (bytes) memcpy (d, s, bytes); return; } for (i = 0; i < n; i ++) for (k = 0; k < y->nb; k ++) { memcpy ((char *) d + i * y->ext + y->b[k].disp, s, y->b[k].len); s += y->b[k].len; } for (k = 0; k < y->nb && r > 0; k ++) { long l = y->b[k].len < r ? y->b[k].len : r; memcpy ((char *) d + n * y->ext + y->b[k].disp, s, l); s += l; r -= l; } }

/* ---- operations ---- */
typedef struct { int used, commute, owner; MPI_User_function *f; } Oper;
static Oper opr[512]; static int oprnbr; enum { OFIRST = 20 };
int MPI_Op_create (MPI_User_function *f, int c, MPI_Op *r) { int i; for (i = OFIRST; i < oprnbr; i ++) if (! opr[i].used) break; if (i >= 512) x_abort ("too many operations: they are not freed"); if (oprnbr <= i) oprnbr = i + 1; opr[i].used = 1; opr[i].commute = c; opr[i].f = f; opr[i].owner = x_proc (); *r = i; return 0; }
int MPI_Op_free (MPI_Op *o) { if (*o < OFIRST || *o >= oprnbr || ! opr[*o].used) x_abort ("invalid operation freed"); opr[*o].used = 0; *o = 0; return 0; }
#define RED(T) { T *a = (T *) in, *b = (T *) io; long i; for (i = 0; i < n; i ++) switch (op) { case MPI_SUM: b[i] = a[i] + b[i]; break; case MPI_MAX: b[i] = a[i] > b[i] ? a[i] : b[i]; break; case MPI_MIN: b[i] = a[i] < b[i] ? a[i] : b[i]; break; case MPI_PROD: b[i] = a[i] * b[i]; break; case MPI_LOR: b[i] = a[i] || b[i]; break; case MPI_LAND: b[i] = a[i] && b[i]; break; default: x_abort ("operation %d not defined on this type", op); } return; }
static void redop (void *in, void *io, int n, int t, int op) {     /* io = in op io */
  Type *y = ty (t, 1);
  if (op >= OFIRST) { MPI_Datatype tt = t; int nn = n; if (op >= oprnbr || ! opr[op].used) x_abort ("invalid operation %d", op); opr[op].f (in, io, &nn, &tt); return; }
  if (y->nb) x_abort ("predefined operation on a derived datatype");
  if (op == MPI_BOR || op == MPI_BAND) { long i, s = n * y->size; char *a = in, *b = io; if (y->basic == MPI_DOUBLE || y->basic == MPI_FLOAT) x_abort ("bitwise operation on reals"); for (i = 0; i < s; i ++) b[i] = op == MPI_BOR ? (a[i] | b[i]) : (a[i] & b[i]); return; }
  switch (y->basic) { case MPI_INT: case MPI_INT32_T: RED (int) case MPI_LONG: case MPI_INT64_T: case MPI_LONG_LONG: RED (long) case MPI_DOUBLE: RED (double) case MPI_FLOAT: RED (float) case MPI_SHORT: RED (short) case MPI_UNSIGNED: RED (unsigned) case MPI_BYTE: x_abort ("arithmetic operation on bytes"); default: RED (char) }
}

/* ---- communicators ---- */
typedef struct Coll_ Coll;
typedef struct { int used, n, proc[MAXP], freed[MAXP]; long seq[MAXP]; Coll *colls; } Comm;
static Comm com[MAXC]; static int comnbr;
static int crank (Comm *c) { int i, p = x_proc () - 1; for (i = 0; i < c->n; i ++) if (c->proc[i] == p) return i; return -1; }
static Comm *cm (int c, int *rk) {
  int r; if (c <= 0 || c >= comnbr || ! com[c].used) x_abort ("use of an invalid or freed communicator");
  if ((r = crank (&com[c])) < 0) x_abort ("use of a communicator this process does not belong to");
  if (com[c].freed[r]) x_abort ("use of a freed communicator");
  if (rk) *rk = r; return &com[c];
}
static int newcomm (void) { int i; for (i = 1; i < comnbr; i ++) if (! com[i].used) break; if (i >= MAXC) x_abort ("too many communicators: they are not freed"); if (comnbr <= i) comnbr = i + 1; memset (&com[i], 0, sizeof (Comm)); com[i].used = 1; return i; }
int MPI_Comm_size (MPI_Comm c, int *n) { *n = cm (c, NULL)->n; return 0; }
int MPI_Comm_rank (MPI_Comm c, int *r) { cm (c, r); return 0; }
int MPI_Comm_compare (MPI_Comm a, MPI_Comm b, int *r) { Comm *x = cm (a, NULL), *y = cm (b, NULL); int i; *r = a == b ? MPI_IDENT : MPI_CONGRUENT; if (x->n != y->n) *r = MPI_UNEQUAL; else for (i = 0; i < x->n; i ++) if (x->proc[i] != y->proc[i]) *r = MPI_UNEQUAL; return 0; }

/* ---- point to point ---- */
enum { R_SEND = 1, R_RECV };
typedef struct Req_ { int used, kind, pers, active, done, owner, comm, peer, tag, freed, any, cancelled; const void *buf; long cnt; TCopy ty; long seq; MPI_Status st; char *data; long bytes; int dst, src; struct Req_ *nxt; } Req;
static Req *req; static int reqnbr, reqcap; static long reqseq;
static Req *sendq[MAXP], *recvq[MAXP];                       /* pending, by destination process, in order */
static Req **rq; static int rqnbr, rqcap;                    /* table of pointers, so that they stay put */
static int newreq (void) { int i; for (i = 1; i < rqnbr; i ++) if (! rq[i]->used) break; if (i == rqnbr || rqnbr == 0) { if (rqnbr == 0) rqnbr = i = 1; if (i >= rqcap) { rqcap = rqcap ? rqcap * 2 : 256; rq = realloc (rq, rqcap * sizeof (Req *)); } rq[i] = xalloc (sizeof (Req)); rqnbr = i + 1; } memset (rq[i], 0, sizeof (Req)); rq[i]->used = 1; rq[i]->owner = x_proc (); return i; }
static Req *rget (int r) { if (r <= 0 || r >= rqnbr || ! rq[r]->used) x_abort ("invalid request"); if (rq[r]->owner != x_proc ()) x_abort ("request of another process"); return rq[r]; }
static void rfree (Req *r) { free (r->ty.b); r->ty.b = NULL; free (r->data); r->data = NULL; r->used = 0; }
static int rnum (Req *r) { int i; for (i = 1; i < rqnbr; i ++) if (rq[i] == r) return i; return 0; }
static void qadd (Req **q, Req *r) { while (*q) q = &(*q)->nxt; *q = r; r->nxt = NULL; }
static void qdel (Req **q, Req *r) { while (*q && *q != r) q = &(*q)->nxt; if (*q) *q = r->nxt; }
static int matches (Req *s, Req *r) { return s->comm == r->comm && (r->peer == s->src || r->any) && (r->tag == MPI_ANY_TAG || r->tag == s->tag); }
static void deliver (Req *s, Req *r) {
  long cap = r->cnt * r->ty.size; char *d = s->data;
  pm_messages ++;
  if (s->bytes > cap) x_abort ("message of %ld bytes from process %d truncated by receive of %ld bytes (tag %d)", s->bytes, s->src, cap, s->tag);
  if (d == NULL) { d = xalloc (s->bytes); cpack (d, s->buf, s->cnt, &s->ty); }
  cunpack ((void *) r->buf, d, s->bytes, &r->ty);
  if (d != s->data) free (d);
  r->st.MPI_SOURCE = s->src; r->st.MPI_TAG = s->tag; r->st.MPI_ERROR = 0; r->st.bytes = s->bytes; r->st.cancelled = 0;
  r->done = 1; s->done = 1;
  if (s->freed && s->used) rfree (s);
}
static void startreq (Req *r) {
  Comm *c = cm (r->comm, NULL); Req *q; int dst; int me = x_proc () - 1;
  if (r->active) x_abort ("request started twice");
  r->active = 1; r->done = 0; r->cancelled = 0; r->seq = ++ reqseq;
  if (r->peer == MPI_PROC_NULL) { r->done = 1; r->st.bytes = 0; r->st.MPI_SOURCE = MPI_PROC_NULL; return; }
  if (r->kind == R_SEND) {
    if (r->peer < 0 || r->peer >= c->n) x_abort ("message sent to process %d of %d", r->peer, c->n);
    dst = c->proc[r->peer]; r->dst = dst; r->src = crank (c); r->bytes = r->cnt * r->ty.size;
    for (q = recvq[dst]; q; q = q->nxt) if (! q->any && matches (r, q)) break;
    if (q) { qdel (&recvq[dst], q); deliver (r, q); }
    else { qadd (&sendq[dst], r); if (! (mode & PM_LATE)) { r->data = xalloc (r->bytes); cpack (r->data, r->buf, r->cnt, &r->ty); r->done = 1; } }
  }
  else {
    if (! r->any && (r->peer < 0 || r->peer >= c->n)) x_abort ("message received from process %d of %d", r->peer, c->n);
    r->dst = me;
    if (! r->any) for (q = sendq[me]; q; q = q->nxt) if (matches (q, r)) { qdel (&sendq[me], q); deliver (q, r); return; }
    qadd (&recvq[me], r);
  }
}
/* wildcard receive: called when nothing else can progress */
static int anysrc (Req *r, Req **list) { Req *q; int n = 0, i; for (q = sendq[r->dst]; q; q = q->nxt) if (matches (q, r)) { for (i = 0; i < n && list[i]->src != q->src; i ++) ; if (i == n) list[n ++] = q; } return n; }
static int canany (void *a) { Req *l[MAXP]; Req *r = a; return r->done || anysrc (r, l) > 0; }
void x_idle (void);
static void settle (Req *r) {                               /* bring a wildcard receive to completion */
  Req *l[MAXP]; int n, k;
  while (! r->done) { x_idle (); n = anysrc (r, l); if (n) { if (n > 1) pm_choices ++; k = x_choose (n); qdel (&sendq[r->dst], l[k]); qdel (&recvq[r->dst], r); deliver (l[k], r); } else x_wait (canany, r, "receive from any process"); }
}
static int mkreq (int kind, const void *buf, int cnt, MPI_Datatype t, int peer, int tag, MPI_Comm c, int pers) {
  int i = newreq (); Req *r = rq[i];
  cm (c, NULL); if (cnt < 0) x_abort ("message of %d elements", cnt); chkbuf (buf, (long) cnt * ty (t, 1)->size);
  if (tag < 0 && ! (kind == R_RECV && tag == MPI_ANY_TAG)) x_abort ("negative message tag");
  r->kind = kind; r->buf = buf; r->cnt = cnt; r->ty = tcopy (t); r->peer = peer; r->tag = tag; r->comm = c; r->pers = pers; r->any = kind == R_RECV && peer == MPI_ANY_SOURCE;
  return i;
}
static void complete (int *rp, MPI_Status *st) { Req *r = rget (*rp); if (st && r->kind == R_RECV) *st = r->st; if (st && r->kind == R_SEND) { st->MPI_ERROR = 0; } r->active = 0;
  if (r->pers) { free (r->data); r->data = NULL; return; }
  if (r->kind == R_SEND && r->data) { Req *q; for (q = sendq[r->dst]; q && q != r; q = q->nxt) ; if (q) { r->freed = 1; *rp = 0; return; } }   /* buffered message not yet received */
  rfree (r); *rp = 0; }
static int isdone (void *a) { return ((Req *) a)->done; }
static char wbuf[MAXP + 1][80];
static const char *what (Req *r) { char *b = wbuf[x_proc () <= MAXP ? x_proc () : 0]; snprintf (b, 80, "%s %d tag %d comm %d", r->kind == R_SEND ? "send to" : "receive from", r->peer, r->tag, r->comm); return b; }
static void waitreq (Req *r) { if (r->any && r->active) settle (r); else x_wait (isdone, r, what (r)); }
static int sr (int kind, const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Status *st) { int i = mkreq (kind, b, n, t, p, tag, c, 0); startreq (rq[i]); waitreq (rq[i]); complete (&i, st); return 0; }
int MPI_Send (const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { return sr (R_SEND, b, n, t, p, tag, c, NULL); }
int MPI_Ssend (const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c) { return sr (R_SEND, b, n, t, p, tag, c, NULL); }
int MPI_Recv (void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Status *st) { return sr (R_RECV, b, n, t, p, tag, c, st); }
int MPI_Isend (const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { *r = mkreq (R_SEND, b, n, t, p, tag, c, 0); startreq (rq[*r]); return 0; }
int MPI_Irecv (void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { *r = mkreq (R_RECV, b, n, t, p, tag, c, 0); startreq (rq[*r]); return 0; }
int MPI_Send_init (const void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { *r = mkreq (R_SEND, b, n, t, p, tag, c, 1); return 0; }
int MPI_Recv_init (void *b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request *r) { *r = mkreq (R_RECV, b, n, t, p, tag, c, 1); return 0; }
int MPI_Start (MPI_Request *r) { startreq (rget (*r)); return 0; }
int MPI_Startall (int n, MPI_Request *r) { int i; for (i = 0; i < n; i ++) MPI_Start (r + i); return 0; }
int MPI_Sendrecv (const void *b, int n, MPI_Datatype t, int p, int tag, void *b2, int n2, MPI_Datatype t2, int p2, int tag2, MPI_Comm c, MPI_Status *st) { MPI_Request r[2]; MPI_Irecv (b2, n2, t2, p2, tag2, c, &r[0]); MPI_Isend (b, n, t, p, tag, c, &r[1]); MPI_Wait (&r[1], NULL); return MPI_Wait (&r[0], st); }
int MPI_Wait (MPI_Request *r, MPI_Status *st) { Req *q; if (*r == 0) { if (st) { st->bytes = 0; st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; } return 0; } q = rget (*r); if (! q->active) { if (st) st->bytes = 0; return 0; } waitreq (q); complete (r, st); return 0; }
int MPI_Waitall (int n, MPI_Request *r, MPI_Status *st) { int i; for (i = 0; i < n; i ++) MPI_Wait (r + i, st ? st + i : NULL); return 0; }
typedef struct { int n; MPI_Request *r; int owner; } Wany;
static int wanydone (void *a) { Wany *w = a; int i; Req *l[MAXP]; for (i = 0; i < w->n; i ++) if (w->r[i]) { Req *q = rq[w->r[i]]; if (q->active && (q->done || (q->any && anysrc (q, l)))) return 1; } return 0; }
int MPI_Waitany (int n, MPI_Request *r, int *idx, MPI_Status *st) {
  Wany w; int i, c, k, act = 0; int *list; Req *l[MAXP];
  for (i = 0; i < n; i ++) if (r[i]) { if (rget (r[i])->active) act ++; }
  if (act == 0) { *idx = MPI_UNDEFINED; if (st) st->bytes = 0; return 0; }
  w.n = n; w.r = r; list = xalloc (n * sizeof (int));
  for (;;) {
    x_idle ();
    for (c = i = 0; i < n; i ++) if (r[i]) { Req *q = rget (r[i]); if (q->active && (q->done || (q->any && anysrc (q, l)))) list[c ++] = i; }
    if (c) break;
    x_wait (wanydone, &w, "any of several messages");
  }
  if (c > 1) pm_choices ++;
  k = list[x_choose (c)]; free (list); *idx = k;
  if (! rq[r[k]]->done) settle (rq[r[k]]);
  complete (r + k, st);
  return 0;
}
int MPI_Test (MPI_Request *r, int *f, MPI_Status *st) { Req *q; *f = 1; if (*r == 0) return 0; q = rget (*r); if (! q->active) return 0; x_idle (); if (q->any && ! q->done) { Req *l[MAXP]; if (anysrc (q, l)) settle (q); } if (q->done && x_choose (2) == 0) { complete (r, st); return 0; } *f = 0; return 0; }
int MPI_Testall (int n, MPI_Request *r, int *f, MPI_Status *st) { int i; x_idle (); *f = 1; for (i = 0; i < n; i ++) if (r[i] && rget (r[i])->active && ! rq[r[i]]->done) *f = 0; if (*f) MPI_Waitall (n, r, st); return 0; }
int MPI_Request_free (MPI_Request *rp) { Req *r = rget (*rp); if (r->active && ! r->done) { if (r->kind == R_RECV) x_abort ("active receive request freed"); r->freed = 1; } else if (r->active && r->kind == R_SEND && r->data) r->freed = 1; else { if (r->active && r->kind == R_RECV && ! r->done) qdel (&recvq[r->dst], r); rfree (r); } *rp = 0; return 0; }
int MPI_Cancel (MPI_Request *rp) { Req *r = rget (*rp); if (r->active && ! r->done && r->kind == R_RECV) { qdel (&recvq[r->dst], r); r->done = 1; r->cancelled = 1; r->st.cancelled = 1; } return 0; }
int MPI_Get_count (const MPI_Status *st, MPI_Datatype t, int *n) { long s = ty (t, 0)->size; *n = s == 0 ? 0 : st->bytes % s ? MPI_UNDEFINED : (int) (st->bytes / s); return 0; }
static Req *probe (int p, int tag, MPI_Comm c) { Req k, *q; memset (&k, 0, sizeof (k)); k.peer = p; k.tag = tag; k.comm = c; k.any = p == MPI_ANY_SOURCE; k.dst = x_proc () - 1; if (k.any) { Req *l[MAXP]; int n = anysrc (&k, l); return n ? l[x_choose (n)] : NULL; } for (q = sendq[k.dst]; q; q = q->nxt) if (matches (q, &k)) return q; return NULL; }
int MPI_Iprobe (int p, int tag, MPI_Comm c, int *f, MPI_Status *st) { Req *q; x_idle (); q = probe (p, tag, c); *f = q != NULL && x_choose (2) == 0; if (*f && st) { st->MPI_SOURCE = q->src; st->MPI_TAG = q->tag; st->bytes = q->bytes; } return 0; }
typedef struct { int p, tag, c; } Prb;
static int canprobe (void *a) { Prb *x = a; Req k, *l[MAXP]; memset (&k, 0, sizeof (k)); k.peer = x->p; k.tag = x->tag; k.comm = x->c; k.any = x->p == MPI_ANY_SOURCE; k.dst = x_proc () - 1; return anysrc (&k, l) > 0; }
int MPI_Probe (int p, int tag, MPI_Comm c, MPI_Status *st) { Prb x = { p, tag, c }; Req *q; for (;;) { x_idle (); if ((q = probe (p, tag, c)) != NULL) break; x_wait (canprobe, &x, "probe"); } if (st) { st->MPI_SOURCE = q->src; st->MPI_TAG = q->tag; st->bytes = q->bytes; } return 0; }

/* ---- collectives ---- */
enum { C_BARRIER = 1, C_BCAST, C_GATHER, C_SCATTER, C_ALLGATHER, C_ALLTOALL, C_REDUCE, C_ALLREDUCE, C_SCAN, C_SPLIT };
static const char *cname[] = { "", "barrier", "broadcast", "gather", "scatter", "allgather", "alltoall", "reduce", "allreduce", "scan", "split" };
struct Coll_ { long seq; int kind, root, op, n, here[MAXP], done, narr, waiting[MAXP]; long esize; char *data[MAXP]; long bytes[MAXP]; char *pp[MAXP][MAXP]; long pb[MAXP][MAXP]; int color[MAXP], key[MAXP], newc[MAXP]; Coll *nxt; };
static Coll *enter (MPI_Comm c, int kind, int root, int op, int *rk) {
  Comm *m = cm (c, rk); Coll **q; Coll *k; long s = m->seq[*rk] ++;
  for (q = &m->colls; *q && (*q)->seq != s; q = &(*q)->nxt) ;
  if (*q == NULL) { k = xalloc (sizeof (Coll)); k->seq = s; k->kind = kind; k->root = root; k->op = op; k->n = m->n; *q = k; pm_collectives ++; }
  k = *q;
  if (root < 0 || root >= m->n) x_abort ("collective with root %d of %d", root, m->n);
  if (k->kind != kind || k->root != root) x_abort ("processes disagree: %s with root %d against %s with root %d", cname[k->kind], k->root, cname[kind], root);
  if (k->op != op && op < OFIRST && k->op < OFIRST) x_abort ("processes disagree on the operation of %s", cname[kind]);
  return k;
}
typedef struct { Coll *k; int need; } CW;       /* need: -1 all, else process; -2 all up to need2 */
static int cwcond (void *a) { CW *w = a; int i; if (w->need == -1) return w->k->narr == w->k->n; if (w->need >= 100) { for (i = 0; i <= w->need - 100; i ++) if (! w->k->here[i]) return 0; return 1; } return w->k->here[w->need]; }
static void arrive (Coll *k, int r) { k->here[r] = 1; k->narr ++; }
static void cwait (Coll *k, int need, MPI_Comm c, int r) { CW w; char *b = wbuf[x_proc () <= MAXP ? x_proc () : 0]; w.k = k; w.need = (mode & PM_STRICT) ? -1 : need; if (w.need == -3) return; snprintf (b, 80, "%s #%ld comm %d", cname[k->kind], k->seq, c); x_wait (cwcond, &w, b); }
static void leave (MPI_Comm c, Coll *k) { Comm *m = &com[c]; int i, j; Coll **q; if (++ k->done < k->n) return; for (q = &m->colls; *q != k; q = &(*q)->nxt) ; *q = k->nxt; for (i = 0; i < k->n; i ++) { free (k->data[i]); for (j = 0; j < k->n; j ++) free (k->pp[i][j]); } free (k); }
static void agree (long a, long b, const char *w) { if (a != b) x_abort ("%s: %ld bytes sent for %ld bytes received", w, a, b); }
int MPI_Barrier (MPI_Comm c) { int r; Coll *k = enter (c, C_BARRIER, 0, 0, &r); arrive (k, r); cwait (k, -1, c, r); leave (c, k); return 0; }
int MPI_Bcast (void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { int r; Coll *k = enter (c, C_BCAST, root, 0, &r); long s = n * ty (t, 1)->size; if (r == root) { k->data[r] = xalloc (s); k->bytes[r] = s; pack (k->data[r], b, n, t); } arrive (k, r); cwait (k, r == root ? -3 : root, c, r); if (r != root) { agree (k->bytes[root], s, "broadcast"); unpack (b, k->data[root], n, t); } leave (c, k); return 0; }
static int gatherv (const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, int rn1, const int *rd, MPI_Datatype rt, int root, MPI_Comm c, int all) {
  int r, i; Coll *k = enter (c, all ? C_ALLGATHER : C_GATHER, root, 0, &r);
  if (sb == MPI_IN_PLACE) { Type *y = ty (rt, 1); long s = (rn ? rn[r] : rn1); k->bytes[r] = s * y->size; k->data[r] = xalloc (k->bytes[r]); pack (k->data[r], (char *) rb + (rd ? rd[r] : r * rn1) * y->ext, s, rt); }
  else { k->bytes[r] = sn * ty (st, 1)->size; k->data[r] = xalloc (k->bytes[r]); pack (k->data[r], sb, sn, st); }
  arrive (k, r); cwait (k, all || r == root ? -1 : -3, c, r);
  if (all || r == root) { Type *y = ty (rt, 1); for (i = 0; i < k->n; i ++) { long n = rn ? rn[i] : rn1; agree (k->bytes[i], n * y->size, all ? "allgather" : "gather"); unpack ((char *) rb + (long) (rd ? rd[i] : i * rn1) * y->ext, k->data[i], n, rt); } }
  leave (c, k); return 0;
}
int MPI_Gather (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv (sb, sn, st, rb, NULL, rn, NULL, rt, root, c, 0); }
int MPI_Gatherv (const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv (sb, sn, st, rb, rn, 0, rd, rt, root, c, 0); }
int MPI_Allgather (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { return gatherv (sb, sn, st, rb, NULL, rn, NULL, rt, 0, c, 1); }
int MPI_Allgatherv (const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) { return gatherv (sb, sn, st, rb, rn, 0, rd, rt, 0, c, 1); }
static int scatterv (const void *sb, const int *sn, int sn1, const int *sd, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  int r, i; Coll *k = enter (c, C_SCATTER, root, 0, &r);
  if (r == root) { Type *y = ty (st, 1); for (i = 0; i < k->n; i ++) { long n = sn ? sn[i] : sn1; k->pb[r][i] = n * y->size; k->pp[r][i] = xalloc (n * y->size); pack (k->pp[r][i], (const char *) sb + (long) (sd ? sd[i] : i * sn1) * y->ext, n, st); } }
  arrive (k, r); cwait (k, r == root ? -3 : root, c, r);
  if (rb != MPI_IN_PLACE) { agree (k->pb[root][r], rn * ty (rt, 1)->size, "scatter"); unpack (rb, k->pp[root][r], rn, rt); }
  leave (c, k); return 0;
}
int MPI_Scatter (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv (sb, NULL, sn, NULL, st, rb, rn, rt, root, c); }
int MPI_Scatterv (const void *sb, const int *sn, const int *sd, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv (sb, sn, 0, sd, st, rb, rn, rt, root, c); }
static int alltoall (const void *sb, const int *sn, int sn1, const int *sd, MPI_Datatype st, void *rb, const int *rn, int rn1, const int *rd, MPI_Datatype rt, MPI_Comm c) {
  int r, i; Coll *k = enter (c, C_ALLTOALL, 0, 0, &r); Type *y = ty (st, 1), *z = ty (rt, 1);
  for (i = 0; i < k->n; i ++) { long n = sn ? sn[i] : sn1; k->pb[r][i] = n * y->size; k->pp[r][i] = xalloc (n * y->size); pack (k->pp[r][i], (const char *) sb + (long) (sd ? sd[i] : i * sn1) * y->ext, n, st); }
  arrive (k, r); cwait (k, -1, c, r);
  for (i = 0; i < k->n; i ++) { long n = rn ? rn[i] : rn1; agree (k->pb[i][r], n * z->size, "alltoall"); unpack ((char *) rb + (long) (rd ? rd[i] : i * rn1) * z->ext, k->pp[i][r], n, rt); }
  leave (c, k); return 0;
}
int MPI_Alltoall (const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { return alltoall (sb, NULL, sn, NULL, st, rb, NULL, rn, NULL, rt, c); }
int MPI_Alltoallv (const void *sb, const int *sn, const int *sd, MPI_Datatype st, void *rb, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) { return alltoall (sb, sn, 0, sd, st, rb, rn, 0, rd, rt, c); }
static void reduce (Coll *k, int from, int to, void *rb, int n, MPI_Datatype t, MPI_Op op) {
  Type *y = ty (t, 1); long s = (long) n * y->ext; char *acc = xalloc (s), *tmp = xalloc (s); int i, com_ = op < OFIRST || opr[op].commute;
  if (! (mode & PM_REVERSE)) { unpack (acc, k->data[from], n, t); for (i = from + 1; i <= to; i ++) { char *x; unpack (tmp, k->data[i], n, t); redop (acc, tmp, n, t, op); x = acc; acc = tmp; tmp = x; } }
  else if (com_) { unpack (acc, k->data[to], n, t); for (i = to - 1; i >= from; i --) { char *x; unpack (tmp, k->data[i], n, t); redop (acc, tmp, n, t, op); x = acc; acc = tmp; tmp = x; } }
  else { unpack (acc, k->data[to], n, t); for (i = to - 1; i >= from; i --) { unpack (tmp, k->data[i], n, t); redop (tmp, acc, n, t, op); } }
  { char *p = xalloc ((long) n * y->size + 1); pack (p, acc, n, t); unpack (rb, p, n, t); free (p); }
  free (acc); free (tmp);
}
static int red (int kind, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  int r, i; Coll *k = enter (c, kind, root, op, &r); long s = (long) n * ty (t, 1)->size;
  if (op <= 0) x_abort ("invalid operation");
  if (op >= OFIRST && (op >= oprnbr || ! opr[op].used)) x_abort ("invalid operation");
  if (sb == rb && n > 0) x_abort ("send and receive buffers of %s are the same", cname[kind]);
  k->data[r] = xalloc (s); k->bytes[r] = s; pack (k->data[r], sb == MPI_IN_PLACE ? rb : sb, n, t);
  arrive (k, r); cwait (k, kind == C_ALLREDUCE || (kind == C_REDUCE && r == root) ? -1 : kind == C_SCAN ? 100 + r : -3, c, r);
  for (i = 0; i < k->n; i ++) if (k->here[i]) agree (k->bytes[i], s, cname[kind]);
  if (kind == C_ALLREDUCE || (kind == C_REDUCE && r == root)) reduce (k, 0, k->n - 1, rb, n, t, op);
  else if (kind == C_SCAN) reduce (k, 0, r, rb, n, t, op);
  leave (c, k); return 0;
}
int MPI_Reduce (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return red (C_REDUCE, sb, rb, n, t, op, root, c); }
int MPI_Allreduce (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red (C_ALLREDUCE, sb, rb, n, t, op, 0, c); }
int MPI_Scan (const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return red (C_SCAN, sb, rb, n, t, op, 0, c); }
int MPI_Comm_split (MPI_Comm c, int color, int key, MPI_Comm *out) {
  int r, i, j; Coll *k = enter (c, C_SPLIT, 0, 0, &r); Comm *m = &com[c];
  k->color[r] = color; k->key[r] = key; arrive (k, r); cwait (k, -1, c, r);
  if (k->newc[r] == 0 && color != MPI_UNDEFINED) {           /* first process of this color builds it for all */
    int ord[MAXP], n = 0, nc = newcomm (); m = &com[c];
    for (i = 0; i < k->n; i ++) if (k->color[i] == color) { for (j = n; j > 0 && k->key[ord[j - 1]] > k->key[i]; j --) ord[j] = ord[j - 1]; ord[j] = i; n ++; }
    com[nc].n = n; for (j = 0; j < n; j ++) { com[nc].proc[j] = m->proc[ord[j]]; k->newc[ord[j]] = nc; }
  }
  *out = color == MPI_UNDEFINED ? MPI_COMM_NULL : k->newc[r];
  leave (c, k); return 0;
}
int MPI_Comm_dup (MPI_Comm c, MPI_Comm *out) { int r; cm (c, &r); return MPI_Comm_split (c, 0, r, out); }
int MPI_Comm_free (MPI_Comm *c) { int r, i; Comm *m = cm (*c, &r); if (*c == MPI_COMM_WORLD) x_abort ("MPI_COMM_WORLD freed"); m->freed[r] = 1; for (i = 0; i < m->n; i ++) if (! m->freed[i]) { *c = 0; return 0; } if (m->colls) x_abort ("communicator freed during a collective operation"); m->used = 0; *c = 0; return 0; }
int MPI_Init (int *a, char ***b) { return 0; }
int MPI_Init_thread (int *a, char ***b, int l, int *p) { *p = (mode & PM_THREADS) ? MPI_THREAD_MULTIPLE : MPI_THREAD_FUNNELED; return 0; }
int MPI_Query_thread (int *p) { *p = (mode & PM_THREADS) ? MPI_THREAD_MULTIPLE : MPI_THREAD_FUNNELED; return 0; }
int MPI_Initialized (int *f) { *f = 1; return 0; }
int MPI_Finalize (void) { return 0; }
int MPI_Abort (MPI_Comm c, int e) { x_abort ("MPI_Abort"); return 0; }
double MPI_Wtime (void) { return 0.0; }

/* ---- runs ---- */
static struct { void (*fn) (int, void *); void (*after) (void *); void *arg; int done[MAXP]; int left; } run;
static int leakcnt;
int pm_leaks (void) { return leakcnt; }
static void rankmain (void *a) { int r = (int) (long) a; x_nopoint (1); run.fn (r, run.arg); x_nopoint (0); run.left --; }
static int alldone (void *a) { return run.left == 0; }
static void body (void *a) {
  int i, k;
  for (i = 0; i < typnbr; i ++) if (typ[i].used) { typ[i].used = 0; free (typ[i].b); }
  for (i = 1; i < rqnbr; i ++) if (rq[i]->used) rfree (rq[i]);
  for (i = 1; i < comnbr; i ++) while (com[i].colls) { Coll *c = com[i].colls; int j; com[i].colls = c->nxt; for (k = 0; k < c->n; k ++) { free (c->data[k]); for (j = 0; j < c->n; j ++) free (c->pp[k][j]); } free (c); }
  typnbr = TFIRST; oprnbr = OFIRST; memset (opr, 0, sizeof (opr)); comnbr = 1; reqseq = 0; memset (com, 0, sizeof (Comm) * 64); memset (sendq, 0, sizeof (sendq)); memset (recvq, 0, sizeof (recvq));
  for (i = 64; i < MAXC; i ++) com[i].used = 0;
  newcomm (); com[1].n = procnbr; for (i = 0; i < procnbr; i ++) com[1].proc[i] = i;
  run.left = procnbr;
  x_nopoint (1);
  for (i = 0; i < procnbr; i ++) x_spawn (rankmain, (void *) (long) i, i + 1);
  x_wait (alldone, NULL, "end of all processes");
  x_nopoint (0);
  for (i = 0; i < procnbr; i ++) if (sendq[i]) x_abort ("message to process %d with tag %d never received", i, sendq[i]->tag);
  leakcnt = 0;
  for (i = TFIRST; i < typnbr; i ++) leakcnt += typ[i].used;
  for (i = OFIRST; i < oprnbr; i ++) leakcnt += opr[i].used;
  for (i = 2; i < comnbr; i ++) leakcnt += com[i].used;
  for (i = 1; i < rqnbr; i ++) leakcnt += rq[i]->used && ! (rq[i]->freed && rq[i]->done);
  if (run.after) run.after (run.arg);
}
int pm_explore (int np, int md, void (*fn) (int, void *), void (*after) (void *), void *arg, int bound, u64 maxruns, XStat *st) {
  int o; if (np > MAXP) abort ();
  datainit ();
  procnbr = np; mode = md; run.fn = fn; run.after = after; run.arg = arg;
  x_procswitch = procswitch; o = x_explore (body, NULL, bound, maxruns, 0, st); x_procswitch = NULL;
  return o;
}
