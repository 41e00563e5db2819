/* Running the command-line programs (built from the tree, with sanitizers) in the scratch directory of the harness. */
#ifndef PROG_H
#define PROG_H
#define _GNU_SOURCE
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "mc.h"

static char pr_bin[600], pr_cmd[2000];
static char *pr_out, *pr_err;                                  /* standard and error outputs of the last run */

static char *pr_read (const char *name) {                      /* contents of a scratch file, NULL if there is none */
  char path[700]; FILE *f; long n; char *b;
  snprintf (path, sizeof (path), "%s/%s", mc_tmpdir (), name);
  if ((f = fopen (path, "rb")) == NULL) return NULL;
  fseek (f, 0, SEEK_END); n = ftell (f); rewind (f);
  b = malloc (n + 1); if (fread (b, 1, n, f) != (size_t) n) n = 0; b[n] = 0; fclose (f);
  return b;
}
static void pr_write (const char *name, const char *text) {
  char path[700]; FILE *f; snprintf (path, sizeof (path), "%s/%s", mc_tmpdir (), name);
  if ((f = fopen (path, "wb")) == NULL) { fprintf (stderr, "cannot write %s\n", path); exit (3); }
  fwrite (text, 1, strlen (text), f); fclose (f);
}
static FILE *pr_open (const char *name, const char *mode) { char path[700]; snprintf (path, sizeof (path), "%s/%s", mc_tmpdir (), name); return fopen (path, mode); }
static void pr_unlink (const char *name) { char path[700]; snprintf (path, sizeof (path), "%s/%s", mc_tmpdir (), name); unlink (path); }

static char *pr_env[] = { "LC_ALL=C", "SCOTCH_PTHREAD_NUMBER=1", "ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:print_legend=0:malloc_context_size=4",
                          "UBSAN_OPTIONS=halt_on_error=1:exitcode=99", "PATH=/usr/bin:/bin", NULL };

/* Runs a program: words of the formatted command line are its arguments ('<file' gives its standard input; a lone "''" is an empty argument). */
__attribute__ ((format (printf, 1, 2)))
static int pr_run (const char *fmt, ...) {
  char line[2000], *arg[64], exe[800], *in = "/dev/null"; int n = 0, st, pid; va_list l; char *w, *sv = NULL;
  va_start (l, fmt); vsnprintf (line, sizeof (line), fmt, l); va_end (l);
  snprintf (pr_cmd, sizeof (pr_cmd), "%s", line);
  if (pr_bin[0] == 0) {
    ssize_t k = readlink ("/proc/self/exe", pr_bin, sizeof (pr_bin) - 40); char *s; if (k < 0) exit (3);
    pr_bin[k] = 0; if ((s = strrchr (pr_bin, '/'))) *s = 0; if ((s = strrchr (pr_bin, '/'))) *s = 0; strcat (pr_bin, "/prog/");
  }
  for (w = strtok_r (line, " ", &sv); w && n < 63; w = strtok_r (NULL, " ", &sv)) {
    if (w[0] == '<') { in = w + 1; continue; }
    arg[n ++] = (strcmp (w, "''") == 0) ? "" : w;
  }
  arg[n] = NULL;
  snprintf (exe, sizeof (exe), "%s%s", pr_bin, arg[0]);
  free (pr_out); free (pr_err); pr_out = pr_err = NULL;
  fflush (stdout);
  pid = vfork ();
  if (pid == 0) {
    int a, b, c; struct rlimit r = { 20, 25 }, rf = { 64 << 20, 64 << 20 };
    if (chdir (mc_tmpdir ()) != 0) _exit (125);
    a = open (in, O_RDONLY); b = open (".out", O_WRONLY | O_CREAT | O_TRUNC, 0600); c = open (".err", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (a < 0 || b < 0 || c < 0) _exit (126);
    dup2 (a, 0); dup2 (b, 1); dup2 (c, 2); close (a); close (b); close (c);
    setrlimit (RLIMIT_CPU, &r); setrlimit (RLIMIT_FSIZE, &rf);
    alarm (60);
    execve (exe, arg, pr_env);
    _exit (127);
  }
  if (pid < 0) { perror ("vfork"); exit (3); }
  while (waitpid (pid, &st, 0) < 0) if (errno != EINTR) { perror ("waitpid"); exit (3); }
  pr_out = pr_read (".out"); pr_err = pr_read (".err");
  mc_ops (1);
  mc_note ("program runs", 1);
  st = WIFEXITED (st) ? WEXITSTATUS (st) : 1000 + WTERMSIG (st);
  if (st >= 125 && st <= 127) { fprintf (stderr, "cannot run %s (%d)\n", exe, st); exit (3); }
  return st;
}
static const char *pr_why (void) {                             /* short account of the error output */
  static char b[400]; char *s = pr_err ? strstr (pr_err, "SUMMARY:") : NULL; size_t i;
  if (s == NULL && pr_err) s = strstr (pr_err, "runtime error");
  if (s == NULL) s = pr_err ? pr_err : "";
  snprintf (b, sizeof (b), "%s", s);
  for (i = 0; b[i]; i ++) if (b[i] == '\n' || b[i] == '\t') b[i] = ' ';
  return b;
}
static int pr_ok (int st) {                                    /* the run had to succeed */
  if (st == 0) return 1;
  mc_fail ("'%s' gave status %d: %s", pr_cmd, st, pr_why ());
  return 0;
}
static int pr_refused (int st) {                               /* the run had to fail cleanly, saying so */
  if (st == 1 && pr_err && strstr (pr_err, "ERROR")) return 1;
  mc_fail ("'%s' had to be refused with an error message: status %d: %s", pr_cmd, st, pr_why ());
  return 0;
}

/* Numbers of a text, read one after the other */
typedef struct { const char *p; int bad; } Tk;
static long tk_num (Tk *t) {
  char *e; long v = strtol (t->p, &e, 10);
  if (e == t->p || (*e && *e != ' ' && *e != '\t' && *e != '\n' && *e != '\r')) { t->bad = 1; return -999999; }
  t->p = e; return v;
}
static double tk_real (Tk *t) { char *e; double v = strtod (t->p, &e); if (e == t->p) { t->bad = 1; return -999999; } t->p = e; return v; }
static int tk_word (Tk *t, const char *w) {
  size_t n = strlen (w); while (*t->p == ' ' || *t->p == '\t' || *t->p == '\n' || *t->p == '\r') t->p ++;
  if (strncmp (t->p, w, n) || (t->p[n] && ! strchr (" \t\n\r", t->p[n]))) { t->bad = 1; return 0; }
  t->p += n; return 1;
}
static int tk_end (Tk *t) { while (*t->p == ' ' || *t->p == '\t' || *t->p == '\n' || *t->p == '\r') t->p ++; return *t->p == 0; }
#endif
