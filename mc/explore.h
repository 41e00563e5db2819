/* Stateless exploration of the schedules of a piece of real code whose threads run as fibers. */
#ifndef EXPLORE_H
#define EXPLORE_H
#include "mc.h"
#include "mcpthread.h"
enum { XP_SPURIOUS = 1, XP_CREATEFAIL = 2, XP_RACY = 4 };
typedef struct {
  u64 runs, points, maxpoints, restarts, racy; int truncated;
} XStat;
/* Runs body() under every schedule that departs at most bound times from the default one. */
int  x_explore (void (*body) (void *), void *arg, int bound, u64 maxruns, int flags, XStat *);
int  x_choose (int n);                   /* decision with n alternatives; 0 is the default, others count as one departure */
int  x_choose_free (int n);              /* all alternatives are free                                                  */
int  x_running (void);                   /* 1 inside an exploration                                                     */
void x_point (void);                     /* scheduling point                                                            */
int  x_spawn (void (*fn) (void *), void *arg, int proc);  /* new fiber belonging to process proc; returns its number    */
void x_wait (int (*cond) (void *), void *arg, const char *what);   /* block until cond() holds                          */
void x_idle (void);                      /* block until no other fiber can run                                          */
int  x_fiber (void);
int  x_proc (void);
extern void (*x_procswitch) (int from, int to);
void x_abort (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));   /* violation: end this execution         */
const char *x_trace (void);              /* departures of current execution                                            */
int  x_live (void);                      /* fibers not finished, besides the current one                                */
int  x_createfails (void);               /* how many thread creations were refused in this execution                    */
void x_nopoint (int on);                 /* on: no scheduling decision until off                                        */
#endif
