/* Runs of several processes under exploration. */
#ifndef MCMPI_H
#define MCMPI_H
#include "explore.h"
#include "mpi.h"
enum { PM_LATE = 1,      /* messages are taken from the sender's memory when matched, and sends complete then (else at once) */
       PM_STRICT = 2,    /* every collective synchronises all of its processes                                               */
       PM_REVERSE = 4,   /* reductions combine from the last process to the first                                           */
       PM_THREADS = 8 }; /* thread level is MPI_THREAD_MULTIPLE (else MPI_THREAD_FUNNELED)                                    */
/* Runs fn (rank, arg) in procnbr processes, under every choice of matching orders with at most bound departures from the default one.
** before / after run outside of the processes, around each execution. Returns 0 if every execution went well. */
int pm_explore (int procnbr, int mode, void (*fn) (int, void *), void (*after) (void *), void *arg, int bound, u64 maxruns, XStat *);
extern u64 pm_messages, pm_collectives, pm_choices;
int pm_leaks (void);      /* communicators, types, operations and requests left at the end of the last execution */
#endif
