/* Included before every library source of the exploring builds: POSIX thread calls go to the exploring scheduler. */
#ifndef MCPTHREAD_H
#define MCPTHREAD_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sched.h>
#include <pthread.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int  mcp_mutex_init (pthread_mutex_t *, const pthread_mutexattr_t *);
int  mcp_mutex_destroy (pthread_mutex_t *);
int  mcp_mutex_lock (pthread_mutex_t *);
int  mcp_mutex_trylock (pthread_mutex_t *);
int  mcp_mutex_unlock (pthread_mutex_t *);
int  mcp_cond_init (pthread_cond_t *, const pthread_condattr_t *);
int  mcp_cond_destroy (pthread_cond_t *);
int  mcp_cond_wait (pthread_cond_t *, pthread_mutex_t *);
int  mcp_cond_signal (pthread_cond_t *);
int  mcp_cond_broadcast (pthread_cond_t *);
int  mcp_create (pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
int  mcp_join (pthread_t, void **);
int  mcp_detach (pthread_t);
void mcp_exit (void *) __attribute__ ((noreturn));
pthread_t mcp_self (void);
int  mcp_getaffinity (pthread_t, size_t, cpu_set_t *);
int  mcp_setaffinity (pthread_t, size_t, const cpu_set_t *);
int  mcp_yield (void);
#define pthread_mutex_init     mcp_mutex_init
#define pthread_mutex_destroy  mcp_mutex_destroy
#define pthread_mutex_lock     mcp_mutex_lock
#define pthread_mutex_trylock  mcp_mutex_trylock
#define pthread_mutex_unlock   mcp_mutex_unlock
#define pthread_cond_init      mcp_cond_init
#define pthread_cond_destroy   mcp_cond_destroy
#define pthread_cond_wait      mcp_cond_wait
#define pthread_cond_signal    mcp_cond_signal
#define pthread_cond_broadcast mcp_cond_broadcast
#define pthread_create         mcp_create
#define pthread_join           mcp_join
#define pthread_detach         mcp_detach
#define pthread_exit           mcp_exit
#define pthread_self           mcp_self
#define pthread_getaffinity_np mcp_getaffinity
#define pthread_setaffinity_np mcp_setaffinity
#define sched_yield            mcp_yield
#define pthread_yield          mcp_yield
#ifdef __cplusplus
}
#endif
#endif
