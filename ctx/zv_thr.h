/* threading contexts: system headers first, then the source with atomics as plain cells (interference is modelled explicitly) */
#define ZV_THREADING
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <sched.h>
#include <math.h>
#include "__fc_builtin.h"
void zv_check(int c);
#define pthread_t unsigned long
#define _Atomic(X) X
#define volatile
int zv_thread_create(unsigned long *t, pthread_attr_t const *a, void *(*f)(void *), void *arg);
int zv_thread_join(unsigned long t, void **r);
#define pthread_create zv_thread_create
#define pthread_join zv_thread_join
