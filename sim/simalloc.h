/* Included before lbfgs.c and _lowlevel.c: their heap goes through the
   simulated allocator in simalloc.c. */
#ifndef SIMALLOC_H
#define SIMALLOC_H
#include <stdlib.h>
#include <string.h>
void *sim_malloc(size_t n);
void *sim_calloc(size_t a, size_t b);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
#define malloc sim_malloc
#define calloc sim_calloc
#define realloc sim_realloc
#define free sim_free
#endif
