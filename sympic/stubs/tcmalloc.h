#ifndef SYM_TCMALLOC_H
#define SYM_TCMALLOC_H
#include <stdlib.h>
#define tc_malloc malloc
#define tc_free free
#endif
