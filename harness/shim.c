/* Interposed allocator of the library under test (its malloc family is linked with ld --wrap).
   Lives in the harness binary so that the library's own writable data stays library-only. */
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
long g_live,g_bytes,g_nalloc,g_fail_at=-1; int g_alloc_track,g_fill=-1;
static int fail(void){ return g_fail_at>=0&&g_nalloc++==g_fail_at?1:(g_fail_at<0?(g_nalloc++,0):0); }
void*__wrap_malloc(size_t n){ if(fail())return 0; void*p=malloc(n); if(p){ g_live++; g_bytes+=malloc_usable_size(p); if(g_fill>=0) memset(p,g_fill,n); } return p; }
void*__wrap_calloc(size_t a,size_t n){ if(fail())return 0; void*p=calloc(a,n); if(p){ g_live++; g_bytes+=malloc_usable_size(p); } return p; }
void*__wrap_realloc(void*q,size_t n){ if(fail())return 0; long o=q?malloc_usable_size(q):0; void*p=realloc(q,n); if(p){ g_bytes+=(long)malloc_usable_size(p)-o; if(!q)g_live++; } return p; }
void __wrap_free(void*p){ if(p){ g_live--; g_bytes-=malloc_usable_size(p); } free(p); }
