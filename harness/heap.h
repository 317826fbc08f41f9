// exact count of live heap bytes: the allocation functions of this executable (include in one source file)
#ifndef VERIF_HEAP_H
#define VERIF_HEAP_H
#include <malloc.h>
#include "mc.h"
static long live_bytes = 0, live_blocks = 0;
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void*); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void*, size_t); void *__libc_memalign(size_t, size_t);
static void *took(void *p){ if (p){ live_bytes += malloc_usable_size(p); live_blocks++; } return p; }
static void gave(void *p){ if (p){ live_bytes -= malloc_usable_size(p); live_blocks--; } }
void *malloc(size_t n){ return took(__libc_malloc(n)); }
void free(void *p){ gave(p); __libc_free(p); }
void *calloc(size_t a, size_t b){ return took(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n){ gave(p); void *q = __libc_realloc(p, n); if (q || n == 0) return took(q); took(p); return q; }
void *memalign(size_t a, size_t n){ return took(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n){ return took(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n){ *p = took(__libc_memalign(a, n)); return *p || !n ? 0 : 12; }
}
struct Heap { long bytes, blocks; };
// the same execution repeated: after the first two (caches, wisdom) the heap has to be unchanged
static std::string steady(std::function<std::string()> const &one){
    Heap h[4];
    struct Keep { Keep(){ sim::keep_rank_state = true; } ~Keep(){ sim::keep_rank_state = false; } } keep; // one process, four repetitions
    for(int i=0; i<4; i++){
        std::string e = one(); if (!e.empty()) return e;
        h[i] = {live_bytes, live_blocks};
    }
    if (h[3].blocks > h[2].blocks && h[2].blocks > h[1].blocks) return mc::fmt("every repetition leaves %ld bytes in %ld blocks behind", h[3].bytes - h[2].bytes, h[3].blocks - h[2].blocks);
    return "";
}
#endif
