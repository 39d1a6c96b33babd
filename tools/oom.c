#define _GNU_SOURCE
#include <stdlib.h>
#include <dlfcn.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
#include <execinfo.h>
static long n, target=-1; static int inited;
static void *(*rm)(size_t); static void *(*rc)(size_t,size_t); static void *(*rr)(void*,size_t);
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t,size_t); extern void *__libc_realloc(void*,size_t);
static const char *lib; 
extern char *program_invocation_short_name;
/* only allocations requested by kefir's allocator (through libkefir / kefir binary) are counted: caller check */
static int hit(void *ra){
  if(!inited){ inited=1; const char*t=getenv("OOM_AT"); target=t?atol(t):-1; }
  Dl_info di; if(!dladdr(ra,&di)||!di.dli_fname) return 0;
  if(!strstr(di.dli_fname,"kefir")) return 0;
  n++;
  if(n==target){ const char*bt=getenv("OOM_BT"); if(bt){void*a[40]; target=-1; int k=backtrace(a,40); backtrace_symbols_fd(a,k,2);} return 1;}
  return 0;
}
void *malloc(size_t s){ if(hit(__builtin_return_address(0))) return NULL; return __libc_malloc(s);}
void *calloc(size_t a,size_t b){ if(hit(__builtin_return_address(0))) return NULL; return __libc_calloc(a,b);}
void *realloc(void*p,size_t s){ if(hit(__builtin_return_address(0))) return NULL; return __libc_realloc(p,s);}
__attribute__((destructor)) static void fin(void){ const char*f=getenv("OOM_COUNT"); if(f){FILE*o=fopen(f,"w"); if(o){fprintf(o,"%ld\n",n); fclose(o);} } }
