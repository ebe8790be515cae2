// Native side of the harness interface: replays one input assignment.
// SX_INPUTS names a file with one line per input: <name> <hex bytes>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <signal.h>
#include <unistd.h>
static FILE *in; static int quiet_panic;
static FILE *out(void){ static FILE *o; if(!o){ const char*p=getenv("SX_OUT"); o=p?fopen(p,"w"):stderr; } return o; }
static void next(uint8_t*p,size_t n,const uint8_t*name,size_t len){
  if(!in){ const char*f=getenv("SX_INPUTS"); in=f?fopen(f,"r"):NULL; if(!in){fprintf(stderr,"no SX_INPUTS\n"); exit(3);} }
  static char *line; static size_t cap;
  ssize_t r=getline(&line,&cap,in);
  if(r<0){ // more inputs than the path had: the path ended in the symbolic run
    fprintf(out(),"inputs-exhausted\n"); fflush(out()); _exit(78); }
  char *sp=strrchr(line,' '); *sp=0; sp++;
  if(strlen(line)!=len||memcmp(line,name,len)){ fprintf(out(),"input-mismatch %s %.*s\n",line,(int)len,name); fflush(out()); _exit(3);} 
  size_t h=strspn(sp,"0123456789abcdef"); if(h!=2*n){ fprintf(out(),"input-size %s\n",line); fflush(out()); _exit(3);} 
  for(size_t i=0;i<n;i++){ unsigned v; sscanf(sp+2*i,"%2x",&v); p[i]=(uint8_t)v; }
}
void sx_sym(uint8_t*p,size_t es,size_t n,const uint8_t*name,size_t len){ next(p,es*n,name,len); }
uint64_t sx_choice(uint64_t n,const uint8_t*name,size_t len){ uint64_t v; next((uint8_t*)&v,8,name,len); if(v>=n){fprintf(out(),"choice-range\n");fflush(out());_exit(77);} return v; }
uint64_t sx_concretize(uint64_t v){ return v; }
void sx_assume(bool c){ if(!c){ fprintf(out(),"assume\n"); fflush(out()); _exit(77);} }
void sx_check(bool c,const uint8_t*m,size_t len){ if(!c){ fprintf(out(),"check %.*s\n",(int)len,m); fflush(out()); _exit(1);} }
void sx_cover(const uint8_t*m,size_t len){ (void)m;(void)len; }
void sx_bound(const uint8_t*m,size_t len){ (void)m;(void)len; }
void sx_observe(uint64_t v){ fprintf(out(),"obs %llx\n",(unsigned long long)v); fflush(out()); }
static int expecting;
void sx_expect_panic(bool e){ expecting=e; fprintf(out(),"expect %d\n",e); fflush(out()); }
static struct { const uint8_t*p; uint8_t*copy; size_t n; } fz[16]; static int nfz;
static void aborted(int s){ (void)s; if(expecting) for(int i=0;i<nfz;i++) if(memcmp(fz[i].p,fz[i].copy,fz[i].n)){
  fprintf(out(),"check a refused request changed the points\n"); fflush(out()); _exit(1);} signal(SIGABRT,SIG_DFL); raise(SIGABRT); }
void sx_frozen(const uint8_t*p,size_t n){ if(nfz<16){ fz[nfz].p=p; fz[nfz].n=n; fz[nfz].copy=malloc(n+1); memcpy(fz[nfz].copy,p,n); nfz++; } signal(SIGABRT,aborted); }
bool sx_is_symbolic(void){ return false; }
