// Native replay: supplies the sx_* intrinsics from a recorded input file and calls a harness entry.
//   replay ENTRY INPUTFILE TIER
// INPUTFILE: one line per input, in call order: "<bits>:<hex>" or "b:<hexbytes>".
// stdout: COVER <id> / OBS <u64> lines.
// exit: 0 finished, 101 a check failed, 102 an assumption failed (the recorded inputs do not fit this binary),
// 103 inputs exhausted/mismatched, 104 a request over the allocation limit; abort signal: a panic.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static char **lines; static size_t nl, pos; static unsigned tier; static uint64_t lim = ~0ULL; static int started;
static const char *next(void){ if(pos>=nl){ printf("INPUTS-EXHAUSTED\n"); fflush(stdout); _exit(103);} return lines[pos++]; }
static uint64_t val(unsigned bits){ const char*l=next(); unsigned b=atoi(l); const char*c=strchr(l,':'); if(!c||b!=bits){ printf("INPUT-MISMATCH want %u got %s\n",bits,l); fflush(stdout); _exit(103);} return strtoull(c+1,0,16); }
uint64_t sx_u64(void){return val(64);} uint32_t sx_u32(void){return val(32);} uint16_t sx_u16(void){return val(16);} uint8_t sx_u8(void){return val(8);} bool sx_bool(void){return val(1)&1;}
void sx_bytes(uint8_t*p,size_t n){ const char*l=next(); if(l[0]!='b'||strlen(l)!=2+2*n){ printf("INPUT-MISMATCH want %zu bytes\n",n); fflush(stdout); _exit(103);} for(size_t i=0;i<n;i++){ unsigned x; sscanf(l+2+2*i,"%2x",&x); p[i]=x; } }
void sx_assume(bool c){ if(!c){ printf("ASSUME-FAILED\n"); fflush(stdout); _exit(102);} }
void sx_check(bool c,uint32_t id){ if(!c){ printf("CHECK-FAILED %u\n",id); fflush(stdout); _exit(101);} }
void sx_fail(uint32_t id){ printf("CHECK-FAILED %u\n",id); fflush(stdout); _exit(101); }
void sx_cover(uint32_t id){ printf("COVER %u\n",id); }
void sx_obs(uint64_t v){ printf("OBS %llu\n",(unsigned long long)v); }
uint64_t sx_concretize(uint64_t v){return v;}
void sx_alloc_limit(uint64_t v){ lim=v; }
uint64_t sx_select(bool c,uint64_t a,uint64_t b){return c?a:b;}
uint32_t sx_tier(void){return tier;}
bool sx_is_symbolic(uint64_t v){return false;}
void sx_print(uint64_t v){ fprintf(stderr,"PRINT %llx\n",(unsigned long long)v); }
static void over(size_t n){ char b[64]; int k=snprintf(b,64,"ALLOC-LIMIT %zu\n",n); if(write(1,b,k)){} _exit(104); }
extern void*__libc_malloc(size_t); extern void*__libc_calloc(size_t,size_t); extern void*__libc_realloc(void*,size_t);
void*malloc(size_t n){ if(n>lim) over(n); return __libc_malloc(n);} 
void*calloc(size_t a,size_t b){ if(a&&b&&(unsigned __int128)a*b>lim) over(a*b); return __libc_calloc(a,b);} 
void*realloc(void*p,size_t n){ if(n>lim) over(n); return __libc_realloc(p,n);} 
int main(int argc,char**argv){
  if(argc<4) return 2;
  void(*f)(void)=(void(*)(void))dlsym(RTLD_DEFAULT,argv[1]);
  if(!f){ fprintf(stderr,"no entry %s\n",argv[1]); return 2; }
  FILE*fp=fopen(argv[2],"r"); if(!fp) return 2;
  char*l=NULL; size_t cap=0; ssize_t r;
  while((r=getline(&l,&cap,fp))>0){ while(r>0&&(l[r-1]=='\n'||l[r-1]=='\r')) l[--r]=0; if(!r) continue; lines=realloc(lines,(nl+1)*sizeof*lines); lines[nl++]=strdup(l);} fclose(fp);
  tier=atoi(argv[3]);
  setvbuf(stdout,NULL,_IOLBF,0);
  f();
  lim=~0ULL;
  printf("DONE\n"); fflush(stdout); _exit(0);
}
