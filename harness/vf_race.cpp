// Deterministic race detector for replays: the harness is compiled by clang with
// -fopenmp -fsanitize=thread (instrumentation only) and linked with this file instead
// of the OpenMP and ThreadSanitizer runtimes. The threads of a parallel region run one
// after the other; accesses to shared memory are recorded per thread between barriers.
#include <cstdio>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <unordered_map>
static int nthr=3,tid=0,inreg=0,locked=0,phase=0,failed=0; static char*top=0; static const char*fnname="";
struct Acc{ int thread,phase,locked; bool w; };
static std::unordered_map<uintptr_t,std::vector<Acc>> tab;
static void rec(void*p,int n,bool w){
  if(!inreg) return; char*sp=(char*)__builtin_frame_address(0);
  if((char*)p<top&&(char*)p>=sp-65536) return;       // the thread's own stack
  for(int k=0;k<n;k++){ auto&v=tab[(uintptr_t)p+k];
    for(auto&a:v) if(a.thread!=tid&&a.phase==phase&&(a.w||w)&&!(locked&&a.locked==locked)){ if(!failed) fprintf(stderr,"VF_FAIL race: threads %d and %d access %p, one writes\n",a.thread,tid,p); failed=1; return; }
    bool dup=false; for(auto&a:v) if(a.thread==tid&&a.phase==phase&&a.w==w&&a.locked==locked) dup=true;
    if(!dup) v.push_back({tid,phase,locked,w}); } }
extern "C"{
#define A(n) void __tsan_read##n(void*p){rec(p,n,false);} void __tsan_write##n(void*p){rec(p,n,true);} void __tsan_unaligned_read##n(void*p){rec(p,n,false);} void __tsan_unaligned_write##n(void*p){rec(p,n,true);} void __tsan_read_write##n(void*p){rec(p,n,true);} void __tsan_unaligned_read_write##n(void*p){rec(p,n,true);}
A(1) A(2) A(4) A(8) A(16)
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
void __tsan_vptr_update(void*,void*){} void __tsan_vptr_read(void*){}
void __tsan_read_range(void*p,unsigned long n){rec(p,n,false);} void __tsan_write_range(void*p,unsigned long n){rec(p,n,true);}
void*__tsan_memcpy(void*d,const void*s,unsigned long n){rec((void*)s,n,false);rec(d,n,true);return memcpy(d,s,n);}
void*__tsan_memmove(void*d,const void*s,unsigned long n){rec((void*)s,n,false);rec(d,n,true);return memmove(d,s,n);}
void*__tsan_memset(void*d,int c,unsigned long n){rec(d,n,true);return memset(d,c,n);}
#define AT(n,T) T __tsan_atomic##n##_load(const volatile T*a,int){return *a;} void __tsan_atomic##n##_store(volatile T*a,T v,int){*a=v;} T __tsan_atomic##n##_fetch_add(volatile T*a,T v,int){T o=*a;*a=o+v;return o;} T __tsan_atomic##n##_fetch_sub(volatile T*a,T v,int){T o=*a;*a=o-v;return o;} T __tsan_atomic##n##_exchange(volatile T*a,T v,int){T o=*a;*a=v;return o;} int __tsan_atomic##n##_compare_exchange_strong(volatile T*a,T*c,T v,int,int){if(*a==*c){*a=v;return 1;}*c=*a;return 0;} int __tsan_atomic##n##_compare_exchange_weak(volatile T*a,T*c,T v,int,int){if(*a==*c){*a=v;return 1;}*c=*a;return 0;} T __tsan_atomic##n##_compare_exchange_val(volatile T*a,T c,T v,int,int){T o=*a;if(o==c)*a=v;return o;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int){}
int __kmpc_global_thread_num(void*){return tid;}
int omp_get_thread_num(){return tid;} int omp_get_num_threads(){return inreg?nthr:1;} int omp_get_max_threads(){return nthr;}
void omp_set_num_threads(int n){ nthr=n<3?3:n; }
typedef void(*F)(int*,int*,...);
void __kmpc_fork_call(void*,int n,F f,...){
  va_list v; va_start(v,f); void*a[16]; for(int i=0;i<n&&i<16;i++) a[i]=va_arg(v,void*); va_end(v);
  if(inreg){ int z=0; f(&z,&z,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15]); return; }
  inreg=1; top=(char*)__builtin_frame_address(0)-0; tab.clear();
  for(tid=0;tid<nthr;tid++){ phase=0; locked=0; int t=tid,b=tid; f(&t,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11],a[12],a[13],a[14],a[15]); }
  inreg=0; tid=0; if(failed){ fflush(0); _Exit(1); } }
#define ST(sfx,T) void __kmpc_for_static_init_##sfx(void*,int,int sched,int*last,T*lo,T*hi,T*st,T,T chunk){ \
  int n=inreg?nthr:1; if(sched==33){ *lo+=tid*chunk; *hi=*lo+chunk-1; *st=chunk*n; return; } \
  T m=*hi-*lo+1,q=m/n,r=m%n; T a=*lo+tid*q+(tid<(int)r?tid:(int)r),b=a+q+(tid<(int)r?1:0)-1; *last=b==*hi; *lo=a; *hi=b; }
ST(4,int) ST(8,long) ST(4u,unsigned) ST(8u,unsigned long)
void __kmpc_for_static_fini(void*,int){}
static long dlo,dhi,dl; static bool dd;
#define DS(sfx,T) void __kmpc_dispatch_init_##sfx(void*,int,int,T lo,T hi,T,T){ int n=inreg?nthr:1; long m=(long)hi-lo+1,q=m/n,r=m%n; dlo=lo+tid*q+(tid<r?tid:r); dhi=dlo+q+(tid<r?1:0)-1; dl=hi; dd=true; } \
 int __kmpc_dispatch_next_##sfx(void*,int,int*last,T*lo,T*hi,T*st){ if(!dd||dhi<dlo) return 0; dd=false; *lo=dlo; *hi=dhi; *st=1; *last=dhi==dl; return 1; } void __kmpc_dispatch_fini_##sfx(void*,int){}
DS(4,int) DS(8,long) DS(4u,unsigned) DS(8u,unsigned long)
int __kmpc_reduce_nowait(...){locked=1;return 1;} void __kmpc_end_reduce_nowait(...){locked=0;}
int __kmpc_reduce(...){locked=1;return 1;} void __kmpc_end_reduce(...){locked=0;}
void __kmpc_critical(...){locked=1;} void __kmpc_end_critical(...){locked=0;}
void __kmpc_barrier(void*,int){++phase;}
void __kmpc_push_num_threads(void*,int,int){}
int __kmpc_single(void*,int){return tid==0;} void __kmpc_end_single(void*,int){} int __kmpc_master(void*,int){return tid==0;} void __kmpc_end_master(void*,int){} int __kmpc_masked(void*,int,int){return tid==0;} void __kmpc_end_masked(void*,int){}
}
