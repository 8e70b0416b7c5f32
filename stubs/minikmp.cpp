// A small OpenMP runtime on plain pthreads, so that ThreadSanitizer sees every synchronisation (libomp itself is not instrumented).
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <map>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <vector>
#include <condition_variable>
struct Team { int n=1; std::mutex m; std::condition_variable cv; int waiting=0; long gen=0; std::map<long,long> disp; };
static thread_local int tid=0; static thread_local Team*team=nullptr; static thread_local int pushed=0; static std::mutex redMtx; static std::mutex&crit(void*p){ static std::mutex g; static std::map<void*,std::mutex> m; std::lock_guard<std::mutex> l(g); return m[p]; }
static thread_local long dL,dU,dI,dC,dk,dEpoch=0;
static void barrier(){ Team*t=team; if(!t||t->n<=1) return; std::unique_lock<std::mutex> l(t->m); long g=t->gen; if(++t->waiting==t->n){ t->waiting=0; t->gen++; t->cv.notify_all(); } else t->cv.wait(l,[&]{ return t->gen!=g; }); }
typedef void (*Fn)(int32_t*,int32_t*,...);
static void call(Fn f,int id,int n,void**a){ int32_t g=id,b=id; switch(n){
#define A1 a[0]
  case 0: f(&g,&b); break; case 1: f(&g,&b,a[0]); break; case 2: f(&g,&b,a[0],a[1]); break; case 3: f(&g,&b,a[0],a[1],a[2]); break; case 4: f(&g,&b,a[0],a[1],a[2],a[3]); break; case 5: f(&g,&b,a[0],a[1],a[2],a[3],a[4]); break; case 6: f(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5]); break; case 7: f(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6]); break; case 8: f(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]); break; case 9: f(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]); break; case 10: f(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]); break;
  case 11: f(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10]); break; case 12: f(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11]); break; default: __builtin_trap(); } }
template<class T> static void stat(int sched,int32_t*last,T*lo,T*up,T*st,int64_t inc,int64_t chunk){ long L=*lo,U=*up; long trip= inc>0?(U>=L?(U-L)/inc+1:0):(L>=U?(L-U)/(-inc)+1:0); int n=team?team->n:1,t=tid; if((sched&0xff)==33){ if(chunk<1) chunk=1; long b=(long)t*chunk; *lo=(T)(L+b*inc); *up=(T)(L+(b+chunk-1)*inc); *st=(T)(chunk*inc*n); if(last) *last= trip>0&&((trip-1)/chunk)%n==t; return; }
  long q=trip/n,r=trip%n; long b=t*q+(t<r?t:r), c=q+(t<r?1:0); *lo=(T)(L+b*inc); *up=(T)(L+(b+c-1)*inc); *st=(T)(trip*inc); if(last) *last= c>0&&b+c==trip; if(c==0){ *lo=(T)(U+inc); *up=(T)U; } }
extern "C" {
int32_t __kmpc_global_thread_num(void*){ return tid; }
void __kmpc_push_num_threads(void*,int32_t,int32_t n){ pushed=n; }
void __kmpc_fork_call(void*,int32_t n,Fn f,...){ void*a[16]; va_list v; va_start(v,f); for(int i=0;i<n;i++) a[i]=va_arg(v,void*); va_end(v); int T=pushed>0?pushed:2; pushed=0; if(team) T=1; Team tm; tm.n=T; Team*old=team; int ot=tid; if(T==1){ team= old?old:&tm; call(f,tid,n,a); team=old; return; }
  std::vector<std::thread> th; for(int i=1;i<T;i++) th.emplace_back([&,i]{ tid=i; team=&tm; call(f,i,n,a); }); tid=0; team=&tm; call(f,0,n,a); team=old; tid=ot; for(auto&t:th) t.join(); }
void __kmpc_serialized_parallel(void*,int32_t){} void __kmpc_end_serialized_parallel(void*,int32_t){}
void __kmpc_for_static_init_4(void*,int32_t,int32_t s,int32_t*l,int32_t*lo,int32_t*up,int32_t*st,int32_t inc,int32_t ch){ stat<int32_t>(s,l,lo,up,st,inc,ch); }
void __kmpc_for_static_init_4u(void*,int32_t,int32_t s,int32_t*l,uint32_t*lo,uint32_t*up,int32_t*st,int32_t inc,int32_t ch){ int64_t a=*lo,b=*up,c; stat<int64_t>(s,l,&a,&b,&c,inc,ch); *lo=a; *up=b; *st=c; }
void __kmpc_for_static_init_8(void*,int32_t,int32_t s,int32_t*l,int64_t*lo,int64_t*up,int64_t*st,int64_t inc,int64_t ch){ stat<int64_t>(s,l,lo,up,st,inc,ch); }
void __kmpc_for_static_init_8u(void*,int32_t,int32_t s,int32_t*l,uint64_t*lo,uint64_t*up,int64_t*st,int64_t inc,int64_t ch){ int64_t a=*lo,b=*up,c; stat<int64_t>(s,l,&a,&b,&c,inc,ch); *lo=a; *up=b; *st=c; }
void __kmpc_for_static_fini(void*,int32_t){}
static void dinit(long L,long U,long I,long C){ dL=L; dU=U; dI=I; dC=C<1?1:C; dEpoch++; }
static int dnext(int32_t*last,long&lo,long&up,long&st){ Team*t=team; static Team solo; if(!t) t=&solo; long k; { std::lock_guard<std::mutex> g(t->m); k=t->disp[dEpoch]++; } long trip=dI>0?(dU>=dL?(dU-dL)/dI+1:0):(dL>=dU?(dL-dU)/(-dI)+1:0); long b=k*dC; if(b>=trip) return 0; long e=b+dC<trip?b+dC:trip; if(last) *last=e==trip; lo=dL+b*dI; up=dL+(e-1)*dI; st=dI; return 1; }
void __kmpc_dispatch_init_4(void*,int32_t,int32_t,int32_t L,int32_t U,int32_t I,int32_t C){ dinit(L,U,I,C); } void __kmpc_dispatch_init_4u(void*,int32_t,int32_t,uint32_t L,uint32_t U,int32_t I,int32_t C){ dinit(L,U,I,C); }
void __kmpc_dispatch_init_8(void*,int32_t,int32_t,int64_t L,int64_t U,int64_t I,int64_t C){ dinit(L,U,I,C); } void __kmpc_dispatch_init_8u(void*,int32_t,int32_t,uint64_t L,uint64_t U,int64_t I,int64_t C){ dinit(L,U,I,C); }
int __kmpc_dispatch_next_4(void*,int32_t,int32_t*l,int32_t*lo,int32_t*up,int32_t*st){ long a,b,c; if(!dnext(l,a,b,c)) return 0; *lo=a; *up=b; *st=c; return 1; } int __kmpc_dispatch_next_4u(void*,int32_t,int32_t*l,uint32_t*lo,uint32_t*up,int32_t*st){ long a,b,c; if(!dnext(l,a,b,c)) return 0; *lo=a; *up=b; *st=c; return 1; }
int __kmpc_dispatch_next_8(void*,int32_t,int32_t*l,int64_t*lo,int64_t*up,int64_t*st){ long a,b,c; if(!dnext(l,a,b,c)) return 0; *lo=a; *up=b; *st=c; return 1; } int __kmpc_dispatch_next_8u(void*,int32_t,int32_t*l,uint64_t*lo,uint64_t*up,int64_t*st){ long a,b,c; if(!dnext(l,a,b,c)) return 0; *lo=a; *up=b; *st=c; return 1; }
void __kmpc_dispatch_fini_4(void*,int32_t){} void __kmpc_dispatch_fini_4u(void*,int32_t){} void __kmpc_dispatch_fini_8(void*,int32_t){} void __kmpc_dispatch_fini_8u(void*,int32_t){} void __kmpc_dispatch_deinit(void*,int32_t){}
void __kmpc_barrier(void*,int32_t){ barrier(); } int32_t __kmpc_cancel_barrier(void*,int32_t){ barrier(); return 0; }
void __kmpc_critical(void*,int32_t,void*p){ crit(p).lock(); } void __kmpc_critical_with_hint(void*,int32_t,void*p,uint32_t){ crit(p).lock(); } void __kmpc_end_critical(void*,int32_t,void*p){ crit(p).unlock(); }
int32_t __kmpc_reduce_nowait(void*,int32_t,int32_t,size_t,void*,void*,void*){ redMtx.lock(); return 1; } void __kmpc_end_reduce_nowait(void*,int32_t,void*){ redMtx.unlock(); } int32_t __kmpc_reduce(void*,int32_t,int32_t,size_t,void*,void*,void*){ redMtx.lock(); return 1; } void __kmpc_end_reduce(void*,int32_t,void*){ redMtx.unlock(); barrier(); }
int32_t __kmpc_single(void*,int32_t){ return tid==0; } void __kmpc_end_single(void*,int32_t){} int32_t __kmpc_master(void*,int32_t){ return tid==0; } void __kmpc_end_master(void*,int32_t){} int32_t __kmpc_masked(void*,int32_t,int32_t f){ return tid==f; } void __kmpc_end_masked(void*,int32_t){} void __kmpc_flush(void*){} void __kmpc_ordered(void*,int32_t){} void __kmpc_end_ordered(void*,int32_t){}
int omp_get_thread_num(){ return tid; } int omp_get_num_threads(){ return team?team->n:1; } int omp_get_max_threads(){ return 2; } void omp_set_num_threads(int){} int omp_in_parallel(){ return team!=nullptr; } int omp_get_num_procs(){ return 2; }
double omp_get_wtime(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
}
