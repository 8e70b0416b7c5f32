// Stand-in for the tph_poisson library (not available offline): its contract is that every sample lies in [min,max];
// the samples themselves are supplied by the harness.
#pragma once
#include <array>
#include <cstdint>
#include <vector>
extern "C" int vp_poisson_count(); extern "C" double vp_poisson_sample(int i,int d,double lo,double hi);
namespace thinks {
template <typename F,std::size_t N> std::vector<std::array<F,N>> PoissonDiskSampling(F,const std::array<F,N>&lo,const std::array<F,N>&hi,std::uint32_t=30,std::uint32_t=0){
  std::vector<std::array<F,N>> r; int n=vp_poisson_count(); for(int i=0;i<n;i++){ std::array<F,N> a; for(std::size_t d=0;d<N;d++) a[d]=vp_poisson_sample(i,(int)d,lo[d],hi[d]); r.push_back(a); } return r; }
}
