#include "mpm.h"
#include "svd.h"
#include "sampling/regular_sampling_particles.hpp"
#include "sampling/sampling_particles.hpp"
// Initial particle configurations
static double poiss[4][3]; static int poissN=0;
extern "C" int vp_poisson_count(){ return poissN; }
extern "C" double vp_poisson_sample(int i,int d,double lo,double hi){ poiss[i][d]=lo+(hi-lo)*vp_real(nm(nm("u",i).c_str(),d).c_str(),0,1); return poiss[i][d]; }
static void domain(Simulation&s){ s.rho=vp_real("rho",0.5,3); s.Lx=vp_real("Lx",0.5,1.25); s.Ly=vp_real("Ly",0.5,1.25);
#ifdef THREEDIM
  s.Lz=vp_real("Lz",0.5,1.25);
#endif
}
static double vol(Simulation&s){ double v=s.Lx*s.Ly;
#ifdef THREEDIM
  v*=s.Lz;
#endif
  return v; }
static double ext(Simulation&s,int d){ 
#ifdef THREEDIM
  if(d==2) return s.Lz;
#endif
  return d? s.Ly: s.Lx; }
static bool inShape(Simulation&s,int crop,const TV&x){ if(crop==0) return true;
#ifdef THREEDIM
  double a=x(0)-s.Lx/2, b=x(2)-s.Lz/2; if(crop==1) return a*a+b*b<s.Lx*s.Lx/4; double r=std::tanh(x(1))+1; return a*a+b*b<r*r;
#else
  double a=x(0)-s.Lx; return x(1)<0.05+100*a*a-s.dx/2;
#endif
}
static void fresh(Simulation&s,int n){ vp_assert((int)s.Np==n&&(int)s.particles.x.size()==n&&(int)s.particles.v.size()==n&&(int)s.particles.F.size()==n&&(int)s.particles.tau.size()==n&&(int)s.particles.Bmat.size()==n&&(int)s.particles.eps_pl_dev.size()==n&&(int)s.particles.eps_pl_vol.size()==n&&(int)s.particles.muI.size()==n&&(int)s.particles.pic.size()==n&&(int)s.particles.flip.size()==n,"every particle array has one entry per particle");
  for(int p=0;p<n;p++){ eqv(s.particles.v[p],TV::Zero(),0,"particles start at rest"); eqm(s.particles.F[p],TM::Identity(),0,"particles start undeformed"); eqm(s.particles.tau[p],TM::Zero(),0,"particles start without stress"); } vp_assert_eq(s.particle_mass,s.rho*s.particle_volume,1e-9,"particle mass is density times particle volume"); }
extern "C" void h_regular(){ Simulation s; setup(s,0,0.5); domain(s); int crop=vp_choice("crop",DIM), k=vp_choice("ppc",2); double n1= k? 2: 1; s.dx=vp_real("dx",0.5,0.75); double sp=s.dx/n1, ppc= DIM==3? n1*n1*n1: n1*n1; 
#ifdef THREEDIM
  if(crop) vp_assume(k==0); 
#endif
  regularSampleParticles(s,ppc,crop); vp_reach(crop==0?"full":"cropped"); vp_assert_eq(s.particle_volume*ppc,DIM==3?s.dx*s.dx*s.dx:s.dx*s.dx,1e-9,"a full cell holds the requested number of particles"); int n=s.particles.x.size(); fresh(s,n);
  int cnt=0; int N[3]={0,0,1}; for(int d=0;d<DIM;d++) N[d]=(int)std::floor(ext(s,d)/sp); int at=0;
  for(int i=0;i<N[0];i++) for(int j=0;j<N[1];j++) for(int l=0;l<N[2];l++){ TV x; x(0)=(i+0.5)*sp; x(1)=(j+0.5)*sp; if(DIM==3) x(DIM-1)=(l+0.5)*sp; if(!inShape(s,crop,x)) continue; bool found=false; for(int p=0;p<n&&!found;p++){ bool same=true; for(int d=0;d<DIM;d++) if(!(s.particles.x[p](d)-x(d)<1e-9&&x(d)-s.particles.x[p](d)<1e-9)) same=false; found=same; } vp_assert(found,"the particles are the centres of a regular lattice filling the domain (inside the requested shape)"); cnt++; }
  vp_assert(cnt==n,"no particle outside the domain or the requested shape, and none twice"); }
extern "C" void h_poisson(){ Simulation s; setup(s,0,0.5); domain(s); poissN=vp_choice("count",3)+1; int crop=vp_choice("crop",DIM); double ppc=vp_real("ppc",1,10); sampleParticles(s,0.1,ppc,crop); vp_reach(crop==0?"full":"cropped"); 
  double d=s.dx, cell= DIM==3? d*d*d: d*d; vp_assert_eq(s.particle_volume*poissN,vol(s),1e-9,"the particles share the volume of the domain"); vp_assert_eq(cell,ppc*s.particle_volume,1e-9,"the grid spacing gives the requested number of particles per cell"); int n=s.particles.x.size(); fresh(s,n); obsv("x",n? s.particles.x[0]: TV(TV::Zero()));
  int at=0; for(int i=0;i<poissN;i++){ TV x; for(int k=0;k<DIM;k++) x(k)=poiss[i][k]; if(!inShape(s,crop,x)) continue; bool ok=at<n; if(ok) for(int k=0;k<DIM;k++) vp_assert_eq(s.particles.x[at](k),x(k),1e-9,"the particles are the sampled points inside the requested shape"); at++; } vp_assert(at==n,"no sampled point inside the requested shape is lost, none outside is kept"); }
