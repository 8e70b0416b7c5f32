// Shared harness helpers. Only documented configuration members of Simulation are set here.
#pragma once
#include "vp.h"
#include "simulation/simulation.hpp"
#include <string>
#ifdef THREEDIM
#define DIM 3
#else
#define DIM 2
#endif
static inline std::string nm(const char*b,int i){ char buf[48]; int k=0; while(b[k]&&k<40){ buf[k]=b[k]; k++; } if(i>=10) buf[k++]='0'+i/10; buf[k++]='0'+i%10; buf[k]=0; return std::string(buf); }
static inline double rnd(const char*b,int i,double lo,double hi){ std::string s=nm(b,i); return vp_real(s.c_str(),lo,hi); }
static inline double rnd2(const char*b,int i,int j,double lo,double hi){ std::string s=nm(nm(b,i).c_str(),j); return vp_real(s.c_str(),lo,hi); }
static inline TV rvec(const char*b,int i,double lo,double hi){ TV v; for(int d=0;d<DIM;d++) v(d)=rnd2(b,i,d,lo,hi); return v; }
static inline TM rmat(const char*b,int i,double lo,double hi){ TM m; for(int r=0;r<DIM;r++) for(int c=0;c<DIM;c++){ m(r,c)=rnd2(nm(b,i).c_str(),r,c,lo,hi); } return m; }
static inline void eqv(const TV&a,const TV&b,double tol,const char*l){ for(int d=0;d<DIM;d++) vp_assert_eq(a(d),b(d),tol,l); }
static inline void eqm(const TM&a,const TM&b,double tol,const char*l){ for(int r=0;r<DIM;r++) for(int c=0;c<DIM;c++) vp_assert_eq(a(r,c),b(r,c),tol,l); }
static inline void obsv(const char*n,const TV&a){ for(int d=0;d<DIM;d++) vp_observe(nm(n,d).c_str(),a(d)); }
static inline void obsm(const char*n,const TM&a){ for(int r=0;r<DIM;r++) for(int c=0;c<DIM;c++) vp_observe(nm(nm(n,r).c_str(),c).c_str(),a(r,c)); }
// a Simulation prepared through its public interface, nothing is written to disk
static inline void setup(Simulation&s,int Np,double dx){ s.initialize(false,"vpout/","vp"); s.reduce_verbose=true; s.Np=Np; s.particles=Particles(Np); s.dx=dx; s.particle_mass=1; s.particle_volume=1; s.Lx=1; s.Ly=1;
#ifdef THREEDIM
  s.Lz=1;
#endif
}
// run k steps of exactly size dt each through simulate(): one frame per step
static inline void steps(Simulation&s,int k,double dt){ s.fps=1/dt; s.cfl=1e12; s.cfl_elastic=1e12; s.end_frame=k; s.simulate(); }
// derive the precomputed constants without stepping
static inline void derive(Simulation&s){ unsigned ef=s.end_frame; s.end_frame=0; s.simulate(); s.end_frame=ef; }
// Region of a particle inside its cell, per spline degree: the kinks of the kernels and open intervals between them
static inline double frac(const char*name,int region){
#if SPLINEDEG == 3
  switch(region){ case 0: return vp_real(name,1.0/1024,1023.0/1024); default: return vp_real(name,0,0); }
#else
  switch(region){ case 0: return vp_real(name,1.0/1024,511.0/1024); case 1: return vp_real(name,513.0/1024,1023.0/1024); case 2: return vp_real(name,0.5,0.5); default: return vp_real(name,0,0); }
#endif
}
#if SPLINEDEG == 3
#define NREG 2
#else
#define NREG 4
#endif
// Np particles, particle p in cell (p,..,p), grid aligned with the origin; 2D: every coordinate symbolic within its region
// (region of particle 0 along x is a choice); 3D: the coordinates along one chosen axis are symbolic, the others fixed rationals
static inline void place(Simulation&s,int Np,double dx,const char*reg,int first=0){
  int axis=-1;
#ifdef THREEDIM
  axis=vp_choice("axis",3);
#endif
  int r0;
#ifdef THREEDIM
  r0= vp_tier()? vp_choice(reg,NREG): (SPLINEDEG==3?0:axis%2); // quick tier, 3D: one region per axis
#else
  r0=vp_choice(reg,NREG);
#endif
  for(int p=0;p<Np;p++){ TV x; for(int d=0;d<DIM;d++){ if(axis>=0&&d!=axis){ x(d)=dx*(p+0.25+0.125*((p*DIM+d)%4)); continue; } int r= p==0&&(d==0||axis>=0)?r0: (p*DIM+d)%2; x(d)=dx*(p+frac(nm(nm("f",p).c_str(),d).c_str(),r)); } s.particles.x[first+p]=x; }
}
// a fast particle whose stencil is disjoint from the others: it alone determines the largest particle speed
static inline void farParticle(Simulation&s,double dx,int p=0){ TV x; for(int d=0;d<DIM;d++) x(d)=dx*0.25; x(0)=dx*8.25; s.particles.x[p]=x; s.particles.v[p]=TV::Zero(); s.particles.v[p](0)=100; }
