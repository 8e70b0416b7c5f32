#include "mpm.h"
#include "svd.h"
// Two particles too far apart to interact move uniformly; the background grid must follow them wherever they go.
// A coordinate lies exactly on a kink of the kernels or at least 1e-9 half-cells away from it (weights below 1e-25 are dropped by the code).
static void offKink(double x,double dx){ double t=2*x/dx,f=t-std::floor(t); vp_assume(f==0||(f>1e-9&&f<1-1e-9)); }
extern "C" void h_follow(){
  Simulation s; double dx=0.5; setup(s,2,dx); s.particle_volume=0; // no internal forces: the stress of the moved particles plays no role
  int axis=vp_choice("axis",DIM), who=vp_choice("mover",3), al= vp_tier()||(who==1&&DIM==2)? vp_choice("aligned",2): 1; int cfg=vp_tier()? vp_choice("cfg",4): (axis+2*who+al)%4; s.use_musl=cfg&1; s.flip_ratio= (cfg&2)? -2.0: 0.5; s.n_threads= vp_tier()&&(cfg&1)? 2: 1;
  double ref= (cfg&2)? -0.75: 0; if(cfg&2) s.grid_reference_point=ref*TV::Ones();
  double w= al? 13*dx: vp_real("w",6.26,6.74); // initial extent along the axis: any, or a whole number of cells
  double vm= vp_tier()? 1.2: (al&&DIM==2)? 1.1: 0.6; double v=vp_real("v",-vm,vm);
  TV x1=0.3*TV::Ones(); x1(axis)=w; s.particles.x[0]=TV::Zero(); s.particles.x[1]=x1; offKink(w,dx);
  int diag= vp_tier()? vp_choice("diagonal",3): al&&who<2? vp_choice("diagonal",2): 0, ax2=(axis+1)%DIM; // motion along one axis, or also along the next one with opposite (equal) sign
  TV vv=TV::Zero(); vv(axis)=v; if(diag) vv(ax2)= diag==1? -v: v; TV x0[2],v0[2];
  for(int p=0;p<2;p++){ bool m=who==2||who==p; s.particles.v[p]= m? vv: TV(TV::Zero()); x0[p]=s.particles.x[p]; v0[p]=s.particles.v[p]; if(m) offKink(x0[p](axis)+v,dx); if(m&&diag) offKink(x0[p](ax2)+vv(ax2),dx); }
  steps(s,2,1.0); vp_reach("moved"); double m=0; for(size_t i=0;i<s.grid.mass.size();i++) m+=s.grid.mass[i];
  vp_assert_eq(m,2*s.particle_mass,1e-6,"all particle mass reaches the grid after the particles moved");
  for(int p=0;p<2;p++){ obsv(nm("x",p).c_str(),s.particles.x[p]); eqv(s.particles.v[p],v0[p],1e-6,"an isolated particle keeps its velocity"); eqv(s.particles.x[p],x0[p]+2.0*v0[p],1e-6,"an isolated particle moves uniformly"); eqm(s.particles.F[p],TM::Identity(),1e-6,"an isolated particle does not deform"); }
}
