#include "mpm.h"
#include "objects/object_bump.hpp"
#include "objects/object_curve.hpp"
#include "objects/object_gate.hpp"
#include "objects/object_ground.hpp"
#include "objects/object_ramp.hpp"
#ifdef THREEDIM
#include "objects/object_silo.hpp"
#endif
// Analytic terrain: the region occupied and the outward unit normal of its boundary y = h(x) (silo: r = R(y)).
static void unitNormal(const TV&n){ double q=0; for(int d=0;d<DIM;d++) q+=n(d)*n(d); vp_assert_eq(q,1,1e-9,"the normal has unit length"); }
extern "C" void h_terrain(){
  int k=vp_choice("shape",5); double x=vp_real("x",-1,1), y=vp_real("y",-1,3); TV X=TV::Zero(); X(0)=x; X(1)=y;
#ifdef THREEDIM
  X(2)=vp_real("z",-1,1);
#endif
  std::unique_ptr<ObjectGeneral> o; double h,dh,up=1; // height, slope, +1 if the solid lies below
  if(k==0){ o=std::make_unique<ObjectBump>(BC::SlipFree,0.3); double a=25*(x-0.43); h=0.0475/std::cosh(a); dh=-25*0.0475*std::sinh(a)/(std::cosh(a)*std::cosh(a)); }
  else if(k==1){ o=std::make_unique<ObjectCurve>(BC::SlipFree,0.3); h=x*x; dh=2*x; }
  else if(k==2){ double hg=vp_real("hgate",0.001,0.1); o=std::make_unique<ObjectGate>(BC::SlipFree,0.3,"",hg); h=hg+100*x*x; dh=200*x; up=-1; }
  else if(k==3){ double yg=vp_real("yg",-1,1); o=std::make_unique<ObjectGround>(BC::SlipFree,0.3,"",yg); h=yg; dh=0; }
  else { o=std::make_unique<ObjectRamp>(BC::SlipFree,0.3); h=-0.1*std::tanh(100*x); double c=std::cosh(100*x); dh=-10/(c*c); }
  bool in=o->inside(X); vp_reach(k==0?"bump":k==1?"curve":k==2?"gate":k==3?"ground":"ramp");
  double dist=up*(h-y); // positive inside the solid
  if(in) vp_assert_le(0,dist,1e-9,"a point reported inside lies on the solid side of the surface"); else vp_assert_le(dist,0,1e-9,"a point reported outside lies on the free side of the surface");
  TV n=o->normal(X); unitNormal(n); obsv("n",n);
  vp_assert_eq(n(0)+dh*n(1),0,1e-9,"the normal is perpendicular to the surface"); vp_assert(up*n(1)>0,"the normal points out of the solid");
#ifdef THREEDIM
  vp_assert_eq(n(2),0,1e-9,"the normal has no component along the invariant axis");
#endif
}
#ifdef THREEDIM
extern "C" void h_silo(){
  double x=vp_real("x",-3,3), y=vp_real("y",-2,3), z=vp_real("z",-3,3), cut=vp_real("cut",-2,-0.1); int reg=vp_choice("region",4); if(reg&1) vp_assume(x>0.001); else vp_assume(x<-0.001); if(reg&2) vp_assume(z>=0); else vp_assume(z<0);
  ObjectSilo o(BC::SlipFree,0.3,"",cut); TV X; X(0)=x; X(1)=y; X(2)=z; bool in=o.inside(X); vp_reach("silo"); double R=std::tanh(y)+1, c=std::cosh(y);
  if(y<cut) vp_assert(!in,"below the outlet nothing is solid"); else if(in) vp_assert_le(R*R,x*x+z*z,1e-9,"a point reported inside lies in the wall"); else vp_assert_le(x*x+z*z,R*R,1e-9,"a point reported outside lies in the funnel");
  TV n=o.normal(X); unitNormal(n); obsv("n",n); double r=std::sqrt(x*x+z*z);
  vp_assert_eq(n(0)*z-n(2)*x,0,1e-9,"the normal is radial"); vp_assert_eq((n(0)*x+n(2)*z)/(c*c)+n(1)*r,0,1e-9,"the normal is perpendicular to the surface"); vp_assert(n(0)*x+n(2)*z<0,"the normal points to the axis");
}
#endif
