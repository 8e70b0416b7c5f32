#include "mpm.h"
#include "svd.h"
#include "objects/object_ground.hpp"
// Contact laws at a grid node, through boundaryCollision() with the time step chosen by the code itself.
static double prep(Simulation&s){ setup(s,1,1.0); double dt=vp_real("dt",0.01,0.1); s.fps=1/dt; s.cfl=1e12; s.cfl_elastic=1e12; s.end_frame=0; s.simulate(); s.end_frame=1; s.final_time=1e9; s.updateDt(); return dt; }
static double mag(const TV&t){ double q=0; for(int d=0;d<DIM;d++) q+=t(d)*t(d); return std::sqrt(q); }
// Coulomb contact with unit normal n (pointing into the material), relative velocity w
static TV law(BC bc,const TV&w,const TV&n,double mu,bool&separating){ double vn=w.dot(n); TV t=w-vn*n; separating= !(vn<0); if(bc==BC::NoSlip) return TV::Zero(); if(bc==BC::SlipFree&&!(vn<0)) return w; if(!(vn<0)) return t;
  if(mu==0) return t; double tn=mag(t), f=mu*(-vn); if(tn<=f) return TV::Zero(); return t*((tn-f)/tn); }
static PlateType types[6]={PlateType::bottom,PlateType::top,PlateType::left,PlateType::right,PlateType::back,PlateType::front};
static BC bcs[3]={BC::NoSlip,BC::SlipFree,BC::SlipStick};
static TV plateNormal(int k){ TV n=TV::Zero(); int ax= k<2?1:k<4?0:2; n(ax)= (k%2)?-1:1; return n; }
extern "C" void h_plate(){
  Simulation s; double dt=prep(s); int k=vp_choice("type",DIM==3?6:4), b=vp_choice("bc",3), fm=vp_choice("fric",3); double mu= fm==0? 0: vp_real("mu",0.1,2); double pos=vp_real("pos",-1,1), lo=vp_real("lo",-3,-1), hi=vp_real("hi",1,3); TV vo=rvec("vo",0,-2,2);
#ifdef THREEDIM
  ObjectPlate pl(pos,types[k],bcs[b],fm==2?0.7:mu,lo,hi,vo(0),vo(1),vo(2));
#else
  ObjectPlate pl(pos,types[k],bcs[b],fm==2?0.7:mu,lo,hi,vo(0),vo(1));
#endif
  s.plates.push_back(std::make_unique<ObjectPlate>(pl)); if(fm==2){ s.use_mibf=true; s.grid.friction.assign(3,0.05); s.grid.friction[1]=mu; }
  TV X=rvec("X",0,-4,4), v=rvec("v",0,-5,5), n=plateNormal(k), Y=X+dt*v; TV v1=v;
#ifdef THREEDIM
  int zero=vp_choice("zero",3); if(zero>0){ int ax= k<2?1:k<4?0:2; int a=(ax+zero)%3; v1(a)=vo(a); v(a)=vo(a); Y=X+dt*v; } // one tangential component at rest
#endif
  s.boundaryCollision(1,X,v1); vp_reach("done"); obsv("v",v1);
  int ax= k<2?1:k<4?0:2, tx= k<2?0:1; bool in= (k%2)? Y(ax)>=pos: Y(ax)<=pos; if(k<4) in= in&&Y(tx)<hi&&Y(tx)>lo; TV w=v-vo;
  if(!in){ eqv(v1,v,1e-9,"a node that does not reach a plate keeps its velocity"); return; }
  bool sep; TV e=law(bcs[b],w,n,mu,sep); TV r=v1-vo;
  if(bcs[b]==BC::NoSlip) eqv(r,TV::Zero(),1e-9,"no-slip: the node moves with the plate");
  else if(sep&&bcs[b]==BC::SlipFree) eqv(r,w,1e-9,"slip-free: a separating node is not held back");
  else { vp_assert_eq(r.dot(n),0,1e-9,"no motion through the plate");
    if(!sep||fm==0) for(int d=0;d<DIM;d++) vp_assert_eq(r(d),e(d),1e-6,"tangential motion relative to the plate reduced by friction times normal speed, without change of direction");
    else { for(int d=0;d<DIM;d++) if(d!=ax){ vp_assert(r(d)*w(d)>=-1e-9,"friction never reverses sliding"); vp_assert_le(r(d)*r(d),w(d)*w(d),1e-6,"friction never accelerates sliding"); } } }
}
struct Plane: public ObjectGeneral { TV n; double c; Plane(BC b,double f,const TV&n,double c):ObjectGeneral(b,f,""),n(n),c(c){} bool inside(const TV&X) const override { return X.dot(n)<=c; } TV normal(const TV&) const override { return n; } };
extern "C" void h_object(){
  Simulation s; double dt=prep(s); int b=vp_choice("bc",3), fm=vp_choice("fric",3); double mu= fm==0? 0: vp_real("mu",0.1,2), of= fm==2?0.7:mu; TV n=TV::Zero(); int g=vp_choice("normal",3); double c=vp_real("c",-1,1);
  if(g==0) n(1)=1; else { double t= g==1? 0.5: -2.0; n(0)=2*t/(1+t*t); n(1)=(1-t*t)/(1+t*t);
#ifdef THREEDIM
    double z=1.0/3, k=(1-z*z)/(1+z*z); n(2)=2*z/(1+z*z); n(0)*=k; n(1)*=k;
#endif
  }
  if(g==0) s.objects.push_back(std::make_unique<ObjectGround>(bcs[b],of,"",c)); else s.objects.push_back(std::make_unique<Plane>(bcs[b],of,n,c));
  if(fm==2){ s.use_mibf=true; s.grid.friction.assign(3,0.05); s.grid.friction[2]=mu; }
  TV X=rvec("X",0,-4,4), v=rvec("v",0,-5,5), Y=X+dt*v, v1=v; s.boundaryCollision(2,X,v1); vp_reach("done"); obsv("v",v1);
  if(!(Y.dot(n)<=c)){ eqv(v1,v,1e-9,"a node that does not reach an object keeps its velocity"); return; }
  bool sep; TV e=law(bcs[b],v,n,mu,sep);
  if(bcs[b]==BC::NoSlip) eqv(v1,TV::Zero(),1e-9,"no-slip: the node stops"); else if(sep&&bcs[b]==BC::SlipFree) eqv(v1,v,1e-9,"slip-free: a separating node is not held back");
  else { eqv(v1,e,1e-6,"tangential motion reduced by friction times normal speed, no motion into the object"); }
}
// several boundaries at one node act one after the other
extern "C" void h_multi(){
  Simulation s; prep(s); int b=1+vp_choice("bc",2); double m1=vp_real("mu1",0.1,1), m2=vp_real("mu2",0.1,1), vo=vp_real("vo",-1,1); TV n1=TV::Zero(),n2=TV::Zero(),n3=TV::Zero(); n1(0)=0.6; n1(1)=0.8; n2(1)=1; n3(0)=1; // slope, ground, left plate moving along x
  int which=vp_choice("pair",3); TV v=rvec("v",0,-3,3), X=TV::Zero(), e=v; X(0)=-2; X(1)=-2; bool sp; TV O=TV::Zero(); O(0)=vo;
  if(which!=2){ s.objects.push_back(std::make_unique<Plane>(bcs[b],m1,n1,0.0)); e=law(bcs[b],e,n1,m1,sp); }
  if(which!=1){ s.objects.push_back(std::make_unique<ObjectGround>(bcs[b],m2,"",0.0)); e=law(bcs[b],e,n2,m2,sp); }
  bool psep=false; if(which!=0){ s.plates.push_back(std::make_unique<ObjectPlate>(0.0,PlateType::left,BC::NoSlip,0.0,-1e15,1e15,vo,0.0)); e=O; }
  s.boundaryCollision(0,X,v); vp_reach("done"); obsv("v",v); eqv(v,e,1e-6,"each boundary acts on the result of the previous one");
}
// plates move with their prescribed, possibly reduced, velocity
extern "C" void h_platemove(){
  Simulation s; setup(s,2,1.0); registerSvd(TM::Identity(),TV::Ones(),TM::Identity()); s.grid_reference_point=TV::Zero(); for(int p=0;p<2;p++){ s.particles.x[p]=0.25*TV::Ones(); s.particles.x[p](0)+=8*p; }
  int k=vp_choice("type",DIM==3?6:4), ld=vp_choice("load",2); double dt=vp_real("dt",0.1,0.5), vm=vp_real("vmin",0.5,10), lf= ld? vp_real("lf",0.1,2.9): 0.0; TV vo=rvec("vo",0,-2,2); double sg=(k%2)?1:-1, pos=20*sg+vp_real("pos",-1,1), lo=-50+vp_real("lo",-1,1), hi=50+vp_real("hi",-1,1);
#ifdef THREEDIM
  s.plates.push_back(std::make_unique<ObjectPlate>(pos,types[k],BC::NoSlip,0.0,lo,hi,vo(0),vo(1),vo(2),vm,lf));
#else
  s.plates.push_back(std::make_unique<ObjectPlate>(pos,types[k],BC::NoSlip,0.0,lo,hi,vo(0),vo(1),vm,lf));
#endif
  const int n=2; steps(s,n,dt); vp_reach("moved"); ObjectPlate&q=*s.plates[0]; double D=0,f=1; for(int i=0;i<n;i++){ f= (ld&&i<lf)? 1/vm: 1.0; D+=dt*f; } int ax= k<2?1:k<4?0:2, tx= k<2?0:1;
  vp_observe("pos",q.pos_object); vp_assert_eq(q.pos_object,pos+D*vo(ax),1e-9,"plate advances by its normal velocity"); if(k<4){ vp_assert_eq(q.pos_lower,lo+D*vo(tx),1e-9,"plate edges follow its tangential velocity"); vp_assert_eq(q.pos_upper,hi+D*vo(tx),1e-9,"plate edges follow its tangential velocity"); }
  vp_assert_eq(q.vx_object,vo(0)*f,1e-9,"contact velocity equals the velocity of motion"); vp_assert_eq(q.vy_object,vo(1)*f,1e-9,"contact velocity equals the velocity of motion");
#ifdef THREEDIM
  vp_assert_eq(q.vz_object,vo(2)*f,1e-9,"contact velocity equals the velocity of motion");
#endif
  for(int p=0;p<2;p++) eqv(s.particles.v[p],TV::Zero(),1e-9,"a plate that touches nothing moves nothing");
}
