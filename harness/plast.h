// One particle at rest with an arbitrary stored deformation F = U exp(h) V^T: a step leaves the trial deformation equal to F,
// so the step applies exactly the return mapping and the stress law. Only simulate() and configuration members are used.
#pragma once
#include "mpm.h"
#include "svd.h"
struct Plast { Simulation s; TM U,V,F0; TV h; double dt,K,mu,lam,tr,dn; double ed0,ev0,pr0;
  static TM rot(const char*n,bool full){ TM R=TM::Identity(); double a=vp_real(n,-3,3); double c=std::cos(a),sn=std::sin(a); R(0,0)=c; R(0,1)=-sn; R(1,0)=sn; R(1,1)=c;
#ifdef THREEDIM
    if(full){ double b=vp_real((std::string(n)+"b").c_str(),-3,3); TM Q=TM::Identity(); Q(1,1)=std::cos(b); Q(1,2)=-std::sin(b); Q(2,1)=std::sin(b); Q(2,2)=std::cos(b); R=R*Q; }
#endif
    return R; }
  static double dev(const TV&h,TV&d,bool norm=true){ double t=0; for(int i=0;i<DIM;i++) t+=h(i); double q=0; for(int i=0;i<DIM;i++){ d(i)=h(i)-t/DIM; q+=d(i)*d(i); } return norm? std::sqrt(q): 0; }
  void init(double hm,bool dirs=false){ setup(s,1,1.0); s.grid_reference_point=TV::Zero(); s.particles.x[0]=0.25*TV::Ones(); U=rot("a",vp_tier()); V=rot("b",false); 
#ifdef THREEDIM
    if(dirs){ int k=vp_choice("dir",3); double t=vp_real("ht",-hm,hm), m=vp_real("hm",1.0/1024,hm/2); double u[3][3]={{2,-1,-1},{1,0,-1},{1,1,-2}}; for(int i=0;i<3;i++) h(i)=t/3+m*u[k][i]; } else
#endif
    { h=rvec("h",0,-hm,hm); for(int i=0;i+1<DIM;i++) vp_assume(h(i)>=h(i+1)+1.0/1024); }
    TM D=TM::Zero(); TV S; for(int i=0;i<DIM;i++){ S(i)=std::exp(h(i)); D(i,i)=S(i); } registerSvd(U,S,V); F0=U*D*V.transpose(); s.particles.F[0]=F0; dt=vp_real("dt",0.01,0.5); s.use_musl=vp_choice("musl",2); tr=0; for(int i=0;i<DIM;i++) tr+=h(i); TV d; dn=dev(h,d); }
  double pr0_(){ return s.particles.eps_pl_vol_pradhana[0]; }
  // the same in two parts: trace t and deviatoric magnitude m given later (m is positive by construction)
  void init0(){ setup(s,1,1.0); s.grid_reference_point=TV::Zero(); s.particles.x[0]=0.25*TV::Ones(); s.elastic_model=ElasticModel::Hencky; U=rot("a",vp_tier()); V=rot("b",false); dt=vp_real("dt",0.01,0.5); s.use_musl=vp_choice("musl",2); }
  void init1(double t,double m,int nd=3){
#ifdef THREEDIM
    int k=vp_choice("dir",nd); double u[3][3]={{2,-1,-1},{1,0,-1},{1,1,-2}}; double c=k==1?std::sqrt(2.0):std::sqrt(6.0); for(int i=0;i<3;i++) h(i)=t/3+m*u[k][i]/c;
#else
    h(0)=t/2+m/std::sqrt(2.0); h(1)=t/2-m/std::sqrt(2.0);
#endif
    TM D=TM::Zero(); TV S; for(int i=0;i<DIM;i++){ S(i)=std::exp(h(i)); D(i,i)=S(i); } registerSvd(U,S,V); F0=U*D*V.transpose(); s.particles.F[0]=F0; tr=t; dn=m; }
  void elastic(double E,double nu){ s.E=E; s.nu=nu; mu=E/(2*(1+nu)); lam=E*nu/((1+nu)*(1-2*nu)); K=lam+2*mu/DIM; }
  double q(double devnorm){ return 2*s.q_prefac*mu*devnorm; }
  void run(){ ed0=s.particles.eps_pl_dev[0]; ev0=s.particles.eps_pl_vol[0]; pr0=s.particles.eps_pl_vol_pradhana[0]; s.elastic_model=ElasticModel::Hencky; steps(s,1,dt); }
  TV e,d0,d1; double tr1,dn1;
  void after(){ TM G=U.transpose()*s.particles.F[0]*V; TM T=U.transpose()*s.particles.tau[0]*U; for(int i=0;i<DIM;i++) for(int j=0;j<DIM;j++) if(i!=j){ vp_assert_eq(G(i,j),0,1e-6,"the principal directions of the deformation are kept"); vp_assert_eq(T(i,j),0,1e-6,"stress and deformation are coaxial"); }
    tr1=0; for(int i=0;i<DIM;i++){ e(i)=std::log(G(i,i)); tr1+=e(i); } dn=dev(h,d0); dev(e,d1,false); dn1=0; for(int i=0;i<DIM;i++) dn1+=d1(i)*d0(i); dn1/=dn; // signed magnitude along the trial direction
    for(int i=0;i<DIM;i++) vp_assert_eq(T(i,i),lam*tr1+2*mu*e(i),1e-6,"the stored stress is the elastic stress of the stored deformation"); }
  double p0(){ return -K*tr; } double p1(){ return -K*tr1; } double q0(){ return q(dn); } double q1(){ return q(dn1); }
  void untouched(){ eqm(s.particles.F[0],F0,1e-6,"an elastic state is left untouched"); vp_assert_eq(s.particles.eps_pl_dev[0],ed0,1e-9,"no plastic strain in an elastic step"); vp_assert_eq(s.particles.eps_pl_vol[0],ev0,1e-9,"no plastic strain in an elastic step"); vp_assert_eq(s.particles.delta_gamma[0],0,1e-9,"no plastic strain rate in an elastic step"); }
  void accounting(bool rate=true,bool mono=true){ double ded=s.particles.eps_pl_dev[0]-ed0, dev_=s.particles.eps_pl_vol[0]-ev0; for(int i=0;i<DIM;i++) vp_assert_eq(d1(i)*dn,d0(i)*dn1,1e-6,"plastic flow keeps the direction of the deviatoric strain"); if(mono) vp_assert_le(0,dn1,1e-6,"plastic flow does not reverse the shear stress"); vp_assert_eq(dn-dn1,ded,1e-6,"accumulated deviatoric plastic strain equals the elastic strain removed"); vp_assert_eq(tr-tr1,dev_,1e-6,"accumulated volumetric plastic strain equals the volumetric elastic strain removed"); if(mono) vp_assert_le(0,ded,1e-9,"plastic shear strain never decreases"); if(rate) vp_assert_eq(s.particles.delta_gamma[0]*dt*s.q_prefac,ded,1e-6,"reported plastic strain rate times the step is the strain increment"); }
};
