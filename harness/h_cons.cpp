#include "mpm.h"
#include "svd.h"
// Whole-step properties of the particle-grid transfer, all through simulate(), particles in free flight.
static void pickScheme(Simulation&s,int sch){ s.flip_ratio= sch==0? vp_real("flip",0,1): sch==1? vp_real("aflip",-1,-0.01): sch==2? -2.0: 0.0; }
static void material(Simulation&s){ s.particle_mass=vp_real("mass",0.5,2); s.particle_volume=vp_real("vol",0.5,2); s.elastic_model=ElasticModel::Hencky; }
static double gridMass(Simulation&s){ double m=0; for(size_t i=0;i<s.grid.mass.size();i++) m+=s.grid.mass[i]; return m; }


extern "C" void h_momentum(){
  Simulation s; const int Np=2,Nt=3; double dx=0.5; setup(s,Nt,dx); s.grid_reference_point=TV::Zero();
  int sch=vp_choice("scheme",4); s.use_musl=vp_choice("musl",2); pickScheme(s,sch); material(s); s.n_threads=s.use_musl?2:1;
  s.gravity=rvec("g",0,-10,10); double dt=vp_real("dt",0.001,0.1);
  place(s,Np,dx,"reg",1); farParticle(s,dx); TV P0=s.particles.v[0];
  for(int p=1;p<Nt;p++){ s.particles.v[p]=rvec("v",p,-2,2); s.particles.tau[p]=rmat("tau",p,-3,3); s.particles.Bmat[p]=rmat("B",p,-1,1); P0+=s.particles.v[p]; }
  steps(s,1,dt);
  vp_reach("stepped");
  TV P1=TV::Zero(); for(int p=0;p<Nt;p++){ P1+=s.particles.v[p]; obsv(nm("v",p).c_str(),s.particles.v[p]); }
  eqv(P1,P0+Nt*dt*s.gravity,1e-6,"total particle momentum changes by exactly dt*M*g");
  vp_assert_eq(gridMass(s),Nt*s.particle_mass,1e-6,"grid carries exactly the particle mass");
  vp_assert(s.Np==Nt&&s.particles.x.size()==Nt,"particle number unchanged");
}
// affine velocity fields under the affine schemes, uniform ones under PIC/FLIP
extern "C" void h_affine(){
  Simulation s; const int Np=2; double dx=0.5; setup(s,Np+1,dx); s.grid_reference_point=TV::Zero();
  int sch=vp_choice("scheme",4); s.use_musl=vp_choice("musl",2); pickScheme(s,sch); material(s);
  s.gravity=rvec("g",0,-10,10); double dt=vp_real("dt",0.001,0.1); place(s,Np,dx,"reg",1); farParticle(s,dx);
  bool aff= sch==1||sch==2; TM A=TM::Zero(); if(aff) A=rmat("A",0,-2,2); TV b=rvec("b",0,-2,2); TM F0[3]; TV x0[3],v0[3];
#if SPLINEDEG == 3
  double D=dx*dx/3;
#else
  double D=dx*dx/4;
#endif
  for(int p=1;p<=Np;p++){ x0[p]=s.particles.x[p]; v0[p]=A*x0[p]+b; s.particles.v[p]=v0[p]; s.particles.Bmat[p]=A*D; F0[p]=rmat("F",p,-2,2); s.particles.F[p]=F0[p]; }
  steps(s,1,dt); vp_reach("stepped");
  for(int p=1;p<=Np;p++){ obsv(nm("v",p).c_str(),s.particles.v[p]);
    eqv(s.particles.v[p],v0[p]+dt*s.gravity,1e-6,"velocity field reproduced (plus dt*g)");
    eqv(s.particles.x[p],x0[p]+dt*(v0[p]+dt*s.gravity),1e-6,"particle moves with the field");
    if(aff) eqm(s.particles.Bmat[p],A*D,1e-6,"affine part of the velocity field reproduced");
    eqm(s.particles.F[p],F0[p]+dt*A*F0[p],1e-6,"deformation gradient follows the velocity gradient"); }
}
static double cross2(const TV&a,const TV&b,int i,int j){ return a(i)*b(j)-a(j)*b(i); }
extern "C" void h_angular(){
  Simulation s; const int Np=2,Nt=3; double dx=0.5; setup(s,Nt,dx); s.grid_reference_point=TV::Zero(); s.flip_ratio=-2; s.use_musl=vp_choice("musl",2); material(s);
  double dt=vp_real("dt",0.001,0.1); s.gravity=rvec("g",0,-10,10); place(s,Np,dx,"reg",1); farParticle(s,dx); TV x0[Nt],v0[Nt]; TM B0[Nt],tau0[Nt]; for(int p=0;p<Nt;p++) tau0[p]=TM::Zero(); int pairs[3][2]={{0,1},{1,2},{2,0}};
  for(int p=0;p<Nt;p++){ x0[p]=s.particles.x[p]; v0[p]=s.particles.v[p]; B0[p]=TM::Zero(); if(p>0){ v0[p]=rvec("v",p,-2,2); B0[p]=rmat("B",p,-1,1); TM t=rmat("tau",p,-3,3); tau0[p]=t+t.transpose(); s.particles.tau[p]=tau0[p]; } s.particles.v[p]=v0[p]; s.particles.Bmat[p]=B0[p]; }
  steps(s,1,dt); vp_reach("stepped");
  for(int p=0;p<Nt;p++){ obsv(nm("v",p).c_str(),s.particles.v[p]); eqv(s.particles.x[p],x0[p]+dt*s.particles.v[p],1e-6,"particles move with their new velocity (no spurious torque from advection)"); }
  for(int k=0;k<(DIM==3?3:1);k++){ int i=pairs[k][0],j=pairs[k][1]; double L0=0,L1=0;
    for(int p=0;p<Nt;p++){ L0+=cross2(x0[p],v0[p],i,j)+B0[p](j,i)-B0[p](i,j)+dt*cross2(x0[p],s.gravity,i,j); const TM&B=s.particles.Bmat[p]; L1+=cross2(x0[p],s.particles.v[p],i,j)+B(j,i)-B(i,j); }
    vp_assert_eq(L1,L0,1e-6,"total angular momentum changes only by the torque of gravity"); }
  TM Mm=TM::Zero(); for(int p=0;p<Nt;p++) Mm+=s.particle_mass*(s.particles.v[p]*x0[p].transpose()+s.particles.Bmat[p]-v0[p]*x0[p].transpose()-B0[p]-dt*s.gravity*x0[p].transpose())+dt*s.particle_volume*tau0[p];
  eqm(Mm,TM::Zero(),1e-6,"the first moment of momentum changes by minus the step times the volume-weighted stress, plus that of gravity");
}
// the blending coefficient interpolates between the two pure schemes
extern "C" void h_blend(){
  const int Np=2; double dx=0.5; int aff=vp_choice("affine",2), musl=vp_choice("musl",2); double dt=vp_real("dt",0.001,0.1); TV X[3][2],V[3][2]; double a=vp_real("alpha",0.01,1);
  TV g=rvec("g",0,-10,10),v[2]; TM B[2],tau[2]; for(int p=0;p<Np;p++){ v[p]=rvec("v",p,-2,2); B[p]=aff?rmat("B",p,-1,1):TM(TM::Zero()); tau[p]=rmat("tau",p,-3,3); }
  Simulation base; setup(base,Np,dx); place(base,Np,dx,"reg"); double m=vp_real("mass",0.5,2),vol=vp_real("vol",0.5,2);
  for(int k=0;k<3;k++){ Simulation s; setup(s,Np+1,dx); s.grid_reference_point=TV::Zero(); s.use_musl=musl; s.particle_mass=m; s.particle_volume=vol; s.gravity=g; farParticle(s,dx);
    s.flip_ratio= aff? (k==0?-2.0:k==1?-1.0:-a):(k==0?0.0:k==1?1.0:a);
    for(int p=0;p<Np;p++){ int q=p+1; s.particles.x[q]=base.particles.x[p]; s.particles.v[q]=v[p]; s.particles.Bmat[q]=B[p]; s.particles.tau[q]=tau[p]; }
    steps(s,1,dt); for(int p=0;p<Np;p++){ X[k][p]=s.particles.x[p+1]; V[k][p]=s.particles.v[p+1]; } }
  vp_reach("stepped");
  for(int p=0;p<Np;p++){ obsv(nm("v",p).c_str(),V[2][p]);
    eqv(V[2][p],(1-a)*V[0][p]+a*V[1][p],1e-6,"velocity interpolates linearly between the pure schemes");
    eqv(X[2][p],X[0][p],1e-6,"advection is independent of the blending"); eqv(X[1][p],X[0][p],1e-6,"advection is independent of the blending");
    eqv(X[0][p],base.particles.x[p]+dt*V[0][p],1e-6,"particles move with the interpolated grid velocity"); }
}
// relabelling the coordinate axes and the particles commutes with the step
extern "C" void h_symmetry(){
  const int Np=2; double dx=0.5; int sch=vp_choice("scheme",3), musl=vp_choice("musl",2); double dt=vp_real("dt",0.001,0.1); double fr= sch==0? 0.875: sch==1? -0.75: -2.0;
  int ps[3][3]={{1,0,2},{0,2,1},{2,1,0}}; int k=vp_choice("perm",DIM==3?2:1); int*pm=ps[k];
  TV g=rvec("g",0,-10,10),v[2]; TM B[2],tau[2],F[2]; for(int p=0;p<Np;p++){ v[p]=rvec("v",p,-2,2); B[p]=sch?rmat("B",p,-1,1):TM(TM::Zero()); tau[p]=rmat("tau",p,-3,3); F[p]=TM::Identity(); }
  Simulation base; setup(base,Np+1,dx); place(base,Np,dx,"reg"); farParticle(base,dx,Np); double m=vp_real("mass",0.5,2),vol=vp_real("vol",0.5,2); TM Pm=TM::Zero(); for(int i=0;i<DIM;i++) Pm(pm[i],i)=1; TV X[2][2],V[2][2]; TM Bo[2][2],Fo[2][2];
  for(int r=0;r<2;r++){ Simulation s; setup(s,Np+1,dx); s.grid_reference_point=TV::Zero(); s.use_musl=musl; s.particle_mass=m; s.particle_volume=vol; s.flip_ratio=fr; TM Q= r?Pm:TM(TM::Identity()); s.gravity=Q*g;
    for(int p=0;p<=Np;p++){ int q= p==Np?0: r?Np-p:p+1; s.particles.x[q]=Q*base.particles.x[p]; if(p==Np){ s.particles.v[q]=Q*base.particles.v[p]; continue; } s.particles.v[q]=Q*v[p]; s.particles.Bmat[q]=Q*B[p]*Q.transpose(); s.particles.tau[q]=Q*tau[p]*Q.transpose(); s.particles.F[q]=Q*F[p]*Q.transpose(); }
    steps(s,1,dt);
    for(int p=0;p<Np;p++){ int q=r?Np-p:p+1; TM Qt=Q.transpose(); X[r][p]=Qt*s.particles.x[q]; V[r][p]=Qt*s.particles.v[q]; Bo[r][p]=Qt*s.particles.Bmat[q]*Q; Fo[r][p]=Qt*s.particles.F[q]*Q; } }
  vp_reach("stepped");
  for(int p=0;p<Np;p++){ obsv(nm("v",p).c_str(),V[1][p]); eqv(X[1][p],X[0][p],1e-6,"position independent of axis and particle labelling"); eqv(V[1][p],V[0][p],1e-6,"velocity independent of axis and particle labelling"); eqm(Fo[1][p],Fo[0][p],1e-6,"deformation gradient independent of axis and particle labelling"); if(sch) eqm(Bo[1][p],Bo[0][p],1e-6,"affine velocity independent of axis and particle labelling"); }
}
