#include "mpm.h"
#include "svd.h"
// Periodicity along x: nothing observable distinguishes the seam of the periodic domain from its interior.
static double unwrap(double d,double L){ return d>L/2? d-L: d< -L/2? d+L: d; }
// the same system straddling the seam (run 0) and moved by five cells into the interior (run 1)
extern "C" void h_seam(){
  const int Np=2; double dx=0.5, L=16*dx; int sch=vp_choice("scheme",4), musl=vp_choice("musl",2); double dt=vp_real("dt",0.001,0.1); double fr= sch==0? vp_real("flip",0,1): sch==1? vp_real("aflip",-1,-0.01): sch==2? -2.0: 0.0; bool mibf=sch==3;
  // mode 0: positions from a list, everything else symbolic; mode 1: positions along x symbolic, motion across x only
  int mode=vp_choice("mode",2), r0,r1; int cells[3][2]={{-1,0},{-2,1},{0,-1}}; int c=vp_choice("cells",vp_tier()?3:2); double u[2]; double lst[4]={0.25,0.5,0.875,0.0};
  if(mode){ r0=vp_choice("reg",NREG); r1= vp_tier()? vp_choice("reg1",NREG): NREG==4? (r0+1)%4: r0; u[0]=frac("f0",r0); u[1]=frac("f1",r1); if(r1==NREG-1) r1=3; else r1=0; } else { r0=vp_choice("pos",4); r1= vp_tier()? vp_choice("pos1",4): (r0+1)%4; u[0]=lst[r0]; u[1]=lst[r1]; }
  bool top=r1==3&&cells[c][1]==0&&vp_choice("top",2);
  TV g=rvec("g",0,-10,10),v[2],x[2]; TM B[2],tau[2],F[2]; double m=vp_real("mass",0.5,2),vol=vp_real("vol",0.5,2); if(mode) g(0)=0;
  for(int p=0;p<Np;p++){ v[p]=rvec("v",p,-2,2); B[p]=sch==1||sch==2?rmat("B",p,-1,1):TM(TM::Zero()); tau[p]=rmat("tau",p,-3,3); F[p]=rmat("F",p,-2,2); if(mode){ v[p](0)=0; for(int d=0;d<DIM;d++){ B[p](0,d)=0; tau[p](0,d)=0; } } for(int d=0;d<DIM;d++) x[p](d)=dx*(0.25+0.125*((p*DIM+d)%4)); x[p](0)=dx*(cells[c][p]+u[p]); }
  TV X[2][2],V[2][2]; TM Bo[2][2],Fo[2][2];
  for(int r=0;r<2;r++){ Simulation s; setup(s,Np+1,dx); s.pbc=true; s.Lx=L; s.Ly=2*dx;
#ifdef THREEDIM
    s.Lz=2*dx;
#endif
    s.use_musl=musl; s.particle_mass=m; s.particle_volume=vol; s.flip_ratio=fr; s.gravity=g; s.use_mibf=mibf; s.M=0.625; double sh= r? 5*dx: 0;
    s.particles.x[0]=0.25*dx*TV::Ones(); s.particles.x[0](0)=9.25*dx+sh; s.particles.v[0](1)=50; // fast particle in the interior
    for(int p=0;p<Np;p++){ TV y=x[p]; y(0)=y(0)+sh; if(r==0&&cells[c][p]<0) y(0)=L+x[p](0); if(r==0&&top&&p==1) y(0)=L; s.particles.x[p+1]=y; s.particles.v[p+1]=v[p]; s.particles.Bmat[p+1]=B[p]; s.particles.tau[p+1]=tau[p]; s.particles.F[p+1]=F[p]; }
    steps(s,1,dt); vp_assert(s.Np==Np+1&&s.particles.x.size()==Np+1,"periodic images are not counted as particles");
    for(int p=0;p<Np;p++){ TV y=s.particles.x[p+1]; if(r==0){ vp_assert_le(0,y(0),0,"particles stay in the periodic domain"); vp_assert_le(y(0),L,0,"particles stay in the periodic domain"); } X[r][p]=y; V[r][p]=s.particles.v[p+1]; Bo[r][p]=s.particles.Bmat[p+1]; Fo[r][p]=s.particles.F[p+1]; }
    if(mibf&&r==0) for(int p=1;p<=Np;p++) vp_assert_eq(s.particles.muI[p],0.625,1e-9,"friction coefficients of the particles are kept"); }
  vp_reach("stepped");
  for(int p=0;p<Np;p++){ obsv(nm("v",p).c_str(),V[0][p]); eqv(V[0][p],V[1][p],1e-6,"velocities do not depend on where the periodic domain is cut"); double d=X[0][p](0)-(X[1][p](0)-5*dx); vp_assert_eq(unwrap(d,L),0,1e-6,"positions agree up to the period"); for(int k=1;k<DIM;k++) vp_assert_eq(X[0][p](k),X[1][p](k),1e-6,"the other coordinates are not changed by the wrap"); eqm(Fo[0][p],Fo[1][p],1e-6,"deformation does not depend on where the periodic domain is cut"); if(sch==1||sch==2) eqm(Bo[0][p],Bo[1][p],1e-6,"affine velocities do not depend on where the periodic domain is cut"); }
}
// uniform motion through the seam, several steps in a row
extern "C" void h_wrap(){
  const int Np=2; double dx=0.5, L=16*dx; Simulation s; setup(s,Np,dx); s.pbc=true; s.Lx=L; s.Ly=2*dx; s.particle_volume=0; int cfg= vp_tier()? vp_choice("cfg",4): 3*vp_choice("cfg",2); s.use_musl=cfg&1; s.flip_ratio= (cfg&2)? -2.0: 0.5; s.n_threads= (cfg&1)? 2: 1;
#ifdef THREEDIM
  s.Lz=2*dx;
#endif
  int side=vp_choice("side",2); double v=vp_real("v",0.01,1.1); if(side==0) v=-v; double x0[2]={ side? L-0.75*dx: 0.75*dx, 8.25*dx }; TV vv=TV::Zero(); vv(0)=v; for(int p=0;p<Np;p++){ s.particles.x[p]=0.375*dx*TV::Ones(); s.particles.x[p](0)=x0[p]; s.particles.v[p]=vv; }
  double x=x0[0]; for(int k=1;k<=2;k++){ double t=(x0[0]+k*v)*2/dx, f=t-std::floor(t); vp_assume(f==0||(f>1e-9&&f<1-1e-9)); t=(x0[1]+k*v)*2/dx; f=t-std::floor(t); vp_assume(f==0||(f>1e-9&&f<1-1e-9)); }
  steps(s,3,1.0); vp_reach("moved");
  for(int p=0;p<Np;p++){ obsv(nm("x",p).c_str(),s.particles.x[p]); vp_assert_le(0,s.particles.x[p](0),0,"particles stay in the periodic domain"); vp_assert_le(s.particles.x[p](0),L,0,"particles stay in the periodic domain"); eqv(s.particles.v[p],vv,1e-6,"uniform motion continues through the seam"); vp_assert_eq(unwrap(s.particles.x[p](0)-x0[p]-3*v,L),0,1e-6,"uniform motion continues through the seam"); eqm(s.particles.F[p],TM::Identity(),1e-6,"uniform motion does not deform"); for(int d=1;d<DIM;d++) vp_assert_eq(s.particles.x[p](d),0.375*dx,1e-6,"the other coordinates are not changed by the wrap"); }
}
