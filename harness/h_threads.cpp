#include "mpm.h"
#include "svd.h"
// The result of a step does not depend on the number of threads or on the order in which they run; no data races.
// Every conflicting pair of accesses not ordered by a barrier, a critical section or an atomic is reported by the executor itself.
static void threads(Simulation&s,int&T){ T= 2+vp_choice("threads",2); int k= vp_tier()? vp_choice("order",T==2?2:6): T==2? 1: 3; s.n_threads=T; vp_thread_order(T,k); }
extern "C" void h_step(){
  const int Np=3; double dx=0.5, L=16*dx; int sch=vp_choice("scheme",3), musl=vp_choice("musl",2), pbc=vp_choice("pbc",2), mibf= vp_tier()? vp_choice("mibf",2): sch==1; double dt=vp_real("dt",0.001,0.02), m=vp_real("mass",0.5,2),vol=vp_real("vol",0.5,2); TV g=rvec("g",0,-10,10),v[3],x[3]; TM B[3],tau[3],F[3]; double fr= sch==0? 0.875: sch==1? -0.75: -2.0;
  for(int p=0;p<Np;p++){ v[p]=rvec("v",p,-2,2); B[p]=sch?rmat("B",p,-1,1):TM(TM::Zero()); tau[p]=rmat("tau",p,-3,3); F[p]=rmat("F",p,-2,2); for(int d=0;d<DIM;d++) x[p](d)=dx*(0.25+0.125*((p*DIM+d)%4)+p*0.5); } v[2]=TV::Zero(); v[2](1)=50; B[2]=TM::Zero(); x[1](0)= pbc? L-0.75*dx: x[1](0); // one fast particle decides the largest speed
  TV X[2][3],V[2][3]; TM Bo[2][3],Fo[2][3]; std::vector<double> gm[2],gf[2]; double mu0[3]; for(int p=0;p<Np;p++) mu0[p]= mibf? vp_real(nm("mu",p).c_str(),0.1,1): 0;
  for(int r=0;r<2;r++){ Simulation s; setup(s,Np,dx); s.pbc=pbc; s.Lx=L; s.Ly=2*dx;
#ifdef THREEDIM
    s.Lz=2*dx;
#endif
    int T; if(r) threads(s,T); s.use_musl=musl; s.particle_mass=m; s.particle_volume=vol; s.flip_ratio=fr; s.gravity=g; s.use_mibf=mibf; s.M=0.5; for(int p=0;p<Np;p++){ s.particles.x[p]=x[p]; s.particles.v[p]=v[p]; s.particles.Bmat[p]=B[p]; s.particles.tau[p]=tau[p]; s.particles.F[p]=F[p]; if(mibf) s.particles.muI[p]=mu0[p]; }
    steps(s,1,dt); if(mibf) gf[r]=s.grid.friction; for(int p=0;p<Np;p++){ X[r][p]=s.particles.x[p]; V[r][p]=s.particles.v[p]; Bo[r][p]=s.particles.Bmat[p]; Fo[r][p]=s.particles.F[p]; } gm[r]=s.grid.mass; if(mibf) gm[r].insert(gm[r].end(),s.particles.muI.begin(),s.particles.muI.end()); }
  vp_reach("stepped"); vp_assert(gm[0].size()==gm[1].size(),"the grid does not depend on the number of threads"); for(size_t i=0;i<gm[0].size();i++) if(!vp_same(gm[0][i],gm[1][i])) vp_assert_eq(gm[0][i],gm[1][i],1e-9,"grid mass does not depend on the number of threads");
  vp_assert(gf[0].size()==gf[1].size(),"the grid does not depend on the number of threads"); for(size_t i=0;i<gf[0].size();i++) if(vp_finite(gf[0][i])&&!vp_same(gf[0][i],gf[1][i])) vp_assert_eq(gf[0][i],gf[1][i],1e-9,"friction at the nodes does not depend on the number of threads");
  for(int p=0;p<Np;p++){ obsv(nm("v",p).c_str(),V[1][p]); eqv(X[0][p],X[1][p],1e-9,"positions do not depend on the number of threads"); eqv(V[0][p],V[1][p],1e-9,"velocities do not depend on the number of threads"); eqm(Fo[0][p],Fo[1][p],1e-9,"deformations do not depend on the number of threads"); if(sch) eqm(Bo[0][p],Bo[1][p],1e-9,"affine velocities do not depend on the number of threads"); }
}
// material update of particles at rest with plastic flow
extern "C" void h_flow(){
  const int Np=3; double dx=0.5; int model=vp_choice("model",5), musl=vp_choice("musl",2); double dt=vp_real("dt",0.01,0.5); TM F[3],Rm=TM::Identity(); TV S[3]; double th[3]={0.3,-0.2,0.6}; for(int p=0;p<Np;p++){ double a= p==1? vp_real("h",0.01,0.9): 0.75-0.25*p; TV h=TV::Zero(); h(0)=a-0.1*p; h(1)=-0.5*a-0.1*p; TM D=TM::Zero(); for(int i=0;i<DIM;i++){ S[p](i)=std::exp(h(i)); D(i,i)=S[p](i); } registerSvd(Rm,S[p],Rm); F[p]=D; }
  double ed[3]; for(int p=0;p<Np;p++) ed[p]=vp_real(nm("ed",p).c_str(),0,1); TM Fo[2][3],To[2][3]; double o[2][3][5]; PlasticModel pm[5]={PlasticModel::VM,PlasticModel::DP,PlasticModel::DPVisc,PlasticModel::DPSoft,PlasticModel::VMVisc};
  for(int r=0;r<2;r++){ Simulation s; setup(s,Np,dx); s.grid_reference_point=TV::Zero(); s.E=2.5; s.nu=0.25; s.elastic_model=ElasticModel::Hencky; s.plastic_model=pm[model]; s.q_max=0.4; s.q_min=0.4; s.M=0.7; s.q_cohesion=0.1; s.visc_time=0.25; s.use_mibf= model==2; s.use_musl=musl; int T; if(r) threads(s,T);
    for(int p=0;p<Np;p++){ s.particles.x[p]=0.25*dx*TV::Ones(); s.particles.x[p](0)+=p*6*dx; s.particles.F[p]=F[p]; s.particles.eps_pl_dev[p]=ed[p]; }
    steps(s,1,dt); for(int p=0;p<Np;p++){ Fo[r][p]=s.particles.F[p]; To[r][p]=s.particles.tau[p]; double*q=o[r][p]; q[0]=s.particles.eps_pl_dev[p]; q[1]=s.particles.eps_pl_vol[p]; q[2]=s.particles.delta_gamma[p]; q[3]=s.particles.eps_pl_vol_pradhana[p]; q[4]=s.particles.muI[p]; } }
  vp_reach("stepped"); for(int p=0;p<Np;p++){ obsm(nm("F",p).c_str(),Fo[1][p]); eqm(Fo[0][p],Fo[1][p],1e-9,"plastic flow does not depend on the number of threads"); eqm(To[0][p],To[1][p],1e-9,"stresses do not depend on the number of threads"); for(int k=0;k<5;k++) vp_assert_eq(o[0][p][k],o[1][p][k],1e-9,"the plastic history does not depend on the number of threads"); }
}
