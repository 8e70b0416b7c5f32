#include "mpm.h"
#include "svd.h"
#include "../../deps/tinyply.h"
#include <sys/stat.h>
// What is written is what was simulated. The ply writer is a stand-in that keeps the columns it was handed.
typedef std::vector<tinyply::Column> File;
static const File* file(const std::string&name){ if(vp_file_count(name.c_str())!=1) return nullptr; return &tinyply::files()[(int)vp_file_value(name.c_str(),0)]; }
static const std::vector<double>* col(const File*f,const char*n){ for(auto&c:*f) if(c.name==n) return &c.values; return nullptr; }
static const char*XN[3]={"x","y","z"}; static const char*VN[3]={"vx","vy","vz"};
static std::string fn(const char*k,int i){ return nm((std::string("vpout/vp/")+k+"_f").c_str(),i)+".ply"; }
static void dirs(Simulation&s){ mkdir("vpout",0777); mkdir("vpout/vp",0777); s.save_sim=true; }
static double det(const TM&F){
#ifdef THREEDIM
  return F(0,0)*(F(1,1)*F(2,2)-F(1,2)*F(2,1))-F(0,1)*(F(1,0)*F(2,2)-F(1,2)*F(2,0))+F(0,2)*(F(1,0)*F(2,1)-F(1,1)*F(2,0));
#else
  return F(0,0)*F(1,1)-F(0,1)*F(1,0);
#endif
}
static void same(double a,double b,double tol,const char*l){ if(!vp_finite(a)&&!vp_finite(b)) return; if(vp_same(a,b)) vp_assert(true,l); else vp_assert_eq(a,b,tol,l); }
// the file agrees with a state of the particles
static void agrees(const std::string&name,Particles&P,int Np,double qp,bool plastic,bool mu,bool visc){
  const File*f=file(name); vp_assert(f!=nullptr,"every frame is written to its own file, once complete"); if(!f) return; bool all=true; for(auto&c:*f) if((int)c.values.size()!=Np||c.element!="vertex") all=false; vp_assert(all,"every column has one entry per particle");  if(!all) return;
  for(int d=0;d<DIM;d++){ auto*x=col(f,XN[d]),*v=col(f,VN[d]); vp_assert(x&&v,"positions and velocities are saved"); if(!x||!v) return; for(int p=0;p<Np;p++){ same((*x)[p],P.x[p](d),1e-9,"saved positions"); same((*v)[p],P.v[p](d),1e-9,"saved velocities"); } }
  auto*pc=col(f,"p"),*qc=col(f,"q"),*jc=col(f,"Je"); vp_assert(pc&&qc&&jc,"pressure, shear stress and volume ratio are saved"); if(!pc||!qc||!jc) return;
  for(int p=0;p<Np;p++){ TM t=P.tau[p]; double pr=0; for(int i=0;i<DIM;i++) pr-=t(i,i)/DIM; same((*pc)[p],pr,1e-6,"saved pressure"); double q2=0; for(int i=0;i<DIM;i++) for(int j=0;j<DIM;j++){ double a=t(i,j)+(i==j?pr:0); q2+=a*a; } double q=(*qc)[p]; if(!vp_finite(q)){ vp_assert(q2<0,"saved shear stress"); return; } double q3=qp*std::sqrt(q2); if(vp_same(q,q3)) vp_assert(true,"saved shear stress"); else { vp_assert_eq(q*q,qp*qp*q2,1e-6,"saved shear stress"); vp_assert_le(0,q,0,"saved shear stress"); } same((*jc)[p],det(P.F[p]),1e-6,"saved volume ratio"); }
  if(plastic){ auto*a=col(f,"eps_pl_vol"),*b=col(f,"eps_pl_dev"),*c=col(f,"delta_gamma"); vp_assert(a&&b&&c,"plastic strains are saved"); if(a&&b&&c) for(int p=0;p<Np;p++){ same((*a)[p],P.eps_pl_vol[p],1e-9,"saved volumetric plastic strain"); same((*b)[p],P.eps_pl_dev[p],1e-9,"saved deviatoric plastic strain"); same((*c)[p],P.delta_gamma[p],1e-9,"saved plastic strain rate"); } }
  if(mu){ auto*a=col(f,"muI"); vp_assert(a,"friction is saved"); if(a) for(int p=0;p<Np;p++) same((*a)[p],P.muI[p],1e-9,"saved friction"); }
  if(visc){ auto*a=col(f,"viscosity"); vp_assert(a,"viscosity is saved"); if(a) for(int p=0;p<Np;p++) same((*a)[p],P.viscosity[p],1e-9,"saved viscosity"); }
}
// two frames of an elastic run: frame 0 is the initial state, frame 1 the state of a run that stops there, frame 2 the final state
extern "C" void h_frames(){
  const int Np=2; double dx=0.5, L=16*dx; int sch=vp_choice("scheme",2), musl= DIM==2||vp_tier()? vp_choice("musl",2): sch, pbc=vp_choice("pbc",2); double dt=vp_real("dt",0.01,0.035), m=vp_real("mass",0.5,2); TV g=pbc?TV(TV::Zero()):rvec("g",0,0,1),v[2],x[2]; TM B[2],F[2]; for(int p=0;p<Np;p++){ v[p]=rvec("v",p,0.125,1); B[p]=TM::Zero(); if(sch) B[p](0,p)=vp_real(nm("B",p).c_str(),-0.01,0.01); F[p]=TM::Identity(); F[p](0,1)=0.25; F[p](1,1)=vp_real(nm("F",p).c_str(),0.75,1.25); for(int d=0;d<DIM;d++) x[p](d)=dx*(0.25+4*p+0.0625*d); } v[1]=0.5*TV::Ones(); v[1](0)=3;
  Simulation A,Bs; Particles P0(0); Simulation*S[2]={&A,&Bs};
  for(int r=0;r<2;r++){ Simulation&s=*S[r]; setup(s,Np,dx); s.pbc=pbc; s.Lx=L; s.Ly=8*dx;
#ifdef THREEDIM
    s.Lz=8*dx;
#endif
    s.use_musl=musl; s.particle_mass=m; s.particle_volume=0; s.E=2.5; s.flip_ratio= sch? -2.0: 0.875; s.gravity=g; s.elastic_model=ElasticModel::NeoHookean; s.save_grid=true; s.n_threads=1+musl; for(int p=0;p<Np;p++){ s.particles.x[p]=x[p]; s.particles.v[p]=v[p]; s.particles.Bmat[p]=B[p]; s.particles.F[p]=F[p]; } if(r==0){ P0=s.particles; dirs(s); } steps(s,r==0?2:1,dt); }
  vp_reach("saved"); agrees(fn("particles",0),P0,Np,A.q_prefac,false,false,false); agrees(fn("particles",1),Bs.particles,Np,A.q_prefac,false,false,false); agrees(fn("particles",2),A.particles,Np,A.q_prefac,false,false,false); obsv("x",A.particles.x[0]); vp_assert(vp_file_count(fn("particles",3).c_str())<0,"nothing is written beyond the last frame");
  if(!pbc) for(int fr=1;fr<=2;fr++){ const File*f=file(fn("grid",fr)); vp_assert(f!=nullptr,"the grid is saved with every frame when asked for"); if(!f) return; auto*mc=col(f,"mass"); vp_assert(mc!=nullptr,"grid mass is saved"); if(!mc) return; size_t n=mc->size(); double M=0; for(size_t i=0;i<n;i++) M+=(*mc)[i]; vp_assert_eq(M,Np*m,1e-6,"the saved grid holds the mass of the particles"); Particles&now= fr==1? Bs.particles: A.particles; Particles&was= fr==1? P0: Bs.particles;
    for(int d=0;d<DIM;d++){ auto*xc=col(f,XN[d]),*vc=col(f,VN[d]); vp_assert(xc&&vc&&xc->size()==n&&vc->size()==n,"grid columns have one entry per node"); if(!xc||!vc) return; double mx=0,mv=0,px=0,pv=0; for(size_t i=0;i<n;i++){ mx+=(*mc)[i]*(*xc)[i]; mv+=(*mc)[i]*(*vc)[i]; } for(int p=0;p<Np;p++){ px+=m*was.x[p](d); pv+=m*now.v[p](d); } vp_assert_eq(mx,px,1e-6,"saved nodes and masses belong together"); vp_assert_eq(mv,pv,1e-6,"saved nodes, masses and velocities belong together"); } }
  const char*inf="vpout/vp/info.txt"; vp_assert(vp_file_count(inf)==5,"the run's parameters are saved"); double e[5]={2,1/dt,dx,Np,0}; for(int i=0;i<5&&i<vp_file_count(inf);i++) vp_assert_eq(vp_file_value(inf,i),e[i],1e-2,"saved parameters of the run"); vp_assert(vp_file_count("vpout/vp/last_written.txt")==1,"the last written frame is noted"); vp_assert_eq(vp_file_value("vpout/vp/last_written.txt",0),2,1e-9,"the last written frame is noted");
}
// plastic models: the history columns
extern "C" void h_plastic(){
  const int Np=2; double dx=0.5; int model=vp_choice("model",7); double dt= model==6? 0.125: vp_real("dt",0.01,0.5); TM F[2],Rm=TM::Identity(); for(int p=0;p<Np;p++){ TV S,h=TV::Zero(); double a=p? 0.5: 0.75; h(0)=a-0.6; h(1)=-0.5*a-0.4; TM D=TM::Zero(); for(int i=0;i<DIM;i++){ S(i)=std::exp(h(i)); D(i,i)=S(i); } registerSvd(Rm,S,Rm); F[p]=D; }
  PlasticModel pm[7]={PlasticModel::VM,PlasticModel::DP,PlasticModel::DPVisc,PlasticModel::DPSoft,PlasticModel::VMVisc,PlasticModel::DPVisc,PlasticModel::DPMui};
  Simulation s; setup(s,Np,dx); s.grid_reference_point=TV::Zero(); s.E=2.5; s.nu=0.25; s.elastic_model=ElasticModel::Hencky; s.plastic_model=pm[model]; s.q_max=0.4; s.q_min=0.4; s.M=0.7;  s.particle_volume=0; s.q_cohesion=0.1; s.visc_time=0.25; s.use_mibf= model>=5; s.grain_diameter=0.5; s.rho_s=4; dirs(s);
  for(int p=0;p<Np;p++){ s.particles.x[p]=0.25*dx*TV::Ones(); s.particles.x[p](0)+=p*6*dx; s.particles.F[p]=F[p]; s.particles.eps_pl_dev[p]=vp_real(nm("ed",p).c_str(),0,1); s.particles.eps_pl_vol[p]=vp_real(nm("ev",p).c_str(),-1,1); s.particles.delta_gamma[p]=vp_real(nm("dg",p).c_str(),0,1); s.particles.tau[p]=rmat("tau",p,-1,1); s.particles.viscosity[p]=vp_real(nm("vs",p).c_str(),0,1); s.particles.muI[p]=vp_real(nm("mu",p).c_str(),0,1); }
  Particles P0=s.particles; s.save_grid=model>=5; steps(s,1,dt); vp_reach("saved"); if(model>=5) P0.muI.assign(Np,model==5?0.7:s.mu_1); agrees(fn("particles",0),P0,Np,s.q_prefac,true,model>=5,model==6); agrees(fn("particles",1),s.particles,Np,s.q_prefac,true,model>=5,model==6);
  if(model>=5){ const File*f=file(fn("grid",1)); vp_assert(f!=nullptr,"the grid is saved with every frame when asked for"); if(f){ auto*mc=col(f,"friction"); vp_assert(mc&&mc->size()==s.grid.mass.size(),"grid friction is saved"); if(mc&&mc->size()==s.grid.friction.size()) for(size_t i=0;i<mc->size();i++) same((*mc)[i],s.grid.friction[i],1e-9,"grid friction is saved"); } }
}
// volume averages
extern "C" void h_average(){
  const int Np=3; Simulation s; setup(s,Np,0.5); dirs(s); TM sc=TM::Zero(),sk=TM::Zero(); double J=0; for(int p=0;p<Np;p++){ TM F=TM::Identity()+rmat("F",p,-0.125,0.125); double ev=vp_real(nm("ev",p).c_str(),-0.5,0.5); TM t=rmat("tau",p,-3,3); s.particles.F[p]=F; s.particles.eps_pl_vol[p]=ev; s.particles.tau[p]=t; double j=det(F)*std::exp(ev); J+=j; sc+=t; sk+=t*j; }
  vp_assume(J>0.1); TM a,b; double jv; s.computeAvgData(a,b,jv); vp_reach("averaged"); eqm(a,sc/J,1e-6,"average Cauchy stress is the total Kirchhoff stress over the total current volume"); eqm(b,sk/J,1e-6,"average Kirchhoff stress is weighted with the current volume"); vp_assert_eq(jv,J/Np,1e-6,"average volume ratio");
  s.frame=3; s.saveAvgData(); const char*k[2]={"vpout/vp/avg_cauchy_frame_3.csv","vpout/vp/avg_kirchh_frame_3.csv"}; for(int f=0;f<2;f++){ vp_assert(vp_file_count(k[f])==DIM*DIM,"averages are saved by rows"); if(vp_file_count(k[f])==DIM*DIM) for(int i=0;i<DIM;i++) for(int j=0;j<DIM;j++) vp_assert_eq(vp_file_value(k[f],i*DIM+j),(f?b:a)(i,j),1e-3,"averages are saved by rows"); } vp_assert_eq(vp_file_value("vpout/vp/avg_J_frame_3.csv",0),jv,1e-3,"average volume ratio");
}
