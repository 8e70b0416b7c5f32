#include "mpm.h"
#include "svd.h"
// Observes the particle positions at the beginning of every step: it is asked about every grid node during the step and collides with none.
struct Probe: public ObjectGeneral { Simulation*s; int*n; TV (*X)[2]; int lim; Probe(Simulation*s,int*n,TV(*X)[2],int lim):ObjectGeneral(BC::NoSlip,0,""),s(s),n(n),X(X),lim(lim){}
  bool inside(const TV&) const override { const TV&a=s->particles.x[0]; if(*n>lim) return false; if(*n>0&&vp_same(a(0),X[*n-1][0](0))) return false; if(*n<lim){ X[*n][0]=a; X[*n][1]=s->particles.x[1]; } (*n)++; return false; }
  TV normal(const TV&) const override { return TV::Zero(); } };
static void far2(Simulation&s,double dx){ for(int p=0;p<2;p++){ TV x; for(int d=0;d<DIM;d++) x(d)=dx*0.25; x(0)+=8*dx*p; s.particles.x[p]=x; } }
// step size limits and frame ends, whole run
extern "C" void h_steps(){
  Simulation s; double dx=0.5; setup(s,2,dx); registerSvd(TM::Identity(),TV::Ones(),TM::Identity()); s.grid_reference_point=TV::Zero(); far2(s,dx); int frames=1+vp_choice("frames",2);
  double V0=vp_real("V0",0.005,0.01), V1=vp_real("V1",0.0025,0.015); TV u0=TV::Zero(),u1=TV::Zero(); u0(0)=1; u1(DIM-1)=-1; s.particles.v[0]=V0*u0; s.particles.v[1]=V1*u1; s.rho=vp_real("rho",0.5,2); s.E=vp_real("E",0.5,2); s.nu=0.25; s.flip_ratio=-2;
  s.fps=vp_real("fps",0.75,1.5); s.cfl=vp_real("cfl",0.012,0.05); s.cfl_elastic=vp_real("cfle",1.8,8); s.end_frame=frames;
  const int L=8; TV X[L+2][2]; int n=0; s.objects.push_back(std::make_unique<Probe>(&s,&n,X,L)); TV a0=s.particles.x[0],a1=s.particles.x[1];
  s.simulate(); vp_reach("ran"); vp_assert(n>0&&n<=L,"number of steps within the expected range"); X[n][0]=s.particles.x[0]; X[n][1]=s.particles.x[1];
  double T=frames/s.fps; vp_observe("x0",s.particles.x[0](0)); vp_observe("n",n);
  eqv(X[n][0],a0+V0*T*u0,1e-9,"the run ends exactly at the last frame"); eqv(X[n][1],a1+V1*T*u1,1e-9,"the run ends exactly at the last frame");
  double wl=s.cfl_elastic*dx; bool hit=false;
  for(int i=0;i<n;i++){ double d0=(X[i+1][0]-X[i][0]).dot(u0), d1=(X[i+1][1]-X[i][1]).dot(u1), dt=d0/V0;
    vp_assert(d0>0,"every step advances the time"); vp_assert_le(d0,s.cfl*dx,1e-9,"no particle moves further than the CFL fraction of a cell"); vp_assert_le(d1,s.cfl*dx,1e-9,"no particle moves further than the CFL fraction of a cell");
    vp_assert_le(dt*dt*s.E,wl*wl*s.rho,1e-9,"no step exceeds the elastic wave limit");
    double end1=V0/s.fps, e=(X[i+1][0]-a0).dot(u0); hit = hit | (std::abs(e-end1)<1e-9);
    bool full= (d0>s.cfl*dx-1e-9)|(d1>s.cfl*dx-1e-9)|(dt*dt*s.E>wl*wl*s.rho-1e-9)|(std::abs(e-end1)<1e-9)|(std::abs(e-V0*T)<1e-9); vp_assert(full,"a step is as long as the limits and the frame end allow"); }
  vp_assert(hit,"a step ends exactly at the end of each frame");
}
// particles at rest: only the elastic limit and the frame end apply; gravity acts over exactly the simulated time
extern "C" void h_gravity(){
  Simulation s; double dx=0.5; setup(s,2,dx); registerSvd(TM::Identity(),TV::Ones(),TM::Identity()); s.grid_reference_point=TV::Zero(); far2(s,dx); s.flip_ratio= vp_choice("affine",2)? -2.0: 0.75; s.use_musl=vp_choice("musl",2);
  double g=vp_real("g",-0.02,0.02), dt=vp_real("dt",0.1,0.5); bool ramp=vp_choice("ramp",2); double gt=vp_real("gt",0.05,1.2); s.gravity=TV::Zero(); s.gravity(1)=g; s.gravity_special=ramp; s.gravity_time=gt; const int n=3; double y0=s.particles.x[0](1);
  steps(s,n,dt); vp_reach("ran"); double v=0,y=y0; for(int i=0;i<n;i++){ double f= ramp? (i*dt<gt? i*dt/gt: 1.0): 1.0; v+=dt*g*f; y+=dt*v; }
  for(int p=0;p<2;p++){ vp_observe(nm("v",p).c_str(),s.particles.v[p](1)); vp_assert_eq(s.particles.v[p](1),v,1e-9,"gravity (ramped linearly up to the loading time if requested) accelerates every particle"); vp_assert_eq(s.particles.x[p](1),y,1e-9,"particles fall with the accumulated velocity"); vp_assert_eq(s.particles.v[p](0),0,1e-9,"no motion across gravity"); }
  vp_assert_eq(s.gravity(1), ramp? ((n-1)*dt<gt? g*(n-1)*dt/gt: g): g,1e-9,"gravity reaches its full value at the end of the loading time");
}
// one step, arbitrary velocity directions
extern "C" void h_cfl(){
  Simulation s; double dx=0.5; setup(s,3,dx); registerSvd(TM::Identity(),TV::Ones(),TM::Identity()); s.grid_reference_point=TV::Zero(); for(int p=0;p<3;p++){ TV x; for(int d=0;d<DIM;d++) x(d)=dx*0.25; x(0)+=8*dx*p; s.particles.x[p]=x; }
  s.particles.v[0]=rvec("v",0,-2,2); s.particles.v[1]=rvec("v",1,-2,2); if(DIM==3){ s.particles.v[0](0)=0.25; s.particles.v[1](1)=0; } s.particles.v[2](0)=1.0/1024; s.use_musl=vp_choice("musl",2); s.flip_ratio= vp_choice("affine",2)? -2.0: 0.75; s.rho=vp_real("rho",0.5,2); s.E=vp_real("E",0.5,2);
  s.fps=vp_real("fps",0.5,4); s.cfl=vp_real("cfl",0.1,0.9); s.cfl_elastic=vp_real("cfle",0.1,0.9); s.end_frame=1; double dt=0; TV x0[3]; for(int p=0;p<3;p++) x0[p]=s.particles.x[p];
  derive(s); s.final_time=1/s.fps; s.advanceStep(); vp_reach("stepped"); dt=(s.particles.x[2](0)-x0[2](0))*1024; vp_observe("dt",dt); vp_assert(dt>0,"every step advances the time"); bool full= dt>1/s.fps-1e-9; vp_assert_le(dt,1/s.fps,1e-9,"a step does not pass the end of the frame");
  double wl=s.cfl_elastic*dx, cl=s.cfl*dx; vp_assert_le(dt*dt*s.E,wl*wl*s.rho,1e-9,"no step exceeds the elastic wave limit"); full= full|(dt*dt*s.E>wl*wl*s.rho-1e-6);
  for(int p=0;p<2;p++){ double q=s.particles.v[p].squaredNorm()*dt*dt; vp_assert_le(q,cl*cl,1e-9,"no particle moves further than the CFL fraction of a cell"); full= full|(q>cl*cl-1e-6); eqv(s.particles.x[p],x0[p]+dt*s.particles.v[p],1e-6,"an isolated particle moves uniformly"); }
  vp_assert(full,"a step is as long as the limits and the frame end allow");
}
