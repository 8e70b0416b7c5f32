#include "plast.h"
// Modified Cam-Clay. The trial state is given by its pressure and shear stress; the Newton iterations of the return mapping are
// abstracted (vp_havoc_loops): any state an iteration can stop in is considered.
static void mcc(Plast&P,int law,int visc){ Simulation&s=P.s; s.plastic_model=visc?PlasticModel::MCCVisc:PlasticModel::MCC; s.hardening_law= law==0?HardeningLaw::NoHard: law==1?HardeningLaw::ExpoExpl: law==2?HardeningLaw::SinhExpl: law==3?HardeningLaw::ExpoImpl: HardeningLaw::SinhImpl; }
static double hard(Plast&P,int law,double ev){ Simulation&s=P.s; return law==0? s.p0: law==1||law==3? s.p0*std::exp(-s.xi*ev): P.K*std::sinh(-s.xi*ev+std::asinh(s.p0/P.K)); }
static void surface(Plast&P,double pc,double rel){ Simulation&s=P.s; double p1=P.p1(), q1=P.q1(); vp_assert_le(p1,pc,rel*pc,"the pressure lies within the yield surface"); vp_assert_le(-s.beta*pc,p1,rel*pc,"the pressure lies within the yield surface"); vp_assert_eq(q1*q1,s.M*s.M*(pc-p1)*(p1+s.beta*pc),rel*pc*pc,"plastic states lie on the yield surface"); }
static void friction(Plast&P){ if(P.s.use_mibf&&P.q1()>0.5) vp_assert_eq(P.s.particles.muI[0],P.s.M,1e-3,"boundary friction is the slope of the critical state line"); }
static void common(Plast&P,bool mibf){ Simulation&s=P.s; s.particles.eps_pl_dev[0]=vp_real("ed",0,1); s.particles.delta_gamma[0]=vp_real("dg",0,1); s.use_mibf= mibf&&(vp_tier()? vp_choice("mibf",2): s.use_musl); }
extern "C" void h_mccexpl(){ Plast P; P.elastic(2500,0.25); P.init0(); Simulation&s=P.s; int law=vp_choice("law",3); mcc(P,law,false); s.M=vp_real("M",0.5,2); s.p0=vp_real("p0",10,200); if(law==2) s.p0=64; s.beta=vp_real("beta",0,0.5); s.xi= law? 4.0: 0.0; double ev= law? -0.125: 0.0; s.particles.eps_pl_vol[0]=ev; common(P,true);
  double pc=hard(P,law,ev), p=vp_real("p",-300,600), q=vp_real("q",0.5,600); double y=s.M*s.M*(p-pc)*(p+s.beta*pc)+q*q; bool el=y<=0; vp_assume(y>1e-3||y< -1e-3); vp_havoc_loops(1); P.init1(-p/P.K,q/(2*s.q_prefac*P.mu),vp_tier()?3:1); P.run(); vp_havoc_loops(0); P.after(); vp_reach(el?"elastic":"plastic"); obsm("tau",s.particles.tau[0]);
  if(el) P.untouched(); else { P.accounting(true,false); surface(P,pc,1e-3); friction(P); } }
extern "C" void h_mccimpl(){ Plast P; P.elastic(2500,0.25); P.init0(); Simulation&s=P.s; int law=3+vp_choice("law",2); mcc(P,law,false); s.M=vp_real("M",0.5,2); s.p0=64; s.beta=vp_real("beta",0,0.5); s.xi=4.0; double ev=-0.125; s.particles.eps_pl_vol[0]=ev; common(P,false);
  double pc=hard(P,law,ev), p=vp_real("p",-300,600), q=vp_real("q",0.5,600); double y=s.M*s.M*(p-pc)*(p+s.beta*pc)+q*q; bool el=y<=0; if(law==4) vp_assume(el); vp_assume(y>1e-3||y< -1e-3); vp_havoc_loops(1); P.init1(-p/P.K,q/(2*s.q_prefac*P.mu),vp_tier()?3:1); P.run(); vp_havoc_loops(0); P.after(); vp_reach(el?"elastic":"plastic"); obsm("tau",s.particles.tau[0]);
  if(el) P.untouched(); else { P.accounting(true,false); double p1=P.p1(), q1=P.q1(); if(q1>0.5){ pc=hard(P,law,s.particles.eps_pl_vol[0]); vp_assert_eq(q1*q1,s.M*s.M*(pc-p1)*(p1+s.beta*pc),1e-3*pc*pc,"plastic states lie on the hardened yield surface"); friction(P); } } }

// viscous Cam-Clay without hardening: Duvaut-Lions relaxation or Perzyna overstress (exponent 1, or 2 with the iterations abstracted)
extern "C" void h_mccvisc(){ Plast P; P.elastic(2500,0.25); P.init0(); Simulation&s=P.s; mcc(P,0,true); int k=vp_choice("law",2+vp_tier()); s.use_duvaut_lions_formulation=k==0; s.visc_exponent=k==2?2:1; s.visc_time=vp_real("vt",0.01,2); s.M=vp_real("M",0.5,2); s.p0=vp_real("p0",10,200); s.beta=vp_real("beta",0,0.5); s.xi=0; common(P,false);
  double pc=s.p0, p=vp_real("p",-300,600), q=vp_real("q",0.5,600); double y=s.M*s.M*(p-pc)*(p+s.beta*pc)+q*q; bool el=y<=0; vp_assume(y>1e-3||y< -1e-3); vp_havoc_loops(1); P.init1(-p/P.K,q/(2*s.q_prefac*P.mu),vp_tier()?3:1); P.run(); vp_havoc_loops(0); P.after(); vp_reach(el?"elastic":"plastic"); obsm("tau",s.particles.tau[0]);
  if(el){ P.untouched(); return; } if(s.exit) return; P.accounting(true,false); double p1=P.p1(), q1=P.q1(), rate=s.particles.delta_gamma[0]; 
  if(k==0){ double b=1/(1+s.visc_time/P.dt), ps=(p1-(1-b)*p)/b, qs=(q1-(1-b)*q)/b; vp_assert_eq(qs*qs,s.M*s.M*(pc-ps)*(ps+s.beta*pc),1e-3*pc*pc,"the relaxed state lies between the trial state and the yield surface in the ratio of step and viscous time"); }
  else { double qy2=s.M*s.M*(pc-p1)*(p1+s.beta*pc); vp_assert_le(qy2,q1*q1,1e-3*pc*pc,"viscous states do not lie inside the yield surface"); if(q1>0.5&&q1<q){ double r=1+s.visc_time*rate; if(k==1) vp_assert_eq(q1*q1,qy2*r*r,1e-3*pc*pc,"overstress follows the viscosity law"); } } }
// von Mises with softening and/or a viscous exponent, shear states; the Newton iterations are abstracted
static void overstressN(Plast&P,double qy){ Simulation&s=P.s; double n=s.visc_exponent, f=2*s.q_prefac*s.q_prefac*P.mu, rate=s.particles.delta_gamma[0]; P.accounting(); vp_assert_eq(P.tr1,P.tr,1e-6,"shear flow preserves volume"); vp_assert_le(P.q1(),P.q0(),1e-6,"viscous states lie between the yield surface and the trial state");
  if(s.use_duvaut_lions_formulation){ double r=s.visc_time*rate; vp_assert_eq(P.q1(),qy+f*(n==1?r:r*r),1.1e-2,"overstress follows the viscosity law"); } else { double r=1+s.visc_time*rate; double rn=n==1?r:r*r; vp_assert_eq(P.q1()/rn,qy,1.1e-2,"overstress follows the viscosity law"); } }
extern "C" void h_vmnewton(){ Plast P; P.elastic(2500,0.25); P.init0(); Simulation&s=P.s; s.plastic_model=PlasticModel::VMVisc; s.use_duvaut_lions_formulation=vp_choice("dl",2); int k=vp_choice("law",3); s.visc_exponent=k?2:1; s.xi= k==1?0.0:2.0; s.visc_time=vp_real("vt",0.01,2); s.q_max=vp_real("qmax",20,100); s.q_min=vp_real("qmin",20,100); s.particles.eps_pl_dev[0]=k==1?vp_real("ed",0,1):0.25; s.particles.delta_gamma[0]=vp_real("dg",0,1);
  double qy=s.q_min+(s.q_max-s.q_min)*std::exp(-s.xi*s.particles.eps_pl_dev[0]), p=vp_real("p",-300,600), q=vp_real("q",20,600); vp_assume(q>qy+0.01); vp_havoc_loops(1); P.init1(-p/P.K,q/(2*s.q_prefac*P.mu),vp_tier()?3:1); P.run(); vp_havoc_loops(0); P.after(); vp_reach("shear"); obsm("tau",s.particles.tau[0]); overstressN(P,s.q_min+(s.q_max-s.q_min)*std::exp(-s.xi*s.particles.eps_pl_dev[0])); }
extern "C" void h_dpnewton(){ Plast P; P.elastic(2500,0.25); P.init0(); Simulation&s=P.s; s.plastic_model=PlasticModel::DPVisc; s.use_duvaut_lions_formulation=vp_choice("dl",2); s.visc_exponent=2; s.visc_time=vp_real("vt",0.01,2); s.M=vp_real("M",0.2,2); s.q_cohesion=vp_real("c",0,50); s.particles.delta_gamma[0]=vp_real("dg",0,1); s.use_pradhana=vp_choice("prad",2); double pr=0; if(s.use_pradhana) pr=s.particles.eps_pl_vol_pradhana[0]=(vp_tier()&&vp_choice("gain",2))?-1.0/64:1.0/64; s.use_mibf=s.use_musl;
  double p=vp_real("p",-300,600), q=vp_real("q",20,600), ps=p-P.K*pr, qy=s.M*ps+s.q_cohesion; vp_assume(qy>1); vp_assume(q>qy+0.01); vp_havoc_loops(1); P.init1(-p/P.K,q/(2*s.q_prefac*P.mu),vp_tier()?3:1); P.run(); vp_havoc_loops(0); P.after(); vp_reach("shear"); obsm("tau",s.particles.tau[0]); overstressN(P,qy); if(s.use_pradhana) vp_assert_eq(s.particles.eps_pl_vol_pradhana[0],0,1e-9,"volume correction is reset once the material is no longer in tension"); if(s.use_mibf&&ps>1) vp_assert_eq(s.particles.muI[0]*ps,P.q1()-s.q_cohesion,1e-4,"boundary friction is the mobilised stress ratio"); }
