#include "plast.h"
// elastic laws
extern "C" void h_hencky(){ Plast P; P.init(1.0); P.elastic(vp_real("E",1,10),vp_real("nu",0.05,0.45)); P.s.plastic_model=PlasticModel::NoPlasticity; P.run(); vp_reach("done"); P.after(); obsm("tau",P.s.particles.tau[0]); P.untouched(); eqm(P.s.particles.tau[0],P.s.particles.tau[0].transpose(),1e-9,"the stress is symmetric"); }
extern "C" void h_neohooke(){ Simulation s; setup(s,1,1.0); s.grid_reference_point=TV::Zero(); s.particles.x[0]=0.25*TV::Ones(); TM F=rmat("F",0,-1.5,1.5); double J=F.determinant(); vp_assume(J>0.1); vp_assume(J<3); s.particles.F[0]=F; double E=vp_real("E",1,10), nu=vp_real("nu",0.05,0.45), dt=vp_real("dt",0.01,0.5); s.E=E; s.nu=nu; s.elastic_model=ElasticModel::NeoHookean; s.use_musl=vp_choice("musl",2);
  steps(s,1,dt); vp_reach("done"); double mu=E/(2*(1+nu)), lam=E*nu/((1+nu)*(1-2*nu)); eqm(s.particles.F[0],F,1e-6,"an elastic state is left untouched"); TM T=mu*(F*F.transpose()-TM::Identity())+lam*std::log(J)*TM::Identity(); obsm("tau",s.particles.tau[0]); eqm(s.particles.tau[0],T,1e-6,"the stored stress is the elastic stress of the stored deformation"); eqm(s.particles.tau[0],s.particles.tau[0].transpose(),1e-6,"the stress is symmetric"); }
extern "C" void h_vm(){ Plast P; P.init(1.0); P.elastic(2.5,0.25); Simulation&s=P.s; s.plastic_model=PlasticModel::VM; s.q_max=vp_real("qmax",0.1,2); s.particles.eps_pl_dev[0]=vp_real("ed",0,1); s.particles.delta_gamma[0]=vp_real("dg",0,1); P.run(); P.after(); bool el=P.q0()<=s.q_max; vp_reach(el?"elastic":"plastic"); obsm("tau",s.particles.tau[0]); vp_assert_le(P.q1(),s.q_max,1e-6,"the shear stress does not exceed the yield stress"); vp_assert_eq(P.tr1,P.tr,1e-6,"von Mises flow preserves volume"); if(el) P.untouched(); else { P.accounting(); vp_assert_eq(P.q1(),s.q_max,1e-6,"plastic states lie on the yield surface"); } }
extern "C" void h_dp(){ Plast P; P.init(1.0); P.elastic(2.5,0.25); Simulation&s=P.s; s.plastic_model=PlasticModel::DP; s.M=vp_real("M",0.2,2); s.q_cohesion=vp_choice("cohesive",2)? vp_real("c",0.01,1): 0.0; s.particles.eps_pl_dev[0]=vp_real("ed",0,1); s.particles.eps_pl_vol[0]=vp_real("ev",-1,1); s.particles.delta_gamma[0]=vp_real("dg",0,1); P.run(); P.after();
  double qy=s.M*P.p0()+s.q_cohesion; bool tip=qy<0, el=!tip&&P.q0()<=qy; vp_reach(tip?"tip":el?"elastic":"shear"); obsm("tau",s.particles.tau[0]); vp_assert_le(P.q1(),s.M*P.p1()+s.q_cohesion,1e-6,"the stress satisfies the Drucker-Prager criterion");
  if(el&&qy>1e-9) P.untouched(); else { P.accounting(); if(tip){ vp_assert_eq(P.q1(),0,1e-6,"tensile states are returned to the tip"); vp_assert_eq(s.M*P.p1(),-s.q_cohesion,1e-6,"tensile states are returned to the tip"); } else if(qy>1e-9){ vp_assert_eq(P.tr1,P.tr,1e-6,"shear flow preserves volume"); vp_assert_eq(P.q1(),qy,1e-6,"plastic states lie on the yield surface"); } } }
static void history(Simulation&s,double lo=-0.2,bool fixed=false){ if(fixed){ s.particles.eps_pl_dev[0]=0.25; s.particles.eps_pl_vol[0]=-0.5; } else { s.particles.eps_pl_dev[0]=vp_real("ed",0,1); s.particles.eps_pl_vol[0]=vp_real("ev",-1,1); } s.particles.delta_gamma[0]=vp_real("dg",0,1); s.use_pradhana=vp_choice("prad",2); if(s.use_pradhana) s.particles.eps_pl_vol_pradhana[0]=vp_real("pr",lo,0.5); }
static void volCorr(Plast&P,bool dil){ if(!P.s.use_pradhana) return; double pr=P.s.particles.eps_pl_vol_pradhana[0]; if(dil) vp_assert_eq(pr,P.pr0+P.tr-P.tr1,1e-6,"volume gained in tension is remembered"); else vp_assert_eq(pr,0,1e-9,"volume correction is reset once the material is no longer in tension"); }
extern "C" void h_dpsoft(){ Plast P; P.init(1.0,!vp_tier()); P.elastic(2.5,0.25); Simulation&s=P.s; s.plastic_model=PlasticModel::DPSoft; int soft=vp_choice("soft",3); history(s,-0.2,soft==2); s.M=vp_real("M",0.2,2); s.q_cohesion=vp_choice("cohesive",2)? vp_real("c",0.01,1): 0.0; s.xi= soft==2? 2.0: soft? vp_real("xi",0.1,5): 0.0; P.run(); P.after();
  double sh= s.use_pradhana? -P.K*P.pr0: 0.0, ps=P.p0()+sh, pt=-s.q_cohesion/s.M*std::exp(-s.xi*P.ed0), qy=s.M*(ps-pt); bool tip=ps<=pt, el=!tip&&P.q0()<=qy; vp_reach(tip?"tip":el?"elastic":"shear"); obsm("tau",s.particles.tau[0]);
  if(tip){ P.accounting(); vp_assert_eq(P.q1(),0,1e-6,"tensile states are returned to the tip"); vp_assert_eq(P.p1(),pt,1e-6,"tensile states are returned to the tip"); volCorr(P,true); }
  else if(el){ P.untouched(); volCorr(P,false); }
  else { P.accounting(); vp_assert_le(P.q1(),qy,1e-6,"the stress does not exceed the yield surface, softening never strengthens"); double cn=s.q_cohesion/s.M*std::exp(-s.xi*(P.ed0+P.dn-qy/(2*s.q_prefac*P.mu))); bool totip=ps<-cn;
    if(totip){ vp_assert_eq(P.q1(),0,1e-6,"tensile states are returned to the tip"); vp_assert_eq(P.p1(),-cn,1e-6,"tensile states are returned to the tip"); volCorr(P,true); } else { vp_assert_eq(P.tr1,P.tr,1e-6,"shear flow preserves volume"); vp_assert_eq(P.q1(),s.M*(ps+cn),1e-6,"plastic states lie on the softened yield surface"); volCorr(P,false); } } }
static void visc(Simulation&s){ s.use_duvaut_lions_formulation=vp_choice("dl",2); s.visc_time= vp_choice("visc",2)? vp_real("vt",0.01,2): 0.0; s.visc_exponent=1; }
// overstress law of the linear viscous models: q is the yield stress plus viscosity times strain rate
static void overstress(Plast&P,double qy){ Simulation&s=P.s; double rate=s.particles.delta_gamma[0], f=2*s.q_prefac*s.q_prefac*P.mu; vp_assert_le(qy,P.q1(),1e-6,"viscous states lie between the yield surface and the trial state"); vp_assert_le(P.q1(),P.q0(),1e-6,"viscous states lie between the yield surface and the trial state"); if(s.visc_time==0) vp_assert_eq(P.q1(),qy,1e-6,"without viscosity the state lies on the yield surface"); vp_assert_eq(P.q1()-qy, (s.use_duvaut_lions_formulation? f: qy)*s.visc_time*rate,1e-6,"overstress is proportional to viscous time and strain rate"); vp_assert_eq(P.tr1,P.tr,1e-6,"shear flow preserves volume"); }
extern "C" void h_vmvisc(){ Plast P; P.init(1.0); P.elastic(2.5,0.25); Simulation&s=P.s; s.plastic_model=PlasticModel::VMVisc; int soft=vp_choice("soft",3); history(s,-0.2,soft==2); visc(s); s.q_max=vp_real("qmax",0.1,2); s.q_min=vp_real("qmin",0.1,2); int cap=vp_choice("cap",2); if(cap) s.p_min=-vp_real("pmin",0.1,2); s.xi= soft==2? 2.0: soft? vp_real("xi",0.1,5): 0.0;
  double qy= s.q_min+(s.q_max-s.q_min)*std::exp(-s.xi*s.particles.eps_pl_dev[0]), pm=s.p_min*std::exp(-s.xi*s.particles.eps_pl_vol[0]); bool tens=cap&&P.p0()<pm; bool el=!tens&&P.q0()<=qy; if(soft) vp_assume(tens||el); // the softening law is solved iteratively, see DESIGN
  P.run(); P.after(); vp_reach(tens?"cap":el?"elastic":"shear"); obsm("tau",s.particles.tau[0]);
  if(tens){ P.accounting(); vp_assert_eq(P.q1(),0,1e-6,"beyond the tension cap the material is stress free"); vp_assert_eq(P.p1(),0,1e-6,"beyond the tension cap the material is stress free"); } else if(el) P.untouched(); else { P.accounting(); overstress(P,qy); } }
extern "C" void h_dpvisc(){ Plast P; P.init(1.0,!vp_tier()); P.elastic(2.5,0.25); Simulation&s=P.s; s.plastic_model=PlasticModel::DPVisc; history(s); visc(s); s.M=vp_real("M",0.2,2); s.q_cohesion=vp_choice("cohesive",2)? vp_real("c",0.01,1): 0.0; s.use_mibf=vp_choice("mibf",2); P.run(); P.after();
  double sh= s.use_pradhana? -P.K*P.pr0: 0.0, ps=P.p0()+sh, pt=-s.q_cohesion/s.M, qy=s.M*(ps-pt); bool tip=ps<pt, el=!tip&&P.q0()<=qy; vp_reach(tip?"tip":el?"elastic":"shear"); obsm("tau",s.particles.tau[0]); if(ps==pt) return;
  if(tip){ P.accounting(); vp_assert_eq(P.q1(),0,1e-6,"tensile states are returned to the tip"); vp_assert_eq(P.p1(),pt,1e-6,"tensile states are returned to the tip"); volCorr(P,true); } else if(el){ P.untouched(); volCorr(P,false); } else { P.accounting(); overstress(P,qy); volCorr(P,false); }
  if(s.use_mibf){ double m=s.particles.muI[0]; if(tip||el) vp_assert_eq(m,s.M,1e-9,"boundary friction of an elastic particle is the static one"); else if(ps>1e-3) vp_assert_eq(m*ps,P.q1()-s.q_cohesion,1e-6,"boundary friction is the mobilised stress ratio"); } }
static void muI(Plast&P){ Simulation&s=P.s; s.plastic_model=PlasticModel::DPMui; s.q_cohesion=vp_choice("cohesive",2)? vp_real("c",0.01,0.1): 0.0; s.stress_tolerance=0; s.mu_1=vp_real("mu1",0.2,0.5); s.mu_2=vp_real("mu2",0.6,1.2); s.I_ref=vp_real("Iref",0.1,0.5); s.rho_s=2500; s.grain_diameter=0.01; }
// tip and elastic states
extern "C" void h_dpmui(){ Plast P; P.init(1.0,!vp_tier()); P.elastic(2.5,0.25); Simulation&s=P.s; history(s); muI(P);
  double sh= s.use_pradhana? -P.K*P.pr0_(): 0.0, pt=-s.q_cohesion/s.mu_1, ps=P.p0()+sh-pt, qy=s.mu_1*ps; bool tip=ps<0, el=!tip&&P.q0()<=qy; vp_assume(tip||el); vp_assume(ps>0.0001||ps< -0.0001); P.run(); P.after(); vp_reach(tip?"tip":"elastic"); obsm("tau",s.particles.tau[0]); double m=s.particles.muI[0];
  vp_assert_eq(m,s.mu_1,1e-9,"at rest the friction is the static one");
  if(tip){ P.accounting(false); vp_assert_eq(P.q1(),0,1e-6,"tensile states are returned to the tip"); vp_assert_eq(P.p1(),pt,1e-6,"tensile states are returned to the tip"); volCorr(P,true); } else { P.untouched(); volCorr(P,false); } }
// flowing states, parametrised by sqrt of the (corrected) pressure and the mobilised part of the friction: every state outside the yield surface arises this way
extern "C" void h_dpmuiflow(){ Plast P; P.elastic(2.5,0.25); P.init0(); Simulation&s=P.s; history(s,0.0); muI(P); double s_=vp_real("s",0.05,0.7), t=vp_real("t",0.05,0.95), Q=s.I_ref/(s.grain_diameter*50), p=s_*s_-s.q_cohesion/s.mu_1+P.K*P.pr0_(), a=2*s.q_prefac*s.q_prefac*P.mu*P.dt, g=Q*s_*(1/t-1), m=s.mu_1+(s.mu_2-s.mu_1)*(1-t), qt=s.mu_1*s_*s_+a*g+p*(s.mu_2-s.mu_1)*(1-t);
  vp_assume(p>=0); P.init1(-p/P.K,qt/(2*s.q_prefac*P.mu)); P.run(); P.after(); vp_reach("flow"); obsm("tau",s.particles.tau[0]); P.accounting(); volCorr(P,false); vp_assert_eq(P.tr1,P.tr,1e-6,"shear flow preserves volume"); vp_assert_eq(s.particles.muI[0],m,1e-6,"friction follows the inertial number"); vp_assert_eq(s.particles.delta_gamma[0],g,1e-6,"friction follows the inertial number"); vp_assert_eq(P.q1(),s.mu_1*s_*s_+p*(m-s.mu_1),1e-6,"shear stress is friction times pressure"); }
