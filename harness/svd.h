// Contract for the SVD used in bitcode builds. A harness may register decompositions; a matrix that equals a registered
// U diag(S) V^T is decomposed that way, any other gets an arbitrary result (fresh values, finite).
#pragma once
static double svdRec[4][3*9+3]; static int svdN=0;
static inline void registerSvd(const TM&U,const TV&S,const TM&V){ TM D=TM::Zero(); for(int i=0;i<DIM;i++) D(i,i)=S(i); TM F=U*D*V.transpose(); double*r=svdRec[svdN++]; for(int i=0;i<DIM*DIM;i++){ r[i]=F.data()[i]; r[9+i]=U.data()[i]; r[18+i]=V.data()[i]; } for(int i=0;i<DIM;i++) r[27+i]=S(i); }
#ifndef VP_OWN_SVD
extern "C" void vp_svd_hook(int n,const double*F,double*U,double*S,double*V){
  for(int k=0;k<svdN;k++){ const double*r=svdRec[k]; bool same=true; for(int i=0;i<n*n;i++) if(!vp_same(F[i],r[i])) same=false; if(same){ for(int i=0;i<n*n;i++){ U[i]=r[9+i]; V[i]=r[18+i]; } for(int i=0;i<n;i++) S[i]=r[27+i]; return; } }
  for(int i=0;i<n*n;i++){ U[i]=vp_fresh("svdU"); V[i]=vp_fresh("svdV"); } for(int i=0;i<n;i++){ S[i]=vp_fresh("svdS"); vp_assume(S[i]>0.001); vp_assume(S[i]<1000); }
}
#endif
