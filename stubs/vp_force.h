// Force-included when compiling to bitcode: the iterative SVD of Eigen is an external library routine; it is
// replaced by a contract supplied by the harness (U diag(S) V^T = F, U and V orthogonal).
#pragma once
#include <Eigen/Dense>
extern "C" void vp_svd_hook(int n,const double*F,double*U,double*S,double*V);
namespace Eigen {
template<> inline JacobiSVD<Matrix<double,2,2> >& JacobiSVD<Matrix<double,2,2> >::compute(const Matrix<double,2,2>& m, unsigned int o){
  allocate(2,2,o); vp_svd_hook(2,m.data(),m_matrixU.data(),m_singularValues.data(),m_matrixV.data()); m_nonzeroSingularValues=2; m_info=Success; m_isInitialized=true; return *this; }
template<> inline JacobiSVD<Matrix<double,3,3> >& JacobiSVD<Matrix<double,3,3> >::compute(const Matrix<double,3,3>& m, unsigned int o){
  allocate(3,3,o); vp_svd_hook(3,m.data(),m_matrixU.data(),m_singularValues.data(),m_matrixV.data()); m_nonzeroSingularValues=3; m_info=Success; m_isInitialized=true; return *this; }
}
