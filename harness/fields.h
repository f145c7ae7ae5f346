// the field instances shared by the harnesses
#pragma once
#include "fld.h"
template<class F> static typename FT<F>::N scalar(const F&f,int k){ typedef typename FT<F>::N N; auto R=ring(f); switch(k){case 0:return N(0);case 1:return R.red(N(1));case 2:return R.red(N(-1));case 3:return R.red(N(2));default:return R.red(N(IsZ<F>::value?-3:(i64)5)); } }
static const FFLAS::FFLAS_TRANSPOSE TR_[2]={FFLAS::FflasNoTrans,FFLAS::FflasTrans};
static const FFLAS::FFLAS_UPLO UL_[2]={FFLAS::FflasUpper,FFLAS::FflasLower};
static const FFLAS::FFLAS_DIAG DG_[2]={FFLAS::FflasNonUnit,FFLAS::FflasUnit};
static const FFLAS::FFLAS_SIDE SD_[2]={FFLAS::FflasLeft,FFLAS::FflasRight};
template<class F> static u64 hfield(const F&f){ return mc::hcomb(mc::hstr(FT<F>::name()),hval(ring(f).p)); }
static inline u64 hmany(std::initializer_list<u64> l){ u64 h=3; for(u64 x:l) h=mc::hcomb(h,x); return h; }
// leading dimension n+pad, at least 1
static inline size_t ldim(size_t n,size_t pad){ return n+pad?n+pad:1; }
