// Reference model: exact arithmetic mod p (or over Z when p==0), guarded operand buffers, value families.
#pragma once
#include "mc.h"
#include <givaro/modular.h>
#include <givaro/modular-balanced.h>
#include <givaro/modular-integer.h>
#include <givaro/zring.h>
#include <givaro/givinteger.h>
#include <recint/rint.h>
#include <type_traits>
#include <cmath>
using mc::u64; using mc::i64;
typedef Givaro::Integer Int;
typedef __int128 i128;

// ---- reference ring ------------------------------------------------------------------------------------
template<class N> struct RingT;
template<> struct RingT<i64> { typedef i64 N; i64 p; // p==0: Z
    i64 red(i128 x)const{ if(!p) return (i64)x; i64 r=(i64)(x%p); return r<0?r+p:r; }
    i64 add(i64 a,i64 b)const{ return red((i128)a+b);} i64 sub(i64 a,i64 b)const{ return red((i128)a-b);} i64 mul(i64 a,i64 b)const{ return red((i128)a*b);} i64 neg(i64 a)const{return red(-(i128)a);}
    i64 inv(i64 a)const{ i64 r0=p,r1=red(a),s0=0,s1=1; while(r1){ i64 q=r0/r1; i64 t=r0-q*r1;r0=r1;r1=t; t=(i64)((i128)s0-(i128)q*s1); s0=s1;s1=t;} return red(s0);}
    bool zero(i64 a)const{return a==0;} };
template<> struct RingT<Int> { typedef Int N; Int p;
    Int red(const Int&x)const{ if(p==0) return x; Int r=x%p; if(r<0) r+=p; return r; }
    Int add(const Int&a,const Int&b)const{ return red(a+b);} Int sub(const Int&a,const Int&b)const{return red(a-b);} Int mul(const Int&a,const Int&b)const{return red(a*b);} Int neg(const Int&a)const{return red(-a);}
    Int inv(const Int&a)const{ Int r; Givaro::inv(r,a,p); return red(r);} bool zero(const Int&a)const{return a==0;} };

template<class F> struct FT { typedef i64 N; static const char*name(){return "?";} };
#define FT_(T,NN,S) template<> struct FT<T>{ typedef NN N; static const char*name(){return S;} };
FT_(Givaro::Modular<float>,i64,"Modular<float>") FT_(Givaro::Modular<double>,i64,"Modular<double>")
FT_(Givaro::Modular<int32_t>,i64,"Modular<int32>") FT_(Givaro::Modular<int64_t>,i64,"Modular<int64>")
FT_(Givaro::Modular<uint32_t>,i64,"Modular<uint32>") FT_(Givaro::Modular<uint64_t>,i64,"Modular<uint64>")
FT_(Givaro::Modular<int16_t>,i64,"Modular<int16>") FT_(Givaro::Modular<int8_t>,i64,"Modular<int8>")
FT_(Givaro::ModularBalanced<float>,i64,"ModularBalanced<float>") FT_(Givaro::ModularBalanced<double>,i64,"ModularBalanced<double>")
FT_(Givaro::ModularBalanced<int32_t>,i64,"ModularBalanced<int32>") FT_(Givaro::ModularBalanced<int64_t>,i64,"ModularBalanced<int64>")
FT_(Givaro::ZRing<float>,i64,"ZRing<float>") FT_(Givaro::ZRing<double>,i64,"ZRing<double>")
FT_(Givaro::ZRing<int32_t>,i64,"ZRing<int32>") FT_(Givaro::ZRing<int64_t>,i64,"ZRing<int64>")
FT_(Givaro::ZRing<Int>,Int,"ZRing<Integer>") FT_(Givaro::Modular<Int>,Int,"Modular<Integer>")
typedef Givaro::Modular<RecInt::rint<8>> ModRint8; typedef Givaro::Modular<RecInt::ruint<7>,RecInt::ruint<8>> ModRuint7;
FT_(ModRint8,Int,"Modular<rint<8>>") FT_(ModRuint7,Int,"Modular<ruint<7>>")
template<class F> struct IsZ: std::false_type{}; template<class T> struct IsZ<Givaro::ZRing<T>>: std::true_type{};
template<class F> struct IsBal: std::false_type{}; template<class T> struct IsBal<Givaro::ModularBalanced<T>>: std::true_type{};

inline Int to_int(const Int&x){return x;} 
template<class F> inline typename std::enable_if<IsZ<F>::value,Int>::type modulus(const F&){ return 0; }
template<class F> inline typename std::enable_if<!IsZ<F>::value,Int>::type modulus(const F&f){ Int p; f.characteristic(p); return p; }
template<class F> inline typename std::enable_if<std::is_same<typename FT<F>::N,i64>::value,RingT<i64>>::type ring(const F&f){ return RingT<i64>{(i64)(int64_t)modulus(f)}; }
template<class F> inline typename std::enable_if<std::is_same<typename FT<F>::N,Int>::value,RingT<Int>>::type ring(const F&f){ return RingT<Int>{modulus(f)}; }

// raw integer value of an element (sign kept) ; ok=false when it is not an integer (float NaN / fraction)
template<class E> inline typename std::enable_if<std::is_floating_point<E>::value,i64>::type rawval(const E&x,bool&ok){ if(!(x==x)||std::fabs((double)x)>9e18||std::floor(x)!=x){ok=false;return 0;} return (i64)x; }
template<class E> inline typename std::enable_if<std::is_integral<E>::value,i64>::type rawval(const E&x,bool&){ return (i64)x; }
inline Int rawval(const Int&x,bool&){ return x; }
template<size_t K> inline Int rawval(const RecInt::rint<K>&x,bool&){ return Int(x); }
template<size_t K> inline Int rawval(const RecInt::ruint<K>&x,bool&){ return Int(x); }

template<class G,bool B> struct BalB{ typedef typename FT<G>::N N; static void get(const G&f,N&lo,N&hi){ bool o=true; lo=rawval(f.minElement(),o); hi=rawval(f.maxElement(),o);} };
template<class G> struct BalB<G,false>{ typedef typename FT<G>::N N; static void get(const G&,N&lo,N&hi){ lo=0; hi=0; } };
// cached model context of a field: modulus and (for balanced representations) the canonical range
template<class F> struct Cx { typedef typename FT<F>::N N; RingT<N> R; N lo,hi; Cx(const F&f):R(ring(f)){ BalB<F,IsBal<F>::value>::get(f,lo,hi); if(!IsBal<F>::value) hi=R.p-N(1); } };
// model value of an element, canonical in [0,p) ; red=false when the element is not in the field's canonical range
template<class F> inline typename FT<F>::N val(const Cx<F>&c,const typename F::Element&x,bool&red){
    typedef typename FT<F>::N N; N v=rawval(x,red); if(IsZ<F>::value) return v;
    if(v<c.lo||v>c.hi){ red=false; return c.R.red(v);} if(IsBal<F>::value&&v<0) return v+c.R.p; return v; }
template<class F> inline typename FT<F>::N val(const F&f,const typename F::Element&x,bool&red){ return val(Cx<F>(f),x,red); }
template<class E> inline typename std::enable_if<std::is_arithmetic<E>::value>::type setraw(E&e,i64 v){ e=(E)v; }
inline void setraw(Int&e,const Int&v){ e=v; }
template<size_t K> inline void setraw(RecInt::rint<K>&e,const Int&v){ RecInt::rint<K> r; Givaro::Caster(r,v); e=r; }
template<size_t K> inline void setraw(RecInt::ruint<K>&e,const Int&v){ RecInt::ruint<K> r; Givaro::Caster(r,v); e=r; }
// element from canonical model value
template<class F> inline void setval(const Cx<F>&c,typename F::Element&e,typename FT<F>::N v){ if(IsBal<F>::value&&v>c.hi) v-=c.R.p; setraw(e,v); }
template<class F> inline void setval(const F&f,typename F::Element&e,typename FT<F>::N v){ setval(Cx<F>(f),e,v); }
template<class F> inline typename F::Element elt(const F&f,typename FT<F>::N v){ typename F::Element e; f.init(e); setval(f,e,ring(f).red(v)); return e; }

// ---- matrices of model values --------------------------------------------------------------------------
template<class N> struct RM { size_t m,n; std::vector<N> a; RM(size_t m_=0,size_t n_=0):m(m_),n(n_),a(m_*n_){ for(auto&x:a) x=0; }
    N&operator()(size_t i,size_t j){return a[i*n+j];} const N&operator()(size_t i,size_t j)const{return a[i*n+j];}
    bool operator==(const RM&o)const{return m==o.m&&n==o.n&&a==o.a;} bool operator!=(const RM&o)const{return !(*this==o);} };
template<class N> RM<N> tr(const RM<N>&A){ RM<N> B(A.n,A.m); for(size_t i=0;i<A.m;i++)for(size_t j=0;j<A.n;j++)B(j,i)=A(i,j); return B; }
inline RM<i64> mul(const RingT<i64>&R,const RM<i64>&A,const RM<i64>&B){ RM<i64> C(A.m,B.n); bool small=R.p&&R.p<(1ll<<28);
    for(size_t i=0;i<A.m;i++)for(size_t j=0;j<B.n;j++){ if(small){ i64 s=0; for(size_t k=0;k<A.n;k++){ s+=A(i,k)*B(k,j); if((k&63)==63) s%=R.p; } C(i,j)=s%R.p; }
        else { i128 s=0; for(size_t k=0;k<A.n;k++){ s+=(i128)A(i,k)*B(k,j); if(R.p) s%=R.p; } C(i,j)=R.red(s);} } return C; }
inline RM<Int> mul(const RingT<Int>&R,const RM<Int>&A,const RM<Int>&B){ RM<Int> C(A.m,B.n); for(size_t i=0;i<A.m;i++)for(size_t j=0;j<B.n;j++){ Int s=0; for(size_t k=0;k<A.n;k++) s+=A(i,k)*B(k,j); C(i,j)=R.red(s);} return C; }
template<class N> RM<N> add(const RingT<N>&R,const RM<N>&A,const RM<N>&B){ RM<N> C(A.m,A.n); for(size_t i=0;i<C.a.size();i++) C.a[i]=R.add(A.a[i],B.a[i]); return C; }
template<class N> RM<N> scal(const RingT<N>&R,const N&s,const RM<N>&A){ RM<N> C(A.m,A.n); for(size_t i=0;i<C.a.size();i++) C.a[i]=R.mul(s,A.a[i]); return C; }
template<class N> RM<N> ident(size_t n){ RM<N> I(n,n); for(size_t i=0;i<n;i++) I(i,i)=1; return I; }
template<class N> std::string str(const N&x){ std::ostringstream o; o<<x; return o.str(); }
template<class N> std::string str(const RM<N>&A){ std::ostringstream o; o<<"["; for(size_t i=0;i<A.m;i++){ o<<(i?" ; ":""); for(size_t j=0;j<A.n;j++) o<<(j?" ":"")<<A(i,j);} o<<"]("<<A.m<<"x"<<A.n<<")"; std::string s=o.str(); if(s.size()>3000) s=s.substr(0,3000)+"..."; return s; }
inline std::string str(const std::vector<size_t>&v){ std::ostringstream o; o<<"("; for(size_t i=0;i<v.size();i++) o<<(i?" ":"")<<v[i]; o<<")"; return o.str(); }
inline u64 hval(i64 x){ return mc::mix((u64)x); } inline u64 hval(const Int&x){ u64 h=mc::mix((u64)x.size()+(x<0?99:0)); for(size_t i=0;i<x.size();i++) h=mc::hcomb(h,(u64)x[i]); return h; }
template<class N> u64 hmat(const RM<N>&A){ u64 h=mc::hcomb(A.m,A.n); for(auto&x:A.a) h=mc::hcomb(h,hval(x)); return h; }
// rank over GF(p) and row echelon (reduced), reference
template<class N> RM<N> rref(const RingT<N>&R,RM<N> A,std::vector<size_t>*piv=nullptr){ size_t r=0; if(piv)piv->clear();
    for(size_t j=0;j<A.n&&r<A.m;j++){ size_t i=r; while(i<A.m&&R.zero(A(i,j))) i++; if(i==A.m) continue;
        for(size_t k=0;k<A.n;k++) std::swap(A(i,k),A(r,k)); N v=R.inv(A(r,j)); for(size_t k=0;k<A.n;k++) A(r,k)=R.mul(A(r,k),v);
        for(size_t q=0;q<A.m;q++) if(q!=r&&!R.zero(A(q,j))){ N c=A(q,j); for(size_t k=0;k<A.n;k++) A(q,k)=R.sub(A(q,k),R.mul(c,A(r,k))); }
        if(piv)piv->push_back(j); r++; } return A; }
template<class N> size_t rank_(const RingT<N>&R,const RM<N>&A){ std::vector<size_t> v; rref(R,A,&v); return v.size(); }
template<class N> N det_(const RingT<N>&R,RM<N> A){ size_t n=A.m; N d=R.red(N(1)); for(size_t j=0;j<n;j++){ size_t i=j; while(i<n&&R.zero(A(i,j))) i++; if(i==n) return N(0);
        if(i!=j){ for(size_t k=0;k<n;k++) std::swap(A(i,k),A(j,k)); d=R.neg(d);} d=R.mul(d,A(j,j)); N v=R.inv(A(j,j));
        for(size_t q=j+1;q<n;q++) if(!R.zero(A(q,j))){ N c=R.mul(A(q,j),v); for(size_t k=j;k<n;k++) A(q,k)=R.sub(A(q,k),R.mul(c,A(j,k))); } } return d; }

// ---- guarded operand: window m x n with leading dimension ld inside a larger buffer ---------------------
template<class F> struct Mat { typedef typename F::Element El; typedef typename FT<F>::N N;
    const F&f; Cx<F> cx; size_t m,n,ld,off,tot; El*buf; std::vector<El> snap;
    static const size_t TAIL=5;
    Mat(const F&f_,size_t m_,size_t n_,size_t ld_,size_t off_=0):f(f_),cx(f_),m(m_),n(n_),ld(ld_),off(off_){ tot=off+(m?(m-1)*ld+std::max(n,(size_t)0):0)+TAIL; if(m&&ld<n) tot+=n;
        void*q=nullptr; if(posix_memalign(&q,64,tot*sizeof(El)+64)) abort(); buf=(El*)q; for(size_t i=0;i<tot;i++) new(buf+i) El();
        junk(); }
    Mat(const Mat&)=delete;
    ~Mat(){ for(size_t i=0;i<tot;i++) buf[i].~El(); free(buf); }
    void junk(){ for(size_t i=0;i<tot;i++) setjunk(buf[i],i); }
    void setjunk(El&e,size_t i){ setval(cx,e,cx.R.red(N((i64)((i*7+3)%97)))); }
    El*ptr(){return buf+off;} El&at(size_t i,size_t j){return buf[off+i*ld+j];}
    void set(const RM<N>&A){ for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) setval(cx,at(i,j),A(i,j)); }
    void keep(){ snap.assign(buf,buf+tot); }
    bool inwin(size_t k)const{ if(k<off) return false; k-=off; if(!m||!n) return false; return k/ld<m&&k%ld<n; }
    RM<N> get(bool&red){ RM<N> A(m,n); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) A(i,j)=val(cx,at(i,j),red); return A; }
    bool same(const El&a,const El&b)const{ return eq(a,b,std::is_arithmetic<El>()); }
    static bool eq(const El&a,const El&b,std::true_type){ return !memcmp(&a,&b,sizeof(El))||a==b; } static bool eq(const El&a,const El&b,std::false_type){ return a==b; }
    bool frame_ok(){ for(size_t k=0;k<tot;k++) if(!inwin(k)&&!same(buf[k],snap[k])) return false; return true; }
    bool unchanged(){ for(size_t k=0;k<tot;k++) if(!same(buf[k],snap[k])) return false; return true; } };
// vector with increment
template<class F> struct Vec { typedef typename F::Element El; typedef typename FT<F>::N N; Mat<F> M; size_t n,inc; 
    Vec(const F&f,size_t n_,size_t inc_,size_t off=0):M(f,n_,1,inc_?inc_:1,off),n(n_),inc(inc_){}
    El*ptr(){return M.ptr();} void set(const RM<N>&A){ for(size_t i=0;i<n;i++) setval(M.cx,M.at(i,0),A.a[i]); } void keep(){M.keep();}
    RM<N> get(bool&red){ return M.get(red);} bool frame_ok(){return M.frame_ok();} bool unchanged(){return M.unchanged();} };

// verdict helpers
template<class F> bool expect_out(const char*sig,Mat<F>&C,const RM<typename FT<F>::N>&want,const char*what="output"){
    bool red=true; auto got=C.get(red);
    if(got!=want) return mc::fail(sig,std::string(what)+" is wrong\n expected "+str(want)+"\n got      "+str(got));
    if(!red) return mc::fail(std::string(sig)+"/unreduced",std::string(what)+" holds entries outside the canonical range of the field, got "+str(got));
    if(!C.frame_ok()) return mc::fail(std::string(sig)+"/frame",std::string(what)+": memory outside the operand window was modified");
    return true; }
template<class F> bool expect_same(const char*sig,Mat<F>&C,const char*what){ if(!C.unchanged()) return mc::fail(std::string(sig)+"/input-modified",std::string(what)+" (input operand) was modified"); return true; }
template<class F> bool expect_out(const char*sig,Vec<F>&C,const RM<typename FT<F>::N>&want,const char*what="output"){ return expect_out(sig,C.M,want,what);} 
template<class F> bool expect_same(const char*sig,Vec<F>&C,const char*what){ return expect_same(sig,C.M,what);} 

// ---- value families -------------------------------------------------------------------------------------
// extreme model values: for p>0: canonical values of the largest / smallest representatives ; for Z: +-B
template<class F> struct Ext { typedef typename FT<F>::N N; N hi,lo; Ext(const F&f,N zb=N(0)){ auto R=ring(f); bool o=true;
        if(IsZ<F>::value){ hi=zb; lo=-zb; } else if(IsBal<F>::value){ hi=R.red(maxel(f)); lo=R.red(minel(f)); } else { hi=R.p-N(1); lo=N(1);} (void)o; }
    template<class G> static typename std::enable_if<IsBal<G>::value,N>::type maxel(const G&f){ bool o=true; return rawval(f.maxElement(),o);} template<class G> static typename std::enable_if<!IsBal<G>::value,N>::type maxel(const G&){return 0;}
    template<class G> static typename std::enable_if<IsBal<G>::value,N>::type minel(const G&f){ bool o=true; return rawval(f.minElement(),o);} template<class G> static typename std::enable_if<!IsBal<G>::value,N>::type minel(const G&){return 0;} };
enum Fill { FZERO=0, FHASH, FHI, FLO, FALT, FROW, FCOL, FIDX, FUNIT, FSPARSE, FNFILL };
inline const char*fillname(int f){ static const char*n[]={"zero","hash","hi","lo","alt","rowalt","colalt","idx","unit","sparse"}; return n[f]; }
template<class F> RM<typename FT<F>::N> fill(const F&f,int kind,size_t m,size_t n,u64 salt,typename FT<F>::N zb=typename FT<F>::N(50)){
    typedef typename FT<F>::N N; RM<N> A(m,n); auto R=ring(f); Ext<F> x(f,zb);
    auto rnd=[&](u64 h)->N{ N v; if(IsZ<F>::value){ v=N((i64)(h>>1)); N w=zb*N(2)+N(1); v=v%w; v=v-zb; } else { v=N((i64)(h>>1)); v=R.red(v); } return v; };
    for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ N v=0; switch(kind){ case FZERO: break;
        case FHASH: v=rnd(mc::hcomb(mc::hcomb(salt,i),j)); break; case FHI: v=x.hi; break; case FLO: v=x.lo; break;
        case FALT: v=((i+j+salt)&1)?x.hi:x.lo; break; case FROW: v=((i+salt)&1)?x.hi:x.lo; break; case FCOL: v=((j+salt)&1)?x.hi:x.lo; break;
        case FIDX: v=R.red(N((i64)(i*n+j+1+salt))); break; case FUNIT: v=(i==j)?N(1):N(0); break;
        case FSPARSE: { u64 h=mc::hcomb(mc::hcomb(salt^5,i),j); v=(h%3)?N(0):rnd(mc::mix(h)); } break; } A(i,j)=v; }
    return A; }
// idx-th matrix over {0..p-1}^(m*n)
inline RM<i64> digits(u64 idx,i64 p,size_t m,size_t n){ RM<i64> A(m,n); for(auto&x:A.a){ x=(i64)(idx%p); idx/=p; } return A; }
inline u64 ipow(u64 b,u64 e){ u64 r=1; while(e--) r*=b; return r; }
// all partial permutation (rank-profile) matrices m x n, as vectors row->col (-1 none)
inline void allrpm(size_t m,size_t n,std::vector<std::vector<int>>&out){ std::vector<int> cur(m,-1); std::vector<char> used(n,0);
    std::function<void(size_t)> rec=[&](size_t i){ if(i==m){ out.push_back(cur); return; } cur[i]=-1; rec(i+1); for(size_t j=0;j<n;j++) if(!used[j]){ used[j]=1; cur[i]=(int)j; rec(i+1); used[j]=0; cur[i]=-1; } }; rec(0); }
template<class N> RM<N> rpmmat(const std::vector<int>&v,size_t n){ RM<N> E(v.size(),n); for(size_t i=0;i<v.size();i++) if(v[i]>=0) E(i,v[i])=1; return E; }
// A = L*E*U with L unit lower, U unit upper (hash filled): rank profile matrix of A is E. scale: diag of L values
template<class F> RM<typename FT<F>::N> fromrpm(const F&f,const RM<typename FT<F>::N>&E,u64 salt,int kind=FHASH){ typedef typename FT<F>::N N; auto R=ring(f); auto L=fill(f,kind,E.m,E.m,salt), U=fill(f,kind,E.n,E.n,salt+1);
    for(size_t i=0;i<E.m;i++){ for(size_t j=i;j<E.m;j++) L(i,j)=(i==j)?N(1):N(0); N d=fill(f,FHASH,1,1,salt+7+i).a[0]; if(!R.zero(d)) L(i,i)=d; }
    for(size_t i=0;i<E.n;i++) for(size_t j=0;j<=i;j++) U(i,j)=(i==j)?N(1):N(0);
    return mul(R,mul(R,L,E),U); }
