// enumerators of elimination inputs: all matrices over small fields, all rank profile matrices, structured larger ones
#pragma once
template<class N> static std::string shortm(const RM<N>&A){ return A.m*A.n<80?str(A):std::to_string(A.m)+"x"+std::to_string(A.n); }
template<class N> static RM<N> cvt(const RM<i64>&A){ RM<N> B(A.m,A.n); for(size_t i=0;i<A.a.size();i++) B.a[i]=N(A.a[i]); return B; }
template<class N> static RM<N> pattern(int k,size_t m,size_t n){ RM<N> E(m,n); size_t r=std::min(m,n); switch(k){ case 0: for(size_t i=0;i<r;i++) E(i,i)=1; break; case 1: for(size_t i=0;i<r;i++) E(m-1-i,i)=1; break; case 2: for(size_t i=0;i<r;i++) E(i,n-1-i)=1; break; case 3: for(size_t i=0;2*i<m&&3*i+1<n;i++) E(2*i,3*i+1)=1; break; case 4: { size_t hm=m/2,hn=n/2; for(size_t i=0;i<m-hm&&i<hn;i++) E(hm+i,i)=1; for(size_t i=0;i<hm&&i<n-hn;i++) if(i%2) E(i,hn+i)=1; break; } case 5: for(size_t i=0;i<m&&n;i++){ size_t j=(i*7+3)%n; if(i<n&&(i%5)) { bool u=false; for(size_t q=0;q<m;q++) if(E(q,j)!=N(0)) u=true; if(!u) E(i,j)=1; } } break; case 6: if(m&&n) E(m-1,n-1)=1; break; default: break; } return E; }
template<class F> using Fn=std::function<void(const F&,const RM<typename FT<F>::N>&,size_t,u64)>; // field, matrix, pad, salt
template<class F> static void enum_all(const char*nm,F*fp,size_t m,size_t n,Fn<F> fn){ typedef typename FT<F>::N N; i64 p=(i64)(int64_t)Int(ring(*fp).p); u64 tot=ipow(p,m*n),per=tot>4096?128:16; mc::group(std::string("all")+std::to_string(m)+"x"+std::to_string(n)+"/"+nm,(tot+per-1)/per,[=](u64 c){ for(u64 q=c*per;q<(c+1)*per&&q<tot;q++) fn(*fp,cvt<N>(digits(q,p,m,n)),q%3==1?2:0,q); }); }
template<class F> static void enum_shapes(const char*nm,F*fp,u64 maxtot,size_t D,Fn<F> fn,bool square=false){ i64 p=(i64)(int64_t)Int(ring(*fp).p); for(size_t m=0;m<=D;m++)for(size_t n=0;n<=D;n++) if(!square||m==n){ double tot=std::pow((double)p,(double)(m*n)); if(tot<=(double)maxtot) enum_all(nm,fp,m,n,fn); } }
template<class F> static void enum_rpm(const char*nm,F*fp,size_t m,size_t n,int salts,Fn<F> fn){ auto v=std::make_shared<std::vector<std::vector<int>>>(); allrpm(m,n,*v); u64 per=32; mc::group(std::string("rpm")+std::to_string(m)+"x"+std::to_string(n)+"/"+nm,(v->size()+per-1)/per,[=](u64 c){ const F&f=*fp; for(u64 q=c*per;q<(c+1)*per&&q<v->size();q++) for(int s=0;s<salts;s++) fn(f,fromrpm(f,rpmmat<typename FT<F>::N>((*v)[q],n),s*1000+q,s==1?FHI:FHASH),(q+s)&1?3:0,q); }); }
template<class F> static void enum_rpms(const char*nm,F*fp,size_t D,int salts,Fn<F> fn,bool square=false){ for(size_t m=1;m<=D;m++)for(size_t n=1;n<=D;n++) if(!square||m==n) enum_rpm(nm,fp,m,n,salts,fn); }
template<class F> static void enum_big(const char*nm,F*fp,std::vector<std::pair<size_t,size_t>> sz,Fn<F> fn){ mc::group(std::string("big/")+nm,sz.size()*8*2,[=](u64 c){ const F&f=*fp; int s=c&1; auto z=sz[(c/2)/8]; int k=(c/2)%8; fn(f,fromrpm(f,pattern<typename FT<F>::N>(k,z.first,z.second),c+5,s?FHI:FHASH),s?3:0,c); }); }
// every dimension of a range, alone, together and against a fixed one, with rank profiles of several kinds
template<class F> static void enum_dims(const char*nm,F*fp,size_t lo,size_t hi,Fn<F> fn,bool square=false){ size_t S=square?1:5; mc::group(std::string("dims/")+nm,(hi-lo+1)*S*4,[=](u64 c){ const F&f=*fp; int k=c%4; size_t d=lo+(c/4)/S,w=(c/4)%S; size_t m=w==2?4:w==4?d/2+1:d,n=w==1?4:w==3?d/2+1:d; int pk=k==0?0:k==1?4:k==2?5:(int)(d%8); fn(f,fromrpm(f,pattern<typename FT<F>::N>(pk,m,n),c+11,(d+k)%3==2?FHI:FHASH),(d+k)%2?1:0,c); }); }
typedef std::vector<std::pair<size_t,size_t>> VP;
// row rank profile (lexicographically first independent rows) and rank profile matrix of the input
template<class N> static std::vector<size_t> rowprofile(const RingT<N>&R,const RM<N>&A){ std::vector<size_t> v; rref(R,tr(A),&v); return v; }
template<class N> static std::vector<size_t> colprofile(const RingT<N>&R,const RM<N>&A){ std::vector<size_t> v; rref(R,A,&v); return v; }
template<class N> static RM<N> leading(const RM<N>&A,size_t m,size_t n){ RM<N> B(m,n); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) B(i,j)=A(i,j); return B; }
// standard sweeps over the field set FSET (1..5)
