// the parallel routines, one family per FSET
static const bool MP=FSET==6;
static int DEV(){ return mc::thorough()?2:1; }
using namespace FFLAS::CuttingStrategy; using namespace FFLAS::StrategyParameter;
#define HDR(x) MC_CASE(x<<" threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" "<<desc)
// ---- matrix product -------------------------------------------------------------------------------------
template<class F,class Cut,class Par> static void gemm(const char*st,const F&f,int nt,size_t m,size_t n,size_t k,int t,int ia,int ib,int dev,int fk=FHASH){
    typedef typename FT<F>::N N; auto R=ring(f); N al=scalar(f,ia),be=scalar(f,ib); int ta=t>>1,tb=t&1; RM<N> A=fill(f,fk,ta?k:m,ta?m:k,11),B=fill(f,fk,tb?n:k,tb?k:n,12),C=fill(f,FHASH,m,n,13); size_t lda=ldim(A.n,1),ldb=ldim(B.n,2),ldc=ldim(n,1);
    MC_CASE("parallel fgemm "<<st<<" threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" m="<<m<<" n="<<n<<" k="<<k<<" ta="<<ta<<" tb="<<tb<<" alpha="<<al<<" beta="<<be);
    Mat<F> MA(f,A.m,A.n,lda),MB(f,B.m,B.n,ldb),MCm(f,m,n,ldc); MA.set(A);MB.set(B);MA.keep();MB.keep(); RM<N> W=add(R,scal(R,al,mul(R,ta?tr(A):A,tb?tr(B):B)),scal(R,be,C)); auto ea=elt(f,al),eb=elt(f,be); auto*pa=MA.ptr(),*pb=MB.ptr(),*pc=MCm.ptr();
    explore(std::string("fgemm/")+st,nt,dev,hmany({hfield(f),m,n,k,(u64)t,(u64)ia,(u64)ib,mc::hstr(st)}),[&]{ MCm.junk(); MCm.set(C); MCm.keep(); },[&]{ if constexpr(std::is_same<Cut,Sequential_>::value) pfgemm(f,TR_[ta],TR_[tb],m,n,k,ea,pa,lda,pb,ldb,eb,pc,ldc,(size_t)(ia%2?nt:0)); else { ParSeqHelper::Parallel<Cut,Par> H(nt); PAR_BLOCK { fgemm(f,TR_[ta],TR_[tb],m,n,k,ea,pa,lda,pb,ldb,eb,pc,ldc,H); } } },[&]{ expect_out((std::string("fgemm/")+st).c_str(),MCm,W,"C"); expect_same("fgemm",MA,"A"); expect_same("fgemm",MB,"B"); }); if(m==3&&n==2&&k==4) mc::sample_here(); }
template<class F> static void gemmall(const F&f,int nt,size_t m,size_t n,size_t k,int t,int ia,int ib,int dev,int fk=FHASH){
    gemm<F,Block,Threads>("Block/Threads",f,nt,m,n,k,t,ia,ib,dev,fk); gemm<F,Recursive,ThreeDAdaptive>("ThreeDAdaptive",f,nt,m,n,k,t,ia,ib,dev,fk); gemm<F,Recursive,TwoDAdaptive>("TwoDAdaptive",f,nt,m,n,k,t,ia,ib,dev,fk); gemm<F,Recursive,TwoD>("TwoD",f,nt,m,n,k,t,ia,ib,dev,fk); gemm<F,Recursive,ThreeD>("ThreeD",f,nt,m,n,k,t,ia,ib,dev,fk); gemm<F,Recursive,ThreeDInPlace>("ThreeDInPlace",f,nt,m,n,k,t,ia,ib,dev,fk); if constexpr(!MP) gemm<F,Sequential_,Threads>("pfgemm",f,nt,m,n,k,t,ia,ib,dev,fk); }
template<class F> static void gemms(const char*nm,F*fp,size_t D,std::vector<int> nts,std::vector<int> ias,std::vector<int> ibs){ mc::group(std::string("fgemm/")+nm,(D+1)*(D+1),[=](u64 c){ const F&f=*fp; size_t m=c/(D+1),n=c%(D+1); for(size_t k=0;k<=D;k++) for(int nt:nts) for(int t=0;t<4;t++) for(int ia:ias) for(int ib:ibs) gemmall(f,nt,m,n,k,t,ia,ib,0); }); }
template<class F> static void gemmbig(const char*nm,F*fp,std::vector<size_t> ds,std::vector<int> nts,int dev){ size_t q=ds.size(); mc::group(std::string("fgemm-big/")+nm,q*q*q,[=](u64 c){ size_t m=ds[c/(q*q)],n=ds[c/q%q],k=ds[c%q]; for(int nt:nts) for(int fk:{FHASH,FHI}) gemmall(*fp,nt,m,n,k,(m+n+k)%4,1+(m+k)%2*3,(n+k)%3==0?0:(n+k)%3==1?1:4,dev,fk); }); }
template<class F> static void gemmsched(const char*nm,F*fp,std::vector<size_t> ds,std::vector<int> nts,int dev){ size_t q=ds.size(); mc::group(std::string("fgemm-schedules/")+nm,q*q*q*7*nts.size(),[=](u64 c){ int w=c%7; c/=7; int nt=nts[c%nts.size()]; c/=nts.size(); const F&f=*fp; size_t m=ds[c/(q*q)],n=ds[c/q%q],k=ds[c%q]; int t=(m+n+k)%4; switch(w){ case 0: gemm<F,Block,Threads>("Block/Threads",f,nt,m,n,k,t,4,4,dev); break; case 1: gemm<F,Recursive,ThreeDAdaptive>("ThreeDAdaptive",f,nt,m,n,k,t,4,4,dev); break; case 2: gemm<F,Recursive,TwoDAdaptive>("TwoDAdaptive",f,nt,m,n,k,t,4,4,dev); break; case 3: gemm<F,Recursive,TwoD>("TwoD",f,nt,m,n,k,t,4,4,dev); break; case 4: gemm<F,Recursive,ThreeD>("ThreeD",f,nt,m,n,k,t,4,4,dev); break; case 5: gemm<F,Recursive,ThreeDInPlace>("ThreeDInPlace",f,nt,m,n,k,t,4,4,dev); break; default: if constexpr(!MP) gemm<F,Sequential_,Threads>("pfgemm",f,nt,m,n,k,t,4,4,dev); } }); }
// parallel Strassen-Winograd schedule (C = alpha A B, the caller reduces the lazy result)
template<class F> static void winopar(const char*nm,F*fp,std::vector<size_t> ds,std::vector<int> nts,int dev,const char*sx=""){ std::string sg=std::string("fgemm/WinogradPar")+sx; size_t q=ds.size(); mc::group(std::string("fgemm-winopar/")+nm,q*q*q,[=](u64 c){ typedef typename FT<F>::N N; const F&f=*fp; auto R=ring(f); size_t m=ds[c/(q*q)],n=ds[c/q%q],k=ds[c%q]; for(int w=1;w<3;w++) if((m>>w)&&(n>>w)&&(k>>w)) for(int nt:nts)for(int t=0;t<4;t++){ int ta=t>>1,tb=t&1; RM<N> A=fill(f,FHI,ta?k:m,ta?m:k,11),B=fill(f,FHASH,tb?n:k,tb?k:n,12); size_t lda=ldim(A.n,1),ldb=ldim(B.n,2),ldc=ldim(n,1); MC_CASE("parallel fgemm WinogradPar levels="<<w<<" threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" m="<<m<<" n="<<n<<" k="<<k<<" ta="<<ta<<" tb="<<tb); Mat<F> MA(f,A.m,A.n,lda),MB(f,B.m,B.n,ldb),MCm(f,m,n,ldc); MA.set(A);MB.set(B);MA.keep();MB.keep(); RM<N> W=mul(R,ta?tr(A):A,tb?tr(B):B),Z(m,n); auto*pa=MA.ptr(),*pb=MB.ptr(),*pc=MCm.ptr();
    explore(sg,nt,w==1?dev:0,hmany({hfield(f),m,n,k,(u64)t,(u64)w}),[&]{ MCm.junk(); MCm.set(Z); MCm.keep(); },[&]{ PAR_BLOCK { typedef ParSeqHelper::Parallel<Recursive,TwoDAdaptive> PS; MMHelper<F,MMHelperAlgo::WinogradPar,ModeCategories::LazyTag,PS> H(f,w,PS(nt)); fgemm(f,TR_[ta],TR_[tb],m,n,k,f.one,pa,lda,pb,ldb,f.zero,pc,ldc,H); } freduce(f,m,n,pc,ldc); },[&]{ expect_out(sg.c_str(),MCm,W,"C"); expect_same("fgemm",MA,"A"); expect_same("fgemm",MB,"B"); }); } }); }
// product over the integers, the residues in parallel and each product parallel or not
template<class Sub> static void rnscomp(const char*st,ZRing<Integer>*fp,int dev){ mc::group(std::string("fgemm-rns/")+st,27*4,[=](u64 c){ typedef ZRing<Integer> F; const F&f=*fp; auto R=ring(f); int n1=1+c%4; c/=4; size_t m=c/9,n=c/3%3,k=c%3; for(int n2:{1,3})for(int t=0;t<4;t++)for(int ib:{0,1,4})for(int bits=0;bits<(ib==1?1:2);bits++){ int ta=t>>1,tb=t&1; Integer al=scalar(f,4),be=scalar(f,ib); RM<Integer> A=fill(f,FHASH,ta?k:m,ta?m:k,11),B=fill(f,FHASH,tb?n:k,tb?k:n,12),C=fill(f,FHASH,m,n,13); if(bits){ for(auto&x:A.a) x=x*x*x-7; for(auto&x:B.a) x=5-x*x; } size_t lda=ldim(A.n,1),ldb=ldim(B.n,2),ldc=ldim(n,1);
    MC_CASE("parallel fgemm over the integers, residues on "<<n1<<" threads, each product "<<st<<" on "<<n2<<" m="<<m<<" n="<<n<<" k="<<k<<" ta="<<ta<<" tb="<<tb<<" beta="<<be<<" A="<<str(A)<<" B="<<str(B));
    Mat<F> MA(f,A.m,A.n,lda),MB(f,B.m,B.n,ldb),MCm(f,m,n,ldc); MA.set(A);MB.set(B);MA.keep();MB.keep(); RM<Integer> W=add(R,scal(R,al,mul(R,ta?tr(A):A,tb?tr(B):B)),scal(R,be,C)); auto*pa=MA.ptr(),*pb=MB.ptr(),*pc=MCm.ptr();
    explore(std::string("fgemm-rns/")+st,n1*n2,(t==1&&ib==4)?dev:0,hmany({m,n,k,(u64)t,(u64)ib,(u64)bits,(u64)n2,mc::hstr(st)}),[&]{ MCm.junk(); MCm.set(C); MCm.keep(); },[&]{ PAR_BLOCK { typedef ParSeqHelper::Compose<ParSeqHelper::Parallel<RNSModulus,Threads>,Sub> PS; PS ps(n1,n2); MMHelper<F,MMHelperAlgo::Classic,ModeCategories::ConvertTo<ElementCategories::RNSElementTag>,PS> H(f,-1,ps); fgemm(f,TR_[ta],TR_[tb],m,n,k,al,pa,lda,pb,ldb,be,pc,ldc,H); } },[&]{ expect_out((std::string("fgemm-rns/")+st).c_str(),MCm,W,"C"); expect_same("fgemm-rns",MA,"A"); expect_same("fgemm-rns",MB,"B"); }); } }); }
// ---- matrix vector ---------------------------------------------------------------------------------------
template<class F,class Cut,class Par> static void gemv(const char*st,const F&f,int nt,size_t m,size_t n,int t,int ia,int ib,int ix,int iy,int dev){ typedef typename FT<F>::N N; auto R=ring(f); N al=scalar(f,ia),be=scalar(f,ib); RM<N> A=fill(f,FHASH,m,n,21),X=fill(f,FHASH,t?m:n,1,22),Y=fill(f,FHASH,t?n:m,1,23); size_t lda=ldim(n,2);
    MC_CASE("parallel fgemv "<<st<<" threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" m="<<m<<" n="<<n<<" trans="<<t<<" alpha="<<al<<" beta="<<be<<" incX="<<ix<<" incY="<<iy);
    Mat<F> MA(f,m,n,lda); Vec<F> VX(f,X.m,ix),VY(f,Y.m,iy); MA.set(A);VX.set(X);MA.keep();VX.keep(); RM<N> W=add(R,scal(R,al,mul(R,t?tr(A):A,X)),scal(R,be,Y)); auto ea=elt(f,al),eb=elt(f,be); auto*pa=MA.ptr(),*px=VX.ptr(),*py=VY.ptr();
    explore(std::string("fgemv/")+st,nt,dev,hmany({hfield(f),m,n,(u64)t,(u64)ia,(u64)ib,(u64)ix,(u64)iy,mc::hstr(st)}),[&]{ VY.M.junk(); VY.set(Y); VY.keep(); },[&]{ ParSeqHelper::Parallel<Cut,Par> H(nt); PAR_BLOCK { fgemv(f,TR_[t],m,n,ea,pa,lda,px,ix,eb,py,iy,H); } },[&]{ expect_out((std::string("fgemv/")+st).c_str(),VY,W,"Y"); expect_same("fgemv",MA,"A"); expect_same("fgemv",VX,"X"); }); }
template<class F> static void gemvs(const char*nm,F*fp,size_t D,std::vector<int> nts,int dev){ mc::group(std::string("fgemv/")+nm,(D+1)*(D+1),[=](u64 c){ size_t m=c/(D+1),n=c%(D+1); for(int nt:nts)for(int t=0;t<2;t++)for(int ia:{1,4})for(int ib:{0,1,4})for(int i=0;i<2;i++){ int ix=i?2:1,iy=i?3:1,d=(ia==4&&ib==4&&i)?dev:0; gemv<F,Recursive,Threads>("Recursive",*fp,nt,m,n,t,ia,ib,ix,iy,d); gemv<F,Row,Threads>("Row/Threads",*fp,nt,m,n,t,ia,ib,ix,iy,d); gemv<F,Row,Grain>("Row/Grain",*fp,nt,m,n,t,ia,ib,ix,iy,d); } }); }
// ---- triangular solve --------------------------------------------------------------------------------------
template<class F,class Call> static void trsm1(const char*st,const F&f,int nt,size_t m,size_t n,int sd,int ul,int t,int dg,int ia,int dev,Call call){ typedef typename FT<F>::N N; auto R=ring(f); N al=scalar(f,ia); size_t k=sd?n:m; RM<N> A=fill(f,FHASH,k,k,31),X=fill(f,FHASH,m,n,32); for(size_t i=0;i<k;i++) if(R.zero(A(i,i))) A(i,i)=N(1); RM<N> Tm(k,k); for(size_t i=0;i<k;i++)for(size_t j=0;j<k;j++){ bool in=ul?j<i:j>i; if(in) Tm(i,j)=A(i,j); else if(i==j) Tm(i,i)=dg?R.red(N(1)):A(i,i); } if(t) Tm=tr(Tm);
    // B such that the solution of op(A) Y = al B is al X
    RM<N> B=sd?mul(R,X,Tm):mul(R,Tm,X),W=scal(R,al,X); size_t lda=ldim(k,1),ldb=ldim(n,2);
    MC_CASE("parallel ftrsm "<<st<<" threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" m="<<m<<" n="<<n<<" "<<(sd?"Right ":"Left ")<<(ul?"Lower ":"Upper ")<<(t?"Trans ":"NoTrans ")<<(dg?"Unit":"NonUnit")<<" alpha="<<al);
    Mat<F> MA(f,k,k,lda),MB(f,m,n,ldb); MA.set(A);MA.keep(); auto ea=elt(f,al); auto*pa=MA.ptr(),*pb=MB.ptr();
    explore(std::string("ftrsm/")+st,nt,dev,hmany({hfield(f),m,n,(u64)sd,(u64)ul,(u64)t,(u64)dg,(u64)ia,mc::hstr(st)}),[&]{ MB.junk(); MB.set(B); MB.keep(); },[&]{ call(SD_[sd],UL_[ul],TR_[t],DG_[dg],ea,pa,lda,pb,ldb); },[&]{ expect_out((std::string("ftrsm/")+st).c_str(),MB,W,"B"); bool r=true; if(MA.get(r)!=A) mc::fail("ftrsm/input-modified","A modified"); }); }
template<class F> static void trsms(const char*nm,F*fp,size_t D,std::vector<int> nts,int dev){ mc::group(std::string("ftrsm/")+nm,(D+1)*(D+1)*4,[=](u64 c){ const F&f=*fp; int sd=c&1,ul=(c>>1)&1; c/=4; size_t m=c/(D+1),n=c%(D+1); for(int nt:nts)for(int t=0;t<2;t++)for(int dg=0;dg<2;dg++)for(int ia:{1,4}){ int d=ia==4&&t==dg?dev:0;
    trsm1("Iterative/Block",f,nt,m,n,sd,ul,t,dg,ia,d,[&](FFLAS_SIDE s,FFLAS_UPLO u,FFLAS_TRANSPOSE tt,FFLAS_DIAG dd,typename F::Element ea,typename F::Element*pa,size_t lda,typename F::Element*pb,size_t ldb){ ParSeqHelper::Parallel<Block,Threads> H(nt); PAR_BLOCK { ftrsm(f,s,u,tt,dd,m,n,ea,pa,lda,pb,ldb,H); } });
    trsm1("Hybrid",f,nt,m,n,sd,ul,t,dg,ia,d,[&](FFLAS_SIDE s,FFLAS_UPLO u,FFLAS_TRANSPOSE tt,FFLAS_DIAG dd,typename F::Element ea,typename F::Element*pa,size_t lda,typename F::Element*pb,size_t ldb){ if(!m||!n) return; ParSeqHelper::Parallel<Block,Threads> H(nt); TRSMHelper<StructureHelper::Hybrid,ParSeqHelper::Parallel<Block,Threads>> PH(H); PAR_BLOCK { ftrsm(f,s,u,tt,dd,m,n,ea,pa,lda,pb,ldb,PH); } });
    trsm1("Recursive",f,nt,m,n,sd,ul,t,dg,ia,d,[&](FFLAS_SIDE s,FFLAS_UPLO u,FFLAS_TRANSPOSE tt,FFLAS_DIAG dd,typename F::Element ea,typename F::Element*pa,size_t lda,typename F::Element*pb,size_t ldb){ ParSeqHelper::Parallel<Block,Threads> H(nt); TRSMHelper<StructureHelper::Recursive,ParSeqHelper::Parallel<Block,Threads>> PH(H); PAR_BLOCK { ftrsm(f,s,u,tt,dd,m,n,ea,pa,lda,pb,ldb,PH); } }); } }); }
// ---- symmetric update and factorisation --------------------------------------------------------------------
template<class F> static void syrks(const char*nm,F*fp,size_t D,std::vector<int> nts,int dev){ mc::group(std::string("fsyrk/")+nm,(D+1)*(D+1),[=](u64 c){ typedef typename FT<F>::N N; const F&f=*fp; auto R=ring(f); size_t n=c/(D+1),k=c%(D+1); for(int nt:nts)for(int t=0;t<2;t++)for(int up=0;up<2;up++)for(int ia:{1,4})for(int ib:{0,4}){ N a=scalar(f,ia),b=scalar(f,ib); size_t am=t?k:n,an=t?n:k,lda=ldim(an,1),ldc=ldim(n,2); auto A=fill(f,FHASH,am,an,41),C0=fill(f,FHASH,n,n,42),D_=fill(f,FHASH,k,1,43); for(auto&x:D_.a) if(R.zero(x)) x=N(1);
    auto AD=A; for(size_t i=0;i<am;i++)for(size_t j=0;j<an;j++) AD(i,j)=R.mul(A(i,j),D_.a[t?i:j]); auto W=add(R,scal(R,a,mul(R,t?tr(AD):AD,t?A:tr(A))),scal(R,b,C0)); MC_CASE("parallel fsyrk with diagonal, threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" n="<<n<<" k="<<k<<" "<<(up?"Upper ":"Lower ")<<(t?"Trans":"NoTrans")<<" alpha="<<a<<" beta="<<b);
    Mat<F> MA(f,am,an,lda),MC(f,n,n,ldc); Vec<F> VD(f,k,2); VD.set(D_);VD.keep(); auto ea=elt(f,a),eb=elt(f,b); auto*pa=MA.ptr(),*pd=VD.ptr(),*pc=MC.ptr();
    explore("fsyrk",nt,(ia==4&&ib==4)?dev:0,hmany({hfield(f),n,k,(u64)t,(u64)up,(u64)ia,(u64)ib}),[&]{ MA.junk();MC.junk(); MA.set(A);MC.set(C0);MA.keep();MC.keep(); },[&]{ ParSeqHelper::Parallel<Block,Threads> H(nt); PAR_BLOCK { fsyrk(f,up?FflasUpper:FflasLower,TR_[t],n,k,ea,pa,lda,pd,(size_t)2,eb,pc,ldc,H,(size_t)1); } },[&]{ bool r=true; for(size_t i=0;i<n;i++)for(size_t j=0;j<n;j++) if(up?j>=i:j<=i) if(val(MC.cx,MC.at(i,j),r)!=W(i,j)) mc::fail("fsyrk","C is wrong"); if(!r) mc::fail("fsyrk/unreduced","C unreduced"); if(!MC.frame_ok()) mc::fail("fsyrk/frame","padding of C modified"); if(n) expect_out("fsyrk",MA,AD,"A (scaled in place)"); }); } }); }
template<class F> static void sytrfs(const char*nm,F*fp,size_t D,std::vector<int> nts,int salts,int dev){ mc::group(std::string("fsytrf/")+nm,(D+1)*salts,[=](u64 c){ typedef typename FT<F>::N N; const F&f=*fp; auto R=ring(f); size_t n=c/salts; int salt=c%salts; auto L=fill(f,FHASH,n,n,50+salt); RM<N> Dg(n,n); for(size_t i=0;i<n;i++){ for(size_t j=i;j<n;j++) L(i,j)=i==j?N(1):N(0); Dg(i,i)=fill(f,FHASH,1,1,60+i+salt*7).a[0]; if(R.zero(Dg(i,i))) Dg(i,i)=N(1); } auto A=mul(R,mul(R,L,Dg),tr(L)); bool want=true; if(salt==1&&n){ A(n/2,n/2)=R.sub(A(n/2,n/2),Dg(n/2,n/2)); want=false; }
    for(int nt:nts)for(int up=0;up<2;up++){ MC_CASE("parallel fsytrf "<<(up?"Upper":"Lower")<<" threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" n="<<n<<" A="<<str(A)); size_t lda=ldim(n,1); Mat<F> M(f,n,n,lda); auto*pa=M.ptr(); bool ok=false; bool*po=&ok;
      explore("fsytrf",nt,n<=5?dev:0,hmany({hfield(f),n,(u64)salt,(u64)up}),[&]{ M.junk();M.set(A);M.keep(); },[&]{ ParSeqHelper::Parallel<Block,Threads> H(nt); PAR_BLOCK { *po=FFPACK::fsytrf(f,up?FflasUpper:FflasLower,n,pa,lda,H,(size_t)2); } },[&]{ if(ok!=want) mc::fail("fsytrf/status","wrong status"); if(!M.frame_ok()) mc::fail("fsytrf/frame","padding modified"); if(!ok) return; bool red=true; RM<N> U(n,n),Dd(n,n); for(size_t i=0;i<n;i++){ Dd(i,i)=val(M.cx,M.at(i,i),red); for(size_t j=i;j<n;j++) U(i,j)=i==j?N(1):(up?val(M.cx,M.at(i,j),red):val(M.cx,M.at(j,i),red)); } auto P=mul(R,mul(R,tr(U),Dd),U); if(P!=A) mc::fail("fsytrf","the factors do not reproduce A, product="+str(P)); if(!red) mc::fail("fsytrf/unreduced","unreduced"); }); } }); }
// ---- permutations, elementwise -----------------------------------------------------------------------------
template<class F> static void perms(const char*nm,F*fp,std::vector<int> nts,int dev){ mc::group(std::string("applyP/")+nm,6*6,[=](u64 c){ const F&f=*fp; auto R=ring(f); size_t n=c/6,w=c%6; u64 tot=1; for(size_t i=2;i<=n;i++) tot*=i; for(u64 q=0;q<tot;q++) for(int sd=0;sd<2;sd++)for(int t=0;t<2;t++)for(int nt:nts){ std::vector<size_t> P(n+1); u64 z=q; for(size_t i=0;i<n;i++){ size_t s=n-i; P[i]=i+z%s; z/=s; } size_t m=sd?w:n,nn=sd?n:w,lda=ldim(nn,1); auto A=fill(f,FIDX,m,nn,3); MC_CASE("parallel applyP "<<(sd?"Right ":"Left ")<<(t?"Trans":"NoTrans")<<" threads="<<nt<<" over "<<FT<F>::name()<<" n="<<n<<" other dimension="<<w<<" P="<<str(P)); Mat<F> S(f,m,nn,lda),M(f,m,nn,lda); S.set(A); FFPACK::applyP(f,SD_[sd],TR_[t],w,0,n,S.ptr(),lda,P.data()); bool r=true; auto W=S.get(r); auto*pa=M.ptr(); auto*pp=P.data();
      explore("applyP",nt,q<6?dev:0,hmany({hfield(f),n,w,q,(u64)sd,(u64)t}),[&]{ M.junk();M.set(A);M.keep(); },[&]{ ParSeqHelper::Parallel<Block,Threads> H(nt); PAR_BLOCK { FFPACK::applyP(f,SD_[sd],TR_[t],w,(size_t)0,n,pa,lda,pp,H); } },[&]{ expect_out("applyP",M,W,"A"); }); } });
    mc::group(std::string("ApplyST/")+nm,5*5*5,[=](u64 c){ const F&f=*fp; size_t M2=c%5,rest=(c/5)%5,wd=c/25; for(size_t r1=0;r1<=M2;r1++)for(size_t r2=0;r2<=rest;r2++)for(size_t r3=0;r1+r3<=M2&&r3<=M2;r3++)for(size_t r4=0;r2+r4<=rest;r4++)for(int T_=0;T_<2;T_++)for(int nt:nts){
      // S needs R1+R2<=M2, R3+R4 rows below; T needs R1+R3<=N2, R2+R4 columns beyond
      size_t a=T_?r2:r3,b=T_?r3:r2; size_t R2=T_?a:b>M2-r1?M2-r1:b,R3=T_?b:a; if(!T_&&R3+r4>rest) continue; if(T_&&R2+r4>rest) continue; size_t len=M2+rest; size_t m=T_?wd:len,nn=T_?len:wd,lda=ldim(nn,1); auto A=fill(f,FIDX,m,nn,3); MC_CASE("parallel MatrixApply"<<(T_?"T":"S")<<" threads="<<nt<<" over "<<FT<F>::name()<<" width="<<wd<<" M2="<<M2<<" R1="<<r1<<" R2="<<R2<<" R3="<<R3<<" R4="<<r4<<" rows="<<len); Mat<F> S(f,m,nn,lda),M(f,m,nn,lda); S.set(A); if(T_) FFPACK::MatrixApplyT(f,S.ptr(),lda,wd,M2,r1,R2,R3,r4); else FFPACK::MatrixApplyS(f,S.ptr(),lda,wd,M2,r1,R2,R3,r4); bool r=true; auto W=S.get(r); auto*pa=M.ptr();
      explore("MatrixApplyST",nt,0,hmany({hfield(f),M2,rest,wd,r1,R2,R3,r4,(u64)T_}),[&]{ M.junk();M.set(A);M.keep(); },[&]{ ParSeqHelper::Parallel<Block,Threads> H(nt); PAR_BLOCK { if(T_) FFPACK::MatrixApplyT(f,pa,lda,wd,M2,r1,R2,R3,r4,H); else FFPACK::MatrixApplyS(f,pa,lda,wd,M2,r1,R2,R3,r4,H); } },[&]{ expect_out("MatrixApplyST",M,W,"A"); }); } }); }
template<class F,class Cut,class Par> static void dots(const char*st,const char*nm,F*fp,size_t D,std::vector<int> nts,int dev){ mc::group(std::string("fdot/")+st+"/"+nm,D+1,[=](u64 c){ typedef typename FT<F>::N N; const F&f=*fp; auto R=ring(f); size_t n=c; for(int nt:nts)for(int i=0;i<2;i++){ int ix=i?2:1,iy=i?3:1; auto X=fill(f,FHASH,n,1,70),Y=fill(f,FHASH,n,1,71); N w=0; for(size_t j=0;j<n;j++) w=R.add(w,R.mul(X.a[j],Y.a[j])); MC_CASE("parallel fdot "<<st<<" threads="<<nt<<" over "<<FT<F>::name()<<" n="<<n<<" incs "<<ix<<","<<iy); Vec<F> VX(f,n,ix),VY(f,n,iy); VX.set(X);VY.set(Y);VX.keep();VY.keep(); typename F::Element d; auto*pd=&d; auto*px=VX.ptr(),*py=VY.ptr();
      explore(std::string("fdot/")+st,nt,dev,hmany({hfield(f),n,(u64)i,mc::hstr(st)}),[&]{ f.init(d); },[&]{ ParSeqHelper::Parallel<Cut,Par> H(nt); *pd=fdot(f,n,px,ix,py,iy,H); },[&]{ bool r=true; if(val(f,d,r)!=w) mc::fail(std::string("fdot/")+st,"wrong dot product"); if(!r) mc::fail("fdot/unreduced","unreduced"); expect_same("fdot",VX,"x"); expect_same("fdot",VY,"y"); }); } }); }
template<class F> static void elems(const char*nm,F*fp,size_t D,std::vector<int> nts,int dev){ mc::group(std::string("elementwise/")+nm,(D+1)*(D+1),[=](u64 c){ typedef typename FT<F>::N N; const F&f=*fp; auto R=ring(f); size_t m=c/(D+1),n=c%(D+1); for(int nt:nts)for(int op=0;op<6;op++){ static const char*on[]={"pfadd","pfsub","pfaddin","pfsubin","pfreduce","pfzero"}; auto A=fill(f,FHASH,m,n,80),B=fill(f,FHASH,m,n,81),C=fill(f,FHASH,m,n,82); RM<N> W(m,n); for(size_t i=0;i<W.a.size();i++) W.a[i]=op==0?R.add(A.a[i],B.a[i]):op==1?R.sub(A.a[i],B.a[i]):op==2?R.add(C.a[i],B.a[i]):op==3?R.sub(C.a[i],B.a[i]):op==4?C.a[i]:N(0); size_t ld=ldim(n,1),ldc=op==5?ldim(n,0):ldim(n,2); MC_CASE(on[op]<<" threads="<<nt<<" over "<<FT<F>::name()<<" m="<<m<<" n="<<n); Mat<F> MA(f,m,n,ld),MB(f,m,n,ld),MC(f,m,n,ldc); MA.set(A);MB.set(B);MA.keep();MB.keep(); auto*pa=MA.ptr(),*pb=MB.ptr(),*pc=MC.ptr();
      explore(on[op],nt,dev,hmany({hfield(f),m,n,(u64)op}),[&]{ MC.junk();MC.set(C); if(op==4) for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++) if((i+j)%3==1) MC.at(i,j)+=(typename F::Element)R.p; MC.keep(); },[&]{ size_t th=nt; PAR_BLOCK { switch(op){ case 0: pfadd(f,m,n,pa,ld,pb,ld,pc,ldc,th); break; case 1: pfsub(f,m,n,pa,ld,pb,ld,pc,ldc,th); break; case 2: pfaddin(f,m,n,pb,ld,pc,ldc,th); break; case 3: pfsubin(f,m,n,pb,ld,pc,ldc,th); break; case 4: pfreduce(f,m,n,pc,ldc,th); break; default: pfzero(f,m,n,pc,(size_t)2); } } },[&]{ if(m*n) expect_out(on[op],MC,W,"C"); expect_same(on[op],MA,"A"); expect_same(on[op],MB,"B"); }); } }); }
// ---- elimination ---------------------------------------------------------------------------------------------
template<class N> static void rowsperm(RM<N>&L,const std::vector<size_t>&P,size_t cnt){ for(size_t q=cnt;q-->0;){ size_t j=P[q]; if(j<q||j>=L.m) mc::fail("PLUQ/perm","permutation out of range"); if(j!=q) for(size_t c=0;c<L.n;c++) std::swap(L(q,c),L(j,c)); } }
template<class F> static void pluq(const F&f,const RM<typename FT<F>::N>&A,size_t pad,int nt,int how,int dev){ typedef typename FT<F>::N N; auto R=ring(f); size_t m=A.m,n=A.n,lda=ldim(n,pad),rk=rank_(R,A); int dg=how&1,wrap=how>>1; MC_CASE("parallel "<<(wrap?"pPLUQ ":"PLUQ ")<<(dg?"Unit":"NonUnit")<<" threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" m="<<m<<" n="<<n<<" lda="<<lda<<" A="<<shortm(A)); Mat<F> M(f,m,n,lda); std::vector<size_t> P(m+1),Q(n+1); size_t r=0,*pr=&r,*pP=P.data(),*pQ=Q.data(); auto*pa=M.ptr();
    explore("PLUQ",nt,dev,hmany({hfield(f),hmat(A),pad,(u64)how}),[&]{ M.junk();M.set(A);M.keep(); P.assign(m+1,777);Q.assign(n+1,777); },[&]{ if(wrap) *pr=FFPACK::pPLUQ(f,DG_[dg],m,n,pa,lda,pP,pQ); else { ParSeqHelper::Parallel<Recursive,Threads> H(nt); PAR_BLOCK { *pr=FFPACK::PLUQ(f,DG_[dg],m,n,pa,lda,pP,pQ,H); } } },[&]{
      if(r!=rk) mc::fail("PLUQ/rank","returned rank "+std::to_string(r)+" instead of "+std::to_string(rk)); if(P[m]!=777||Q[n]!=777) mc::fail("PLUQ/perm","permutation array written beyond its end"); if(!M.frame_ok()) mc::fail("PLUQ/frame","memory outside A modified"); bool red=true; RM<N> L(m,r),U(r,n); for(size_t i=0;i<m;i++)for(size_t j=0;j<r;j++) if(j<i) L(i,j)=val(M.cx,M.at(i,j),red); else if(i==j) L(i,j)=dg?val(M.cx,M.at(i,j),red):N(1); for(size_t i=0;i<r;i++)for(size_t j=i;j<n;j++) U(i,j)=(i==j&&dg)?N(1):val(M.cx,M.at(i,j),red); for(size_t i=0;i<r;i++) if(R.zero(dg?L(i,i):U(i,i))) mc::fail("PLUQ/pivot","zero pivot"); if(!red) mc::fail("PLUQ/unreduced","unreduced factors"); rowsperm(L,P,m); auto Ut=tr(U); rowsperm(Ut,Q,n); if(mul(R,L,tr(Ut))!=A) mc::fail("PLUQ","P L U Q differs from the input"); }); }
template<class F> static void derived(const F&f,const RM<typename FT<F>::N>&A,size_t pad,int nt,int dev){ typedef typename FT<F>::N N; auto R=ring(f); size_t m=A.m,n=A.n,lda=ldim(n,pad),rk=rank_(R,A); Mat<F> M(f,m,n,lda); auto*pa=M.ptr(); auto prep=[&]{ M.junk();M.set(A);M.keep(); }; std::ostringstream ds; ds<<" threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" m="<<m<<" n="<<n<<" A="<<shortm(A); std::string desc=ds.str(); u64 hs=hmany({hfield(f),hmat(A),pad}); size_t r=0,*pr=&r;
    { MC_CASE("pRank"<<desc); explore("pRank",nt,dev,hs+1,prep,[&]{ *pr=FFPACK::pRank(f,m,n,pa,lda,(size_t)nt); },[&]{ if(r!=rk) mc::fail("pRank","returned "+std::to_string(r)+" instead of "+std::to_string(rk)); if(!M.frame_ok()) mc::fail("pRank/frame","padding modified"); }); }
    for(int row=0;row<2;row++){ MC_CASE((row?"pRowRankProfile":"pColumnRankProfile")<<desc); auto want=row?rowprofile(R,A):colprofile(R,A); size_t*prof=nullptr,**pp=&prof; std::vector<size_t> got; std::vector<size_t>*pg=&got; explore(row?"pRowRankProfile":"pColumnRankProfile",nt,dev,hs+2+row,prep,[&]{ *pr=row?FFPACK::pRowRankProfile(f,m,n,pa,lda,*pp,(size_t)nt):FFPACK::pColumnRankProfile(f,m,n,pa,lda,*pp,(size_t)nt); },[&]{ if(r!=rk) mc::fail("pRankProfile","wrong rank"); for(size_t i=0;i<rk;i++) if(prof[i]!=want[i]) mc::fail("pRankProfile","wrong profile"); if(!M.frame_ok()) mc::fail("pRankProfile/frame","padding modified"); }); (void)pg; }
    for(int row=0;row<2;row++)for(int red=0;red<2;red++)for(int trf=0;trf<2;trf++){ const char*sig=red?(row?"pReducedRowEchelonForm":"pReducedColumnEchelonForm"):(row?"pRowEchelonForm":"pColumnEchelonForm"); MC_CASE(sig<<" transform="<<trf<<desc); size_t pn=row?m:n,qn=row?n:m; std::vector<size_t> P(pn+1),Q(qn+1); auto*pP=P.data(),*pQ=Q.data(); explore(sig,nt,dev,hs+8+row+2*red+4*trf,[&]{ prep(); P.assign(pn+1,1000003);Q.assign(qn+1,1000003); },[&]{ *pr=red?(row?FFPACK::pReducedRowEchelonForm(f,m,n,pa,lda,pP,pQ,(bool)trf,(size_t)nt):FFPACK::pReducedColumnEchelonForm(f,m,n,pa,lda,pP,pQ,(bool)trf,(size_t)nt)):(row?FFPACK::pRowEchelonForm(f,m,n,pa,lda,pP,pQ,(bool)trf,(size_t)nt):FFPACK::pColumnEchelonForm(f,m,n,pa,lda,pP,pQ,(bool)trf,(size_t)nt)); },[&]{
        if(r!=rk) mc::fail(std::string(sig)+"/rank","returned rank "+std::to_string(r)+" instead of "+std::to_string(rk)); if(!M.frame_ok()) mc::fail(std::string(sig)+"/frame","padding modified"); FFLAS_UPLO ul=row?FflasUpper:FflasLower; size_t ldt=ldim(n,0); Mat<F> T(f,m,n,ldt); if(red) FFPACK::getReducedEchelonForm(f,ul,m,n,r,pQ,pa,lda,T.ptr(),ldt,false,FFPACK::FfpackTileRecursive); else FFPACK::getEchelonForm(f,ul,FflasUnit,m,n,r,pQ,pa,lda,T.ptr(),ldt,false,FFPACK::FfpackTileRecursive); bool ok=true; auto E0=T.get(ok); if(!ok) mc::fail(std::string(sig)+"/unreduced","unreduced"); auto E=row?E0:tr(E0); auto B=row?A:tr(A); if(rref(R,E)!=rref(R,B)||(red&&E!=rref(R,B))) mc::fail(sig,"wrong echelon form "+str(E)); if(trf){ size_t td=row?m:n,ld3=ldim(td,0); Mat<F> X(f,td,td,ld3); if(red) FFPACK::getReducedEchelonTransform(f,ul,m,n,r,pP,pQ,pa,lda,X.ptr(),ld3,FFPACK::FfpackTileRecursive); else FFPACK::getEchelonTransform(f,ul,FflasUnit,m,n,r,pP,pQ,pa,lda,X.ptr(),ld3,FFPACK::FfpackTileRecursive); bool o2=true; auto XX=X.get(o2); auto W=row?mul(R,XX,A):mul(R,A,XX); if(W!=E0) mc::fail(std::string(sig)+"/transform","the transformation does not map the input to the form"); } }); }
    if(m==n){ { MC_CASE("pDet"<<desc); N want=det_(R,A); typename F::Element d; auto*pd=&d; explore("pDet",nt,dev,hs+30,[&]{ prep(); f.init(d); },[&]{ FFPACK::pDet(f,*pd,n,pa,lda,(size_t)nt); },[&]{ bool ok=true; if(val(f,d,ok)!=want) mc::fail("pDet","wrong determinant"); if(!ok) mc::fail("pDet/unreduced","unreduced"); }); }
      if(rk==n&&n){ MC_CASE("pSolve"<<desc); auto X=fill(f,FHASH,n,1,91),B=mul(R,A,X); Vec<F> VX(f,n,2),VB(f,n,3); VB.set(B);VB.keep(); auto*px=VX.ptr(),*pb=VB.ptr(); explore("pSolve",nt,dev,hs+31,[&]{ prep(); VX.M.junk(); VX.keep(); },[&]{ FFPACK::pSolve(f,n,pa,lda,px,2,pb,3,(size_t)nt); },[&]{ expect_out("pSolve",VX,X,"x"); expect_same("pSolve",VB,"b"); }); } } }
template<class F> static Fn<F> PL(std::vector<int> nts,int dev){ return [=](const F&f,const RM<typename FT<F>::N>&A,size_t pad,u64 q){ int nt=nts[q%nts.size()]; pluq(f,A,pad,nt,q%4,dev); pluq(f,A,pad,nts[(q+1)%nts.size()],(q+1)%4,0); }; }
template<class F> static Fn<F> DV(std::vector<int> nts,int dev){ return [=](const F&f,const RM<typename FT<F>::N>&A,size_t pad,u64 q){ derived(f,A,pad,nts[q%nts.size()],dev); }; }
// ---- sparse products -----------------------------------------------------------------------------------------
#if FSET==7
typedef SparseMatrix_t SMT;
template<class F,class X> static X cst_(const F&f,int c,const X&){ if constexpr(std::is_same<X,int64_t>::value) return c; else return elt(f,ring(f).red(typename FT<F>::N(c))); }
template<SMT X,class F> static void spm(const char*nm,const F&f,size_t m,size_t n,const std::vector<int>&pat,size_t k,int nt,int cst,int ib,int dev){ typedef typename FT<F>::N N; auto R=ring(f); Cx<F> cx(f); const bool zo=X==SMT::CSR_ZO; if(!zo&&cst!=1) return; FFLAS::Sparse<F,X> M; size_t nnz=0; for(int v:pat) nnz+=v!=0; RM<N> D(m,n); auto dat=fflas_new(f,nnz+1); std::vector<uint32_t> row(nnz+1),col(nnz+1); { size_t q=0; for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ int v=pat[i*n+j]; if(v){ N w=R.red(zo?N(cst):v==1?N(1):v==2?N(-1):N(v*7+(int)(i*3+j))); D(i,j)=w; setval(cx,dat[q],w); row[q]=i; col[q]=j; q++; } } }
    sparse_init(f,M,(const uint32_t*)row.data(),(const uint32_t*)col.data(),dat,m,n,nnz); if constexpr(zo) M.cst=cst_(f,cst,M.cst);
    N be=ib==0?N(0):R.red(N(ib==1?1:ib==2?-1:3)); auto bel=elt(f,be); auto x=fill(f,FHASH,n,k,7),y=fill(f,FHASH,m,k,8); auto W=add(R,mul(R,D,x),scal(R,be,y)); size_t ldx=k+2,ldy=k+3; std::ostringstream ps; for(int v:pat) ps<<v;
    MC_CASE("pfspmm "<<nm<<" threads="<<nt<<" over "<<FT<F>::name()<<" p="<<R.p<<" m="<<m<<" n="<<n<<" pattern="<<ps.str()<<" blockSize="<<k<<" cst="<<cst<<" beta="<<be); Mat<F> MX(f,n,k,ldx),MY(f,m,k,ldy); MX.set(x);MX.keep(); auto*px=MX.ptr(),*py=MY.ptr(); auto*pM=&M;
    explore(std::string("pfspmm/")+nm,nt,dev,hmany({hfield(f),m,n,mc::hstr(ps.str().c_str()),k,(u64)cst,(u64)ib,(u64)X}),[&]{ MY.junk();MY.set(y);MY.keep(); },[&]{ PAR_BLOCK { pfspmm(f,*pM,k,px,(int)ldx,bel,py,(int)ldy); } },[&]{ expect_out((std::string("pfspmm/")+nm).c_str(),MY,W,"Y"); expect_same("pfspmm",MX,"X"); });
    sparse_delete(M); fflas_delete(dat); }
template<class F> static void spms(const char*nm,F*fp,size_t m,size_t n,int vals,std::vector<size_t> ks,std::vector<int> nts,int dev){ u64 tot=1; for(size_t i=0;i<m*n;i++) tot*=vals; mc::group(std::string("pfspmm/")+nm+"/"+std::to_string(m)+"x"+std::to_string(n),tot>64?64:tot,[=](u64 c){ const F&f=*fp; u64 nc=tot>64?64:tot; for(u64 q=c;q<tot;q+=nc){ std::vector<int> pat(m*n); u64 z=q; for(auto&v:pat){ v=z%vals; z/=vals; } for(size_t k:ks)for(int nt:nts)for(int ib=0;ib<4;ib++){ int d=ib==3?dev:0; spm<SMT::CSR>("CSR",f,m,n,pat,k,nt,1,ib,d); spm<SMT::HYB_ZO>("HYB_ZO",f,m,n,pat,k,nt,1,ib,d); for(int cst:{1,-1,2}) spm<SMT::CSR_ZO>("CSR_ZO",f,m,n,pat,k,nt,cst,ib,d); } } }); }
template<class F> static void spbig(const char*nm,F*fp,std::vector<std::array<size_t,2>> dims,std::vector<size_t> ks,std::vector<int> nts){ mc::group(std::string("pfspmm-big/")+nm,dims.size()*4,[=](u64 c){ const F&f=*fp; auto d=dims[c/4]; size_t m=d[0],n=d[1]; std::vector<int> pat(m*n); for(size_t i=0;i<m;i++)for(size_t j=0;j<n;j++){ u64 h=mc::hcomb(mc::hcomb(i+1,j+17),c); pat[i*n+j]=(c%4==0)?(h%4):(c%4==1)?((h%3)?0:1+h/3%3):(c%4==2)?(i%2?1+h%3:0):1+h%3; } for(size_t k:ks)for(int nt:nts)for(int ib=0;ib<4;ib++){ spm<SMT::CSR>("CSR",f,m,n,pat,k,nt,1,ib,0); spm<SMT::HYB_ZO>("HYB_ZO",f,m,n,pat,k,nt,1,ib,0); for(int cst:{1,-1,2}) spm<SMT::CSR_ZO>("CSR_ZO",f,m,n,pat,k,nt,cst,ib,0); } }); }
#endif
static void sets(){ bool T=mc::thorough(); (void)T; int dv=DEV();
#if FSET==1
    static Modular<double> d(101); static Modular<float> fm(4093); static ModularBalanced<double> b(101); static Modular<int64_t> l(3037000493LL); static Modular<int32_t> i32(101);
    gemms("Md101",&d,T?5:3,{1,2,3,5},{1,4},{0,1,4}); gemmbig("Md101",&d,{2,5,7,9},T?std::vector<int>{2,3,4,6,8,16}:std::vector<int>{4,7},0); gemmbig("Mfmax",&fm,{1,3,8},{2,4,7},0); gemmbig("Bd101",&b,{1,3,8},{3,8},0); gemmbig("Mlmax",&l,{1,3,7},{3,8},0); gemmbig("Mi101",&i32,{2,5},{4},0);
#elif FSET==2
    static Modular<double> d(101); gemmsched("Md101",&d,{2,3},{2,3,4},dv); gemmsched("Md101b",&d,{5},{2,4},1); static Modular<double> dh(94906249),dm(1000003); static ModularBalanced<float> bf(101); winopar("Md101",&d,{2,3,4,7},{1,2,4},0); winopar("Md1000003",&dm,{2,5},{3,9},0); winopar("Bf101",&bf,{3,4},{2},1); winopar("Mdmax-5x5x5",&dh,{5},{3},0,"/max-prime-5x5x5");
#elif FSET==3
    static Modular<double> d(101); static Modular<int64_t> l(3037000493LL); static ModularBalanced<float> bf(5791);
    gemvs("Md101",&d,4,{1,2,3,5},dv); gemvs("Mlmax",&l,3,{2,4},0); gemvs("Bfmax",&bf,4,{3},0); trsms("Md101",&d,4,{1,2,3,5},1); trsms("Mlmax",&l,3,{3},0); trsms("Bfmax",&bf,5,{4},0);
    syrks("Md101",&d,4,{1,2,3,5},1); syrks("Bfmax",&bf,3,{4},0); sytrfs("Md101",&d,8,{1,2,3,5},2,1); sytrfs("Bfmax",&bf,6,{4},2,0); perms("Md101",&d,{1,2,3},1);
    dots<Modular<double>,Block,Threads>("Block/Threads","Md101",&d,12,{1,2,3,5},dv); dots<Modular<double>,Row,Grain>("Row/Grain","Md101",&d,9,{1,2,3},1); dots<Modular<int64_t>,Block,Threads>("Block/Threads","Mlmax",&l,8,{3},1); elems("Md101",&d,4,{1,2,3,5},1); elems("Bfmax",&bf,3,{2},0);
#elif FSET==4
    static Modular<double> d2(2),d3(3),d101(101); static ModularBalanced<float> bf(5791); static Modular<int64_t> l(3037000493LL);
    enum_shapes("PLUQ-Md2",&d2,T?1<<16:1<<12,8,PL<Modular<double>>({2,3,4,1},0)); enum_shapes("PLUQ-Md3",&d3,T?60000:2200,4,PL<Modular<double>>({2,4},0)); enum_rpms("PLUQ-Md101",&d101,4,1,PL<Modular<double>>({3,2,5},0)); enum_rpms("PLUQ-Bfmax",&bf,3,1,PL<ModularBalanced<float>>({4},0)); enum_rpms("PLUQ-Mlmax",&l,3,1,PL<Modular<int64_t>>({4},0)); enum_big("PLUQ-Md101",&d101,{{5,6},{7,5},{8,8},{9,12}},PL<Modular<double>>({2,4,6},0));
    enum_rpm("PLUQ-sched-Md101",&d101,2,3,1,PL<Modular<double>>({2},dv)); enum_rpm("PLUQ-sched-Md101",&d101,3,3,1,PL<Modular<double>>({3},1));
#elif FSET==5
    static Modular<double> d2(2),d101(101); static ModularBalanced<float> bf(5791);
    enum_shapes("drv-Md2",&d2,T?1<<12:1<<9,5,DV<Modular<double>>({2,3},0)); enum_rpms("drv-Md101",&d101,3,1,DV<Modular<double>>({2,3,1},0)); enum_rpms("drv-Bfmax",&bf,T?3:2,1,DV<ModularBalanced<float>>({4},0)); enum_big("drv-Md101",&d101,{{5,6},{6,6}},DV<Modular<double>>({4},0)); enum_rpm("drv-sched-Md101",&d101,2,2,1,DV<Modular<double>>({2},1));
#elif FSET==6
    static Modular<Integer> z(Integer("340282366920938463463374607431768211507")); static ZRing<Integer> zz;
    gemms("MInteger",&z,2,{1,3},{4},{0,4}); gemmsched("MInteger",&z,{2},{2,3,4},1); gemms("ZInteger",&zz,2,{5},{1,4},{0,4}); rnscomp<ParSeqHelper::Sequential>("Sequential",&zz,1); rnscomp<ParSeqHelper::Parallel<Block,Threads>>("Block/Threads",&zz,1); rnscomp<ParSeqHelper::Parallel<Recursive,TwoDAdaptive>>("TwoDAdaptive",&zz,1); rnscomp<ParSeqHelper::Parallel<Recursive,ThreeD>>("ThreeD",&zz,0);
#elif FSET==7
    static Modular<double> d(101),dh(94906249); static ModularBalanced<float> bf(5791); static Modular<int64_t> l(3037000493LL); static Modular<Integer> z(Integer("340282366920938463463374607431768211507"));
    spms("Md101",&d,2,2,4,{1,4},{2,3},dv); spms("Md101",&d,3,1,4,{1},{2,3},dv); spms("Md101",&d,1,3,4,{5},{2},1); spms("Md101",&d,3,2,T?4:3,{3},{2},1);
    spbig("Md101",&d,{{3,4},{5,3},{9,7},{16,5}},{1,3,4,8,9},{1,2,4,7}); spbig("Mdmax",&dh,{{5,6},{7,9}},{3,8},{3}); spbig("Bfmax",&bf,{{5,9},{8,6}},{1,9},{3,5}); spbig("Mlmax",&l,{{5,6}},{1,5},{3}); spbig("MInteger",&z,{{5,4}},{2},{3});
#endif
}
