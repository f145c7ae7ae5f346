// Explicit-state exploration engine: forked workers claim chunks of an enumerated space, every case is
// executed on the real library and compared with a reference model.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

// the library seeds its generators (random RNS bases, checkers) from the clock: the harness owns that choice
inline long& mc_clock(){ static thread_local long t=1; return t; }
extern "C" inline __attribute__((used)) time_t time(time_t*p) noexcept { time_t t=(time_t)mc_clock(); if(p)*p=t; return t; }
extern "C" inline __attribute__((used)) int gettimeofday(struct timeval*tv,void*) noexcept { tv->tv_sec=1000+mc_clock(); tv->tv_usec=mc_clock()*7919; return 0; }
extern "C" inline __attribute__((used)) int timespec_get(struct timespec*ts,int base) noexcept { ts->tv_sec=1000+mc_clock(); ts->tv_nsec=mc_clock()*7919; return base; }
namespace mc {
typedef uint64_t u64; typedef int64_t i64;
inline u64 mix(u64 x){ x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31);}
inline u64 hcomb(u64 a,u64 b){ return mix(a*0x9ddfea08eb382d69ULL+b+0x1234567); }
inline u64 hstr(const char*s){ u64 h=1469598103934665603ULL; while(*s){h^=(unsigned char)*s++; h*=1099511628211ULL;} return h; }

static const int MAXW=16; static const size_t TXT=16384;
static const u64 TABN=1ull<<24;
struct Slot { std::atomic<u64> chunk, cases, calls, busy; volatile int failed; char txt[TXT]; char sig[512]; char desc[TXT]; };
struct Shared {
    std::atomic<u64> next, states, outcomes, samples_n, known, done;
    std::atomic<u64> gcases[256], gcalls[256];
    char sample[8][2048]; char knownsig[64][512]; std::atomic<u64> knowncnt[64];
    Slot slot[MAXW]; std::atomic<u64> tab[TABN]; std::atomic<u64> otab[1<<20];
};
struct Group { std::string name; u64 nchunks; std::function<void(u64)> fn; };
struct Engine {
    std::vector<Group> groups; Shared*sh=nullptr; Slot*me=nullptr; bool trace=false; int nworkers=8;
    const char*prop="C00"; bool thorough=false; u64 seed=1; int curgroup=0; std::set<std::string> knownset;
    double deadline=1e18; double hang=90;
};
inline Engine& E(){ static Engine e; return e; }
inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
inline bool thorough(){ return E().thorough; }

struct CaseBase { virtual void put(std::ostream&)const=0; };
inline const CaseBase*& cur(){ static const CaseBase*c=nullptr; return c; }
template<class L> struct CaseT: CaseBase { const L&l; CaseT(const L&x):l(x){ 
        Engine&e=E(); cur()=this; if(e.me){ e.me->cases.fetch_add(1,std::memory_order_relaxed);
          e.sh->gcases[e.curgroup].fetch_add(1,std::memory_order_relaxed);
          if(e.trace){ std::ostringstream o; put(o); strncpy(e.me->desc,o.str().c_str(),TXT-1); } } }
    ~CaseT(){ cur()=nullptr; }
    void put(std::ostream&o)const override{ l(o);} };
#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
// MC_CASE("fgemm m="<<m) : names the current case (evaluated lazily)
#define MC_CASE(...) auto MC_CAT(mc_l_,__LINE__)=[&](std::ostream&mc_os){ mc_os << __VA_ARGS__; }; mc::CaseT<decltype(MC_CAT(mc_l_,__LINE__))> MC_CAT(mc_c_,__LINE__)(MC_CAT(mc_l_,__LINE__))

inline void insert(std::atomic<u64>*t,u64 n,std::atomic<u64>&cnt,u64 h){ if(!h)h=1; if(cnt.load(std::memory_order_relaxed)>n/4*3) return; u64 i=mix(h)&(n-1);
    for(;;){ u64 v=t[i].load(std::memory_order_relaxed); if(v==h) return; if(v==0){ if(t[i].compare_exchange_strong(v,h)){cnt.fetch_add(1,std::memory_order_relaxed);return;} if(v==h) return; } i=(i+1)&(n-1);} }
// a distinct explored state (hash of operands + parameters)
inline void state(u64 h){ Engine&e=E(); if(e.me) insert(e.sh->tab,TABN,e.sh->states,h); }
// a distinct outcome class (non-vacuity)
inline void outcome(u64 h){ Engine&e=E(); if(e.me) insert(e.sh->otab,1<<20,e.sh->outcomes,hcomb(h,77)); }
// a library call on the real code
inline void call(u64 n=1){ Engine&e=E(); if(e.me){ e.me->calls.fetch_add(n,std::memory_order_relaxed); e.sh->gcalls[e.curgroup].fetch_add(n,std::memory_order_relaxed);} }
inline void sample_here(){ Engine&e=E(); if(!e.me||!cur()) return; u64 k=e.sh->samples_n.fetch_add(1); if(k<8){ std::ostringstream o; cur()->put(o); strncpy(e.sh->sample[k],o.str().c_str(),2047);} }

// report a failure of the current case. sig: stable signature (matched against the known-findings list).
inline bool fail(const std::string&sig,const std::string&msg){
    Engine&e=E(); std::ostringstream o; if(cur()) cur()->put(o);
    auto it=e.knownset.find(sig);
    if(it!=e.knownset.end()){
        for(int i=0;i<64;i++){ if(!strcmp(e.sh->knownsig[i],sig.c_str())){ e.sh->knowncnt[i]++; break; }
            if(!e.sh->knownsig[i][0]){ strncpy(e.sh->knownsig[i],sig.c_str(),511); e.sh->knowncnt[i]++; break; } }
        return false; }
    if(e.me){ strncpy(e.me->desc,o.str().c_str(),TXT-1); strncpy(e.me->txt,msg.c_str(),TXT-1); strncpy(e.me->sig,sig.c_str(),511); e.me->failed=1; }
    else fprintf(stderr,"FAIL %s: %s\n%s\n",sig.c_str(),o.str().c_str(),msg.c_str());
    _exit(77);
}

inline void run_chunk(u64 c){ Engine&e=E(); u64 k=c; for(size_t g=0;g<e.groups.size();g++){ if(k<e.groups[g].nchunks){ e.curgroup=(int)g; e.groups[g].fn(k); return; } k-=e.groups[g].nchunks; } }
inline std::string chunk_name(u64 c){ Engine&e=E(); for(auto&g:e.groups){ if(c<g.nchunks) return g.name+":"+std::to_string(c); c-=g.nchunks;} return "?"; }
inline void guarded(u64 c){
    try { run_chunk(c); }
    catch(const std::exception&x){ fail("exception",std::string("unexpected exception: ")+x.what()); }
    catch(...){ fail("exception","unexpected exception"); } }
inline std::string jesc(const std::string&s){ std::string r; for(char ch:s){ if(ch=='"'||ch=='\\'){r+='\\';r+=ch;} else if(ch=='\n') r+="\\n"; else if((unsigned char)ch<32||(unsigned char)ch>126) r+='?'; else r+=ch;} return r; }
inline void quiet(){ int fd=open("/dev/null",O_RDWR); if(fd>=0){ dup2(fd,1); if(!getenv("MC_VERBOSE")) dup2(fd,2); close(fd);} }

// runs one chunk in a fresh process in trace mode; returns 0 ok, 1 failed (text in slot 0), 2 crash, 3 hang
inline int replay(u64 c,double limit){
    Engine&e=E(); Slot&s=e.sh->slot[MAXW-1]; s.failed=0; s.txt[0]=s.sig[0]=s.desc[0]=0; s.cases=0;
    fflush(stdout); fflush(stderr);
    pid_t p=fork(); if(p==0){ quiet(); e.me=&s; e.trace=true; guarded(c); _exit(0); }
    double t0=now(); u64 last=~0ull; double tl=now();
    for(;;){ int st; pid_t r=waitpid(p,&st,WNOHANG);
        if(r==p){ if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return 0; if(WIFEXITED(st)&&WEXITSTATUS(st)==77&&s.failed) return 1;
            std::ostringstream o; if(WIFSIGNALED(st)) o<<"process killed by signal "<<WTERMSIG(st)<<" inside this case"; else o<<"process exited with status "<<WEXITSTATUS(st)<<" inside this case";
            strncpy(s.txt,o.str().c_str(),TXT-1); strncpy(s.sig,"crash",511); return 2; }
        u64 cc=s.cases.load(); if(cc!=last){last=cc;tl=now();}
        if(now()-tl>limit){ kill(p,SIGKILL); waitpid(p,&st,0); strncpy(s.txt,"the call did not terminate",TXT-1); strncpy(s.sig,"hang",511); return 3; }
        usleep(2000); (void)t0; } }

inline int main_(int argc,char**argv,void(*reg)()){
    Engine&e=E(); const char*out=nullptr; const char*replayf=nullptr; i64 only=-1; std::string onlyg; const char*known=nullptr; double dl=0;
    for(int i=1;i<argc;i++){ std::string a=argv[i];
        if(a=="--prop") e.prop=argv[++i]; else if(a=="--out") out=argv[++i]; else if(a=="--replay-file") replayf=argv[++i];
        else if(a=="--workers") e.nworkers=atoi(argv[++i]); else if(a=="--tier") e.thorough=!strcmp(argv[++i],"thorough");
        else if(a=="--seed") e.seed=strtoull(argv[++i],0,10); else if(a=="--known") known=argv[++i]; else if(a=="--deadline") dl=atof(argv[++i]);
        else if(a=="--only"){ std::string s=argv[++i]; size_t q=s.rfind(':'); onlyg=s.substr(0,q); only=strtoll(s.c_str()+q+1,0,10);} }
    if(known){ std::ifstream f(known); std::string l; while(std::getline(f,l)){ if(l.empty()||l[0]=='#') continue; e.knownset.insert(l);} }
    e.sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(e.sh==MAP_FAILED){ perror("mmap"); return 3; }
    double t0=now(); if(dl>0) e.deadline=t0+dl; if(getenv("MC_HANG")) e.hang=atof(getenv("MC_HANG"));
    reg(); u64 total=0; for(auto&g:e.groups) total+=g.nchunks;
    if(only>=0){ u64 base=0; for(auto&g:e.groups){ if(g.name==onlyg){ int r=replay(base+only,e.hang*4); Slot&s=e.sh->slot[MAXW-1];
                printf("replay %s:%lld -> %s\n",onlyg.c_str(),(long long)only,r==0?"held":"VIOLATED"); if(r) printf("case: %s\n%s\n",s.desc,s.txt); return r?1:0; } base+=g.nchunks; } return 3; }
    std::vector<pid_t> pid(e.nworkers,0); std::vector<u64> last(e.nworkers,~0ull); std::vector<double> tl(e.nworkers,t0);
    auto spawn=[&](int w){ e.sh->slot[w].chunk=~0ull; fflush(stdout); fflush(stderr); pid_t p=fork();
        if(p==0){ quiet(); e.me=&e.sh->slot[w];
            for(;;){ if(now()>e.deadline) _exit(0); u64 c=e.sh->next.fetch_add(1); if(c>=total) _exit(0); e.me->chunk=c; guarded(c); e.sh->done++; } }
        pid[w]=p; tl[w]=now(); last[w]=~0ull; };
    for(int w=0;w<e.nworkers;w++) spawn(w);
    int alive=e.nworkers; int viol=0; std::string vtext; u64 vchunk=0;
    auto verdict=[&](u64 c,const char*kind,Slot&s,const char*note){ viol=1; vchunk=c; std::ostringstream o; o<<"property: "<<e.prop<<"\nchunk: "<<chunk_name(c)<<"\nkind: "<<kind<<note<<"\nsignature: "<<s.sig<<"\ncase: "<<s.desc<<"\n"<<s.txt<<"\n"; vtext=o.str(); };
    while(alive>0&&!viol){ bool any=false;
        for(int w=0;w<e.nworkers&&!viol;w++) if(pid[w]>0){ int st=0; pid_t r=waitpid(pid[w],&st,WNOHANG); Slot&s=e.sh->slot[w]; bool bad=false,killed=false;
            if(r==pid[w]){ any=true; alive--; pid[w]=0; if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ bad=true; killed=WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL; } }
            else { u64 cc=s.cases.load()*1000003+s.chunk.load()+s.calls.load(); if(cc!=last[w]){last[w]=cc;tl[w]=now();}
                if(now()-tl[w]>e.hang){ kill(pid[w],SIGKILL); waitpid(pid[w],&st,0); alive--; pid[w]=0; bad=true; killed=true; } }
            if(bad){ u64 c=s.chunk.load(); bool wrong=s.failed; int rr=replay(c,e.hang*2); Slot&q=e.sh->slot[MAXW-1];
                if(rr) verdict(c,rr==1?"wrong result":rr==2?"crash":"non-termination",q," (confirmed by replay in a fresh process)");
                else if(wrong) verdict(c,"wrong result",s," (observed; the chunk alone in a fresh process does not reproduce it: depends on earlier calls or on uninitialised memory)");
                else if(!killed){ strncpy(s.sig,"crash",511); strncpy(s.txt,"worker process died",TXT-1); verdict(c,"crash",s," (observed; not reproduced by the chunk alone)"); }
                else { fprintf(stderr,"note: worker killed in chunk %s; chunk passes alone, continuing\n",chunk_name(c).c_str()); e.sh->done++; s.failed=0; spawn(w); alive++; } } }
        if(!any) usleep(3000); }
    for(int w=0;w<e.nworkers;w++) if(pid[w]>0){ kill(pid[w],SIGKILL); int st; waitpid(pid[w],&st,0); }
    u64 cases=0,calls=0; for(int w=0;w<e.nworkers;w++){cases+=e.sh->slot[w].cases;calls+=e.sh->slot[w].calls;}
    if(viol&&replayf){ std::ofstream f(replayf); f<<vtext; f<<"replay: "; for(int i=0;i<argc;i++) if(!i) f<<argv[0]; f<<" --tier "<<(e.thorough?"thorough":"quick")<<" --only "<<chunk_name(vchunk)<<"\n"; }
    if(viol) fprintf(stderr,"%s",vtext.c_str());
    if(out){ std::ofstream f(out); f<<"{\"states\":"<<e.sh->states<<",\"transitions\":"<<calls<<",\"cases\":"<<cases<<",\"outcomes\":"<<e.sh->outcomes<<",\"chunks\":"<<total<<",\"chunks_done\":"<<e.sh->done<<",\"violation\":"<<viol<<",\"wall\":"<<(now()-t0)<<",\"groups\":{";
        for(size_t g=0;g<e.groups.size();g++) f<<(g?",":"")<<"\""<<e.groups[g].name<<"\":["<<e.sh->gcases[g]<<","<<e.sh->gcalls[g]<<"]";
        f<<"},\"samples\":["; u64 ns=e.sh->samples_n; if(ns>8)ns=8; for(u64 i=0;i<ns;i++) f<<(i?",":"")<<"\""<<jesc(e.sh->sample[i])<<"\"";
        f<<"],\"known\":{"; bool first=true; for(int i=0;i<64&&e.sh->knownsig[i][0];i++){ f<<(first?"":",")<<"\""<<jesc(e.sh->knownsig[i])<<"\":"<<e.sh->knowncnt[i]; first=false; } f<<"}}\n"; }
    return viol?1:0;
}
} // namespace mc
// usage:  MC_MAIN { mc::group("name", nchunks, [](mc::u64 c){...}); ... }
namespace mc { inline void group(const std::string&n,u64 k,std::function<void(u64)> f){ E().groups.push_back({n,k,f}); } }
#define MC_MAIN static void mc_register(); int main(int argc,char**argv){ return mc::main_(argc,argv,mc_register); } static void mc_register()
