// eusym: a symbolic executor for rustc LTO bitcode.
//   eusym prog.bc --entry h_x [--entry h_y ...] [--jobs N] [--time S] [--steps N] --out out.json
#include <algorithm>
#include <fstream>
#include <map>
#include "lower.hpp"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <semaphore.h>
#include <pthread.h>
#include <atomic>
#include <malloc.h>
#include <errno.h>
#include <sched.h>

static const int MAXE=128, MAXW=6000, NCOV=256, MSGSZ=65536, MAXV=40, MAXASSERT=200, NSAMP=12;
struct AssertStat { char id[96]; std::atomic<u64> reached, discharged, concrete, violated; };
struct EntryStat {
  char name[96]; std::atomic<u64> paths, pruned, panics_ok, steps, forks, z3, z3us, dom, mhit, chit, asserts, asserts_z3, asserts_const, concretized; std::atomic<u64> t_start, t_end;
  std::atomic<u64> live; std::atomic<int> stop; std::atomic<int> incomplete; char incmsg[4096]; std::atomic<int> nviol; char viol[MAXV][MSGSZ]; std::atomic<u8> cover[NCOV]; AssertStat as[MAXASSERT]; std::atomic<int> nas; std::atomic<u64> nvars; std::atomic<u64> maxdepth; struct { int cov; char js[3000]; } samp[NSAMP]; std::atomic<int> nsample; std::atomic<int> nreal; std::atomic<u64> unknownBranches, phantomDropped;
};
struct Shm { pthread_mutex_t mu; int running, jobs; int nwait; int waitStack[MAXW]; int nfree; int freeList[MAXW]; sem_t sems[MAXW]; std::atomic<u64> live; std::atomic<int> stopAll; EntryStat e[MAXE]; };
static Shm* sh; static u8* fnHit; static EntryStat* me; static Loader L; static Sys S;
static u64 optSteps=400000000ull; static bool optConcrete=false; static std::vector<u64> concVals; static size_t concPos=0; static unsigned optBranchMs=1500; static int optTrace=0, optTier=0; static u64 optMaxDepth=100000;
static std::atomic<u64>* covBB;

struct PathEnd {}; // normal termination of the path

// ---------------------------------------------------------------- memory
struct SymPage { Expr* e[4096]; u8 ix[4096]; u32 count; };
static SymPage** symtab; static const u64 NPAGES=REGION_SZ>>12;
static inline bool inRegion(u64 a,u64 n){ return a>=REGION && a+n<=REGION+REGION_SZ && a+n>=a; }
struct Frame { Func*f; u32 ip; Slot* fp; u64 sp; i32 dst; u32 nret; };
static std::vector<Frame> frames; static Slot* slotStack; static u64 slotTop=0; static const u64 SLOTS=16u<<20; static u64 guestSP=STACK_HI-64;
static u64 steps=0, stepsFlushed=0; static u32 depth_=0; static bool panicOk=false;
static std::vector<std::string> notes;

static std::string where() { std::string s; int n=0; for (int i=(int)frames.size()-1;i>=0&&n<24;i--,n++) { if (n) s+=" < "; s+=frames[i].f->name; } return s; }
static void jesc(std::string& o, const std::string& s){ for (unsigned char c: s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } }
static void flushStats() { if (!me) return; me->steps+=steps-stepsFlushed; stepsFlushed=steps; me->z3+=S.st.z3_calls; me->z3us+=S.st.z3_us; me->dom+=S.st.dom; me->mhit+=S.st.modelhit; me->chit+=S.st.cachehit; memset(&S.st,0,sizeof S.st); if (S.vars.size()>me->nvars) me->nvars=S.vars.size(); if (depth_>me->maxdepth) me->maxdepth=depth_; }
static void incomplete(const std::string& m) { if (!me) return; int old=me->incomplete.fetch_add(1); if (old==0) { std::string s=m+" @ "+where(); strncpy(me->incmsg,s.c_str(),sizeof me->incmsg-1); } }
static std::string modelJson(const std::vector<u64>& m) { std::string o="["; for (size_t i=0;i<S.vars.size();) { auto&v=S.vars[i]; if (i) o+=","; o+="{\"name\":\""; jesc(o,v.name); o+="\",\"size\":"+std::to_string(v.w/8)+",\"values\":["; u32 g=v.group; bool first=true; for (;i<S.vars.size()&&S.vars[i].group==g;i++) { if (!first) o+=","; first=false; o+=std::to_string(m[i]); } o+="]}"; } return o+"]"; }
static AssertStat& astat(const std::string& id) { for (int i=0;i<me->nas;i++) if (!strcmp(me->as[i].id,id.c_str())) return me->as[i]; int k=me->nas.fetch_add(1); if (k>=MAXASSERT) { me->nas=MAXASSERT; k=MAXASSERT-1; } strncpy(me->as[k].id,id.c_str(),95); return me->as[k]; }
static void violation(const std::string& kind, const std::string& id, const std::string& msg, std::vector<u64> m, Expr*extra=nullptr) {
  if (S.phantom) { std::vector<u64> fm; int r=S.fullCheck(extra,fm); if (r==0) { me->phantomDropped++; throw PathEnd{}; } if (r<0) { incomplete("cannot decide whether the path to '"+id+"' is feasible"); throw PathEnd{}; } m=fm; }
  bool known=id.rfind("known:",0)==0; if (astat(id).violated.fetch_add(1)>0&&(known||me->nviol>=MAXV)) return; int k=me->nviol.fetch_add(1); if (k>=MAXV) return; std::string o="{\"kind\":\""+kind+"\",\"id\":\""; jesc(o,id); o+="\",\"msg\":\""; jesc(o,msg); o+="\",\"stack\":\""; jesc(o,where()); o+="\",\"notes\":["; for (size_t i=0;i<notes.size();i++) { if (i) o+=","; o+="\""; jesc(o,notes[i]); o+="\""; } o+="],\"model\":"+modelJson(m)+"}"; if (o.size()<MSGSZ) strcpy(me->viol[k],o.c_str()); else strcpy(me->viol[k],"{\"kind\":\"overflow\",\"id\":\"\",\"msg\":\"violation record too long\",\"model\":[]}"); if (!known&&me->nreal.fetch_add(1)+1>=3) me->stop=1; }

// ---------------------------------------------------------------- scheduling
static void releaseSlot() { pthread_mutex_lock(&sh->mu); if (sh->nwait>0) { int w=sh->waitStack[--sh->nwait]; sem_post(&sh->sems[w]); } else sh->running--; pthread_mutex_unlock(&sh->mu); }
[[noreturn]] static void finishPath() { flushStats(); me->t_end=Sys::now_us(); me->live--; releaseSlot(); sh->live--; _exit(0); }
static bool doFork() { // true in the child
  if (me->stop||sh->stopAll) { if (sh->stopAll) incomplete("time limit"); throw PathEnd{}; }
  if (++depth_>optMaxDepth) { incomplete("fork depth limit"); throw PathEnd{}; }
  pthread_mutex_lock(&sh->mu); bool freeSlot=sh->running<sh->jobs; int w=-1;
  if (freeSlot) sh->running++; else { if (sh->nfree==0) { pthread_mutex_unlock(&sh->mu); incomplete("too many pending paths"); me->stop=1; throw PathEnd{}; } w=sh->freeList[--sh->nfree]; sh->waitStack[sh->nwait++]=w; }
  pthread_mutex_unlock(&sh->mu); sh->live++; me->live++; me->forks++; flushStats();
  pid_t p=-1; for (int i=0;i<50&&p<0;i++) { p=fork(); if (p<0) usleep(20000); }
  if (p<0) { incomplete("fork failed"); sh->live--; me->live--; releaseSlot(); if (w>=0) { /* we keep running through the wait below */ } }
  if (p==0) return true;
  if (w>=0) { while (sem_wait(&sh->sems[w])!=0) {} pthread_mutex_lock(&sh->mu); sh->freeList[sh->nfree++]=w; pthread_mutex_unlock(&sh->mu); }
  if (me->stop||sh->stopAll) { if (sh->stopAll) incomplete("time limit"); throw PathEnd{}; }
  return false; }
// decide a symbolic condition; forks when both sides are feasible
static bool decide(Expr*c) {
  if (Sys::isC(c)) return c->lo;
  if (optConcrete) return S.eval(c,S.model)!=0;
  bool cur=S.eval(c,S.model)!=0; Expr*other=cur?S.Not(c):c; std::vector<u64> m; int r=S.check(other,m,false,optBranchMs);
  if (optTrace&&r!=0) fprintf(stderr,"[fork %d] %s\n",r,where().substr(0,300).c_str());
  if (r<0) { me->unknownBranches++; if (doFork()) { S.phantom=true; S.addPC(other); return !cur; } S.addPC(cur?c:S.Not(c)); return cur; }
  if (r==0) return cur;
  if (doFork()) { S.model=m; S.addPC(other); return !cur; }
  S.addPC(cur?c:S.Not(c)); return cur; }
static u128 concretize(Expr*e, unsigned limit=300) {
  if (Sys::isC(e)) return Sys::cv(e); if (optConcrete) return S.eval(e,S.model); me->concretized++;
  for (unsigned n=0;n<limit;n++) { u128 v=S.eval(e,S.model); Expr*eq=S.Eq(e,S.K(e->w,v)); if (decide(eq)) return v; }
  incomplete("too many values to concretize"); throw PathEnd{}; }
static inline u64 cval(const Slot&s){ return s.e? (u64)concretize(s.e): s.lo; }
static inline Expr* X(const Slot&s, unsigned w){ return s.e? s.e : S.K(w,((u128)s.hi<<64)|s.lo); }
static inline void setE(Slot&d, Expr*e){ if (e->op==E_CONST) { d.lo=e->lo; d.hi=e->hi; d.e=nullptr; } else { d.lo=d.hi=0; d.e=e; } }

static void badAccess(const char* what, u64 a, u64 n) { char b[160]; snprintf(b,160,"%s of %llu bytes at address 0x%llx outside live memory",what,(unsigned long long)n,(unsigned long long)a); violation("memory","memory-safety",b,S.model); throw PathEnd{}; }
static inline void chk(u64 a, u64 n, const char* what) { if (__builtin_expect(!inRegion(a,n),0)) badAccess(what,a,n);
  u64 last=a+n-1; u8 s=shadowAt(last); if (__builtin_expect(s<=(last&7),0)) badAccess(what,a,n); if ((a>>3)!=(last>>3)) { u64 g=a>>3; for (;g<(last>>3);g++) if (__builtin_expect(shadowBase[g-(REGION>>3)]!=8,0)) badAccess(what,a,n); } }
static inline SymPage* sp(u64 a){ return symtab[(a-REGION)>>12]; }
static Expr* byteExpr(u64 a){ SymPage*p=sp(a); if (p&&p->e[a&4095]) { Expr*e=p->e[a&4095]; return S.Extract(e,8*p->ix[a&4095],8); } return S.K(8,*(u8*)a); }
static void setByte(u64 a, Expr*e, u8 ix){ SymPage*&p=symtab[(a-REGION)>>12]; if (!p) { if (!e) return; p=(SymPage*)calloc(1,sizeof(SymPage)); } Expr*&o=p->e[a&4095]; if (o&&!e) p->count--; else if (!o&&e) p->count++; o=e; p->ix[a&4095]=ix; if (!p->count) { free(p); p=nullptr; } }
static inline bool anySym(u64 a, u64 n){ for (u64 p=(a-REGION)>>12, q=(a+n-1-REGION)>>12; p<=q; p++) if (symtab[p]) return true; return false; }
static inline void clearSym(u64 a, u64 n){ if (!n||!anySym(a,n)) return; for (u64 i=0;i<n;i++) { if (sp(a+i)) setByte(a+i,nullptr,0); } }
static inline void loadRaw(u64 a, unsigned w, unsigned bytes, Slot& d) {
  if (__builtin_expect(!sp(a)&&!sp(a+bytes-1),1)) { d.e=nullptr; d.hi=0; switch (bytes) { case 1: d.lo=*(u8*)a; break; case 2: d.lo=*(u16*)a; break; case 4: d.lo=*(u32*)a; break; case 8: d.lo=*(u64*)a; break; default: d.lo=0; memcpy(&d.lo,(void*)a,bytes<8?bytes:8); if (bytes>8) memcpy(&d.hi,(void*)(a+8),bytes-8); } if (w&7) d.lo&=maskw(w); return; }
  bool any=false; for (unsigned i=0;i<bytes;i++) { SymPage*p=sp(a+i); if (p&&p->e[(a+i)&4095]) { any=true; break; } }
  if (!any) { d.e=nullptr; d.lo=d.hi=0; memcpy(&d.lo,(void*)a,bytes<8?bytes:8); if (bytes>8) memcpy(&d.hi,(void*)(a+8),bytes-8); if (w&7) d.lo&=maskw(w); return; }
  SymPage*p0=sp(a); Expr*e0=p0?p0->e[a&4095]:nullptr; bool same=e0&&p0->ix[a&4095]==0&&e0->w>=8*bytes; for (unsigned i=1;i<bytes&&same;i++) { SymPage*p=sp(a+i); same=p&&p->e[(a+i)&4095]==e0&&p->ix[(a+i)&4095]==i; }
  Expr*r; if (same) r=S.Extract(e0,0,8*bytes); else { r=byteExpr(a+bytes-1); for (int i=(int)bytes-2;i>=0;i--) r=S.Concat(r,byteExpr(a+i)); }
  if (w<8*bytes) r=S.Trunc(r,w); setE(d,r); }
static inline void storeRaw(u64 a, unsigned w, unsigned bytes, const Slot& s) {
  if (__builtin_expect(!s.e,1)) { switch (bytes) { case 1: *(u8*)a=(u8)s.lo; break; case 2: *(u16*)a=(u16)s.lo; break; case 4: *(u32*)a=(u32)s.lo; break; case 8: *(u64*)a=s.lo; break; default: memcpy((void*)a,&s.lo,bytes<8?bytes:8); if (bytes>8) memcpy((void*)(a+8),&s.hi,bytes-8); }
    if (__builtin_expect(sp(a)||sp(a+bytes-1),0)) for (unsigned i=0;i<bytes;i++) if (sp(a+i)) setByte(a+i,nullptr,0); return; }
  Expr*e=s.e; if (e->w<8*bytes) e=S.ZExt(e,8*bytes); for (unsigned i=0;i<bytes;i++) { Expr*b= S.Extract(e,8*i,8); if (Sys::isC(b)) { *(u8*)(a+i)=(u8)b->lo; setByte(a+i,nullptr,0); } else setByte(a+i,e,(u8)i); } }

// values a (small) symbolic address may take; false if more than lim
static bool addrValues(Expr*e, std::vector<u64>& out, unsigned lim) {
  if (S.smallSingle(e)) { int v=e->vs->single; std::vector<u64> m(S.vars.size(),0); unsigned n=1u<<S.vars[v].w; for (unsigned x=0;x<n;x++) { if (!(S.dom[v][x/64]>>(x%64)&1)) continue; m[v]=x; out.push_back((u64)S.eval(e,m)); } std::sort(out.begin(),out.end()); out.erase(std::unique(out.begin(),out.end()),out.end()); if (!S.multi[v]) return out.size()<=lim; 
    if (out.size()<=lim) return true; out.clear(); }
  Expr* excl=S.T(); for (unsigned n=0;n<=lim;n++) { std::vector<u64> m; int r=S.check(excl,m); if (r<0) throw EngineError{"solver gave no answer for an address"}; if (r==0) { std::sort(out.begin(),out.end()); return true; } if (n==lim) break; u64 v=(u64)S.eval(e,m); out.push_back(v); excl=S.And(excl,S.Not(S.Eq(e,S.K(64,v)))); }
  return false; }
static Expr* condAddr(Expr*e, u64 v){ return S.Eq(e,S.K(64,v)); }
static void loadSym(Expr*ae, unsigned w, unsigned bytes, Slot&d) {
  if (optConcrete) { u64 a=(u64)S.eval(ae,S.model); chk(a,bytes,"load"); loadRaw(a,w,bytes,d); return; }
  std::vector<u64> vals; if (!addrValues(ae,vals,260)) { u64 a=(u64)concretize(ae); chk(a,bytes,"load"); loadRaw(a,w,bytes,d); return; }
  // any candidate outside live memory must be infeasible
  std::vector<u64> good; for (u64 v: vals) { bool ok=inRegion(v,bytes)&&shadowAt(v)>(v&7)&&shadowAt(v+bytes-1)>((v+bytes-1)&7); if (!ok) { if (decide(condAddr(ae,v))) { badAccess("load",v,bytes); } } else good.push_back(v); }
  if (good.empty()) throw EngineError{"symbolic load without target"};
  Expr*r=nullptr,*lastv=nullptr; Slot t; // runs of equal values collapse into range tests
  for (int i=(int)good.size()-1;i>=0;i--) { loadRaw(good[i],w,bytes,t); Expr*v=X(t,w); if (!r) { r=lastv=v; continue; } if (v==lastv) continue;
    r=S.Ite(S.Ule(ae,S.K(64,good[i])),v,r); lastv=v; }
  setE(d,r); }
static void storeSym(Expr*ae, unsigned w, unsigned bytes, const Slot&s) {
  if (optConcrete) { u64 a=(u64)S.eval(ae,S.model); chk(a,bytes,"store"); storeRaw(a,w,bytes,s); return; }
  std::vector<u64> vals; if (!addrValues(ae,vals,64)) { u64 a=(u64)concretize(ae); chk(a,bytes,"store"); storeRaw(a,w,bytes,s); return; }
  for (u64 v: vals) { bool ok=inRegion(v,bytes)&&shadowAt(v)>(v&7)&&shadowAt(v+bytes-1)>((v+bytes-1)&7); if (!ok) { if (decide(condAddr(ae,v))) badAccess("store",v,bytes); continue; }
    Slot t; loadRaw(v,w,bytes,t); Slot n; setE(n,S.Ite(condAddr(ae,v),X(s,w),X(t,w))); storeRaw(v,w,bytes,n); } }
static void memMove(u64 d, u64 s, u64 n) { if (!n) return; chk(s,n,"memory read"); chk(d,n,"memory write"); bool sy=anySym(s,n), dy=anySym(d,n);
  if (!sy&&!dy) { memmove((void*)d,(void*)s,n); return; }
  std::vector<std::pair<Expr*,u8>> tmp(n); for (u64 i=0;i<n;i++) { SymPage*p=sp(s+i); tmp[i]= p? std::make_pair(p->e[(s+i)&4095],p->ix[(s+i)&4095]):std::make_pair((Expr*)nullptr,(u8)0); }
  memmove((void*)d,(void*)s,n); for (u64 i=0;i<n;i++) if (tmp[i].first||sp(d+i)) setByte(d+i,tmp[i].first,tmp[i].second); }

// ---------------------------------------------------------------- guest heap
static u64 heapTop=HEAP_LO; static std::unordered_map<u64,u64> hsize; static std::unordered_map<u64,std::vector<u64>> quarantine; static std::unordered_map<u64,size_t> qhead;
static u64 gmalloc(u64 n, u64 al=16) { if (n>>40) return 0; /* more than any machine has */ if (al<16) al=16; u64 cls=(n+15)/16*16; if (!cls) cls=16; u64 a=0;
  if (al==16) { auto&q=quarantine[cls]; auto&h=qhead[cls]; if (q.size()-h>32) { a=q[h++]; if (h>4096) { q.erase(q.begin(),q.begin()+h); h=0; } } }
  if (!a) { heapTop=(heapTop+16+al-1)/al*al; a=heapTop; heapTop+=cls+16; if (heapTop>HEAP_HI) throw EngineError{"guest heap exhausted"}; }
  hsize[a]=n; unpoison(a,n?n:1); return a; }
static void gfree(u64 a) { if (!a) return; auto it=hsize.find(a); if (it==hsize.end()) { violation("memory","memory-safety","free of a pointer that is not a live allocation",S.model); throw PathEnd{}; } u64 n=it->second; clearSym(a,n); poison(a,n?n:1); hsize.erase(it); u64 cls=(n+15)/16*16; if (!cls) cls=16; if (cls<=65536&&a%4096) quarantine[cls].push_back(a); else if (n>=(1<<16)) { u64 lo=(a+4095)/4096*4096, hi=(a+n)/4096*4096; if (hi>lo) madvise((void*)lo,hi-lo,MADV_DONTNEED); } }

// ---------------------------------------------------------------- externals
static std::string gstr(u64 p, u64 n){ std::string s; for (u64 i=0;i<n&&i<400;i++) { if (!inRegion(p+i,1)) break; s+=*(char*)(p+i); } return s; }
static void ret(Frame&fr, const Inst&in, u64 v){ if (in.dst>=0) { Slot&d=fr.fp[in.dst]; d.lo=v; d.hi=0; d.e=nullptr; } }
static std::map<std::string,u64> guestEnv; struct VFile { u64 buf, len; }; static std::map<std::string,VFile> vfiles; static std::vector<std::pair<std::string,u64>> vfds; static u64 errnoCell=0; static u64 tlsKeys=1; static std::unordered_map<u64,u64> tlsVals; static u32 symGroup=0; static u64 fakeRand=0x243F6A8885A308D3ull; static u64 cxaCell=0; static u64 clockNow=1700000000;
enum { X_RALLOC, X_RDEALLOC, X_RREALLOC, X_RALLOCZ, X_SETENV, X_UNSETENV, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_PMEMALIGN, X_AALLOC, X_MEMCMP, X_BCMP, X_STRLEN, X_WRITE, X_WRITEV, X_ABORT, X_EXIT, X_ZERO, X_ERRNO, X_GETENV, X_GETRANDOM, X_CLOCK, X_SYSCONF, X_KEYCREATE, X_KEYSET, X_KEYGET, X_SYM_MAKE, X_SYM_ASSUME, X_SYM_ASSERT, X_SYM_COVER, X_SYM_CONC, X_SYM_PANIC, X_SYM_ISENG, X_SYM_TIER, X_SYM_NOTE, X_SYM_FORKV, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_MEMCHR, X_MATH1, X_MATH2, X_NEG1, X_SYSCALL, X_SYM_ISSYM, X_OPEN, X_READ };
static std::unordered_map<std::string,int> extTab={{"setenv",X_SETENV},{"unsetenv",X_UNSETENV},{"malloc",X_MALLOC},{"calloc",X_CALLOC},{"realloc",X_REALLOC},{"free",X_FREE},{"posix_memalign",X_PMEMALIGN},{"aligned_alloc",X_AALLOC},{"memcmp",X_MEMCMP},{"bcmp",X_BCMP},{"strlen",X_STRLEN},{"write",X_WRITE},{"writev",X_WRITEV},{"abort",X_ABORT},{"exit",X_EXIT},{"_exit",X_EXIT},{"__cxa_thread_atexit_impl",X_ZERO},{"__errno_location",X_ERRNO},{"getenv",X_GETENV},{"getrandom",X_GETRANDOM},{"clock_gettime",X_CLOCK},{"sysconf",X_SYSCONF},{"pthread_key_create",X_KEYCREATE},{"pthread_setspecific",X_KEYSET},{"pthread_getspecific",X_KEYGET},
 {"__sym_make",X_SYM_MAKE},{"__sym_assume",X_SYM_ASSUME},{"__sym_assert",X_SYM_ASSERT},{"__sym_cover",X_SYM_COVER},{"__sym_concretize",X_SYM_CONC},{"__sym_panic_mode",X_SYM_PANIC},{"__sym_is_engine",X_SYM_ISENG},{"__sym_tier",X_SYM_TIER},{"__sym_note",X_SYM_NOTE},{"__sym_is_symbolic",X_SYM_ISSYM},
 {"memcpy",X_MEMCPY},{"memmove",X_MEMMOVE},{"memset",X_MEMSET},{"memchr",X_MEMCHR},{"pow",X_MATH2},{"fmod",X_MATH2},{"atan2",X_MATH2},{"hypot",X_MATH2},{"exp",X_MATH1},{"log",X_MATH1},{"log2",X_MATH1},{"log10",X_MATH1},{"sin",X_MATH1},{"cos",X_MATH1},{"tan",X_MATH1},{"asin",X_MATH1},{"acos",X_MATH1},{"atan",X_MATH1},{"exp2",X_MATH1},{"cbrt",X_MATH1},{"expm1",X_MATH1},{"log1p",X_MATH1},{"sinh",X_MATH1},{"cosh",X_MATH1},{"tanh",X_MATH1},
 {"pthread_mutex_lock",X_ZERO},{"pthread_mutex_unlock",X_ZERO},{"pthread_self",X_ZERO},{"pthread_getattr_np",X_NEG1},{"sigaltstack",X_NEG1},{"sigaction",X_ZERO},{"signal",X_ZERO},{"poll",X_ZERO},{"sched_yield",X_ZERO},{"getpid",X_ZERO},{"close",X_ZERO},{"munmap",X_ZERO},{"open64",X_OPEN},{"open",X_OPEN},{"unlink",X_ZERO},{"stat64",X_NEG1},{"statx",X_NEG1},{"read",X_READ},{"getcwd",X_ZERO},{"syscall",X_SYSCALL},{"gettid",X_ZERO},{"pthread_key_delete",X_ZERO},{"dl_iterate_phdr",X_ZERO},{"pthread_attr_destroy",X_ZERO},{"pthread_attr_init",X_ZERO}};
// rustc's allocator shims are generated at link time; model them here
static int rustAlloc(const std::string&n) { auto e=[&](const char*s){ size_t l=strlen(s); return n.size()>=l&&n.compare(n.size()-l,l,s)==0; }; if (e("___rust_alloc")) return X_RALLOC; if (e("___rust_dealloc")) return X_RDEALLOC; if (e("___rust_realloc")) return X_RREALLOC; if (e("___rust_alloc_zeroed")) return X_RALLOCZ; if (e("___rust_no_alloc_shim_is_unstable_v2")) return X_ZERO; return -1; }
static double math1(const std::string&n,double x){ if (n=="exp") return exp(x); if (n=="log") return log(x); if (n=="log2") return log2(x); if (n=="log10") return log10(x); if (n=="sin") return sin(x); if (n=="cos") return cos(x); if (n=="tan") return tan(x); if (n=="asin") return asin(x); if (n=="acos") return acos(x); if (n=="atan") return atan(x); if (n=="exp2") return exp2(x); if (n=="cbrt") return cbrt(x); if (n=="expm1") return expm1(x); if (n=="log1p") return log1p(x); if (n=="sinh") return sinh(x); if (n=="cosh") return cosh(x); return tanh(x); }
static void doPanic(Func*callee, std::vector<Slot>& args) {
  std::string loc="?"; for (int i=(int)args.size()-1;i>=0;i--) { if (args[i].e) continue; u64 p=args[i].lo; if (!inRegion(p,24)) continue; u64 f=*(u64*)p, n=*(u64*)(p+8); u32 l=*(u32*)(p+16); if (inRegion(f,1)&&n>0&&n<300) { std::string s=gstr(f,n); if (s.find(".rs")!=s.npos) { loc=s+":"+std::to_string(l); break; } } }
  std::string msg; if (args.size()>=2&&!args[0].e&&!args[1].e&&inRegion(args[0].lo,1)&&args[1].lo<400) msg=gstr(args[0].lo,args[1].lo);
  if (panicOk) { me->panics_ok++; throw PathEnd{}; }
  violation("panic","panic",loc+(msg.empty()||msg.find('\0')!=msg.npos?"":" "+msg)+" in "+callee->name,S.model); throw PathEnd{}; }
static bool external(Frame&fr, const Inst&in, Func*f, std::vector<Slot>& a) {
  if (f->builtin<-1) throw EngineError{"call of unmodelled external "+f->name};
  if (f->builtin==-1) { int ra=f->name.find("7___rustc")!=f->name.npos?rustAlloc(f->name):-1; auto it=extTab.find(f->name); if (ra>=0) f->builtin=ra; else if (it==extTab.end()) { f->builtin=-2; throw EngineError{"call of unmodelled external "+f->name}; } else f->builtin=it->second; }
  auto V=[&](int i){ return cval(a[i]); };
  switch (f->builtin) {
    case X_RALLOC: ret(fr,in,gmalloc(V(0),V(1))); return true;
    case X_RALLOCZ: { u64 n=V(0), p=gmalloc(n,V(1)); if (p) { memset((void*)p,0,n); clearSym(p,n); } ret(fr,in,p); return true; }
    case X_RDEALLOC: gfree(V(0)); return true;
    case X_RREALLOC: { u64 p=V(0), n=V(3); u64 q=gmalloc(n,V(2)); if (q) { memMove(q,p,std::min(V(1),n)); gfree(p); } ret(fr,in,q); return true; }
    case X_SETENV: { std::string k=gstr(V(0),strlen((char*)V(0))), v=gstr(V(1),strlen((char*)V(1))); u64 p=gmalloc(v.size()+1); memcpy((void*)p,v.c_str(),v.size()+1); clearSym(p,v.size()+1); guestEnv[k]=p; ret(fr,in,0); return true; }
    case X_UNSETENV: guestEnv.erase(gstr(V(0),strlen((char*)V(0)))); ret(fr,in,0); return true;
    case X_MALLOC: ret(fr,in,gmalloc(V(0))); return true;
    case X_CALLOC: { u64 n=V(0)*V(1), p=gmalloc(n); if (p) { memset((void*)p,0,n); clearSym(p,n); } ret(fr,in,p); return true; }
    case X_REALLOC: { u64 p=V(0), n=V(1); u64 q=gmalloc(n); if (p&&q) { auto it=hsize.find(p); u64 o=it==hsize.end()?0:it->second; memMove(q,p,std::min(o,n)); gfree(p);} ret(fr,in,q); return true; }
    case X_FREE: gfree(V(0)); return true;
    case X_PMEMALIGN: { u64 p=V(0); u64 q=gmalloc(V(2),V(1)); if (!q) { ret(fr,in,12); return true; } chk(p,8,"store"); Slot s{q,0,nullptr}; storeRaw(p,64,8,s); ret(fr,in,0); return true; }
    case X_AALLOC: ret(fr,in,gmalloc(V(1),V(0))); return true;
    case X_MEMCPY: case X_MEMMOVE: memMove(V(0),V(1),V(2)); ret(fr,in,V(0)); return true;
    case X_MEMSET: { u64 d=V(0), n=V(2); if (n) { chk(d,n,"memory write"); clearSym(d,n); memset((void*)d,(int)V(1),n);} ret(fr,in,d); return true; }
    case X_MEMCMP: case X_BCMP: { u64 p=V(0), q=V(1), n=V(2); if (n) { chk(p,n,"memory read"); chk(q,n,"memory read"); }
      if (!n||(!anySym(p,n)&&!anySym(q,n))) { int r=n?memcmp((void*)p,(void*)q,n):0; ret(fr,in,(u32)(r<0?-1:r>0)); return true; }
      Expr*r;
      if (f->builtin==X_BCMP) { r=S.T(); for (u64 i=0;i<n;i++) { Expr*c=S.Eq(byteExpr(p+i),byteExpr(q+i)); r=S.And(r,c); if (Sys::isC(r)&&!r->lo) break; } r=S.ZExt(S.Not(r),32); }
      else { r=S.K(32,0); for (i64 i=(i64)n-1;i>=0;i--) { Expr*x=byteExpr(p+i),*y=byteExpr(q+i); r=S.Ite(S.Eq(x,y),r,S.Ite(S.Ult(x,y),S.K(32,~(u128)0),S.K(32,1))); } }
      if (in.dst>=0) setE(fr.fp[in.dst],r); return true; }
    case X_STRLEN: { u64 p=V(0), n=0; while (true) { chk(p+n,1,"memory read"); if (anySym(p+n,1)&&sp(p+n)->e[(p+n)&4095]) throw EngineError{"strlen of symbolic data"}; if (!*(u8*)(p+n)) break; n++; } ret(fr,in,n); return true; }
    case X_MEMCHR: { u64 p=V(0), n=V(2); u8 c=(u8)V(1); if (anySym(p,n?n:1)) throw EngineError{"memchr of symbolic data"}; void*r=n?memchr((void*)p,c,n):nullptr; ret(fr,in,(u64)r); return true; }
    /* files exist within a path only, and have up to 64 KiB */
    case X_OPEN: { std::string n=gstr(V(0),strlen((char*)V(0))); u64 fl=V(1); auto it=vfiles.find(n); if (it==vfiles.end()&&!(fl&0100)) { if (!errnoCell) errnoCell=gmalloc(8); clearSym(errnoCell,8); *(u64*)errnoCell=2; ret(fr,in,0xffffffffull); return true; }
      if (it==vfiles.end()) it=vfiles.emplace(n,VFile{gmalloc(65536),0}).first; if (fl&01000) it->second.len=0; vfds.push_back({n,0}); ret(fr,in,1000+vfds.size()-1); return true; }
    case X_READ: { u64 fd=V(0); if (fd<1000||fd-1000>=vfds.size()) { ret(fr,in,~0ull); return true; } auto&d=vfds[fd-1000]; auto&f2=vfiles[d.first]; u64 n=std::min<u64>(V(2),f2.len-d.second); memMove(V(1),f2.buf+d.second,n); d.second+=n; ret(fr,in,n); return true; }
    case X_WRITE: if (u64 fd=V(0); fd>=1000&&fd-1000<vfds.size()) { auto&d=vfds[fd-1000]; auto&f2=vfiles[d.first]; u64 n=V(2); if (d.second+n>65536) throw EngineError{"virtual file too large"}; memMove(f2.buf+d.second,V(1),n); d.second+=n; f2.len=std::max(f2.len,d.second); ret(fr,in,n); return true; }
      if (optTrace&&!a[1].e) { std::string s=gstr(V(1),V(2)); fprintf(stderr,"[guest] %s",s.c_str()); } ret(fr,in,V(2)); return true;
    case X_WRITEV: { u64 p=V(1), n=V(2), t=0; for (u64 i=0;i<n;i++) { t+=*(u64*)(p+16*i+8); if (optTrace) fprintf(stderr,"[guest] %s",gstr(*(u64*)(p+16*i),*(u64*)(p+16*i+8)).c_str()); } ret(fr,in,t); return true; }
    case X_ABORT: if (panicOk) { me->panics_ok++; throw PathEnd{}; } violation("panic","abort","abort",S.model); throw PathEnd{};
    case X_EXIT: throw PathEnd{};
    case X_ZERO: ret(fr,in,0); return true;
    case X_NEG1: ret(fr,in,~0ull&(f->name=="read"?~0ull:0xffffffffull)); return true;
    case X_SYSCALL: { u64 nr=V(0); if (nr==318) { u64 p=V(1), n=V(2); if (n) chk(p,n,"memory write"); for (u64 i=0;i<n;i++) { fakeRand=fakeRand*6364136223846793005ull+1442695040888963407ull; ((u8*)p)[i]=(u8)(fakeRand>>56); } ret(fr,in,n); return true; } ret(fr,in,0); return true; }
    case X_ERRNO: if (!errnoCell) { errnoCell=gmalloc(8); *(u64*)errnoCell=2; } ret(fr,in,errnoCell); return true;
    case X_GETENV: { auto it=guestEnv.find(gstr(V(0),strlen((char*)V(0)))); ret(fr,in,it==guestEnv.end()?0:it->second); return true; }
    case X_GETRANDOM: { u64 p=V(0), n=V(1); chk(p,n,"memory write"); for (u64 i=0;i<n;i++) { fakeRand=fakeRand*6364136223846793005ull+1442695040888963407ull; ((u8*)p)[i]=(u8)(fakeRand>>56); } ret(fr,in,n); return true; }
    case X_CLOCK: { u64 p=V(1); chk(p,16,"memory write"); clearSym(p,16); *(u64*)p=clockNow; *(u64*)(p+8)=0; ret(fr,in,0); return true; }
    case X_SYSCONF: ret(fr,in,V(0)==30?4096:1); return true;
    case X_KEYCREATE: { u64 p=V(0); *(u32*)p=(u32)tlsKeys++; ret(fr,in,0); return true; }
    case X_KEYSET: tlsVals[V(0)]=V(1); ret(fr,in,0); return true;
    case X_KEYGET: ret(fr,in,tlsVals[V(0)]); return true;
    case X_MATH1: if (a[0].e) throw EngineError{"symbolic "+f->name}; ret(fr,in,Sys::db(math1(f->name,Sys::bd(a[0].lo)))); return true;
    case X_MATH2: { if (a[0].e||a[1].e) throw EngineError{"symbolic "+f->name}; double x=Sys::bd(a[0].lo),y=Sys::bd(a[1].lo); ret(fr,in,Sys::db(f->name=="pow"?pow(x,y):f->name=="fmod"?fmod(x,y):f->name=="atan2"?atan2(x,y):hypot(x,y))); return true; }
    case X_SYM_MAKE: { u64 p=V(0), es=V(1), n=V(2); std::string nm=gstr(V(3),V(4)); chk(p,es*n,"memory write"); u32 g=symGroup++; for (u64 i=0;i<n;i++) { Expr*e=S.mkVar(nm,8*es,g,(u32)i); Slot s; setE(s,e); if (optConcrete) { S.model.back()= concPos<concVals.size()? concVals[concPos]:0; concPos++; s.e=nullptr; s.lo=S.model.back(); s.hi=0; } storeRaw(p+i*es,8*es,es,s); } return true; }
    case X_SYM_ASSUME: { Slot&c=a[0]; if (!c.e) { if (!c.lo) { me->pruned++; throw PathEnd{}; } return true; } Expr*e=S.Not(S.Eq(c.e,S.K(c.e->w,0))); if (Sys::isC(e)) { if (!e->lo) { me->pruned++; throw PathEnd{}; } return true; } std::vector<u64> m; int r=S.check(e,m); if (r<0) { incomplete("solver gave no answer in assume"); throw PathEnd{}; } if (r==0) { me->pruned++; throw PathEnd{}; } S.model=m; S.addPC(e); return true; }
    case X_SYM_ASSERT: { Slot&c=a[0]; std::string id=gstr(V(1),V(2)); me->asserts++; AssertStat&as=astat(id); as.reached++; Expr*e= c.e? S.Not(S.Eq(c.e,S.K(c.e->w,0))): S.K(1,c.lo!=0);
      if (Sys::isC(e)) { if (e->lo) { me->asserts_const++; as.concrete++; return true; } violation("assert",id,id,S.model); throw PathEnd{}; }
      std::vector<u64> m; int r=S.check(S.Not(e),m,true); if (r<0) { incomplete("solver gave no answer on assertion "+id+" ("+S.lastUnknown+")"); throw PathEnd{}; }
      if (r==0) { me->asserts_z3++; as.discharged++; return true; }
      violation("assert",id,id,m,S.Not(e)); if (me->stop) throw PathEnd{}; r=S.check(e,m); if (r!=1) throw PathEnd{}; S.model=m; S.addPC(e); return true; }
    case X_SYM_COVER: { u64 i=V(0); if (i<NCOV&&!S.phantom) { if (!me->cover[i]) { me->cover[i]=1; int k=me->nsample.fetch_add(1); if (k<NSAMP) { std::string s=modelJson(S.model); if (s.size()<sizeof me->samp[k].js) { me->samp[k].cov=(int)i; strcpy(me->samp[k].js,s.c_str()); } } } } return true; }
    case X_SYM_CONC: ret(fr,in,V(0)); return true;
    case X_SYM_PANIC: panicOk=V(0)!=0; return true;
    case X_SYM_TIER: ret(fr,in,(u64)optTier); return true;
    case X_SYM_ISENG: ret(fr,in,1); return true;
    case X_SYM_ISSYM: ret(fr,in,a[0].e?1:0); return true;
    case X_SYM_NOTE: { std::string s; u64 p=V(0), n=V(1); for (u64 i=0;i<n&&i<2000;i++) { if (anySym(p+i,1)) s+=(char)S.eval(byteExpr(p+i),S.model); else s+=*(char*)(p+i); } notes.push_back(s); if (optTrace) fprintf(stderr,"[note] %s\n",s.c_str()); return true; }
  }
  throw EngineError{"external "+f->name}; }

// ---------------------------------------------------------------- arithmetic on slots
static bool icmpC(u32 p, u64 a, u64 b, unsigned w){ switch (p) { case 32: return a==b; case 33: return a!=b; case 34: return a>b; case 35: return a>=b; case 36: return a<b; case 37: return a<=b; case 38: return sx64(a,w)>sx64(b,w); case 39: return sx64(a,w)>=sx64(b,w); case 40: return sx64(a,w)<sx64(b,w); default: return sx64(a,w)<=sx64(b,w);} }
static Expr* icmpE(u32 p, Expr*a, Expr*b){ switch (p) { case 32: return S.Eq(a,b); case 33: return S.Not(S.Eq(a,b)); case 34: return S.Ult(b,a); case 35: return S.Ule(b,a); case 36: return S.Ult(a,b); case 37: return S.Ule(a,b); case 38: return S.Slt(b,a); case 39: return S.Sle(b,a); case 40: return S.Slt(a,b); default: return S.Sle(a,b);} }
static Expr* fcmpE(u32 p, Expr*a, Expr*b){ Expr*un=S.Or(S.FNan(a),S.FNan(b)); Expr*r; switch (p&7) { case 0: r=S.F(); break; case 1: r=S.F2(E_FEQ,a,b); break; case 2: r=S.F2(E_FLT,b,a); break; case 3: r=S.F2(E_FLE,b,a); break; case 4: r=S.F2(E_FLT,a,b); break; case 5: r=S.F2(E_FLE,a,b); break; case 6: r=S.And(S.Not(un),S.Not(S.F2(E_FEQ,a,b))); break; default: r=S.Not(un); } if (p==7) return r; if (p&8) { if (p==15) return S.T(); return S.Or(un,r); } return r; }
static bool fcmpC(u32 p, double a, double b){ bool un=a!=a||b!=b; bool r; switch (p&7) { case 0: r=false; break; case 1: r=a==b; break; case 2: r=a>b; break; case 3: r=a>=b; break; case 4: r=a<b; break; case 5: r=a<=b; break; case 6: r=!un&&a!=b; break; default: r=!un; } if (p&8) return p==15||un||r; return r; }
static void binop(u16 op, unsigned w, const Slot&a, const Slot&b, Slot&d) {
  if (!a.e&&!b.e&&w<=64) { u64 M=maskw(w), x=a.lo, y=b.lo, r; switch (op) {
      case I_ADD: r=x+y; break; case I_SUB: r=x-y; break; case I_MUL: r=x*y; break; case I_AND: r=x&y; break; case I_OR: r=x|y; break; case I_XOR: r=x^y; break;
      case I_SHL: r=y>=w?0:x<<y; break; case I_LSHR: r=y>=w?0:x>>y; break; case I_ASHR: r=(u64)(sx64(x,w)>>(y>=w?w-1:y)); break;
      case I_UDIV: if (!y) throw EngineError{"division by zero reached"}; r=x/y; break; case I_UREM: if (!y) throw EngineError{"division by zero reached"}; r=x%y; break;
      case I_SDIV: { i64 p=sx64(x,w), q=sx64(y,w); if (!q) throw EngineError{"division by zero reached"}; r= q==-1? (u64)0-(u64)p: (u64)(p/q); break; }
      case I_SREM: { i64 p=sx64(x,w), q=sx64(y,w); if (!q) throw EngineError{"division by zero reached"}; r= q==-1? 0: (u64)(p%q); break; }
      default: r=Sys::evF2(op==I_FADD?E_FADD:op==I_FSUB?E_FSUB:op==I_FMUL?E_FMUL:op==I_FDIV?E_FDIV:E_FREM,w,x,y); }
    d.lo=r&M; d.hi=0; d.e=nullptr; return; }
  if (!a.e&&!b.e&&w<=128) { u128 M=mask128(w), x=((u128)a.hi<<64)|a.lo, y=((u128)b.hi<<64)|b.lo, r; bool ok=true; switch (op) { case I_ADD: r=x+y; break; case I_SUB: r=x-y; break; case I_MUL: r=x*y; break; case I_AND: r=x&y; break; case I_OR: r=x|y; break; case I_XOR: r=x^y; break;
      case I_SHL: r=y>=w?0:x<<(unsigned)y; break; case I_LSHR: r=y>=w?0:x>>(unsigned)y; break; case I_UDIV: if (!y) throw EngineError{"division by zero reached"}; r=x/y; break; case I_UREM: if (!y) throw EngineError{"division by zero reached"}; r=x%y; break; default: ok=false; }
    if (ok) { r&=M; d.lo=(u64)r; d.hi=(u64)(r>>64); d.e=nullptr; return; } }
  Expr*x=X(a,w),*y=X(b,w),*r; switch (op) { case I_ADD: r=S.Add(x,y); break; case I_SUB: r=S.Sub(x,y); break; case I_MUL: r=S.Mul(x,y); break; case I_AND: r=S.And(x,y); break; case I_OR: r=S.Or(x,y); break; case I_XOR: r=S.Xor(x,y); break; case I_SHL: r=S.Shl(x,y); break; case I_LSHR: r=S.LShr(x,y); break; case I_ASHR: r=S.AShr(x,y); break;
    case I_UDIV: r=S.UDiv(x,y); break; case I_UREM: r=S.URem(x,y); break; case I_SDIV: r=S.SDiv(x,y); break; case I_SREM: r=S.SRem(x,y); break;
    default: r=S.F2(op==I_FADD?E_FADD:op==I_FSUB?E_FSUB:op==I_FMUL?E_FMUL:op==I_FDIV?E_FDIV:E_FREM,x,y); }
  setE(d,r); }
static inline const Slot& opn(const Slot*fp, i32 o){ return o>=0? fp[o] : L.cpool[~o]; }

static bool isPure(u16 op){ return op==I_BR; }
static void execPure(const Inst&in, Slot*fp) {
  switch (in.op) {
    case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM:
      for (unsigned l=0;l<in.lanes;l++) { Slot t; binop(in.op,in.w,opn(fp,Loader::off(in.a,l)),opn(fp,Loader::off(in.b,l)),t); fp[in.dst+l]=t; } return;
    case I_FNEG: for (unsigned l=0;l<in.lanes;l++) { const Slot&a=opn(fp,Loader::off(in.a,l)); Slot t; u64 sb=1ull<<(in.w-1); if (!a.e) { t.lo=a.lo^sb; t.hi=0; t.e=nullptr; } else setE(t,S.Xor(a.e,S.K(in.w,sb))); fp[in.dst+l]=t; } return;
    case I_ICMP: for (unsigned l=0;l<in.lanes;l++) { const Slot&a=opn(fp,Loader::off(in.a,l)),&b=opn(fp,Loader::off(in.b,l)); Slot t; if (!a.e&&!b.e&&in.w2<=64) { t.lo=icmpC(in.x,a.lo,b.lo,in.w2); t.hi=0; t.e=nullptr; } else setE(t,icmpE(in.x,X(a,in.w2),X(b,in.w2))); fp[in.dst+l]=t; } return;
    case I_FCMP: for (unsigned l=0;l<in.lanes;l++) { const Slot&a=opn(fp,Loader::off(in.a,l)),&b=opn(fp,Loader::off(in.b,l)); Slot t; if (!a.e&&!b.e) { double x=in.w2==64?Sys::bd(a.lo):Sys::bf((u32)a.lo), y=in.w2==64?Sys::bd(b.lo):Sys::bf((u32)b.lo); t.lo=fcmpC(in.x,x,y); t.hi=0; t.e=nullptr; } else setE(t,fcmpE(in.x,X(a,in.w2),X(b,in.w2))); fp[in.dst+l]=t; } return;
    case I_SELECT: { Slot tmp[64]; if (in.x>64) throw EngineError{"select"}; for (unsigned l=0;l<in.x;l++) { const Slot&c=opn(fp,in.y?Loader::off(in.a,l):in.a),&a=opn(fp,Loader::off(in.b,l)),&b=opn(fp,Loader::off(in.c,l)); unsigned w=(unsigned)L.A[in.imm+l]; if (!c.e) tmp[l]=c.lo?a:b; else if (!a.e&&!b.e&&a.lo==b.lo&&a.hi==b.hi) tmp[l]=a; else setE(tmp[l],S.Ite(c.e,X(a,w),X(b,w))); } for (unsigned l=0;l<in.x;l++) fp[in.dst+l]=tmp[l]; return; }
    case I_TRUNC: for (unsigned l=0;l<in.lanes;l++) { const Slot&a=opn(fp,Loader::off(in.a,l)); Slot t; if (!a.e) { t.lo=a.lo&maskw(in.w); t.hi= in.w>64? a.hi&maskw(in.w-64):0; t.e=nullptr; } else setE(t,S.Trunc(a.e,in.w)); fp[in.dst+l]=t; } return;
    case I_ZEXT: for (unsigned l=0;l<in.lanes;l++) { const Slot&a=opn(fp,Loader::off(in.a,l)); Slot t; if (!a.e) t=a; else setE(t,S.ZExt(a.e,in.w)); fp[in.dst+l]=t; } return;
    case I_SEXT: for (unsigned l=0;l<in.lanes;l++) { const Slot&a=opn(fp,Loader::off(in.a,l)); Slot t; if (!a.e) { u128 v=(u128)sx128(((u128)a.hi<<64)|a.lo,in.w2)&mask128(in.w); t.lo=(u64)v; t.hi=(u64)(v>>64); t.e=nullptr; } else setE(t,S.SExt(a.e,in.w)); fp[in.dst+l]=t; } return;
    case I_COPY: { if (in.x==1) { fp[in.dst]=opn(fp,in.a); return; } for (unsigned l=0;l<in.x;l++) fp[in.dst+l]=opn(fp,Loader::off(in.a,l)); return; }
    case I_PICK: { Slot tmp[128]; if (in.y>128) throw EngineError{"shuffle"}; for (unsigned l=0;l<in.y;l++) tmp[l]=opn(fp,L.A[in.x+l]); for (unsigned l=0;l<in.y;l++) fp[in.dst+l]=tmp[l]; return; }
    case I_INSERT: { for (unsigned l=0;l<in.x;l++) { if (l>=in.y&&l<in.y+in.imm) fp[in.dst+l]=opn(fp,Loader::off(in.b,l-in.y)); else fp[in.dst+l]=opn(fp,Loader::off(in.a,l)); } return; }
    case I_BITCAST: { unsigned sw=in.w2, sl=in.x, dw=in.w, dl=in.lanes; bool conc=true; for (unsigned l=0;l<sl;l++) if (opn(fp,Loader::off(in.a,l)).e) conc=false; 
      if (conc) { u8 bits[1024]; unsigned n=sw*sl; if (n>1024) throw EngineError{"bitcast"}; for (unsigned l=0;l<sl;l++) { const Slot&a=opn(fp,Loader::off(in.a,l)); for (unsigned k=0;k<sw;k++) bits[l*sw+k]= k<64? a.lo>>k&1 : a.hi>>(k-64)&1; } for (unsigned l=0;l<dl;l++) { Slot t{0,0,nullptr}; for (unsigned k=0;k<dw;k++) if (bits[l*dw+k]) { if (k<64) t.lo|=1ull<<k; else t.hi|=1ull<<(k-64); } fp[in.dst+l]=t; } return; }
      if (dw>=sw) { unsigned r=dw/sw; std::vector<Slot> tmp(dl); for (unsigned l=0;l<dl;l++) { Expr*e=X(opn(fp,Loader::off(in.a,l*r+r-1)),sw); for (int k=(int)r-2;k>=0;k--) e=S.Concat(e,X(opn(fp,Loader::off(in.a,l*r+k)),sw)); setE(tmp[l],e); } for (unsigned l=0;l<dl;l++) fp[in.dst+l]=tmp[l]; }
      else { unsigned r=sw/dw; std::vector<Slot> tmp(dl); for (unsigned l=0;l<dl;l++) setE(tmp[l],S.Extract(X(opn(fp,Loader::off(in.a,l/r)),sw),(l%r)*dw,dw)); for (unsigned l=0;l<dl;l++) fp[in.dst+l]=tmp[l]; }
      return; }
    case I_GEP: { const Slot&a=opn(fp,in.a); bool s=a.e; for (unsigned k=0;k<in.y&&!s;k++) s=opn(fp,L.A[in.x+3*k]).e; Slot t; t.hi=0; t.e=nullptr;
      if (!s) { u64 r=a.lo+in.imm; for (unsigned k=0;k<in.y;k++) { const Slot&ix=opn(fp,L.A[in.x+3*k]); r+=(u64)(sx64(ix.lo,(unsigned)L.A[in.x+3*k+2])*(i64)L.A[in.x+3*k+1]); } t.lo=r; }
      else { Expr*e=S.Add(X(a,64),S.K(64,in.imm)); for (unsigned k=0;k<in.y;k++) { unsigned w=(unsigned)L.A[in.x+3*k+2]; Expr*ix=X(opn(fp,L.A[in.x+3*k]),w); ix=w<64?S.SExt(ix,64):S.Trunc(ix,64); e=S.Add(e,S.Mul(ix,S.K(64,(u64)(i64)L.A[in.x+3*k+1]))); } setE(t,e); }
      fp[in.dst]=t; return; }
    case I_SITOFP: case I_UITOFP: for (unsigned l=0;l<in.lanes;l++) { Slot t; setE(t,S.I2F(in.op==I_SITOFP,X(opn(fp,Loader::off(in.a,l)),in.w2),in.w)); fp[in.dst+l]=t; } return;
    case I_FPTOSI: case I_FPTOUI: for (unsigned l=0;l<in.lanes;l++) { Slot t; setE(t,S.F2I(in.op==I_FPTOSI,X(opn(fp,Loader::off(in.a,l)),in.w2),in.w)); fp[in.dst+l]=t; } return;
    case I_FPEXT: { const Slot&a=opn(fp,in.a); if (a.e) setE(fp[in.dst],S.raw1(E_FEXT,64,a.e)); else ret(frames.back(),in,Sys::db((double)Sys::bf((u32)a.lo))); return; }
    case I_FPTRUNC: { const Slot&a=opn(fp,in.a); if (a.e) setE(fp[in.dst],S.raw1(E_FTRUNC,32,a.e)); else ret(frames.back(),in,Sys::fb((float)Sys::bd(a.lo))); return; }
  }
  throw EngineError{"execPure op"}; }

static Expr* ctpopE(Expr*x){ unsigned w=x->w; Expr*r=S.K(w,0); for (unsigned i=0;i<w;i++) r=S.Add(r,S.ZExt(S.Extract(x,i,1),w==1?1:w)); return r; }
static Expr* cttzE(Expr*x){ unsigned w=x->w; Expr*r=S.K(w,w); for (int i=(int)w-1;i>=0;i--) r=S.Ite(S.Extract(x,i,1),S.K(w,i),r); return r; }
static Expr* ctlzE(Expr*x){ unsigned w=x->w; Expr*r=S.K(w,w); for (unsigned i=0;i<w;i++) r=S.Ite(S.Extract(x,i,1),S.K(w,w-1-i),r); return r; }
static Expr* bswapE(Expr*x){ unsigned n=x->w/8; Expr*r=S.Extract(x,0,8); for (unsigned i=1;i<n;i++) r=S.Concat(r,S.Extract(x,8*i,8)); return r; }
static Expr* brevE(Expr*x){ Expr*r=S.Extract(x,0,1); for (unsigned i=1;i<x->w;i++) r=S.Concat(r,S.Extract(x,i,1)); return r; }
static bool pre(const std::string&n,const char*p){ return n.compare(0,strlen(p),p)==0; }
enum N : int { N_UNK, N_MEMCPY, N_MEMMOVE, N_MEMSET, N_UADDO, N_SADDO, N_USUBO, N_SSUBO, N_UMULO, N_SMULO, N_UMIN, N_UMAX, N_SMIN, N_SMAX, N_UADDS, N_SADDS, N_USUBS, N_SSUBS, N_FSHL, N_FSHR, N_CTPOP, N_CTLZ, N_CTTZ, N_BSWAP, N_BREV, N_ABS, N_F2SI, N_F2UI, N_FLOOR, N_CEIL, N_TRUNC, N_RINT, N_ROUND, N_SQRT, N_FABS, N_COPYSIGN, N_MINNUM, N_MAXNUM, N_FPCLASS, N_TLADDR, N_EXPECT, N_TRAP, N_POW, N_MATH, N_FMA, N_RED_OR, N_RED_AND, N_RED_ADD, N_RED_XOR, N_UCMP, N_SCMP, N_PTRMASK, N_ISCONST, N_POWI, N_RED_UMAX, N_RED_UMIN, N_RED_SMAX, N_RED_SMIN, N_RED_MUL, N_PMOVMSKB, N_NOP0 };
static std::vector<int> intrKind;
static int classify(const std::string&n) {
  static const std::pair<const char*,int> t[]={{"llvm.memcpy",N_MEMCPY},{"llvm.memmove",N_MEMMOVE},{"llvm.memset",N_MEMSET},{"llvm.uadd.with",N_UADDO},{"llvm.sadd.with",N_SADDO},{"llvm.usub.with",N_USUBO},{"llvm.ssub.with",N_SSUBO},{"llvm.umul.with",N_UMULO},{"llvm.smul.with",N_SMULO},{"llvm.umin.",N_UMIN},{"llvm.umax.",N_UMAX},{"llvm.smin.",N_SMIN},{"llvm.smax.",N_SMAX},{"llvm.uadd.sat",N_UADDS},{"llvm.sadd.sat",N_SADDS},{"llvm.usub.sat",N_USUBS},{"llvm.ssub.sat",N_SSUBS},{"llvm.fshl",N_FSHL},{"llvm.fshr",N_FSHR},{"llvm.ctpop",N_CTPOP},{"llvm.ctlz",N_CTLZ},{"llvm.cttz",N_CTTZ},{"llvm.bswap",N_BSWAP},{"llvm.bitreverse",N_BREV},{"llvm.abs.",N_ABS},{"llvm.fptosi.sat",N_F2SI},{"llvm.fptoui.sat",N_F2UI},{"llvm.floor",N_FLOOR},{"llvm.ceil",N_CEIL},{"llvm.trunc",N_TRUNC},{"llvm.rint",N_RINT},{"llvm.roundeven",N_RINT},{"llvm.nearbyint",N_RINT},{"llvm.round.",N_ROUND},{"llvm.sqrt",N_SQRT},{"llvm.fabs",N_FABS},{"llvm.copysign",N_COPYSIGN},{"llvm.minnum",N_MINNUM},{"llvm.maxnum",N_MAXNUM},{"llvm.minimumnum",N_MINNUM},{"llvm.maximumnum",N_MAXNUM},{"llvm.is.fpclass",N_FPCLASS},{"llvm.threadlocal.address",N_TLADDR},{"llvm.expect",N_EXPECT},{"llvm.trap",N_TRAP},{"llvm.ubsantrap",N_TRAP},{"llvm.debugtrap",N_TRAP},{"llvm.powi",N_POWI},{"llvm.pow.",N_POW},{"llvm.exp",N_MATH},{"llvm.log",N_MATH},{"llvm.sin",N_MATH},{"llvm.cos",N_MATH},{"llvm.tan",N_MATH},{"llvm.fma",N_FMA},{"llvm.fmuladd",N_FMA},{"llvm.vector.reduce.or",N_RED_OR},{"llvm.vector.reduce.and",N_RED_AND},{"llvm.vector.reduce.add",N_RED_ADD},{"llvm.vector.reduce.xor",N_RED_XOR},{"llvm.vector.reduce.umax",N_RED_UMAX},{"llvm.vector.reduce.umin",N_RED_UMIN},{"llvm.vector.reduce.smax",N_RED_SMAX},{"llvm.vector.reduce.smin",N_RED_SMIN},{"llvm.vector.reduce.mul",N_RED_MUL},{"llvm.ucmp",N_UCMP},{"llvm.scmp",N_SCMP},{"llvm.ptrmask",N_PTRMASK},{"llvm.is.constant",N_ISCONST},{"llvm.x86.sse2.pmovmskb",N_PMOVMSKB},{"llvm.x86.sse2.pause",N_NOP0},{"llvm.va_",N_UNK}};
  for (auto&p:t) if (pre(n,p.first)) return p.second; return N_UNK; }
static void intrinsic(Frame&fr, const Inst&in) {
  Slot*fp=fr.fp; int k=intrKind[in.imm]; const i32*ar=&L.A[in.x]; unsigned n=(unsigned)in.b; unsigned ln=in.lanes?in.lanes:1, w=in.w; auto a=[&](unsigned i)->const Slot&{ return opn(fp,ar[i]); };
  auto V=[&](unsigned i){ return cval(a(i)); };
  auto E=[&](unsigned arg, unsigned l){ return X(a(arg*ln+l),w); };
  auto put=[&](unsigned l, Expr*e){ setE(fp[in.dst+l],e); };
  if (w<=64) switch (k) { // all-concrete operands of the common operations
    case N_UMIN: case N_UMAX: case N_SMIN: case N_SMAX: case N_UADDS: case N_USUBS: { bool c=true; for (unsigned i=0;i<2*ln;i++) if (a(i).e) { c=false; break; } if (!c) break; Slot t[64]; if (ln>64) break;
      for (unsigned l=0;l<ln;l++) { u64 x=a(l).lo,y=a(ln+l).lo,M=maskw(w),r; switch (k) { case N_UMIN: r=x<y?x:y; break; case N_UMAX: r=x<y?y:x; break; case N_SMIN: r=sx64(x,w)<sx64(y,w)?x:y; break; case N_SMAX: r=sx64(x,w)<sx64(y,w)?y:x; break; case N_UADDS: r=((u128)x+y)>M?M:x+y; break; default: r=x<y?0:x-y; } t[l]={r,0,nullptr}; }
      for (unsigned l=0;l<ln;l++) fp[in.dst+l]=t[l]; return; }
    case N_FSHL: case N_FSHR: if (ln==1&&!a(0).e&&!a(1).e&&!a(2).e) { unsigned z=(unsigned)(a(2).lo%w); u64 x=a(0).lo,y=a(1).lo,r; if (k==N_FSHL) r= z? (x<<z)|(y>>(w-z)) : x; else r= z? (x<<(w-z))|(y>>z) : y; fp[in.dst]={r&maskw(w),0,nullptr}; return; } break;
    case N_BSWAP: if (ln==1&&!a(0).e) { fp[in.dst]={__builtin_bswap64(a(0).lo)>>(64-w),0,nullptr}; return; } break;
    case N_ABS: if (ln==1&&!a(0).e) { i64 v=sx64(a(0).lo,w); fp[in.dst]={(u64)(v<0?(u64)0-(u64)v:(u64)v)&maskw(w),0,nullptr}; return; } break;
    case N_UCMP: case N_SCMP: if (!a(0).e&&!a(1).e&&in.w2<=64) { u64 x=a(0).lo,y=a(1).lo; bool lt=k==N_UCMP?x<y:sx64(x,in.w2)<sx64(y,in.w2); fp[in.dst]={(lt?~0ull:x==y?0ull:1ull)&maskw(w),0,nullptr}; return; } break;
    case N_PMOVMSKB: { u64 r=0; bool c=true; for (unsigned i=0;i<n;i++) { const Slot&x=a(i); if (x.e) { c=false; break; } r|=(x.lo>>7&1)<<i; } if (c) { fp[in.dst]={r,0,nullptr}; return; } break; }
    case N_RED_OR: case N_RED_AND: { u64 r=k==N_RED_OR?0:maskw(w); bool c=true; for (unsigned i=0;i<n;i++) { const Slot&x=a(i); if (x.e) { c=false; break; } if (k==N_RED_OR) r|=x.lo; else r&=x.lo; } if (c) { fp[in.dst]={r,0,nullptr}; return; } break; }
  }
  switch (k) {
    case N_MEMCPY: case N_MEMMOVE: { u64 d=V(0), s=V(1), c=V(2); memMove(d,s,c); return; }
    case N_MEMSET: { u64 d=V(0), c=V(2); if (!c) return; chk(d,c,"memory write"); clearSym(d,c); if (a(1).e) { for (u64 i=0;i<c;i++) setByte(d+i,a(1).e,0); } else memset((void*)d,(int)a(1).lo,c); return; }
    case N_UADDO: case N_SADDO: case N_USUBO: case N_SSUBO: case N_UMULO: case N_SMULO: { std::vector<Slot> r(2*ln); for (unsigned l=0;l<ln;l++) { const Slot&x=a(l),&y=a(ln+l); if (!x.e&&!y.e&&w<=64) { u64 M=maskw(w), v; bool o; i128 sx=sx64(x.lo,w), sy=sx64(y.lo,w), sr; u128 ur; switch (k) { case N_UADDO: ur=(u128)x.lo+y.lo; v=(u64)ur&M; o=ur>M; break; case N_USUBO: v=(x.lo-y.lo)&M; o=x.lo<y.lo; break; case N_UMULO: ur=(u128)x.lo*y.lo; v=(u64)ur&M; o=ur>M; break; default: sr=k==N_SADDO?sx+sy:k==N_SSUBO?sx-sy:sx*sy; v=(u64)sr&M; o=sr!=(i128)sx64(v,w); } r[l]={v,0,nullptr}; r[ln+l]={o,0,nullptr}; continue; }
        Expr*p=X(x,w),*q=X(y,w),*v,*o; unsigned t=w-1; switch (k) { case N_UADDO: v=S.Add(p,q); o=S.Ult(v,p); break; case N_USUBO: v=S.Sub(p,q); o=S.Ult(p,q); break; case N_UMULO: v=S.Mul(p,q); o=S.UMulO(p,q); break;
          case N_SADDO: v=S.Add(p,q); o=S.Extract(S.And(S.Xor(p,v),S.Xor(q,v)),t,1); break; case N_SSUBO: v=S.Sub(p,q); o=S.Extract(S.And(S.Xor(p,q),S.Xor(p,v)),t,1); break; default: v=S.Mul(p,q); o=S.SMulO(p,q); }
        setE(r[l],v); setE(r[ln+l],o); } for (unsigned i=0;i<2*ln;i++) fp[in.dst+i]=r[i]; return; }
    case N_UMIN: case N_UMAX: case N_SMIN: case N_SMAX: { std::vector<Slot> r(ln); for (unsigned l=0;l<ln;l++) { Expr*x=E(0,l),*y=E(1,l); Expr*c=k==N_UMIN?S.Ult(x,y):k==N_UMAX?S.Ult(y,x):k==N_SMIN?S.Slt(x,y):S.Slt(y,x); setE(r[l],S.Ite(c,x,y)); } for (unsigned l=0;l<ln;l++) fp[in.dst+l]=r[l]; return; }
    case N_UADDS: case N_USUBS: case N_SADDS: case N_SSUBS: { std::vector<Slot> r(ln); for (unsigned l=0;l<ln;l++) { Expr*x=E(0,l),*y=E(1,l); Expr*v; if (k==N_UADDS) { v=S.Add(x,y); v=S.Ite(S.Ult(v,x),S.K(w,~(u128)0),v); } else if (k==N_USUBS) v=S.Ite(S.Ult(x,y),S.K(w,0),S.Sub(x,y)); else { Expr*s=k==N_SADDS?S.Add(x,y):S.Sub(x,y); Expr*o=k==N_SADDS?S.Extract(S.And(S.Xor(x,s),S.Xor(y,s)),w-1,1):S.Extract(S.And(S.Xor(x,y),S.Xor(x,s)),w-1,1); v=S.Ite(o,S.Ite(S.Extract(x,w-1,1),S.K(w,(u128)1<<(w-1)),S.K(w,mask128(w)>>1)),s); } setE(r[l],v); } for (unsigned l=0;l<ln;l++) fp[in.dst+l]=r[l]; return; }
    case N_FSHL: case N_FSHR: { std::vector<Slot> r(ln); for (unsigned l=0;l<ln;l++) { Expr*x=E(0,l),*y=E(1,l),*z=S.URem(E(2,l),S.K(w,w)); Expr*v; if (Sys::isC(z)) { unsigned s=(unsigned)z->lo; if (k==N_FSHR) s=s?w-s:w; if (s==0) v=x; else if (s==w) v=y; else v=S.Or(S.Shl(x,S.K(w,s)),S.LShr(y,S.K(w,w-s))); } else { Expr*inv=S.Sub(S.K(w,w),z); if (k==N_FSHL) v=S.Ite(S.Eq(z,S.K(w,0)),x,S.Or(S.Shl(x,z),S.LShr(y,inv))); else v=S.Ite(S.Eq(z,S.K(w,0)),y,S.Or(S.Shl(x,inv),S.LShr(y,z))); } setE(r[l],v); } for (unsigned l=0;l<ln;l++) fp[in.dst+l]=r[l]; return; }
    case N_CTPOP: for (unsigned l=0;l<ln;l++) { const Slot x=a(l); if (!x.e) fp[in.dst+l]={(u64)(__builtin_popcountll(x.lo)+__builtin_popcountll(x.hi)),0,nullptr}; else put(l,ctpopE(x.e)); } return;
    case N_CTLZ: for (unsigned l=0;l<ln;l++) { const Slot x=a(l); if (!x.e&&w<=64) fp[in.dst+l]={x.lo?(u64)__builtin_clzll(x.lo)-(64-w):w,0,nullptr}; else put(l,ctlzE(X(x,w))); } return;
    case N_CTTZ: for (unsigned l=0;l<ln;l++) { const Slot x=a(l); if (!x.e&&w<=64) fp[in.dst+l]={x.lo?(u64)__builtin_ctzll(x.lo):w,0,nullptr}; else put(l,cttzE(X(x,w))); } return;
    case N_BSWAP: for (unsigned l=0;l<ln;l++) put(l,bswapE(E(0,l))); return;
    case N_BREV: for (unsigned l=0;l<ln;l++) put(l,brevE(E(0,l))); return;
    case N_ABS: for (unsigned l=0;l<ln;l++) { Expr*x=E(0,l); put(l,S.Ite(S.Extract(x,w-1,1),S.Neg(x),x)); } return;
    case N_F2SI: case N_F2UI: for (unsigned l=0;l<ln;l++) put(l,S.F2I(k==N_F2SI,X(a(l),in.w2),w)); return;
    case N_FLOOR: case N_CEIL: case N_TRUNC: case N_RINT: case N_ROUND: put(0,S.F1(E_FROUND,E(0,0),k==N_FLOOR?0:k==N_CEIL?1:k==N_TRUNC?2:k==N_RINT?3:4)); return;
    case N_SQRT: put(0,S.F1(E_FSQRT,E(0,0))); return;
    case N_FABS: put(0,S.And(E(0,0),S.K(w,mask128(w)>>1))); return;
    case N_COPYSIGN: put(0,S.Or(S.And(E(0,0),S.K(w,mask128(w)>>1)),S.And(E(1,0),S.K(w,(u128)1<<(w-1))))); return;
    case N_MINNUM: case N_MAXNUM: { Expr*x=E(0,0),*y=E(1,0); Expr*c=k==N_MINNUM?S.F2(E_FLT,x,y):S.F2(E_FLT,y,x); put(0,S.Ite(S.FNan(x),y,S.Ite(S.FNan(y),x,S.Ite(c,x,y)))); return; }
    case N_FPCLASS: { unsigned fw=in.w2; Expr*x=X(a(0),fw); u64 m=V(1); unsigned mb=fw==64?52:23; Expr*mag=S.Extract(x,0,fw-1); Expr*sg=S.Extract(x,fw-1,1); Expr*inf=S.K(fw-1,(u128)(fw==64?0x7FF:0xFF)<<mb); Expr*minn=S.K(fw-1,(u128)1<<mb); Expr*quiet=S.Extract(x,mb-1,1); Expr*nan=S.Ult(inf,mag);
        Expr*isInf=S.Eq(mag,inf),*zero=S.Eq(mag,S.K(fw-1,0)); Expr*sub=S.And(S.Not(zero),S.Ult(mag,minn)); Expr*nor=S.And(S.Ule(minn,mag),S.Ult(mag,inf)); Expr*r=S.F(); Expr*ps=S.Not(sg);
        if (m&1) r=S.Or(r,S.And(nan,S.Not(quiet))); if (m&2) r=S.Or(r,S.And(nan,quiet)); if (m&4) r=S.Or(r,S.And(isInf,sg)); if (m&8) r=S.Or(r,S.And(nor,sg)); if (m&16) r=S.Or(r,S.And(sub,sg)); if (m&32) r=S.Or(r,S.And(zero,sg)); if (m&64) r=S.Or(r,S.And(zero,ps)); if (m&128) r=S.Or(r,S.And(sub,ps)); if (m&256) r=S.Or(r,S.And(nor,ps)); if (m&512) r=S.Or(r,S.And(isInf,ps)); put(0,r); return; }
    case N_TLADDR: case N_EXPECT: fp[in.dst]=a(0); return;
    case N_ISCONST: fp[in.dst]={0,0,nullptr}; return;
    case N_NOP0: return;
    case N_TRAP: violation("trap","trap","trap instruction",S.model); throw PathEnd{};
    case N_POW: if (a(0).e||a(1).e) throw EngineError{"symbolic pow"}; ret(fr,in,Sys::db(pow(Sys::bd(a(0).lo),Sys::bd(a(1).lo)))); return;
    case N_POWI: if (a(0).e||a(1).e) throw EngineError{"symbolic powi"}; ret(fr,in,Sys::db(__builtin_powi(Sys::bd(a(0).lo),(int)a(1).lo))); return;
    case N_MATH: { if (a(0).e) throw EngineError{"symbolic math"}; std::string nm=L.intrNames[in.imm].substr(5); nm=nm.substr(0,nm.find('.')); ret(fr,in,Sys::db(math1(nm,Sys::bd(a(0).lo)))); return; }
    case N_FMA: if (a(0).e||a(1).e||a(2).e) throw EngineError{"symbolic fma"}; ret(fr,in,Sys::db(fma(Sys::bd(a(0).lo),Sys::bd(a(1).lo),Sys::bd(a(2).lo)))); return;
    case N_RED_OR: case N_RED_AND: case N_RED_ADD: case N_RED_XOR: case N_RED_UMAX: case N_RED_UMIN: case N_RED_SMAX: case N_RED_SMIN: case N_RED_MUL: { Expr*r=X(a(0),w); for (unsigned i=1;i<n;i++) { Expr*y=X(a(i),w); switch (k) { case N_RED_OR: r=S.Or(r,y); break; case N_RED_AND: r=S.And(r,y); break; case N_RED_ADD: r=S.Add(r,y); break; case N_RED_XOR: r=S.Xor(r,y); break; case N_RED_MUL: r=S.Mul(r,y); break; case N_RED_UMAX: r=S.Ite(S.Ult(r,y),y,r); break; case N_RED_UMIN: r=S.Ite(S.Ult(r,y),r,y); break; case N_RED_SMAX: r=S.Ite(S.Slt(r,y),y,r); break; default: r=S.Ite(S.Slt(r,y),r,y); } } put(0,r); return; }
    case N_UCMP: case N_SCMP: { unsigned sw=in.w2; Expr*x=X(a(0),sw),*y=X(a(1),sw); Expr*lt=k==N_UCMP?S.Ult(x,y):S.Slt(x,y); put(0,S.Ite(lt,S.K(w,~(u128)0),S.Ite(S.Eq(x,y),S.K(w,0),S.K(w,1)))); return; }
    case N_PTRMASK: put(0,S.And(X(a(0),64),X(a(1),64))); return;
    case N_PMOVMSKB: { Expr*r=S.K(32,0); for (unsigned i=0;i<n;i++) r=S.Or(r,S.Shl(S.ZExt(S.Extract(X(a(i),8),7,1),32),S.K(32,i))); put(0,r); return; }
  }
  throw EngineError{"intrinsic "+L.intrNames[in.imm]}; }

static void takeEdge(Frame&fr, u32 ei) { const Edge&e=L.edges[ei]; Slot*fp=fr.fp; const i32*m=&L.A[e.mv]; if (!e.tmp) { for (unsigned i=0;i<e.n;i++) fp[m[3*i]]=opn(fp,m[3*i+1]); } else { Slot tmp[64]; std::vector<Slot> big; Slot*t=tmp; if (e.n>64) { big.resize(e.n); t=big.data(); } for (unsigned i=0;i<e.n;i++) t[i]=opn(fp,m[3*i+1]); for (unsigned i=0;i<e.n;i++) fp[m[3*i]]=t[i]; } fr.ip=e.pc; }
// if-conversion of short side-effect-free arms when the condition is symbolic
static bool mergeArms(Frame&fr, const Inst&in, Expr*c) {
  const Edge&et=L.edges[in.x],&ef=L.edges[in.y]; BlockInfo&bt=fr.f->blocks[et.block],&bf=fr.f->blocks[ef.block]; u32 jt=0,jf=0; bool pt=bt.pure&&bt.npred==1&&et.n==0, pf=bf.pure&&bf.npred==1&&ef.n==0;
  if (et.block==ef.block) { jt=in.x; jf=in.y; pt=pf=false; }
  else if (pt&&L.edges[bt.edge].block==ef.block) { jt=bt.edge; jf=in.y; pf=false; }
  else if (pf&&L.edges[bf.edge].block==et.block) { jt=in.x; jf=bf.edge; pt=false; }
  else if (pt&&pf&&L.edges[bt.edge].block==L.edges[bf.edge].block) { jt=bt.edge; jf=bf.edge; }
  else return false;
  const Edge&a=L.edges[jt],&b=L.edges[jf]; if (a.n!=b.n) return false;
  Slot*fp=fr.fp;
  if (pt) for (u32 i=bt.start;fr.f->code[i].op!=I_BR;i++) { execPure(fr.f->code[i],fp); steps++; }
  if (pf) for (u32 i=bf.start;fr.f->code[i].op!=I_BR;i++) { execPure(fr.f->code[i],fp); steps++; }
  const i32*ma=&L.A[a.mv],*mb=&L.A[b.mv]; std::vector<Slot> r(a.n);
  for (unsigned i=0;i<a.n;i++) { if (ma[3*i]!=mb[3*i]) return false; const Slot&x=opn(fp,ma[3*i+1]),&y=opn(fp,mb[3*i+1]); if (!x.e&&!y.e&&x.lo==y.lo&&x.hi==y.hi) { r[i]=x; continue; }
    unsigned w=(unsigned)ma[3*i+2]; if (!w||w>128) return false; setE(r[i],S.Ite(c,X(x,w),X(y,w))); }
  for (unsigned i=0;i<a.n;i++) fp[ma[3*i]]=r[i];
  fr.ip=a.pc; return true; }

static void pushFrame(Func*f, const std::vector<Slot>& args, i32 dst, u32 nret) {
  if (slotTop+f->nslots+64>SLOTS||frames.size()>200000) { violation("stack","stack-overflow","guest stack exhausted",S.model); throw PathEnd{}; }
  Slot*fp=slotStack+slotTop; slotTop+=f->nslots; for (size_t i=0;i<args.size()&&i<f->nslots;i++) fp[i]=args[i]; fnHit[f->idx]=1; frames.push_back(Frame{f,0,fp,guestSP,dst,nret}); }
static void call(Func*f, std::vector<Slot>& args, const Inst&in) {
  if (f->panicky) doPanic(f,args);
  if (f->decl) { external(frames.back(),in,f,args); return; }
  if (f->code.empty()) throw EngineError{"function without code "+f->name};
  pushFrame(f,args,in.dst,(u32)in.c); }
static void run() {
  std::vector<Slot> args;
  while (true) {
    Frame&fr=frames.back(); Slot*fp=fr.fp; const Inst&in=fr.f->code[fr.ip++]; 
    if (__builtin_expect((++steps&0xfffff)==0,0)) { if (steps>optSteps) { violation("hang","termination","still running after "+std::to_string(optSteps/1000000)+"M instructions",S.model); return; } if (sh->stopAll) { incomplete("time limit"); return; } if (me->stop) return; me->steps+=steps-stepsFlushed; stepsFlushed=steps; }
    switch (in.op) {
      case I_ADD: case I_SUB: case I_AND: case I_OR: case I_XOR: if (in.lanes==1&&in.w<=64) { const Slot&a=opn(fp,in.a),&b=opn(fp,in.b); if (!a.e&&!b.e) { u64 r; switch (in.op) { case I_ADD: r=a.lo+b.lo; break; case I_SUB: r=a.lo-b.lo; break; case I_AND: r=a.lo&b.lo; break; case I_OR: r=a.lo|b.lo; break; default: r=a.lo^b.lo; } Slot&d=fp[in.dst]; d.lo=r&maskw(in.w); d.hi=0; d.e=nullptr; break; } } execPure(in,fp); break;
      case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: { for (unsigned l=0;l<in.lanes;l++) { const Slot&b=opn(fp,Loader::off(in.b,l)); if (b.e) { if (decide(S.Eq(b.e,S.K(in.w,0)))) { violation("trap","division-by-zero","division by zero",S.model); return; } } } execPure(in,fp); break; }
      case I_MUL: case I_SHL: case I_LSHR: case I_ASHR: case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM: case I_FNEG: case I_ICMP: case I_FCMP: case I_SELECT: case I_TRUNC: case I_ZEXT: case I_SEXT: case I_COPY: case I_BITCAST: case I_PICK: case I_INSERT: case I_GEP: case I_SITOFP: case I_UITOFP: case I_FPTOSI: case I_FPTOUI: case I_FPEXT: case I_FPTRUNC: execPure(in,fp); break;
      case I_LOAD: { const Slot&a=opn(fp,in.a); if (a.e) { Slot t; loadSym(a.e,in.w,in.x,t); fp[in.dst]=t; } else { chk(a.lo,in.x,"load"); loadRaw(a.lo,in.w,in.x,fp[in.dst]); } break; }
      case I_STORE: { const Slot&a=opn(fp,in.a); if (a.e) storeSym(a.e,in.w,in.x,opn(fp,in.b)); else { chk(a.lo,in.x,"store"); storeRaw(a.lo,in.w,in.x,opn(fp,in.b)); } break; }
      case I_LOADBITS: { u64 a=cval(opn(fp,in.a)); chk(a,in.x,"load"); Slot t; loadRaw(a,in.x*8,in.x,t); for (u32 k=0;k<in.lanes;k++) setE(fp[in.dst+k],S.Extract(X(t,in.x*8),k*in.w,in.w)); break; }
      case I_STOREBITS: { u64 a=cval(opn(fp,in.a)); chk(a,in.x,"store"); Expr*r=X(opn(fp,Loader::off(in.b,in.lanes-1)),in.w); for (int k=(int)in.lanes-2;k>=0;k--) r=S.Concat(r,X(opn(fp,Loader::off(in.b,k)),in.w)); Slot t; setE(t,r); storeRaw(a,in.x*8,in.x,t); break; }
      case I_LOADN: { u64 a=cval(opn(fp,in.a)); for (u32 k=0;k<in.y;k++) { const Piece&p=L.pieces[in.x+k]; chk(a+p.off,p.bytes,"load"); loadRaw(a+p.off,p.w,p.bytes,fp[in.dst+k]); } break; }
      case I_STOREN: { u64 a=cval(opn(fp,in.a)); for (u32 k=0;k<in.y;k++) { const Piece&p=L.pieces[in.x+k]; chk(a+p.off,p.bytes,"store"); storeRaw(a+p.off,p.w,p.bytes,opn(fp,Loader::off(in.b,k))); } break; }
      case I_ALLOCA: { u64 n=in.imm*cval(opn(fp,in.a)); u64 a=(guestSP-n-16)/in.x*in.x; if (a<STACK_LO) { violation("stack","stack-overflow","guest stack exhausted",S.model); return; } guestSP=a; clearSym(a,n?n:1); if (n) unpoison(a,n); ret(fr,in,a); break; }
      case I_CALL: { args.resize(in.b); for (i32 k=0;k<in.b;k++) args[k]=opn(fp,L.A[in.x+k]); call((Func*)in.imm,args,in); break; }
      case I_CALLIND: { args.resize(in.b); for (i32 k=0;k<in.b;k++) args[k]=opn(fp,L.A[in.x+k]); u64 a=cval(opn(fp,in.a)); u64 ix=(a-FN_BASE)/16; if (a<FN_BASE||ix>=L.funcs.size()||(a&15)) { violation("memory","memory-safety","call through a wild function pointer",S.model); return; } call(L.funcs[ix],args,in); break; }
      case I_INTR: intrinsic(fr,in); break;
      case I_RET: { if (guestSP<fr.sp) { clearSym(guestSP,fr.sp-guestSP); poison(guestSP&~7ull,fr.sp-guestSP); } guestSP=fr.sp; Frame done=fr; slotTop-=done.f->nslots; frames.pop_back(); if (frames.empty()) return; Slot*cp=frames.back().fp; if (done.dst>=0) { if (in.x==1) cp[done.dst]=opn(done.fp,in.a); else for (u32 k=0;k<in.x;k++) cp[done.dst+k]=opn(done.fp,Loader::off(in.a,k)); } break; }
      case I_BR: takeEdge(fr,in.x); break;
      case I_CONDBR: { const Slot&c=opn(fp,in.a); if (!c.e) { takeEdge(fr,c.lo?in.x:in.y); break; } Expr*ce=c.e; if (!optConcrete&&mergeArms(fr,in,ce)) break; bool r=decide(ce); takeEdge(frames.back(),r?in.x:in.y); break; }
      case I_SWITCH: { const Slot&c=opn(fp,in.a); SwitchTab&s=L.sw[in.x]; if (!c.e) { u32 e=s.def; if (!s.dense.empty()) { u64 ix=c.lo-s.lo; if (ix<s.dense.size()) e=s.dense[ix]; } else { auto it=std::lower_bound(s.cases.begin(),s.cases.end(),std::make_pair(c.lo,0u)); if (it!=s.cases.end()&&it->first==c.lo) e=it->second; } takeEdge(fr,e); break; }
          Expr*ce=c.e; std::vector<std::pair<u32,Expr*>> groups; Expr*rest=S.T(); for (size_t k=0;k<s.cases.size();) { size_t j=k; while (j+1<s.cases.size()&&s.cases[j+1].first==s.cases[j].first+1&&s.cases[j+1].second==s.cases[k].second) j++; Expr*cond= j==k? S.Eq(ce,S.K(s.w,s.cases[k].first)): S.And(S.Ule(S.K(s.w,s.cases[k].first),ce),S.Ule(ce,S.K(s.w,s.cases[j].first))); bool f=false; for (auto&g:groups) if (g.first==s.cases[k].second) { g.second=S.Or(g.second,cond); f=true; } if (!f) groups.push_back({s.cases[k].second,cond}); k=j+1; }
          bool taken=false; for (auto&g:groups) { if (g.first==s.def) continue; if (decide(g.second)) { takeEdge(frames.back(),g.first); taken=true; break; } } if (!taken) takeEdge(frames.back(),s.def); break; }
      case I_UNREACHABLE: violation("ub","unreachable","unreachable code reached",S.model); return;
      case I_EXTRELT: { u64 ix=cval(opn(fp,in.b)); fp[in.dst]=opn(fp,Loader::off(in.a,ix%in.x)); break; }
      case I_INSELT: { u64 ix=cval(opn(fp,in.c)); for (u32 k=0;k<in.x;k++) fp[in.dst+k]= k==ix? opn(fp,in.b):opn(fp,Loader::off(in.a,k)); break; }
      case I_RMW: { u64 a=cval(opn(fp,in.a)); chk(a,in.x,"store"); Slot o,n; loadRaw(a,in.w,in.x,o); const Slot b=opn(fp,in.b); switch (in.y) { case LLVMAtomicRMWBinOpXchg: n=b; break; case LLVMAtomicRMWBinOpAdd: binop(I_ADD,in.w,o,b,n); break; case LLVMAtomicRMWBinOpSub: binop(I_SUB,in.w,o,b,n); break; case LLVMAtomicRMWBinOpAnd: binop(I_AND,in.w,o,b,n); break; case LLVMAtomicRMWBinOpOr: binop(I_OR,in.w,o,b,n); break; case LLVMAtomicRMWBinOpXor: binop(I_XOR,in.w,o,b,n); break; case LLVMAtomicRMWBinOpUMax: setE(n,S.Ite(S.Ult(X(o,in.w),X(b,in.w)),X(b,in.w),X(o,in.w))); break; default: throw EngineError{"atomicrmw"}; } storeRaw(a,in.w,in.x,n); fp[in.dst]=o; break; }
      case I_CMPXCHG: { u64 a=cval(opn(fp,in.a)); chk(a,in.x,"store"); Slot o; loadRaw(a,in.w,in.x,o); const Slot exp=opn(fp,in.b), nw=opn(fp,in.c); bool eq= (!o.e&&!exp.e)? o.lo==exp.lo&&o.hi==exp.hi : decide(S.Eq(X(o,in.w),X(exp,in.w))); if (eq) storeRaw(a,in.w,in.x,nw); fp[in.dst]=o; fp[in.dst+1]={eq,0,nullptr}; break; }
      case I_ASM: { const std::string&s=L.traps[in.x]; if (s.find("cpuid")!=s.npos||s.find("xgetbv")!=s.npos||s.find("rdtsc")!=s.npos) { for (i32 k=0;k<in.c;k++) fp[in.dst+k]={0,0,nullptr}; } else if (s.find_first_not_of(" \t\n")==s.npos) { if (in.c) { u32 na=(u32)L.A[in.y]; if (na>=1&&in.c==1) fp[in.dst]=opn(fp,L.A[in.y+1]); else throw EngineError{"asm"}; } } else throw EngineError{"inline asm: "+s}; break; }
      case I_TRAP: throw EngineError{"untranslated instruction: "+L.traps[in.x]};
      default: throw EngineError{"bad op"};
    }
  } }

static void runEntry(Func*f) {
  try { std::vector<Slot> none; pushFrame(f,none,-1,0); run(); if (!me->stop&&!sh->stopAll) me->paths++; }
  catch (PathEnd&) { me->paths++; }
  catch (EngineError&e) { incomplete(e.msg); }
  catch (std::bad_alloc&) { incomplete("out of memory"); }
  finishPath(); }
static void crash(int sig) { incomplete("engine crashed with signal "+std::to_string(sig)); finishPath(); }

int main(int argc, char**argv) {
  setvbuf(stderr,nullptr,_IOLBF,0);
  std::string bc,out; std::vector<std::string> entries, archives, pre; int jobs=8; double tl=600; u64 rl=0; bool listf=false; std::string concFile;
  for (int i=1;i<argc;i++) { std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if (a=="--entry") entries.push_back(nx()); else if (a=="--out") out=nx(); else if (a=="--jobs") jobs=atoi(nx().c_str()); else if (a=="--time") tl=atof(nx().c_str()); else if (a=="--steps") optSteps=strtoull(nx().c_str(),0,10); else if (a=="--branch-ms") optBranchMs=atoi(nx().c_str()); else if (a=="--query-ms") S.hardTimeout=atoi(nx().c_str()); else if (a=="--concrete") { optConcrete=true; concFile=nx(); } else if (a=="--trace") optTrace=1; else if (a=="--slow") S.onSlow=[](double s,int r,const char*q){ fprintf(stderr,"[slow %.1fs r=%d pid %d] %s\n%.3000s\n",s,r,(int)getpid(),where().substr(0,400).c_str(),q); }; else if (a=="--tier") optTier=atoi(nx().c_str()); else if (a=="--list") listf=true; else if (a=="--lib") archives.push_back(nx()); else if (a=="--libs") { std::ifstream is(nx()); std::string l; while (std::getline(is,l)) if (!l.empty()) archives.push_back(l); } else if (a=="--preload") pre.push_back(nx()); else bc=a; }
  u64 t0=Sys::now_us();
  if (mmap((void*)REGION,REGION_SZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)!=(void*)REGION) { perror("mmap"); return 3; }
  shadowBase=(u8*)mmap(nullptr,REGION_SZ>>3,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  symtab=(SymPage**)mmap(nullptr,NPAGES*8,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  slotStack=(Slot*)mmap(nullptr,SLOTS*sizeof(Slot),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  sh=(Shm*)mmap(nullptr,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  L.isBuiltin=[](const std::string&n){ return extTab.count(n)||n.find("7___rustc")!=n.npos&&rustAlloc(n)>=0; };
  try { for (auto&a: archives) if (!L.addArchive(a.c_str())) return 3; if (!L.load(bc.c_str())) return 3; if (!pre.empty()) L.preload(pre);
    if (listf) { for (auto f: L.funcs) if (!f->decl&&f->name.rfind("h_",0)==0) printf("%s\n",f->name.c_str()); return 0; }
    for (auto&e: entries) { auto it=L.byName.find(e); if (it==L.byName.end()||it->second->decl) { fprintf(stderr,"eusym: no entry %s\n",e.c_str()); return 3; } L.func(it->second->v); }
    L.drain();
  } catch (EngineError&e) { fprintf(stderr,"eusym: lowering: %s\n",e.msg.c_str()); return 3; }
  for (auto&n: L.intrNames) intrKind.push_back(classify(n));
  fnHit=(u8*)mmap(nullptr,L.funcs.size()+1,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  size_t nl=0; for (auto f: L.funcs) if (!f->code.empty()) nl++;
  L.vm.clear(); L.bm.clear(); L.cmap=decltype(L.cmap)(); L.fmap=decltype(L.fmap)(); for (auto m: L.mods) LLVMDisposeModule(m); for (auto c: L.ctxs) LLVMContextDispose(c); malloc_trim(0);
  u64 t1=Sys::now_us();
  fprintf(stderr,"eusym: lowered %zu functions, %llu instructions in %.1fs\n",nl,(unsigned long long)L.ninst,(t1-t0)/1e6);
  if (optConcrete) { FILE*f=fopen(concFile.c_str(),"r"); if (f) { unsigned long long v; while (fscanf(f,"%llu",&v)==1) concVals.push_back(v); fclose(f);} }
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma,PTHREAD_PROCESS_SHARED); pthread_mutex_init(&sh->mu,&ma); sh->jobs=jobs; for (int i=0;i<MAXW;i++) { sem_init(&sh->sems[i],1,0); sh->freeList[sh->nfree++]=i; }
  signal(SIGCHLD,SIG_IGN); fflush(stdout);
  pid_t pg=0; 
  for (size_t i=0;i<entries.size();i++) { strncpy(sh->e[i].name,entries[i].c_str(),95); Func*f=L.byName[entries[i]]; pthread_mutex_lock(&sh->mu); bool fs=sh->running<sh->jobs; int w=-1; if (fs) sh->running++; else { w=sh->freeList[--sh->nfree]; 
        // entries queue at the bottom of the waiting stack so that running entries finish first
        for (int k=sh->nwait;k>0;k--) sh->waitStack[k]=sh->waitStack[k-1]; sh->waitStack[0]=w; sh->nwait++; } pthread_mutex_unlock(&sh->mu); sh->live++; sh->e[i].live++;
    pid_t p=fork(); if (p==0) { setpgid(0,pg); me=&sh->e[i]; stack_t ss; ss.ss_sp=malloc(65536); ss.ss_size=65536; ss.ss_flags=0; sigaltstack(&ss,nullptr); struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=crash; sa.sa_flags=SA_ONSTACK|SA_RESETHAND; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGABRT,&sa,0); sigaction(SIGILL,&sa,0);
      if (w>=0) { while (sem_wait(&sh->sems[w])!=0) {} pthread_mutex_lock(&sh->mu); sh->freeList[sh->nfree++]=w; pthread_mutex_unlock(&sh->mu); }
      if (sh->stopAll) { incomplete("time limit before start"); finishPath(); }
      me->t_start=Sys::now_us(); S.init(); runEntry(f); }
    if (!pg) pg=p; setpgid(p,pg); }
  bool timeUp=false; double lim=tl; int lost=0;
  while (sh->live>0) { usleep(sh->live>0?2000:0); double el=(Sys::now_us()-t1)/1e6; if (el>lim&&!timeUp) { timeUp=true; sh->stopAll=1; } if (el>lim+8) { kill(-pg,SIGKILL); break; } if (kill(-pg,0)<0&&errno==ESRCH) { if (++lost>50) break; } else lost=0; }
  bool lostProc=sh->live>0;
  std::string o="{\"entries\":["; for (size_t i=0;i<entries.size();i++) { EntryStat&e=sh->e[i]; if (i) o+=","; char b[2048]; if (e.live>0&&lostProc&&!e.incomplete) { e.incomplete=1; strcpy(e.incmsg,timeUp?"killed at the time limit":"a worker process was lost"); }
    snprintf(b,sizeof b,"\n{\"name\":\"%s\",\"paths\":%llu,\"pruned\":%llu,\"panics_ok\":%llu,\"steps\":%llu,\"forks\":%llu,\"z3_queries\":%llu,\"z3_us\":%llu,\"domain_decided\":%llu,\"model_hits\":%llu,\"cache_hits\":%llu,\"asserts\":%llu,\"asserts_z3\":%llu,\"asserts_const\":%llu,\"concretized\":%llu,\"symvars\":%llu,\"maxdepth\":%llu,\"wall_s\":%.2f,\"incomplete\":%d,\"branches_undecided\":%llu,\"infeasible_dropped\":%llu,",e.name,(unsigned long long)e.paths,(unsigned long long)e.pruned,(unsigned long long)e.panics_ok,(unsigned long long)e.steps,(unsigned long long)e.forks,(unsigned long long)e.z3,(unsigned long long)e.z3us,(unsigned long long)e.dom,(unsigned long long)e.mhit,(unsigned long long)e.chit,(unsigned long long)e.asserts,(unsigned long long)e.asserts_z3,(unsigned long long)e.asserts_const,(unsigned long long)e.concretized,(unsigned long long)e.nvars,(unsigned long long)e.maxdepth,e.t_end>e.t_start&&e.t_start? (e.t_end-e.t_start)/1e6:0.0,(int)e.incomplete,(unsigned long long)e.unknownBranches,(unsigned long long)e.phantomDropped); o+=b; o+="\"incomplete_msg\":\""; jesc(o,e.incmsg); o+="\",\"covers\":["; bool f=true; for (int k=0;k<NCOV;k++) if (e.cover[k]) { if (!f) o+=","; f=false; o+=std::to_string(k); } o+="],\"samples\":["; f=true; for (int k=0;k<e.nsample&&k<NSAMP;k++) if (e.samp[k].js[0]) { if (!f) o+=","; f=false; o+="{\"cover\":"+std::to_string(e.samp[k].cov)+",\"model\":"+e.samp[k].js+"}"; } o+="],\"asserts_by_id\":{"; for (int k=0;k<e.nas&&k<MAXASSERT;k++) { if (k) o+=","; o+="\""; jesc(o,e.as[k].id); o+="\":["+std::to_string(e.as[k].reached)+","+std::to_string(e.as[k].discharged)+","+std::to_string(e.as[k].concrete)+"]"; } o+="},\"violations\":["; f=true; for (int k=0;k<e.nviol&&k<MAXV;k++) if (e.viol[k][0]) { if (!f) o+=","; f=false; o+=e.viol[k]; } o+="]}"; }
  o+="],\n\"functions\":["; bool f=true; for (auto fn: L.funcs) if (fnHit[fn->idx]) { if (!f) o+=","; f=false; o+="\""; jesc(o,fn->name); o+="\""; } o+="],\"lowered\":"+std::to_string(nl)+",\"instructions\":"+std::to_string(L.ninst)+",\"load_s\":"+std::to_string((t1-t0)/1e6)+",\"wall_s\":"+std::to_string((Sys::now_us()-t0)/1e6)+"}\n";
  FILE*fo=out.empty()?stdout:fopen(out.c_str(),"w"); if (!fo) { perror("out"); return 3; } fputs(o.c_str(),fo); if (fo!=stdout) fclose(fo);
  _exit(0); }
