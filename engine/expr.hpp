// Hash-consed bit-vector / IEEE-754 expression DAG, path-condition handling
// and the z3 back end of eusym.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include <time.h>
#include <z3.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 {
  E_CONST, E_VAR,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_UMULO, E_SMULO,
  // floating point (operands and results are bit patterns; aux: rounding for ROUND)
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FSQRT, E_FROUND /*aux 0 floor 1 ceil 2 trunc 3 roundeven 4 round-away*/,
  E_FEQ, E_FLT, E_FLE, E_FNAN,
  E_SI2F, E_UI2F, E_F2SI /*saturating*/, E_F2UI /*saturating*/, E_FEXT, E_FTRUNC,
};

static const int MAXVARS = 512;
struct VMask {
  u64 m[MAXVARS/64];
  bool intersects(const VMask& o) const { for (int i=0;i<MAXVARS/64;i++) if (m[i]&o.m[i]) return true; return false; }
  void operator|=(const VMask& o) { for (int i=0;i<MAXVARS/64;i++) m[i]|=o.m[i]; }
  bool sub(const VMask& o) const { for (int i=0;i<MAXVARS/64;i++) if (m[i]&~o.m[i]) return false; return true; }
  bool operator==(const VMask& o) const { return !memcmp(m,o.m,sizeof m); }
};

struct VSet { VMask mask; int single; u32 id; };  // single: the only var, -1 if none, -2 if several

struct Expr {
  u8 op; u8 nk; u16 w; u32 aux; u32 id;
  u32 nodes;             // saturating size estimate
  Expr* k[3];
  u64 lo, hi;            // constant value
  u64 kz, ko;            // known zero / one bits (w<=64)
  VSet* vs;
  Z3_ast zb, zf;         // z3 bit-vector (bool for w==1 kept as bool in zp) / fp translations
  Z3_ast zp;             // z3 Bool for w==1
  u64 ev_lo, ev_hi; u32 ev_ep;
  u64* tt;               // truth table for w==1 over a single <=8 bit variable
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx128(u128 v, unsigned w) { if (w>=128) return (i128)v; u128 s=(u128)1<<(w-1); return (i128)((v^s)-s); }
static inline i64 sx64(u64 v, unsigned w) { if (w>=64) return (i64)v; u64 s=1ull<<(w-1); return (i64)((v^s)-s); }

struct VarInfo { std::string name; unsigned w; u32 group; u32 index; };

struct EngineError { std::string msg; };

struct SolverStats { u64 z3_calls=0, z3_us=0, dom=0, modelhit=0, cachehit=0; };

struct Sys {
  Z3_context ctx=nullptr;
  std::vector<VarInfo> vars;
  std::vector<Expr*> varExprs;
  std::vector<u64> model;                 // satisfies the path condition at all times
  std::vector<Expr*> pc;
  std::vector<std::vector<u64>> dom;      // 256-bit domain per var (w<=8)
  std::vector<u8> multi;                  // var occurs in non-unary constraints
  std::unordered_map<u64, std::vector<Expr*>> tab;
  std::unordered_map<u64, VSet*> vsu;
  std::vector<VSet*> vsall;
  std::unordered_map<u64, int> qcache;
  std::vector<std::vector<u64>> recent;   // recent z3 models
  u32 nextId=1, epoch=1;
  SolverStats st;
  unsigned hardTimeout = 60000; // ms, assertion queries
  bool phantom = false; // the path condition may be unsatisfiable (a branch query timed out): model need not satisfy it
  std::string lastUnknown;

  // ---------- var sets
  VSet* emptyVs=nullptr;
  VSet* mkVs(const VMask& m) {
    for (auto v: vsall) if (v->mask==m) return v;
    VSet* v=new VSet; v->mask=m; v->id=(u32)vsall.size(); int n=0, s=-1;
    for (int i=0;i<MAXVARS;i++) if (m.m[i/64]>>(i%64)&1) { n++; s=i; }
    v->single = n==0?-1 : n==1? s : -2;
    vsall.push_back(v); return v;
  }
  VSet* vsUnion(VSet*a, VSet*b) {
    if (a==b||b->single==-1) return a; if (a->single==-1) return b;
    if (a->id>b->id) std::swap(a,b);
    u64 key=((u64)a->id<<32)|b->id; auto it=vsu.find(key); if (it!=vsu.end()) return it->second;
    VMask m=a->mask; m|=b->mask; VSet* r=mkVs(m); vsu[key]=r; return r;
  }

  void init() {
    Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true");
    ctx=Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e){ throw EngineError{std::string("z3: ")+Z3_get_error_msg(c,e)}; });
    VMask z; memset(&z,0,sizeof z); emptyVs=mkVs(z);
  }

  static bool isC(const Expr*e){ return e->op==E_CONST; }
  static u128 cv(const Expr*e){ return ((u128)e->hi<<64)|e->lo; }

  Expr* intern(Expr& t) {
    u64 h=t.op*0x9E3779B97F4A7C15ull ^ (u64)t.w*0xC2B2AE3D27D4EB4Full ^ (u64)t.aux*0x165667B19E3779F9ull ^ t.lo*0xD6E8FEB86659FD93ull ^ (t.hi*0xA0761D6478BD642Full);
    for (int i=0;i<t.nk;i++) h=(h^(u64)t.k[i]->id)*0xFF51AFD7ED558CCDull + (h>>29);
    h^=h>>32;
    auto& v=tab[h];
    for (Expr*e: v) if (e->op==t.op&&e->w==t.w&&e->aux==t.aux&&e->lo==t.lo&&e->hi==t.hi&&e->nk==t.nk) {
      bool ok=true; for (int i=0;i<t.nk;i++) if (e->k[i]!=t.k[i]) {ok=false;break;}
      if (ok) return e;
    }
    Expr* e=new Expr(t); e->id=nextId++; e->zb=e->zf=e->zp=nullptr; e->ev_ep=0; e->tt=nullptr;
    u64 n=1; VSet* vs=emptyVs;
    for (int i=0;i<e->nk;i++){ n+=e->k[i]->nodes; vs=vsUnion(vs,e->k[i]->vs);}    
    e->nodes = n>0xffffffffu?0xffffffffu:(u32)n;
    if (e->op!=E_VAR) e->vs=vs;
    known(e);
    v.push_back(e); return e;
  }
  Expr blank(Op op, unsigned w){ Expr t; memset(&t,0,sizeof t); t.op=op; t.w=(u16)w; t.vs=emptyVs; return t; }
  Expr* K(unsigned w, u128 v){ v&=mask128(w); Expr t=blank(E_CONST,w); t.lo=(u64)v; t.hi=(u64)(v>>64); return intern(t); }
  Expr* T(){ return K(1,1);} Expr* F(){ return K(1,0);}  
  Expr* mkVar(const std::string& name, unsigned w, u32 group, u32 index) {
    if (vars.size()>=MAXVARS) throw EngineError{"too many symbolic variables"};
    Expr t=blank(E_VAR,w); t.aux=(u32)vars.size();
    VMask m; memset(&m,0,sizeof m); m.m[t.aux/64]|=1ull<<(t.aux%64); t.vs=mkVs(m);
    vars.push_back({name,w,group,index}); model.push_back(0); multi.push_back(w>8);
    dom.push_back(std::vector<u64>(4, 0)); { auto&d=dom.back(); for (unsigned v=0; v< (w>=8?256u:(1u<<w)); v++) d[v/64]|=1ull<<(v%64); }
    for (auto&r: recent) r.push_back(0);
    Expr*e=intern(t); varExprs.push_back(e); return e;
  }

  void known(Expr*e) {
    unsigned w=e->w; if (w>64) { e->kz=e->ko=0; return; }
    u64 M=maskw(w), kz=0, ko=0; Expr*a=e->nk>0?e->k[0]:nullptr,*b=e->nk>1?e->k[1]:nullptr;
    switch (e->op) {
      case E_CONST: ko=e->lo; kz=~e->lo; break;
      case E_AND: ko=a->ko&b->ko; kz=a->kz|b->kz; break;
      case E_OR: ko=a->ko|b->ko; kz=a->kz&b->kz; break;
      case E_XOR: ko=(a->ko&b->kz)|(a->kz&b->ko); kz=(a->kz&b->kz)|(a->ko&b->ko); break;
      case E_SHL: if (isC(b)&&b->lo<w) { ko=a->ko<<b->lo; kz=(a->kz<<b->lo)|maskw(b->lo); if(b->lo==0) kz=a->kz; } break;
      case E_LSHR: if (isC(b)&&b->lo<w) { ko=(a->ko&M)>>b->lo; kz=((a->kz&M)>>b->lo)|(b->lo? ~(M>>b->lo):0); }
        else { u64 um=(~a->kz)&M; int lz= um? __builtin_clzll(um):64; kz= lz==0?0: ~(~0ull>>lz); if (lz==64) kz=~0ull; } break;
      case E_ZEXT: ko=a->ko; kz=(a->kz&maskw(a->w))|~maskw(a->w); break;
      case E_SEXT: { u64 s=1ull<<(a->w-1); u64 m=maskw(a->w); ko=a->ko&m; kz=a->kz&m; if (kz&s) kz|=~m; if (ko&s) ko|=~m; } break;
      case E_CONCAT: { ko=(a->ko<<b->w)|(b->ko&maskw(b->w)); kz=((a->kz&maskw(a->w))<<b->w)|(b->kz&maskw(b->w)); } break;
      case E_EXTRACT: if (a->w<=64) { ko=a->ko>>e->aux; kz=(a->kz&maskw(a->w))>>e->aux; } break;
      case E_ITE: ko=e->k[1]->ko&e->k[2]->ko; kz=e->k[1]->kz&e->k[2]->kz; break;
      case E_ADD: { // trailing known zero and magnitude
        u64 ua=(~a->kz)&M, ub=(~b->kz)&M; u128 s=(u128)ua+ub; if (s<=M) { u64 x=(u64)s; int lz=x?__builtin_clzll(x):64; if (lz==64) kz=~0ull; else if (lz) kz=~(~0ull>>lz); }
        u64 tz=a->kz&b->kz; int n=tz==~0ull?64:__builtin_ctzll(~tz); kz|= n>=64?~0ull:((1ull<<n)-1);
      } break;
      case E_MUL: { u64 ua=(~a->kz)&M, ub=(~b->kz)&M; u128 s=(u128)ua*ub; if (s<=M) { u64 x=(u64)s; int lz=x?__builtin_clzll(x):64; if (lz==64) kz=~0ull; else if (lz) kz=~(~0ull>>lz); }
        int ta=a->kz==~0ull?64:__builtin_ctzll(~a->kz), tb=b->kz==~0ull?64:__builtin_ctzll(~b->kz); int n=ta+tb; kz|= n>=64?~0ull:((1ull<<n)-1); } break;
      case E_UDIV: if (isC(b)&&b->lo) { u64 x=((~a->kz)&M)/b->lo; int lz=x?__builtin_clzll(x):64; kz= lz==64?~0ull: lz? ~(~0ull>>lz):0; } break;
      case E_UREM: if (isC(b)&&b->lo) { u64 x=b->lo-1; int lz=x?__builtin_clzll(x):64; kz= lz==64?~0ull: lz? ~(~0ull>>lz):0; } break;
      default: break;
    }
    e->ko=ko&M; e->kz=kz|~M;
  }
  static u64 umin(const Expr*e){ return e->ko; }
  static u64 umax(const Expr*e){ return ~e->kz & maskw(e->w); }

  // ---------- constructors with simplification
  Expr* raw2(Op op, unsigned w, Expr*a, Expr*b){ Expr t=blank(op,w); t.nk=2; t.k[0]=a; t.k[1]=b; Expr*e=intern(t);
    if (w<=64 && e->op!=E_CONST && (e->kz|e->ko)==~0ull) return K(w,e->ko); return e; }
  Expr* raw1(Op op, unsigned w, Expr*a, u32 aux=0){ Expr t=blank(op,w); t.nk=1; t.k[0]=a; t.aux=aux; Expr*e=intern(t);
    if (w<=64 && (e->kz|e->ko)==~0ull) return K(w,e->ko); return e; }
  Expr* Not(Expr*a){ return Xor(a,K(a->w,~(u128)0)); }
  Expr* Neg(Expr*a){ return Sub(K(a->w,0),a); }
  Expr* Add(Expr*a, Expr*b){ if (isC(a)) std::swap(a,b);
    if (isC(b)) { if (isC(a)) return K(a->w,cv(a)+cv(b)); if (cv(b)==0) return a;
      if (a->op==E_ADD&&isC(a->k[1])) return Add(a->k[0],K(a->w,cv(a->k[1])+cv(b)));
      if (a->op==E_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0],Add(a->k[1],b),Add(a->k[2],b)); }
    else { if (a->op==E_ADD&&isC(a->k[1])) return Add(Add(a->k[0],b),a->k[1]); if (b->op==E_ADD&&isC(b->k[1])) return Add(Add(a,b->k[0]),b->k[1]);
      if (a->op==E_SUB && a->k[1]==b) return a->k[0]; if (b->op==E_SUB && b->k[1]==a) return b->k[0];
      if (a->id>b->id) std::swap(a,b); }
    return raw2(E_ADD,a->w,a,b); }
  Expr* Sub(Expr*a, Expr*b){ if (a==b) return K(a->w,0); if (isC(b)) return Add(a,K(a->w,(u128)0-cv(b)));
    if (a->op==E_ADD) { if (a->k[0]==b) return a->k[1]; if (a->k[1]==b) return a->k[0];
      if (isC(a->k[1])) return Add(Sub(a->k[0],b),a->k[1]); }
    if (b->op==E_ADD&&isC(b->k[1])) return Add(Sub(a,b->k[0]),K(a->w,(u128)0-cv(b->k[1])));
    return raw2(E_SUB,a->w,a,b); }
  Expr* Mul(Expr*a, Expr*b){ if (isC(a)) std::swap(a,b);
    if (isC(b)) { if (isC(a)) return K(a->w,cv(a)*cv(b)); if (cv(b)==0) return b; if (cv(b)==1) return a;
      u128 c=cv(b); if ((c&(c-1))==0) { unsigned s=0; while (!(c&1)) {c>>=1;s++;} return Shl(a,K(a->w,s)); } }
    else if (a->id>b->id) std::swap(a,b);
    return raw2(E_MUL,a->w,a,b); }
  Expr* UDiv(Expr*a, Expr*b){ if (isC(b)&&cv(b)) { if (isC(a)) return K(a->w,cv(a)/cv(b)); if (cv(b)==1) return a; u128 c=cv(b); if ((c&(c-1))==0) { unsigned s=0; while(!(c&1)){c>>=1;s++;} return LShr(a,K(a->w,s)); } }
    return raw2(E_UDIV,a->w,a,b); }
  Expr* URem(Expr*a, Expr*b){ if (isC(b)&&cv(b)) { if (isC(a)) return K(a->w,cv(a)%cv(b)); u128 c=cv(b); if ((c&(c-1))==0) return And(a,K(a->w,c-1)); if (a->w<=64 && umax(a)<b->lo) return a; }
    return raw2(E_UREM,a->w,a,b); }
  Expr* SDiv(Expr*a, Expr*b){ if (isC(b)&&isC(a)&&cv(b)) { i128 x=sx128(cv(a),a->w), y=sx128(cv(b),a->w); if (y==-1) return K(a->w,(u128)0-(u128)x); return K(a->w,(u128)(x/y)); }
    if (isC(b)&&cv(b)==1) return a; return raw2(E_SDIV,a->w,a,b); }
  Expr* SRem(Expr*a, Expr*b){ if (isC(b)&&isC(a)&&cv(b)) { i128 x=sx128(cv(a),a->w), y=sx128(cv(b),a->w); if (y==-1) return K(a->w,0); return K(a->w,(u128)(x%y)); }
    return raw2(E_SREM,a->w,a,b); }
  Expr* And(Expr*a, Expr*b){ if (isC(a)) std::swap(a,b); if (a==b) return a;
    if (isC(b)) { if (isC(a)) return K(a->w,cv(a)&cv(b)); if (cv(b)==0) return b; if (cv(b)==mask128(a->w)) return a;
      if (a->w<=64 && ((~b->lo)&maskw(a->w)&~a->kz)==0) return a;
      if (a->op==E_AND&&isC(a->k[1])) return And(a->k[0],K(a->w,cv(a->k[1])&cv(b)));
      // low mask -> zext(extract)
      if (a->w<=64) { u64 m=b->lo; if ((m&(m+1))==0) { unsigned n=__builtin_popcountll(m); if (n<a->w) return ZExt(Extract(a,0,n),a->w); } }
      if (a->op==E_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0],And(a->k[1],b),And(a->k[2],b)); }
    else { if (a->w==1) { if (isNotOf(a,b)) return F(); 
        // a & (not a | x) etc. are left to the solver
      } if (a->id>b->id) std::swap(a,b); }
    return raw2(E_AND,a->w,a,b); }
  static bool isNotOf(Expr*a, Expr*b){ return (a->op==E_XOR&&a->k[0]==b&&isC(a->k[1])&&cv(a->k[1])==mask128(a->w))||(b->op==E_XOR&&b->k[0]==a&&isC(b->k[1])&&cv(b->k[1])==mask128(a->w)); }
  Expr* Or(Expr*a, Expr*b){ if (isC(a)) std::swap(a,b); if (a==b) return a;
    if (isC(b)) { if (isC(a)) return K(a->w,cv(a)|cv(b)); if (cv(b)==0) return a; if (cv(b)==mask128(a->w)) return b;
      if (a->op==E_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0],Or(a->k[1],b),Or(a->k[2],b)); 
      if (a->op==E_OR&&isC(a->k[1])) return Or(a->k[0],K(a->w,cv(a->k[1])|cv(b))); }
    else { if (a->w==1&&isNotOf(a,b)) return T();
      // disjoint shifted pieces: or(zext(x), shl(zext(y), n)) -> concat
      Expr* c=orConcat(a,b); if (c) return c; c=orConcat(b,a); if (c) return c;
      if (a->id>b->id) std::swap(a,b); }
    return raw2(E_OR,a->w,a,b); }
  Expr* orConcat(Expr*lo, Expr*hi){ // hi = shl(_, n) and lo < 2^n
    if (lo->w>64||hi->op!=E_SHL||!isC(hi->k[1])) { return nullptr; }
    u64 n=hi->k[1]->lo; if (n==0||n>=lo->w) return nullptr;
    if (umax(lo)>maskw(n)) return nullptr;
    return Concat(Extract(hi->k[0],0,lo->w-n),Extract(lo,0,n)); }
  Expr* Xor(Expr*a, Expr*b){ if (isC(a)) std::swap(a,b); if (a==b) return K(a->w,0);
    if (isC(b)) { if (isC(a)) return K(a->w,cv(a)^cv(b)); if (cv(b)==0) return a;
      if (a->op==E_XOR&&isC(a->k[1])) return Xor(a->k[0],K(a->w,cv(a->k[1])^cv(b)));
      if (a->w==1) { // not
        if (a->op==E_ULT) return Ule(a->k[1],a->k[0]); if (a->op==E_ULE) return Ult(a->k[1],a->k[0]);
        if (a->op==E_SLT) return Sle(a->k[1],a->k[0]); if (a->op==E_SLE) return Slt(a->k[1],a->k[0]); }
      if (a->op==E_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0],Xor(a->k[1],b),Xor(a->k[2],b)); }
    else { if (a->w==1) { if (a->op==E_XOR&&isC(a->k[1])) return Not(Xor(a->k[0],b)); if (b->op==E_XOR&&isC(b->k[1])) return Not(Xor(a,b->k[0])); }
      if (a->id>b->id) std::swap(a,b); }
    return raw2(E_XOR,a->w,a,b); }
  Expr* Shl(Expr*a, Expr*b){ if (isC(b)) { u128 s=cv(b); if (s==0) return a; if (s>=a->w) return K(a->w,0); if (isC(a)) return K(a->w,cv(a)<<(unsigned)s);
      if (a->op==E_SHL&&isC(a->k[1])) return Shl(a->k[0],K(a->w,cv(a->k[1])+s)); }
    return raw2(E_SHL,a->w,a,b); }
  Expr* LShr(Expr*a, Expr*b){ if (isC(b)) { u128 s=cv(b); if (s==0) return a; if (s>=a->w) return K(a->w,0); if (isC(a)) return K(a->w,cv(a)>>(unsigned)s);
      return ZExt(Extract(a,(unsigned)s,a->w-(unsigned)s),a->w); }
    return raw2(E_LSHR,a->w,a,b); }
  Expr* AShr(Expr*a, Expr*b){ if (isC(b)) { u128 s=cv(b); if (s==0) return a; if (s>=a->w) s=a->w-1; if (isC(a)) return K(a->w,(u128)(sx128(cv(a),a->w)>>(unsigned)s));
      return SExt(Extract(a,(unsigned)s,a->w-(unsigned)s),a->w); }
    return raw2(E_ASHR,a->w,a,b); }
  Expr* Concat(Expr*hi, Expr*lo){ unsigned w=hi->w+lo->w; if (w>128) throw EngineError{"concat wider than 128 bits"};
    if (isC(hi)) { if (isC(lo)) return K(w,(cv(hi)<<lo->w)|cv(lo)); if (cv(hi)==0) return ZExt(lo,w); }
    if (hi->op==E_EXTRACT&&lo->op==E_EXTRACT&&hi->k[0]==lo->k[0]&&hi->aux==lo->aux+lo->w) return Extract(hi->k[0],lo->aux,w);
    if (lo->op==E_CONCAT && hi->op==E_EXTRACT && lo->k[0]->op==E_EXTRACT && hi->k[0]==lo->k[0]->k[0] && hi->aux==lo->k[0]->aux+lo->k[0]->w) return Concat(Extract(hi->k[0],lo->k[0]->aux,hi->w+lo->k[0]->w),lo->k[1]);
    if (hi->op==E_ZEXT) { return ZExt(Concat(hi->k[0],lo),w); }
    if (lo->op==E_CONCAT && isC(hi) && isC(lo->k[0])) return Concat(Concat(hi,lo->k[0]),lo->k[1]);
    if (isC(lo)&&hi->op==E_CONCAT&&isC(hi->k[1])) return Concat(hi->k[0],Concat(hi->k[1],lo));
    if (hi->op==E_ITE&&lo->op==E_ITE&&hi->k[0]==lo->k[0]) return Ite(hi->k[0],Concat(hi->k[1],lo->k[1]),Concat(hi->k[2],lo->k[2]));
    return raw2(E_CONCAT,w,hi,lo); }
  Expr* Extract(Expr*a, unsigned lo, unsigned w){ if (lo==0&&w==a->w) return a;
    switch (a->op) {
      case E_CONST: return K(w,cv(a)>>lo);
      case E_EXTRACT: return Extract(a->k[0],a->aux+lo,w);
      case E_CONCAT: { Expr*h=a->k[0],*l=a->k[1]; if (lo>=l->w) return Extract(h,lo-l->w,w); if (lo+w<=l->w) return Extract(l,lo,w);
        return Concat(Extract(h,0,lo+w-l->w),Extract(l,lo,l->w-lo)); }
      case E_ZEXT: { Expr*x=a->k[0]; if (lo>=x->w) return K(w,0); if (lo+w<=x->w) return Extract(x,lo,w); return ZExt(Extract(x,lo,x->w-lo),w); }
      case E_SEXT: { Expr*x=a->k[0]; if (lo+w<=x->w) return Extract(x,lo,w); if (lo<x->w) return SExt(Extract(x,lo,x->w-lo),w); return SExt(Extract(x,x->w-1,1),w); }
      case E_ITE: if ((isC(a->k[1])&&isC(a->k[2]))||(a->k[1]->nodes+a->k[2]->nodes<40)) return Ite(a->k[0],Extract(a->k[1],lo,w),Extract(a->k[2],lo,w)); break;
      case E_AND: return And(Extract(a->k[0],lo,w),Extract(a->k[1],lo,w));
      case E_OR: return Or(Extract(a->k[0],lo,w),Extract(a->k[1],lo,w));
      case E_XOR: return Xor(Extract(a->k[0],lo,w),Extract(a->k[1],lo,w));
      case E_ADD: if (lo==0) return Add(Extract(a->k[0],0,w),Extract(a->k[1],0,w)); break;
      case E_SUB: if (lo==0) return Sub(Extract(a->k[0],0,w),Extract(a->k[1],0,w)); break;
      case E_MUL: if (lo==0) return Mul(Extract(a->k[0],0,w),Extract(a->k[1],0,w)); break;
      case E_SHL: if (isC(a->k[1])) { unsigned s=(unsigned)a->k[1]->lo; if (lo>=s) return Extract(a->k[0],lo-s,w); if (lo+w<=s) return K(w,0);
          return Concat(Extract(a->k[0],0,lo+w-s),K(s-lo,0)); } break;
      default: break;
    }
    return raw1(E_EXTRACT,w,a,lo); }
  Expr* ZExt(Expr*a, unsigned w){ if (w==a->w) return a; if (isC(a)) return K(w,cv(a)); if (a->op==E_ZEXT) return ZExt(a->k[0],w);
    if (a->op==E_ITE&&isC(a->k[1])&&isC(a->k[2])) return Ite(a->k[0],ZExt(a->k[1],w),ZExt(a->k[2],w));
    return raw1(E_ZEXT,w,a); }
  Expr* SExt(Expr*a, unsigned w){ if (w==a->w) return a; if (isC(a)) return K(w,(u128)sx128(cv(a),a->w)); if (a->op==E_SEXT) return SExt(a->k[0],w); if (a->op==E_ZEXT) return ZExt(a->k[0],w);
    if (a->w<=64&&(a->kz>>(a->w-1)&1)) return ZExt(a,w);
    if (a->op==E_ITE&&isC(a->k[1])&&isC(a->k[2])) return Ite(a->k[0],SExt(a->k[1],w),SExt(a->k[2],w));
    return raw1(E_SEXT,w,a); }
  Expr* Trunc(Expr*a, unsigned w){ return Extract(a,0,w); }
  Expr* Ite(Expr*c, Expr*a, Expr*b){ if (isC(c)) return c->lo?a:b; if (a==b) return a;
    if (c->op==E_XOR&&isC(c->k[1])) return Ite(c->k[0],b,a);
    if (a->w==1) { if (isC(a)&&isC(b)) return a->lo?c:Not(c); if (isC(a)) return a->lo?Or(c,b):And(Not(c),b); if (isC(b)) return b->lo?Or(Not(c),a):And(c,a); }
    if (a->op==E_ITE&&a->k[0]==c) a=a->k[1]; if (b->op==E_ITE&&b->k[0]==c) b=b->k[2]; if (a==b) return a;
    if (b->op==E_ITE&&b->k[1]==a) return Ite(Or(c,b->k[0]),a,b->k[2]);
    if (a->op==E_ZEXT&&b->op==E_ZEXT&&a->k[0]->w==b->k[0]->w) return ZExt(Ite(c,a->k[0],b->k[0]),a->w);
    if (a->w>1&&isC(a)&&isC(b)) { if (cv(a)==1&&cv(b)==0) return ZExt(c,a->w); if (cv(a)==0&&cv(b)==1) return ZExt(Not(c),a->w); }
    Expr t=blank(E_ITE,a->w); t.nk=3; t.k[0]=c; t.k[1]=a; t.k[2]=b; return intern(t); }
  static bool iteConstTree(Expr*e, int d){ if (isC(e)) return true; return d>0&&e->op==E_ITE&&iteConstTree(e->k[1],d-1)&&iteConstTree(e->k[2],d-1); }
  Expr* Eq(Expr*a, Expr*b){ if (a==b) return T(); if (isC(a)) std::swap(a,b);
    if (isC(b)) { if (isC(a)) return cv(a)==cv(b)?T():F(); u128 v=cv(b);
      if (a->w==1) return b->lo?a:Not(a);
      if (a->w<=64) { if ((b->lo&a->kz)||((~b->lo)&a->ko)) return F(); }
      switch (a->op) {
        case E_ZEXT: if (v>>a->k[0]->w) return F(); return Eq(a->k[0],K(a->k[0]->w,v));
        case E_SEXT: { Expr*x=a->k[0]; u128 t=v&mask128(x->w); if (((u128)sx128(t,x->w)&mask128(a->w))!=v) return F(); return Eq(x,K(x->w,t)); }
        case E_ADD: if (isC(a->k[1])) return Eq(a->k[0],K(a->w,v-cv(a->k[1]))); break;
        case E_SUB: if (v==0) return Eq(a->k[0],a->k[1]); if (isC(a->k[0])) return Eq(a->k[1],K(a->w,cv(a->k[0])-v)); break;
        case E_XOR: if (isC(a->k[1])) return Eq(a->k[0],K(a->w,v^cv(a->k[1]))); if (v==0) return Eq(a->k[0],a->k[1]); break;
        case E_CONCAT: return And(Eq(a->k[0],K(a->k[0]->w,v>>a->k[1]->w)),Eq(a->k[1],K(a->k[1]->w,v)));
        case E_ITE: if (iteConstTree(a,64)||(isC(a->k[1])||isC(a->k[2]))) return Ite(a->k[0],Eq(a->k[1],b),Eq(a->k[2],b)); break;
        case E_SHL: if (isC(a->k[1])) { unsigned s=(unsigned)a->k[1]->lo; if (v&mask128(s)) return F(); return Eq(Extract(a->k[0],0,a->w-s),K(a->w-s,v>>s)); } break;
        case E_AND: if (isC(a->k[1])) { if (v&~cv(a->k[1])) return F(); u128 m=cv(a->k[1]); if ((m&(m-1))==0) { unsigned s=0; while(!((m>>s)&1)) s++; Expr*x=Extract(a->k[0],s,1); return v?x:Not(x);} } break;
        case E_OR: if (v==0) return And(Eq(a->k[0],b),Eq(a->k[1],b)); break;
        default: break; } }
    else {
      if (a->op==E_ZEXT&&b->op==E_ZEXT) { Expr*x=a->k[0],*y=b->k[0]; if (x->w<y->w) x=ZExt(x,y->w); else if (y->w<x->w) y=ZExt(y,x->w); return Eq(x,y);}      
      if (a->op==E_SEXT&&b->op==E_SEXT&&a->k[0]->w==b->k[0]->w) return Eq(a->k[0],b->k[0]);
      if (a->op==E_CONCAT&&b->op==E_CONCAT&&a->k[1]->w==b->k[1]->w) return And(Eq(a->k[0],b->k[0]),Eq(a->k[1],b->k[1]));
      if (a->op==E_ADD&&b->op==E_ADD) { if (a->k[0]==b->k[0]) return Eq(a->k[1],b->k[1]); if (a->k[1]==b->k[1]) return Eq(a->k[0],b->k[0]); }
      if (a->op==E_ADD&&isC(a->k[1])&&a->k[0]==b) return F(); if (b->op==E_ADD&&isC(b->k[1])&&b->k[0]==a) return F();
      if (a->w==1) return Not(Xor(a,b));
      if (a->w<=64&&((a->ko&b->kz)|(a->kz&b->ko)&maskw(a->w))) { if (((a->ko&b->kz)|(a->kz&b->ko))&maskw(a->w)) return F(); }
      if (a->id>b->id) std::swap(a,b); }
    return raw2(E_EQ,1,a,b); }
  Expr* Ult(Expr*a, Expr*b){ if (a==b) return F(); if (isC(a)&&isC(b)) return cv(a)<cv(b)?T():F(); if (isC(b)&&cv(b)==0) return F(); if (isC(b)&&cv(b)==1) return Eq(a,K(a->w,0));
    if (isC(a)&&cv(a)==0) return Not(Eq(b,a)); if (isC(a)&&cv(a)==mask128(a->w)) return F();
    if (isC(b)&&cv(b)==mask128(a->w)) return Not(Eq(a,b));
    if (a->w<=64) { if (umax(a)<umin(b)) return T(); if (umin(a)>=umax(b)) return F(); }
    if (a->w==1) return And(Not(a),b);
    if (a->op==E_ZEXT&&b->op==E_ZEXT) { Expr*x=a->k[0],*y=b->k[0]; if (x->w<y->w) x=ZExt(x,y->w); else if (y->w<x->w) y=ZExt(y,x->w); return Ult(x,y);}    
    if (a->op==E_ZEXT&&isC(b)) { if (cv(b)>>a->k[0]->w) return T(); return Ult(a->k[0],K(a->k[0]->w,cv(b))); }
    if (b->op==E_ZEXT&&isC(a)) { if (cv(a)>>b->k[0]->w) return F(); return Ult(K(b->k[0]->w,cv(a)),b->k[0]); }
    if (a->op==E_ITE&&isC(b)&&(isC(a->k[1])||isC(a->k[2]))) return Ite(a->k[0],Ult(a->k[1],b),Ult(a->k[2],b));
    if (b->op==E_ITE&&isC(a)&&(isC(b->k[1])||isC(b->k[2]))) return Ite(b->k[0],Ult(a,b->k[1]),Ult(a,b->k[2]));
    return raw2(E_ULT,1,a,b); }
  Expr* Ule(Expr*a, Expr*b){ if (a==b) return T(); if (isC(a)&&isC(b)) return cv(a)<=cv(b)?T():F(); if (isC(a)&&cv(a)==0) return T(); if (isC(b)&&cv(b)==mask128(a->w)) return T();
    if (isC(b)) { return Ult(a,K(a->w,cv(b)+1)); }
    if (isC(a)) { return Ult(K(a->w,cv(a)-1),b); }
    if (a->w<=64) { if (umax(a)<=umin(b)) return T(); if (umin(a)>umax(b)) return F(); }
    if (a->op==E_ZEXT&&b->op==E_ZEXT) { Expr*x=a->k[0],*y=b->k[0]; if (x->w<y->w) x=ZExt(x,y->w); else if (y->w<x->w) y=ZExt(y,x->w); return Ule(x,y);}    
    if (a->w==1) return Or(Not(a),b);
    return raw2(E_ULE,1,a,b); }
  Expr* Slt(Expr*a, Expr*b){ if (a==b) return F(); if (isC(a)&&isC(b)) return sx128(cv(a),a->w)<sx128(cv(b),a->w)?T():F();
    unsigned w=a->w; if (w==1) return And(a,Not(b));
    if (isC(b)&&cv(b)==0) return Extract(a,w-1,1);
    if (isC(a)&&cv(a)==mask128(w)) return Not(Extract(b,w-1,1));
    if (isC(b)&&cv(b)==((u128)1<<(w-1))) return F();
    if (w<=64) { u64 s=1ull<<(w-1); bool an=a->kz&s, bn=b->kz&s, ap=a->ko&s, bp=b->ko&s; // sign known
      if (an&&bn) return Ult(a,b); if (ap&&bp) return Ult(a,b); if (ap&&bn) return T(); if (an&&bp) return F(); }
    if (a->op==E_SEXT&&b->op==E_SEXT&&a->k[0]->w==b->k[0]->w) return Slt(a->k[0],b->k[0]);
    if (a->op==E_SEXT&&isC(b)) { Expr*x=a->k[0]; i128 v=sx128(cv(b),w), mx=((i128)1<<(x->w-1))-1, mn=-((i128)1<<(x->w-1)); if (v>mx) return T(); if (v<=mn) return F(); return Slt(x,K(x->w,(u128)v)); }
    if (b->op==E_SEXT&&isC(a)) { Expr*x=b->k[0]; i128 v=sx128(cv(a),w), mx=((i128)1<<(x->w-1))-1, mn=-((i128)1<<(x->w-1)); if (v>=mx) return F(); if (v<mn) return T(); return Slt(K(x->w,(u128)v),x); }
    if (a->op==E_ITE&&isC(b)&&(isC(a->k[1])||isC(a->k[2]))) return Ite(a->k[0],Slt(a->k[1],b),Slt(a->k[2],b));
    if (b->op==E_ITE&&isC(a)&&(isC(b->k[1])||isC(b->k[2]))) return Ite(b->k[0],Slt(a,b->k[1]),Slt(a,b->k[2]));
    return raw2(E_SLT,1,a,b); }
  Expr* Sle(Expr*a, Expr*b){ if (a==b) return T(); if (isC(a)&&isC(b)) return sx128(cv(a),a->w)<=sx128(cv(b),a->w)?T():F();
    unsigned w=a->w; if (isC(b)) { if (cv(b)==(mask128(w)>>1)) return T(); return Slt(a,K(w,cv(b)+1)); }
    if (isC(a)) { if (cv(a)==((u128)1<<(w-1))) return T(); return Slt(K(w,cv(a)-1),b); }
    if (w==1) return Or(a,Not(b));
    if (w<=64) { u64 s=1ull<<(w-1); bool an=a->kz&s, bn=b->kz&s, ap=a->ko&s, bp=b->ko&s;
      if (an&&bn) return Ule(a,b); if (ap&&bp) return Ule(a,b); if (ap&&bn) return T(); if (an&&bp) return F(); }
    if (a->op==E_SEXT&&b->op==E_SEXT&&a->k[0]->w==b->k[0]->w) return Sle(a->k[0],b->k[0]);
    return raw2(E_SLE,1,a,b); }
  Expr* UMulO(Expr*a, Expr*b){ if (isC(a)) std::swap(a,b); if (isC(b)&&cv(b)<=1) return F();
    if (a->w<=64) { if ((u128)umax(a)*umax(b)<=maskw(a->w)) return F(); 
      if (isC(b)) return Ult(K(a->w,maskw(a->w)/b->lo),a); }
    return raw2(E_UMULO,1,a,b); }
  Expr* SMulO(Expr*a, Expr*b){ if (isC(a)) std::swap(a,b); if (isC(b)&&cv(b)<=1&&a->w>1) return F();
    if (isC(b)&&a->w<=64) { i64 c=sx64(b->lo,a->w); i128 mx=((i128)1<<(a->w-1))-1, mn=-((i128)1<<(a->w-1));
      if (c==-1) return Eq(a,K(a->w,(u128)mn)); i128 hi=c>0?mx/c:mn/c, lo=c>0?mn/c:mx/c; // c>0: lo<=a<=hi ; c<-1: mx/c <= a <= mn/c
      return Or(Slt(a,K(a->w,(u128)lo)),Slt(K(a->w,(u128)hi),a)); }
    return raw2(E_SMULO,1,a,b); }
  // floating point
  static double bd(u64 v){ double d; memcpy(&d,&v,8); return d; }
  static u64 db(double d){ u64 v; memcpy(&v,&d,8); return v; }
  static float bf(u32 v){ float d; memcpy(&d,&v,4); return d; }
  static u32 fb(float d){ u32 v; memcpy(&v,&d,4); return v; }
  Expr* F2(Op op, Expr*a, Expr*b){ if (isC(a)&&isC(b)) { u64 r=evF2(op,a->w,a->lo,b->lo); return K(op>=E_FEQ&&op<=E_FNAN?1:a->w,r); }
    unsigned w=(op>=E_FEQ&&op<=E_FNAN)?1:a->w; return raw2(op,w,a,b); }
  Expr* FNan(Expr*a){ unsigned m=a->w==64?52:23; // exp all ones and mantissa nonzero, in bit-vector form
    if (a->op==E_SI2F||a->op==E_UI2F) return F();
    return Ult(K(a->w-1,(a->w==64?0x7FFull:0xFFull)<<m),Extract(a,0,a->w-1)); }
  static u64 evF2(u8 op, unsigned w, u64 x, u64 y){
    if (w==32) { float a=bf((u32)x), b=bf((u32)y); switch(op){ case E_FADD: return fb(a+b); case E_FSUB: return fb(a-b); case E_FMUL: return fb(a*b); case E_FDIV: return fb(a/b); case E_FREM: return fb(fmodf(a,b)); case E_FEQ: return a==b; case E_FLT: return a<b; case E_FLE: return a<=b; } }
    double a=bd(x), b=bd(y); switch(op){ case E_FADD: return db(a+b); case E_FSUB: return db(a-b); case E_FMUL: return db(a*b); case E_FDIV: return db(a/b); case E_FREM: return db(fmod(a,b)); case E_FEQ: return a==b; case E_FLT: return a<b; case E_FLE: return a<=b; }
    throw EngineError{"evF2"}; }
  static double rnd(double d, unsigned k){ switch(k){ case 0: return floor(d); case 1: return ceil(d); case 2: return trunc(d); case 3: return nearbyint(d); default: return round(d);} }
  Expr* F1(Op op, Expr*a, u32 aux=0){ if (isC(a)) { if (op==E_FSQRT) return K(a->w, a->w==64? db(sqrt(bd(a->lo))): fb(sqrtf(bf((u32)a->lo)))); if (op==E_FROUND) return K(a->w, a->w==64? db(rnd(bd(a->lo),aux)): fb((float)rnd(bf((u32)a->lo),aux))); }
    if (op==E_FROUND) { if (a->op==E_FROUND) return a; if ((a->op==E_SI2F||a->op==E_UI2F)&&a->w==64) return a; }
    return raw1(op,a->w,a,aux); }
  static u128 evI2F(bool s, unsigned fw, u128 v, unsigned w){ if (s) { i128 x=sx128(v,w); return fw==64? (u128)db((double)x):(u128)fb((float)x);} return fw==64? (u128)db((double)v):(u128)fb((float)v); }
  Expr* I2F(bool s, Expr*a, unsigned fw){ if (isC(a)) return K(fw,evI2F(s,fw,cv(a),a->w)); return raw1(s?E_SI2F:E_UI2F,fw,a); }
  static u128 evF2I(bool s, unsigned w, u64 bits, unsigned fw){ double d= fw==64? bd(bits):(double)bf((u32)bits); if (d!=d) return 0;
    if (s) { double lim=ldexp(1.0,(int)w-1); if (d>=lim) return (mask128(w)>>1); if (d< -lim) return (u128)1<<(w-1); return (u128)(i128)d & mask128(w); }
    double lim=ldexp(1.0,(int)w); if (d<=0) return 0; if (d>=lim) return mask128(w); return (u128)d; }
  Expr* F2I(bool s, Expr*a, unsigned w){ if (isC(a)) return K(w,evF2I(s,w,a->lo,a->w)); return raw1(s?E_F2SI:E_F2UI,w,a); }

  // ---------- evaluation
  static u128 apply(const Expr*e, const u128*v) {
    unsigned w=e->w; u128 M=mask128(w); unsigned kw=e->nk?e->k[0]->w:0;
    switch (e->op) {
      case E_ADD: return (v[0]+v[1])&M; case E_SUB: return (v[0]-v[1])&M; case E_MUL: return (v[0]*v[1])&M;
      case E_UDIV: return v[1]? v[0]/v[1] : M; case E_UREM: return v[1]? v[0]%v[1]: v[0];
      case E_SDIV: { i128 x=sx128(v[0],w), y=sx128(v[1],w); if (!y) return x<0?1:M; if (y==-1) return ((u128)0-(u128)x)&M; return (u128)(x/y)&M; }
      case E_SREM: { i128 x=sx128(v[0],w), y=sx128(v[1],w); if (!y) return v[0]; if (y==-1) return 0; return (u128)(x%y)&M; }
      case E_AND: return v[0]&v[1]; case E_OR: return v[0]|v[1]; case E_XOR: return v[0]^v[1];
      case E_SHL: return v[1]>=w?0:(v[0]<<(unsigned)v[1])&M; case E_LSHR: return v[1]>=w?0:v[0]>>(unsigned)v[1];
      case E_ASHR: { unsigned s=v[1]>=w?w-1:(unsigned)v[1]; return (u128)(sx128(v[0],w)>>s)&M; }
      case E_CONCAT: return (v[0]<<e->k[1]->w)|v[1]; case E_EXTRACT: return (v[0]>>e->aux)&M; case E_ZEXT: return v[0]; case E_SEXT: return (u128)sx128(v[0],kw)&M;
      case E_ITE: return v[0]?v[1]:v[2];
      case E_EQ: return v[0]==v[1]; case E_ULT: return v[0]<v[1]; case E_ULE: return v[0]<=v[1]; case E_SLT: return sx128(v[0],kw)<sx128(v[1],kw); case E_SLE: return sx128(v[0],kw)<=sx128(v[1],kw);
      case E_UMULO: if (kw<=64) return (v[0]*v[1])>>kw?1:0; { u128 r; return __builtin_mul_overflow(v[0],v[1],&r); }
      case E_SMULO: if (kw<=64) { i128 p=sx128(v[0],kw)*sx128(v[1],kw); return p!=sx128((u128)p&mask128(kw),kw);} { i128 r; return __builtin_mul_overflow((i128)v[0],(i128)v[1],&r);}      
      case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FREM: case E_FEQ: case E_FLT: case E_FLE: return evF2(e->op,kw,(u64)v[0],(u64)v[1]);
      case E_FSQRT: return w==64? db(sqrt(bd((u64)v[0]))): fb(sqrtf(bf((u32)v[0])));
      case E_FROUND: return w==64? db(rnd(bd((u64)v[0]),e->aux)): fb((float)rnd(bf((u32)v[0]),e->aux));
      case E_SI2F: return evI2F(true,w,v[0],kw); case E_UI2F: return evI2F(false,w,v[0],kw);
      case E_F2SI: return evF2I(true,w,(u64)v[0],kw); case E_F2UI: return evF2I(false,w,(u64)v[0],kw);
      case E_FEXT: return db((double)bf((u32)v[0])); case E_FTRUNC: return fb((float)bd((u64)v[0]));
    }
    throw EngineError{"apply: bad op"};
  }
  u128 evalRec(Expr*e, const u64*m) {
    if (e->op==E_CONST) return cv(e);
    if (e->ev_ep==epoch) return ((u128)e->ev_hi<<64)|e->ev_lo;
    u128 r;
    if (e->op==E_VAR) r=m[e->aux];
    else if (e->op==E_ITE) { r= evalRec(e->k[0],m)? evalRec(e->k[1],m):evalRec(e->k[2],m); }
    else { u128 v[3]; for (int i=0;i<e->nk;i++) v[i]=evalRec(e->k[i],m); r=apply(e,v); }
    e->ev_ep=epoch; e->ev_lo=(u64)r; e->ev_hi=(u64)(r>>64); return r;
  }
  u128 eval(Expr*e, const std::vector<u64>& m){ if (e->op==E_CONST) return cv(e); epoch++; return evalRec(e,m.data()); }

  // truth table of a w==1 expression over one variable of <= 8 bits
  u64* truth(Expr*c) {
    if (c->tt) return c->tt;
    int v=c->vs->single; u64*t=new u64[4]{0,0,0,0}; std::vector<u64> m(vars.size(),0); unsigned n=1u<<vars[v].w;
    for (unsigned x=0;x<n;x++) { m[v]=x; epoch++; if (evalRec(c,m.data())) t[x/64]|=1ull<<(x%64); }
    c->tt=t; return t;
  }
  bool smallSingle(Expr*c){ int v=c->vs->single; return v>=0&&vars[v].w<=8; }

  // ---------- path condition
  void addPC(Expr*c) {
    if (isC(c)) { if (!c->lo) throw EngineError{"contradictory path condition"}; return; }
    if (c->op==E_AND) { addPC(c->k[0]); addPC(c->k[1]); return; }
    if (c->op==E_XOR&&isC(c->k[1])&&c->k[0]->op==E_OR) { addPC(Not(c->k[0]->k[0])); addPC(Not(c->k[0]->k[1])); return; }
    for (auto p: pc) if (p==c) return;
    pc.push_back(c);
    if (smallSingle(c)) { u64*t=truth(c); auto&d=dom[c->vs->single]; for (int i=0;i<4;i++) d[i]&=t[i]; }
    else for (size_t i=0;i<vars.size();i++) if (c->vs->mask.m[i/64]>>(i%64)&1) multi[i]=1;
  }
  void slice(Expr*c, std::vector<Expr*>& out) {
    VMask m=c->vs->mask; std::vector<u8> used(pc.size(),0); bool ch=true;
    while (ch) { ch=false; for (size_t i=0;i<pc.size();i++) if (!used[i]&&pc[i]->vs->mask.intersects(m)) { used[i]=1; if (!pc[i]->vs->mask.sub(m)) { m|=pc[i]->vs->mask; ch=true; } } }
    for (size_t i=0;i<pc.size();i++) if (used[i]) out.push_back(pc[i]);
  }
  // decide the whole path condition (and extra), repairing the model slice by slice
  int fullCheck(Expr*extra, std::vector<u64>& mout) {
    std::vector<u64> saved=model; int res=1;
    for (size_t i=0;i<=pc.size()&&res==1;i++) { Expr*c= i==0? extra: pc[i-1]; if (!c||isC(c)) { if (c&&!c->lo) res=0; continue; } if (eval(c,model)) continue;
      std::vector<Expr*> sl; slice(c,sl); if (i&&extra&&!isC(extra)&&extra->vs->mask.intersects(c->vs->mask)) sl.push_back(extra); else if (i&&extra&&!isC(extra)) { VMask m=c->vs->mask; for (auto e: sl) m|=e->vs->mask; if (extra->vs->mask.intersects(m)) sl.push_back(extra); }
      std::vector<u64> m; res=z3check(sl,c,m); if (res==1) model=m; }
    if (res==1) { if (extra&&!isC(extra)&&!eval(extra,model)) res=-1; for (auto e: pc) if (!eval(e,model)) res=-1; }
    mout=model; model=saved; return res; }
  // 1 sat (mout filled: full model), 0 unsat, -1 unknown. wantModel is always given.
  // force: always let z3 decide (used for property assertions)
  int check(Expr*c, std::vector<u64>& mout, bool force=false, unsigned tmo=0) {
    if (isC(c)) { mout=model; return c->lo?1:0; }
    if (!force) {
      if (smallSingle(c)) {
        int v=c->vs->single; u64*t=truth(c); auto&d=dom[v]; int val=-1;
        for (int i=0;i<4&&val<0;i++) { u64 x=t[i]&d[i]; if (x) val=i*64+__builtin_ctzll(x); }
        if (val<0) { st.dom++; return 0; }
        if (!multi[v]) { st.dom++; mout=model; mout[v]=(u64)val; return 1; }
      }
    }
    if (eval(c,model)) { st.modelhit++; mout=model; return 1; }
    std::vector<Expr*> sl; slice(c,sl);
    u64 key=0x1234567ull; { std::vector<u32> ids; for (auto e: sl) ids.push_back(e->id); 
      for (u32 x: ids) { u64 h=x*0x9E3779B97F4A7C15ull; h^=h>>31; key+=h*0xD6E8FEB86659FD93ull; } key^=(u64)c->id*0xC2B2AE3D27D4EB4Full; key^=key>>33; }
    if (!force) { auto it=qcache.find(key); if (it!=qcache.end()&&it->second==0) { st.cachehit++; return 0; } }
    // recent models, restricted to the slice variables
    for (int i=(int)recent.size()-1;i>=0;i--) { auto&m=recent[i]; if (!eval(c,m)) continue; bool ok=true; for (auto e: sl) if (!eval(e,m)) { ok=false; break; }
      if (ok) { st.modelhit++; VMask vm=c->vs->mask; for (auto e: sl) vm|=e->vs->mask; mout=model; for (size_t j=0;j<vars.size();j++) if (vm.m[j/64]>>(j%64)&1) mout[j]=m[j]; return 1; } }
    { auto it=qcache.find(key); if (tmo&&it!=qcache.end()&&it->second==2) return -1; }
    int r=z3check(sl,c,mout,tmo);
    if (r==0) qcache[key]=0; else if (r<0) qcache[key]=2;
    return r;
  }
  bool hasFP(Expr*e, std::unordered_map<Expr*,bool>& memo){ if (e->op>=E_FADD) return true; auto it=memo.find(e); if (it!=memo.end()) return it->second; bool r=false; for (int i=0;i<e->nk&&!r;i++) r=hasFP(e->k[i],memo); return memo[e]=r; }
  static u64 now_us(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (u64)t.tv_sec*1000000+t.tv_nsec/1000; }
  void (*onSlow)(double,int,const char*)=nullptr;
  int z3check(std::vector<Expr*>& sl, Expr*c, std::vector<u64>& mout, unsigned tmo=0) {
    u64 t0=now_us(); st.z3_calls++;
    std::unordered_map<Expr*,bool> memo; bool fp=hasFP(c,memo); for (auto e: sl) if (!fp) fp=hasFP(e,memo);
    int res=-1;
    for (int attempt=fp?0:-1; attempt<(tmo?1:2)&&res<0; attempt++) {
      // small queries first with the plain core, which starts quickest
      Z3_solver s = attempt<0 ? Z3_mk_simple_solver(ctx) : attempt==0 ? Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,fp?"QF_BVFP":"QF_BV")) : Z3_mk_solver(ctx);
      Z3_solver_inc_ref(ctx,s);
{ Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),attempt<0?250:tmo?tmo:hardTimeout); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p); }
      for (auto e: sl) Z3_solver_assert(ctx,s,zBool(e));
      Z3_solver_assert(ctx,s,zBool(c));
      Z3_lbool r=Z3_solver_check(ctx,s);
      if (onSlow&&now_us()-t0>1000000) onSlow((now_us()-t0)/1e6,(int)r,Z3_solver_to_string(ctx,s));
      if (r==Z3_L_FALSE) res=0;
      else if (r==Z3_L_TRUE) {
        res=1; Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
        mout=model; VMask vm=c->vs->mask; for (auto e: sl) vm|=e->vs->mask;
        for (size_t j=0;j<vars.size();j++) if (vm.m[j/64]>>(j%64)&1) { Z3_ast v; if (Z3_model_eval(ctx,m,zBV(varExprs[j]),true,&v)) { uint64_t x=0; Z3_get_numeral_uint64(ctx,v,&x); mout[j]=x; } }
        Z3_model_dec_ref(ctx,m);
        bool ok=eval(c,mout)!=0; for (auto e: sl) if (ok) ok=eval(e,mout)!=0;
        if (!ok) throw EngineError{"z3 model does not satisfy the query (encoding mismatch)"};
        recent.push_back(mout); if (recent.size()>12) recent.erase(recent.begin());
      } else lastUnknown=Z3_solver_get_reason_unknown(ctx,s);
      Z3_solver_dec_ref(ctx,s);
    }
    st.z3_us+=now_us()-t0;
    return res;
  }
  // ---------- translation
  Z3_sort fsort(unsigned w){ return w==64?Z3_mk_fpa_sort_64(ctx):Z3_mk_fpa_sort_32(ctx); }
  Z3_ast keep(Z3_ast a){ Z3_inc_ref(ctx,a); return a; }
  Z3_ast zBool(Expr*e) { if (e->zp) return e->zp; Z3_ast r; Z3_ast a[2];
    if (e->w!=1) throw EngineError{"zBool width"};
    switch (e->op) {
      case E_CONST: r=e->lo?Z3_mk_true(ctx):Z3_mk_false(ctx); break;
      case E_AND: a[0]=zBool(e->k[0]);a[1]=zBool(e->k[1]); r=Z3_mk_and(ctx,2,a); break;
      case E_OR: a[0]=zBool(e->k[0]);a[1]=zBool(e->k[1]); r=Z3_mk_or(ctx,2,a); break;
      case E_XOR: if (isC(e->k[1])) r=e->k[1]->lo?Z3_mk_not(ctx,zBool(e->k[0])):zBool(e->k[0]); else r=Z3_mk_xor(ctx,zBool(e->k[0]),zBool(e->k[1])); break;
      case E_ITE: r=Z3_mk_ite(ctx,zBool(e->k[0]),zBool(e->k[1]),zBool(e->k[2])); break;
      case E_EQ: if (e->k[0]->w==1) r=Z3_mk_iff(ctx,zBool(e->k[0]),zBool(e->k[1])); else r=Z3_mk_eq(ctx,zBV(e->k[0]),zBV(e->k[1])); break;
      case E_ULT: r=Z3_mk_bvult(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_ULE: r=Z3_mk_bvule(ctx,zBV(e->k[0]),zBV(e->k[1])); break;
      case E_SLT: r=Z3_mk_bvslt(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_SLE: r=Z3_mk_bvsle(ctx,zBV(e->k[0]),zBV(e->k[1])); break;
      case E_UMULO: r=Z3_mk_not(ctx,Z3_mk_bvmul_no_overflow(ctx,zBV(e->k[0]),zBV(e->k[1]),false)); break;
      case E_SMULO: { Z3_ast x[2]={Z3_mk_not(ctx,Z3_mk_bvmul_no_overflow(ctx,zBV(e->k[0]),zBV(e->k[1]),true)),Z3_mk_not(ctx,Z3_mk_bvmul_no_underflow(ctx,zBV(e->k[0]),zBV(e->k[1])))}; r=Z3_mk_or(ctx,2,x); break; }
      case E_FEQ: r=Z3_mk_fpa_eq(ctx,zFP(e->k[0]),zFP(e->k[1])); break; case E_FLT: r=Z3_mk_fpa_lt(ctx,zFP(e->k[0]),zFP(e->k[1])); break; case E_FLE: r=Z3_mk_fpa_leq(ctx,zFP(e->k[0]),zFP(e->k[1])); break;
      default: r=Z3_mk_eq(ctx,zBV(e),Z3_mk_unsigned_int64(ctx,1,Z3_mk_bv_sort(ctx,1))); break; }
    return e->zp=keep(r); }
  Z3_ast zFP(Expr*e) { if (e->zf) return e->zf; Z3_ast r; Z3_sort s=fsort(e->w);
    switch (e->op) {
      case E_FADD: r=Z3_mk_fpa_add(ctx,Z3_mk_fpa_rne(ctx),zFP(e->k[0]),zFP(e->k[1])); break; case E_FSUB: r=Z3_mk_fpa_sub(ctx,Z3_mk_fpa_rne(ctx),zFP(e->k[0]),zFP(e->k[1])); break;
      case E_FMUL: r=Z3_mk_fpa_mul(ctx,Z3_mk_fpa_rne(ctx),zFP(e->k[0]),zFP(e->k[1])); break; case E_FDIV: r=Z3_mk_fpa_div(ctx,Z3_mk_fpa_rne(ctx),zFP(e->k[0]),zFP(e->k[1])); break;
      case E_FREM: throw EngineError{"symbolic frem"};
      case E_FSQRT: r=Z3_mk_fpa_sqrt(ctx,Z3_mk_fpa_rne(ctx),zFP(e->k[0])); break;
      case E_FROUND: { Z3_ast rm= e->aux==0?Z3_mk_fpa_rtn(ctx):e->aux==1?Z3_mk_fpa_rtp(ctx):e->aux==2?Z3_mk_fpa_rtz(ctx):e->aux==3?Z3_mk_fpa_rne(ctx):Z3_mk_fpa_rna(ctx); r=Z3_mk_fpa_round_to_integral(ctx,rm,zFP(e->k[0])); break; }
      case E_SI2F: r=Z3_mk_fpa_to_fp_signed(ctx,Z3_mk_fpa_rne(ctx),zBV(e->k[0]),s); break; case E_UI2F: r=Z3_mk_fpa_to_fp_unsigned(ctx,Z3_mk_fpa_rne(ctx),zBV(e->k[0]),s); break;
      case E_FEXT: case E_FTRUNC: r=Z3_mk_fpa_to_fp_float(ctx,Z3_mk_fpa_rne(ctx),zFP(e->k[0]),s); break;
      case E_ITE: r=Z3_mk_ite(ctx,zBool(e->k[0]),zFP(e->k[1]),zFP(e->k[2])); break;
      default: r=Z3_mk_fpa_to_fp_bv(ctx,zBV(e),s); break; }
    return e->zf=keep(r); }
  Z3_ast zBV(Expr*e) { if (e->zb) return e->zb; Z3_ast r=nullptr; unsigned w=e->w; Z3_sort s=Z3_mk_bv_sort(ctx,w);
    if (w==1&&e->op>=E_AND&&e->op<=E_XOR) { r=Z3_mk_ite(ctx,zBool(e),Z3_mk_unsigned_int64(ctx,1,s),Z3_mk_unsigned_int64(ctx,0,s)); return e->zb=keep(r); }
    switch (e->op) {
      case E_CONST: if (w<=64) r=Z3_mk_unsigned_int64(ctx,e->lo,s); else { Z3_ast h=Z3_mk_unsigned_int64(ctx,e->hi,Z3_mk_bv_sort(ctx,w-64)); r=Z3_mk_concat(ctx,h,Z3_mk_unsigned_int64(ctx,e->lo,Z3_mk_bv_sort(ctx,64))); } break;
      case E_VAR: { char b[64]; snprintf(b,64,"v%u",e->aux); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,b),s); break; }
      case E_ADD: r=Z3_mk_bvadd(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_SUB: r=Z3_mk_bvsub(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_MUL: r=Z3_mk_bvmul(ctx,zBV(e->k[0]),zBV(e->k[1])); break;
      case E_UDIV: r=Z3_mk_bvudiv(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_SDIV: r=Z3_mk_bvsdiv(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_UREM: r=Z3_mk_bvurem(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_SREM: r=Z3_mk_bvsrem(ctx,zBV(e->k[0]),zBV(e->k[1])); break;
      case E_AND: r=Z3_mk_bvand(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_OR: r=Z3_mk_bvor(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_XOR: r=Z3_mk_bvxor(ctx,zBV(e->k[0]),zBV(e->k[1])); break;
      case E_SHL: r=Z3_mk_bvshl(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_LSHR: r=Z3_mk_bvlshr(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_ASHR: r=Z3_mk_bvashr(ctx,zBV(e->k[0]),zBV(e->k[1])); break;
      case E_CONCAT: r=Z3_mk_concat(ctx,zBV(e->k[0]),zBV(e->k[1])); break; case E_EXTRACT: r=Z3_mk_extract(ctx,e->aux+w-1,e->aux,zBV(e->k[0])); break;
      case E_ZEXT: if (e->k[0]->w==1) r=Z3_mk_ite(ctx,zBool(e->k[0]),Z3_mk_unsigned_int64(ctx,1,s),Z3_mk_unsigned_int64(ctx,0,s)); else r=Z3_mk_zero_ext(ctx,w-e->k[0]->w,zBV(e->k[0])); break;
      case E_SEXT: r=Z3_mk_sign_ext(ctx,w-e->k[0]->w,zBV(e->k[0])); break;
      case E_ITE: r=Z3_mk_ite(ctx,zBool(e->k[0]),zBV(e->k[1]),zBV(e->k[2])); break;
      case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_UMULO: case E_SMULO: case E_FEQ: case E_FLT: case E_FLE:
        r=Z3_mk_ite(ctx,zBool(e),Z3_mk_unsigned_int64(ctx,1,s),Z3_mk_unsigned_int64(ctx,0,s)); break;
      case E_F2SI: case E_F2UI: { bool sg=e->op==E_F2SI; Z3_ast x=zFP(e->k[0]); unsigned fw=e->k[0]->w; double lim=ldexp(1.0,sg?(int)w-1:(int)w);
        Z3_ast L= fw==64? Z3_mk_fpa_numeral_double(ctx,lim,fsort(64)):Z3_mk_fpa_numeral_float(ctx,(float)lim,fsort(32));
        Z3_ast conv= sg? Z3_mk_fpa_to_sbv(ctx,Z3_mk_fpa_rtz(ctx),x,w):Z3_mk_fpa_to_ubv(ctx,Z3_mk_fpa_rtz(ctx),x,w);
        Z3_ast mx=zBV(K(w,sg?mask128(w)>>1:mask128(w))), mn=zBV(K(w,sg?(u128)1<<(w-1):0)), zero=zBV(K(w,0));
        Z3_ast lowc; if (sg) { Z3_ast N= fw==64? Z3_mk_fpa_numeral_double(ctx,-lim,fsort(64)):Z3_mk_fpa_numeral_float(ctx,(float)-lim,fsort(32)); lowc=Z3_mk_fpa_lt(ctx,x,N); }
        else { Z3_ast N=fw==64?Z3_mk_fpa_numeral_double(ctx,0.0,fsort(64)):Z3_mk_fpa_numeral_float(ctx,0.0f,fsort(32)); lowc=Z3_mk_fpa_leq(ctx,x,N); }
        r=Z3_mk_ite(ctx,Z3_mk_fpa_is_nan(ctx,x),zero,Z3_mk_ite(ctx,Z3_mk_fpa_geq(ctx,x,L),mx,Z3_mk_ite(ctx,lowc,mn,conv))); break; }
      default: r=Z3_mk_fpa_to_ieee_bv(ctx,zFP(e)); break; }
    return e->zb=keep(r); }
};
