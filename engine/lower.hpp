// Lowering of LLVM IR (rustc's LTO bitcode) into eusym's flat code.
#pragma once
#include "expr.hpp"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <thread>
#include <atomic>
extern "C" LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned);

struct Slot { u64 lo, hi; Expr* e; };

enum IOp : u16 {
  I_TRAP, I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG,
  I_ICMP, I_FCMP, I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_BITCAST,
  I_FPTOUI, I_FPTOSI, I_UITOFP, I_SITOFP, I_FPEXT, I_FPTRUNC,
  I_LOAD, I_STORE, I_LOADN, I_STOREN, I_GEP, I_ALLOCA, I_CALL, I_CALLIND, I_INTR, I_RET, I_BR, I_CONDBR, I_SWITCH, I_UNREACHABLE,
  I_LOADBITS, I_STOREBITS, I_INSERT, I_PICK, I_EXTRELT, I_INSELT, I_RMW, I_CMPXCHG, I_ASM
};
// icmp preds: LLVMIntEQ=32.. ; fcmp preds 0..15

struct Inst { u16 op; u16 w; u16 lanes; u16 w2; i32 dst, a, b, c; u32 x; u32 y; u64 imm; };

struct Edge { u32 pc; u32 mv; u16 n; u8 tmp; u32 block; };
struct SwitchTab { unsigned w; std::vector<std::pair<u64,u32>> cases; u32 def; u64 lo=0; std::vector<u32> dense; };
struct BlockInfo { u32 start; u32 npred; bool pure; u32 edge; u32 n; };
struct Piece { u32 off; u16 w; u16 bytes; };

enum Builtin : int { B_NONE=0 };
struct Func { std::string name; LLVMValueRef v; u32 idx; bool decl; bool lowered=false; bool avail=false; Func* res=nullptr; int builtin=-1; bool panicky=false; u32 nslots=0, nargs=0; std::vector<Inst> code; std::vector<BlockInfo> blocks; };

static const u64 REGION=0x200000000000ull, REGION_SZ=24ull<<30;
static const u64 FN_BASE=0x0F0000000000ull;
static u64 g_globTop=REGION+4096, g_globEnd=REGION+(1ull<<30);
static const u64 STACK_LO=REGION+(1ull<<30), STACK_HI=REGION+(2ull<<30);
static const u64 HEAP_LO=REGION+(2ull<<30), HEAP_HI=REGION+REGION_SZ;
static u8* shadowBase; // 1 byte per 8: 0 unaddressable, 8 full, k first k bytes

static inline u8& shadowAt(u64 a){ return shadowBase[(a-REGION)>>3]; }
static void poison(u64 a, u64 n){ memset(&shadowAt(a),0,(n+7)>>3); }
static void unpoison(u64 a, u64 n){ memset(&shadowAt(a),8,n>>3); if (n&7) shadowAt(a+(n&~7ull))=n&7; }

struct Loader {
  LLVMContextRef C; LLVMModuleRef M; LLVMTargetDataRef TD=nullptr;
  std::vector<Func*> funcs; std::unordered_map<LLVMValueRef,Func*> fmap; std::unordered_map<std::string,Func*> byName;
  std::unordered_map<LLVMValueRef,u64> gaddr; std::vector<LLVMValueRef> gqueue; std::vector<Func*> fqueue;
  std::unordered_map<LLVMValueRef,i32> cmap; std::vector<Slot> cpool; std::vector<i32> A; std::vector<Edge> edges; std::vector<SwitchTab> sw; std::vector<Piece> pieces;
  std::unordered_map<LLVMTypeRef,u32> nslotCache; std::vector<std::string> intrNames; std::unordered_map<std::string,u32> intrIdx;
  std::vector<std::string> traps;
  u64 ninst=0;

  // ---- linking: the harness module plus, on demand, the members of the rlibs it was built against
  struct Member { const u8* bc; u64 n; bool loaded=false; std::string from; };
  std::vector<Member> members; std::unordered_map<std::string,u32> memberOf; std::vector<LLVMModuleRef> mods; std::vector<LLVMContextRef> ctxs;
  std::unordered_map<std::string,LLVMValueRef> gdefs, gweak; std::unordered_map<LLVMValueRef,LLVMValueRef> gres;
  static bool isLocal(LLVMValueRef v){ LLVMLinkage l=LLVMGetLinkage(v); return l==LLVMInternalLinkage||l==LLVMPrivateLinkage; }
  void addModule(LLVMModuleRef m) {
    mods.push_back(m); if (!TD) TD=LLVMGetModuleDataLayout(m);
    for (LLVMValueRef f=LLVMGetFirstFunction(m); f; f=LLVMGetNextFunction(f)) { Func*F=new Func; size_t l; const char*n=LLVMGetValueName2(f,&l); F->name.assign(n,l); F->v=f; F->idx=funcs.size(); F->decl=LLVMIsDeclaration(f); funcs.push_back(F); fmap[f]=F; flags(F);
      if (isLocal(f)) continue; if (F->decl) continue; if (LLVMGetLinkage(f)==LLVMAvailableExternallyLinkage) { F->avail=true; continue; } byName.emplace(F->name,F); }
    for (LLVMValueRef g=LLVMGetFirstGlobal(m); g; g=LLVMGetNextGlobal(g)) { if (isLocal(g)||LLVMIsDeclaration(g)) continue; size_t l; const char*n=LLVMGetValueName2(g,&l); (LLVMGetLinkage(g)==LLVMAvailableExternallyLinkage?gweak:gdefs).emplace(std::string(n,l),g); }
    for (LLVMValueRef g=LLVMGetFirstGlobalAlias(m); g; g=LLVMGetNextGlobalAlias(g)) { if (isLocal(g)) continue; size_t l; const char*n=LLVMGetValueName2(g,&l); gdefs.emplace(std::string(n,l),g); } }
  void flags(Func*F) { auto&nm=F->name; F->panicky = nm.find("4core9panicking")!=nm.npos || nm.find("core9panicking")!=nm.npos || nm.find("rust_begin_unwind")!=nm.npos || nm.find("3std9panicking")!=nm.npos&&nm.find("panic_count")==nm.npos&&nm.find("panicking")!=nm.npos&&(nm.find("begin_panic")!=nm.npos||nm.find("rust_panic")!=nm.npos||nm.find("panic_handler")!=nm.npos) || nm.find("handle_alloc_error")!=nm.npos || nm.find("capacity_overflow")!=nm.npos;
    if (nm.find("panicking9panicking")!=nm.npos||nm.find("panic_count")!=nm.npos) F->panicky=false; }
  LLVMModuleRef parse(const u8*p, u64 n, LLVMContextRef c) { LLVMMemoryBufferRef b=LLVMCreateMemoryBufferWithMemoryRange((const char*)p,n,"m",0); LLVMModuleRef m; if (LLVMParseBitcodeInContext2(c,b,&m)) return nullptr; LLVMDisposeMemoryBuffer(b); return m; }
  void loadMember(u32 i) { Member&mb=members[i]; if (mb.loaded) return; mb.loaded=true; LLVMContextRef c=LLVMContextCreate(); ctxs.push_back(c); LLVMModuleRef m=parse(mb.bc,mb.n,c); if (!m) throw EngineError{"cannot parse bitcode of "+mb.from}; addModule(m); nloaded++; }
  // parse the members of archives whose path contains one of the given names in parallel
  void preload(const std::vector<std::string>& pats) { std::vector<u32> todo; for (u32 i=0;i<members.size();i++) for (auto&p: pats) if (members[i].from.find(p)!=std::string::npos&&!members[i].loaded) { todo.push_back(i); members[i].loaded=true; break; }
    std::vector<LLVMModuleRef> ms(todo.size()); std::vector<LLVMContextRef> cs(todo.size()); std::atomic<size_t> nx{0}; std::vector<std::thread> th;
    for (int t=0;t<8;t++) th.emplace_back([&]{ for (size_t k; (k=nx++)<todo.size();) { cs[k]=LLVMContextCreate(); ms[k]=parse(members[todo[k]].bc,members[todo[k]].n,cs[k]); } });
    for (auto&t: th) t.join();
    for (size_t k=0;k<todo.size();k++) { if (!ms[k]) throw EngineError{"cannot parse bitcode"}; ctxs.push_back(cs[k]); addModule(ms[k]); nloaded++; } }
  unsigned nloaded=0;
  static bool mapFile(const char*path, const u8*&p, u64&n) { int fd=open(path,O_RDONLY); if (fd<0) return false; struct stat st; fstat(fd,&st); n=st.st_size; p=(const u8*)mmap(nullptr,n,PROT_READ,MAP_PRIVATE,fd,0); close(fd); return p!=(const u8*)MAP_FAILED; }
  // an ELF object with an .llvmbc section: index its global definitions
  void indexElf(const u8*o, u64 n, const std::string& from) {
    if (n<64||memcmp(o,"\177ELF",4)) return; auto R=[&](u64 off,int b){ u64 v=0; if (off+b<=n) memcpy(&v,o+off,b); return v; };
    u64 shoff=R(40,8), shn=R(60,2), shstr=R(62,2); if (shn==0) shn=R(shoff+32,8); if (shstr==0xffff) shstr=R(shoff+40,4); u64 so=R(shoff+shstr*64+24,8); const u8*bc=nullptr; u64 bn=0; u64 symoff=0,symn=0,stro=0;
    for (u64 i=0;i<shn;i++) { u64 h=shoff+i*64; u64 ty=R(h+4,4), off=R(h+24,8), sz=R(h+32,8); const char*nm=(const char*)o+so+R(h,4); if (!strcmp(nm,".llvmbc")) { bc=o+off; bn=sz; } if (ty==2) { symoff=off; symn=sz/24; u64 lk=R(h+40,4); stro=R(shoff+lk*64+24,8); } }
    if (!bc) return; u32 id=(u32)members.size(); Member mb; mb.bc=bc; mb.n=bn; mb.from=from; members.push_back(mb);
    for (u64 i=0;i<symn;i++) { u64 s=symoff+i*24; u8 info=R(s+4,1); u64 shndx=R(s+6,2); if ((info>>4)==0||shndx==0) continue; memberOf.emplace(std::string((const char*)o+stro+R(s,4)),id); } }
  bool addArchive(const char*path) { const u8*p; u64 n; if (!mapFile(path,p,n)) { fprintf(stderr,"eusym: cannot read %s\n",path); return false; } if (n<8||memcmp(p,"!<arch>\n",8)) { indexElf(p,n,path); return true; }
    const char* b=strrchr(path,'/'); std::string from=b?b+1:path;
    for (u64 q=8;q+60<=n;) { u64 sz=strtoull(std::string((const char*)p+q+48,10).c_str(),nullptr,10); const u8*d=p+q+60; if (sz>64&&!memcmp(d,"\177ELF",4)) { if (((u64)d&7)==0) indexElf(d,sz,from); else { u8*cp=(u8*)malloc(sz+8); memcpy(cp,d,sz); indexElf(cp,sz,from); } } q+=60+sz+(sz&1); }
    return true; }
  Func* resolve(Func*F) { if (!F->decl&&!F->avail) return F; if (F->res) return F->res; Func*r=F; if (F->name.rfind("llvm.",0)==0||(isBuiltin&&isBuiltin(F->name))) { F->res=F; F->avail=false; return F; }
    auto it=byName.find(F->name); if (it==byName.end()) { auto m=memberOf.find(F->name); if (m!=memberOf.end()) { loadMember(m->second); it=byName.find(F->name); } }
    if (it!=byName.end()) r=it->second; F->res=r; return r; }
  bool (*isBuiltin)(const std::string&)=nullptr;
  LLVMValueRef resolveGlobal(LLVMValueRef g) { if (isLocal(g)||(!LLVMIsDeclaration(g)&&LLVMGetLinkage(g)!=LLVMAvailableExternallyLinkage&&LLVMIsAGlobalAlias(g)==nullptr&&false)) return g; size_t l; const char*n=LLVMGetValueName2(g,&l); std::string nm(n,l);
    auto it=gdefs.find(nm); if (it==gdefs.end()) { auto m=memberOf.find(nm); if (m!=memberOf.end()) { loadMember(m->second); it=gdefs.find(nm); } } if (it!=gdefs.end()) return it->second; auto w=gweak.find(nm); return w!=gweak.end()?w->second:g; }

  bool load(const char* path) {
    C=LLVMContextCreate(); ctxs.push_back(C); const u8*p; u64 n; if (!mapFile(path,p,n)) { fprintf(stderr,"eusym: cannot read %s\n",path); return false; } M=parse(p,n,C);
    if (!M) { fprintf(stderr,"eusym: cannot parse bitcode\n"); return false; }
    addModule(M); return true; }
  u32 nslots(LLVMTypeRef t) { auto it=nslotCache.find(t); if (it!=nslotCache.end()) return it->second; u32 n=0;
    switch (LLVMGetTypeKind(t)) { case LLVMVoidTypeKind: case LLVMMetadataTypeKind: case LLVMLabelTypeKind: case LLVMTokenTypeKind: n=0; break;
      case LLVMStructTypeKind: for (unsigned i=0,k=LLVMCountStructElementTypes(t);i<k;i++) n+=nslots(LLVMStructGetTypeAtIndex(t,i)); break;
      case LLVMArrayTypeKind: n=(u32)LLVMGetArrayLength2(t)*nslots(LLVMGetElementType(t)); break;
      case LLVMVectorTypeKind: n=LLVMGetVectorSize(t); break;
      default: n=1; }
    return nslotCache[t]=n; }
  bool isVec(LLVMTypeRef t){ return LLVMGetTypeKind(t)==LLVMVectorTypeKind; }
  unsigned width(LLVMTypeRef t) { switch (LLVMGetTypeKind(t)) { case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t); case LLVMPointerTypeKind: return 64; case LLVMDoubleTypeKind: return 64; case LLVMFloatTypeKind: return 32; case LLVMHalfTypeKind: return 16; case LLVMVectorTypeKind: return width(LLVMGetElementType(t)); default: return 0; } }
  unsigned lanes(LLVMTypeRef t){ return isVec(t)?LLVMGetVectorSize(t):1; }
  void flatten(LLVMTypeRef t, u64 off, std::vector<Piece>& out) {
    switch (LLVMGetTypeKind(t)) { case LLVMVoidTypeKind: break;
      case LLVMStructTypeKind: for (unsigned i=0,k=LLVMCountStructElementTypes(t);i<k;i++) flatten(LLVMStructGetTypeAtIndex(t,i),off+LLVMOffsetOfElement(TD,t,i),out); break;
      case LLVMArrayTypeKind: { LLVMTypeRef e=LLVMGetElementType(t); u64 s=LLVMABISizeOfType(TD,e); for (u64 i=0,k=LLVMGetArrayLength2(t);i<k;i++) flatten(e,off+i*s,out); break; }
      case LLVMVectorTypeKind: { LLVMTypeRef e=LLVMGetElementType(t); unsigned w=width(e); if (w%8) throw EngineError{"bit vector in memory"}; for (unsigned i=0,k=LLVMGetVectorSize(t);i<k;i++) out.push_back({(u32)(off+i*(w/8)),(u16)w,(u16)(w/8)}); break; }
      default: { unsigned w=width(t); if (!w||w>128) throw EngineError{"type width"}; out.push_back({(u32)off,(u16)w,(u16)((w+7)/8)}); } } }

  Func* func(LLVMValueRef f){ Func*F=resolve(fmap[f]); if (!F->lowered) { F->lowered=true; fqueue.push_back(F); } return F; }
  u64 addrOf(LLVMValueRef g) {
    auto it=gaddr.find(g); if (it!=gaddr.end()) return it->second; u64 a=0;
    if (!LLVMIsAFunction(g)) { LLVMValueRef d=resolveGlobal(g); if (d!=g) { a=addrOf(d); gaddr[g]=a; return a; } }
    if (LLVMIsAFunction(g)) { a=FN_BASE+16ull*func(g)->idx; }
    else if (LLVMIsAGlobalAlias(g)) { u64 lo; constScalar(LLVMAliasGetAliasee(g),lo); a=lo; }
    else { LLVMTypeRef t=LLVMGlobalGetValueType(g); u64 sz=LLVMGetTypeKind(t)==LLVMStructTypeKind&&LLVMIsOpaqueStruct(t)?8:LLVMABISizeOfType(TD,t); unsigned al=LLVMGetAlignment(g); if (al<16) al=16;
      g_globTop=(g_globTop+al-1)/al*al; a=g_globTop; g_globTop+=sz+16; if (g_globTop>g_globEnd) throw EngineError{"globals too big"}; unpoison(a,sz?sz:1); gqueue.push_back(g); }
    gaddr[g]=a; return a; }
  void constScalar(LLVMValueRef v, u64& out){ Slot s[1]; std::vector<Slot> o; constSlots(v,o); if (o.size()!=1) throw EngineError{"constScalar"}; out=o[0].lo; }
  void constSlots(LLVMValueRef v, std::vector<Slot>& out) {
    LLVMTypeRef t=LLVMTypeOf(v); u32 n=nslots(t);
    if (LLVMIsAConstantInt(v)) { unsigned w=LLVMGetIntTypeWidth(t); Slot s{0,0,nullptr};
      if (w<=64) s.lo=LLVMConstIntGetZExtValue(v)&maskw(w);
      else { char*p=LLVMPrintValueToString(v); char*q=strchr(p,' '); q++; bool neg=*q=='-'; if (neg) q++; u128 x=0; while (*q>='0'&&*q<='9') x=x*10+(*q++-'0'); if (neg) x=(u128)0-x; x&=mask128(w); if (w>128) throw EngineError{"wide constant"}; s.lo=(u64)x; s.hi=(u64)(x>>64); LLVMDisposeMessage(p); }
      for (u32 i=0;i<n;i++) out.push_back(s); return; }
    if (LLVMIsAConstantFP(v)) { LLVMBool lost; double d=LLVMConstRealGetDouble(v,&lost); Slot s{0,0,nullptr}; s.lo= width(t)==64? Sys::db(d): width(t)==32?(u64)Sys::fb((float)d):0; for (u32 i=0;i<n;i++) out.push_back(s); return; }
    if (LLVMIsAGlobalValue(v)) { out.push_back(Slot{addrOf(v),0,nullptr}); return; }
    if (LLVMIsAConstantAggregateZero(v)||LLVMIsUndef(v)||LLVMIsPoison(v)||LLVMIsAConstantPointerNull(v)) { for (u32 i=0;i<n;i++) out.push_back(Slot{0,0,nullptr}); return; }
    if (LLVMIsAConstantExpr(v)) { switch (LLVMGetConstOpcode(v)) {
        case LLVMGetElementPtr: { u64 a; constScalar(LLVMGetOperand(v,0),a); LLVMTypeRef st=LLVMGetGEPSourceElementType(v); for (int i=1;i<LLVMGetNumOperands(v);i++) { u64 ix; constScalar(LLVMGetOperand(v,i),ix); LLVMTypeRef it=LLVMTypeOf(LLVMGetOperand(v,i)); i64 sx=sx64(ix,width(it));
              if (i==1) a+=sx*LLVMABISizeOfType(TD,st); else if (LLVMGetTypeKind(st)==LLVMStructTypeKind) { a+=LLVMOffsetOfElement(TD,st,(unsigned)ix); st=LLVMStructGetTypeAtIndex(st,(unsigned)ix);} else { st=LLVMGetElementType(st); a+=sx*LLVMABISizeOfType(TD,st);} } out.push_back(Slot{a,0,nullptr}); return; }
        case LLVMPtrToInt: case LLVMIntToPtr: case LLVMTrunc: case (LLVMOpcode)69: { u64 a; constScalar(LLVMGetOperand(v,0),a); out.push_back(Slot{a&maskw(width(t)),0,nullptr}); return; }
        case LLVMBitCast: case LLVMAddrSpaceCast: constSlots(LLVMGetOperand(v,0),out); return;
        case LLVMAdd: case LLVMSub: case LLVMXor: { u64 a,b; constScalar(LLVMGetOperand(v,0),a); constScalar(LLVMGetOperand(v,1),b); u64 r=LLVMGetConstOpcode(v)==LLVMAdd?a+b:LLVMGetConstOpcode(v)==LLVMSub?a-b:a^b; out.push_back(Slot{r&maskw(width(t)),0,nullptr}); return; }
        default: throw EngineError{"constant expression opcode "+std::to_string(LLVMGetConstOpcode(v))}; } }
    LLVMTypeKind k=LLVMGetTypeKind(t); unsigned cnt= k==LLVMStructTypeKind?LLVMCountStructElementTypes(t): k==LLVMArrayTypeKind?(unsigned)LLVMGetArrayLength2(t): k==LLVMVectorTypeKind?LLVMGetVectorSize(t):0;
    if (!cnt) { if (n==0) return; throw EngineError{"unknown constant"}; }
    for (unsigned i=0;i<cnt;i++) constSlots(LLVMGetAggregateElement(v,i),out); }
  void writeConst(LLVMValueRef v, u64 a) {
    LLVMTypeRef t=LLVMTypeOf(v);
    if (LLVMIsAConstantAggregateZero(v)||LLVMIsUndef(v)||LLVMIsPoison(v)||LLVMIsAConstantPointerNull(v)) return;
    LLVMTypeKind k=LLVMGetTypeKind(t);
    if (k==LLVMArrayTypeKind&&LLVMIsAConstantDataSequential(v)&&LLVMIsConstantString(v)) { size_t l; const char*s=LLVMGetAsString(v,&l); memcpy((void*)a,s,l); return; }
    if (!LLVMIsAConstantExpr(v)) {
      if (k==LLVMStructTypeKind) { for (unsigned i=0,n=LLVMCountStructElementTypes(t);i<n;i++) writeConst(LLVMGetAggregateElement(v,i),a+LLVMOffsetOfElement(TD,t,i)); return; }
      if (k==LLVMArrayTypeKind) { u64 s=LLVMABISizeOfType(TD,LLVMGetElementType(t)); for (u64 i=0,n=LLVMGetArrayLength2(t);i<n;i++) writeConst(LLVMGetAggregateElement(v,(unsigned)i),a+i*s); return; } }
    std::vector<Slot> o; constSlots(v,o); std::vector<Piece> p; flatten(t,0,p);
    for (size_t i=0;i<p.size();i++) { memcpy((void*)(a+p[i].off),&o[i].lo,p[i].bytes<8?p[i].bytes:8); if (p[i].bytes>8) memcpy((void*)(a+p[i].off+8),&o[i].hi,p[i].bytes-8); } }
  i32 constant(LLVMValueRef v) { auto it=cmap.find(v); if (it!=cmap.end()) return it->second; std::vector<Slot> o; constSlots(v,o); i32 r=~(i32)cpool.size(); for (auto&s:o) cpool.push_back(s); if (o.empty()) cpool.push_back(Slot{0,0,nullptr}); return cmap[v]=r; }
  // constants occupying k slots: cpool entries ascend, so operand+i of a constant is ~(~c + i)
  static i32 off(i32 base, u32 i){ return base>=0? base+(i32)i : ~(~base+(i32)i); }

  void drain() { while (!fqueue.empty()||!gqueue.empty()) {
      if (!gqueue.empty()) { LLVMValueRef g=gqueue.back(); gqueue.pop_back(); LLVMValueRef in=LLVMGetInitializer(g); if (in) writeConst(in,addrOf(g)); continue; }
      Func*F=fqueue.back(); fqueue.pop_back(); if (!F->decl) lowerFn(F); } }

  u32 aggOffset(LLVMTypeRef t, const unsigned* idx, unsigned n, LLVMTypeRef& outT) { u32 o=0; for (unsigned i=0;i<n;i++) { if (LLVMGetTypeKind(t)==LLVMStructTypeKind) { for (unsigned j=0;j<idx[i];j++) o+=nslots(LLVMStructGetTypeAtIndex(t,j)); t=LLVMStructGetTypeAtIndex(t,idx[i]); } else { t=LLVMGetElementType(t); o+=idx[i]*nslots(t);} } outT=t; return o; }

  std::unordered_map<LLVMValueRef,i32> vm; std::unordered_map<LLVMBasicBlockRef,u32> bm;
  i32 opnd(LLVMValueRef v){ if (LLVMIsAInstruction(v)||LLVMIsAArgument(v)) { auto it=vm.find(v); if (it==vm.end()) throw EngineError{"operand"}; return it->second; } if (LLVMIsAInlineAsm(v)||LLVMGetValueKind(v)==LLVMMetadataAsValueValueKind) return ~0; return constant(v); }
  u32 mkEdge(Func*F, LLVMBasicBlockRef from, LLVMBasicBlockRef to) {
    Edge e; e.block=bm[to]; e.pc=0; e.n=0; e.tmp=0; std::vector<i32> d,s; std::vector<u16> ww;
    for (LLVMValueRef i=LLVMGetFirstInstruction(to); i&&LLVMGetInstructionOpcode(i)==LLVMPHI; i=LLVMGetNextInstruction(i)) { LLVMValueRef in=nullptr; for (unsigned k=0,n=LLVMCountIncoming(i);k<n;k++) if (LLVMGetIncomingBlock(i,k)==from) { in=LLVMGetIncomingValue(i,k); break; }
      if (!in) throw EngineError{"phi"}; if (LLVMIsUndef(in)||LLVMIsPoison(in)) { /* any value: keep it defined */ }
      u32 n=nslots(LLVMTypeOf(i)); i32 src=opnd(in), dst=vm[i]; for (u32 k=0;k<n;k++) { d.push_back(dst+(i32)k); s.push_back(off(src,k)); } slotWidths(LLVMTypeOf(i),ww); }
    for (size_t i=0;i<d.size();i++) for (size_t j=i+1;j<s.size();j++) if (s[j]==d[i]) e.tmp=1;
    e.mv=(u32)A.size();
    for (size_t i=0;i<d.size();i++) { A.push_back(d[i]); A.push_back(s[i]); A.push_back(ww[i]); }
    e.n=(u16)d.size(); F->blocks[e.block].npred++; edges.push_back(e); return (u32)edges.size()-1; }

  void lowerFn(Func*F) {
    vm.clear(); bm.clear(); u32 ns=0;
    for (unsigned i=0,n=LLVMCountParams(F->v);i<n;i++) { LLVMValueRef p=LLVMGetParam(F->v,i); vm[p]=(i32)ns; ns+=nslots(LLVMTypeOf(p)); }
    F->nargs=ns; u32 nb=0;
    for (LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(F->v); b; b=LLVMGetNextBasicBlock(b)) { bm[b]=nb++; for (LLVMValueRef i=LLVMGetFirstInstruction(b); i; i=LLVMGetNextInstruction(i)) { u32 n=nslots(LLVMTypeOf(i)); if (n) { vm[i]=(i32)ns; ns+=n; } } }
    F->nslots=ns+1; F->blocks.assign(nb,BlockInfo{0,0,false,0,0}); u32 e0=(u32)edges.size();
    for (LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(F->v); b; b=LLVMGetNextBasicBlock(b)) { BlockInfo& bi=F->blocks[bm[b]]; bi.start=(u32)F->code.size(); bool pure=true; u32 cnt=0;
      for (LLVMValueRef i=LLVMGetFirstInstruction(b); i; i=LLVMGetNextInstruction(i)) { if (LLVMGetInstructionOpcode(i)==LLVMPHI) { pure=false; continue; }
        Inst in; memset(&in,0,sizeof in); size_t before=F->code.size();
        try { lowerInst(F,b,i,in); } catch (EngineError& e) { in.op=I_TRAP; in.x=(u32)traps.size(); char*s=LLVMPrintValueToString(i); traps.push_back(e.msg+": "+std::string(s).substr(0,200)); LLVMDisposeMessage(s); F->code.resize(before); F->code.push_back(in); }
        for (size_t k=before;k<F->code.size();k++) { cnt++; switch (F->code[k].op) { case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR: case I_ICMP: case I_FCMP: case I_SELECT: case I_TRUNC: case I_ZEXT: case I_SEXT: case I_COPY: case I_GEP: case I_BITCAST: case I_PICK: case I_INSERT: case I_FNEG: break; case I_BR: bi.edge=F->code[k].x; break; default: pure=false; } } }
      if (F->code.empty()||F->code.back().op!=I_BR) pure=false; bi.pure=pure&&cnt<=14; bi.n=cnt; }
    for (u32 e=e0;e<edges.size();e++) edges[e].pc=F->blocks[edges[e].block].start;
    ninst+=F->code.size(); }

  void lowerInst(Func*F, LLVMBasicBlockRef b, LLVMValueRef i, Inst& in) {
    LLVMTypeRef t=LLVMTypeOf(i); auto it=vm.find(i); in.dst= it==vm.end()?-1:it->second; in.w=(u16)width(t); in.lanes=(u16)lanes(t); LLVMOpcode op=LLVMGetInstructionOpcode(i);
    auto O=[&](unsigned k){ return LLVMGetOperand(i,k); };
    auto emit=[&](){ if (in.w>128) throw EngineError{"width"}; F->code.push_back(in); };
    auto bin=[&](IOp o){ in.op=o; in.a=opnd(O(0)); in.b=opnd(O(1)); emit(); };
    auto cast=[&](IOp o){ in.op=o; in.a=opnd(O(0)); in.w2=(u16)width(LLVMTypeOf(O(0))); if (in.w2>128) throw EngineError{"width"}; emit(); };
    switch ((int)op) {
      case LLVMAdd: bin(I_ADD); return; case LLVMSub: bin(I_SUB); return; case LLVMMul: bin(I_MUL); return; case LLVMUDiv: bin(I_UDIV); return; case LLVMSDiv: bin(I_SDIV); return; case LLVMURem: bin(I_UREM); return; case LLVMSRem: bin(I_SREM); return;
      case LLVMAnd: bin(I_AND); return; case LLVMOr: bin(I_OR); return; case LLVMXor: bin(I_XOR); return; case LLVMShl: bin(I_SHL); return; case LLVMLShr: bin(I_LSHR); return; case LLVMAShr: bin(I_ASHR); return;
      case LLVMFAdd: bin(I_FADD); return; case LLVMFSub: bin(I_FSUB); return; case LLVMFMul: bin(I_FMUL); return; case LLVMFDiv: bin(I_FDIV); return; case LLVMFRem: bin(I_FREM); return;
      case LLVMFNeg: in.op=I_FNEG; in.a=opnd(O(0)); emit(); return;
      case LLVMICmp: in.op=I_ICMP; in.a=opnd(O(0)); in.b=opnd(O(1)); in.x=LLVMGetICmpPredicate(i); in.w2=(u16)width(LLVMTypeOf(O(0))); if (in.w2>128) throw EngineError{"width"}; emit(); return;
      case LLVMFCmp: in.op=I_FCMP; in.a=opnd(O(0)); in.b=opnd(O(1)); in.x=LLVMGetFCmpPredicate(i); in.w2=(u16)width(LLVMTypeOf(O(0))); emit(); return;
      case LLVMSelect: in.op=I_SELECT; in.a=opnd(O(0)); in.b=opnd(O(1)); in.c=opnd(O(2)); in.x=nslots(t); in.y=isVec(LLVMTypeOf(O(0))); 
        { std::vector<u16> ws; slotWidths(t,ws); in.imm=A.size(); for (auto w:ws) A.push_back(w); } in.w=0; emit(); return;
      case LLVMTrunc: cast(I_TRUNC); return; case LLVMZExt: cast(I_ZEXT); return; case LLVMSExt: cast(I_SEXT); return; case LLVMFPToUI: cast(I_FPTOUI); return; case LLVMFPToSI: cast(I_FPTOSI); return; case LLVMUIToFP: cast(I_UITOFP); return; case LLVMSIToFP: cast(I_SITOFP); return; case LLVMFPExt: cast(I_FPEXT); return; case LLVMFPTrunc: cast(I_FPTRUNC); return;
      case LLVMPtrToInt: case LLVMIntToPtr: case 69: if (in.w<64) cast(I_TRUNC); else cast(I_ZEXT); return;
      case LLVMFreeze: case LLVMAddrSpaceCast: in.op=I_COPY; in.a=opnd(O(0)); in.x=nslots(t); in.w=0; emit(); return;
      case LLVMBitCast: { LLVMTypeRef st=LLVMTypeOf(O(0)); in.a=opnd(O(0)); in.w2=(u16)width(st); in.x=lanes(st); if (in.w2==in.w&&in.x==in.lanes) { in.op=I_COPY; in.x=nslots(t); } else in.op=I_BITCAST; emit(); return; }
      case LLVMLoad: case LLVMStore: { bool ld=op==LLVMLoad; LLVMTypeRef vt= ld?t:LLVMTypeOf(O(0));
          if (isVec(vt)&&width(vt)%8) { unsigned n=lanes(vt), lw=width(vt); if (n*lw>128||n*lw%8) throw EngineError{"bit vector in memory"}; in.op=ld?I_LOADBITS:I_STOREBITS; in.a=opnd(O(ld?0:1)); if (!ld) in.b=opnd(O(0)); in.w=(u16)lw; in.lanes=(u16)n; in.x=n*lw/8; emit(); return; }
          std::vector<Piece> p; flatten(vt,0,p); in.a=opnd(O(ld?0:1)); if (!ld) in.b=opnd(O(0)); 
          if (p.size()==1) { in.op=ld?I_LOAD:I_STORE; in.w=p[0].w; in.x=p[0].bytes; } else { in.op=ld?I_LOADN:I_STOREN; in.x=(u32)pieces.size(); in.y=(u32)p.size(); for (auto&q:p) pieces.push_back(q); in.w=0; } emit(); return; }
      case LLVMGetElementPtr: { if (in.lanes!=1) throw EngineError{"vector gep"}; in.op=I_GEP; in.a=opnd(O(0)); in.x=(u32)A.size(); in.y=0; i64 c=0; LLVMTypeRef st=LLVMGetGEPSourceElementType(i);
          for (int k=1;k<LLVMGetNumOperands(i);k++) { LLVMValueRef ix=O(k); u64 sz; if (k==1) sz=LLVMABISizeOfType(TD,st); else if (LLVMGetTypeKind(st)==LLVMStructTypeKind) { unsigned f=(unsigned)LLVMConstIntGetZExtValue(ix); c+=LLVMOffsetOfElement(TD,st,f); st=LLVMStructGetTypeAtIndex(st,f); continue; } else { st=LLVMGetElementType(st); sz=LLVMABISizeOfType(TD,st); }
            if (LLVMIsAConstantInt(ix)) c+=LLVMConstIntGetSExtValue(ix)*(i64)sz; else { A.push_back(opnd(ix)); A.push_back((i32)sz); A.push_back((i32)width(LLVMTypeOf(ix))); in.y++; } }
          in.imm=(u64)c; emit(); return; }
      case LLVMAlloca: { in.op=I_ALLOCA; LLVMTypeRef at=LLVMGetAllocatedType(i); in.imm=LLVMABISizeOfType(TD,at); in.a=opnd(O(0)); in.x=LLVMGetAlignment(i); if (in.x<16) in.x=16; emit(); return; }
      case LLVMExtractValue: { LLVMTypeRef ot; u32 o=aggOffset(LLVMTypeOf(O(0)),LLVMGetIndices(i),LLVMGetNumIndices(i),ot); in.op=I_COPY; in.a=off(opnd(O(0)),o); in.x=nslots(t); in.w=0; emit(); return; }
      case LLVMInsertValue: { LLVMTypeRef ot; u32 o=aggOffset(t,LLVMGetIndices(i),LLVMGetNumIndices(i),ot); in.op=I_INSERT; in.a=opnd(O(0)); in.b=opnd(O(1)); in.x=nslots(t); in.y=o; in.imm=nslots(ot); in.w=0; emit(); return; }
      case LLVMExtractElement: { LLVMValueRef ix=O(1); if (LLVMIsAConstantInt(ix)) { in.op=I_COPY; in.a=off(opnd(O(0)),(u32)LLVMConstIntGetZExtValue(ix)); in.x=1; } else { in.op=I_EXTRELT; in.a=opnd(O(0)); in.b=opnd(ix); in.x=lanes(LLVMTypeOf(O(0))); } emit(); return; }
      case LLVMInsertElement: { LLVMValueRef ix=O(2); if (LLVMIsAConstantInt(ix)) { in.op=I_INSERT; in.a=opnd(O(0)); in.b=opnd(O(1)); in.x=nslots(t); in.y=(u32)LLVMConstIntGetZExtValue(ix); in.imm=1; } else { in.op=I_INSELT; in.a=opnd(O(0)); in.b=opnd(O(1)); in.c=opnd(ix); in.x=nslots(t);} emit(); return; }
      case LLVMShuffleVector: { in.op=I_PICK; unsigned n=LLVMGetNumMaskElements(i), ln=lanes(LLVMTypeOf(O(0))); i32 a=opnd(O(0)), bb=opnd(O(1)); in.x=(u32)A.size(); in.y=n; for (unsigned k=0;k<n;k++) { int m=LLVMGetMaskValue(i,k); A.push_back(m<0? off(a,0): m<(int)ln? off(a,m):off(bb,m-ln)); } emit(); return; }
      case LLVMAtomicRMW: in.op=I_RMW; in.a=opnd(O(0)); in.b=opnd(O(1)); in.y=LLVMGetAtomicRMWBinOp(i); in.x=(in.w+7)/8; emit(); return;
      case LLVMAtomicCmpXchg: in.op=I_CMPXCHG; in.a=opnd(O(0)); in.b=opnd(O(1)); in.c=opnd(O(2)); in.w=(u16)width(LLVMTypeOf(O(1))); in.x=(in.w+7)/8; in.lanes=1; emit(); return;
      case LLVMFence: return;
      case LLVMRet: in.op=I_RET; if (LLVMGetNumOperands(i)) { in.a=opnd(O(0)); in.x=nslots(LLVMTypeOf(O(0))); } in.w=0; emit(); return;
      case LLVMSwitch: { in.op=I_SWITCH; LLVMValueRef c=LLVMGetOperand(i,0); in.a=opnd(c); SwitchTab s; s.w=width(LLVMTypeOf(c)); if (s.w>64) throw EngineError{"switch width"}; unsigned n=LLVMGetNumSuccessors(i); std::unordered_map<LLVMBasicBlockRef,u32> ed; auto E=[&](LLVMBasicBlockRef to){ auto f=ed.find(to); if (f!=ed.end()) return f->second; return ed[to]=mkEdge(F,b,to); };
          s.def=E(LLVMGetSuccessor(i,0)); for (unsigned k=1;k<n;k++) s.cases.push_back({LLVMConstIntGetZExtValue(LLVMGetSwitchCaseValue(i,k)),E(LLVMGetSuccessor(i,k))});
          std::sort(s.cases.begin(),s.cases.end()); if (!s.cases.empty()) { u64 lo=s.cases.front().first, hi=s.cases.back().first; if (hi-lo<4*s.cases.size()+64) { s.lo=lo; s.dense.assign(hi-lo+1,s.def); for (auto&c2:s.cases) s.dense[c2.first-lo]=c2.second; } }
          in.x=(u32)sw.size(); sw.push_back(s); emit(); return; }
      case LLVMUnreachable: in.op=I_UNREACHABLE; emit(); return;
      case LLVMCall: case LLVMInvoke: lowerCall(F,b,i,in,op==LLVMInvoke); return;
      case LLVMLandingPad: case LLVMResume: throw EngineError{"landingpad"};
      default: break; }
    unsigned ns=LLVMGetNumSuccessors(i);
    if (ns==1) { in.op=I_BR; in.x=mkEdge(F,b,LLVMGetSuccessor(i,0)); emit(); return; }
    if (ns==2) { in.op=I_CONDBR; in.a=opnd(LLVMGetCondition(i)); LLVMBasicBlockRef t0=LLVMGetSuccessor(i,0), t1=LLVMGetSuccessor(i,1); in.x=mkEdge(F,b,t0); in.y= t0==t1? in.x: mkEdge(F,b,t1); emit(); return; }
    throw EngineError{"opcode "+std::to_string(op)}; }
  void slotWidths(LLVMTypeRef t, std::vector<u16>& out){ switch (LLVMGetTypeKind(t)) { case LLVMStructTypeKind: for (unsigned i=0,k=LLVMCountStructElementTypes(t);i<k;i++) slotWidths(LLVMStructGetTypeAtIndex(t,i),out); break; case LLVMArrayTypeKind: for (u64 i=0,k=LLVMGetArrayLength2(t);i<k;i++) slotWidths(LLVMGetElementType(t),out); break; case LLVMVectorTypeKind: for (unsigned i=0,k=LLVMGetVectorSize(t);i<k;i++) out.push_back((u16)width(t)); break; default: out.push_back((u16)width(t)); } }
  void lowerCall(Func*F, LLVMBasicBlockRef b, LLVMValueRef i, Inst& in, bool inv) {
    LLVMValueRef cv=LLVMGetCalledValue(i); unsigned na=LLVMGetNumArgOperands(i); in.c=(i32)nslots(LLVMTypeOf(i)); bool skip=false;
    if (LLVMIsAInlineAsm(cv)) { in.op=I_ASM; char const*as; size_t l; as=LLVMGetInlineAsmAsmString(cv,&l); std::string s(as,l); in.x=(u32)traps.size(); traps.push_back(s); in.y=(u32)A.size(); A.push_back((i32)na); for (unsigned k=0;k<na;k++) A.push_back(opnd(LLVMGetArgOperand(i,k))); 
      std::vector<u16> ws; slotWidths(LLVMTypeOf(i),ws); F->code.push_back(in); }
    else {
      Func* callee= LLVMIsAFunction(cv)? resolve(fmap[cv]):nullptr;
      if (callee&&callee->decl&&callee->name.rfind("llvm.",0)==0) { const std::string&n=callee->name;
        if (n.rfind("llvm.lifetime",0)==0||n.rfind("llvm.assume",0)==0||n.rfind("llvm.dbg",0)==0||n.rfind("llvm.experimental.noalias",0)==0||n.rfind("llvm.prefetch",0)==0||n.rfind("llvm.invariant",0)==0||n.rfind("llvm.donothing",0)==0) skip=true;
        else { in.op=I_INTR; auto it=intrIdx.find(n); if (it==intrIdx.end()) { it=intrIdx.emplace(n,(u32)intrNames.size()).first; intrNames.push_back(n); } in.imm=it->second; if (na) { in.w2=(u16)width(LLVMTypeOf(LLVMGetArgOperand(i,0))); if (in.w2>128&&in.w2<0xffff) throw EngineError{"width"}; } 
          if (!in.w&&LLVMGetTypeKind(LLVMTypeOf(i))==LLVMStructTypeKind) { in.w=(u16)width(LLVMStructGetTypeAtIndex(LLVMTypeOf(i),0)); in.lanes=(u16)lanes(LLVMStructGetTypeAtIndex(LLVMTypeOf(i),0)); }
          if (na) in.y=lanes(LLVMTypeOf(LLVMGetArgOperand(i,0))); } }
      else if (callee) { in.op=I_CALL; in.imm=(u64)func(cv); }
      else { in.op=I_CALLIND; in.a=opnd(cv); }
      if (!skip) { std::vector<i32> ar; for (unsigned k=0;k<na;k++) { LLVMValueRef v=LLVMGetArgOperand(i,k); u32 n=nslots(LLVMTypeOf(v)); if (!n) continue; i32 o=opnd(v); for (u32 q=0;q<n;q++) ar.push_back(off(o,q)); }
        in.x=(u32)A.size(); in.b=(i32)ar.size(); for (i32 o: ar) A.push_back(o); F->code.push_back(in); } }
    if (inv) { Inst br; memset(&br,0,sizeof br); br.op=I_BR; br.x=mkEdge(F,b,LLVMGetNormalDest(i)); F->code.push_back(br); }
  }
};
