// irdump: dump LLVM IR modules as JSON for the static analyser (absint.py).
// Reads .bc/.ll files; writes one JSON document on stdout.  No code is executed.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

static raw_ostream &O = outs();
static const DataLayout *DL;
static std::string modtag;

static void jstr(StringRef s) {
  O << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') O << '\\' << c;
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); O << b; }
    else O << c;
  }
  O << '"';
}
static std::string gname(const GlobalValue *g) {
  std::string n = g->getName().str();
  if (g->hasLocalLinkage()) return modtag + ":" + n;
  return n;
}
// type: int N -> N ; ptr -> "p" ; void -> "v" ; float/double -> "f32"/"f64"; aggregate -> {"s":[[off,ty]..],"z":size}
static void ty(Type *t) {
  if (t->isIntegerTy()) O << t->getIntegerBitWidth();
  else if (t->isPointerTy()) O << "\"p\"";
  else if (t->isVoidTy()) O << "\"v\"";
  else if (t->isFloatTy()) O << "\"f32\"";
  else if (t->isDoubleTy()) O << "\"f64\"";
  else if (auto *s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) { O << "{\"s\":[],\"z\":0}"; return; }
    auto *sl = DL->getStructLayout(s);
    O << "{\"s\":[";
    for (unsigned i = 0; i < s->getNumElements(); i++) { if (i) O << ','; O << '[' << (uint64_t)sl->getElementOffset(i) << ','; ty(s->getElementType(i)); O << ']'; }
    O << "],\"z\":" << (uint64_t)DL->getTypeAllocSize(t) << '}';
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    O << "{\"a\":" << a->getNumElements() << ",\"e\":"; ty(a->getElementType());
    O << ",\"z\":" << (uint64_t)DL->getTypeAllocSize(t) << '}';
  } else { O << "\"?"; std::string s; raw_string_ostream r(s); t->print(r); O << r.str() << "\""; }
}
typedef std::map<const Value *, int> Ids;
static void konst(const Constant *c);
// a sign extension of which only the low source bits are used is a zero extension
static bool lowonly(const Instruction *x, unsigned sw, int d) {
  for (const User *u : x->users()) {
    if (auto *b = dyn_cast<BinaryOperator>(u)) {
      auto op = b->getOpcode();
      if (op == Instruction::And) {
        bool ok = false;
        for (int k = 0; k < 2; k++) if (auto *ci = dyn_cast<ConstantInt>(b->getOperand(k))) ok = ci->getValue().getActiveBits() <= sw;
        if (ok) continue;
      }
      if (d < 4 && (op == Instruction::Or || op == Instruction::Xor || op == Instruction::And || op == Instruction::Add) && lowonly(b, sw, d + 1)) continue;
      return false;
    }
    if (auto *t = dyn_cast<TruncInst>(u)) { if (t->getType()->getIntegerBitWidth() <= sw) continue; }
    return false;
  }
  return true;
}
static const char *castname(const CastInst *c) {
  if (isa<SExtInst>(c) && c->getSrcTy()->isIntegerTy() && c->getSrcTy()->getIntegerBitWidth() > 1 && lowonly(c, c->getSrcTy()->getIntegerBitWidth(), 0)) return "zext";
  return c->getOpcodeName();
}
static void opnd(const Value *v, Ids &ids) {
  if (auto *c = dyn_cast<Constant>(v)) { konst(c); return; }
  if (isa<InlineAsm>(v)) { auto *a = cast<InlineAsm>(v); O << "[\"asm\","; jstr(a->getAsmString()); O << ','; jstr(a->getConstraintString()); O << ']'; return; }
  if (isa<MetadataAsValue>(v)) { O << "[\"md\"]"; return; }
  if (auto *b = dyn_cast<BasicBlock>(v)) { O << "[\"bb\"," << ids[b] << ']'; return; }
  O << ids[v];
}
// constant: ["c",width,"val"] ["null"] ["undef",ty] ["g",name,off] ["f",name] ["fp",val] ["agg",ty,[...]] ["ce",op,...]
static void konst(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; i->getValue().toStringUnsigned(s);
    O << "[\"c\"," << i->getBitWidth() << ",\"" << s << "\"]"; return;
  }
  if (isa<ConstantPointerNull>(c)) { O << "[\"null\"]"; return; }
  if (isa<UndefValue>(c)) { O << "[\"undef\","; ty(c->getType()); O << ']'; return; }
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    SmallString<40> s; f->getValueAPF().toString(s, 20); O << "[\"fp\",\"" << s << "\"]"; return; }
  if (auto *f = dyn_cast<Function>(c)) { O << "[\"f\","; jstr(gname(f)); O << ']'; return; }
  if (auto *al = dyn_cast<GlobalAlias>(c)) { konst(al->getAliasee()); return; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { O << "[\"g\","; jstr(gname(g)); O << ",0]"; return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
        const Value *b = ce->getOperand(0);
        O << "[\"gep\","; konst(cast<Constant>(b)); O << ',' << off.getSExtValue() << ']'; return;
      }
    }
    O << "[\"ce\",\"" << ce->getOpcodeName() << "\","; ty(ce->getType());
    for (auto &op : ce->operands()) { O << ','; konst(cast<Constant>(op)); }
    O << ']'; return;
  }
  if (isa<ConstantAggregateZero>(c)) { O << "[\"zero\","; ty(c->getType()); O << ']'; return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    O << "[\"agg\","; ty(c->getType()); O << ",[";
    for (unsigned i = 0; i < d->getNumElements(); i++) { if (i) O << ','; konst(d->getElementAsConstant(i)); }
    O << "]]"; return;
  }
  if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    O << "[\"agg\","; ty(c->getType()); O << ",[";
    for (unsigned i = 0; i < a->getNumOperands(); i++) { if (i) O << ','; konst(a->getOperand(i)); }
    O << "]]"; return;
  }
  O << "[\"?\"]";
}
// flat initialiser: list of [off, const] leaves; strings as ["str", off, bytes]
static void flat(const Constant *c, uint64_t off, bool &first) {
  auto sep = [&] { if (!first) O << ','; first = false; };
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    if (d->getElementType()->isIntegerTy(8)) {
      sep(); O << "[" << off << ",[\"str\",[";
      for (unsigned i = 0; i < d->getNumElements(); i++) { if (i) O << ','; O << d->getElementAsInteger(i); }
      O << "]]]"; return;
    }
    uint64_t es = d->getElementByteSize();
    for (unsigned i = 0; i < d->getNumElements(); i++) { sep(); O << '[' << off + i * es << ','; konst(d->getElementAsConstant(i)); O << ']'; }
    return;
  }
  if (auto *s = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(s->getType());
    for (unsigned i = 0; i < s->getNumOperands(); i++) flat(s->getOperand(i), off + (uint64_t)sl->getElementOffset(i), first);
    return;
  }
  if (auto *a = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType());
    for (unsigned i = 0; i < a->getNumOperands(); i++) flat(a->getOperand(i), off + i * es, first);
    return;
  }
  sep(); O << '[' << off << ','; konst(c); O << ']';
}
static std::map<std::string,int> filetab; static std::vector<std::string> files;
static int fileid(const std::string &s) { auto it = filetab.find(s); if (it != filetab.end()) return it->second; int n = files.size(); filetab[s] = n; files.push_back(s); return n; }
static std::string dipath(const DIFile *f) {
  if (!f) return "?";
  std::string n = f->getFilename().str();
  if (!n.empty() && n[0] == '/') return n;
  return f->getDirectory().str() + "/" + n;
}
static void loc(const Instruction &I) {
  if (const DebugLoc &d = I.getDebugLoc()) {
    auto *l = d.get();
    O << ",[" << fileid(dipath(l->getFile())) << ',' << l->getLine() << ']';
  } else O << ",0";
}
static void fn(Function &F) {
  Ids ids; int n = 0;
  for (auto &a : F.args()) ids[&a] = n++;
  int b = 0;
  for (auto &B : F) { ids[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++; }
  jstr(gname(&F)); O << ":{\"name\":"; jstr(F.getName()); O << ",\"mod\":"; jstr(modtag);
  O << ",\"int\":" << (F.hasLocalLinkage() ? 1 : 0) << ",\"va\":" << (F.isVarArg() ? 1 : 0) << ",\"nr\":" << n << ",\"ret\":"; ty(F.getReturnType());
  O << ",\"args\":["; bool f1 = true; for (auto &a : F.args()) { if (!f1) O << ','; f1 = false; 
    O << '['; ty(a.getType()); O << ','; jstr(a.getName());
    if (a.hasByValAttr()) O << ",\"byval\"," << (uint64_t)DL->getTypeAllocSize(a.getParamByValType());
    else if (a.hasStructRetAttr()) O << ",\"sret\",0"; 
    O << ']'; } O << ']';
  if (auto *sp = F.getSubprogram()) { O << ",\"file\":" << fileid(dipath(sp->getFile())) << ",\"line\":" << sp->getLine(); }
  O << ",\"blocks\":[";
  bool fb = true;
  for (auto &B : F) {
    if (!fb) O << ','; fb = false; O << '[';
    bool fi = true;
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl) continue; }
      if (!fi) O << ",\n"; fi = false;
      int d = I.getType()->isVoidTy() ? -1 : ids[&I];
      O << "[\"";
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        O << "gep\"," << d; loc(I); O << ','; opnd(g->getPointerOperand(), ids);
        int64_t off = 0; std::vector<std::pair<const Value*, uint64_t>> var;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          const Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) { off += (int64_t)(uint64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else { uint64_t sc = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * (int64_t)sc; else var.push_back({ix, sc}); }
        }
        O << ',' << off << ",["; bool fv = true;
        for (auto &p : var) { if (!fv) O << ','; fv = false; O << '['; opnd(p.first, ids); O << ',' << p.second << ',' << p.first->getType()->getIntegerBitWidth() << ']'; }
        O << "]]"; continue;
      }
      if (auto *a = dyn_cast<AllocaInst>(&I)) {
        O << "alloca\"," << d; loc(I); O << ',' << (uint64_t)DL->getTypeAllocSize(a->getAllocatedType()) << ','; opnd(a->getArraySize(), ids); O << ']'; continue; }
      if (auto *l = dyn_cast<LoadInst>(&I)) { O << "load\"," << d; loc(I); O << ','; ty(l->getType()); O << ','; opnd(l->getPointerOperand(), ids); O << ',' << (l->isVolatile() ? 1 : 0) << ']'; continue; }
      if (auto *s = dyn_cast<StoreInst>(&I)) { O << "store\"," << d; loc(I); O << ','; ty(s->getValueOperand()->getType()); O << ','; opnd(s->getValueOperand(), ids); O << ','; opnd(s->getPointerOperand(), ids); O << ',' << (s->isVolatile() ? 1 : 0) << ']'; continue; }
      if (auto *c = dyn_cast<ICmpInst>(&I)) { O << "icmp\"," << d; loc(I); O << ",\"" << CmpInst::getPredicateName(c->getPredicate()) << "\","; ty(c->getOperand(0)->getType()); O << ','; opnd(c->getOperand(0), ids); O << ','; opnd(c->getOperand(1), ids); O << ']'; continue; }
      if (auto *c = dyn_cast<FCmpInst>(&I)) { O << "fcmp\"," << d; loc(I); O << ",\"" << CmpInst::getPredicateName(c->getPredicate()) << "\","; opnd(c->getOperand(0), ids); O << ','; opnd(c->getOperand(1), ids); O << ']'; continue; }
      if (auto *b = dyn_cast<BranchInst>(&I)) { O << "br\"," << d; loc(I); if (b->isConditional()) { O << ','; opnd(b->getCondition(), ids); O << ',' << ids[b->getSuccessor(0)] << ',' << ids[b->getSuccessor(1)]; } else O << ",null," << ids[b->getSuccessor(0)]; O << ']'; continue; }
      if (auto *s = dyn_cast<SwitchInst>(&I)) { O << "switch\"," << d; loc(I); O << ','; ty(s->getCondition()->getType()); O << ','; opnd(s->getCondition(), ids); O << ',' << ids[s->getDefaultDest()] << ",["; bool f = true;
        for (auto &c : s->cases()) { if (!f) O << ','; f = false; O << "[\""; SmallString<40> t; c.getCaseValue()->getValue().toStringUnsigned(t); O << t << "\"," << ids[c.getCaseSuccessor()] << ']'; } O << "]]"; continue; }
      if (auto *p = dyn_cast<PHINode>(&I)) { O << "phi\"," << d; loc(I); O << ','; ty(p->getType()); O << ",["; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) O << ','; O << '[' << ids[p->getIncomingBlock(i)] << ','; opnd(p->getIncomingValue(i), ids); O << ']'; } O << "]]"; continue; }
      if (auto *c = dyn_cast<CallBase>(&I)) {
        O << "call\"," << d; loc(I); O << ','; ty(c->getType()); O << ','; opnd(c->getCalledOperand(), ids); O << ",["; bool f = true;
        unsigned k = 0;
        for (auto &a : c->args()) { if (!f) O << ','; f = false; O << '['; if (isa<MetadataAsValue>(a.get())) O << "\"md\""; else ty(a->getType()); O << ','; opnd(a.get(), ids); if (c->isByValArgument(k)) O << ",\"byval\"," << (uint64_t)DL->getTypeAllocSize(c->getParamByValType(k)); O << ']'; k++; }
        O << "]]"; continue;
      }
      if (auto *r = dyn_cast<ReturnInst>(&I)) { O << "ret\"," << d; loc(I); O << ','; if (r->getReturnValue()) { ty(r->getReturnValue()->getType()); O << ','; opnd(r->getReturnValue(), ids); } else O << "\"v\",null"; O << ']'; continue; }
      if (isa<UnreachableInst>(I)) { O << "unreachable\"," << d; loc(I); O << ']'; continue; }
      if (auto *s = dyn_cast<SelectInst>(&I)) { O << "select\"," << d; loc(I); O << ','; ty(s->getType()); O << ','; opnd(s->getCondition(), ids); O << ','; opnd(s->getTrueValue(), ids); O << ','; opnd(s->getFalseValue(), ids); O << ']'; continue; }
      if (auto *c = dyn_cast<CastInst>(&I)) { O << "cast\"," << d; loc(I); O << ",\"" << castname(c) << "\","; ty(c->getSrcTy()); O << ','; ty(c->getDestTy()); O << ','; opnd(c->getOperand(0), ids); O << ']'; continue; }
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) { O << "bin\"," << d; loc(I); O << ",\"" << bo->getOpcodeName() << "\","; ty(bo->getType()); O << ','; opnd(bo->getOperand(0), ids); O << ','; opnd(bo->getOperand(1), ids); 
        int fl = 0; if (auto *ob = dyn_cast<OverflowingBinaryOperator>(bo)) { if (ob->hasNoSignedWrap()) fl |= 1; if (ob->hasNoUnsignedWrap()) fl |= 2; } O << ',' << fl << ']'; continue; }
      if (isa<UnaryOperator>(&I)) { O << "fneg\"," << d; loc(I); O << ','; opnd(I.getOperand(0), ids); O << ']'; continue; }
      if (auto *e = dyn_cast<ExtractValueInst>(&I)) { O << "extractvalue\"," << d; loc(I); O << ','; opnd(e->getAggregateOperand(), ids); O << ",["; for (unsigned i = 0; i < e->getNumIndices(); i++) { if (i) O << ','; O << e->getIndices()[i]; } O << "]]"; continue; }
      if (auto *e = dyn_cast<InsertValueInst>(&I)) { O << "insertvalue\"," << d; loc(I); O << ','; ty(I.getType()); O << ','; opnd(e->getAggregateOperand(), ids); O << ','; opnd(e->getInsertedValueOperand(), ids); O << ",["; for (unsigned i = 0; i < e->getNumIndices(); i++) { if (i) O << ','; O << e->getIndices()[i]; } O << "]]"; continue; }
      if (auto *f = dyn_cast<FreezeInst>(&I)) { O << "freeze\"," << d; loc(I); O << ','; opnd(f->getOperand(0), ids); O << ']'; continue; }
      if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { O << "atomicrmw\"," << d; loc(I); O << ",\"" << AtomicRMWInst::getOperationName(r->getOperation()) << "\","; ty(r->getType()); O << ','; opnd(r->getPointerOperand(), ids); O << ','; opnd(r->getValOperand(), ids); O << ']'; continue; }
      if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) { O << "cmpxchg\"," << d; loc(I); O << ','; ty(x->getCompareOperand()->getType()); O << ','; opnd(x->getPointerOperand(), ids); O << ','; opnd(x->getCompareOperand(), ids); O << ','; opnd(x->getNewValOperand(), ids); O << ']'; continue; }
      if (isa<FenceInst>(&I)) { O << "fence\"," << d; loc(I); O << ']'; continue; }
      O << "other\"," << d; loc(I); O << ",\"" << I.getOpcodeName() << "\"]";
    }
    O << ']';
  }
  O << "]}";
}
int main(int argc, char **argv) {
  LLVMContext C; bool firstf = true;
  std::string decls;
  std::vector<std::unique_ptr<Module>> mods;
  for (int i = 1; i < argc; i++) { SMDiagnostic e; auto m = parseIRFile(argv[i], e, C); if (!m) { e.print("irdump", errs()); return 2; } mods.push_back(std::move(m)); }
  O << "{\"functions\":{";
  for (auto &m : mods) { DL = &m->getDataLayout(); modtag = m->getSourceFileName(); auto p = modtag.rfind('/'); if (p != std::string::npos) modtag = modtag.substr(p + 1);
    for (auto &F : *m) { if (F.isDeclaration()) continue; if (!firstf) O << ",\n"; firstf = false; fn(F); } }
  O << "},\"globals\":{"; bool fg = true;
  for (auto &m : mods) { DL = &m->getDataLayout(); modtag = m->getSourceFileName(); auto p = modtag.rfind('/'); if (p != std::string::npos) modtag = modtag.substr(p + 1);
    for (auto &G : m->globals()) { if (G.getName().starts_with("llvm.")) continue; if (!G.hasInitializer() && !G.isDeclaration()) continue;
      if (G.isDeclaration()) continue;
      if (!fg) O << ",\n"; fg = false; jstr(gname(&G));
      O << ":{\"size\":" << (uint64_t)DL->getTypeAllocSize(G.getValueType()) << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0) << ",\"mod\":"; jstr(modtag);
      SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
      if (!gv.empty()) { auto *v = gv[0]->getVariable(); O << ",\"file\":" << fileid(dipath(v->getFile())) << ",\"line\":" << v->getLine(); }
      O << ",\"init\":["; bool f = true; flat(G.getInitializer(), 0, f); O << "]}"; } }
  O << "},\"structs\":{"; bool fs = true; std::set<std::string> seen;
  for (auto &m : mods) { DebugInfoFinder fi; fi.processModule(*m);
    for (auto *t : fi.types()) { auto *ct = dyn_cast<DICompositeType>(t); if (!ct || ct->getTag() != dwarf::DW_TAG_structure_type || ct->isForwardDecl()) continue;
      std::string n = ct->getName().str(); if (n.empty() || seen.count(n)) continue; seen.insert(n);
      if (!fs) O << ",\n"; fs = false; jstr(n); O << ":{\"size\":" << ct->getSizeInBits() / 8 << ",\"m\":["; bool fm = true;
      for (auto *e : ct->getElements()) if (auto *mt = dyn_cast<DIDerivedType>(e)) { if (!fm) O << ','; fm = false; O << '['; jstr(mt->getName()); O << ',' << mt->getOffsetInBits() / 8 << ',' << mt->getSizeInBits() / 8 << ']'; }
      O << "]}"; } }
  O << "},\"enums\":{"; fs = true; seen.clear();
  for (auto &m : mods) { DebugInfoFinder fi; fi.processModule(*m);
    for (auto *t : fi.types()) { auto *ct = dyn_cast<DICompositeType>(t); if (!ct || ct->getTag() != dwarf::DW_TAG_enumeration_type) continue;
      for (auto *e : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) { if (!seen.insert(en->getName().str()).second) continue; if (!fs) O << ','; fs = false; jstr(en->getName()); O << ':' << en->getValue().getSExtValue(); } } }
  O << "},\"files\":["; for (unsigned i = 0; i < files.size(); i++) { if (i) O << ','; jstr(files[i]); } O << "]}\n";
  return 0;
}
