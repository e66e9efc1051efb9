// irx: link LLVM bitcode modules, normalise, and export the resolved program as JSON lines.
// usage: irx -o OUT [opts] a.bc b.bc ...
//   --inline=f,g   extern functions that are to be inlined into their callers as well
//   --noinline=f,g functions never inlined
//   --max-inline=N do not inline internal functions with more than N instructions (default 1500)
//   --unroll=N     fully unroll loops with constant trip count <= N
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/LoopRotation.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::string jstr(StringRef s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

// ---------------------------------------------------------------- types
static std::map<const DIType *, int> tyId;
static std::map<std::string, int> structByKey;
static std::map<std::string, const DICompositeType *> structByName;   // "Foo" -> def
static std::vector<std::string> tyOut;

static const DIType *strip(const DIType *t) {
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type: case dwarf::DW_TAG_atomic_type:
      t = d->getBaseType(); continue;
    default: return t;
    }
  }
  return t;
}
static std::map<const DICompositeType *, std::string> typedefName;
static std::string structName(const DICompositeType *c) {
  if (!c->getName().empty()) return c->getName().str();
  auto it = typedefName.find(c);
  return it == typedefName.end() ? "" : it->second;
}
// resolve forward declarations to a definition of the same name
static const DIType *def(const DIType *t) {
  if (auto *c = dyn_cast_or_null<DICompositeType>(t))
    if (c->isForwardDecl()) {
      auto it = structByName.find(c->getName().str());
      if (it != structByName.end()) return it->second;
    }
  return t;
}
static int typeId(const DIType *t0);
static int typeId(const DIType *t0) {
  if (!t0) return -1;
  auto f = tyId.find(t0);
  if (f != tyId.end()) return f->second;
  if (auto *d = dyn_cast<DIDerivedType>(t0)) {
    unsigned tag = d->getTag();
    if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type ||
        tag == dwarf::DW_TAG_volatile_type || tag == dwarf::DW_TAG_restrict_type) {
      int r = typeId(d->getBaseType());
      return tyId[t0] = r;
    }
    int id = tyOut.size(); tyOut.push_back(""); tyId[t0] = id;
    if (tag == dwarf::DW_TAG_pointer_type) {
      int to = typeId(d->getBaseType());
      bool pc = false;                       // pointer to const
      const DIType *b = d->getBaseType();
      while (auto *bd = dyn_cast_or_null<DIDerivedType>(b)) {
        if (bd->getTag() == dwarf::DW_TAG_const_type) pc = true;
        if (bd->getTag() == dwarf::DW_TAG_pointer_type) break;
        b = bd->getBaseType();
      }
      tyOut[id] = "{\"k\":\"ptr\",\"size\":8,\"to\":" + std::to_string(to) + (pc ? ",\"const\":1}" : "}");
    } else if (tag == dwarf::DW_TAG_atomic_type) {
      int to = typeId(d->getBaseType());
      const DIType *b = strip(d->getBaseType());
      tyOut[id] = "{\"k\":\"atomic\",\"to\":" + std::to_string(to) + ",\"size\":" + std::to_string(b ? b->getSizeInBits() / 8 : 0) + "}";
    } else {
      tyOut[id] = "{\"k\":\"derived\",\"tag\":" + std::to_string(tag) + "}";
    }
    return id;
  }
  if (auto *b = dyn_cast<DIBasicType>(t0)) {
    int id = tyOut.size(); tyId[t0] = id;
    tyOut.push_back("{\"k\":\"base\",\"name\":" + jstr(b->getName()) + ",\"size\":" + std::to_string(b->getSizeInBits() / 8) + ",\"enc\":" + std::to_string(b->getEncoding()) + "}");
    return id;
  }
  if (auto *s = dyn_cast<DISubroutineType>(t0)) {
    int id = tyOut.size(); tyId[t0] = id; tyOut.push_back("");
    std::string o = "{\"k\":\"func\",\"sig\":[";
    bool first = true;
    for (auto *e : s->getTypeArray()) { if (!first) o += ","; first = false; o += std::to_string(typeId(e)); }
    tyOut[id] = o + "]}";
    return id;
  }
  auto *c = cast<DICompositeType>(t0);
  if (c->isForwardDecl()) {
    auto *d = def(c);
    if (d != c) return tyId[t0] = typeId(d);
    int id = tyOut.size(); tyId[t0] = id;
    tyOut.push_back("{\"k\":\"fwd\",\"name\":" + jstr(c->getName()) + "}");
    return id;
  }
  std::string nm = structName(c);
  unsigned tag = c->getTag();
  if (tag == dwarf::DW_TAG_structure_type || tag == dwarf::DW_TAG_union_type) {
    if (!nm.empty()) {
      std::string key = nm + "/" + std::to_string(tag) + "/" + std::to_string(c->getSizeInBits()) + "/" + std::to_string(c->getElements().size());
      auto it = structByKey.find(key);
      if (it != structByKey.end()) return tyId[t0] = it->second;
      structByKey[key] = tyOut.size();
    }
    int id = tyOut.size(); tyId[t0] = id; tyOut.push_back("");
    std::string o = "{\"k\":" + std::string(tag == dwarf::DW_TAG_union_type ? "\"union\"" : "\"struct\"") + ",\"name\":" + jstr(nm) + ",\"size\":" + std::to_string(c->getSizeInBits() / 8) + ",\"file\":" + jstr(c->getFilename()) + ",\"line\":" + std::to_string(c->getLine()) + ",\"m\":[";
    bool first = true;
    for (auto *e : c->getElements()) {
      auto *m = dyn_cast<DIDerivedType>(e);
      if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
      if (!first) o += ","; first = false;
      // [name, offset, size, type, bitfield bit offset or -1]
      o += "[" + jstr(m->getName()) + "," + std::to_string(m->getOffsetInBits() / 8) + "," + std::to_string(m->getSizeInBits() / 8) + "," + std::to_string(typeId(m->getBaseType())) + "," + (m->isBitField() ? std::to_string(m->getOffsetInBits()) : "-1") + "," + std::to_string(m->getLine()) + "]";
    }
    tyOut[id] = o + "]}";
    return id;
  }
  int id = tyOut.size(); tyId[t0] = id; tyOut.push_back("");
  if (tag == dwarf::DW_TAG_array_type) {
    int el = typeId(c->getBaseType());
    std::string o = "{\"k\":\"array\",\"elem\":" + std::to_string(el) + ",\"size\":" + std::to_string(c->getSizeInBits() / 8) + ",\"dims\":[";
    bool first = true;
    for (auto *e : c->getElements()) {
      auto *sr = dyn_cast<DISubrange>(e);
      if (!first) o += ","; first = false;
      int64_t n = -1;
      if (sr) if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) n = ci->getSExtValue();
      o += std::to_string(n);
    }
    tyOut[id] = o + "]}";
  } else if (tag == dwarf::DW_TAG_enumeration_type) {
    std::string o = "{\"k\":\"enum\",\"name\":" + jstr(nm) + ",\"size\":" + std::to_string(c->getSizeInBits() / 8) + ",\"v\":[";
    bool first = true;
    for (auto *e : c->getElements())
      if (auto *en = dyn_cast<DIEnumerator>(e)) { if (!first) o += ","; first = false; o += "[" + jstr(en->getName()) + "," + std::to_string(en->getValue().getSExtValue()) + "]"; }
    tyOut[id] = o + "]}";
  } else tyOut[id] = "{\"k\":\"other\",\"tag\":" + std::to_string(tag) + "}";
  return id;
}

static const DataLayout *DL;

// ---------------------------------------------------------------- pointee types of pointer values
static DenseMap<const Value *, const DIType *> hint;      // from dbg.value/declare: DI type of the *value*
static DenseMap<const Value *, const DIType *> ptCache;   // pointee DI type
static const DIType *pointee(const Value *v, int depth = 0);

static const DIType *ptrTo(const DIType *t) {
  t = strip(t);
  if (auto *d = dyn_cast_or_null<DIDerivedType>(t))
    if (d->getTag() == dwarf::DW_TAG_pointer_type) return d->getBaseType();
  return nullptr;
}
static bool isVoidish(const DIType *t) {   // void or (u)char
  t = strip(t);
  if (!t) return true;
  if (auto *b = dyn_cast<DIBasicType>(t)) return b->getSizeInBits() == 8;
  return false;
}
// type of the sub-object at byte offset off within t (outermost match with preference to arrays/structs)
struct PathEl { bool field; std::string st, name; const Value *idx; int64_t cidx; int64_t esz; };

static std::string structOf(const DIType *t) {
  t = def(strip(t));
  if (auto *c = dyn_cast_or_null<DICompositeType>(t)) return structName(c);
  return "";
}
static const DICompositeType *asComposite(const DIType *t) {
  return dyn_cast_or_null<DICompositeType>(def(strip(t)));
}
static const DIType *arrayElem(const DICompositeType *c, unsigned level, bool &more) {
  // DI arrays are multi-dimensional; represent level by peeling dims
  more = level + 1 < c->getElements().size();
  return c->getBaseType();
}
static const DICompositeType *byLLVMName(StringRef n) {
  if (!n.consume_front("struct.") && !n.consume_front("union.")) return nullptr;
  if (n.starts_with("anon")) { StringRef r = n.drop_front(4); if (r.empty() || r[0] == '.') return nullptr; }
  auto it = structByName.find(n.str());
  if (it != structByName.end()) return it->second;
  // strip .N suffix
  size_t p = n.rfind('.');
  if (p != StringRef::npos) { it = structByName.find(n.substr(0, p).str()); if (it != structByName.end()) return it->second; }
  return nullptr;
}
// A "cursor" is a DI type plus a number of array dims already peeled.
struct Cur { const DIType *t; unsigned peeled; };
static bool curArray(Cur c, const DICompositeType *&arr) {
  auto *k = asComposite(c.t);
  if (k && k->getTag() == dwarf::DW_TAG_array_type) { arr = k; return true; }
  return false;
}
static Cur peel(Cur c) {
  const DICompositeType *a;
  if (curArray(c, a)) {
    if (c.peeled + 1 < a->getElements().size()) return {c.t, c.peeled + 1};
    return {a->getBaseType(), 0};
  }
  return {nullptr, 0};
}
static const DIDerivedType *memberAt(const DICompositeType *c, uint64_t off, int64_t lindex) {
  const DIDerivedType *best = nullptr;
  for (auto *e : c->getElements()) {
    auto *m = dyn_cast<DIDerivedType>(e);
    if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
    uint64_t mo = m->getOffsetInBits() / 8;
    uint64_t ms = (m->getSizeInBits() + 7) / 8;
    if (mo == off && (!best)) best = m;
    else if (mo <= off && off < mo + ms && !best) best = m;
  }
  return best;
}
static DenseMap<const Value *, Cur> curCache;
static Cur pointeeCur(const Value *v, int depth = 0);

static Cur gepWalk(const GEPOperator *g, std::vector<PathEl> *path, int depth) {
  Type *st = g->getSourceElementType();
  Cur cur = pointeeCur(g->getPointerOperand(), depth + 1);
  auto it = g->idx_begin();
  auto emitIdx = [&](const Value *idx, uint64_t esz) {
    if (!path) return;
    PathEl e; e.field = false; e.esz = esz; e.idx = idx; e.cidx = 0;
    if (auto *ci = dyn_cast<ConstantInt>(idx)) { e.idx = nullptr; e.cidx = ci->getSExtValue(); }
    path->push_back(e);
  };
  // first index: pointer arithmetic
  {
    const Value *i0 = *it++;
    bool zero = isa<ConstantInt>(i0) && cast<ConstantInt>(i0)->isZero();
    if (auto *s = dyn_cast<StructType>(st)) {
      const DICompositeType *c = nullptr;
      auto *gi = dyn_cast<Instruction>(g);
      if (auto *md = gi ? gi->getMetadata("sa.st") : nullptr) c = byLLVMName(cast<MDString>(md->getOperand(0))->getString());
      else c = byLLVMName(s->hasName() ? s->getName() : StringRef());
      if (c) {
        auto *k = asComposite(cur.t);
        if (!k || k->getTag() == dwarf::DW_TAG_array_type || structName(k) != structName(c)) cur = {c, 0};
      }
    } else if (!zero && st->isIntegerTy(8) && isVoidish(cur.t) == false && cur.t) {
      // byte arithmetic on a typed pointer: type lost
      auto *k = dyn_cast_or_null<DIBasicType>(strip(cur.t));
      if (!k || k->getSizeInBits() != 8) cur = {nullptr, 0};
    }
    if (!zero) {
      if (path) { emitIdx(i0, DL->getTypeAllocSize(st)); path->back().name = "*"; }
    }
  }
  Type *t = st;
  for (; it != g->idx_end(); ++it) {
    const Value *idx = *it;
    if (auto *s = dyn_cast<StructType>(t)) {
      unsigned fi = cast<ConstantInt>(idx)->getZExtValue();
      uint64_t off = DL->getStructLayout(s)->getElementOffset(fi);
      auto *c = asComposite(cur.t);
      PathEl e; e.field = true; e.idx = nullptr; e.cidx = off; e.esz = 0;
      if (c && (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type)) {
        auto *m = memberAt(c, off, fi);
        e.st = structName(c);
        if (m) { e.name = m->getName().str(); cur = {m->getBaseType(), 0}; }
        else { e.name = "?" + std::to_string(off); cur = {nullptr, 0}; }
      } else {
        e.st = s->hasName() ? s->getName().str() : "?"; e.name = "?" + std::to_string(off); cur = {nullptr, 0};
      }
      if (path) path->push_back(e);
      t = s->getElementType(fi);
    } else if (auto *a = dyn_cast<ArrayType>(t)) {
      // union members: cur may be a union; look for an array member
      const DICompositeType *k = asComposite(cur.t);
      if (k && k->getTag() == dwarf::DW_TAG_union_type) {
        for (auto *e : k->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) {
          const DICompositeType *mk = asComposite(m->getBaseType());
          if (mk && mk->getTag() == dwarf::DW_TAG_array_type) { cur = {m->getBaseType(), 0}; break; }
        }
      }
      cur = peel(cur);
      emitIdx(idx, DL->getTypeAllocSize(a->getElementType()));
      if (path) path->back().name = std::to_string(a->getNumElements());
      t = a->getElementType();
    } else { cur = {nullptr, 0}; break; }
  }
  return cur;
}

static Cur pointeeCur(const Value *v, int depth) {
  auto it = curCache.find(v);
  if (it != curCache.end()) return it->second;
  if (depth > 24) return {nullptr, 0};
  curCache[v] = {nullptr, 0};
  Cur r{nullptr, 0};
  auto h = hint.find(v);
  if (h != hint.end()) { const DIType *p = ptrTo(h->second); if (p && !isVoidish(p)) r = {p, 0}; else if (p) r = {p, 0}; }
  bool weak = !r.t || isVoidish(r.t);
  if (weak) {
    Cur q{nullptr, 0};
    if (auto *g = dyn_cast<GEPOperator>(v)) q = gepWalk(g, nullptr, depth);
    else if (auto *gv = dyn_cast<GlobalVariable>(v)) {
      SmallVector<DIGlobalVariableExpression *, 1> ge; gv->getDebugInfo(ge);
      if (!ge.empty()) q = {ge[0]->getVariable()->getType(), 0};
    } else if (auto *l = dyn_cast<LoadInst>(v)) {
      Cur a = pointeeCur(l->getPointerOperand(), depth + 1);
      const DIType *t = a.t;
      // descend first members until pointer
      for (int k = 0; k < 6 && t; k++) {
        if (const DIType *p = ptrTo(t)) { q = {p, 0}; break; }
        auto *c = asComposite(t);
        if (!c) break;
        if (c->getTag() == dwarf::DW_TAG_array_type) t = c->getBaseType();
        else { const DIDerivedType *m = nullptr;
          for (auto *e : c->getElements()) if (auto *mm = dyn_cast<DIDerivedType>(e)) if (mm->getTag() == dwarf::DW_TAG_member && mm->getOffsetInBits() == 0) { m = mm; if (c->getTag() != dwarf::DW_TAG_union_type || ptrTo(mm->getBaseType())) break; }
          t = m ? m->getBaseType() : nullptr; }
      }
    } else if (auto *p = dyn_cast<PHINode>(v)) {
      for (auto &in : p->incoming_values()) { Cur x = pointeeCur(in, depth + 1); if (x.t) { q = x; if (!isVoidish(x.t)) break; } }
    } else if (auto *s = dyn_cast<SelectInst>(v)) {
      q = pointeeCur(s->getTrueValue(), depth + 1); if (!q.t) q = pointeeCur(s->getFalseValue(), depth + 1);
    } else if (auto *cb = dyn_cast<CallBase>(v)) {
      if (auto *f = cb->getCalledFunction()) if (auto *sp = f->getSubprogram()) {
        auto ta = sp->getType()->getTypeArray();
        if (ta.size() > 0 && ta[0]) { const DIType *p = ptrTo(ta[0]); if (p) q = {p, 0}; }
      }
    }
    if (q.t && (!r.t || !isVoidish(q.t))) r = q;
  }
  curCache[v] = r;
  return r;
}

// ---------------------------------------------------------------- emit
static raw_ostream *OS;
static std::map<std::pair<const Metadata *, int>, int> dummy;
static std::string curTy(Cur c) {
  if (!c.t) return "-1";
  int id = typeId(c.t);
  if (c.peeled) return "[" + std::to_string(id) + "," + std::to_string(c.peeled) + "]";
  return std::to_string(id);
}
static std::string tyName(Type *t) {
  std::string s; raw_string_ostream o(s);
  if (t->isPointerTy()) return "ptr";
  if (t->isStructTy()) return "struct:" + std::to_string(DL->getTypeAllocSize(t));
  if (t->isArrayTy()) return "array:" + std::to_string(DL->getTypeAllocSize(t));
  t->print(o); return o.str();
}
static std::string pathJson(const std::vector<PathEl> &p, std::function<std::string(const Value *)> opf) {
  std::string o = "[";
  for (size_t i = 0; i < p.size(); i++) {
    if (i) o += ",";
    const PathEl &e = p[i];
    if (e.field) o += "[\"f\"," + jstr(e.st) + "," + jstr(e.name) + "," + std::to_string(e.cidx) + "]";
    else o += std::string("[") + (e.name == "*" ? "\"p\"" : "\"i\"") + "," + (e.idx ? opf(e.idx) : "[\"c\"," + std::to_string(e.cidx) + "]") + "," + std::to_string(e.esz) + "," + (e.name == "*" ? "-1" : e.name) + "]";
  }
  return o + "]";
}
static DenseMap<const Value *, int> vid;
static std::string opnd(const Value *v) {
  if (auto *ci = dyn_cast<ConstantInt>(v)) {
    if (ci->getBitWidth() > 64) return "[\"x\",\"bigint\"]";
    return "[\"c\"," + std::to_string(ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue()) + "]";
  }
  if (isa<ConstantPointerNull>(v)) return "[\"n\"]";
  if (isa<UndefValue>(v)) return "[\"u\"]";
  if (auto *g = dyn_cast<GlobalValue>(v)) return "[\"g\"," + jstr(g->getName()) + "]";
  if (auto *cf = dyn_cast<ConstantFP>(v)) { SmallString<16> s; cf->getValueAPF().toString(s); return "[\"fp\"," + jstr(s) + "]"; }
  if (isa<ConstantAggregateZero>(v)) return "[\"z\"]";
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      std::vector<PathEl> p; gepWalk(g, &p, 0);
      return "[\"cg\"," + opnd(g->getPointerOperand()) + "," + pathJson(p, opnd) + "]";
    }
    if (ce->isCast()) return "[\"cast\"," + jstr(ce->getOpcodeName()) + "," + opnd(ce->getOperand(0)) + "]";
    return "[\"x\"," + jstr(ce->getOpcodeName()) + "]";
  }
  auto it = vid.find(v);
  if (it != vid.end()) return std::to_string(it->second);
  if (isa<Constant>(v)) return "[\"x\",\"const\"]";
  return "[\"x\",\"?\"]";
}
// scalar leaves of an initialiser with their byte offsets: [offset, bytes, value]; undefined padding and null/zero tails included as 0
static void flat(const Constant *c, uint64_t off, std::string &o) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) flat(e, off + sl->getElementOffset(i), o);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) flat(e, off + i * es, o);
    return;
  }
  if (!o.empty()) o += ",";
  o += "[" + std::to_string(off) + "," + std::to_string((uint64_t)DL->getTypeAllocSize(t)) + ",";
  if (auto *ci = dyn_cast<ConstantInt>(c)) o += std::to_string(ci->getSExtValue());
  else if (isa<ConstantPointerNull>(c)) o += "0";
  else o += opnd(c);
  o += "]";
}
static std::string initJson(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return std::to_string(ci->getSExtValue());
  if (isa<ConstantAggregateZero>(c)) {
    Type *t = c->getType();
    uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : t->isStructTy() ? t->getStructNumElements() : 0;
    if (n > 200000) return "[\"zero\"]";
    std::string o = "[";
    for (uint64_t i = 0; i < n; i++) { if (i) o += ","; o += initJson(c->getAggregateElement(i)); }
    return o + "]";
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    std::string o = "[";
    for (unsigned i = 0; i < cd->getNumElements(); i++) { if (i) o += ","; o += initJson(cd->getElementAsConstant(i)); }
    return o + "]";
  }
  if (isa<ConstantAggregate>(c)) {
    std::string o = "[";
    for (unsigned i = 0; i < c->getNumOperands(); i++) { if (i) o += ","; o += initJson(cast<Constant>(c->getOperand(i))); }
    return o + "]";
  }
  if (isa<ConstantPointerNull>(c)) return "null";
  if (isa<UndefValue>(c)) return "\"undef\"";
  return "{\"op\":" + opnd(c) + "}";
}

static std::string locJson(const DebugLoc &dl) {
  if (!dl) return "0";
  std::string o = "[";
  bool first = true;
  for (const DILocation *l = dl.get(); l; l = l->getInlinedAt()) {
    if (!first) o += ","; first = false;
    auto *sp = l->getScope()->getSubprogram();
    o += jstr(l->getFilename()) + "," + std::to_string(l->getLine()) + "," + jstr(sp ? sp->getName() : "");
  }
  return o + "]";
}

static void emitFunction(Function &F) {
  vid.clear();
  int n = 0;
  for (auto &a : F.args()) vid[&a] = n++;
  std::map<const BasicBlock *, int> bid;
  int nb = 0;
  for (auto &b : F) { bid[&b] = nb++; for (auto &i : b) if (!isa<DbgInfoIntrinsic>(i)) vid[&i] = n++; }
  raw_ostream &o = *OS;
  auto *sp = F.getSubprogram();
  o << "{\"t\":\"fn\",\"name\":" << jstr(F.getName()) << ",\"int\":" << (F.hasLocalLinkage() ? 1 : 0) << ",\"taken\":" << (F.hasAddressTaken() ? 1 : 0);
  if (sp) o << ",\"src\":" << jstr(sp->getName()) << ",\"file\":" << jstr(sp->getFilename()) << ",\"line\":" << sp->getLine() << ",\"dity\":" << typeId(sp->getType());
  o << ",\"vararg\":" << F.isVarArg() << ",\"ret\":" << jstr(tyName(F.getReturnType())) << ",\"args\":[";
  bool first = true;
  for (auto &a : F.args()) {
    if (!first) o << ","; first = false;
    o << "[" << jstr(tyName(a.getType())) << "," << jstr(a.getName()) << "," << (a.getType()->isPointerTy() ? curTy(pointeeCur(&a)) : "-1") << (a.hasByValAttr() ? ",\"byval\"" : "") << "]";
  }
  o << "],\"bb\":[";
  bool fb = true;
  for (auto &b : F) {
    if (!fb) o << ","; fb = false;
    o << "\n [";
    bool fi = true;
    for (auto &i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      if (!fi) o << ",\n  "; fi = false;
      o << "[" << vid[&i] << ",\"" << i.getOpcodeName() << "\"," << jstr(tyName(i.getType())) << ",[";
      // operands
      if (auto *p = dyn_cast<PHINode>(&i)) {
        for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { if (k) o << ","; o << opnd(p->getIncomingValue(k)); }
      } else if (auto *cb = dyn_cast<CallBase>(&i)) {
        for (unsigned k = 0; k < cb->arg_size(); k++) { if (k) o << ","; o << opnd(cb->getArgOperand(k)); }
      } else if (isa<BranchInst>(i) || isa<SwitchInst>(i)) {
        if (auto *br = dyn_cast<BranchInst>(&i)) { if (br->isConditional()) o << opnd(br->getCondition()); }
        else o << opnd(cast<SwitchInst>(i).getCondition());
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        o << opnd(g->getPointerOperand());
      } else {
        for (unsigned k = 0; k < i.getNumOperands(); k++) { if (k) o << ","; o << opnd(i.getOperand(k)); }
      }
      o << "],";
      // extra
      if (auto *p = dyn_cast<PHINode>(&i)) {
        o << "["; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { if (k) o << ","; o << bid[p->getIncomingBlock(k)]; } o << "]";
      } else if (auto *cb = dyn_cast<CallBase>(&i)) {
        Value *ce = cb->getCalledOperand()->stripPointerCasts();
        o << "[" << (isa<Function>(ce) ? jstr(ce->getName()) : std::string("null")) << "," << (isa<Function>(ce) ? std::string("0") : opnd(ce)) << "," << (cb->doesNotReturn() ? 1 : 0) << "]";
      } else if (auto *br = dyn_cast<BranchInst>(&i)) {
        o << "["; for (unsigned k = 0; k < br->getNumSuccessors(); k++) { if (k) o << ","; o << bid[br->getSuccessor(k)]; } o << "]";
      } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
        o << "[" << bid[sw->getDefaultDest()];
        for (auto &c : sw->cases()) o << ",[" << c.getCaseValue()->getSExtValue() << "," << bid[c.getCaseSuccessor()] << "]";
        o << "]";
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        std::vector<PathEl> p; gepWalk(cast<GEPOperator>(g), &p, 0);
        o << pathJson(p, opnd);
      } else if (auto *c = dyn_cast<CmpInst>(&i)) {
        o << "\"" << CmpInst::getPredicateName(c->getPredicate()) << "\"";
      } else if (auto *l = dyn_cast<LoadInst>(&i)) {
        o << "[" << (int)l->getOrdering() << "," << l->isVolatile() << "]";
      } else if (auto *s = dyn_cast<StoreInst>(&i)) {
        o << "[" << (int)s->getOrdering() << "," << s->isVolatile() << "," << jstr(tyName(s->getValueOperand()->getType())) << "]";
      } else if (auto *r = dyn_cast<AtomicRMWInst>(&i)) {
        o << "[" << (int)r->getOrdering() << ",\"" << AtomicRMWInst::getOperationName(r->getOperation()) << "\"]";
      } else if (auto *r = dyn_cast<AtomicCmpXchgInst>(&i)) {
        o << "[" << (int)r->getSuccessOrdering() << "," << (int)r->getFailureOrdering() << "]";
      } else if (auto *a = dyn_cast<AllocaInst>(&i)) {
       
        o << "[" << jstr(a->getName()) << "," << DL->getTypeAllocSize(a->getAllocatedType()) << "]";
      } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
        o << "["; for (unsigned k = 0; k < ev->getNumIndices(); k++) { if (k) o << ","; o << ev->getIndices()[k]; } o << "]";
      } else if (isa<CastInst>(i)) {
        o << jstr(tyName(i.getOperand(0)->getType()));
      } else o << "0";
      o << "," << locJson(i.getDebugLoc()) << "," << (i.getType()->isPointerTy() ? curTy(pointeeCur(&i)) : "-1") << "]";
    }
    o << "]";
  }
  o << "]}\n";
}

static void collectTypes(Module &M) {
  DebugInfoFinder fi; fi.processModule(M);
  for (auto *t : fi.types()) {
    if (auto *d = dyn_cast<DIDerivedType>(t))
      if (d->getTag() == dwarf::DW_TAG_typedef)
        if (auto *c = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
          if (c->getName().empty()) typedefName.emplace(c, d->getName().str());
  }
  for (auto *t : fi.types())
    if (auto *c = dyn_cast<DICompositeType>(t))
      if (!c->isForwardDecl() && (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type)) {
        std::string n = structName(c);
        if (!n.empty()) structByName.emplace(n, c);
      }
}

int main(int argc, char **argv) {
  std::string out; std::vector<std::string> in; std::set<std::string> inl, noinl; unsigned maxInline = 1500, unroll = 0;
  auto split = [](StringRef s, std::set<std::string> &o) { SmallVector<StringRef> v; s.split(v, ','); for (auto x : v) if (!x.empty()) o.insert(x.str()); };
  bool noInlineStatic = false, haveKnown = false; std::set<std::string> known;
  for (int i = 1; i < argc; i++) {
    StringRef a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a.consume_front("--inline=")) split(a, inl);
    else if (a.consume_front("--noinline=")) split(a, noinl);
    else if (a.consume_front("--max-inline=")) maxInline = std::stoi(a.str());
    else if (a.consume_front("--unroll=")) unroll = std::stoi(a.str());
    else if (a == "--no-inline-static") noInlineStatic = true;
    else if (a.consume_front("--known=")) { // extern functions of the pinned tree; other extern functions are inlined like static ones
      haveKnown = true;
      if (auto b = MemoryBuffer::getFile(a)) { SmallVector<StringRef> v; (*b)->getBuffer().split(v, '\n'); for (auto x : v) if (!x.empty()) known.insert(x.str()); }
    }
    else in.push_back(a.str());
  }
  LLVMContext C; SMDiagnostic err;
  std::unique_ptr<Module> M;
  std::unique_ptr<Linker> L;
  for (auto &f : in) {
    auto m = parseIRFile(f, err, C);
    if (!m) { err.print("irx", errs()); return 2; }
    // the linker merges isomorphic struct types and keeps one of their names: remember the original name at every member access
    for (auto &F : *m) for (auto &I : instructions(F))
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) if (auto *s = dyn_cast<StructType>(g->getSourceElementType()))
        if (s->hasName()) g->setMetadata("sa.st", MDNode::get(C, {MDString::get(C, s->getName())}));
    if (!M) { M = std::move(m); L = std::make_unique<Linker>(*M); }
    else if (L->linkInModule(std::move(m))) { errs() << "link failed: " << f << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  // inlining decisions
  std::set<Function *> rec;
  { CallGraph CG(*M);
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) rec.insert(n->getFunction()); }
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::OptimizeNone);
    if (F.isDeclaration() || rec.count(&F) || F.isVarArg()) continue;
    bool yes = inl.count(F.getName().str()) || (!noInlineStatic && (F.hasLocalLinkage() || (haveKnown && !known.count(F.getName().str()))) && F.getInstructionCount() <= maxInline);
    StringRef nm = F.getName();      // statics of several modules get a number when they are linked
    if (F.hasLocalLinkage()) { auto d = nm.rfind('.'); unsigned x; if (d != StringRef::npos && !nm.substr(d + 1).getAsInteger(10, x)) nm = nm.substr(0, d); }
    if (noinl.count(F.getName().str()) || noinl.count(nm.str())) yes = false;
    if (yes) F.addFnAttr(Attribute::AlwaysInline); else F.addFnAttr(Attribute::NoInline);
  }
  // The inliner would fold "address of the first member" (an all-zero GEP) into its base and lose the member: hide those GEPs.
  std::vector<std::pair<Type *, unsigned>> zg;
  Function *zf = Function::Create(FunctionType::get(PointerType::get(C, 0), {PointerType::get(C, 0), Type::getInt64Ty(C)}, false), GlobalValue::ExternalLinkage, "sa.zgep", *M);
  zf->setMemoryEffects(MemoryEffects::none()); zf->addFnAttr(Attribute::WillReturn); zf->addFnAttr(Attribute::NoUnwind); zf->addFnAttr(Attribute::Speculatable);
  for (auto &F : *M) {
    std::vector<GetElementPtrInst *> w;
    for (auto &I : instructions(F))
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) if (g->getNumIndices() > 1 && g->hasAllZeroIndices() && !g->getType()->isVectorTy()) w.push_back(g);
    for (auto *g : w) {
      zg.push_back({g->getSourceElementType(), g->getNumIndices()});
      auto *c = CallInst::Create(zf, {g->getPointerOperand(), ConstantInt::get(Type::getInt64Ty(C), zg.size() - 1)}, g->getName(), g);
      c->setDebugLoc(g->getDebugLoc()); if (auto *md = g->getMetadata("sa.st")) c->setMetadata("sa.st", md);
      g->replaceAllUsesWith(c); g->eraseFromParent();
    }
  }
  auto unhide = [&]() {
    std::vector<CallInst *> cs;
    for (auto *u : zf->users()) cs.push_back(cast<CallInst>(u));
    for (auto *c : cs) {
      auto &z = zg[cast<ConstantInt>(c->getArgOperand(1))->getZExtValue()];
      std::vector<Value *> ix;
      for (unsigned k = 0; k < z.second; k++) ix.push_back(ConstantInt::get(Type::getInt32Ty(C), 0));
      // struct indices must be i32; array indices may be too
      auto *g = GetElementPtrInst::CreateInBounds(z.first, c->getArgOperand(0), ix, "", c);
      g->takeName(c); g->setDebugLoc(c->getDebugLoc()); if (auto *md = c->getMetadata("sa.st")) g->setMetadata("sa.st", md);
      c->replaceAllUsesWith(g); c->eraseFromParent();
    }
    zf->eraseFromParent();
  };
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  // lifetime markers are not wanted: insertLifetime=false
  MPM.addPass(AlwaysInlinerPass(false));
  FunctionPassManager FPM;
  FPM.addPass(PromotePass());
  if (unroll) { FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass()); FPM.addPass(createFunctionToLoopPassAdaptor(LoopRotatePass(true, false))); }
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(*M, MAM);
  unsigned nUnrolled = 0;
  if (unroll) {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      bool changed = true; int guard = 0;
      while (changed && guard++ < 400) {
        changed = false;
        FAM.invalidate(F, PreservedAnalyses::none());
        auto &LI = FAM.getResult<LoopAnalysis>(F);
        auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(F);
        auto &DT = FAM.getResult<DominatorTreeAnalysis>(F);
        auto &AC = FAM.getResult<AssumptionAnalysis>(F);
        auto &TTI = FAM.getResult<TargetIRAnalysis>(F);
        OptimizationRemarkEmitter ORE(&F);
        SmallVector<Loop *, 8> ls = LI.getLoopsInPreorder();
        for (auto it = ls.rbegin(); it != ls.rend(); ++it) {
          Loop *l = *it;
          if (!l->isLoopSimplifyForm() || !l->isInnermost()) continue;
          unsigned tc = 0;
          if (auto *lt = l->getLoopLatch()) if (l->isLoopExiting(lt)) tc = SE.getSmallConstantTripCount(l, lt);
          if (!tc) tc = SE.getSmallConstantMaxTripCount(l);
          if (!tc || tc > unroll) continue;
          unsigned sz = 0; for (auto *b : l->blocks()) sz += b->size();
          if (sz * tc > 6000) continue;
          formLCSSARecursively(*l, DT, &LI, &SE);
          UnrollLoopOptions U; U.Count = tc; U.Force = true; U.Runtime = false; U.AllowExpensiveTripCount = false; U.UnrollRemainder = false; U.ForgetAllSCEV = true;
          LoopUnrollResult r = UnrollLoop(l, U, &LI, &SE, &DT, &AC, &TTI, &ORE, true);
          if (r != LoopUnrollResult::Unmodified) { changed = true; nUnrolled++; break; }
        }
      }
      removeUnreachableBlocks(F);
    }
  }
  unhide();
  collectTypes(*M);
  // hints from debug intrinsics
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (auto *sp = F.getSubprogram()) {
      auto ta = sp->getType()->getTypeArray();
      for (unsigned i = 0; i < F.arg_size() && i + 1 < ta.size(); i++) {
        Argument *a = F.getArg(i);
        if (a->getType()->isPointerTy() && ta[i + 1] && ptrTo(ta[i + 1]) && F.arg_size() + 1 == ta.size()) hint[a] = ta[i + 1];
      }
    }
    for (auto &I : instructions(F)) {
      if (auto *d = dyn_cast<DbgDeclareInst>(&I)) {
        if (auto *a = dyn_cast_or_null<AllocaInst>(d->getAddress())) {
          // value type: pointer to variable's type
          curCache[a] = {d->getVariable()->getType(), 0};
        } else if (auto *ar = dyn_cast_or_null<Argument>(d->getAddress())) curCache[ar] = {d->getVariable()->getType(), 0};
      } else if (auto *d = dyn_cast<DbgValueInst>(&I)) {
        if (d->getNumVariableLocationOps() != 1 || d->getExpression()->getNumElements()) continue;
        Value *v = d->getVariableLocationOp(0);
        if (!v || isa<Constant>(v) || !v->getType()->isPointerTy()) continue;
        const DIType *p = ptrTo(d->getVariable()->getType());
        if (!p) continue;
        auto it = hint.find(v);
        const DIType *old = it == hint.end() ? nullptr : ptrTo(it->second);
        if (it == hint.end() || (old == nullptr || isVoidish(old))) hint[v] = d->getVariable()->getType();
      }
    }
  }
  std::error_code ec; raw_fd_ostream os(out, ec); OS = &os;
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  for (auto &G : M->globals()) {
    SmallVector<DIGlobalVariableExpression *, 1> ge; G.getDebugInfo(ge);
    os << "{\"t\":\"gv\",\"name\":" << jstr(G.getName()) << ",\"int\":" << (G.hasLocalLinkage() ? 1 : 0) << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"decl\":" << (G.isDeclaration() ? 1 : 0) << ",\"tls\":" << (G.isThreadLocal() ? 1 : 0) << ",\"size\":" << DL->getTypeAllocSize(G.getValueType());
    if (!ge.empty()) { auto *v = ge[0]->getVariable(); os << ",\"src\":" << jstr(v->getName()) << ",\"file\":" << jstr(v->getFilename()) << ",\"line\":" << v->getLine() << ",\"ty\":" << typeId(v->getType());
      if (auto *sp = dyn_cast_or_null<DISubprogram>(v->getScope())) os << ",\"fn\":" << jstr(sp->getName()); }
    if (G.hasInitializer() && DL->getTypeAllocSize(G.getValueType()) < 4000000) os << ",\"init\":" << initJson(G.getInitializer());
    if (G.isConstant() && G.hasInitializer() && !ge.empty() && DL->getTypeAllocSize(G.getValueType()) < 400000) { std::string o; flat(G.getInitializer(), 0, o); os << ",\"flat\":[" << o << "]"; }
    os << "}\n";
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) { if (!F.isIntrinsic()) os << "{\"t\":\"decl\",\"name\":" << jstr(F.getName()) << "}\n"; }
    else emitFunction(F);
  }
  // make sure every named struct is exported
  for (auto &kv : structByName) typeId(kv.second);
  os << "{\"t\":\"types\",\"types\":[";
  for (size_t i = 0; i < tyOut.size(); i++) { if (i) os << ",\n"; os << tyOut[i]; }
  os << "],\"names\":{";
  bool first = true;
  for (auto &kv : structByName) { if (!first) os << ","; first = false; os << jstr(kv.first) << ":" << typeId(kv.second); }
  os << "}}\n";
  os << "{\"t\":\"stat\",\"modules\":" << in.size() << ",\"unrolled\":" << nUnrolled << "}\n";
  return 0;
}
