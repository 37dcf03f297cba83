// lanes: abstract interpretation of data-oblivious code in the domain of XOR sums of byte functions.
//
// Every byte of memory and of every register is a form  c ^ T1(s1) ^ T2(s2) ^ ...  where each s is an unknown byte (an
// input, or the value-numbered name of another form) and each T is a function of one byte given by its table.  Forms are
// kept canonical (no symbol twice, T(0)=0, affine functions of a named form expanded into it), so equal forms are equal
// for every value of the inputs.  Two forms that differ are told apart by evaluating them (the forms, not the program).
// Branches on a form are run both ways up to the post-dominator and merged.
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <array>
#include <chrono>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
using namespace llvm;
typedef std::array<uint8_t, 256> Tab;
typedef std::vector<std::pair<int, int>> Terms;             // (symbol, table), ascending symbols
struct Form { Terms t; uint8_t c; bool operator<(const Form& o) const { return c != o.c ? c < o.c : t < o.t; } };

static std::vector<Tab> tabs; static std::map<Tab, int> tabId;
static std::vector<Form> forms; static std::map<Form, int> formId;
struct Sym { int def; bool unk; std::string name; };        // def: the form it names, or -1
static std::vector<Sym> syms; static std::map<int, int> nameOf;
static std::map<int, int> affine;                            // table -> is it linear over GF(2)

struct Fail { std::string msg; };                            // the analysis cannot go on
static int mkTab(const Tab& t) { auto it = tabId.find(t); if(it != tabId.end()) return it->second; tabs.push_back(t); return tabId[t] = tabs.size() - 1; }
static int mkForm(const Form& f) { auto it = formId.find(f); if(it != formId.end()) return it->second; forms.push_back(f); return formId[f] = forms.size() - 1; }
static int konst(uint8_t c) { return mkForm(Form{{}, c}); }
static int newSym(std::string n, bool unk, int def = -1) { syms.push_back(Sym{def, unk, n}); return syms.size() - 1; }
static int idTab() { Tab t; for(int i = 0; i < 256; i++) t[i] = i; static int id = mkTab(t); return id; }
static int symForm(int s) { return mkForm(Form{{{s, idTab()}}, 0}); }
static int fresh(std::string n) { return symForm(newSym(n, false)); }
static int unknown(std::string n) { return symForm(newSym(n, true)); }
static bool isK(int f) { return forms[f].t.empty(); }
static bool isLinear(int t)
{
	auto it = affine.find(t); if(it != affine.end()) return it->second;
	const Tab& T = tabs[t]; bool r = T[0] == 0;
	for(int i = 1; r && i < 256; i++) { int low = i & -i; if(i != low && T[i] != (T[low] ^ T[i ^ low])) r = false; }
	return affine[t] = r;
}
static int fxor(int a, int b)
{
	const Form A = forms[a], B = forms[b]; Form r; r.c = A.c ^ B.c; size_t i = 0, j = 0;
	while(i < A.t.size() || j < B.t.size())
	{
		if(j == B.t.size() || (i < A.t.size() && A.t[i].first < B.t[j].first)) r.t.push_back(A.t[i++]);
		else if(i == A.t.size() || B.t[j].first < A.t[i].first) r.t.push_back(B.t[j++]);
		else
		{
			Tab t; bool z = true; for(int k = 0; k < 256; k++) { t[k] = tabs[A.t[i].second][k] ^ tabs[B.t[j].second][k]; z = z && !t[k]; }
			if(!z) r.t.push_back({A.t[i].first, mkTab(t)});
			i++; j++;
		}
	}
	return mkForm(r);
}
// the sum of the tables of a linear function applied to every term
static int linmap(const Tab& L, int f)
{
	int r = konst(L[forms[f].c]); const Form F = forms[f];
	for(auto& x : F.t) { Tab t; bool z = true; for(int k = 0; k < 256; k++) { t[k] = L[tabs[x.second][k]]; z = z && !t[k]; } if(!z) r = fxor(r, mkForm(Form{{{x.first, mkTab(t)}}, 0})); }
	return r;
}
// T(s) as a form; T need not be 0 at 0
static uint8_t maskOf(int f);
static int tabOf(int s, Tab T)
{
	if(syms[s].def >= 0) { uint8_t m = maskOf(syms[s].def); Tab U = T; for(int x = 0; x < 256; x++) T[x] = U[x & m]; }   // only these bits can be set
	uint8_t c = T[0]; bool z = true; for(auto& x : T) { x ^= c; z = z && !x; }
	if(z) return konst(c);
	int t = mkTab(T);
	if(syms[s].def >= 0 && isLinear(t)) return fxor(konst(c), linmap(T, syms[s].def));
	// two linear parts of a named form stay with the name; a non-linear table is kept whole
	return mkForm(Form{{{s, t}}, c});
}
// the one symbol the form is a function of (naming the form when it has several terms), and that function; -1: constant
static int single(int f, Tab& T)
{
	const Form F = forms[f];
	if(F.t.empty()) { T.fill(F.c); return -1; }
	if(F.t.size() == 1) { T = tabs[F.t[0].second]; for(auto& x : T) x ^= F.c; return F.t[0].first; }
	Form G = F; G.c = 0; int g = mkForm(G); int s;
	auto it = nameOf.find(g);
	if(it != nameOf.end()) s = it->second;
	else { bool unk = false; for(auto& x : G.t) unk = unk || syms[x.first].unk; s = nameOf[g] = newSym("", unk, g); }
	for(int k = 0; k < 256; k++) T[k] = k ^ F.c;
	return s;
}
static bool hasUnk(int f) { for(auto& x : forms[f].t) if(syms[x.first].unk) return true; return false; }
static uint8_t maskOf(int f) { uint8_t m = forms[f].c; for(auto& x : forms[f].t) for(int k = 0; k < 256; k++) m |= tabs[x.second][k]; return m; }
// the value of a form under the assignment of the inputs derived from a seed
static std::unordered_map<uint64_t, uint8_t> evalMemo;
static uint8_t evalF(int f, int seed);
static uint8_t evalS(int s, int seed)
{
	uint64_t k = ((uint64_t)seed << 32) | s; auto it = evalMemo.find(k); if(it != evalMemo.end()) return it->second;
	uint8_t v;
	if(syms[s].def >= 0) v = evalF(syms[s].def, seed);
	else { uint64_t h = (s + 1) * 0x9E3779B97F4A7C15ull + seed * 0xD1B54A32D192ED03ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; v = seed < 256 && 0 ? seed : (uint8_t)h; }
	return evalMemo[k] = v;
}
static uint8_t evalF(int f, int seed) { uint8_t v = forms[f].c; const Form F = forms[f]; for(auto& x : F.t) v ^= tabs[x.second][evalS(x.first, seed)]; return v; }
const int SEEDS = 512;

struct V { enum K { INT, PTR, FN, AGG, NONE } k = NONE; int w = 0; std::vector<int> b; int obj = 0; int64_t off = 0; int idx = -1; int64_t scale = 0; Function* fn = nullptr; std::vector<V> el; };
struct Cell { int f = -1; std::shared_ptr<V> p; int pi = 0; const Instruction* by = nullptr; };
struct Obj { std::vector<Cell> c; bool ro = false, dead = false; std::string name; };
typedef std::vector<std::shared_ptr<Obj>> Mem;

static Mem mem; static Module* M; static const DataLayout* DL;
static std::map<const GlobalVariable*, int> globObj;
static long steps, stepLimit = 40000000; static int forkDepth; static double tLimit = 100; static std::chrono::steady_clock::time_point T0;
static std::vector<const Instruction*> stackI; static std::vector<Function*> stackF;
static std::map<Function*, std::set<const BasicBlock*>> cover;
static std::set<std::string> unmodelled; static std::string entryName;
struct Alarm { std::string file, func, cat, msg; int line; bool def; std::vector<std::string> stack; };
static std::vector<Alarm> alarms; static std::map<std::pair<std::string, std::string>, std::pair<int, int>> obls;
static bool reached;

static std::string fileOf(const Instruction* I)
{
	if(I && I->getDebugLoc()) { auto* S = I->getDebugLoc()->getScope(); std::string f = S->getFilename().str(), d = S->getDirectory().str(); return f.size() && f[0] == '/' ? f : d + "/" + f; }
	return "";
}
static int lineOf(const Instruction* I) { return I && I->getDebugLoc() ? I->getDebugLoc().getLine() : 0; }
static bool inSpec(const Instruction* I) { return fileOf(I).find("/specs/") != std::string::npos; }
static std::string siteOf(const Instruction* I) { return fileOf(I) + ":" + std::to_string(lineOf(I)) + " " + (I ? I->getFunction()->getName().str() : ""); }
// verdict: 1 holds, 0 violated, -1 not decided
static void oblige(const Instruction* at, const char* cat, int verdict, std::string msg, const Instruction* blame = nullptr)
{
	auto& o = obls[{cat, siteOf(at)}]; o.first++;
	if(verdict == 1) return;
	o.second++;
	const Instruction* I = blame ? blame : at;
	if(!blame) for(int k = stackI.size() - 1; k >= 0 && inSpec(I); k--) if(stackI[k] && !inSpec(stackI[k])) { I = stackI[k]; break; }
	Alarm a; a.file = fileOf(I); a.line = lineOf(I); a.func = I->getFunction()->getName().str(); a.cat = cat; a.msg = msg; a.def = verdict == 0 && !forkDepth;
	for(int k = stackF.size() - 1; k >= 0; k--) a.stack.push_back(stackF[k]->getName().str());
	for(auto& x : alarms) if(x.file == a.file && x.line == a.line && x.msg == a.msg) { x.def |= a.def; return; }
	alarms.push_back(a);
}

static int newObj(size_t n, std::string name, bool zero = false)
{
	if(n > 4000000) throw Fail{"object too large"};
	auto o = std::make_shared<Obj>(); o->c.resize(n); o->name = name; if(zero) for(auto& x : o->c) x.f = konst(0);
	mem.push_back(o); return mem.size() - 1;
}
static Obj& wr(int o) { if(mem[o].use_count() > 1) mem[o] = std::make_shared<Obj>(*mem[o]); return *mem[o]; }
static V vint(uint64_t v, int w) { V r; r.k = V::INT; r.w = w; for(int i = 0; i < (w + 7) / 8; i++) r.b.push_back(konst((i < 8 ? v >> (8 * i) : 0) & 255)); return r; }
static V vptr(int o, int64_t off) { V r; r.k = V::PTR; r.w = 64; r.obj = o; r.off = off; return r; }
static V vunk(int w) { V r; r.k = V::INT; r.w = w; for(int i = 0; i < (w + 7) / 8; i++) r.b.push_back(unknown("?")); return r; }
static bool isK(const V& v) { if(v.k != V::INT) return false; for(int f : v.b) if(!isK(f)) return false; return true; }
static uint64_t kval(const V& v) { uint64_t r = 0; for(size_t i = 0; i < v.b.size() && i < 8; i++) r |= (uint64_t)forms[v.b[i]].c << (8 * i); return v.w < 64 ? r & ((1ull << v.w) - 1) : r; }
static int64_t sx(uint64_t v, int w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

static bool inRange(const Instruction* I, int obj, int64_t off, int64_t n, const char* what)
{
	if(obj <= 0 || mem[obj]->dead || off < 0 || off + n > (int64_t)mem[obj]->c.size())
	{ oblige(I, "memory", 0, std::string(what) + (obj <= 0 ? " through a null pointer" : mem[obj]->dead ? " of " + mem[obj]->name + " after its lifetime" : " of bytes " + std::to_string(off) + ".." + std::to_string(off + n - 1) + " of " + mem[obj]->name + ", which has " + std::to_string(mem[obj]->c.size()))); return false; }
	oblige(I, "memory", 1, ""); return true;
}
static int cellForm(int obj, int64_t i)
{
	Cell& c = mem[obj]->c[i];
	if(c.p) return unknown("pointer bits");
	if(c.f < 0) { Obj& o = wr(obj); o.c[i].f = fresh("uninitialised " + o.name); return o.c[i].f; }
	return c.f;
}
static int PB = 8; // size of pointers
static V loadT(const Instruction* I, const V& p, Type* T);
static V loadBytes(const Instruction* I, const V& p, int n, int w)
{
	if(p.k == V::INT && isK(p)) { inRange(I, 0, 0, n, "read"); throw Fail{"bad pointer"}; }
	if(p.k != V::PTR) throw Fail{"load through a value that is not a pointer"};
	V r; r.k = V::INT; r.w = w;
	if(p.idx >= 0)
	{
		Tab T; int s = single(p.idx, T); std::vector<Tab> out(n); int verdict = 1;
		for(int x = 0; x < 256; x++)
		{
			int64_t o = p.off + p.scale * T[x];
			bool ok = p.obj > 0 && !mem[p.obj]->dead && o >= 0 && o + n <= (int64_t)mem[p.obj]->c.size();
			for(int k = 0; k < n; k++)
			{
				if(!ok) { out[k][x] = 0; continue; }
				int f = cellForm(p.obj, o + k); if(!isK(f)) throw Fail{"indexing a table that is not constant"};
				out[k][x] = forms[f].c;
			}
			if(!ok && verdict == 1) verdict = -1;
		}
		if(verdict == -1 && s >= 0 && !syms[s].unk) for(int sd = 0; sd < SEEDS && verdict == -1; sd++) { int64_t o = p.off + p.scale * evalF(p.idx, sd); if(p.obj <= 0 || o < 0 || o + n > (int64_t)mem[p.obj]->c.size()) verdict = 0; }
		oblige(I, "memory", verdict, "the index can leave " + (p.obj > 0 ? mem[p.obj]->name : std::string("the object")));
		if(DL->isBigEndian()) std::reverse(out.begin(), out.end());
		for(int k = 0; k < n; k++) r.b.push_back(s < 0 ? konst(out[k][0]) : tabOf(s, out[k]));
		return r;
	}
	if(!inRange(I, p.obj, p.off, n, "read")) throw Fail{"bad read"};
	for(int k = 0; k < n; k++) r.b.push_back(cellForm(p.obj, p.off + (DL->isBigEndian() ? n - 1 - k : k)));
	return r;
}
static V loadT(const Instruction* I, const V& p, Type* T)
{
	if(T->isIntegerTy(PB * 8) && p.k == V::PTR && p.idx < 0 && p.obj > 0 && p.off >= 0 && p.off + PB <= (int64_t)mem[p.obj]->c.size() && mem[p.obj]->c[p.off].p) return loadT(I, p, PointerType::get(T->getContext(), 0));
	if(T->isIntegerTy()) { int w = T->getIntegerBitWidth(); return loadBytes(I, p, (w + 7) / 8, w); }
	if(T->isPointerTy())
	{
		if(p.k != V::PTR || p.idx >= 0) throw Fail{"load of a pointer through a computed address"};
		if(!inRange(I, p.obj, p.off, PB, "read")) throw Fail{"bad read"};
		Cell& c = mem[p.obj]->c[p.off];
		if(c.p && c.pi == 0) { for(int k = 1; k < PB; k++) if(mem[p.obj]->c[p.off + k].p != c.p) throw Fail{"torn pointer"}; return *c.p; }
		V v = loadBytes(I, p, PB, PB * 8); if(isK(v) && kval(v) == 0) return vptr(0, 0);
		v.k = V::NONE; return v;
	}
	if(T->isStructTy() || T->isArrayTy())
	{
		V r; r.k = V::AGG; unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
		for(unsigned i = 0; i < n; i++)
		{
			V q = p; Type* E = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
			q.off += T->isStructTy() ? (int64_t)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : (int64_t)(i * DL->getTypeAllocSize(E));
			r.el.push_back(loadT(I, q, E));
		}
		return r;
	}
	throw Fail{"load of an unsupported type"};
}
static void storeT(const Instruction* I, const V& p, const V& v, Type* T)
{
	if(p.k == V::INT || (p.k == V::PTR && p.obj == 0)) { inRange(I, 0, 0, 1, "write"); throw Fail{"bad pointer"}; }
	if(p.k != V::PTR || p.idx >= 0) throw Fail{"store through a computed address"};
	int64_t n = DL->getTypeStoreSize(T);
	if(T->isStructTy() || T->isArrayTy())
	{
		unsigned m = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
		for(unsigned i = 0; i < m && i < v.el.size(); i++)
		{
			V q = p; Type* E = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
			q.off += T->isStructTy() ? (int64_t)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : (int64_t)(i * DL->getTypeAllocSize(E));
			storeT(I, q, v.el[i], E);
		}
		return;
	}
	if(!inRange(I, p.obj, p.off, n, "write")) throw Fail{"bad write"};
	if(mem[p.obj]->ro) { oblige(I, "memory", 0, "write to the constant " + mem[p.obj]->name); throw Fail{"bad write"}; }
	Obj& o = wr(p.obj);
	if(v.k == V::INT) for(int k = 0; k < n; k++) { Cell c; c.f = k < (int)v.b.size() ? v.b[k] : konst(0); c.by = I; o.c[p.off + (DL->isBigEndian() ? n - 1 - k : k)] = c; }
	else if(v.k == V::PTR && v.obj == 0 && v.off == 0) for(int k = 0; k < n; k++) { Cell c; c.f = konst(0); c.by = I; o.c[p.off + k] = c; }
	else if(v.k == V::PTR || v.k == V::FN) { auto q = std::make_shared<V>(v); for(int k = 0; k < n; k++) { Cell c; c.p = q; c.pi = k; c.by = I; o.c[p.off + k] = c; } }
	else for(int k = 0; k < n; k++) { Cell c; c.by = I; o.c[p.off + k] = c; }
}

static V constV(const Constant* C);
static V gepV(const GEPOperator* G, std::function<V(const Value*)> get)
{
	V p = get(G->getPointerOperand());
	if(p.k == V::FN) throw Fail{"arithmetic on a function"};
	if(p.k != V::PTR) throw Fail{"arithmetic on a value that is not a pointer"};
	for(auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
	{
		V x = get(it.getOperand());
		if(StructType* S = it.getStructTypeOrNull()) { p.off += DL->getStructLayout(S)->getElementOffset(kval(x)); continue; }
		int64_t sz = it.getSequentialElementStride(*DL);
		if(isK(x)) { p.off += sx(kval(x), x.w) * sz; continue; }
		if(x.k != V::INT || p.idx >= 0) throw Fail{"an address with two unknown indices"};
		for(size_t i = 1; i < x.b.size(); i++) if(!isK(x.b[i]) || forms[x.b[i]].c) throw Fail{"an index wider than a byte"};
		p.idx = x.b[0]; p.scale = sz;
	}
	return p;
}
static V constV(const Constant* C)
{
	if(auto* K = dyn_cast<ConstantInt>(C)) { if(K->getBitWidth() > 64) throw Fail{"wide constant"}; return vint(K->getZExtValue(), K->getBitWidth()); }
	if(isa<ConstantPointerNull>(C)) return vptr(0, 0);
	if(isa<UndefValue>(C))
	{
		Type* T = C->getType();
		if(T->isIntegerTy()) { V r; r.k = V::INT; r.w = T->getIntegerBitWidth(); for(int i = 0; i < (r.w + 7) / 8; i++) r.b.push_back(fresh("undefined")); return r; }
		if(T->isStructTy()) { V r; r.k = V::AGG; r.el.resize(T->getStructNumElements()); return r; }
		return V();
	}
	if(auto* F = dyn_cast<Function>(C)) { V r; r.k = V::FN; r.w = 64; r.fn = const_cast<Function*>(F); return r; }
	if(auto* G = dyn_cast<GlobalVariable>(C))
	{
		auto it = globObj.find(G); if(it != globObj.end()) return vptr(it->second, 0);
		int o = newObj(DL->getTypeAllocSize(G->getValueType()), G->getName().str(), true); globObj[G] = o;
		if(!G->hasInitializer()) unmodelled.insert(G->getName().str());
		else { V v = constV(G->getInitializer()); storeT(nullptr, vptr(o, 0), v, G->getValueType()); }
		mem[o]->ro = G->isConstant(); return vptr(o, 0);
	}
	if(C->isNullValue() && (C->getType()->isStructTy() || C->getType()->isArrayTy()))
	{
		V r; r.k = V::AGG; Type* T = C->getType(); unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
		for(unsigned i = 0; i < n; i++) r.el.push_back(constV(C->getAggregateElement(i)));
		return r;
	}
	if(auto* A = dyn_cast<ConstantAggregate>(C)) { V r; r.k = V::AGG; for(auto& o : A->operands()) r.el.push_back(constV(cast<Constant>(o))); return r; }
	if(auto* D = dyn_cast<ConstantDataSequential>(C)) { V r; r.k = V::AGG; for(unsigned i = 0; i < D->getNumElements(); i++) r.el.push_back(constV(D->getElementAsConstant(i))); return r; }
	if(auto* E = dyn_cast<ConstantExpr>(C))
	{
		if(auto* G = dyn_cast<GEPOperator>(E)) return gepV(G, [](const Value* v) { return constV(cast<Constant>(v)); });
		if(E->getOpcode() == Instruction::BitCast) return constV(E->getOperand(0));
	}
	throw Fail{"unsupported constant"};
}

static uint64_t concrete(unsigned op, uint64_t a, uint64_t b, int w, bool& bad)
{
	uint64_t m = w < 64 ? (1ull << w) - 1 : ~0ull;
	switch(op)
	{
		case Instruction::Add: return (a + b) & m;
		case Instruction::Sub: return (a - b) & m;
		case Instruction::Mul: return (a * b) & m;
		case Instruction::And: return a & b;
		case Instruction::Or: return a | b;
		case Instruction::Xor: return a ^ b;
		case Instruction::Shl: if(b >= (uint64_t)w) { bad = true; return 0; } return (a << b) & m;
		case Instruction::LShr: if(b >= (uint64_t)w) { bad = true; return 0; } return a >> b;
		case Instruction::AShr: if(b >= (uint64_t)w) { bad = true; return 0; } return (uint64_t)(sx(a, w) >> b) & m;
		case Instruction::UDiv: if(!b) { bad = true; return 0; } return a / b;
		case Instruction::URem: if(!b) { bad = true; return 0; } return a % b;
		case Instruction::SDiv: if(!b || (sx(b, w) == -1 && sx(a, w) == (int64_t)(1ull << (w - 1)))) { bad = true; return 0; } return (uint64_t)(sx(a, w) / sx(b, w)) & m;
		case Instruction::SRem: if(!b || (sx(b, w) == -1 && sx(a, w) == (int64_t)(1ull << (w - 1)))) { bad = true; return 0; } return (uint64_t)(sx(a, w) % sx(b, w)) & m;
	}
	bad = true; return 0;
}
static bool concreteCmp(CmpInst::Predicate p, uint64_t a, uint64_t b, int w)
{
	int64_t x = sx(a, w), y = sx(b, w);
	switch(p)
	{
		case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
		case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
		case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SGE: return x >= y; case CmpInst::ICMP_SLT: return x < y; default: return x <= y;
	}
}
// the one symbol on which all the bytes depend; tables of each byte.  false: several
static bool oneSym(const std::vector<const V*>& vs, int& s, std::vector<std::vector<Tab>>& T)
{
	s = -1; T.clear();
	for(auto* v : vs)
	{
		T.emplace_back();
		for(int f : v->b) { Tab t; int q = single(f, t); if(q >= 0) { if(s >= 0 && q != s) return false; s = q; } T.back().push_back(t); }
	}
	return true;
}
static uint64_t wordAt(const std::vector<Tab>& T, int x, int w) { uint64_t r = 0; for(size_t i = 0; i < T.size() && i < 8; i++) r |= (uint64_t)T[i][x] << (8 * i); return w < 64 ? r & ((1ull << w) - 1) : r; }
static V fromTable(int s, const std::array<uint64_t, 256>& R, int w)
{
	V r; r.k = V::INT; r.w = w;
	for(int i = 0; i < (w + 7) / 8; i++) { Tab t; for(int x = 0; x < 256; x++) t[x] = (R[x] >> (8 * i)) & 255; r.b.push_back(s < 0 ? konst(t[0]) : tabOf(s, t)); }
	return r;
}
static V shiftV(const V& a, int n, bool left, bool arith)
{
	V r; r.k = V::INT; r.w = a.w; int nb = a.b.size(), q = n / 8, s = n % 8;
	auto byteAt = [&](int i) -> int
	{
		if(i >= 0 && i < nb) return a.b[i];
		if(i >= nb && arith) { Tab L; for(int x = 0; x < 256; x++) L[x] = x & 0x80 ? 255 : 0; return linmap(L, a.b[nb - 1]); }
		return konst(0);
	};
	for(int i = 0; i < nb; i++)
	{
		int hi = left ? byteAt(i - q) : byteAt(i + q + 1), lo = left ? byteAt(i - q - 1) : byteAt(i + q);
		if(s == 0) { r.b.push_back(left ? byteAt(i - q) : byteAt(i + q)); continue; }
		Tab A, B; for(int x = 0; x < 256; x++) { A[x] = left ? x << s : x << (8 - s); B[x] = left ? x >> (8 - s) : x >> s; }
		r.b.push_back(fxor(linmap(A, hi), linmap(B, lo)));
	}
	return r;
}
static V binop(const Instruction* I, unsigned op, const V& a, const V& b)
{
	if(op == Instruction::Sub && a.k == V::PTR && b.k == V::PTR && a.idx < 0 && b.idx < 0) return a.obj == b.obj ? vint(a.off - b.off, PB * 8) : vunk(PB * 8);
	if((op == Instruction::Add || op == Instruction::Sub) && a.k == V::PTR && a.idx < 0 && isK(b)) { V r = a; r.off += op == Instruction::Add ? (int64_t)kval(b) : -(int64_t)kval(b); return r; }
	if(a.k != V::INT || b.k != V::INT) throw Fail{"arithmetic on a value that is not a number"};
	int w = a.w;
	if(isK(a) && isK(b))
	{
		bool bad = false; uint64_t x = kval(a), y = kval(b), r = concrete(op, x, y, w, bad);
		if(bad) { oblige(I, "arithmetic", 0, "the operation has no defined result"); throw Fail{"undefined arithmetic"}; }
		if(auto* O = dyn_cast<OverflowingBinaryOperator>(I)) if(O->hasNoSignedWrap())
		{
			__int128 e = op == Instruction::Add ? (__int128)sx(x, w) + sx(y, w) : op == Instruction::Sub ? (__int128)sx(x, w) - sx(y, w) : op == Instruction::Mul ? (__int128)sx(x, w) * sx(y, w) : (__int128)sx(r, w);
			oblige(I, "arithmetic", e == sx(r, w), "signed overflow");
		}
		return vint(r, w);
	}
	if(op == Instruction::Xor) { V r = a; for(size_t i = 0; i < a.b.size(); i++) r.b[i] = fxor(a.b[i], b.b[i]); return r; }
	if((op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) && isK(b) && w % 8 == 0 && kval(b) < (uint64_t)w)
		return shiftV(a, kval(b), op == Instruction::Shl, op == Instruction::AShr);
	if(op == Instruction::And || op == Instruction::Or)
	{
		V r = a; bool ok = true;
		for(size_t i = 0; ok && i < a.b.size(); i++)
		{
			int x = a.b[i], y = b.b[i]; if(isK(x)) std::swap(x, y);
			if(isK(y))
			{
				uint8_t k = forms[y].c; Tab L; for(int v = 0; v < 256; v++) L[v] = op == Instruction::And ? v & k : v & ~k;
				r.b[i] = linmap(L, x); if(op == Instruction::Or) r.b[i] = fxor(r.b[i], konst(k));
			}
			else if(op == Instruction::Or && !(maskOf(x) & maskOf(y))) r.b[i] = fxor(x, y);
			else if(x == y) r.b[i] = x;
			else { Tab t, u; int s1 = single(x, t), s2 = single(y, u); if(s1 != s2) { ok = false; break; } for(int v = 0; v < 256; v++) t[v] = op == Instruction::And ? t[v] & u[v] : t[v] | u[v]; r.b[i] = tabOf(s1, t); }
		}
		if(ok) return r;
	}
	if(op == Instruction::Add && w % 8 == 0)
	{
		bool dis = true; for(size_t i = 0; i < a.b.size(); i++) dis = dis && !(maskOf(a.b[i]) & maskOf(b.b[i]));
		if(dis) { V r = a; for(size_t i = 0; i < a.b.size(); i++) r.b[i] = fxor(a.b[i], b.b[i]); return r; }
	}
	int s; std::vector<std::vector<Tab>> T;
	if(oneSym({&a, &b}, s, T))
	{
		std::array<uint64_t, 256> R; bool ok = true;
		for(int x = 0; x < 256; x++) { bool bad = false; R[x] = concrete(op, wordAt(T[0], x, w), wordAt(T[1], x, w), w, bad); if(bad) ok = false; }
		if(ok) return fromTable(s, R, w);
	}
	return vunk(w);
}
static V cmp(CmpInst::Predicate p, const V& a, const V& b)
{
	if(a.k == V::PTR || b.k == V::PTR || a.k == V::FN || b.k == V::FN)
	{
		auto null = [](const V& v) { return v.k == V::PTR && v.obj == 0 && v.off == 0 && v.idx < 0; };
		bool eq; 
		if(a.k == V::PTR && b.k == V::PTR && a.idx < 0 && b.idx < 0)
		{
			if(a.obj == b.obj) return vint(concreteCmp(p, a.off, b.off, 64), 1);
			eq = false;
			// unrelated objects: as if laid out in the order of their creation, far apart
			if(p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) return vint(concreteCmp(p, a.obj, b.obj, 63), 1);
		}
		else if(a.k == V::FN && b.k == V::FN) eq = a.fn == b.fn;
		else if(null(a) || null(b)) eq = false;
		else throw Fail{"comparison of pointers"};
		if(p == CmpInst::ICMP_EQ) return vint(eq, 1);
		if(p == CmpInst::ICMP_NE) return vint(!eq, 1);
		throw Fail{"order of unrelated pointers"};
	}
	if(a.k != V::INT || b.k != V::INT) throw Fail{"comparison of values that are not numbers"};
	if(isK(a) && isK(b)) return vint(concreteCmp(p, kval(a), kval(b), a.w), 1);
	if(isK(b) && kval(b) == 0 && (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_UGE)) return vint(p == CmpInst::ICMP_UGE, 1);
	if(a.b == b.b) return vint(concreteCmp(p, 0, 0, a.w), 1);
	if(isK(b) && a.w % 8 == 0 && ((kval(b) == 0 && (p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SGE)) || (sx(kval(b), a.w) == -1 && (p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_SLE))))
	{
		bool neg = p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE; Tab L; for(int x = 0; x < 256; x++) L[x] = x >> 7;   // the sign
		V r; r.k = V::INT; r.w = 1; r.b.push_back(fxor(linmap(L, a.b.back()), konst(!neg))); return r;
	}
	int s; std::vector<std::vector<Tab>> T;
	if(oneSym({&a, &b}, s, T)) { std::array<uint64_t, 256> R; for(int x = 0; x < 256; x++) R[x] = concreteCmp(p, wordAt(T[0], x, a.w), wordAt(T[1], x, a.w), a.w); return fromTable(s, R, 1); }
	return vunk(1);
}
static V castV(unsigned op, const V& a, Type* To)
{
	if(op == Instruction::BitCast) return a;
	if(op == Instruction::PtrToInt || op == Instruction::IntToPtr) { if(a.k == V::INT && isK(a) && !kval(a)) return op == Instruction::IntToPtr ? vptr(0, 0) : a; if((a.k == V::PTR || a.k == V::FN) && (To->isPointerTy() || (int)To->getIntegerBitWidth() == PB * 8)) return a; if(a.k == V::NONE) return a; throw Fail{"pointer turned into a number"}; }
	if(a.k == V::NONE) { if(!To->isIntegerTy()) return a; V u; u.k = V::INT; u.w = To->getIntegerBitWidth(); for(int i = 0; i < (u.w + 7) / 8; i++) u.b.push_back(fresh("undefined")); return u; }
	if(a.k != V::INT) throw Fail{"cast"};
	int w = To->getIntegerBitWidth(); V r; r.k = V::INT; r.w = w;
	if(op == Instruction::Trunc) { r.b.assign(a.b.begin(), a.b.begin() + (w + 7) / 8); if(w % 8) { Tab L; for(int x = 0; x < 256; x++) L[x] = x & ((1 << w % 8) - 1); r.b.back() = linmap(L, r.b.back()); } return r; }
	r.b = a.b; int fill = konst(0);
	if(op == Instruction::SExt)
	{
		int top = a.w % 8 ? a.w % 8 : 8; Tab L, F; for(int x = 0; x < 256; x++) { bool n = x >> (top - 1) & 1; L[x] = n ? x | (uint8_t)(255 << top) : x & ((1 << top) - 1); F[x] = n ? 255 : 0; }
		r.b.back() = linmap(L, a.b.back()); fill = linmap(F, a.b.back());
	}
	while((int)r.b.size() < (w + 7) / 8) r.b.push_back(fill);
	return r;
}
static int mergeF(int s, const Tab& C, int a, int b)
{
	if(a == b) return a;
	int d = fxor(a, b); Tab D; D.fill(forms[d].c);
	for(auto& x : forms[d].t) if(x.first != s) return unknown("merged"); else for(int k = 0; k < 256; k++) D[k] = forms[d].c ^ tabs[x.second][k];
	for(int k = 0; k < 256; k++) if(!C[k]) D[k] = 0;
	return fxor(b, tabOf(s, D));
}
static bool sameV(const V& a, const V& b)
{
	if(a.k != b.k || a.w != b.w || a.b != b.b || a.obj != b.obj || a.off != b.off || a.idx != b.idx || a.scale != b.scale || a.fn != b.fn || a.el.size() != b.el.size()) return false;
	for(size_t i = 0; i < a.el.size(); i++) if(!sameV(a.el[i], b.el[i])) return false;
	return true;
}
static V mergeV(int s, const Tab& C, const V& a, const V& b)
{
	if(sameV(a, b)) return a;
	if(a.k == V::INT && b.k == V::INT && a.w == b.w) { V r = a; for(size_t i = 0; i < a.b.size(); i++) r.b[i] = mergeF(s, C, a.b[i], b.b[i]); return r; }
	if(a.k == V::AGG && b.k == V::AGG && a.el.size() == b.el.size()) { V r = a; for(size_t i = 0; i < a.el.size(); i++) r.el[i] = mergeV(s, C, a.el[i], b.el[i]); return r; }
	return V();
}
typedef std::map<const Value*, V> Regs;
struct Frame { Function* F; Regs r; std::shared_ptr<PostDominatorTree> pdt; std::vector<int> locals; };
static V get(Frame& f, const Value* v) { if(auto* C = dyn_cast<Constant>(v)) return constV(C); auto it = f.r.find(v); if(it == f.r.end()) throw Fail{"value without a definition"}; return it->second; }
static V call(Function* F, std::vector<V>& args, const Instruction* at);
struct Out { bool returned; V ret; };

static void phis(Frame& f, const BasicBlock* bb, const BasicBlock* prev)
{
	std::vector<std::pair<const Value*, V>> n;
	for(auto& I : *bb) { auto* P = dyn_cast<PHINode>(&I); if(!P) break; const Value* v = P->getIncomingValueForBlock(prev); V x; if(isa<Constant>(v) || f.r.count(v)) x = get(f, v); n.push_back({P, x}); }
	for(auto& x : n) f.r[x.first] = x.second;
}
static std::string cstr(const V& v)
{
	std::string s; if(v.k != V::PTR || v.obj <= 0) return s;
	for(int64_t i = v.off; i < (int64_t)mem[v.obj]->c.size(); i++) { int f = mem[v.obj]->c[i].f; if(f < 0 || !isK(f) || !forms[f].c) break; s += (char)forms[f].c; }
	return s;
}
static int sameForms(int a, int b)
{
	if(a == b) return 1;
	int d = fxor(a, b);
	if(hasUnk(d)) return -1;
	for(int k = 0; k < SEEDS; k++) if(evalF(d, k)) return 0;
	return -1;
}
static void copyCells(const Instruction* I, const V& d, const V& s, int64_t n)
{
	if(n == 0) return;
	if(d.k != V::PTR || s.k != V::PTR || d.idx >= 0 || s.idx >= 0) throw Fail{"copy through a computed address"};
	if(!inRange(I, s.obj, s.off, n, "read") || !inRange(I, d.obj, d.off, n, "write")) throw Fail{"bad copy"};
	if(mem[d.obj]->ro) { oblige(I, "memory", 0, "write to the constant " + mem[d.obj]->name); throw Fail{"bad write"}; }
	for(int64_t k = 0; k < n; k++) if(!mem[s.obj]->c[s.off + k].p && mem[s.obj]->c[s.off + k].f < 0) cellForm(s.obj, s.off + k);
	std::vector<Cell> t(mem[s.obj]->c.begin() + s.off, mem[s.obj]->c.begin() + s.off + n);
	Obj& o = wr(d.obj); for(int64_t k = 0; k < n; k++) { o.c[d.off + k] = t[k]; if(!inSpec(I)) o.c[d.off + k].by = I; }
}
static V special(Function* F, std::vector<V>& a, const CallBase* I, bool& done)
{
	std::string n = F->getName().str(); done = true;
	if(n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0 || n == "memcpy" || n == "memmove")
	{
		if(!isK(a[2])) throw Fail{"copy of an unknown size"};
		int64_t k = kval(a[2]);
		if((n == "memcpy" || n.rfind("llvm.memcpy", 0) == 0) && k && a[0].k == V::PTR && a[1].k == V::PTR && a[0].obj == a[1].obj && a[0].off != a[1].off && a[0].off < a[1].off + k && a[1].off < a[0].off + k)
			oblige(I, "memory", 0, "memcpy() between overlapping bytes");
		copyCells(I, a[0], a[1], k); return a[0];
	}
	if(n.rfind("llvm.memset", 0) == 0 || n == "memset")
	{
		if(!isK(a[2])) throw Fail{"fill of an unknown size"};
		int64_t k = kval(a[2]); if(k == 0) return a[0];
		if(a[0].k != V::PTR || a[0].idx >= 0) throw Fail{"fill through a computed address"};
		if(!inRange(I, a[0].obj, a[0].off, k, "write")) throw Fail{"bad fill"};
		Obj& o = wr(a[0].obj); for(int64_t i = 0; i < k; i++) { Cell c; c.f = a[1].b[0]; c.by = I; o.c[a[0].off + i] = c; }
		return a[0];
	}
	if(n == "memcmp" || n == "strlen") { done = F->isDeclaration() ? false : false; return V(); }
	if(n.rfind("llvm.dbg", 0) == 0 || n.rfind("llvm.lifetime", 0) == 0 || n.rfind("llvm.stack", 0) == 0 || n.rfind("llvm.assume", 0) == 0) return V();
	if(n.rfind("llvm.bswap", 0) == 0) { V r = a[0]; std::reverse(r.b.begin(), r.b.end()); return r; }
	if((n.rfind("llvm.fshl", 0) == 0 || n.rfind("llvm.fshr", 0) == 0) && isK(a[2]))
	{
		int w = a[0].w, k = kval(a[2]) % w; if(!k) return n[9] == 'l' ? a[0] : a[1];
		V x = shiftV(a[0], n[9] == 'l' ? k : w - k, true, false), y = shiftV(a[1], n[9] == 'l' ? w - k : k, false, false);
		for(size_t i = 0; i < x.b.size(); i++) x.b[i] = fxor(x.b[i], y.b[i]);
		return x;
	}
	if(n == "ob_byte") { V r; r.k = V::INT; r.w = 8; r.b.push_back(fresh("input")); return r; }
	if(n == "ob_true")
	{
		std::string msg = cstr(a[1]); int verdict = -1;
		if(isK(a[0])) verdict = kval(a[0]) != 0;
		else { bool unk = false; for(int f : a[0].b) unk = unk || hasUnk(f); if(!unk) for(int k = 0; k < SEEDS && verdict; k++) { bool z = true; for(int f : a[0].b) z = z && !evalF(f, k); if(z) verdict = 0; } }
		oblige(I, "contract", verdict, msg); return V();
	}
	if(n == "ob_same")
	{
		// ob_same(result, expected, n, msg): the bytes are equal for every value of the inputs
		int64_t k = kval(a[2]); std::string msg = cstr(a[3]);
		if(k && (!inRange(I, a[0].obj, a[0].off, k, "read") || !inRange(I, a[1].obj, a[1].off, k, "read"))) throw Fail{"bad comparison"};
		for(int64_t i = 0; i < k; i++)
		{
			int x = cellForm(a[0].obj, a[0].off + i), y = cellForm(a[1].obj, a[1].off + i), v = sameForms(x, y);
			const Instruction* by = mem[a[0].obj]->c[a[0].off + i].by; if(by && inSpec(by)) by = nullptr;
			oblige(I, "contract", v, v == 1 ? "" : msg + " (byte " + std::to_string(i) + ")", by); if(v != 1) break;
		}
		return V();
	}
	if(n == "ob_object")
	{
		// ob_object(n): a new object of n unknown bytes of its own
		int o = newObj(kval(a[0]), "a caller's array"); for(auto& c : mem[o]->c) c.f = fresh("input"); return vptr(o, 0);
	}
	if(n == "ob_reached") { reached = true; return V(); }
	if(n == "abort" || n == "__assert_fail" || n == "exit") { oblige(I, "abort", 0, n + "() is reached"); throw Fail{"abort"}; }
	done = false; return V();
}
static void step() { if(++steps > stepLimit) throw Fail{"too many steps"}; if((steps & 4095) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > tLimit) throw Fail{"out of time"}; }

static Out run(Frame& f, const BasicBlock* bb, const BasicBlock* prev, const BasicBlock* stop, bool skipPhis)
{
	for(;;)
	{
		if(!skipPhis) { if(prev) phis(f, bb, prev); }
		if(bb == stop) return Out{false, V()};
		if(skipPhis) { skipPhis = false; }
		cover[f.F].insert(bb);
		for(auto& I0 : *bb)
		{
			const Instruction* I = &I0; if(isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
			step(); stackI.back() = I;
			if(auto* A = dyn_cast<AllocaInst>(I)) { uint64_t n = kval(get(f, A->getArraySize())); int o = newObj(n * DL->getTypeAllocSize(A->getAllocatedType()), A->getName().str()); f.locals.push_back(o); f.r[I] = vptr(o, 0); }
			else if(auto* L = dyn_cast<LoadInst>(I)) f.r[I] = loadT(I, get(f, L->getPointerOperand()), L->getType());
			else if(auto* S = dyn_cast<StoreInst>(I)) storeT(I, get(f, S->getPointerOperand()), get(f, S->getValueOperand()), S->getValueOperand()->getType());
			else if(auto* G = dyn_cast<GetElementPtrInst>(I)) f.r[I] = gepV(cast<GEPOperator>(G), [&](const Value* v) { return get(f, v); });
			else if(auto* B = dyn_cast<BinaryOperator>(I))
			{
				V x = get(f, B->getOperand(0)), y = get(f, B->getOperand(1));
				f.r[I] = binop(I, B->getOpcode(), x, y);
			}
			else if(auto* C = dyn_cast<ICmpInst>(I)) f.r[I] = cmp(C->getPredicate(), get(f, C->getOperand(0)), get(f, C->getOperand(1)));
			else if(auto* C = dyn_cast<CastInst>(I)) f.r[I] = castV(C->getOpcode(), get(f, C->getOperand(0)), C->getType());
			else if(auto* F = dyn_cast<FreezeInst>(I)) f.r[I] = get(f, F->getOperand(0));
			else if(auto* S = dyn_cast<SelectInst>(I))
			{
				V c = get(f, S->getCondition());
				if(isK(c)) f.r[I] = get(f, kval(c) ? S->getTrueValue() : S->getFalseValue());
				else { Tab C; int s = single(c.b[0], C); f.r[I] = mergeV(s, C, get(f, S->getTrueValue()), get(f, S->getFalseValue())); }
			}
			else if(auto* E = dyn_cast<ExtractValueInst>(I)) { V v = get(f, E->getAggregateOperand()); for(unsigned k : E->indices()) { if(v.k != V::AGG || k >= v.el.size()) throw Fail{"aggregate"}; V t = v.el[k]; v = t; } f.r[I] = v; }
			else if(auto* E = dyn_cast<InsertValueInst>(I)) { V v = get(f, E->getAggregateOperand()); if(E->getNumIndices() != 1 || v.k != V::AGG) throw Fail{"aggregate"}; v.el[E->getIndices()[0]] = get(f, E->getInsertedValueOperand()); f.r[I] = v; }
			else if(auto* C = dyn_cast<CallBase>(I))
			{
				V fv; Function* F = C->getCalledFunction(); if(!F) { fv = get(f, C->getCalledOperand()); if(fv.k != V::FN) { oblige(I, "memory", 0, "call through a value that is not a function"); throw Fail{"bad call"}; } F = fv.fn; }
				std::vector<V> args; for(unsigned k = 0; k < C->arg_size(); k++) { if(C->getArgOperand(k)->getType()->isMetadataTy()) args.push_back(V()); else args.push_back(get(f, C->getArgOperand(k))); }
				bool done; V r = special(F, args, C, done);
				if(!done)
				{
					if(F->isDeclaration()) { unmodelled.insert(F->getName().str()); throw Fail{"call of " + F->getName().str() + "(), which has no definition"}; }
					for(unsigned k = 0; k < C->arg_size(); k++) if(C->isByValArgument(k)) { int64_t n = DL->getTypeAllocSize(C->getParamByValType(k)); int o = newObj(n, "argument"); copyCells(I, vptr(o, 0), args[k], n); args[k] = vptr(o, 0); }
					r = call(F, args, I);
				}
				f.r[I] = r;
			}
			else if(auto* R = dyn_cast<ReturnInst>(I)) return Out{true, R->getReturnValue() ? get(f, R->getReturnValue()) : V()};
			else if(isa<UnreachableInst>(I)) throw Fail{"unreachable code"};
			else if(auto* S = dyn_cast<SwitchInst>(I)) { V c = get(f, S->getCondition()); if(!isK(c)) throw Fail{"switch on an unknown value"}; const BasicBlock* n = S->getDefaultDest(); for(auto& k : S->cases()) if(k.getCaseValue()->getZExtValue() == kval(c)) n = k.getCaseSuccessor(); prev = bb; bb = n; break; }
			else if(auto* B = dyn_cast<BranchInst>(I))
			{
				if(!B->isConditional()) { prev = bb; bb = B->getSuccessor(0); break; }
				V c = get(f, B->getCondition());
				if(isK(c)) { prev = bb; bb = B->getSuccessor(kval(c) ? 0 : 1); break; }
				Tab C; int s = single(c.b[0], C); if(syms[s].unk) throw Fail{"branch on a value that is not known"};
				if(forkDepth > 24) throw Fail{"too many nested branches on unknown values"};
				if(!f.pdt) f.pdt = std::make_shared<PostDominatorTree>(*f.F);
				const BasicBlock* ip = nullptr; if(auto* N = f.pdt->getNode(const_cast<BasicBlock*>(bb))) if(N->getIDom()) ip = N->getIDom()->getBlock();
				Frame g = f; Mem m0 = mem; forkDepth++;
				Out a = run(f, B->getSuccessor(0), bb, ip, false); Mem ma = mem;
				mem = m0; m0.clear(); Out b = run(g, B->getSuccessor(1), bb, ip, false); Mem mb = mem; mem.clear();
				forkDepth--;
				if(a.returned != b.returned) throw Fail{"branches that end differently"};
				Mem mm = ma;
				for(size_t o = 0; o < mm.size() && o < mb.size(); o++) if(ma[o] && mb[o] && ma[o] != mb[o])
				{
					if(ma[o]->c.size() != mb[o]->c.size()) { mm[o] = std::make_shared<Obj>(*ma[o]); mm[o]->dead = true; continue; }
					auto n = std::make_shared<Obj>(*ma[o]);
					for(size_t k = 0; k < n->c.size(); k++)
					{
						Cell &x = ma[o]->c[k], &y = mb[o]->c[k]; if(x.f == y.f && x.p == y.p) continue;
						Cell z; z.by = x.by; if(!x.p && !y.p && x.f >= 0 && y.f >= 0) z.f = mergeF(s, C, x.f, y.f); else z.f = unknown("merged"); n->c[k] = z;
					}
					mm[o] = n;
				}
				ma.clear(); mb.clear(); mem = mm;
				if(a.returned) return Out{true, mergeV(s, C, a.ret, b.ret)};
				Regs nr; for(auto& x : f.r) { auto it = g.r.find(x.first); if(it != g.r.end()) nr[x.first] = mergeV(s, C, x.second, it->second); }
				f.r = nr; prev = nullptr; bb = ip; skipPhis = true;
				if(bb == stop) return Out{false, V()};   // its phis have been evaluated on both sides
				break;
			}
			else throw Fail{std::string("instruction ") + I->getOpcodeName()};
		}
	}
}
static V call(Function* F, std::vector<V>& args, const Instruction* at)
{
	if(stackF.size() > 60) throw Fail{"calls too deep"};
	Frame f; f.F = F; unsigned k = 0; for(auto& A : F->args()) { if(k < args.size()) f.r[&A] = args[k]; k++; }
	stackF.push_back(F); stackI.push_back(nullptr);
	Out o = run(f, &F->getEntryBlock(), nullptr, nullptr, false);
	stackF.pop_back(); stackI.pop_back();
	for(int l : f.locals) if(l < (int)mem.size()) { auto d = std::make_shared<Obj>(); d->dead = true; d->name = mem[l]->name; mem[l] = d; }
	return o.ret;
}

static std::string js(const std::string& s) { std::string r = "\""; for(char c : s) { if(c == '"' || c == '\\') r += '\\', r += c; else if((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
int main(int argc, char** argv)
{
	std::string bc, out; 
	for(int i = 1; i < argc; i++) { std::string a = argv[i]; if(a == "-e") entryName = argv[++i]; else if(a == "-o") out = argv[++i]; else if(a == "-t") tLimit = atof(argv[++i]); else if(a == "-b" || a == "-T") i++; else bc = a; }
	LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(bc, err, ctx); if(!m) { errs() << "cannot read " << bc << "\n"; return 2; }
	M = m.get(); DL = &M->getDataLayout(); PB = DL->getPointerSize(); T0 = std::chrono::steady_clock::now();
	mkForm(Form{{}, 0}); mem.push_back(std::make_shared<Obj>()); mem[0]->name = "null"; mem[0]->dead = true;
	std::string error; Function* F = M->getFunction(entryName); if(!F) { errs() << "no entry\n"; return 2; }
	try { for(auto& G : M->globals()) if(!G.getName().starts_with("llvm.")) constV(&G); std::vector<V> a; call(F, a, nullptr); }
	catch(Fail& e) { error = e.msg; const Instruction* I = stackI.empty() ? nullptr : stackI.back(); if(I) error += " at " + siteOf(I); }
	for(auto& a : alarms) if(a.def) error = "";
	double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count();
	FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
	fprintf(o, "{\"entries\":[{\"name\":%s,\"error\":%s,\"end_states\":1,\"steps\":%ld,\"wall\":%.3f,\"reached\":[%s]}],\"alarms\":[", js(entryName).c_str(), js(error).c_str(), steps, wall, reached ? "1" : "");
	bool first = true;
	for(auto& a : alarms) { fprintf(o, "%s{\"file\":%s,\"line\":%d,\"func\":%s,\"cat\":%s,\"msg\":%s,\"definite\":%s,\"entry\":%s,\"api\":\"\",\"trace\":[],\"stack\":[", first ? "" : ",", js(a.file).c_str(), a.line, js(a.func).c_str(), js(a.cat).c_str(), js(a.msg).c_str(), a.def ? "true" : "false", js(entryName).c_str()); first = false; for(size_t i = 0; i < a.stack.size(); i++) fprintf(o, "%s%s", i ? "," : "", js(a.stack[i]).c_str()); fprintf(o, "]}"); }
	fprintf(o, "],\"obligations\":["); first = true;
	for(auto& x : obls) { fprintf(o, "%s{\"cat\":%s,\"site\":%s,\"n\":%d,\"bad\":%d}", first ? "" : ",", js(x.first.first).c_str(), js(x.first.second).c_str(), x.second.first, x.second.second); first = false; }
	fprintf(o, "],\"coverage\":["); first = true;
	for(auto& x : cover) { DISubprogram* S = x.first->getSubprogram(); std::string fl = S ? (S->getFilename().starts_with("/") ? S->getFilename().str() : S->getDirectory().str() + "/" + S->getFilename().str()) : ""; fprintf(o, "%s{\"func\":%s,\"file\":%s,\"blocks\":%d,\"covered\":%d}", first ? "" : ",", js(x.first->getName().str()).c_str(), js(fl).c_str(), (int)x.first->size(), (int)x.second.size()); first = false; }
	fprintf(o, "],\"unmodelled\":["); first = true; for(auto& u : unmodelled) { fprintf(o, "%s%s", first ? "" : ",", js(u).c_str()); first = false; }
	fprintf(o, "],\"stats\":{\"forms\":%zu,\"symbols\":%zu,\"tables\":%zu}}\n", forms.size(), syms.size(), tabs.size());
	if(o != stdout) fclose(o);
	return 0;
}
