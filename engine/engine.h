#pragma once
#include "val.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <array>

struct Cell { Val v; uint8_t len; };
struct Obj {
    uint64_t size = 0; uint8_t kind = 0; /*0 global 1 heap 2 stack*/ bool ro = false; bool dead = false; uint8_t akind = 0;
    std::vector<uint8_t> data, st;   // st: 0 uninit 1 concrete 2 cell head 3 cell cont
    std::map<uint32_t, Cell> cells;
    std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { std::array<ObjP, 64> o; };

struct GepStep { int op; int64_t scale; unsigned w; };
struct KInst {
    llvm::Instruction* I; unsigned opc; int dest = -1;
    std::vector<int> ops;               // >=0 reg, <0 const ~idx
    uint64_t size = 0; unsigned w = 0;  // load/store size; int width
    bool fp = false, fp32 = false;
    int64_t coff = 0; std::vector<GepStep> gep;
    int bb0 = -1, bb1 = -1;
    std::vector<std::pair<uint64_t,int>> sw;
    llvm::Function* callee = nullptr;
    std::vector<std::pair<int,int>> phi; // (pred bb, op)
    int intr = 0;
    int hid = -1; // handler id for externals
};
struct KFunc {
    llvm::Function* F; std::vector<KInst> ins; int nregs = 0, nargs = 0;
    std::vector<int> bbStart; std::vector<Val> consts; bool mergeable = false; bool ready = false; uint64_t id;
    std::string name; uint64_t calls = 0;
};
struct Frame { KFunc* f; int pc = 0; int bb = 0, prevbb = -1; std::vector<Val> regs; uint32_t stkBase = 0; std::vector<Val> va; std::vector<int> vaw; };
struct Exc { uint64_t obj; uint64_t ti; int handlers = 0; uint64_t adj; };
struct PCE { A c; bool axiom; };
struct Input { std::string name; char kind; Val v; int64_t denom; double lo, hi; };
struct Obs { std::string name; Val v; };
typedef std::unordered_map<int, A> Model;
struct State {
    std::vector<Frame> stack;
    std::vector<std::shared_ptr<Chunk>> heap; uint32_t nheap = 1;
    std::vector<ObjP> stk;
    std::vector<PCE> pc; std::set<unsigned> pcset;
    std::shared_ptr<Model> model; bool modelOK = true;
    std::vector<Input> inputs; std::vector<std::string> reach; std::vector<Obs> obs;
    std::vector<Exc> excs; std::vector<uint64_t> caught; uint64_t flying = 0; int flyingSel = 0;
    uint64_t ninstr = 0; int depth = 0; bool checked = false; bool undec = false;
    std::vector<int> fnrecs; int pendChoice = -1; int nChoice = 0; long shSpan = 1, shId = 0; bool shDone = false; bool allowAbort = false; bool approx = false; bool oneCheck = false;
};
