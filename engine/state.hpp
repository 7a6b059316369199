// Symbolic machine state: copy-on-write memory, stack frames, path condition.
#pragma once
#include <memory>
#include <vector>

#include "decode.hpp"

enum ObjKind : u8 { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_EXC };
enum Tomb : u8 { T_NONE, T_FREED, T_DEADSTACK, T_SCOPE };

struct Obj {
  u32 refs = 1;
  u32 size = 0;
  ObjKind kind = K_GLOBAL;
  bool readonly = false;
  bool scopeDead = false;
  u32 site = 0;                 // line of the allocation
  std::vector<u8> d;            // concrete bytes
  std::vector<u8> st;           // 0 concrete, 1 undefined, 2 symbolic
  std::vector<std::pair<E, u8>> s;  // symbolic bytes (expr, byte index); sized lazily
};

struct Memory {
  static constexpr u32 CH = 64;
  struct Chunk {
    u32 refs = 1;
    Obj* o[CH] = {};
    u8 tomb[CH] = {};
    u32 tsite[CH] = {};
    ~Chunk() { for (auto* x : o) if (x && --x->refs == 0) delete x; }
  };
  std::vector<Chunk*> chunks;
  u64 next = 16;
  Memory() = default;
  Memory(const Memory& m) : chunks(m.chunks), next(m.next) { for (auto* c : chunks) if (c) c->refs++; }
  Memory& operator=(const Memory&) = delete;
  ~Memory() { for (auto* c : chunks) if (c && --c->refs == 0) delete c; }
  Obj* peek(u64 id) const {
    u64 k = id / CH;
    if (k >= chunks.size() || !chunks[k]) return nullptr;
    return chunks[k]->o[id % CH];
  }
  Tomb tomb(u64 id, u32* site = nullptr) const {
    u64 k = id / CH;
    if (k >= chunks.size() || !chunks[k]) return T_NONE;
    if (site) *site = chunks[k]->tsite[id % CH];
    return (Tomb)chunks[k]->tomb[id % CH];
  }
  Chunk* wchunk(u64 id) {
    u64 k = id / CH;
    if (k >= chunks.size()) chunks.resize(k + 1, nullptr);
    if (!chunks[k]) chunks[k] = new Chunk;
    if (chunks[k]->refs > 1) {
      auto* n = new Chunk;
      for (u32 i = 0; i < CH; i++) {
        n->o[i] = chunks[k]->o[i];
        if (n->o[i]) n->o[i]->refs++;
        n->tomb[i] = chunks[k]->tomb[i];
        n->tsite[i] = chunks[k]->tsite[i];
      }
      chunks[k]->refs--;
      chunks[k] = n;
    }
    return chunks[k];
  }
  Obj* write(u64 id) {
    Chunk* c = wchunk(id);
    Obj*& o = c->o[id % CH];
    if (o->refs > 1) {
      auto* n = new Obj(*o);
      n->refs = 1;
      o->refs--;
      o = n;
    }
    return o;
  }
  Obj* place(u64 id, u64 size, ObjKind k, bool undef) {
    auto* o = new Obj;
    o->size = size;
    o->kind = k;
    o->d.assign(size, 0);
    o->st.assign(size, undef ? 1 : 0);
    wchunk(id)->o[id % CH] = o;
    if (id >= next) next = id + 1;
    return o;
  }
  void kill(u64 id, Tomb t, u32 site) {
    Chunk* c = wchunk(id);
    Obj*& o = c->o[id % CH];
    if (o && --o->refs == 0) delete o;
    o = nullptr;
    c->tomb[id % CH] = t;
    c->tsite[id % CH] = site;
  }
};

struct Frame {
  DFunc* f;
  u32 pc = 0;
  std::vector<Value> regs;
  std::vector<u64> allocas;
  // while a call is pending: where its result goes
  const DInst* call = nullptr;
};

struct SymRec { u8 kind; u8 width; u32 var; u64 val; u32 name; };  // kind 0 variable, 1 choice

struct State {
  std::vector<std::shared_ptr<Frame>> stack;
  Memory mem;
  std::vector<E> pc;
  std::shared_ptr<const std::vector<u64>> model = std::make_shared<std::vector<u64>>();
  std::vector<SymRec> syms;
  std::vector<Value> trace;
  std::vector<u32> reach;
  std::vector<std::pair<u64, u64>> exn;  // exception object -> type info
  u64 landExn = 0; u32 landSel = 0;
  u32 nvars = 0, nundef = 0;
  u64 steps = 0;
  u32 enums = 0;
  u32 depth = 0;
  State() = default;
  State(const State&) = default;
};
