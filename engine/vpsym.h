// vpsym: a symbolic executor for LLVM IR (LLVM 18 + Z3).
// Values, memory and path state.
#pragma once
#include <z3++.h>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <deque>
#include <functional>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

extern z3::context *Z;

struct Val;
struct Node {
  int rc = 0;
  z3::expr e;
  std::vector<Val> agg;
  Node(const z3::expr &x) : e(x) {}
  Node(std::vector<Val> &&a);
  ~Node();
};

enum VK : u8 { VUndef = 0, VConc = 1, VSym = 2, VReal = 3, VAgg = 4 };

// A register or memory value.
//  VConc: bits in c (width w <= 64).  VSym: bit-vector expression (Bool when w == 1).
//  VReal: a floating-point payload (w = 64 or 32) whose value is a real expression.
struct Val {
  u8 k = VUndef;
  u32 w = 0;
  u64 c = 0;
  Node *n = nullptr;
  Val() {}
  Val(const Val &o) : k(o.k), w(o.w), c(o.c), n(o.n) { if (n) n->rc++; }
  Val(Val &&o) noexcept : k(o.k), w(o.w), c(o.c), n(o.n) { o.n = nullptr; o.k = VUndef; }
  Val &operator=(const Val &o) { if (this != &o) { if (o.n) o.n->rc++; drop(); k = o.k; w = o.w; c = o.c; n = o.n; } return *this; }
  Val &operator=(Val &&o) noexcept { if (this != &o) { drop(); k = o.k; w = o.w; c = o.c; n = o.n; o.n = nullptr; o.k = VUndef; } return *this; }
  ~Val() { drop(); }
  void drop() { if (n && --n->rc == 0) delete n; n = nullptr; }
  static Val conc(u64 v, u32 w) { Val r; r.k = VConc; r.w = w; r.c = w >= 64 ? v : (v & ((1ull << w) - 1)); return r; }
  static Val undef(u32 w) { Val r; r.k = VUndef; r.w = w; return r; }
  static Val mk(VK k, u32 w, const z3::expr &e) { Val r; r.k = k; r.w = w; r.n = new Node(e); r.n->rc = 1; return r; }
  static Val aggregate(std::vector<Val> &&a) { Val r; r.k = VAgg; r.n = new Node(std::move(a)); r.n->rc = 1; return r; }
  bool isC() const { return k == VConc; }
  const z3::expr &e() const { return n->e; }
};
inline Node::Node(std::vector<Val> &&a) : e(*Z), agg(std::move(a)) {}
inline Node::~Node() {}

enum OKind : u8 { OHeap, OStack, OGlobal, OMpi, OHarness };

struct Obj {
  u64 size = 0;
  OKind kind = OHeap;
  bool ro = false;
  bool freed = false;
  u8 alloc = 0;              // 1 malloc 2 new 3 new[] 4 MPI_Alloc_mem
  int proc = 0, thread = 0;
  int win = -1;              // exposed MPI window
  bool hasPending = false;   // destination of a pending get
  std::string name;
  std::vector<u8> b;         // concrete bytes
  std::vector<u8> st;        // 0 uninitialised 1 concrete 2 symbolic start 3 symbolic continuation
  std::map<u32, Val> cells;
};
typedef std::shared_ptr<Obj> ObjP;

static const int CH = 256;
struct Chunk { ObjP o[CH]; };

// Address of object i starts at (i << 32).
struct Mem {
  std::vector<std::shared_ptr<Chunk>> ch;
  u64 next = 1;
  Obj *peek(u64 id) const {
    u64 c = id / CH; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id % CH].get();
  }
  ObjP *slot(u64 id) {
    u64 c = id / CH; if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = std::make_shared<Chunk>();
    else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
    return &ch[c]->o[id % CH];
  }
  Obj *writable(u64 id) {
    ObjP *s = slot(id);
    if (s->use_count() > 1) *s = std::make_shared<Obj>(**s);
    return s->get();
  }
  u64 alloc(u64 size, OKind k, const std::string &name) {
    u64 id = next++;
    ObjP *s = slot(id);
    *s = std::make_shared<Obj>();
    Obj *o = s->get();
    o->size = size; o->kind = k; o->name = name;
    o->b.assign(size, 0); o->st.assign(size, 0);
    return id << 32;
  }
};
