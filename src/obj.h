// Element type that records its own lifetime: every object is registered while alive.
#pragma once
#include "hx.h"
struct Obj {
  static std::set<const Obj*>& live() { static std::set<const Obj*> s; return s; }
  static std::string& error() { static std::string s; return s; }
  static hx::u64& ops() { static hx::u64 n = 0; return n; }
  int v = 0; char* heap = nullptr; // heap block makes leaks / double destruction visible to ASan
  void reg() { heap = (char*)malloc(3); if (!live().insert(this).second) err("constructed over a live object"); ++ops(); }
  static void err(const char* m) { if (error().empty()) error() = m; }
  void chk(const char* w) const { if (!live().count(this)) err(w); }
  Obj() { reg(); }
  Obj(int x) : v(x) { reg(); }
  Obj(const Obj& o) : v(o.v) { o.chk("copied from a dead object"); reg(); }
  Obj(Obj&& o) noexcept : v(o.v) { o.chk("moved from a dead object"); o.v = -7777; reg(); }
  Obj& operator=(const Obj& o) { chk("assigned to a dead object"); o.chk("assigned from a dead object"); v = o.v; ++ops(); return *this; }
  Obj& operator=(Obj&& o) noexcept { chk("assigned to a dead object"); o.chk("assigned from a dead object"); v = o.v; if (&o != this) o.v = -7777; ++ops(); return *this; }
  ~Obj() { if (!live().erase(this)) err("destroyed a dead object"); else free(heap); ++ops(); }
  bool operator==(const Obj& o) const { return v == o.v; }
  bool operator!=(const Obj& o) const { return v != o.v; }
  bool operator==(int x) const { return v == x; }
  operator int() const { return v; }
};
