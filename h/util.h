// Bookkeeping shared by harness threads, invisible to the explorer.
#pragma once
#include <mc.h>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

struct Log {
  std::vector<int> v;
  void add(int x) { mc::Quiet q; v.push_back(x); }
  int count(int x) { mc::Quiet q; return (int)std::count(v.begin(), v.end(), x); }
  int pos(int x) { mc::Quiet q; auto i = std::find(v.begin(), v.end(), x); return i == v.end() ? -1 : int(i - v.begin()); }
  size_t size() { mc::Quiet q; return v.size(); }
  std::string str() { mc::Quiet q; std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
};
// plain value written by one thread and read by another for the oracle only
template <class V> struct Obs {
  V v{};
  Obs &operator=(const V &x) { mc::Quiet q; v = x; return *this; }
  operator V() const { mc::Quiet q; return v; }
};
