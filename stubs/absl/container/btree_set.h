#pragma once
#include <set>
#include <utility>
namespace absl {
template <typename K>
class btree_set : public std::set<K> {
 public:
  using Base = std::set<K>;
  using Base::Base;
  btree_set() = default;
  bool contains(const K& k) const { return this->count(k) != 0; }
};
}
