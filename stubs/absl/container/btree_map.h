#pragma once
#include <map>
#include <utility>
namespace absl {
template <typename K, typename V>
class btree_map : public std::map<K, V> {
 public:
  using Base = std::map<K, V>;
  using Base::Base;
  btree_map() = default;
  bool contains(const K& k) const { return this->count(k) != 0; }
};
}
