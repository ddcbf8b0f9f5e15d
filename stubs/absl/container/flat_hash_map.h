#pragma once
#include <unordered_map>
#include <utility>
#include "absl/container/vf_hash.h"
namespace absl {
template <typename K, typename V>
class flat_hash_map : public std::unordered_map<K, V, vf_internal::Hash<K>> {
 public:
  using Base = std::unordered_map<K, V, vf_internal::Hash<K>>;
  using Base::Base;
  flat_hash_map() = default;
  bool contains(const K& k) const { return this->count(k) != 0; }
};
}
