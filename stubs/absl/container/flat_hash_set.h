#pragma once
#include <unordered_set>
#include <utility>
#include "absl/container/vf_hash.h"
namespace absl {
template <typename K>
class flat_hash_set : public std::unordered_set<K, vf_internal::Hash<K>> {
 public:
  using Base = std::unordered_set<K, vf_internal::Hash<K>>;
  using Base::Base;
  flat_hash_set() = default;
  bool contains(const K& k) const { return this->count(k) != 0; }
};
}
