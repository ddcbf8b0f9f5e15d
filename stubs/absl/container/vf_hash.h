#pragma once
#include <functional>
#include <utility>
namespace absl { namespace vf_internal {
template <typename T> struct Hash : std::hash<T> {};
template <typename A, typename B> struct Hash<std::pair<A, B>> {
  size_t operator()(const std::pair<A, B>& p) const { return std::hash<A>()(p.first) * 1000003u ^ std::hash<B>()(p.second); }
};
}}
