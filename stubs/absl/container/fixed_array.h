#pragma once
#include <cstddef>
#include <vector>
#include <memory>
namespace absl {
template <typename T, size_t N = static_cast<size_t>(-1)>
class FixedArray {
 public:
  using value_type = T;
  using size_type = size_t;
  using iterator = T*;
  using const_iterator = const T*;
  using reference = T&;
  using const_reference = const T&;
  explicit FixedArray(size_t n) : n_(n), p_(new T[n ? n : 1]) {}
  FixedArray(size_t n, const T& v) : FixedArray(n) { for (size_t i = 0; i < n; ++i) p_[i] = v; }
  FixedArray(const FixedArray&) = delete;
  ~FixedArray() { delete[] p_; }
  T& operator[](size_t i) { return p_[i]; }
  const T& operator[](size_t i) const { return p_[i]; }
  T* data() { return p_; }
  const T* data() const { return p_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  T* begin() { return p_; }
  T* end() { return p_ + n_; }
  const T* begin() const { return p_; }
  const T* end() const { return p_ + n_; }
 private:
  size_t n_;
  T* p_;
};
}
