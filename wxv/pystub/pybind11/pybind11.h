#pragma once
#include <cstddef>
#include <cstdint>
#include <limits>
#include <complex>
#include <array>
#include <string>
extern "C" void wxv_def(const char* name, void* fn, const char* signature);
namespace pybind11 {
struct handle { handle attr(const char*) const; template <class T> T cast() const; };
struct object : handle {};
struct buffer_info { void* ptr; };
template <class T, int F = 0> struct array_t {
  void* data_;
  buffer_info request() const { return buffer_info{data_}; }
  T* mutable_data() { return static_cast<T*>(data_); }
  const T* data() const { return static_cast<const T*>(data_); }
};
template <class F> struct sig;
template <class R, class... A> struct sig<R(A...)> { static const char* get() { return __PRETTY_FUNCTION__; } };
struct module_ {
  template <class R, class... A, class... E> module_& def(const char* name, R (*f)(A...), E...) {
    wxv_def(name, reinterpret_cast<void*>(f), sig<R(A...)>::get());
    return *this;
  }
};
}
#define PYBIND11_MODULE(name, m) \
  static void wxv_init_(pybind11::module_& m); \
  extern "C" void wxv_init() { pybind11::module_ m; wxv_init_(m); } \
  static void wxv_init_(pybind11::module_& m)
