// Declarations for the sandbox's own libre2.so.10 (2023-03-01), whose headers
// are not installed.  Only out-of-line functions of the library are used; the
// RE2 object itself is opaque and over-sized.
#ifndef VERIF_SHIM_RE2_RE2_H_
#define VERIF_SHIM_RE2_RE2_H_

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>

namespace re2 {

class StringPiece {
 public:
  StringPiece() : data_(nullptr), size_(0) {}
  StringPiece(std::string_view s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const std::string& s) : data_(s.data()), size_(s.size()) {}
  StringPiece(const char* s) : data_(s), size_(s ? std::strlen(s) : 0) {}
  StringPiece(const char* s, size_t n) : data_(s), size_(n) {}
  const char* data() const { return data_; }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  operator std::string_view() const { return {data_, size_}; }
  explicit operator std::string() const { return {data_, size_}; }

 private:
  const char* data_;
  size_t size_;
};

namespace re2_internal {
template <typename T>
bool Parse(const char* str, size_t n, T* dest);
template <typename T>
bool Parse(const char* str, size_t n, T* dest, int radix);
extern template bool Parse<double>(const char*, size_t, double*);
extern template bool Parse<float>(const char*, size_t, float*);
extern template bool Parse<std::string>(const char*, size_t, std::string*);
extern template bool Parse<int>(const char*, size_t, int*, int);
extern template bool Parse<unsigned>(const char*, size_t, unsigned*, int);
extern template bool Parse<long>(const char*, size_t, long*, int);
}  // namespace re2_internal

class RE2 {
 public:
  class Arg {
    typedef bool (*Parser)(const char* str, size_t n, void* dest);
    template <class T>
    static bool P2(const char* s, size_t n, void* d) {
      return re2_internal::Parse<T>(s, n, static_cast<T*>(d));
    }
    template <class T>
    static bool P3(const char* s, size_t n, void* d) {
      return re2_internal::Parse<T>(s, n, static_cast<T*>(d), 10);
    }
    static bool PNull(const char*, size_t, void*) { return true; }
    static bool PView(const char* s, size_t n, void* d) {
      if (d) *static_cast<std::string_view*>(d) = std::string_view(s, n);
      return true;
    }
    static bool PPiece(const char* s, size_t n, void* d) {
      if (d) *static_cast<StringPiece*>(d) = StringPiece(s, n);
      return true;
    }

   public:
    Arg() : Arg(nullptr) {}
    Arg(std::nullptr_t) : arg_(nullptr), parser_(PNull) {}
    Arg(double* p) : arg_(p), parser_(P2<double>) {}
    Arg(float* p) : arg_(p), parser_(P2<float>) {}
    Arg(std::string* p) : arg_(p), parser_(P2<std::string>) {}
    Arg(int* p) : arg_(p), parser_(P3<int>) {}
    Arg(unsigned* p) : arg_(p), parser_(P3<unsigned>) {}
    Arg(long* p) : arg_(p), parser_(P3<long>) {}
    Arg(std::string_view* p) : arg_(p), parser_(PView) {}
    Arg(StringPiece* p) : arg_(p), parser_(PPiece) {}
    bool Parse(const char* s, size_t n) const { return parser_(s, n, arg_); }

   private:
    void* arg_;
    Parser parser_;
  };

  RE2(const char* pattern);
  RE2(const std::string& pattern);
  RE2(const StringPiece& pattern);
  ~RE2();
  RE2(const RE2&) = delete;
  RE2& operator=(const RE2&) = delete;

  static bool FullMatchN(const StringPiece& text, const RE2& re,
                         const Arg* const args[], int n);
  static bool PartialMatchN(const StringPiece& text, const RE2& re,
                            const Arg* const args[], int n);
  static bool ConsumeN(StringPiece* input, const RE2& re,
                       const Arg* const args[], int n);
  static bool FindAndConsumeN(StringPiece* input, const RE2& re,
                              const Arg* const args[], int n);
  static bool Replace(std::string* str, const RE2& re,
                      const StringPiece& rewrite);
  static int GlobalReplace(std::string* str, const RE2& re,
                           const StringPiece& rewrite);
  static std::string QuoteMeta(const StringPiece& unquoted);

 private:
  template <class F, class S>
  static bool Apply(F f, S s, const RE2& re) {
    return f(s, re, nullptr, 0);
  }
  template <class F, class S, class... A>
  static bool Apply(F f, S s, const RE2& re, const A&... a) {
    const Arg* const args[] = {&a...};
    return f(s, re, args, int(sizeof...(a)));
  }

 public:
  template <class... A>
  static bool FullMatch(const StringPiece& text, const RE2& re, A&&... a) {
    return Apply(FullMatchN, text, re, Arg(std::forward<A>(a))...);
  }
  template <class... A>
  static bool PartialMatch(const StringPiece& text, const RE2& re, A&&... a) {
    return Apply(PartialMatchN, text, re, Arg(std::forward<A>(a))...);
  }
  template <class... A>
  static bool Consume(StringPiece* input, const RE2& re, A&&... a) {
    return Apply(ConsumeN, input, re, Arg(std::forward<A>(a))...);
  }
  template <class... A>
  static bool FindAndConsume(StringPiece* input, const RE2& re, A&&... a) {
    return Apply(FindAndConsumeN, input, re, Arg(std::forward<A>(a))...);
  }

 private:
  alignas(16) unsigned char opaque_[4096];
};
}  // namespace re2
using re2::RE2;
#endif  // VERIF_SHIM_RE2_RE2_H_
