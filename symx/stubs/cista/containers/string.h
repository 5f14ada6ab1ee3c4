// Stand-in for the third-party type (cista is not installed in this sandbox):
// a non-owning string as used by utl's parsers.
#pragma once
#include <cstring>
#include <string>
#include <string_view>
namespace cista::raw {
struct generic_string {
  using msize_t = unsigned;
  using value_type = char;
  static constexpr struct owning_t {} owning{};
  static constexpr struct non_owning_t {} non_owning{};
  generic_string() = default;
  generic_string(std::string_view s, owning_t) { set_owning(s); }
  generic_string(std::string_view s, non_owning_t) { set_non_owning(s); }
  generic_string(std::string const& s, owning_t) { set_owning(s); }
  generic_string(std::string const& s, non_owning_t) { set_non_owning(s); }
  generic_string(char const* s, owning_t) { set_owning(s); }
  generic_string(char const* s, non_owning_t) { set_non_owning(s); }
  generic_string(generic_string const& o) { *this = o; }
  generic_string& operator=(generic_string const& o) {
    n_ = o.n_;
    own_ = o.own_;
    if (own_) { buf_ = o.buf_; p_ = buf_.data(); } else p_ = o.p_;
    return *this;
  }
  generic_string& operator=(char const* s) { set_owning(s); return *this; }
  generic_string& operator=(std::string const& s) { set_owning(s); return *this; }
  generic_string& operator=(std::string_view s) { set_owning(s); return *this; }
  void reset() { p_ = nullptr; n_ = 0; own_ = false; }
  void set_owning(char const* s, msize_t n) {
    auto copy = std::string(s, n);
    buf_.swap(copy);
    own_ = true;
    p_ = buf_.data();
    n_ = n;
  }
  void set_owning(std::string_view s) { set_owning(s.data(), static_cast<msize_t>(s.size())); }
  void set_owning(std::string const& s) { set_owning(s.data(), static_cast<msize_t>(s.size())); }
  void set_owning(char const* s) { set_owning(std::string_view(s)); }
  void set_non_owning(char const* s, msize_t n) { own_ = false; p_ = s; n_ = n; }
  void set_non_owning(std::string_view s) { set_non_owning(s.data(), static_cast<msize_t>(s.size())); }
  void set_non_owning(std::string const& s) { set_non_owning(s.data(), static_cast<msize_t>(s.size())); }
  void set_non_owning(char const* s) { set_non_owning(std::string_view(s)); }
  msize_t size() const { return n_; }
  msize_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  char const* data() const { return p_; }
  char const* begin() const { return p_; }
  char const* end() const { return p_ + n_; }
  friend char const* begin(generic_string const& s) { return s.begin(); }
  friend char const* end(generic_string const& s) { return s.end(); }
  char const& operator[](std::size_t i) const { return p_[i]; }
  std::string_view view() const { return {p_, n_}; }
  std::string str() const { return {p_, n_}; }
  operator std::string_view() const { return view(); }
  friend bool operator==(generic_string const& a, generic_string const& b) { return a.view() == b.view(); }
  friend bool operator==(generic_string const& a, std::string_view b) { return a.view() == b; }
  friend bool operator<(generic_string const& a, generic_string const& b) { return a.view() < b.view(); }
  // a removal works on a private copy
  generic_string& erase(msize_t const pos, msize_t const len) {
    if (len == 0 || pos >= n_) return *this;
    if (!own_) { set_owning(p_, n_); }
    buf_.erase(pos, len);
    p_ = buf_.data();
    n_ = static_cast<msize_t>(buf_.size());
    return *this;
  }
  char const* p_{nullptr};
  unsigned n_{0};
  bool own_{false};
  std::string buf_;
};
}  // namespace cista::raw
