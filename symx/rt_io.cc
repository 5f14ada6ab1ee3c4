// Library model, part 2: iostreams.  The stream classes themselves are
// libstdc++'s own templates, instantiated here; modelled are the parts that
// live in the shared library: locales and facets ("C" locale), ios_base, the
// FILE layer (over files registered with sx_file_add), number formatting,
// clog and cin.
#include "sx.h"
#include <cstdio>
#include <ctime>
#include <fstream>
#include <iostream>
#include <limits>
#include <istream>
#include <locale>
#include <new>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
#include <system_error>
#include <cxxabi.h>

struct sx_file_t { char const* path; char const* data; size_t n; int kind; };
static sx_file_t g_files[8];
static unsigned g_nfiles;
static int g_open_files;
extern "C" {
// kind: 0 regular, 1 directory (opens for reading, seeks to the far end, cannot be read)
void sx_file_add(char const* path, char const* data, size_t n, int kind) { g_files[g_nfiles++] = {path, data, n, kind}; }
int sx_files_open() { return g_open_files; }
}
static int sx_errno;

namespace std {
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_stringbuf<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_iostream<char>;
template class basic_stringstream<char>;
template ostream& __ostream_insert(ostream&, char const*, streamsize);
template ostream& endl(ostream&);
template ostream& flush(ostream&);
template ostream& ends(ostream&);
template istream& getline(istream&, string&);

template <>
istream& getline(istream& in, string& str, char delim) {
  streamsize got = 0;
  auto err = ios_base::goodbit;
  istream::sentry ok(in, true);
  if (ok) {
    str.erase();
    auto const max = str.max_size();
    auto c = in.rdbuf()->sgetc();
    while (static_cast<size_t>(got) < max && c != EOF && c != static_cast<unsigned char>(delim)) {
      str += static_cast<char>(c);
      ++got;
      c = in.rdbuf()->snextc();
    }
    if (c == EOF) err |= ios_base::eofbit;
    else if (c == static_cast<unsigned char>(delim)) { ++got; in.rdbuf()->sbumpc(); }
    else err |= ios_base::failbit;
  }
  if (!got) err |= ios_base::failbit;
  if (err != ios_base::goodbit) in.setstate(err);
  return in;
}

// (std::ws itself is declared "extern template" by the headers)
istream& sx_ws(istream&) __asm__("_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_");
istream& sx_ws(istream& in) {
  istream::sentry ok(in, true);
  if (!ok) return in;
  auto c = in.rdbuf()->sgetc();
  while (c != EOF && (c == ' ' || (c >= '\t' && c <= '\r'))) c = in.rdbuf()->snextc();
  if (c == EOF) in.setstate(ios_base::eofbit);
  return in;
}

template <>
istream& operator>>(istream& in, string& str) {
  auto err = ios_base::goodbit;
  size_t got = 0;
  istream::sentry ok(in, true);
  if (ok) {
    auto c = in.rdbuf()->sgetc();
    while (c != EOF && (c == ' ' || (c >= '\t' && c <= '\r'))) c = in.rdbuf()->snextc();
    str.erase();
    while (c != EOF && !(c == ' ' || (c >= '\t' && c <= '\r'))) { str += static_cast<char>(c); ++got; c = in.rdbuf()->snextc(); }
    if (c == EOF) err |= ios_base::eofbit;
  }
  if (!got) err |= ios_base::failbit;
  if (err != ios_base::goodbit) in.setstate(err);
  return in;
}

template <>
istream& istream::ignore(streamsize n, int_type d) {
  _M_gcount = 0;
  sentry ok(*this, true);
  auto err = ios_base::goodbit;
  if (ok)
    while (n == numeric_limits<streamsize>::max() || _M_gcount < n) {
      auto const c = rdbuf()->sbumpc();
      if (c == EOF) { err |= ios_base::eofbit; break; }
      ++_M_gcount;
      if (c == d) break;
    }
  if (err != ios_base::goodbit) setstate(err);
  return *this;
}
template <>
istream& istream::ignore(streamsize n) { return ignore(n, EOF); }
template <>
istream& istream::getline(char* b, streamsize n, char d) {
  _M_gcount = 0;
  auto err = ios_base::goodbit;
  sentry ok(*this, true);
  streamsize k = 0;
  if (ok)
    for (;;) {
      auto const c = rdbuf()->sgetc();
      if (c == EOF) { err |= ios_base::eofbit; break; }
      if (c == static_cast<unsigned char>(d)) { rdbuf()->sbumpc(); ++_M_gcount; break; }
      if (k + 1 >= n) { err |= ios_base::failbit; break; }
      b[k++] = static_cast<char>(c);
      ++_M_gcount;
      rdbuf()->sbumpc();
    }
  if (n > 0) b[k] = 0;
  if (_M_gcount == 0) err |= ios_base::failbit;
  if (err != ios_base::goodbit) setstate(err);
  return *this;
}

// ---- locale
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(locale const& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
locale const& locale::operator=(locale const& o) throw() { _M_impl = o._M_impl; return *this; }
locale::facet::~facet() {}
codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type&, char const* f, char const*, char const*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type&, char const* f, char const*, char const*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type&, char const* f, char const* e, size_t m) const { return static_cast<int>(min<size_t>(m, e - f)); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
}  // namespace std
static std::codecvt<char, char, mbstate_t>* sx_codecvt() {
  alignas(16) static char mem[sizeof(std::codecvt<char, char, mbstate_t>)];
  static bool made = false;
  if (!made) { new (mem) std::codecvt<char, char, mbstate_t>(1); made = true; }
  return reinterpret_cast<std::codecvt<char, char, mbstate_t>*>(mem);
}
static std::ctype<char>* sx_ctype() {
  alignas(16) static char mem[sizeof(std::ctype<char>)];
  static unsigned short table[256];
  auto t = reinterpret_cast<std::ctype<char>*>(mem);
  if (!t->_M_widen_ok) {
    t->_M_widen_ok = 1;
    t->_M_narrow_ok = 1;
    for (int i = 0; i < 256; ++i) { t->_M_widen[i] = t->_M_narrow[i] = static_cast<char>(i); if (i == ' ' || (i >= 9 && i <= 13)) table[i] = std::ctype_base::space; }
    t->_M_table = table;
  }
  return t;
}
void std::ctype<char>::_M_widen_init() const {}
void std::ctype<char>::_M_narrow_init() const {}
extern "C" {
void const* _ZSt15__try_use_facetISt5ctypeIcEEPKT_RKSt6locale(std::locale const*) { return sx_ctype(); }
void const* _ZSt15__try_use_facetISt7codecvtIcc11__mbstate_tEEPKT_RKSt6locale(std::locale const*) { return sx_codecvt(); }
void const* _ZSt15__try_use_facetISt7num_putIcSt19ostreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale(std::locale const*) { return nullptr; }
void const* _ZSt15__try_use_facetISt7num_getIcSt19istreambuf_iteratorIcSt11char_traitsIcEEEEPKT_RKSt6locale(std::locale const*) { return nullptr; }
}

namespace std {
// ---- ios_base
ios_base::ios_base() throw()
    : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() {
  _M_precision = 6;
  _M_width = 0;
  _M_flags = skipws | dec;
  _M_ios_locale = locale();
}
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(locale const& l) throw() { return l; }

ios_base::failure::failure(string const& s) : system_error(error_code()) {}
ios_base::failure::failure(string const& s, error_code const& e) : system_error(e) {}
ios_base::failure::failure(char const*, error_code const& e) : system_error(e) {}
ios_base::failure::~failure() {}
char const* ios_base::failure::what() const throw() { return "basic_ios::clear"; }
void __throw_ios_failure(char const*) { throw ios_base::failure("io", error_code(1, iostream_category())); }
void __throw_ios_failure(char const*, int) { throw ios_base::failure("io", error_code(1, iostream_category())); }

static string sx_message(void const*, int) { return "iostream error"; }
static void* sx_category_vt[8] = {nullptr, nullptr, nullptr, nullptr, reinterpret_cast<void*>(&sx_message)};
static void* sx_category = &sx_category_vt;
error_category const& iostream_category() noexcept { return *reinterpret_cast<error_category const*>(&sx_category); }
bool uncaught_exception() noexcept { return false; }

system_error::~system_error() noexcept {}

// ---- files
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
struct sx_stream { sx_file_t* f; size_t pos; };
__basic_file<char>* __basic_file<char>::open(char const* path, ios_base::openmode m, int) {
  if (_M_cfile) return nullptr;
  if (m & (ios_base::out | ios_base::app | ios_base::trunc)) sx_fail("writing files is not modelled");
  for (unsigned i = 0; i < g_nfiles; ++i)
    if (strcmp(g_files[i].path, path) == 0) {
      _M_cfile = reinterpret_cast<__c_file*>(new sx_stream{&g_files[i], 0});
      _M_cfile_created = true;
      ++g_open_files;
      return this;
    }
  return nullptr;
}
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
__basic_file<char>* __basic_file<char>::close() {
  if (!_M_cfile) return nullptr;
  delete reinterpret_cast<sx_stream*>(_M_cfile);
  _M_cfile = nullptr;
  --g_open_files;
  return this;
}
streamsize __basic_file<char>::xsgetn(char* s, streamsize n) {
  auto f = reinterpret_cast<sx_stream*>(_M_cfile);
  if (!f) return -1;
  if (f->f->kind == 1) { sx_errno = EISDIR; return -1; }
  size_t k = f->pos < f->f->n ? f->f->n - f->pos : 0;
  if (k > static_cast<size_t>(n)) k = static_cast<size_t>(n);
  memcpy(s, f->f->data + f->pos, k);
  f->pos += k;
  return static_cast<streamsize>(k);
}
streamsize __basic_file<char>::xsputn(char const*, streamsize) { return -1; }
streamsize __basic_file<char>::xsputn_2(char const*, streamsize, char const*, streamsize) { return -1; }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() {
  auto f = reinterpret_cast<sx_stream*>(_M_cfile);
  streamoff b = w == ios_base::beg ? 0 : w == ios_base::cur ? static_cast<streamoff>(f->pos) : f->f->kind == 1 ? 0x7fffffffffffffff : static_cast<streamoff>(f->f->n);
  if (b + o < 0) return -1;
  f->pos = static_cast<size_t>(b + o);
  return b + o;
}
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() {
  auto f = reinterpret_cast<sx_stream*>(_M_cfile);
  return f->pos < f->f->n ? static_cast<streamsize>(f->f->n - f->pos) : 0;
}
}  // namespace std

__cxxabiv1::__forced_unwind::~__forced_unwind() throw() {}

// ---- numbers: decimal only
static std::ostream& sx_put(std::ostream& o, unsigned long v, bool neg) {
  char b[24];
  int n = 24;
  do { b[--n] = static_cast<char>('0' + v % 10); v /= 10; } while (v != 0);
  if (neg) b[--n] = '-';
  return std::__ostream_insert(o, b + n, 24 - n);
}
extern "C" {
std::ostream& _ZNSo9_M_insertImEERSoT_(std::ostream* o, unsigned long v) { return sx_put(*o, v, false); }
std::ostream& _ZNSo9_M_insertIyEERSoT_(std::ostream* o, unsigned long long v) { return sx_put(*o, v, false); }
std::ostream& _ZNSo9_M_insertIlEERSoT_(std::ostream* o, long v) { return sx_put(*o, v < 0 ? 0UL - static_cast<unsigned long>(v) : static_cast<unsigned long>(v), v < 0); }
std::ostream& _ZNSo9_M_insertIxEERSoT_(std::ostream* o, long long v) { return sx_put(*o, v < 0 ? 0UL - static_cast<unsigned long>(v) : static_cast<unsigned long>(v), v < 0); }
std::ostream& _ZNSo9_M_insertIbEERSoT_(std::ostream* o, bool v) {
  if (o->flags() & std::ios_base::boolalpha) return std::__ostream_insert(*o, v ? "true" : "false", v ? 4 : 5);
  return sx_put(*o, v, false);
}
// multiples of 0.001 below 1e6, six significant digits like %g
std::ostream& _ZNSo9_M_insertIdEERSoT_(std::ostream* o, double d) {
  if (!(d >= 0 && d < 999999)) sx_fail("number formatting is not modelled for this value");
  auto m = static_cast<unsigned long>(d * 1000 + 0.5);
  unsigned decimals = 3;
  for (unsigned long lim = 1000000; m >= lim; ) { m = (m + 5) / 10; --decimals; }
  unsigned long scale = 1;
  for (unsigned i = 0; i < decimals; ++i) scale *= 10;
  char b[16];
  int n = 16;
  auto frac = m % scale;
  for (unsigned i = 0; i < decimals; ++i) { if (n != 16 || frac % 10 != 0) b[--n] = static_cast<char>('0' + frac % 10); frac /= 10; }
  if (n != 16) b[--n] = '.';
  auto whole = m / scale;
  do { b[--n] = static_cast<char>('0' + whole % 10); whole /= 10; } while (whole != 0);
  return std::__ostream_insert(*o, b + n, 16 - n);
}
}

// ---- standard streams: constructed on start with no buffer
static char g_clog[sizeof(std::ostream)] __attribute__((aligned(16)));
static char g_cerr[sizeof(std::ostream)] __attribute__((aligned(16)));
static char g_cout[sizeof(std::ostream)] __attribute__((aligned(16)));
static char g_cin[sizeof(std::istream)] __attribute__((aligned(16)));
namespace std {
extern ostream clog __attribute__((alias("_ZL6g_clog")));
extern ostream cerr __attribute__((alias("_ZL6g_cerr")));
extern ostream cout __attribute__((alias("_ZL6g_cout")));
extern istream cin __attribute__((alias("_ZL5g_cin")));
}
struct sx_io_start {
  sx_io_start() {
    new (g_clog) std::ostream(nullptr);
    new (g_cerr) std::ostream(nullptr);
    new (g_cout) std::ostream(nullptr);
    new (g_cin) std::istream(nullptr);
  }
} static g_start __attribute__((init_priority(101)));
