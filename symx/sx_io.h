// Files and standard streams for harnesses: in the engine registered with the
// stream model, natively real files in a scratch directory.
#pragma once
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include <string>
#ifdef SX_NATIVE
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#else
extern "C" void sx_file_add(char const* path, char const* data, size_t n, int kind);
extern "C" int sx_files_open();
#endif
namespace sx {
// input stream buffer over a string
struct inbuf : std::streambuf {
  explicit inbuf(std::string s) : s_{std::move(s)} { setg(s_.data(), s_.data(), s_.data() + s_.size()); }
  std::string s_;
};
struct outbuf : std::streambuf {
  int_type overflow(int_type c) override { if (c != EOF) s_ += static_cast<char>(c); return c == EOF ? 0 : c; }
  std::streamsize xsputn(char const* p, std::streamsize n) override { s_.append(p, static_cast<size_t>(n)); return n; }
  int sync() override { ++flushes_; return 0; }
  std::string s_;
  unsigned flushes_{0};
};
struct io {
#ifdef SX_NATIVE
  io() {
    char t[] = "/tmp/sxioXXXXXX";
    if (mkdtemp(t) == nullptr) sx_assume(false);
    dir_ = t;
    fds_ = fds();
  }
  ~io() {
    for (auto const& f : made_) unlink(f.c_str());
    if (sub_) rmdir((dir_ + "/d").c_str());
    rmdir(dir_.c_str());
  }
  std::string file(std::string const& s) {
    auto const p = dir_ + "/f" + std::to_string(n_++);
    { auto f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
    made_.push_back(p);
    return p;
  }
  // a file of this name in the current directory
  std::string file(std::string const& s, char const* name) {
    auto const p = dir_ + "/" + name;
    { auto f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
    made_.push_back(p);
    if (chdir(dir_.c_str()) != 0) sx_assume(false);
    return name;
  }
  std::string missing() { return dir_ + "/missing"; }
  std::string directory() { sub_ = true; auto const p = dir_ + "/d"; mkdir(p.c_str(), 0700); return p; }
  bool closed() const { return fds() == fds_; }
  static int fds() { int n = 0; if (auto d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
  std::string dir_;
  std::vector<std::string> made_;
  bool sub_{false};
  int n_{0}, fds_{0};
#else
  std::string file(std::string const& s) {
    keep_[n_] = s;
    name_[n_] = std::string{"f"} + static_cast<char>('0' + n_);
    sx_file_add(name_[n_].c_str(), keep_[n_].data(), s.size(), 0);
    return name_[n_++];
  }
  std::string file(std::string const& s, char const* name) {
    keep_[n_] = s;
    name_[n_] = name;
    sx_file_add(name_[n_].c_str(), keep_[n_].data(), s.size(), 0);
    return name_[n_++];
  }
  std::string missing() { return "missing"; }
  std::string directory() { sx_file_add("directory", nullptr, 0, 1); return "directory"; }
  bool closed() const { return sx_files_open() == 0; }
  std::string keep_[4], name_[4];
  unsigned n_{0};
#endif
  void stdin_is(std::string const& s) { in_ = new inbuf{s}; std::cin.rdbuf(in_); std::cin.clear(); }
  inbuf* in_{nullptr};
};
}  // namespace sx
