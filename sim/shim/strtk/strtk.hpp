// Stand-in for the one strtk function fstalign uses (strtk is not installed in
// this sandbox).  Same contract as strtk::split with compress_delimiters: every
// run of delimiters ends a token (a leading run yields an empty first token), a
// trailing run yields an empty last token, an empty input yields no token.
#pragma once
#include <string>
namespace strtk {
namespace split_options {
typedef unsigned int type;
static const type default_mode = 0;
static const type compress_delimiters = 1;
}  // namespace split_options
template <class C>
struct inserter_ref {
  C &c;
};
template <class C>
inline inserter_ref<C> range_to_type_back_inserter(C &c) {
  return inserter_ref<C>{c};
}
template <class C>
inline void split(const char *delims, const std::string &s, inserter_ref<C> out,
                  split_options::type mode = split_options::default_mode) {
  const std::string ds(delims);
  const std::size_t n = s.size();
  if (n == 0) return;
  std::size_t i = 0, start = 0;
  while (i < n) {
    if (ds.find(s[i]) != std::string::npos) {
      out.c.push_back(s.substr(start, i - start));
      ++i;
      if (mode & split_options::compress_delimiters)
        while (i < n && ds.find(s[i]) != std::string::npos) ++i;
      start = i;
    } else {
      ++i;
    }
  }
  if (start < n || ds.find(s[n - 1]) != std::string::npos) out.c.push_back(s.substr(start));
}
}  // namespace strtk
