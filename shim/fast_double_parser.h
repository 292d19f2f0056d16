// Stand-in for the fast_double_parser submodule, which is absent offline. Only
// parse_number is used by the library (common.h AtofPrecise).
#ifndef VERIF_SHIM_FAST_DOUBLE_PARSER_H_
#define VERIF_SHIM_FAST_DOUBLE_PARSER_H_
#include <cstdlib>
namespace fast_double_parser {
inline const char* parse_number(const char* p, double* out) {
  char* end = nullptr;
  *out = std::strtod(p, &end);
  return end == p ? nullptr : end;
}
}
#endif
