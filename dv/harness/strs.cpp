#include <string>
#include <cstdint>
#include <cctype>
#include "utils/utils.h"
template class std::__cxx11::basic_string<char>;
extern "C" uint64_t dvs_trim(const char *p, uint64_t n, char *out) { std::string r = utils::Trim(std::string(p, n)); for (uint64_t i = 0; i < r.size(); i++) out[i] = r[i]; return r.size(); }
extern "C" bool dvs_bool(const char *p, uint64_t n) { return utils::StrToBool(std::string(p, n)); }
