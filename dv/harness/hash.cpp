#include <string>
#include <cstdint>
#include "utils/utils.h"
extern "C" uint64_t dvh_FNVHash64(uint64_t v) { return utils::FNVHash64(v); }
extern "C" uint64_t dvh_Hash(uint64_t v) { return utils::Hash(v); }
