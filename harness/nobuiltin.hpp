#include "ccmath/internal/predef/has_builtin.hpp"
#undef CCM_HAS_BUILTIN
#define CCM_HAS_BUILTIN(x) (0)
