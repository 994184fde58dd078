#pragma once
#include_next <absl/base/attributes.h>
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#ifndef ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS
#define ABSL_ATTRIBUTE_NO_UNIQUE_ADDRESS [[no_unique_address]]
#endif
#ifndef ABSL_REQUIRE_EXPLICIT_INIT
#define ABSL_REQUIRE_EXPLICIT_INIT
#endif
#ifndef ABSL_ATTRIBUTE_PURE_FUNCTION
#define ABSL_ATTRIBUTE_PURE_FUNCTION
#endif
#ifndef ABSL_DEPRECATE_AND_INLINE
#define ABSL_DEPRECATE_AND_INLINE()
#endif
