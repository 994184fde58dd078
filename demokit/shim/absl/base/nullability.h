// Stand-in for abseil's nullability annotations (absent from the installed
// abseil 20220623): they carry no behaviour.
#pragma once
#define absl_nonnull
#define absl_nullable
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
namespace absl {
template <class T> using Nonnull = T;
template <class T> using Nullable = T;
template <class T> using NullabilityUnknown = T;
}
