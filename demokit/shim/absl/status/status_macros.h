#pragma once
#include "absl/status/status.h"
#define ABSL_ASSIGN_OR_RETURN_CAT2(a,b) a##b
#define ABSL_ASSIGN_OR_RETURN_CAT(a,b) ABSL_ASSIGN_OR_RETURN_CAT2(a,b)
#define ABSL_ASSIGN_OR_RETURN(lhs, ...) ABSL_ASSIGN_OR_RETURN_I(ABSL_ASSIGN_OR_RETURN_CAT(sor_,__LINE__), lhs, __VA_ARGS__)
#define ABSL_ASSIGN_OR_RETURN_I(t, lhs, ...) auto t = (__VA_ARGS__); if (!t.ok()) return t.status(); lhs = std::move(t).value()
#define ABSL_RETURN_IF_ERROR(e) do { auto s_ = (e); if (!s_.ok()) return s_; } while (0)
