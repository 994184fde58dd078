#pragma once
#define CHECK(x) ((x) ? (void)0 : __builtin_trap())
#define CHECK_EQ(a,b) CHECK((a)==(b))
#define CHECK_NE(a,b) CHECK((a)!=(b))
#define CHECK_LE(a,b) CHECK((a)<=(b))
#define CHECK_LT(a,b) CHECK((a)<(b))
#define CHECK_GE(a,b) CHECK((a)>=(b))
#define CHECK_GT(a,b) CHECK((a)>(b))
