// Names the executor implements itself.
enum Builtin {
  B_u8, B_u16, B_u32, B_u64, B_range, B_symbolic, B_assume, B_assert, B_reach, B_observe, B_concretize,
  B_choice, B_param, B_map, B_unmap, B_merge, B_thread, B_join_all, B_spin_wait, B_yield, B_cur_thread,
  B_expect_crash, B_crash, B_end_path, B_is_mapped, B_is_symbolic, B_note, B_assume_drop, B_native,
  B_malloc, B_calloc, B_realloc, B_free, B_memalign, B_memcpy, B_memmove, B_memset,
  B_nop, B_math, B_vformat, B_atomic_region,
};
struct BuiltinDef { const char* name; Builtin id; bool over; };
static const BuiltinDef kBuiltins[] = {
  {"verif_u8", B_u8, true}, {"verif_u16", B_u16, true}, {"verif_u32", B_u32, true}, {"verif_u64", B_u64, true},
  {"verif_range", B_range, true}, {"verif_symbolic", B_symbolic, true}, {"verif_assume", B_assume, true},
  {"verif_assert", B_assert, true}, {"verif_reach", B_reach, true}, {"verif_observe", B_observe, true},
  {"verif_concretize", B_concretize, true}, {"verif_choice", B_choice, true}, {"verif_param", B_param, true},
  {"verif_map", B_map, true}, {"verif_unmap", B_unmap, true}, {"verif_merge", B_merge, true},
  {"verif_thread", B_thread, true}, {"verif_join_all", B_join_all, true}, {"verif_spin_wait", B_spin_wait, true},
  {"verif_yield", B_yield, true}, {"verif_cur_thread", B_cur_thread, true},
  {"verif_expect_crash", B_expect_crash, true}, {"verif_crash", B_crash, true}, {"verif_end_path", B_end_path, true},
  {"verif_is_mapped", B_is_mapped, true}, {"verif_is_symbolic", B_is_symbolic, true}, {"verif_note", B_note, true},
  {"verif_native", B_native, true}, {"verif_atomic_region", B_atomic_region, true},
  {"abort", B_crash, true}, {"_exit", B_crash, true}, {"exit", B_crash, true}, {"__assert_fail", B_crash, true},
  {"__clang_call_terminate", B_crash, true}, {"_ZSt9terminatev", B_crash, true}, {"__cxa_pure_virtual", B_crash, true},
  {"__stack_chk_fail", B_crash, true}, {"_ZSt20__throw_length_errorPKc", B_crash, true}, {"_ZSt17__throw_bad_allocv", B_crash, true},
  {"_ZSt28__throw_bad_array_new_lengthv", B_crash, true}, {"_ZSt24__throw_out_of_range_fmtPKcz", B_crash, true}, {"_ZSt20__throw_out_of_rangePKc", B_crash, true},
  {"_ZSt19__throw_logic_errorPKc", B_crash, true}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_crash, true},
  {"_ZSt25__throw_bad_function_callv", B_crash, true},
  {"malloc", B_malloc, false}, {"calloc", B_calloc, false}, {"realloc", B_realloc, false}, {"free", B_free, false},
  {"_Znwm", B_malloc, false}, {"_Znam", B_malloc, false}, {"_ZnwmRKSt9nothrow_t", B_malloc, false}, {"_ZnamRKSt9nothrow_t", B_malloc, false},
  {"_ZdlPv", B_free, false}, {"_ZdaPv", B_free, false}, {"_ZdlPvm", B_free, false}, {"_ZdaPvm", B_free, false},
  {"_ZnwmSt11align_val_t", B_memalign, false}, {"_ZnamSt11align_val_t", B_memalign, false},
  {"_ZnwmSt11align_val_tRKSt9nothrow_t", B_memalign, false},
  {"_ZdlPvSt11align_val_t", B_free, false}, {"_ZdlPvmSt11align_val_t", B_free, false}, {"_ZdaPvSt11align_val_t", B_free, false}, {"_ZdaPvmSt11align_val_t", B_free, false},
  {"memcpy", B_memcpy, true}, {"memmove", B_memmove, true}, {"memset", B_memset, true},
  {"__cxa_atexit", B_nop, true}, {"__cxa_guard_abort", B_nop, true}, {"pthread_atfork", B_nop, true},
  {"_ZNSt8ios_base4InitC1Ev", B_nop, true}, {"_ZNSt8ios_base4InitD1Ev", B_nop, true},
  {"log", B_math, true}, {"log2", B_math, true}, {"exp", B_math, true}, {"log10", B_math, true}, {"log1p", B_math, true}, {"exp2", B_math, true},
  {"sqrt", B_math, true}, {"floor", B_math, true}, {"ceil", B_math, true}, {"trunc", B_math, true}, {"round", B_math, true},
  {"verif_vformat", B_vformat, false},
};
static int builtinOf(StringRef n) {
  static std::unordered_map<std::string, int>* m = nullptr;
  if (!m) {
    m = new std::unordered_map<std::string, int>;
    for (int i = 0; i < (int)(sizeof kBuiltins / sizeof kBuiltins[0]); i++) (*m)[kBuiltins[i].name] = i;
  }
  auto it = m->find(n.str());
  return it == m->end() ? -1 : it->second;
}
static bool builtinOverrides(int i) { return kBuiltins[i].over; }
