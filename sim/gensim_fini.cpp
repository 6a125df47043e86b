// linked into each generator's shared object: runs its exit-time destructors
extern "C" { extern void *__dso_handle; void __cxa_finalize(void *); __attribute__((visibility("default"))) void gensim_fini() { __cxa_finalize(&__dso_handle); } }
