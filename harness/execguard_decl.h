/* given to the code generator by its documented hooks SLJIT_MALLOC_EXEC and SLJIT_FREE_EXEC: see mc.h users of option execguard */
#include <stddef.h>
void *mc_exec_alloc(size_t n); void mc_exec_free(void *p);
#define SLJIT_MALLOC_EXEC(size, exec_allocator_data) mc_exec_alloc(size)
#define SLJIT_FREE_EXEC(ptr, exec_allocator_data) mc_exec_free(ptr)
