/* Memory accesses of the library are compiled with -fsanitize=thread, but linked against these call-backs instead of the
   ThreadSanitizer runtime: every access inside a team becomes a point at which the seeded scheduler of shim.c may switch members. */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
extern void shim_access(void);
void __tsan_init(void){} void __tsan_func_entry(void*p){} void __tsan_func_exit(void){}
#define A(n) void __tsan_read##n(void*p){shim_access();} void __tsan_write##n(void*p){shim_access();} void __tsan_unaligned_read##n(void*p){shim_access();} void __tsan_unaligned_write##n(void*p){shim_access();} void __tsan_volatile_read##n(void*p){shim_access();} void __tsan_volatile_write##n(void*p){shim_access();} void __tsan_read_write##n(void*p){shim_access();} void __tsan_unaligned_read_write##n(void*p){shim_access();}
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void*p,size_t n){shim_access();} void __tsan_write_range(void*p,size_t n){shim_access();} void __tsan_vptr_update(void**a,void*b){} void __tsan_vptr_read(void**a){}
#define T(b,t) \
 t __tsan_atomic##b##_load(const volatile t*a,int m){ shim_access(); return __atomic_load_n(a,5);} void __tsan_atomic##b##_store(volatile t*a,t v,int m){ shim_access(); __atomic_store_n(a,v,5);} t __tsan_atomic##b##_exchange(volatile t*a,t v,int m){ shim_access(); return __atomic_exchange_n(a,v,5);} \
 t __tsan_atomic##b##_fetch_add(volatile t*a,t v,int m){ shim_access(); return __atomic_fetch_add(a,v,5);} t __tsan_atomic##b##_fetch_sub(volatile t*a,t v,int m){ shim_access(); return __atomic_fetch_sub(a,v,5);} t __tsan_atomic##b##_fetch_and(volatile t*a,t v,int m){ shim_access(); return __atomic_fetch_and(a,v,5);} t __tsan_atomic##b##_fetch_or(volatile t*a,t v,int m){ shim_access(); return __atomic_fetch_or(a,v,5);} t __tsan_atomic##b##_fetch_xor(volatile t*a,t v,int m){ shim_access(); return __atomic_fetch_xor(a,v,5);} t __tsan_atomic##b##_fetch_nand(volatile t*a,t v,int m){ shim_access(); return __atomic_fetch_nand(a,v,5);} \
 int __tsan_atomic##b##_compare_exchange_strong(volatile t*a,t*c,t v,int m,int n){ shim_access(); return __atomic_compare_exchange_n(a,c,v,0,5,5);} int __tsan_atomic##b##_compare_exchange_weak(volatile t*a,t*c,t v,int m,int n){ shim_access(); return __atomic_compare_exchange_n(a,c,v,0,5,5);} t __tsan_atomic##b##_compare_exchange_val(volatile t*a,t c,t v,int m,int n){ shim_access(); __atomic_compare_exchange_n(a,&c,v,0,5,5); return c;}
T(8,uint8_t) T(16,uint16_t) T(32,uint32_t) T(64,uint64_t)
void __tsan_atomic_thread_fence(int m){ __atomic_thread_fence(5);} void __tsan_atomic_signal_fence(int m){}
