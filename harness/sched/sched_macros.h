// Redirects the concurrency primitives of the code included after this header.
#define atomic verif_atomic
#define atomic_flag verif_atomic_flag
#define atomic_thread_fence verif_atomic_thread_fence
#define thread verif_thread
#define syscall verif_syscall
#define nanosleep verif_nanosleep
#define pthread_setname_np verif_setname
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT false
