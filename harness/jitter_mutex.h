// pthread_mutex_lock/unlock of the whole program with jitter; include in one file
#pragma once
#include "jitter.h"
#ifndef __SANITIZE_THREAD__
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { static int (*real)(pthread_mutex_t*) = nullptr; if (!real) real = reinterpret_cast<int (*)(pthread_mutex_t*)>(::dlsym(RTLD_NEXT, "pthread_mutex_lock")); jit::jitter(); return real(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { static int (*real)(pthread_mutex_t*) = nullptr; if (!real) real = reinterpret_cast<int (*)(pthread_mutex_t*)>(::dlsym(RTLD_NEXT, "pthread_mutex_unlock")); int e = real(m); jit::jitter(); return e; }
}
#endif
