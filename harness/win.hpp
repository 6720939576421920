// Force-included (-include) for the Windows configuration: boost/signals2/mutex.hpp
// then selects detail/lwm_win32_cs.hpp, whose five imported functions are defined
// here with the documented meaning of a critical section (recursive, owned by a
// thread), on the executor's recursive mutexes.
#pragma once
#define SX_WIN 1
#include "sx.h"
#include <boost/config.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/make_shared.hpp>
#include <boost/assert.hpp>
#include <pthread.h>
#include <stdlib.h>
// the documented layout; all of it is written at initialisation and deletion
struct _RTL_CRITICAL_SECTION { struct Model { pthread_mutex_t m; } *p; long lockCount, recursionCount; void *owningThread, *lockSemaphore; unsigned long spinCount; };
#pragma push_macro("BOOST_HAS_PTHREADS")
#pragma push_macro("BOOST_HAS_WINTHREADS")
#undef BOOST_HAS_PTHREADS
#define BOOST_HAS_WINTHREADS
#define __declspec(x)
#define __stdcall
#define _WIN32_WINNT 0x0601
#include <boost/signals2/mutex.hpp>
#undef __declspec
#undef __stdcall
#undef _WIN32_WINNT
#pragma pop_macro("BOOST_HAS_PTHREADS")
#pragma pop_macro("BOOST_HAS_WINTHREADS")
#ifndef BOOST_SIGNALS2_LWM_WIN32_CS_HPP
#error "the Windows mutex was not selected"
#endif
extern "C" {
__attribute__((noinline)) void InitializeCriticalSection(_RTL_CRITICAL_SECTION *c) { _RTL_CRITICAL_SECTION::Model *p = (_RTL_CRITICAL_SECTION::Model *)sx_malloc(sizeof(*c->p), 16); pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&p->m, &a); pthread_mutexattr_destroy(&a); c->p = p; c->lockCount = -1; c->recursionCount = 0; c->owningThread = c->lockSemaphore = 0; c->spinCount = 0; }
__attribute__((noinline)) void EnterCriticalSection(_RTL_CRITICAL_SECTION *c) { pthread_mutex_lock(&c->p->m); }
__attribute__((noinline)) int TryEnterCriticalSection(_RTL_CRITICAL_SECTION *c) { return pthread_mutex_trylock(&c->p->m) == 0 ? 0x100 : 0; }   // any non-zero value is success
__attribute__((noinline)) void LeaveCriticalSection(_RTL_CRITICAL_SECTION *c) { pthread_mutex_unlock(&c->p->m); }
__attribute__((noinline)) void DeleteCriticalSection(_RTL_CRITICAL_SECTION *c) { pthread_mutex_destroy(&c->p->m); sx_free(c->p); c->p = 0; c->lockCount = c->recursionCount = 0; c->owningThread = c->lockSemaphore = 0; c->spinCount = 0; }
}
