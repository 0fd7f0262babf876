// The locks of the library, for the controlled scheduler (linked with --wrap).
#include "sched.hpp"
using sched::Scheduler;
namespace
{
	bool recursive( pthread_mutex_t * m ) { return ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE; }
}
extern "C"
{
	int __wrap_pthread_mutex_lock( pthread_mutex_t * m )
	{
		if ( Scheduler::inFiber() ) { sched::Quiet q; Scheduler::active()->take( m, false, recursive( m ) ); }
		return __real_pthread_mutex_lock( m );
	}
	int __wrap_pthread_mutex_trylock( pthread_mutex_t * m )
	{
		if ( Scheduler::inFiber() )
		{
			sched::Quiet q;
			auto & s = *Scheduler::active();
			s.point();
			auto it = s.locks.find( m );
			if ( it != s.locks.end() && it->second.owner == s.current && !recursive( m ) ) return EBUSY;
			if ( !s.tryTake( m, false ) ) return EBUSY;
		}
		return __real_pthread_mutex_trylock( m );
	}
	int __wrap_pthread_mutex_unlock( pthread_mutex_t * m )
	{
		auto r = __real_pthread_mutex_unlock( m );
		if ( Scheduler::inFiber() ) { sched::Quiet q; Scheduler::active()->release( m ); }
		return r;
	}
	int __wrap_pthread_rwlock_rdlock( pthread_rwlock_t * m )
	{
		if ( Scheduler::inFiber() ) { sched::Quiet q; Scheduler::active()->take( m, true, false ); }
		return __real_pthread_rwlock_rdlock( m );
	}
	int __wrap_pthread_rwlock_wrlock( pthread_rwlock_t * m )
	{
		if ( Scheduler::inFiber() ) { sched::Quiet q; Scheduler::active()->take( m, false, false ); }
		return __real_pthread_rwlock_wrlock( m );
	}
	int __wrap_pthread_rwlock_tryrdlock( pthread_rwlock_t * m )
	{
		if ( Scheduler::inFiber() ) { sched::Quiet q; Scheduler::active()->point(); if ( !Scheduler::active()->tryTake( m, true ) ) return EBUSY; }
		return __real_pthread_rwlock_tryrdlock( m );
	}
	int __wrap_pthread_rwlock_trywrlock( pthread_rwlock_t * m )
	{
		if ( Scheduler::inFiber() ) { sched::Quiet q; Scheduler::active()->point(); if ( !Scheduler::active()->tryTake( m, false ) ) return EBUSY; }
		return __real_pthread_rwlock_trywrlock( m );
	}
	int __wrap_pthread_rwlock_unlock( pthread_rwlock_t * m )
	{
		auto r = __real_pthread_rwlock_unlock( m );
		if ( Scheduler::inFiber() ) { sched::Quiet q; Scheduler::active()->release( m ); }
		return r;
	}
}
