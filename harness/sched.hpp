// A controlled scheduler: the threads of a scenario are fibers of one thread, which run one at a time
// and may be preempted when they take or release a lock and when they call the device. Which one runs is
// a choice of the exploration, with a bound on the number of preemptions.
// In a tsan build the fibers are threads to ThreadSanitizer, which therefore sees exactly the
// synchronisation the library does: the scheduler's own switches are hidden from it.
#pragma once
#include "explore.hpp"
#include <cxxabi.h>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <pthread.h>
#include <errno.h>
#include <ucontext.h>

#if defined( CRG_MC_TSAN )
extern "C"
{
	void * __tsan_get_current_fiber( void );
	void * __tsan_create_fiber( unsigned flags );
	void __tsan_destroy_fiber( void * fiber );
	void __tsan_switch_to_fiber( void * fiber, unsigned flags );
	void AnnotateIgnoreReadsBegin( char const * f, int l );
	void AnnotateIgnoreReadsEnd( char const * f, int l );
	void AnnotateIgnoreWritesBegin( char const * f, int l );
	void AnnotateIgnoreWritesEnd( char const * f, int l );
}
#endif
extern "C"
{
	int __real_pthread_mutex_lock( pthread_mutex_t * );
	int __real_pthread_mutex_trylock( pthread_mutex_t * );
	int __real_pthread_mutex_unlock( pthread_mutex_t * );
	int __real_pthread_rwlock_rdlock( pthread_rwlock_t * );
	int __real_pthread_rwlock_wrlock( pthread_rwlock_t * );
	int __real_pthread_rwlock_tryrdlock( pthread_rwlock_t * );
	int __real_pthread_rwlock_trywrlock( pthread_rwlock_t * );
	int __real_pthread_rwlock_unlock( pthread_rwlock_t * );
}

namespace sched
{
	// what happens here is no business of ThreadSanitizer's
	struct Quiet
	{
#if defined( CRG_MC_TSAN )
		Quiet() { AnnotateIgnoreReadsBegin( "", 0 ); AnnotateIgnoreWritesBegin( "", 0 ); }
		~Quiet() { AnnotateIgnoreWritesEnd( "", 0 ); AnnotateIgnoreReadsEnd( "", 0 ); }
#else
		Quiet() {}
		~Quiet() {}
#endif
	};
	struct EhGlobals { void * caught; unsigned uncaught; };
	struct Lock { int owner{ -1 }; int depth{}; std::map< int, int > readers; };
	struct Fiber
	{
		ucontext_t uc{};
		void * tsan{};
		std::unique_ptr< char[] > stack;
		std::function< void() > body;
		bool done{}, started{}, shared{}, stuck{};
		void * waiting{};           // the lock the thread waits for
		EhGlobals eh{};
		std::exception_ptr thrown;
		int points{};
	};
	struct Scheduler
	{
		static constexpr size_t StackSize = 512 * 1024;
		std::vector< std::unique_ptr< Fiber > > fibers;
		std::map< void *, Lock > locks;
		Fiber host;
		int current{ -1 };
		uint64_t clock{};
		uint64_t trace{};           // hash of what ran so far
		bool abandoned{};
		static Scheduler *& active() { static Scheduler * s{}; return s; }

		static void swapEh( Fiber & from, Fiber & to )
		{
			auto g = reinterpret_cast< EhGlobals * >( abi::__cxa_get_globals() );
			from.eh = *g;
			*g = to.eh;
		}
		void toHost( bool last = false )
		{
			auto & f = *fibers[size_t( current )];
			current = -1;
			swapEh( f, host );
#if defined( CRG_MC_TSAN )
			__tsan_switch_to_fiber( host.tsan, last ? 0 : 1 );
#endif
			swapcontext( &f.uc, &host.uc );
		}
		void toFiber( int i )
		{
			auto & f = *fibers[size_t( i )];
			current = i;
			swapEh( host, f );
#if defined( CRG_MC_TSAN )
			__tsan_switch_to_fiber( f.tsan, f.started ? 1 : 0 );
#endif
			f.started = true;
			swapcontext( &host.uc, &f.uc );
		}
		static void entry( int i )
		{
			auto & s = *active();
			auto & f = *s.fibers[size_t( i )];
			try { f.body(); }
			catch ( ... ) { f.thrown = std::current_exception(); }
			f.done = true;
			s.toHost( true );
		}
		bool can( Fiber const & f, int i, void * l, bool shared )
		{
			auto it = locks.find( l );
			if ( it == locks.end() ) return true;
			if ( it->second.owner >= 0 && it->second.owner != i ) return false;
			if ( !shared )
				for ( auto & [r, n] : it->second.readers ) if ( r != i && n ) return false;
			return true;
		}
		// a point where another thread may run
		void point()
		{
			++fibers[size_t( current )]->points;
			toHost();
		}
		static bool inFiber() { return active() && active()->current >= 0; }
		// runs the threads until they all end
		void run( mc::Choices & ch, std::vector< std::function< void() > > bodies, int preemptions )
		{
			active() = this;
			for ( auto & b : bodies )
			{
				fibers.push_back( std::make_unique< Fiber >() );
				auto & f = *fibers.back();
				f.body = std::move( b );
				f.stack = takeStack();
				getcontext( &f.uc );
				f.uc.uc_stack.ss_sp = f.stack.get();
				f.uc.uc_stack.ss_size = StackSize;
				f.uc.uc_link = nullptr;
				makecontext( &f.uc, reinterpret_cast< void ( * )() >( &Scheduler::entry ), 1, int( fibers.size() - 1 ) );
#if defined( CRG_MC_TSAN )
				f.tsan = __tsan_create_fiber( 0 );
#endif
			}
#if defined( CRG_MC_TSAN )
			host.tsan = __tsan_get_current_fiber();
#endif
			int last = -1, preempted = 0;
			std::exception_ptr stop;
			bool dead = false;
			while ( true )
			{
				std::vector< int > on;
				bool left = false;
				for ( int i = 0; i < int( fibers.size() ); ++i )
				{
					auto & f = *fibers[size_t( i )];
					if ( f.done ) continue;
					left = true;
					if ( f.waiting && ( f.stuck || !can( f, i, f.waiting, f.shared ) ) ) continue;
					if ( i == last ) on.insert( on.begin(), i );
					else on.push_back( i );
				}
				if ( !left ) break;
				if ( on.empty() ) { dead = true; break; }
				bool running = on[0] == last;
				int k = 0;
				if ( !stop && on.size() > 1 && ( !running || preempted < preemptions ) )
				{
					try { k = ch.pick( int( on.size() ), running ? "preempt" : "run" ); }
					catch ( ... ) { stop = std::current_exception(); }  // (the threads end before the exploration goes on)
				}
				if ( running && k ) ++preempted;
				last = on[size_t( k )];
				trace = trace * 1000003u + uint64_t( last ) + 7u;
				++clock;
				mc::step();
				toFiber( last );
			}
			if ( dead )
			{
				std::string m = "deadlock:";
				for ( size_t i = 0; i < fibers.size(); ++i )
					if ( !fibers[i]->done ) m += " thread " + std::to_string( i ) + " waits for a lock held by thread " + std::to_string( locks[fibers[i]->waiting].owner );
				abandoned = true;
				// the locks are released, for the executions to come
				for ( auto & [l, o] : locks )
					for ( ; o.owner >= 0 && o.depth; --o.depth ) __real_pthread_mutex_unlock( static_cast< pthread_mutex_t * >( l ) );
				active() = nullptr;
				if ( stop ) std::rethrow_exception( stop );
				mc::fail( m );
			}
			active() = nullptr;
			if ( stop ) std::rethrow_exception( stop );
			for ( auto & f : fibers )
				if ( f->thrown ) std::rethrow_exception( f->thrown );
		}
		~Scheduler()
		{
			active() = nullptr;
			for ( auto & f : fibers )
			{
#if defined( CRG_MC_TSAN )
				if ( f->tsan && !abandoned ) __tsan_destroy_fiber( f->tsan );
#endif
				if ( !abandoned ) pool().push_back( std::move( f->stack ) );
				else f.release();
			}
		}
		static std::vector< std::unique_ptr< char[] > > & pool() { static std::vector< std::unique_ptr< char[] > > p; return p; }
		static std::unique_ptr< char[] > takeStack()
		{
			if ( pool().empty() ) return std::unique_ptr< char[] >( new char[StackSize] );
			auto r = std::move( pool().back() );
			pool().pop_back();
			return r;
		}
		bool tryTake( void * l, bool shared )
		{
			auto & f = *fibers[size_t( current )];
			if ( !can( f, current, l, shared ) ) return false;
			auto & o = locks[l];
			if ( shared ) ++o.readers[current];
			else { o.owner = current; ++o.depth; }
			return true;
		}
		void take( void * l, bool shared, bool recursive )
		{
			auto & f = *fibers[size_t( current )];
			int me = current;
			point();
			// a lock taken again by its owner: the thread never gets it
			f.stuck = !recursive && locks.count( l ) && locks[l].owner == me;
			while ( f.stuck || !can( f, me, l, shared ) )
			{
				f.waiting = l;
				f.shared = shared;
				toHost();
			}
			f.waiting = nullptr;
			auto & o = locks[l];
			if ( shared ) ++o.readers[me];
			else { o.owner = me; ++o.depth; }
		}
		void release( void * l )
		{
			auto it = locks.find( l );
			if ( it == locks.end() ) return;
			auto & o = it->second;
			if ( o.owner == current ) { if ( !--o.depth ) locks.erase( it ); }
			else if ( auto r = o.readers.find( current ); r != o.readers.end() && !--r->second ) { o.readers.erase( r ); if ( o.readers.empty() && o.owner < 0 ) locks.erase( it ); }
		}
	};
}
