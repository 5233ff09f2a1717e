#ifdef SIM_TSAN
#include "fibers.hpp"
#include <bits/stl_tree.h>
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;

namespace sim
{
	namespace
	{
		constexpr u32 T = 6;              // the driver and up to five threads
		constexpr size_t StackSize = 1u << 18;
		constexpr u32 MaxFrames = 512;
		struct VC
		{
			u32 c[T]{};
			void join( VC const & o ) { for ( u32 i = 0; i < T; ++i ) if ( o.c[i] > c[i] ) c[i] = o.c[i]; }
		};
		enum class FS { None, Ready, Blocked, Done };
		struct Fiber
		{
			ucontext_t uc;
			char * stack{};
			FS st{ FS::None };
			void const * waitsFor{};
			bool notified{};
			VC vc;
			u32 inSim{};
			void * frames[MaxFrames];
			u32 nframes{};
			u64 eh[2]{};                  // exceptions being handled
			std::function< void() > const * fn{};
			u64 access{};
			u64 preemptAt[3]{};
			u32 npreempt{};
		};
		Fiber fibers[T];
		u32 cur{ 0 };
		u32 nfib{ 0 };
		bool active{ false };
		u64 ltime{ 0 };
		u32 den{ 4 };

		// ------------------------------------------------ tables without heap
		struct Cell
		{
			u64 granule{};
			u32 w[T], r[T];
			u8 wm[T], rm[T];
			u8 freed;
			void * wpc[T], * rpc[T];
		};
		constexpr u32 NCells = 1u << 18;
		Cell * cells{};
		Cell * cell( u64 g, bool make )
		{
			u32 h = ( ( u32( g ) & 511u ) | ( u32( mix( g >> 9 ) ) << 9 ) ) & ( NCells - 1 );
			for ( u32 i = 0; i < NCells; ++i, h = ( h + 1 ) & ( NCells - 1 ) )
			{
				if ( cells[h].granule == g ) return &cells[h];
				if ( !cells[h].granule )
				{
					if ( !make ) return nullptr;
					cells[h].granule = g;
					return &cells[h];
				}
			}
			harnessError( "shadow memory full" );
		}
		struct Sync
		{
			void const * addr{};
			u32 owner{ 0xFF };
			u32 depth{ 0 };
			u32 readers[T]{};
			VC vc;
		};
		constexpr u32 NSync = 1u << 14;
		Sync * syncs{};
		Sync & syncOf( void const * a )
		{
			u32 h = u32( mix( u64( a ) ) ) & ( NSync - 1 );
			for ( u32 i = 0; i < NSync; ++i, h = ( h + 1 ) & ( NSync - 1 ) )
			{
				if ( syncs[h].addr == a ) return syncs[h];
				if ( !syncs[h].addr ) { syncs[h].addr = a; return syncs[h]; }
			}
			harnessError( "too many locks" );
		}
		bool tracing() { return active && !fibers[cur].inSim; }

		std::string where( Fiber & f, void * pc )
		{
			auto sym = []( void * p ) -> std::string
			{
				Dl_info i{};
				if ( !dladdr( p, &i ) || !i.dli_sname ) return {};
				int st = 0;
				char * d = abi::__cxa_demangle( i.dli_sname, nullptr, nullptr, &st );
				std::string r = d ? d : i.dli_sname;
				free( d );
				return r;
			};
			auto cut = []( std::string s )
			{
				auto p = s.find( '(' );
				return p == std::string::npos ? s : s.substr( 0, p );
			};
			std::string s = sym( pc );
			if ( s.compare( 0, 5, "crg::" ) == 0 ) return cut( s );
			for ( u32 i = f.nframes; i-- > 0; )
			{
				std::string n = sym( f.frames[i] );
				if ( n.compare( 0, 5, "crg::" ) == 0 ) return cut( n );
			}
			return s.empty() ? "?" : cut( s );
		}
		std::string function( void * pc )
		{
			Dl_info i{};
			if ( !dladdr( pc, &i ) || !i.dli_sname ) return "?";
			int st = 0;
			char * d = abi::__cxa_demangle( i.dli_sname, nullptr, nullptr, &st );
			std::string r = d ? d : i.dli_sname;
			free( d );
			return r.substr( 0, 120 );
		}

		void preemptNow();
		void access( void const * p, size_t n, bool write, void * pc )
		{
			if ( !tracing() ) return;
			auto & f = fibers[cur];
			u64 a = u64( p );
			if ( f.stack && a >= u64( f.stack ) && a < u64( f.stack ) + StackSize ) return;
			if ( cur )
			{
				++f.access;
				if ( f.npreempt && f.access == f.preemptAt[f.npreempt - 1] ) { --f.npreempt; preemptNow(); }
			}
			while ( n )
			{
				u64 g = a >> 3;
				u32 off = u32( a & 7 ), k = u32( std::min< size_t >( 8 - off, n ) );
				u8 m = u8( ( ( 1u << k ) - 1u ) << off );
				auto * c = cell( g, true );
				if ( c->freed & m )
				{
					++f.inSim;
					std::string me = where( f, pc );
					violateStop( "C09", "use-after-free", me, "thread %u uses freed memory in %s (%s)", cur, me.c_str(), function( pc ).c_str() );
				}
				for ( u32 t = 0; t < T; ++t )
				{
					if ( t == cur ) continue;
					bool cw = ( c->wm[t] & m ) && c->w[t] > f.vc.c[t];
					bool cr = write && ( c->rm[t] & m ) && c->r[t] > f.vc.c[t];
					if ( cw || cr )
					{
						++f.inSim;
						std::string me = where( f, pc );
						violate( "C09", "data-race", me, "thread %u %s memory in %s (%s) which thread %u %s without synchronisation in %s", cur, write ? "writes" : "reads", me.c_str(), function( pc ).c_str(), t, cw ? "wrote" : "read", function( cw ? c->wpc[t] : c->rpc[t] ).c_str() );
						finishAbort( "race" );
					}
				}
				if ( write ) { c->w[cur] = f.vc.c[cur]; c->wm[cur] |= m; c->wpc[cur] = pc; }
				else { c->r[cur] = f.vc.c[cur]; c->rm[cur] |= m; c->rpc[cur] = pc; }
				a += k;
				n -= k;
			}
		}
		void switchTo( u32 t )
		{
			if ( t == cur ) return;
			u32 from = cur;
			auto * g = reinterpret_cast< u64 * >( abi::__cxa_get_globals() );
			fibers[from].eh[0] = g[0]; fibers[from].eh[1] = g[1];
			cur = t;
			++ltime;
			swapcontext( &fibers[from].uc, &fibers[t].uc );
			g = reinterpret_cast< u64 * >( abi::__cxa_get_globals() );
			g[0] = fibers[cur].eh[0]; g[1] = fibers[cur].eh[1];
		}
		u32 ready( u32 except, u32 * out )
		{
			u32 n = 0;
			for ( u32 i = 1; i <= nfib; ++i ) if ( i != except && fibers[i].st == FS::Ready ) out[n++] = i;
			return n;
		}
		void preemptNow()
		{
			auto & f = fibers[cur];
			++f.inSim;
			u32 r[T];
			u32 n = ready( cur, r );
			if ( n )
			{
				count( "preemptions_at_memory_accesses" );
				u32 t = r[n > 1 ? choose( n, "to" ) : 0];
				trace( 0x7EAD00 + t );
				switchTo( t );
			}
			--f.inSim;
		}
		// the current thread cannot go on
		void block( void const * on )
		{
			auto & f = fibers[cur];
			++f.inSim;
			if ( !cur )
			{
				violateStop( "C09", "deadlock", "driver", "a lock is still held when no thread runs any more" );
			}
			f.st = FS::Blocked;
			f.waitsFor = on;
			u32 r[T];
			u32 n = ready( cur, r );
			if ( !n )
			{
				std::string s;
				for ( u32 i = 1; i <= nfib; ++i ) if ( fibers[i].st == FS::Blocked ) s += strf( " thread %u in %s;", i, where( fibers[i], nullptr ).c_str() );
				violateStop( "C09", "deadlock", "threads", "no thread can go on:%s", s.c_str() );
			}
			count( "blocked" );
			switchTo( r[n > 1 ? choose( n, "next" ) : 0] );
			--fibers[cur].inSim;
		}
		void wake( void const * on )
		{
			for ( u32 i = 1; i <= nfib; ++i ) if ( fibers[i].st == FS::Blocked && fibers[i].waitsFor == on ) { fibers[i].st = FS::Ready; fibers[i].waitsFor = nullptr; }
		}
		void entry()
		{
			auto & f = fibers[cur];
			try { ( *f.fn )(); }
			catch ( ... ) { ++f.inSim; violateStop( "C09", "exception", "thread", "an exception leaves a thread" ); }
			++f.inSim;
			f.st = FS::Done;
			u32 r[T];
			u32 n = ready( cur, r );
			if ( n ) switchTo( r[n > 1 ? choose( n, "next" ) : 0] );
			bool all = true;
			std::string s;
			for ( u32 i = 1; i <= nfib; ++i ) if ( fibers[i].st != FS::Done ) { all = false; s += strf( " thread %u in %s;", i, where( fibers[i], nullptr ).c_str() ); }
			if ( !all ) violateStop( "C09", "deadlock", "threads", "no thread can go on:%s", s.c_str() );
			switchTo( 0 );
			abort();
		}
		void acquire( VC const & v ) { fibers[cur].vc.join( v ); }
		void release( VC & v ) { v.join( fibers[cur].vc ); ++fibers[cur].vc.c[cur]; }
	}

	u32 threadId() { return cur; }
	u64 threadTime() { return ++ltime; }
	SimScope::SimScope() { ++fibers[cur].inSim; }
	SimScope::~SimScope() { --fibers[cur].inSim; }

	void threadPoint()
	{
		if ( !active || !cur || fibers[cur].inSim ) return;
		auto & f = fibers[cur];
		++f.inSim;
		++ltime;
		u32 r[T];
		u32 n = ready( cur, r );
		if ( n && chance( 1, den, "preempt" ) )
		{
			count( "preemptions" );
			u32 t = r[n > 1 ? choose( n, "to" ) : 0];
			trace( 0x7EAD00 + t );
			switchTo( t );
		}
		--f.inSim;
	}

	void memAlloc( void * p, size_t n )
	{
		if ( !active ) return;
		for ( u64 g = u64( p ) >> 3; g <= ( u64( p ) + n ) >> 3; ++g )
			if ( auto * c = cell( g, false ) ) { u64 gg = c->granule; memset( c, 0, sizeof *c ); c->granule = gg; }
		for ( u32 i = 0; i < NSync; ++i )
			if ( syncs[i].addr && u64( syncs[i].addr ) >= u64( p ) && u64( syncs[i].addr ) < u64( p ) + n )
			{
				auto * a = syncs[i].addr;
				syncs[i] = Sync{};
				syncs[i].addr = a;
			}
	}
	void memFree( void * p, size_t n )
	{
		if ( !active ) return;
		access( p, n, true, __builtin_return_address( 0 ) );
		for ( size_t i = 0; i + 8 <= n; i += 8 ) cell( ( u64( p ) + i ) >> 3, true )->freed = 0xFF;
	}

	void runThreads( std::vector< std::function< void() > > const & fns )
	{
		if ( fns.size() >= T ) harnessError( "too many threads" );
		__libc_single_threaded = 0;
		if ( !cells )
		{
			cells = static_cast< Cell * >( mmap( nullptr, sizeof( Cell ) * NCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
			syncs = static_cast< Sync * >( mmap( nullptr, sizeof( Sync ) * NSync, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
			for ( u32 i = 0; i < NSync; ++i ) syncs[i].owner = 0xFF;
		}
		static u32 const dens[]{ 4, 2, 10, 30 };
		den = dens[choose( 4, "preemption-rate" )];
		nfib = u32( fns.size() );
		fibers[0].vc.c[0] = 1;
		for ( u32 i = 1; i <= nfib; ++i )
		{
			auto & f = fibers[i];
			f.stack = static_cast< char * >( mmap( nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) );
			getcontext( &f.uc );
			f.uc.uc_stack.ss_sp = f.stack;
			f.uc.uc_stack.ss_size = StackSize;
			f.uc.uc_link = nullptr;
			makecontext( &f.uc, &entry, 0 );
			f.fn = &fns[i - 1];
			f.st = FS::Ready;
			f.vc = fibers[0].vc;
			f.vc.c[i] = 1;
			f.npreempt = choose( 4, "access-preemptions" );
			for ( u32 k = 0; k < f.npreempt; ++k ) f.preemptAt[k] = 1 + choose( 3000, "at" );
			std::sort( f.preemptAt, f.preemptAt + f.npreempt, []( u64 a, u64 b ) { return a > b; } );
		}
		++fibers[0].vc.c[0];
		active = true;
		switchTo( 1 + choose( nfib, "first" ) );
		for ( u32 i = 1; i <= nfib; ++i ) fibers[0].vc.join( fibers[i].vc );
		// the driver goes on alone; locks left behind are found when it takes them
	}
}

using namespace sim;

// ---------------------------------------------------------------------- locks
namespace
{
	void lockIt( void * m, bool recursive )
	{
		threadPoint();
		auto & s = syncOf( m );
		for ( ;; )
		{
			bool readers = false;
			for ( u32 t = 0; t < T; ++t ) if ( s.readers[t] ) { readers = true; if ( t == cur ) { ++fibers[cur].inSim; violateStop( "C09", "deadlock", "self", "a thread takes for itself a lock which it holds shared, in %s", where( fibers[cur], nullptr ).c_str() ); } }
			if ( s.owner == 0xFF && !readers ) break;
			if ( s.owner == cur )
			{
				if ( recursive ) { ++s.depth; return; }
				++fibers[cur].inSim;
				violateStop( "C09", "deadlock", "self", "a thread takes a lock which it already holds, in %s", where( fibers[cur], nullptr ).c_str() );
			}
			block( m );
		}
		s.owner = cur;
		s.depth = 1;
		acquire( s.vc );
		++fibers[cur].inSim; count( "locks_taken" ); --fibers[cur].inSim;
	}
	void unlockIt( void * m )
	{
		auto & s = syncOf( m );
		if ( s.owner != cur )
		{
			if ( s.readers[cur] ) { --s.readers[cur]; release( s.vc ); wake( m ); threadPoint(); return; }
			++fibers[cur].inSim;
			violateStop( "C09", "unlock", "unlock", "a thread releases a lock which it does not hold, in %s", where( fibers[cur], nullptr ).c_str() );
		}
		if ( --s.depth ) return;
		s.owner = 0xFF;
		release( s.vc );
		wake( m );
		threadPoint();
	}
	bool isRecursive( pthread_mutex_t * m ) { return ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE; }
	bool sharedIt( void * m, bool wait )
	{
		threadPoint();
		auto & s = syncOf( m );
		while ( s.owner != 0xFF )
		{
			if ( s.owner == cur ) { ++fibers[cur].inSim; violateStop( "C09", "deadlock", "self", "a thread takes shared a lock which it already holds, in %s", where( fibers[cur], nullptr ).c_str() ); }
			if ( !wait ) return false;
			block( m );
		}
		++s.readers[cur];
		acquire( s.vc );
		return true;
	}
}
extern "C"
{
	int pthread_mutex_lock( pthread_mutex_t * m ) { if ( !tracing() ) return 0; lockIt( m, isRecursive( m ) ); return 0; }
	int pthread_mutex_unlock( pthread_mutex_t * m ) { if ( !tracing() ) return 0; unlockIt( m ); return 0; }
	int pthread_mutex_trylock( pthread_mutex_t * m )
	{
		if ( !tracing() ) return 0;
		threadPoint();
		auto & s = syncOf( m );
		if ( s.owner != 0xFF && !( s.owner == cur && isRecursive( m ) ) ) return 16;
		lockIt( m, isRecursive( m ) );
		return 0;
	}
	int pthread_rwlock_wrlock( pthread_rwlock_t * m ) { if ( !tracing() ) return 0; lockIt( m, false ); return 0; }
	int pthread_rwlock_rdlock( pthread_rwlock_t * m ) { if ( !tracing() ) return 0; sharedIt( m, true ); return 0; }
	int pthread_rwlock_tryrdlock( pthread_rwlock_t * m ) { if ( !tracing() ) return 0; return sharedIt( m, false ) ? 0 : 16; }
	int pthread_rwlock_trywrlock( pthread_rwlock_t * m )
	{
		if ( !tracing() ) return 0;
		threadPoint();
		auto & s = syncOf( m );
		if ( s.owner != 0xFF ) return 16;
		for ( u32 t = 0; t < T; ++t ) if ( s.readers[t] ) return 16;
		lockIt( m, false );
		return 0;
	}
	int pthread_rwlock_unlock( pthread_rwlock_t * m ) { if ( !tracing() ) return 0; unlockIt( m ); return 0; }
	int pthread_cond_wait( pthread_cond_t * c, pthread_mutex_t * m )
	{
		if ( !tracing() ) return 0;
		auto & s = syncOf( m );
		u32 depth = s.depth;
		s.owner = 0xFF; s.depth = 0;
		release( s.vc );
		wake( m );
		block( c );
		lockIt( m, isRecursive( m ) );
		syncOf( m ).depth = depth;
		return 0;
	}
	int pthread_cond_signal( pthread_cond_t * c ) { if ( tracing() ) wake( c ), threadPoint(); return 0; }
	int pthread_cond_broadcast( pthread_cond_t * c ) { if ( tracing() ) wake( c ), threadPoint(); return 0; }
	int pthread_once( pthread_once_t * o, void ( *f )() )
	{
		auto * st = reinterpret_cast< volatile int * >( o );
		if ( !active || fibers[cur].inSim ) { if ( *st != 2 ) { *st = 1; f(); *st = 2; } return 0; }
		threadPoint();
		auto & s = syncOf( o );
		while ( *st == 1 ) block( o );
		if ( *st == 0 )
		{
			*st = 1;
			f();
			*st = 2;
			release( syncOf( o ).vc );
			wake( o );
		}
		else acquire( s.vc );
		return 0;
	}
	// function-local statics
	using GuardT = __cxxabiv1::__guard;
	int __cxa_guard_acquire( GuardT * g )
	{
		auto * b = reinterpret_cast< volatile u8 * >( g );
		if ( b[0] ) { if ( tracing() ) acquire( syncOf( g ).vc ); return 0; }
		if ( tracing() )
		{
			threadPoint();
			while ( b[1] && !b[0] ) block( g );
			if ( b[0] ) { acquire( syncOf( g ).vc ); return 0; }
		}
		b[1] = 1;
		return 1;
	}
	void __cxa_guard_release( GuardT * g ) noexcept
	{
		auto * b = reinterpret_cast< volatile u8 * >( g );
		b[0] = 1; b[1] = 0;
		if ( tracing() ) { release( syncOf( g ).vc ); wake( g ); }
	}
	void __cxa_guard_abort( GuardT * g ) noexcept
	{
		auto * b = reinterpret_cast< volatile u8 * >( g );
		b[1] = 0;
		if ( tracing() ) wake( g );
	}

	// exceptions are allocated inside the C++ library
	void * __cxa_allocate_exception( size_t n ) noexcept
	{
		using Fn = void *( * )( size_t );
		static Fn real{};
		if ( !real ) real = reinterpret_cast< Fn >( dlsym( RTLD_NEXT, "__cxa_allocate_exception" ) );
		void * p = real( n );
		memAlloc( p, n );
		return p;
	}

	// ------------------------------------------------------------ instrumentation
	void __tsan_init() {}
	void __tsan_func_entry( void * pc ) { if ( active && !fibers[cur].inSim ) { auto & f = fibers[cur]; if ( f.nframes < MaxFrames ) f.frames[f.nframes] = pc; ++f.nframes; } }
	void __tsan_func_exit() { if ( active && !fibers[cur].inSim ) { auto & f = fibers[cur]; if ( f.nframes ) --f.nframes; } }
	void __tsan_ignore_thread_begin() {}
	void __tsan_ignore_thread_end() {}
#define RW( n ) \
	void __tsan_read##n( void * p ) { access( p, n, false, __builtin_return_address( 0 ) ); } \
	void __tsan_write##n( void * p ) { access( p, n, true, __builtin_return_address( 0 ) ); } \
	void __tsan_unaligned_read##n( void * p ) { access( p, n, false, __builtin_return_address( 0 ) ); } \
	void __tsan_unaligned_write##n( void * p ) { access( p, n, true, __builtin_return_address( 0 ) ); } \
	void __tsan_read_write##n( void * p ) { access( p, n, false, __builtin_return_address( 0 ) ); access( p, n, true, __builtin_return_address( 0 ) ); } \
	void __tsan_unaligned_read_write##n( void * p ) { access( p, n, false, __builtin_return_address( 0 ) ); access( p, n, true, __builtin_return_address( 0 ) ); }
	RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
	void __tsan_vptr_update( void ** p, void * v ) { if ( *p != v ) access( p, 8, true, __builtin_return_address( 0 ) ); }
	void __tsan_vptr_read( void ** p ) { access( p, 8, false, __builtin_return_address( 0 ) ); }
	void __tsan_read_range( void * p, size_t n ) { access( p, n, false, __builtin_return_address( 0 ) ); }
	void __tsan_write_range( void * p, size_t n ) { access( p, n, true, __builtin_return_address( 0 ) ); }
	void * __tsan_memcpy( void * d, void const * s, size_t n ) { access( s, n, false, __builtin_return_address( 0 ) ); access( d, n, true, __builtin_return_address( 0 ) ); return memcpy( d, s, n ); }
	void * __tsan_memmove( void * d, void const * s, size_t n ) { access( s, n, false, __builtin_return_address( 0 ) ); access( d, n, true, __builtin_return_address( 0 ) ); return memmove( d, s, n ); }
	void * __tsan_memset( void * d, int v, size_t n ) { access( d, n, true, __builtin_return_address( 0 ) ); return memset( d, v, n ); }
}

namespace
{
	// atomics: sequentially consistent, ordering as asked for
	struct AtomicOp
	{
		bool on;
		Sync * s{};
		AtomicOp( void const volatile * a, int mo, bool rd, bool wr ) : on{ tracing() }
		{
			if ( !on ) return;
			threadPoint();
			s = &syncOf( const_cast< void const * >( a ) );
			bool acq = mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
			bool rel = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
			if ( rd && acq ) acquire( s->vc );
			if ( wr && rel ) release( s->vc );
		}
	};
}
extern "C"
{
#define AT( bits, type ) \
	type __tsan_atomic##bits##_load( type const volatile * a, int mo ) { AtomicOp o{ a, mo, true, false }; return __atomic_load_n( a, __ATOMIC_SEQ_CST ); } \
	void __tsan_atomic##bits##_store( type volatile * a, type v, int mo ) { AtomicOp o{ a, mo, false, true }; __atomic_store_n( a, v, __ATOMIC_SEQ_CST ); } \
	type __tsan_atomic##bits##_exchange( type volatile * a, type v, int mo ) { AtomicOp o{ a, mo, true, true }; return __atomic_exchange_n( a, v, __ATOMIC_SEQ_CST ); } \
	type __tsan_atomic##bits##_fetch_add( type volatile * a, type v, int mo ) { AtomicOp o{ a, mo, true, true }; return __atomic_fetch_add( a, v, __ATOMIC_SEQ_CST ); } \
	type __tsan_atomic##bits##_fetch_sub( type volatile * a, type v, int mo ) { AtomicOp o{ a, mo, true, true }; return __atomic_fetch_sub( a, v, __ATOMIC_SEQ_CST ); } \
	type __tsan_atomic##bits##_fetch_and( type volatile * a, type v, int mo ) { AtomicOp o{ a, mo, true, true }; return __atomic_fetch_and( a, v, __ATOMIC_SEQ_CST ); } \
	type __tsan_atomic##bits##_fetch_or( type volatile * a, type v, int mo ) { AtomicOp o{ a, mo, true, true }; return __atomic_fetch_or( a, v, __ATOMIC_SEQ_CST ); } \
	type __tsan_atomic##bits##_fetch_xor( type volatile * a, type v, int mo ) { AtomicOp o{ a, mo, true, true }; return __atomic_fetch_xor( a, v, __ATOMIC_SEQ_CST ); } \
	type __tsan_atomic##bits##_fetch_nand( type volatile * a, type v, int mo ) { AtomicOp o{ a, mo, true, true }; return __atomic_fetch_nand( a, v, __ATOMIC_SEQ_CST ); } \
	int __tsan_atomic##bits##_compare_exchange_strong( type volatile * a, type * e, type v, int mo, int ) { AtomicOp o{ a, mo, true, true }; return __atomic_compare_exchange_n( a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
	int __tsan_atomic##bits##_compare_exchange_weak( type volatile * a, type * e, type v, int mo, int ) { AtomicOp o{ a, mo, true, true }; return __atomic_compare_exchange_n( a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
	type __tsan_atomic##bits##_compare_exchange_val( type volatile * a, type e, type v, int mo, int ) { AtomicOp o{ a, mo, true, true }; __atomic_compare_exchange_n( a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); return e; }
	AT( 8, u8 ) AT( 16, uint16_t ) AT( 32, u32 ) AT( 64, u64 )
	void __tsan_atomic_thread_fence( int ) {}
	void __tsan_atomic_signal_fence( int ) {}
}

// ------------------------------------------------ trees, of which the library changes links
#define NEXT( type, name ) static type real{}; if ( !real ) real = reinterpret_cast< type >( dlsym( RTLD_NEXT, name ) )
namespace std
{
	using NB = _Rb_tree_node_base;
	void _Rb_tree_insert_and_rebalance( bool const l, NB * x, NB * p, NB & h ) throw()
	{
		auto * ra = __builtin_return_address( 0 );
		access( x, sizeof( NB ), true, ra ); access( p, sizeof( NB ), true, ra ); access( &h, sizeof( NB ), true, ra );
		using Fn = void( * )( bool, NB *, NB *, NB & );
		NEXT( Fn, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_" );
		real( l, x, p, h );
	}
	NB * _Rb_tree_rebalance_for_erase( NB * const z, NB & h ) throw()
	{
		auto * ra = __builtin_return_address( 0 );
		access( z, sizeof( NB ), true, ra ); access( &h, sizeof( NB ), true, ra );
		using Fn = NB *( * )( NB *, NB & );
		NEXT( Fn, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_" );
		return real( z, h );
	}
	NB * _Rb_tree_increment( NB * x ) throw() { access( x, sizeof( NB ), false, __builtin_return_address( 0 ) ); using Fn = NB *( * )( NB * ); NEXT( Fn, "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base" ); return real( x ); }
	NB const * _Rb_tree_increment( NB const * x ) throw() { return _Rb_tree_increment( const_cast< NB * >( x ) ); }
	NB * _Rb_tree_decrement( NB * x ) throw() { access( x, sizeof( NB ), false, __builtin_return_address( 0 ) ); using Fn = NB *( * )( NB * ); NEXT( Fn, "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base" ); return real( x ); }
	NB const * _Rb_tree_decrement( NB const * x ) throw() { return _Rb_tree_decrement( const_cast< NB * >( x ) ); }
}
#endif
