#include "rt.hpp"
#ifdef SIM_TSAN
#include "fibers.hpp"
#endif
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <new>

namespace sim
{
	Shared * sh{};
	RunCfg cfg{};
	std::vector< KnownFinding > knownFindings;
	u64 vtime{ 1000000000ull };
	void ( *onWallClock )(){};
	int64_t wallOffset{ 1700000000ll * 1000000000ll };
	bool clockActive{ false };
	ArenaStats arenaStats{};

	namespace
	{
		Prng tapePrng;
		u64 stepLimit{ 4000000ull };
		u64 nsteps{};
	}

	u64 hashStr( char const * s )
	{
		u64 h = 1469598103934665603ull;
		for ( ; *s; ++s ) h = ( h ^ u8( *s ) ) * 1099511628211ull;
		return mix( h );
	}

	bool propIs( char const * p ) { return cfg.prop == p; }

	std::string strf( char const * fmt, ... )
	{
		char buf[2048];
		va_list ap;
		va_start( ap, fmt );
		vsnprintf( buf, sizeof buf, fmt, ap );
		va_end( ap );
		return buf;
	}

	void initRun( RunCfg const & c )
	{
		cfg = c;
		sh->status = Status::Running;
		sh->ntape = 0;
		sh->cls[0] = sh->key[0] = sh->msg[0] = sh->prop[0] = 0;
		sh->traceHash = 0x1234;
		sh->traceLen = 0;
		sh->stateHash = 0x77;
		sh->steps = 0;
		sh->vtime = 0;
		sh->ncounters = 0;
		memset( sh->cval, 0, sizeof sh->cval );
		memset( sh->known, 0, sizeof sh->known );
		sh->logLen = 0;
		tapePrng = Prng{ c.seed };
		nsteps = 0;
		vtime = 1000000000ull;
		onWallClock = {};
		wallOffset = 1700000000ll * 1000000000ll;
		clockActive = true;
		// CPU-time watchdog: a run that spins without device calls
		struct itimerval it{};
		it.it_value.tv_sec = 20;
		setitimer( ITIMER_VIRTUAL, &it, nullptr );
	}

	u32 choose( u32 n, char const * label )
	{
		if ( n == 0 ) harnessError( "choose(0) at %s", label );
		u32 v;
		u32 pos = sh->ntape;
		if ( cfg.replay )
			v = pos < cfg.tape.size() ? cfg.tape[pos] % n : 0u;
		else
			v = n == 1 ? 0 : u32( tapePrng.next() % n );
		if ( pos >= MaxTape ) harnessError( "tape overflow at %s", label );
		sh->tape[pos] = v;
		sh->ntape = pos + 1;
		if ( cfg.verbose ) logf( "  choice[%u] %s: %u of %u\n", pos, label, v, n );
		return v;
	}

	bool chance( u32 num, u32 den, char const * label )
	{
		if ( num == 0 ) return false;
		if ( num >= den ) return true;
		return choose( den, label ) >= den - num;
	}

	void count( char const * name, u64 n )
	{
		for ( u32 i = 0; i < sh->ncounters; ++i )
			if ( !strncmp( sh->cname[i], name, sizeof sh->cname[0] - 1 ) ) { sh->cval[i] += n; return; }
		if ( sh->ncounters < MaxCounters )
		{
			strncpy( sh->cname[sh->ncounters], name, sizeof sh->cname[0] - 1 );
			sh->cval[sh->ncounters++] = n;
		}
	}

	u64 counted( char const * name )
	{
		for ( u32 i = 0; i < sh->ncounters; ++i )
			if ( !strncmp( sh->cname[i], name, sizeof sh->cname[0] - 1 ) ) return sh->cval[i];
		return 0;
	}

	void logf( char const * fmt, ... )
	{
		if ( !cfg.verbose ) return;
		char buf[2048];
		va_list ap;
		va_start( ap, fmt );
		int n = vsnprintf( buf, sizeof buf, fmt, ap );
		va_end( ap );
		if ( n < 0 ) return;
		if ( n >= int( sizeof buf ) ) n = sizeof buf - 1;
		if ( sh->logLen + u32( n ) < MaxLog ) { memcpy( sh->log + sh->logLen, buf, size_t( n ) ); sh->logLen += u32( n ); }
		(void)!write( 2, buf, size_t( n ) );
	}

	void trace( u64 v )
	{
		sh->traceHash = mix2( sh->traceHash, v );
		++sh->traceLen;
	}
	void traceStr( char const * s ) { trace( hashStr( s ) ); }
	void stateSeen( u64 v ) { sh->stateHash = mix2( sh->stateHash, v ); }

	[[noreturn]] static void leave( Status st )
	{
		sh->steps = nsteps;
		sh->vtime = vtime;
		sh->status = st;
		_exit( 0 );
	}

	void finishOk() { leave( Status::Ok ); }
	void finishAbort( char const * why )
	{
		snprintf( sh->msg, sizeof sh->msg, "%s", why );
		leave( Status::AbortedOther );
	}

	void harnessError( char const * fmt, ... )
	{
		va_list ap;
		va_start( ap, fmt );
		vsnprintf( sh->msg, sizeof sh->msg, fmt, ap );
		va_end( ap );
		leave( Status::HarnessError );
	}

	static bool report( char const * prop, char const * cls, std::string const & key, char const * msg )
	{
		logf( "!! [%s] %s (%s): %s\n", prop, cls, key.c_str(), msg );
		if ( cfg.prop != prop ) { count( "rules_broken_of_other_properties" ); return false; }
		for ( size_t i = 0; i < knownFindings.size() && i < MaxKnown; ++i )
		{
			auto & k = knownFindings[i];
			if ( k.prop == prop && k.cls == cls && k.key == key ) { ++sh->known[i]; return false; }
		}
		if ( cfg.keepGoing ) return false;
		strncpy( sh->prop, prop, sizeof sh->prop - 1 );
		strncpy( sh->cls, cls, sizeof sh->cls - 1 );
		strncpy( sh->key, key.c_str(), sizeof sh->key - 1 );
		strncpy( sh->msg, msg, sizeof sh->msg - 1 );
		leave( Status::Violation );
	}

	void violate( char const * prop, char const * cls, std::string const & key, char const * fmt, ... )
	{
		char buf[2048];
		va_list ap;
		va_start( ap, fmt );
		vsnprintf( buf, sizeof buf, fmt, ap );
		va_end( ap );
		report( prop, cls, key, buf );
	}

	void violateStop( char const * prop, char const * cls, std::string const & key, char const * fmt, ... )
	{
		char buf[2048];
		va_list ap;
		va_start( ap, fmt );
		vsnprintf( buf, sizeof buf, fmt, ap );
		va_end( ap );
		report( prop, cls, key, buf );
		finishAbort( buf );
	}

	void setStepLimit( u64 n ) { stepLimit = n; }

	void step( u64 ns )
	{
		vtime += ns;
		if ( ++nsteps > stepLimit )
			violateStop( cfg.prop.c_str(), "no-progress", "steps", "more than %llu device calls in one run", ( unsigned long long )stepLimit );
	}

	// ------------------------------------------------------------------ arena
	namespace
	{
		constexpr uintptr_t ArenaBase = 0x200000000000ull;
		constexpr size_t SubSize = 1ull << 26; // 64 MiB
		constexpr u32 SubCount = 64;
		constexpr u32 RedZone = 32;

		struct Hdr { u64 magic; u64 size; u64 cls; u64 pad; };
		constexpr u64 MagicLive = 0x51A0C0DE51A0C0DEull;
		constexpr u64 MagicFree = 0xF4EEF4EEF4EEF4EEull;

		bool arenaMapped{ false };
		u32 amode{ 0 };
		Prng aprng;
		uintptr_t curUp[SubCount], curDown[SubCount];
		Hdr * freeList[64];
		// the driver allocates in the first eight parts, a run in the others, so that
		// the addresses of a run do not depend on what the driver did before
		u32 firstSub{ 0 }, numSub{ 8 };
		uintptr_t runBase{ ArenaBase };

		void mapArena()
		{
			if ( arenaMapped ) return;
			void * p = mmap( reinterpret_cast< void * >( ArenaBase ), SubSize * SubCount, PROT_READ | PROT_WRITE
				, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0 );
			if ( p != reinterpret_cast< void * >( ArenaBase ) )
			{
				static char const m[] = "cannot map the arena\n";
				(void)!write( 2, m, sizeof m - 1 );
				_exit( 97 );
			}
			arenaMapped = true;
			for ( u32 i = 0; i < SubCount; ++i )
			{
				curUp[i] = ArenaBase + SubSize * i;
				curDown[i] = ArenaBase + SubSize * ( i + 1 );
			}
		}
	}

	void arenaConfigure( u32 mode, u64 seed )
	{
		mapArena();
		amode = mode;
		aprng = Prng{ seed };
		firstSub = 8;
		numSub = SubCount - 8;
		runBase = ArenaBase + SubSize * firstSub;
		for ( auto & f : freeList ) f = nullptr;
	}
}

#if defined( __has_feature )
#	if __has_feature( address_sanitizer )
#		define SIM_ASAN 1
#	endif
#endif
#ifdef SIM_ASAN
extern "C" void __asan_poison_memory_region( void const volatile *, size_t );
extern "C" void __asan_unpoison_memory_region( void const volatile *, size_t );
#	define POISON( p, n ) __asan_poison_memory_region( p, n )
#	define UNPOISON( p, n ) __asan_unpoison_memory_region( p, n )
#else
#	define POISON( p, n ) ( (void)0 )
#	define UNPOISON( p, n ) ( (void)0 )
#endif

namespace sim
{
	// layout of a block: [Hdr 32][user size rounded to 16][redzone 32]
	static void * arenaAlloc( size_t size )
	{
		mapArena();
		++arenaStats.allocs;
		arenaStats.bytes += size;
		size_t usz = ( size + 15 ) & ~size_t( 15 );
		if ( usz == 0 ) usz = 16;
		u32 cls = 0;
		while ( ( size_t( 16 ) << cls ) < usz ) ++cls;
		usz = size_t( 16 ) << cls;
		Hdr * h{};
		// mode 3: last freed block of the class is used first
		if ( amode == 3 && cls < 64 && freeList[cls] )
		{
			h = freeList[cls];
			UNPOISON( h, sizeof( Hdr ) + usz );
			memcpy( &freeList[cls], reinterpret_cast< char * >( h ) + sizeof( Hdr ), sizeof( Hdr * ) );
		}
		else
		{
			size_t total = sizeof( Hdr ) + usz + RedZone;
			u32 sub = firstSub;
			if ( amode == 2 ) sub = firstSub + aprng.below( numSub );
			uintptr_t at;
			for ( ;; )
			{
				if ( curDown[sub] - curUp[sub] < total ) { sub = firstSub + ( sub + 1 - firstSub ) % numSub; continue; }
				if ( amode == 1 || ( amode == 2 && ( aprng.next() & 1 ) ) )
				{
					curDown[sub] -= total;
					at = curDown[sub];
				}
				else
				{
					at = curUp[sub];
					curUp[sub] += total;
				}
				break;
			}
			h = reinterpret_cast< Hdr * >( at );
		}
		char * user = reinterpret_cast< char * >( h ) + sizeof( Hdr );
#ifdef SIM_TSAN
		memAlloc( user, size );
#endif
		h->magic = MagicLive;
		h->size = size;
		h->cls = cls;
		memset( user, 0xA5, usz );
		POISON( h, sizeof( Hdr ) );
		POISON( user + size, usz - size + RedZone );
		return user;
	}

	static void arenaFree( void * p )
	{
		if ( !p ) return;
		uintptr_t a = uintptr_t( p );
		if ( a < ArenaBase || a >= ArenaBase + SubSize * SubCount )
		{
			static char const m[] = "free of foreign pointer\n";
			(void)!write( 2, m, sizeof m - 1 );
			abort();
		}
		Hdr * h = reinterpret_cast< Hdr * >( reinterpret_cast< char * >( p ) - sizeof( Hdr ) );
		UNPOISON( h, sizeof( Hdr ) );
		if ( h->magic != MagicLive )
		{
			static char const m[] = "double free\n";
			(void)!write( 2, m, sizeof m - 1 );
			abort();
		}
		++arenaStats.frees;
#ifdef SIM_TSAN
		memFree( p, h->size );
#endif
		h->magic = MagicFree;
		size_t usz = size_t( 16 ) << h->cls;
		UNPOISON( p, usz );
		memset( p, 0xDD, usz );
		if ( amode == 3 && a >= runBase )
		{
			memcpy( p, &freeList[h->cls], sizeof( Hdr * ) );
			freeList[h->cls] = h;
		}
		POISON( h, sizeof( Hdr ) + usz );
	}
}

void * operator new( size_t n ) { return sim::arenaAlloc( n ); }
void * operator new[]( size_t n ) { return sim::arenaAlloc( n ); }
void * operator new( size_t n, std::nothrow_t const & ) noexcept { return sim::arenaAlloc( n ); }
void * operator new[]( size_t n, std::nothrow_t const & ) noexcept { return sim::arenaAlloc( n ); }
void operator delete( void * p ) noexcept { sim::arenaFree( p ); }
void operator delete[]( void * p ) noexcept { sim::arenaFree( p ); }
void operator delete( void * p, size_t ) noexcept { sim::arenaFree( p ); }
void operator delete[]( void * p, size_t ) noexcept { sim::arenaFree( p ); }
void operator delete( void * p, std::nothrow_t const & ) noexcept { sim::arenaFree( p ); }
void operator delete[]( void * p, std::nothrow_t const & ) noexcept { sim::arenaFree( p ); }

// ------------------------------------------------------------------ clocks
// std::chrono reads the clocks through this function.
extern "C" int clock_gettime( clockid_t id, struct timespec * ts )
{
	if ( !sim::clockActive )
		return int( syscall( SYS_clock_gettime, id, ts ) );
	sim::vtime += 50;
	int64_t t;
	switch ( id )
	{
	case CLOCK_REALTIME:
	case CLOCK_REALTIME_COARSE:
		// the wall clock may be set at any time
		if ( sim::onWallClock ) sim::onWallClock();
		t = int64_t( sim::vtime ) + sim::wallOffset;
		break;
	default:
		t = int64_t( sim::vtime );
		break;
	}
	ts->tv_sec = t / 1000000000ll;
	ts->tv_nsec = t % 1000000000ll;
	return 0;
}
