// Runtime of the simulator: choice tape, result block, violations, counters, virtual clock.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim
{
	using u8 = uint8_t;
	using u32 = uint32_t;
	using u64 = uint64_t;

	// ---- hashing / prng -------------------------------------------------
	inline u64 mix( u64 x )
	{
		x += 0x9E3779B97F4A7C15ull;
		x = ( x ^ ( x >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
		x = ( x ^ ( x >> 27 ) ) * 0x94D049BB133111EBull;
		return x ^ ( x >> 31 );
	}
	inline u64 mix2( u64 a, u64 b ) { return mix( a * 0x9E3779B97F4A7C15ull + mix( b ) ); }
	u64 hashStr( char const * s );

	struct Prng
	{
		u64 s{ 1 };
		explicit Prng( u64 seed = 1 ) : s{ mix( seed ) } {}
		u64 next() { s += 0x9E3779B97F4A7C15ull; return mix( s ); }
		u32 below( u32 n ) { return n ? u32( next() % n ) : 0u; }
		bool chance( u32 num, u32 den ) { return below( den ) < num; }
	};

	// ---- shared result block (survives the death of a run's process) -----
	enum class Status : u32
	{
		Running, Ok, Violation, AbortedOther, HarnessError
	};

	constexpr u32 MaxTape = 1u << 17;
	constexpr u32 MaxCounters = 256;
	constexpr u32 MaxKnown = 64;
	constexpr u32 MaxLog = 1u << 18;

	struct Shared
	{
		Status status;
		u32 ntape;
		u32 tape[MaxTape];
		char prop[8];
		char cls[48];
		char key[160];
		char msg[4096];
		u64 traceHash;
		u64 traceLen;
		u64 stateHash;
		u64 steps;
		u64 vtime;
		u32 ncounters;
		char cname[MaxCounters][40];
		u64 cval[MaxCounters];
		u64 known[MaxKnown];
		// optional log of the run (replay only)
		u32 logLen;
		char log[MaxLog];
	};
	extern Shared * sh;

	// ---- run configuration ------------------------------------------------
	struct RunCfg
	{
		std::string prop;          // property being decided
		bool replay{ false };      // take choices from the tape
		std::vector< u32 > tape;   // replay tape
		u64 seed{ 0 };
		bool verbose{ false };     // log commands and choices
		bool keepGoing{ false };   // (debug) report violations but go on
		u32 addrMode{ 0 }, handleMode{ 0 };
		u64 addrSeed{ 0 }, handleSeed{ 0 };
		bool addrForced{ false };
	};
	extern RunCfg cfg;

	void initRun( RunCfg const & c ); // in the process of a run, before anything else
	u32 choose( u32 n, char const * label );             // 0..n-1, 0 is benign
	bool chance( u32 num, u32 den, char const * label ); // false is benign
	inline u32 chooseRange( u32 lo, u32 hi, char const * label ) { return lo + choose( hi - lo + 1u, label ); }

	// one more element of a list which has between lo and hi of them; made so that an element and its choices can be cut out of a tape
	inline bool more( u32 have, u32 lo, u32 hi, char const * label ) { return have < lo || ( have < hi && choose( hi - have + 1u, label ) != 0 ); }
	void count( char const * name, u64 n = 1 );
	u64 counted( char const * name );
	void logf( char const * fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
	void trace( u64 v );         // canonical trace of the run
	void traceStr( char const * s );
	void stateSeen( u64 v );     // folded into the coverage hash

	// Report a broken rule. prop: property id the rule belongs to. key: stable signature.
	// Returns only if the rule does not belong to the property being decided
	// (or is a listed known finding).
	void violate( char const * prop, char const * cls, std::string const & key, char const * fmt, ... ) __attribute__( ( format( printf, 4, 5 ) ) );
	// As violate, but the run cannot go on even if the rule is of another property.
	[[noreturn]] void violateStop( char const * prop, char const * cls, std::string const & key, char const * fmt, ... ) __attribute__( ( format( printf, 4, 5 ) ) );
	[[noreturn]] void harnessError( char const * fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
	[[noreturn]] void finishOk();
	[[noreturn]] void finishAbort( char const * why );
	bool propIs( char const * p );

	struct KnownFinding
	{
		std::string prop, cls, key, text;
	};
	extern std::vector< KnownFinding > knownFindings;

	// ---- virtual time -------------------------------------------------------
	extern u64 vtime;          // ns, monotonic
	extern void ( *onWallClock )();
	extern int64_t wallOffset; // wall clock - vtime (jumps)
	extern bool clockActive;   // the interposed clock_gettime answers virtual time
	void step( u64 ns = 100 ); // a device call: advances time, checks the step bound
	void setStepLimit( u64 n );

	// ---- address space ----------------------------------------------------
	void arenaConfigure( u32 mode, u64 seed );
	struct ArenaStats { u64 allocs, frees, bytes; };
	extern ArenaStats arenaStats;

	std::string strf( char const * fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
}
