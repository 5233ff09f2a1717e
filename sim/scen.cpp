#include "scen.hpp"

namespace sim
{
	char const * scenarioRule( std::string const & p )
	{
		if ( p == "C14" ) return "A case is a seeded history of connects, disconnects, moves, destructions and (nested) emissions on two signals, with operations performed from inside listeners; non-trivial when at least one emission reached a listener.";
		if ( p == "C17" ) return "A case is a seeded history of submissions, waits with timeouts, resets and moves on up to three fences, with device calls failing; non-trivial when at least one submission was made and one wait issued.";
		if ( p == "C18" ) return "A case is a seeded history of creations, lookups and destructions through one handler and several caches, with device calls failing; non-trivial when at least one object was created and looked up again.";
		if ( p == "C09" ) return "A case is a seeded set of threads making resource and context operations, under a seeded preemptive schedule; non-trivial when at least two threads ran and one preemption took place.";
		std::string nt = "at least two frames completed their submission";
		if ( p == "C04" ) nt = "at least one operation was made while submitted work was not known to be complete";
		if ( p == "C05" || p == "C06" || p == "C07" ) nt = "at least one fault was injected";
		if ( p == "C11" ) nt = "at least one timer was read";
		if ( p == "C13" ) nt = "at least one fallback action was due";
		if ( p == "C15" ) nt = "at least one pipeline was replaced or deletion deferred";
		static std::string r;
		r = "A case is a seeded set of frame graphs with a seeded history of frames (toggles, index changes, re-recordings, pipeline replacements, waits, device faults, GPU durations); non-trivial when " + nt + ".";
		return r.c_str();
	}

	void runScenario()
	{
		u32 am = choose( 4, "address-mode" );
		u32 hm = choose( 4, "handle-mode" );
		u64 as = choose( 1u << 20, "address-seed" ), hs = choose( 1u << 20, "handle-seed" );
		if ( cfg.addrForced ) { am = cfg.addrMode; hm = cfg.handleMode; as = cfg.addrSeed; hs = cfg.handleSeed; }
		arenaConfigure( am, as );
		deviceInit( hm, hs );
		if ( propIs( "C14" ) ) scenSignal();
		else if ( propIs( "C17" ) ) scenFence();
		else if ( propIs( "C18" ) ) scenCache();
		else if ( propIs( "C09" ) ) scenThreads();
		else scenWorld();
	}
}
