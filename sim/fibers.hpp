// Simulated threads: cooperative fibers under a seeded preemptive scheduler, with
// the data races of the instrumented code found by vector clocks (tsan build).
#pragma once
#include "rt.hpp"
#include <functional>

namespace sim
{
	// runs the functions as threads to their end
	void runThreads( std::vector< std::function< void() > > const & fns );
	u32 threadId();          // 0 outside of the threads, else 1..n
	u64 threadTime();        // logical time, increases with each scheduling point
	void threadPoint();      // the scheduler may run another thread here
	// what happens inside is the simulator's
	struct SimScope
	{
		SimScope();
		~SimScope();
	};
	void memAlloc( void * p, size_t n );
	void memFree( void * p, size_t n );

	template< auto F > struct Seam;
	template< typename R, typename ... A, R ( *F )( A... ) > struct Seam< F >
	{
		static R call( A ... a )
		{
			threadPoint();
			if constexpr ( std::is_void_v< R > )
			{
				{ SimScope s; F( a... ); }
				threadPoint();
			}
			else
			{
				R r;
				{ SimScope s; r = F( a... ); }
				threadPoint();
				return r;
			}
		}
	};
}
