// A GraphContext on the simulated device.
#pragma once
#include "vk.hpp"
#include <RenderGraph/GraphContext.hpp>
#include <memory>

namespace sim
{
	void setupDevice(); // memory types, limits
	std::unique_ptr< crg::GraphContext > makeContext();
	// turns fault injection on for the operations that follow
	struct FaultGuard
	{
		u64 before;
		FaultGuard( bool on ) : before{ dev->injected } { dev->faults.on = on; }
		~FaultGuard() { dev->faults.on = false; }
		u64 injected()const { return dev->injected - before; }
	};
	// seeded choice of how faults will be injected in this run: kind 0 none
	void chooseFaultPlan( u32 kinds );
}
