// Scenarios: one simulated run of a property.
#pragma once
#include "vk.hpp"

namespace sim
{
	void scenSignal();      // C14
	void scenFence();       // C17
	void scenCache();       // C18
	void scenThreads();     // C09
	void scenWorld();       // the others
	void runScenario();     // in the process of a run
	char const * scenarioRule( std::string const & prop );
}
