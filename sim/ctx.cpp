#include "ctx.hpp"

namespace sim
{
	void setupDevice()
	{
		auto & m = dev->memProps;
		m = {};
		// orders of memory types as different drivers have them
		static VkMemoryPropertyFlags const kinds[4][4]{
			{ VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, 0 },
			{ VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, 0, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT },
			{ VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT | VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT, 0, 0, 0 },
			{ 0, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT | VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT },
		};
		u32 k = choose( 4, "memory-types" );
		m.memoryTypeCount = 4;
		for ( u32 i = 0; i < 4; ++i ) { m.memoryTypes[i].propertyFlags = kinds[k][i]; m.memoryTypes[i].heapIndex = 0; }
		// images can use some type that is local to the device, buffers some type that is host visible and coherent
		// (the specification guarantees no more), or any type
		auto bits = [&]( VkMemoryPropertyFlags needed )
		{
			u32 r = choose( 16, "memory-bits" );
			u32 ok = 0;
			for ( u32 i = 0; i < 4; ++i ) if ( ( kinds[k][i] & needed ) == needed ) ok |= 1u << i;
			return r == 0 ? ~0u : ( r & ok ) ? r : ( r | ( ok & ~( ok - 1 ) ) );
		};
		dev->imageTypeBits = bits( VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT );
		dev->bufferTypeBits = bits( VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT );
		m.memoryHeapCount = 1;
		m.memoryHeaps[0].size = 1ull << 40;
		dev->props.limits.timestampPeriod = 1.0f;
	}

	std::unique_ptr< crg::GraphContext > makeContext()
	{
		return std::make_unique< crg::GraphContext >( dev->handle, VkPipelineCache{}, dev->alloc, dev->memProps, dev->props, dev->separateDS
			, PFN_vkGetDeviceProcAddr( &getProc ) );
	}

	void chooseFaultPlan( u32 kinds )
	{
		auto & f = dev->faults;
		f = {};
		switch ( choose( kinds, "fault-plan" ) )
		{
		case 1: f.nth = 1 + choose( 60, "fault-nth" ); break;
		case 2: f.rateNum = 1; f.rateDen = 40; break;
		case 3: f.rateNum = 1; f.rateDen = 10; break;
		case 4: f.nth = 1 + choose( 400, "fault-nth" ); break;
		case 5: f.nth = 1 + choose( 400, "fault-nth" ); f.deviceLost = true; break;
		default: break;
		}
	}
}
