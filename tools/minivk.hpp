// Minimal fake Vulkan device for the demonstrations: every entry point exists and succeeds.
#pragma once
#include <RenderGraph/GraphContext.hpp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <memory>
namespace mini
{
	inline uint64_t next = 0x1000;
	inline std::map< std::string, PFN_vkVoidFunction > over;
	inline std::map< std::string, int > failNext;   // the n-th next call of this creation fails
	inline bool fails( char const * n ) { auto it = failNext.find( n ); if ( it == failNext.end() || it->second == 0 ) return false; return --it->second == 0; }
	inline VkResult VKAPI_PTR ok() { return VK_SUCCESS; }
#define MINI_CREATE( NAME, INFO, H ) inline VkResult VKAPI_PTR NAME( VkDevice, INFO const *, VkAllocationCallbacks const *, H * h ) { if ( fails( #NAME ) ) { *h = H{}; return VK_ERROR_OUT_OF_DEVICE_MEMORY; } *h = H( next++ ); return VK_SUCCESS; }
	MINI_CREATE( vkCreateImage, VkImageCreateInfo, VkImage )
	MINI_CREATE( vkCreateImageView, VkImageViewCreateInfo, VkImageView )
	MINI_CREATE( vkCreateBuffer, VkBufferCreateInfo, VkBuffer )
	MINI_CREATE( vkCreateSampler, VkSamplerCreateInfo, VkSampler )
	MINI_CREATE( vkAllocateMemory, VkMemoryAllocateInfo, VkDeviceMemory )
	MINI_CREATE( vkCreateFence, VkFenceCreateInfo, VkFence )
	MINI_CREATE( vkCreateSemaphore, VkSemaphoreCreateInfo, VkSemaphore )
	MINI_CREATE( vkCreateEvent, VkEventCreateInfo, VkEvent )
	MINI_CREATE( vkCreateQueryPool, VkQueryPoolCreateInfo, VkQueryPool )
	MINI_CREATE( vkCreateCommandPool, VkCommandPoolCreateInfo, VkCommandPool )
	MINI_CREATE( vkCreatePipelineLayout, VkPipelineLayoutCreateInfo, VkPipelineLayout )
	MINI_CREATE( vkCreateDescriptorSetLayout, VkDescriptorSetLayoutCreateInfo, VkDescriptorSetLayout )
	MINI_CREATE( vkCreateDescriptorPool, VkDescriptorPoolCreateInfo, VkDescriptorPool )
	MINI_CREATE( vkCreateRenderPass, VkRenderPassCreateInfo, VkRenderPass )
	MINI_CREATE( vkCreateFramebuffer, VkFramebufferCreateInfo, VkFramebuffer )
	inline VkResult VKAPI_PTR allocCmd( VkDevice, VkCommandBufferAllocateInfo const * i, VkCommandBuffer * o ) { for ( uint32_t k = 0; k < i->commandBufferCount; ++k ) o[k] = VkCommandBuffer( next++ ); return VK_SUCCESS; }
	inline VkResult VKAPI_PTR allocSets( VkDevice, VkDescriptorSetAllocateInfo const * i, VkDescriptorSet * o ) { for ( uint32_t k = 0; k < i->descriptorSetCount; ++k ) o[k] = VkDescriptorSet( next++ ); return VK_SUCCESS; }
	inline VkResult VKAPI_PTR gfxPipes( VkDevice, VkPipelineCache, uint32_t n, VkGraphicsPipelineCreateInfo const *, VkAllocationCallbacks const *, VkPipeline * o ) { for ( uint32_t k = 0; k < n; ++k ) o[k] = VkPipeline( next++ ); return VK_SUCCESS; }
	inline VkResult VKAPI_PTR cmpPipes( VkDevice, VkPipelineCache, uint32_t n, VkComputePipelineCreateInfo const *, VkAllocationCallbacks const *, VkPipeline * o ) { for ( uint32_t k = 0; k < n; ++k ) o[k] = VkPipeline( next++ ); return VK_SUCCESS; }
	inline std::vector< uint8_t > mapped( 1u << 20 );
	inline VkResult VKAPI_PTR mapMem( VkDevice, VkDeviceMemory, VkDeviceSize, VkDeviceSize, VkMemoryMapFlags, void ** p ) { *p = mapped.data(); return VK_SUCCESS; }
	inline void VKAPI_PTR reqBuf( VkDevice, VkBuffer, VkMemoryRequirements * r ) { *r = { 1024, 16, ~0u }; }
	inline void VKAPI_PTR reqImg( VkDevice, VkImage, VkMemoryRequirements * r ) { *r = { 1024, 16, ~0u }; }
	template< typename F > void set( char const * n, F f ) { over[n] = PFN_vkVoidFunction( f ); }
	inline PFN_vkVoidFunction VKAPI_PTR getProc( VkDevice, char const * name )
	{
		auto it = over.find( name );
		if ( it != over.end() ) return it->second;
#define MINI_R( N ) if ( !strcmp( name, #N ) ) return PFN_vkVoidFunction( &mini::N );
		MINI_R( vkCreateImage ) MINI_R( vkCreateImageView ) MINI_R( vkCreateBuffer ) MINI_R( vkCreateSampler ) MINI_R( vkAllocateMemory ) MINI_R( vkCreateFence )
		MINI_R( vkCreateSemaphore ) MINI_R( vkCreateEvent ) MINI_R( vkCreateQueryPool ) MINI_R( vkCreateCommandPool ) MINI_R( vkCreatePipelineLayout )
		MINI_R( vkCreateDescriptorSetLayout ) MINI_R( vkCreateDescriptorPool ) MINI_R( vkCreateRenderPass ) MINI_R( vkCreateFramebuffer )
		if ( !strcmp( name, "vkAllocateCommandBuffers" ) ) return PFN_vkVoidFunction( &allocCmd );
		if ( !strcmp( name, "vkAllocateDescriptorSets" ) ) return PFN_vkVoidFunction( &allocSets );
		if ( !strcmp( name, "vkCreateGraphicsPipelines" ) ) return PFN_vkVoidFunction( &gfxPipes );
		if ( !strcmp( name, "vkCreateComputePipelines" ) ) return PFN_vkVoidFunction( &cmpPipes );
		if ( !strcmp( name, "vkMapMemory" ) ) return PFN_vkVoidFunction( &mapMem );
		if ( !strcmp( name, "vkGetBufferMemoryRequirements" ) ) return PFN_vkVoidFunction( &reqBuf );
		if ( !strcmp( name, "vkGetImageMemoryRequirements" ) ) return PFN_vkVoidFunction( &reqImg );
		return PFN_vkVoidFunction( &ok );
	}
	inline std::unique_ptr< crg::GraphContext > context()
	{
		VkPhysicalDeviceMemoryProperties m{}; m.memoryTypeCount = 1; m.memoryTypes[0].propertyFlags = ~0u & 0xF; m.memoryHeapCount = 1; m.memoryHeaps[0].size = 1ull << 32;
		VkPhysicalDeviceProperties p{}; p.limits.timestampPeriod = 1.0f;
		return std::make_unique< crg::GraphContext >( VkDevice( 1 ), VkPipelineCache{}, nullptr, m, p, true, &getProc );
	}
	inline int failures = 0;
#define CHECK( c ) do { if ( !( c ) ) { printf( "FAILED line %d: %s\n", __LINE__, #c ); ++mini::failures; } } while ( 0 )
}
