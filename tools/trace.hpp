// Extends minivk.hpp: keeps a log of the calls the library makes, and counts live objects.
#pragma once
#include "minivk.hpp"
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <set>
namespace tr
{
	struct Call { std::string n; std::vector< uint64_t > a; std::vector< VkImageMemoryBarrier > ib; std::vector< VkBufferMemoryBarrier > bb; };
	inline std::vector< Call > log;
	inline std::map< std::string, std::set< uint64_t > > live;
	inline int bad = 0; // double destructions
	template< typename H > uint64_t u( H h ) { return uint64_t( h ); }
	inline void add( char const * n, std::vector< uint64_t > a = {} ) { log.push_back( { n, std::move( a ), {}, {} } ); }
	inline size_t count( std::string const & n, size_t from = 0 ) { size_t r = 0; for ( size_t i = from; i < log.size(); ++i ) r += log[i].n == n; return r; }
	inline size_t mark() { return log.size(); }
	inline std::vector< Call > of( std::string const & n, size_t from = 0 ) { std::vector< Call > r; for ( size_t i = from; i < log.size(); ++i ) if ( log[i].n == n ) r.push_back( log[i] ); return r; }
#define TR_OBJ( NAME, INFO, H ) \
	inline VkResult VKAPI_PTR Create##NAME( VkDevice d, INFO const * i, VkAllocationCallbacks const * c, H * h ) { auto r = mini::vkCreate##NAME( d, i, c, h ); add( "vkCreate" #NAME, { u( *h ) } ); if ( r == VK_SUCCESS ) live[#NAME].insert( u( *h ) ); return r; } \
	inline void VKAPI_PTR Destroy##NAME( VkDevice, H h, VkAllocationCallbacks const * ) { add( "vkDestroy" #NAME, { u( h ) } ); if ( h && !live[#NAME].erase( u( h ) ) ) ++bad; }
	TR_OBJ( Image, VkImageCreateInfo, VkImage )
	TR_OBJ( ImageView, VkImageViewCreateInfo, VkImageView )
	TR_OBJ( Buffer, VkBufferCreateInfo, VkBuffer )
	TR_OBJ( Sampler, VkSamplerCreateInfo, VkSampler )
	TR_OBJ( Fence, VkFenceCreateInfo, VkFence )
	TR_OBJ( Semaphore, VkSemaphoreCreateInfo, VkSemaphore )
	TR_OBJ( QueryPool, VkQueryPoolCreateInfo, VkQueryPool )
	TR_OBJ( CommandPool, VkCommandPoolCreateInfo, VkCommandPool )
	TR_OBJ( PipelineLayout, VkPipelineLayoutCreateInfo, VkPipelineLayout )
	TR_OBJ( DescriptorSetLayout, VkDescriptorSetLayoutCreateInfo, VkDescriptorSetLayout )
	TR_OBJ( DescriptorPool, VkDescriptorPoolCreateInfo, VkDescriptorPool )
	TR_OBJ( RenderPass, VkRenderPassCreateInfo, VkRenderPass )
	TR_OBJ( Framebuffer, VkFramebufferCreateInfo, VkFramebuffer )
	inline VkResult VKAPI_PTR AllocMem( VkDevice d, VkMemoryAllocateInfo const * i, VkAllocationCallbacks const * c, VkDeviceMemory * h ) { auto r = mini::vkAllocateMemory( d, i, c, h ); if ( r == VK_SUCCESS ) live["Memory"].insert( u( *h ) ); add( "vkAllocateMemory", { u( *h ) } ); return r; }
	inline void VKAPI_PTR FreeMem( VkDevice, VkDeviceMemory h, VkAllocationCallbacks const * ) { add( "vkFreeMemory", { u( h ) } ); if ( h && !live["Memory"].erase( u( h ) ) ) ++bad; }
	inline VkResult VKAPI_PTR CmpPipes( VkDevice, VkPipelineCache, uint32_t n, VkComputePipelineCreateInfo const * i, VkAllocationCallbacks const *, VkPipeline * o ) { for ( uint32_t k = 0; k < n; ++k ) { o[k] = VkPipeline( mini::next++ ); live["Pipeline"].insert( u( o[k] ) ); add( "vkCreatePipeline", { u( o[k] ), u( i[k].stage.module ) } ); } return VK_SUCCESS; }
	inline VkResult VKAPI_PTR GfxPipes( VkDevice, VkPipelineCache, uint32_t n, VkGraphicsPipelineCreateInfo const * i, VkAllocationCallbacks const *, VkPipeline * o ) { for ( uint32_t k = 0; k < n; ++k ) { o[k] = VkPipeline( mini::next++ ); live["Pipeline"].insert( u( o[k] ) ); add( "vkCreatePipeline", { u( o[k] ), i[k].stageCount ? u( i[k].pStages[0].module ) : 0 } ); } return VK_SUCCESS; }
	inline void VKAPI_PTR DestroyPipe( VkDevice, VkPipeline h, VkAllocationCallbacks const * ) { add( "vkDestroyPipeline", { u( h ) } ); if ( h && !live["Pipeline"].erase( u( h ) ) ) ++bad; }
	inline void VKAPI_PTR Barrier( VkCommandBuffer cb, VkPipelineStageFlags s1, VkPipelineStageFlags s2, VkDependencyFlags, uint32_t, VkMemoryBarrier const *, uint32_t nb, VkBufferMemoryBarrier const * b, uint32_t ni, VkImageMemoryBarrier const * i )
	{ Call c{ "vkCmdPipelineBarrier", { u( cb ), s1, s2 }, {}, {} }; c.ib.assign( i, i + ni ); c.bb.assign( b, b + nb ); log.push_back( c ); }
	inline void VKAPI_PTR Dispatch( VkCommandBuffer cb, uint32_t x, uint32_t y, uint32_t z ) { add( "vkCmdDispatch", { u( cb ), x, y, z } ); }
	inline void VKAPI_PTR Draw( VkCommandBuffer cb, uint32_t a, uint32_t b, uint32_t c, uint32_t d ) { add( "vkCmdDraw", { u( cb ), a, b, c, d } ); }
	inline void VKAPI_PTR DrawIndexed( VkCommandBuffer cb, uint32_t a, uint32_t b, uint32_t c, int32_t d, uint32_t e ) { add( "vkCmdDrawIndexed", { u( cb ), a, b, c, uint64_t( d ), e } ); }
	inline void VKAPI_PTR BindPipe( VkCommandBuffer cb, VkPipelineBindPoint, VkPipeline p ) { add( "vkCmdBindPipeline", { u( cb ), u( p ), live["Pipeline"].count( u( p ) ) } ); }
	inline void VKAPI_PTR BeginRP( VkCommandBuffer cb, VkRenderPassBeginInfo const * i, VkSubpassContents ) { add( "vkCmdBeginRenderPass", { u( cb ), u( i->renderPass ), u( i->framebuffer ), i->renderArea.extent.width, i->renderArea.extent.height } ); }
	inline void VKAPI_PTR EndRP( VkCommandBuffer cb ) { add( "vkCmdEndRenderPass", { u( cb ) } ); }
	inline void VKAPI_PTR CopyBuf( VkCommandBuffer cb, VkBuffer s, VkBuffer d, uint32_t n, VkBufferCopy const * r ) { for ( uint32_t k = 0; k < n; ++k ) add( "vkCmdCopyBuffer", { u( cb ), u( s ), u( d ), r[k].srcOffset, r[k].dstOffset, r[k].size } ); }
	inline void VKAPI_PTR CopyImg( VkCommandBuffer cb, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageCopy const * r ) { for ( uint32_t k = 0; k < n; ++k ) add( "vkCmdCopyImage", { u( cb ), u( s ), sl, u( d ), dl, r[k].srcSubresource.mipLevel, r[k].srcSubresource.baseArrayLayer, r[k].srcSubresource.layerCount, r[k].dstSubresource.mipLevel, r[k].dstSubresource.baseArrayLayer, r[k].dstSubresource.layerCount, r[k].extent.width, r[k].extent.height, r[k].extent.depth } ); }
	inline void VKAPI_PTR BlitImg( VkCommandBuffer cb, VkImage s, VkImageLayout, VkImage d, VkImageLayout, uint32_t n, VkImageBlit const * r, VkFilter ) { for ( uint32_t k = 0; k < n; ++k ) add( "vkCmdBlitImage", { u( cb ), u( s ), u( d ), r[k].srcSubresource.mipLevel, r[k].dstSubresource.mipLevel, uint64_t( r[k].srcOffsets[1].x ), uint64_t( r[k].srcOffsets[1].y ), uint64_t( r[k].dstOffsets[1].x ), uint64_t( r[k].dstOffsets[1].y ) } ); }
	inline void VKAPI_PTR ClearCol( VkCommandBuffer cb, VkImage i, VkImageLayout l, VkClearColorValue const *, uint32_t, VkImageSubresourceRange const * ) { add( "vkCmdClearColorImage", { u( cb ), u( i ), l } ); }
	inline void VKAPI_PTR ResetQ( VkCommandBuffer cb, VkQueryPool p, uint32_t f, uint32_t n ) { add( "vkCmdResetQueryPool", { u( cb ), u( p ), f, n } ); }
	inline void VKAPI_PTR WriteTS( VkCommandBuffer cb, VkPipelineStageFlagBits s, VkQueryPool p, uint32_t q ) { add( "vkCmdWriteTimestamp", { u( cb ), s, u( p ), q } ); }
	inline VkResult VKAPI_PTR Submit( VkQueue, uint32_t n, VkSubmitInfo const * i, VkFence f ) { if ( mini::fails( "vkQueueSubmit" ) ) return VK_ERROR_OUT_OF_DEVICE_MEMORY; Call c{ "vkQueueSubmit", { u( f ), n ? i->waitSemaphoreCount : 0, n ? i->signalSemaphoreCount : 0 }, {}, {} }; if ( n ) for ( uint32_t k = 0; k < i->waitSemaphoreCount; ++k ) { c.a.push_back( u( i->pWaitSemaphores[k] ) ); c.a.push_back( i->pWaitDstStageMask[k] ); } log.push_back( c ); return VK_SUCCESS; }
	inline VkResult VKAPI_PTR WaitF( VkDevice, uint32_t, VkFence const * f, VkBool32, uint64_t ) { if ( mini::fails( "vkWaitForFences" ) ) return VK_TIMEOUT; add( "vkWaitForFences", { u( *f ) } ); return VK_SUCCESS; }
	inline VkResult VKAPI_PTR ResetF( VkDevice, uint32_t, VkFence const * f ) { add( "vkResetFences", { u( *f ) } ); return VK_SUCCESS; }
	inline void VKAPI_PTR Update( VkDevice, uint32_t n, VkWriteDescriptorSet const * w, uint32_t, VkCopyDescriptorSet const * ) { for ( uint32_t k = 0; k < n; ++k ) add( "write", { u( w[k].dstSet ), w[k].dstBinding, w[k].pBufferInfo ? u( w[k].pBufferInfo->buffer ) : w[k].pImageInfo ? u( w[k].pImageInfo->imageView ) : 0, w[k].pBufferInfo ? w[k].pBufferInfo->offset : 0, w[k].pBufferInfo ? w[k].pBufferInfo->range : 0 } ); }
	inline void install()
	{
#define TR_SET( NAME ) mini::set( "vkCreate" #NAME, &Create##NAME ); mini::set( "vkDestroy" #NAME, &Destroy##NAME );
		TR_SET( Image ) TR_SET( ImageView ) TR_SET( Buffer ) TR_SET( Sampler ) TR_SET( Fence ) TR_SET( Semaphore ) TR_SET( QueryPool ) TR_SET( CommandPool ) TR_SET( PipelineLayout )
		TR_SET( DescriptorSetLayout ) TR_SET( DescriptorPool ) TR_SET( RenderPass ) TR_SET( Framebuffer )
		mini::set( "vkAllocateMemory", &AllocMem ); mini::set( "vkFreeMemory", &FreeMem );
		mini::set( "vkCreateComputePipelines", &CmpPipes ); mini::set( "vkCreateGraphicsPipelines", &GfxPipes ); mini::set( "vkDestroyPipeline", &DestroyPipe );
		mini::set( "vkCmdPipelineBarrier", &Barrier ); mini::set( "vkCmdDispatch", &Dispatch ); mini::set( "vkCmdDraw", &Draw ); mini::set( "vkCmdDrawIndexed", &DrawIndexed );
		mini::set( "vkCmdBindPipeline", &BindPipe ); mini::set( "vkCmdBeginRenderPass", &BeginRP ); mini::set( "vkCmdEndRenderPass", &EndRP );
		mini::set( "vkCmdCopyBuffer", &CopyBuf ); mini::set( "vkCmdCopyImage", &CopyImg ); mini::set( "vkCmdBlitImage", &BlitImg ); mini::set( "vkCmdClearColorImage", &ClearCol );
		mini::set( "vkCmdResetQueryPool", &ResetQ ); mini::set( "vkCmdWriteTimestamp", &WriteTS ); mini::set( "vkQueueSubmit", &Submit ); mini::set( "vkWaitForFences", &WaitF ); mini::set( "vkResetFences", &ResetF );
		mini::set( "vkUpdateDescriptorSets", &Update );
	}
	inline crg::ImageData image( std::string name, uint32_t mips = 1, uint32_t layers = 1, VkFormat f = VK_FORMAT_R8G8B8A8_UNORM )
	{ return crg::ImageData{ std::move( name ), 0, VK_IMAGE_TYPE_2D, f, { 16, 16, 1 }, VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT, mips, layers }; }
	inline crg::ImageViewData view( std::string name, crg::ImageId i, uint32_t mip = 0, uint32_t mips = 1, uint32_t layer = 0, uint32_t layers = 1, VkImageAspectFlags asp = VK_IMAGE_ASPECT_COLOR_BIT )
	{ return crg::ImageViewData{ std::move( name ), i, 0, layers > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, i.data->info.format, { asp, mip, mips, layer, layers } }; }
	// a pass which only calls back
	struct Opt { bool * enabled{}; uint32_t * index{}; crg::RunnablePass::RecordCallback rec{}; crg::RunnablePass::InitialiseCallback init{}; crg::ru::Config cfg{}; crg::RunnablePass ** out{}; VkPipelineStageFlags stage{ VK_PIPELINE_STAGE_TRANSFER_BIT }; };
	inline crg::RunnablePassCreator plain( Opt o = {} )
	{
		return [o]( crg::FramePass const & p, crg::GraphContext & c, crg::RunnableGraph & g )
		{
			auto r = std::make_unique< crg::RunnablePass >( p, c, g, crg::RunnablePass::Callbacks{ o.init ? o.init : []( uint32_t ){}
				, crg::RunnablePass::GetPipelineStateCallback( [o]() { return crg::getPipelineState( o.stage ); } )
				, o.rec ? o.rec : []( crg::RecordContext &, VkCommandBuffer, uint32_t ){}
				, crg::RunnablePass::GetPassIndexCallback( [o]() { return o.index ? *o.index : 0u; } )
				, crg::RunnablePass::IsEnabledCallback( [o]() { return o.enabled ? *o.enabled : true; } ) }, o.cfg );
			if ( o.out ) *o.out = r.get();
			return r;
		};
	}
	inline size_t alive() { size_t n = 0; for ( auto & x : live ) n += x.second.size(); return n; }
}
