From 5f3a7e09919832e23e50d5f28cf12a654779a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 01/32] fix: Signal calls each listener once, in order, with
 the emitted arguments

Connection indices were derived from the number of slots, and collided after
a disconnection. An emission during which slots were added called the current
one again, one during which a slot disconnected another skipped or repeated
slots, a slot disconnecting itself was destroyed while running, and
rvalue parameters were consumed by the first slot.
---
 include/RenderGraph/Signal.hpp | 61 ++++++++++++----------------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 3e4d3ca..567a412 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -5,6 +5,7 @@ See LICENSE file in root folder
 
 #include <cassert>
 #include <functional>
+#include <memory>
 #include <set>
 #include <map>
 #pragma warning( push )
@@ -170,8 +171,8 @@ namespace crg
 		*/
 		my_connection connect( Function function )
 		{
-			uint32_t index = uint32_t( m_slots.size() ) + 1u;
-			m_slots.emplace( index, function );
+			uint32_t index = ++m_lastIndex;
+			m_slots.emplace( index, std::make_shared< Function >( function ) );
 			return my_connection{ index, *this };
 		}
 		/**
@@ -181,13 +182,16 @@ namespace crg
 		void operator()()const
 		{
 			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
+			auto lastIndex = m_lastIndex;
 
-			while ( it != m_slots.end() )
+			while ( it != m_slots.end() && it->first <= lastIndex )
 			{
-				it->second();
-				adjustSlots( size, index, it );
+				auto index = it->first;
+				// Keeps the slot alive, even if it disconnects itself.
+				auto slot = it->second;
+				( *slot )();
+				// Slots may have been changed by the slot itself.
+				it = m_slots.upper_bound( index );
 			}
 		}
 		/**
@@ -200,13 +204,17 @@ namespace crg
 		void operator()( Params && ... params )const
 		{
 			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
+			auto lastIndex = m_lastIndex;
 
-			while ( it != m_slots.end() )
+			while ( it != m_slots.end() && it->first <= lastIndex )
 			{
-				it->second( std::forward< Params >( params )... );
-				adjustSlots( size, index, it );
+				auto index = it->first;
+				// Keeps the slot alive, even if it disconnects itself.
+				auto slot = it->second;
+				// Not forwarded: a slot must not consume the parameters of the next ones.
+				( *slot )( params... );
+				// Slots may have been changed by the slot itself.
+				it = m_slots.upper_bound( index );
 			}
 		}
 
@@ -249,35 +257,10 @@ namespace crg
 			assert( m_connections.find( &connection ) != m_connections.end() );
 			m_connections.erase( &connection );
 		}
-		/**
-		*\brief
-		*	Adjusts returned slot iterator.
-		*\param[in,out] size
-		*	The expected size, receives the real size.
-		*\param[in,out] index
-		*	The current iteration index.
-		*/
-		template< typename IterT >
-		void adjustSlots( size_t & size
-			, size_t & index
-			, IterT & it )const noexcept
-		{
-			if ( size != m_slots.size() )
-			{
-				// Slots changed by the slot itself.
-				size = m_slots.size();
-				it = m_slots.begin();
-				std::advance( it, index );
-			}
-			else
-			{
-				++index;
-				++it;
-			}
-		}
 
 	private:
-		std::map< uint32_t, Function > m_slots;
+		std::map< uint32_t, std::shared_ptr< Function > > m_slots;
+		uint32_t m_lastIndex{};
 		std::set< my_connection_ptr > m_connections;
 		std::recursive_mutex m_mutex;
 	};
-- 
2.43.0


From 7b4d7cf3d04ffa201587c969e5fa1b1e70a627a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 02/32] fix: Fence does not forget pending work after a failed
 or timed out wait

A wait which timed out or failed marked the fence as waited for, hence the
next reset did not wait and reset a fence still in use by the queue. Failures
of the wait and of the reset are now reported by Fence::reset.
---
 source/RenderGraph/RunnablePass.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1cd5127..7882d1e 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -169,12 +169,13 @@ namespace crg
 		{
 			if ( !m_fenceWaited )
 			{
-				wait( 0xFFFFFFFFFFFFFFFFULL );
+				checkVkResult( wait( 0xFFFFFFFFFFFFFFFFULL ), "Fence wait" );
 			}
 
-			m_context->vkResetFences( m_context->device
-				, 1u
-				, &m_fence );
+			checkVkResult( m_context->vkResetFences( m_context->device
+					, 1u
+					, &m_fence )
+				, "Fence reset" );
 		}
 
 		m_fenceWaited = false;
@@ -193,7 +194,11 @@ namespace crg
 				, timeout );
 		}
 
-		m_fenceWaited = true;
+		if ( res == VK_SUCCESS )
+		{
+			m_fenceWaited = true;
+		}
+
 		return res;
 	}
 
-- 
2.43.0


From 7757014d56719349ab8f7603753758be690aaa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 03/32] fix: ResourceHandler keeps nothing of a failed creation

A failed image, view, sampler or vertex buffer creation left an entry in the
handler and the caches, returned by later lookups as if it existed, and leaked
what had been created. The result of the vertex data flush was ignored.
---
 source/RenderGraph/ResourceHandler.cpp | 125 +++++++++++++++++++------
 1 file changed, 95 insertions(+), 30 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bada67f..c09975f 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -35,6 +35,75 @@ namespace crg
 			};
 		};
 
+		/**
+		*\brief
+		*	Undoes an incomplete creation.
+		*/
+		template< typename FuncT >
+		class Rollback
+		{
+		public:
+			explicit Rollback( FuncT func )
+				: m_func{ std::move( func ) }
+			{
+			}
+
+			Rollback( Rollback const & ) = delete;
+			Rollback & operator=( Rollback const & ) = delete;
+
+			~Rollback()noexcept
+			{
+				if ( m_active )
+				{
+					m_func();
+				}
+			}
+
+			void dismiss()noexcept
+			{
+				m_active = false;
+			}
+
+		private:
+			FuncT m_func;
+			bool m_active{ true };
+		};
+
+		static void destroy( GraphContext const & context
+			, VkImage image
+			, VkDeviceMemory memory )
+		{
+			if ( context.vkFreeMemory && memory )
+			{
+				context.vkFreeMemory( context.device, memory, context.allocator );
+			}
+
+			if ( context.vkDestroyImage && image )
+			{
+				context.vkDestroyImage( context.device, image, context.allocator );
+			}
+		}
+
+		static void destroy( GraphContext & context
+			, VertexBuffer const & vertexBuffer )
+		{
+			if ( context.vkFreeMemory && vertexBuffer.memory )
+			{
+				crgUnregisterObject( context, vertexBuffer.memory );
+				context.vkFreeMemory( context.device
+					, vertexBuffer.memory
+					, context.allocator );
+			}
+
+			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
+			{
+				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
+				context.vkDestroyBuffer( context.device
+					, vertexBuffer.buffer.buffer()
+					, context.allocator );
+			}
+		}
+
 		static VkImageCreateInfo convert( ImageData const & data )
 		{
 			return data.info;
@@ -186,6 +255,11 @@ namespace crg
 
 			if ( ins )
 			{
+				reshdl::Rollback rollback{ [this, &context, it = it]()
+					{
+						reshdl::destroy( context, it->second.first, it->second.second );
+						m_images.erase( it );
+					} };
 				// Create image
 				auto createInfo = reshdl::convert( *imageId.data );
 				auto res = context.vkCreateImage( context.device
@@ -225,6 +299,8 @@ namespace crg
 					checkVkResult( res, "Image memory binding" );
 					created = true;
 				}
+
+				rollback.dismiss();
 			}
 
 			result = { it->second.first, created };
@@ -246,6 +322,10 @@ namespace crg
 
 			if ( ins )
 			{
+				reshdl::Rollback rollback{ [this, it = it]()
+					{
+						m_imageViews.erase( it );
+					} };
 				auto image = createImage( context, view.data->image ).first;
 				auto createInfo = reshdl::convert( *view.data, image );
 				auto res = context.vkCreateImageView( context.device
@@ -255,6 +335,7 @@ namespace crg
 				checkVkResult( res, "ImageView creation" );
 				crgRegisterObjectName( context, view.data->name, it->second );
 				created = true;
+				rollback.dismiss();
 			}
 
 			result = { it->second, created };
@@ -294,8 +375,8 @@ namespace crg
 				, &createInfo
 				, context.allocator
 				, &result );
-			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			checkVkResult( res, "Sampler creation" );
+			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			sampler.name = "Sampler_" + suffix;
 			crgRegisterObject( context, sampler.name, result );
 		}
@@ -315,6 +396,10 @@ namespace crg
 		{
 			auto result = std::make_unique< VertexBuffer >();
 			vertexBuffer = result.get();
+			reshdl::Rollback rollback{ [&context, vertexBuffer]()
+				{
+					reshdl::destroy( context, *vertexBuffer );
+				} };
 			VkBufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO
 				, nullptr
 				, 0u
@@ -387,8 +472,9 @@ namespace crg
 						, vertexBuffer->memory
 						, 0u
 						, VK_WHOLE_SIZE };
-					context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
+					res = context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
 					context.vkUnmapMemory( context.device, vertexBuffer->memory );
+					checkVkResult( res, "Buffer memory flush" );
 				}
 
 				vertexBuffer->vertexAttribs.push_back( { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, position ) } );
@@ -409,6 +495,7 @@ namespace crg
 			}
 
 			m_vertexBuffers.emplace( std::move( result ) );
+			rollback.dismiss();
 		}
 
 		return vertexBuffer;
@@ -422,16 +509,7 @@ namespace crg
 
 		if ( it != m_images.end() )
 		{
-			if ( context.vkFreeMemory && it->second.second )
-			{
-				context.vkFreeMemory( context.device, it->second.second, context.allocator );
-			}
-
-			if ( context.vkDestroyImage && it->second.first )
-			{
-				context.vkDestroyImage( context.device, it->second.first, context.allocator );
-			}
-
+			reshdl::destroy( context, it->second.first, it->second.second );
 			m_images.erase( it );
 		}
 	}
@@ -486,24 +564,7 @@ namespace crg
 
 		if ( it != m_vertexBuffers.end() )
 		{
-			auto & vertexBuffer = **it;
-
-			if ( context.vkFreeMemory && vertexBuffer.memory )
-			{
-				crgUnregisterObject( context, vertexBuffer.memory );
-				context.vkFreeMemory( context.device
-					, vertexBuffer.memory
-					, context.allocator );
-			}
-
-			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
-			{
-				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
-				context.vkDestroyBuffer( context.device
-					, vertexBuffer.buffer.buffer()
-					, context.allocator );
-			}
-
+			reshdl::destroy( context, **it );
 			m_vertexBuffers.erase( it );
 		}
 	}
@@ -597,9 +658,11 @@ namespace crg
 
 		if ( res )
 		{
+			reshdl::Rollback rollback{ [this, it = it](){ m_samplers.erase( it ); } };
 			it->second = m_handler.createSampler( m_context
 				, std::to_string( hash )
 				, samplerDesc );
+			rollback.dismiss();
 		}
 
 		return it->second;
@@ -613,10 +676,12 @@ namespace crg
 
 		if ( res )
 		{
+			reshdl::Rollback rollback{ [this, it = it](){ m_vertexBuffers.erase( it ); } };
 			it->second = m_handler.createQuadTriVertexBuffer( m_context
 				, std::to_string( hash )
 				, texCoords
 				, config );
+			rollback.dismiss();
 		}
 
 		return *it->second;
-- 
2.43.0


From 32bdabe67ffaef89ea187cd0782a05aef8e6c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 04/32] fix: resource caches own the images they create through
 views, and forget what they destroy

An image created along with a view had no owner and was never destroyed, and
a destroyed image or view remained listed in its cache, which could then
destroy the one created later by another cache.
---
 source/RenderGraph/ResourceHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index c09975f..cb3b1e5 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -615,6 +615,8 @@ namespace crg
 
 	VkImageView ContextResourcesCache::createImageView( ImageViewId const & view )
 	{
+		// The image may be created along with the view, it is then owned by this cache.
+		createImage( view.data->image );
 		auto [result, created] = m_handler.createImageView( m_context, view );
 
 		if ( created )
@@ -633,6 +635,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImage( m_context, imageId );
+			m_images.erase( it );
 		}
 
 		return result;
@@ -646,6 +649,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImageView( m_context, viewId );
+			m_imageViews.erase( it );
 		}
 
 		return result;
-- 
2.43.0


From b1080c0fb5d2afa63a830d7917dd1283eaf4efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 05/32] fix: blit regions end at offset plus extent; fallback
 copies and blits cover every layer of the view

---
 source/RenderGraph/RecordContext.cpp            | 12 ++++++------
 source/RenderGraph/RunnablePasses/ImageBlit.cpp | 12 ++++++++++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 4b08707..a68ce43 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -397,9 +397,9 @@ namespace crg
 				, srcView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
-			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
+			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, srcSubresource.layerCount }
 				, VkOffset3D{ 0u, 0u, 0u }
-				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
+				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, dstSubresource.layerCount }
 				, VkOffset3D{ 0u, 0u, 0u }
 			, { extent.width, extent.height, 1u } };
 			recContext.memoryBarrier( commandBuffer
@@ -450,12 +450,12 @@ namespace crg
 				, srcView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
-			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
+			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, srcSubresource.layerCount }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
-					, VkOffset3D{ int32_t( srcExtent.width ), int32_t( srcExtent.height ), 1 } }
-				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
+					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
+				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, dstSubresource.layerCount }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
-					, VkOffset3D{ int32_t( dstExtent.width ), int32_t( dstExtent.height ), 1 } } };
+					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
 				, srcView.data->image
 				, srcView.data->info.viewType
diff --git a/source/RenderGraph/RunnablePasses/ImageBlit.cpp b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
index f6de0e2..5ab9019 100644
--- a/source/RenderGraph/RunnablePasses/ImageBlit.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
@@ -21,6 +21,14 @@ namespace crg
 				, range.baseArrayLayer
 				, range.layerCount };
 		}
+
+		static VkOffset3D getEnd( VkOffset3D const & offset
+			, VkExtent3D const & extent )noexcept
+		{
+			return { offset.x + int32_t( extent.width )
+				, offset.y + int32_t( extent.height )
+				, offset.z + int32_t( extent.depth ) };
+		}
 	}
 
 	ImageBlit::ImageBlit( FramePass const & pass
@@ -61,9 +69,9 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		VkImageBlit blitRegion{ imgBlit::convert( srcAttach.data->info.subresourceRange )
-			, { m_srcOffset, VkOffset3D{ int32_t( m_srcSize.width ), int32_t( m_srcSize.height ), int32_t( m_srcSize.depth ) } }
+			, { m_srcOffset, imgBlit::getEnd( m_srcOffset, m_srcSize ) }
 			, imgBlit::convert( dstAttach.data->info.subresourceRange )
-			, { m_dstOffset, VkOffset3D{ int32_t( m_dstSize.width ), int32_t( m_dstSize.height ), int32_t( m_dstSize.depth ) } } };
+			, { m_dstOffset, imgBlit::getEnd( m_dstOffset, m_dstSize ) } };
 		context->vkCmdBlitImage( commandBuffer
 			, srcImage
 			, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
-- 
2.43.0


From db54b9ea77979811c397ca37a400ec08ecc8b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 06/32] fix: barriers use each subresource's own state and
 order every write

---
 source/RenderGraph/RecordContext.cpp | 150 ++++++++++++++++++++-------
 1 file changed, 110 insertions(+), 40 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index a68ce43..09bbe0a 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -42,6 +42,77 @@ namespace crg
 
 			return result;
 		}
+
+		static bool isWrite( VkAccessFlags access )noexcept
+		{
+			return 0u != ( access
+				& ( VK_ACCESS_SHADER_WRITE_BIT
+					| VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT
+					| VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT
+					| VK_ACCESS_TRANSFER_WRITE_BIT
+					| VK_ACCESS_HOST_WRITE_BIT
+					| VK_ACCESS_MEMORY_WRITE_BIT ) );
+		}
+
+		static bool needsBarrier( AccessState const & from
+			, AccessState const & to )noexcept
+		{
+			return from.pipelineStage != to.pipelineStage
+				|| from.access != to.access
+				|| isWrite( from.access )
+				|| isWrite( to.access );
+		}
+
+		static bool sameState( LayoutState const & lhs
+			, LayoutState const & rhs )noexcept
+		{
+			return lhs.layout == rhs.layout
+				&& lhs.state.access == rhs.state.access
+				&& lhs.state.pipelineStage == rhs.state.pipelineStage;
+		}
+
+		struct RangeState
+		{
+			VkImageSubresourceRange range;
+			LayoutState state;
+		};
+
+		// The parts of the range which are in the same state, layer by layer if they are not all the same.
+		static std::vector< RangeState > splitRange( RecordContext const & context
+			, ImageId const & image
+			, VkImageViewType viewType
+			, VkImageSubresourceRange const & range )
+		{
+			std::vector< RangeState > result;
+			bool uniform = true;
+
+			for ( uint32_t layer = 0u; layer < range.layerCount; ++layer )
+			{
+				for ( uint32_t level = 0u; level < range.levelCount; ++level )
+				{
+					VkImageSubresourceRange subresource{ range.aspectMask, range.baseMipLevel + level, 1u, range.baseArrayLayer + layer, 1u };
+					auto state = context.getLayoutState( image, viewType, subresource );
+					uniform = uniform && ( result.empty() || sameState( state, result.front().state ) );
+
+					if ( level > 0u && sameState( state, result.back().state ) )
+					{
+						++result.back().range.levelCount;
+					}
+					else
+					{
+						result.push_back( { subresource, state } );
+					}
+				}
+			}
+
+			if ( uniform && !result.empty() )
+			{
+				result.resize( 1u );
+				result.front().range = range;
+			}
+
+			return result;
+		}
 	}
 
 	//************************************************************************************************
@@ -227,47 +298,47 @@ namespace crg
 		auto range = recctx::adaptRange( *m_resources
 				, image.data->info.format
 				, subresourceRange );
-		auto from = getLayoutState( image
-			, viewType
-			, range );
 
-		if ( from.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+		for ( auto & [subRange, from] : recctx::splitRange( *this, image, viewType, range ) )
 		{
-			from = { initialLayout
-				, getAccessMask( initialLayout )
-				, getStageMask( initialLayout ) };
-		}
+			if ( from.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+			{
+				from = { initialLayout
+					, { getAccessMask( initialLayout )
+						, getStageMask( initialLayout ) } };
+			}
 
-		if ( force
-			|| ( ( from.layout != wantedState.layout
-				|| from.state.pipelineStage != wantedState.state.pipelineStage )
-				&& wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED ) )
-		{
-			auto & resources = getResources();
-			VkImageMemoryBarrier barrier{ VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER
-				, nullptr
-				, from.state.access
-				, wantedState.state.access
-				, from.layout
-				, wantedState.layout
-				, VK_QUEUE_FAMILY_IGNORED
-				, VK_QUEUE_FAMILY_IGNORED
-				, resources.createImage( image )
-				, range };
-			resources->vkCmdPipelineBarrier( commandBuffer
-				, from.state.pipelineStage
-				, wantedState.state.pipelineStage
-				, VK_DEPENDENCY_BY_REGION_BIT
-				, 0u
-				, nullptr
-				, 0u
-				, nullptr
-				, 1u
-				, &barrier );
-			setLayoutState( image
-				, viewType
-				, range
-				, wantedState );
+			if ( force
+				|| ( wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED
+					&& ( from.layout != wantedState.layout
+						|| recctx::needsBarrier( from.state, wantedState.state ) ) ) )
+			{
+				auto & resources = getResources();
+				VkImageMemoryBarrier barrier{ VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER
+					, nullptr
+					, from.state.access
+					, wantedState.state.access
+					, from.layout
+					, wantedState.layout
+					, VK_QUEUE_FAMILY_IGNORED
+					, VK_QUEUE_FAMILY_IGNORED
+					, resources.createImage( image )
+					, subRange };
+				resources->vkCmdPipelineBarrier( commandBuffer
+					, from.state.pipelineStage
+					, wantedState.state.pipelineStage
+					, VK_DEPENDENCY_BY_REGION_BIT
+					, 0u
+					, nullptr
+					, 0u
+					, nullptr
+					, 1u
+					, &barrier );
+				setLayoutState( image
+					, viewType
+					, subRange
+					, wantedState );
+			}
 		}
 	}
 
@@ -333,8 +404,7 @@ namespace crg
 		}
 
 		if ( force
-			|| ( from.access != wantedState.access
-				|| from.pipelineStage != wantedState.pipelineStage ) )
+			|| recctx::needsBarrier( from, wantedState ) )
 		{
 			auto const & resources = getResources();
 			VkBufferMemoryBarrier barrier{ VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER
-- 
2.43.0


From 3f535880098e772062c45b11af99403b83270079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 07/32] fix: barriers name the stage and access of the pass,
 and cover uniform buffers and whole buffers

---
 source/RenderGraph/Attachment.cpp    | 12 ++++++------
 source/RenderGraph/RecordContext.cpp |  6 ++++--
 source/RenderGraph/RunnablePass.cpp  |  6 ++++--
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 00426d3..9dc40bf 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -141,6 +141,10 @@ namespace crg
 				result |= VK_ACCESS_TRANSFER_WRITE_BIT;
 			}
 		}
+		else if ( isUniform() && !isView() )
+		{
+			result |= VK_ACCESS_UNIFORM_READ_BIT;
+		}
 		else
 		{
 			result |= VK_ACCESS_SHADER_READ_BIT;
@@ -390,15 +394,11 @@ namespace crg
 	{
 		VkPipelineStageFlags result{ 0u };
 
-		if ( isSampledView() )
-		{
-			result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
-		}
-		else if ( isTransitionView() )
+		if ( isTransitionView() )
 		{
 			result |= getStageMask( wantedLayout );
 		}
-		else if ( isStorageView() )
+		else if ( isSampledView() || isStorageView() )
 		{
 			if ( isCompute )
 			{
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 09bbe0a..26d05ae 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -407,6 +407,8 @@ namespace crg
 			|| recctx::needsBarrier( from, wantedState ) )
 		{
 			auto const & resources = getResources();
+			// The state is the one of the buffer as a whole, and so is the barrier:
+			// it also covers what was written outside of the given range.
 			VkBufferMemoryBarrier barrier{ VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER
 				, nullptr
 				, from.access
@@ -414,8 +416,8 @@ namespace crg
 				, VK_QUEUE_FAMILY_IGNORED
 				, VK_QUEUE_FAMILY_IGNORED
 				, buffer
-				, subresourceRange.offset
-				, subresourceRange.size };
+				, 0u
+				, VK_WHOLE_SIZE };
 			resources->vkCmdPipelineBarrier( commandBuffer
 				, from.pipelineStage
 				, wantedState.pipelineStage
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 7882d1e..f1e08b1 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -402,7 +402,9 @@ namespace crg
 				if ( !attach.isNoTransition()
 					&& ( attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
 				{
-					auto needed = makeLayoutState( attach.getImageLayout( m_context.separateDepthStencilLayouts ) );
+					LayoutState const needed{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
+						, { attach.getAccessMask()
+							, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } };
 					auto currentLayout = ( !attach.isInput()
 						? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
 						: m_graph.getCurrentLayoutState( context, view ) );
@@ -451,7 +453,7 @@ namespace crg
 			for ( auto & attach : m_pass.buffers )
 			{
 				if ( !attach.isNoTransition()
-					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
+					&& ( attach.isUniformBuffer() || attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
 				{
 					auto & range = attach.getBufferRange();
 					auto buffer = attach.buffer( index );
-- 
2.43.0


From ab753965419445a4daff0b19a78a437a31e00725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 08/32] fix: copies between buffers and images start at the
 declared buffer offset

---
 source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp | 2 +-
 source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
index db2c985..1601b7d 100644
--- a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		// Copy source to target.
 		auto range = bufToImg::convert( dstAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
diff --git a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
index b2e167e..064c43e 100644
--- a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		// Copy source to target.
 		auto range = imToBuf::convert( srcAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
-- 
2.43.0


From ff76e05ba3b7725b3967471e01d41b80f8d44eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 09/32] fix: every implicit transition of a view runs, before
 the layout transitions

---
 include/RenderGraph/RecordContext.hpp |  6 ++++++
 source/RenderGraph/RecordContext.cpp  | 24 ++++++++++++++++++------
 source/RenderGraph/RunnablePass.cpp   | 14 +++++++++++---
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 3d6528d..3e625ad 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -58,6 +58,12 @@ namespace crg
 			, VkImageViewType viewType
 			, VkImageSubresourceRange const & subresourceRange )const;
 
+		/**
+		*\brief
+		*	Tells if all the subresources of the view are in the same state.
+		*/
+		CRG_API bool hasSingleState( ImageViewId view )const;
+
 		CRG_API LayoutState getNextLayoutState( ImageViewId view )const;
 		CRG_API LayoutState getNextLayoutState( ImageId image
 			, VkImageViewType viewType
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 26d05ae..c8665a3 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -187,6 +187,14 @@ namespace crg
 			, subresourceRange );
 	}
 
+	bool RecordContext::hasSingleState( ImageViewId view )const
+	{
+		return recctx::splitRange( *this
+			, view.data->image
+			, view.data->info.viewType
+			, view.data->info.subresourceRange ).size() == 1u;
+	}
+
 	LayoutState RecordContext::getNextLayoutState( ImageViewId view )const
 	{
 		return m_nextImages.getLayoutState( view );
@@ -217,14 +225,18 @@ namespace crg
 		, uint32_t index
 		, crg::ImageViewId view )
 	{
-		auto it = std::find_if( m_implicitTransitions.begin()
-			, m_implicitTransitions.end()
-			, [&view]( ImplicitTransition const & lookup )
+		auto find = [this, &view]()
 			{
-				return lookup.view == view;
-			} );
+				return std::find_if( m_implicitTransitions.begin()
+					, m_implicitTransitions.end()
+					, [&view]( ImplicitTransition const & lookup )
+					{
+						return lookup.view == view;
+					} );
+			};
 
-		if ( it != m_implicitTransitions.end() )
+		// Several passes can have registered a transition for this view.
+		for ( auto it = find(); it != m_implicitTransitions.end(); it = find() )
 		{
 			auto pass = it->pass;
 			auto action = it->action;
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index f1e08b1..a515f4c 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -392,15 +392,23 @@ namespace crg
 #pragma GCC diagnostic pop
 			m_timer.beginPass( commandBuffer );
 
+			// The implicit transitions can use the other views of the pass, so they come before any layout transition.
 			for ( auto & attach : m_pass.images )
 			{
-				auto view = attach.view( index );
 				context.runImplicitTransition( commandBuffer
 					, index
-					, view );
+					, attach.view( index ) );
+			}
+
+			for ( auto & attach : m_pass.images )
+			{
+				auto view = attach.view( index );
+				// A render pass needs all the subresources of an attachment to be in one layout.
+				bool const isMixedAttach = !context.hasSingleState( view )
+					&& ( attach.isColourAttach() || attach.isDepthAttach() || attach.isStencilAttach() );
 
 				if ( !attach.isNoTransition()
-					&& ( attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
+					&& ( isMixedAttach || attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
 				{
 					LayoutState const needed{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
 						, { attach.getAccessMask()
-- 
2.43.0


From 21769d44c834b205ecfe02ada2530f24d6c91495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 10/32] fix: render pass dependencies cover what their
 attachments come from and go to

---
 source/RenderGraph/FrameGraph.cpp             |   1 +
 .../RunnablePasses/RenderPassHolder.cpp       | 119 +++++++++++++-----
 2 files changed, 92 insertions(+), 28 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 0ef05c2..19c38d8 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -603,6 +603,7 @@ namespace crg
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wnull-dereference"
 							rit->second.state.access |= state.state.access;
+							rit->second.state.pipelineStage |= state.state.pipelineStage;
 #pragma GCC diagnostic pop
 						}
 					}
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 92378b1..0f9c73a 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -17,6 +17,53 @@ namespace crg
 
 	namespace rpHolder
 	{
+		static ImageViewIdArray listViews( ImageViewId const & view )
+		{
+			return view.data->source.empty()
+				? ImageViewIdArray{ view }
+				: view.data->source;
+		}
+
+		static bool isAttach( Attachment const & attach )
+		{
+			return attach.isDepthAttach()
+				|| attach.isStencilAttach()
+				|| attach.isColourAttach();
+		}
+
+		static void mergeState( PipelineState & lhs, PipelineState const & rhs )noexcept
+		{
+			lhs.access |= rhs.access;
+			lhs.pipelineStage |= rhs.pipelineStage;
+		}
+
+		// What a render pass does with its attachments.
+		static PipelineState getAttachesState( FramePass const & pass )
+		{
+			PipelineState result{};
+
+			for ( auto & attach : pass.images )
+			{
+				if ( attach.isDepthAttach() || attach.isStencilAttach() )
+				{
+					mergeState( result, { VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT
+						, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT } );
+				}
+				else if ( attach.isColourAttach() )
+				{
+					mergeState( result, { VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+						, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT } );
+				}
+			}
+
+			if ( !result.pipelineStage )
+			{
+				result.pipelineStage = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
+			}
+
+			return result;
+		}
+
 		static VkAttachmentReference addAttach( RecordContext & context
 			, Attachment const & attach
 			, ImageViewId view
@@ -43,16 +90,9 @@ namespace crg
 			viewAttaches.push_back( { view, initialLayout, finalLayout } );
 			clearValues.push_back( attach.getClearValue() );
 
-			if ( view.data->source.empty() )
+			for ( auto & source : listViews( view ) )
 			{
-				context.setLayoutState( view, finalLayout );
-			}
-			else
-			{
-				for ( auto & source : view.data->source )
-				{
-					context.setLayoutState( source, finalLayout );
-				}
+				context.setLayoutState( source, finalLayout );
 			}
 
 			return result;
@@ -95,16 +135,19 @@ namespace crg
 		}
 
 		static bool checkAttaches( RecordContext const & context
-			, std::vector< RenderPassHolder::Entry > const & attaches
-			, uint32_t passIndex )
+			, RunnableGraph const & graph
+			, crg::RunnablePass const & runnable
+			, std::vector< RenderPassHolder::Entry > const & attaches )
 		{
 			auto it = std::find_if( attaches.begin()
 				, attaches.end()
-				, [&context, passIndex]( RenderPassHolder::Entry const & lookup )
+				, [&context, &graph, &runnable]( RenderPassHolder::Entry const & lookup )
 				{
-					auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );
-					return layout != lookup.input
-						&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED;
+					auto view = listViews( lookup.view ).front();
+					auto layout = context.getLayoutState( view );
+					return ( layout != lookup.input
+							&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+						|| graph.getNextLayoutState( context, runnable, view ) != lookup.output;
 				} );
 			return it == attaches.end();
 		}
@@ -169,8 +212,25 @@ namespace crg
 		auto previousState = context.getPrevPipelineState();
 		auto nextState = context.getNextPipelineState();
 
+		for ( auto & attach : m_pass.images )
+		{
+			if ( rpHolder::isAttach( attach ) )
+			{
+				for ( auto & view : rpHolder::listViews( attach.view( passIndex ) ) )
+				{
+					rpHolder::mergeState( previousState
+						, m_graph.getCurrentLayoutState( context, view ).state );
+				}
+
+				rpHolder::mergeState( nextState
+					, m_graph.getNextLayoutState( context
+						, runnable
+						, rpHolder::listViews( attach.view( passIndex ) ).front() ).state );
+			}
+		}
+
 		if ( data.renderPass
-			&& rpHolder::checkAttaches( context, data.attaches, passIndex )
+			&& rpHolder::checkAttaches( context, m_graph, runnable, data.attaches )
 			&& data.previousState == previousState
 			&& data.nextState == nextState )
 		{
@@ -209,8 +269,10 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.input );
+			for ( auto & view : rpHolder::listViews( attach.view ) )
+			{
+				context.setLayoutState( view, attach.input );
+			}
 		}
 
 		auto beginInfo = getBeginInfo( m_index );
@@ -226,8 +288,10 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
-				, attach.output );
+			for ( auto & view : rpHolder::listViews( attach.view ) )
+			{
+				context.setLayoutState( view, attach.output );
+			}
 		}
 
 		m_currentPass = nullptr;
@@ -247,12 +311,10 @@ namespace crg
 
 		for ( auto & attach : m_pass.images )
 		{
-			if ( attach.isDepthAttach()
-				|| attach.isStencilAttach()
-				|| attach.isColourAttach() )
+			if ( rpHolder::isAttach( attach ) )
 			{
 				auto view = attach.view( passIndex );
-				auto resolved = resolveView( view, passIndex );
+				auto resolved = rpHolder::listViews( view ).front();
 				auto currentLayout = m_graph.getCurrentLayoutState( context, resolved );
 				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolved );
 				auto from = ( !attach.isInput()
@@ -300,19 +362,20 @@ namespace crg
 			, nullptr };
 		data.previousState = previousState;
 		data.nextState = nextState;
+		auto attachesState = rpHolder::getAttachesState( m_pass );
 		VkSubpassDependencyArray dependencies{
 			{ VK_SUBPASS_EXTERNAL
 				, 0u
 				, previousState.pipelineStage
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
+				, attachesState.pipelineStage
 				, previousState.access
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+				, attachesState.access
 				, VK_DEPENDENCY_BY_REGION_BIT }
 			, { 0u
 				, VK_SUBPASS_EXTERNAL
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
+				, attachesState.pipelineStage
 				, nextState.pipelineStage
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+				, attachesState.access
 				, nextState.access
 				, VK_DEPENDENCY_BY_REGION_BIT } };
 		VkRenderPassCreateInfo createInfo{ VK_STRUCTURE_TYPE_RENDER_PASS_CREATE_INFO
-- 
2.43.0


From b9ea2c8db861d727da1f91270c29e2ec053f3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 11/32] fix: timers multiply ticks by the period, use a steady
 clock, and never read queries that were not submitted

---
 include/RenderGraph/FramePassTimer.hpp |  2 +-
 source/RenderGraph/FramePassTimer.cpp  | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/RenderGraph/FramePassTimer.hpp b/include/RenderGraph/FramePassTimer.hpp
index 03cbb5f..f566291 100644
--- a/include/RenderGraph/FramePassTimer.hpp
+++ b/include/RenderGraph/FramePassTimer.hpp
@@ -12,7 +12,7 @@ See LICENSE file in root folder
 
 namespace crg
 {
-	using Clock = std::chrono::high_resolution_clock;
+	using Clock = std::chrono::steady_clock;
 	using Nanoseconds = std::chrono::nanoseconds;
 	using FramePassDestroyFunc = std::function< void( FramePassTimer & ) >;
 	using OnFramePassDestroy = Signal< FramePassDestroyFunc >;
diff --git a/source/RenderGraph/FramePassTimer.cpp b/source/RenderGraph/FramePassTimer.cpp
index 63962d3..0045134 100644
--- a/source/RenderGraph/FramePassTimer.cpp
+++ b/source/RenderGraph/FramePassTimer.cpp
@@ -103,7 +103,9 @@ namespace crg
 	void FramePassTimer::beginPass( VkCommandBuffer commandBuffer )noexcept
 	{
 		std::swap( m_queries.front(), m_queries.back() );
-		auto const & query = m_queries.front();
+		auto & query = m_queries.front();
+		query.started = false;
+		query.written = false;
 		m_context.vkCmdResetQueryPool( commandBuffer
 			, m_timerQueries
 			, query.offset
@@ -126,15 +128,13 @@ namespace crg
 
 	void FramePassTimer::retrieveGpuTime()noexcept
 	{
-		static float const period = m_context.properties.limits.timestampPeriod;
-
 		auto before = Clock::now();
 		m_gpuTime = 0ns;
 
 		if ( auto & query = m_queries.front(); query.started && query.written )
 		{
 			std::array< uint64_t, 2u > values{ 0u, 0u };
-			m_context.vkGetQueryPoolResults( m_context.device
+			auto res = m_context.vkGetQueryPoolResults( m_context.device
 				, m_timerQueries
 				, query.offset
 				, 2u
@@ -143,8 +143,12 @@ namespace crg
 				, sizeof( uint64_t )
 				, VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT );
 
-			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) / period ) };
-			m_gpuTime += gpuTime;
+			if ( res == VK_SUCCESS )
+			{
+				// The timestamp period is the number of nanoseconds between two ticks.
+				auto gpuTime = Nanoseconds{ uint64_t( double( values[1] - values[0] ) * double( m_context.properties.limits.timestampPeriod ) ) };
+				m_gpuTime += gpuTime;
+			}
 
 			query.started = false;
 			query.written = false;
-- 
2.43.0


From 04fd1aa1938ef1f7c0c4de4fab7270d9952a702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 12/32] fix: the resource handler remembers the states in which
 images and buffers were left

---
 .../RenderGraph/LayerLayoutStatesHandler.hpp  |  1 +
 include/RenderGraph/RecordContext.hpp         | 26 ++++++++++++
 include/RenderGraph/ResourceHandler.hpp       | 14 +++++++
 .../RenderGraph/LayerLayoutStatesHandler.cpp  | 18 ++++++++
 source/RenderGraph/RecordContext.cpp          | 41 +++++++++++++++++++
 source/RenderGraph/ResourceHandler.cpp        | 20 +++++++++
 6 files changed, 120 insertions(+)

diff --git a/include/RenderGraph/LayerLayoutStatesHandler.hpp b/include/RenderGraph/LayerLayoutStatesHandler.hpp
index 1d363aa..872e88d 100644
--- a/include/RenderGraph/LayerLayoutStatesHandler.hpp
+++ b/include/RenderGraph/LayerLayoutStatesHandler.hpp
@@ -13,6 +13,7 @@ namespace crg
 		CRG_API LayerLayoutStatesHandler() = default;
 		CRG_API explicit LayerLayoutStatesHandler( LayerLayoutStatesMap const & rhs );
 		CRG_API void addStates( LayerLayoutStatesHandler const & data );
+		CRG_API void updateStates( LayerLayoutStatesHandler const & data );
 
 		CRG_API void setLayoutState( ImageId image
 			, VkImageViewType viewType
diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 3e625ad..850ae27 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -36,6 +36,30 @@ namespace crg
 		//@{
 		CRG_API void addStates( RecordContext const & data );
 		/**
+		*\brief
+		*	Updates the states of the images and buffers, without considering them as changed by this context.
+		*/
+		CRG_API void initStates( LayerLayoutStatesHandler const & images
+			, AccessStateMap const & buffers );
+		/**
+		*\brief
+		*	Adds the states some images are expected to come in.
+		*/
+		CRG_API void addInputStates( LayerLayoutStatesHandler const & inputs );
+		/**
+		*\return
+		*	The states set through this context.
+		*/
+		LayerLayoutStatesHandler const & getChangedImages()const noexcept
+		{
+			return m_changedImages;
+		}
+
+		AccessStateMap const & getChangedBuffers()const noexcept
+		{
+			return m_changedBuffers;
+		}
+		/**
 		*\name	Pipeline
 		*/
 		//@{
@@ -206,6 +230,8 @@ namespace crg
 		ContextResourcesCache * m_resources;
 		LayerLayoutStatesHandler m_images;
 		AccessStateMap m_buffers;
+		LayerLayoutStatesHandler m_changedImages;
+		AccessStateMap m_changedBuffers;
 		std::vector< ImplicitTransition > m_implicitTransitions;
 		PassIndexArray m_state;
 		PipelineState m_prevPipelineState{};
diff --git a/include/RenderGraph/ResourceHandler.hpp b/include/RenderGraph/ResourceHandler.hpp
index f09a3e3..3793ff3 100644
--- a/include/RenderGraph/ResourceHandler.hpp
+++ b/include/RenderGraph/ResourceHandler.hpp
@@ -4,6 +4,7 @@ See LICENSE file in root folder.
 #pragma once
 
 #include "RenderGraph/FrameGraphPrerequisites.hpp"
+#include "RenderGraph/LayerLayoutStatesHandler.hpp"
 
 #pragma warning( push )
 #pragma warning( disable: 4365 )
@@ -56,6 +57,16 @@ namespace crg
 			, VkSampler sampler );
 		CRG_API void destroyVertexBuffer( GraphContext & context
 			, VertexBuffer const * buffer );
+		/**
+		*\brief
+		*	Remembers the states in which submitted commands leave images and buffers.
+		*/
+		CRG_API void registerStates( RecordContext const & context );
+		/**
+		*\brief
+		*	Gives to the context the states in which submitted commands left images and buffers.
+		*/
+		CRG_API void initStates( RecordContext & context )const;
 
 	private:
 		mutable std::mutex m_imagesMutex;
@@ -68,6 +79,9 @@ namespace crg
 		std::unordered_map< VkSampler, Sampler > m_samplers;
 		std::mutex m_buffersMutex;
 		std::unordered_set< VertexBufferPtr > m_vertexBuffers;
+		mutable std::mutex m_statesMutex;
+		LayerLayoutStatesHandler m_imageStates;
+		AccessStateMap m_bufferStates;
 	};
 
 	class ContextResourcesCache
diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 2fe009d..bb4c534 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -23,6 +23,24 @@ namespace crg
 		}
 	}
 
+	void LayerLayoutStatesHandler::updateStates( LayerLayoutStatesHandler const & data )
+	{
+		for ( auto & [image, layers] : data.images )
+		{
+			auto & resLayers = images[image];
+
+			for ( auto & [layer, levels] : layers )
+			{
+				auto & resLevels = resLayers[layer];
+
+				for ( auto & [level, state] : levels )
+				{
+					resLevels.insert_or_assign( level, state );
+				}
+			}
+		}
+	}
+
 	void LayerLayoutStatesHandler::setLayoutState( ImageId image
 		, VkImageViewType viewType
 		, VkImageSubresourceRange const & subresourceRange
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index c8665a3..7551280 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -147,6 +147,41 @@ namespace crg
 		}
 	}
 
+	void RecordContext::initStates( LayerLayoutStatesHandler const & images
+		, AccessStateMap const & buffers )
+	{
+		m_images.updateStates( images );
+
+		for ( auto & [buffer, state] : buffers )
+		{
+			m_buffers.insert_or_assign( buffer, state );
+		}
+	}
+
+	void RecordContext::addInputStates( LayerLayoutStatesHandler const & inputs )
+	{
+		for ( auto & [image, layers] : inputs.images )
+		{
+			for ( auto & [layer, levels] : layers )
+			{
+				for ( auto & [level, input] : levels )
+				{
+					auto & known = m_images.images[image][layer].try_emplace( level, input ).first->second;
+
+					if ( known.layout == input.layout )
+					{
+						known.state.access |= input.state.access;
+						known.state.pipelineStage |= input.state.pipelineStage;
+					}
+					else if ( input.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+					{
+						known = input;
+					}
+				}
+			}
+		}
+	}
+
 	void RecordContext::setNextPipelineState( PipelineState const & state
 		, LayerLayoutStatesMap const & imageLayouts )
 	{
@@ -160,6 +195,7 @@ namespace crg
 		, LayoutState const & layoutState )
 	{
 		m_images.setLayoutState( view, layoutState );
+		m_changedImages.setLayoutState( view, layoutState );
 	}
 
 	LayoutState RecordContext::getLayoutState( ImageViewId view )const
@@ -176,6 +212,10 @@ namespace crg
 			, viewType
 			, subresourceRange
 			, layoutState );
+		m_changedImages.setLayoutState( image
+			, viewType
+			, subresourceRange
+			, layoutState );
 	}
 
 	LayoutState RecordContext::getLayoutState( ImageId image
@@ -254,6 +294,7 @@ namespace crg
 		, AccessState const & layoutState )
 	{
 		m_buffers.insert_or_assign( buffer, layoutState );
+		m_changedBuffers.insert_or_assign( buffer, layoutState );
 	}
 
 	AccessState const & RecordContext::getAccessState( VkBuffer buffer
diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index cb3b1e5..1370975 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -8,6 +8,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/ImageData.hpp"
 #include "RenderGraph/ImageViewData.hpp"
 #include "RenderGraph/Log.hpp"
+#include "RenderGraph/RecordContext.hpp"
 #include "RenderGraph/RunnableGraph.hpp"
 
 #include <cassert>
@@ -511,6 +512,8 @@ namespace crg
 		{
 			reshdl::destroy( context, it->second.first, it->second.second );
 			m_images.erase( it );
+			lock_type statesLock( m_statesMutex );
+			m_imageStates.images.erase( imageId.id );
 		}
 	}
 
@@ -569,6 +572,23 @@ namespace crg
 		}
 	}
 
+	void ResourceHandler::registerStates( RecordContext const & context )
+	{
+		lock_type lock( m_statesMutex );
+		m_imageStates.updateStates( context.getChangedImages() );
+
+		for ( auto & [buffer, state] : context.getChangedBuffers() )
+		{
+			m_bufferStates.insert_or_assign( buffer, state );
+		}
+	}
+
+	void ResourceHandler::initStates( RecordContext & context )const
+	{
+		lock_type lock( m_statesMutex );
+		context.initStates( m_imageStates, m_bufferStates );
+	}
+
 	//*********************************************************************************************
 
 	ContextResourcesCache::ContextResourcesCache( ResourceHandler & handler
-- 
2.43.0


From 817b2095f2a3960c9bfd7d529f70512666358c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 13/32] fix: graphs start from the states left by what was
 submitted, and report failed submissions

---
 include/RenderGraph/RunnableGraph.hpp |   2 +-
 include/RenderGraph/RunnablePass.hpp  |   6 ++
 source/RenderGraph/RunnableGraph.cpp  | 113 ++++++++++++++------------
 source/RenderGraph/RunnablePass.cpp   |  46 ++++++++---
 4 files changed, 103 insertions(+), 64 deletions(-)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 21383da..8e14be6 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -150,7 +150,7 @@ namespace crg
 		std::vector< RunnablePassPtr > m_passes;
 		RecordContext::GraphIndexMap m_states;
 		VkCommandBuffer m_commandBuffer{};
-		VkSemaphore m_semaphore{};
+		ContextObjectT< VkSemaphore > m_semaphore;
 		Fence m_fence;
 		FramePassTimer m_timer;
 	};
diff --git a/include/RenderGraph/RunnablePass.hpp b/include/RenderGraph/RunnablePass.hpp
index 0e737d0..cfcff60 100644
--- a/include/RenderGraph/RunnablePass.hpp
+++ b/include/RenderGraph/RunnablePass.hpp
@@ -58,6 +58,11 @@ namespace crg
 
 		CRG_API void reset();
 		CRG_API VkResult wait( uint64_t timeout );
+		/**
+		*\brief
+		*	Tells that, after a reset, nothing that will signal the fence could be submitted.
+		*/
+		CRG_API void cancel()noexcept;
 
 		operator VkFence()const
 		{
@@ -68,6 +73,7 @@ namespace crg
 		GraphContext * m_context;
 		VkFence m_fence{};
 		bool m_fenceWaited{};
+		bool m_cancelled{};
 	};
 
 	namespace ru
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 5353d57..2c6874b 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -47,6 +47,27 @@ namespace crg
 			return result;
 		}
 
+		static VkSemaphore createSemaphore( GraphContext & context
+			, std::string const & name )
+		{
+			VkSemaphore result{};
+
+			if ( context.vkCreateSemaphore )
+			{
+				VkSemaphoreCreateInfo createInfo{ VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO
+					, nullptr
+					, 0u };
+				auto res = context.vkCreateSemaphore( context.device
+					, &createInfo
+					, context.allocator
+					, &result );
+				checkVkResult( res, name + " - Semaphore creation" );
+				crgRegisterObject( context, name, result );
+			}
+
+			return result;
+		}
+
 		static LayerLayoutStates mergeRanges( LayerLayoutStatesMap nextLayouts
 			, LayerLayoutStatesMap::value_type const & currentLayout )
 		{
@@ -188,6 +209,14 @@ namespace crg
 				ctx.vkDestroyCommandPool( ctx.device, object, ctx.allocator );
 				object = {};
 			} }
+		, m_semaphore{ m_context
+			, rungrf::createSemaphore( m_context, m_graph.getName() + "/Graph" )
+			, []( GraphContext & ctx, VkSemaphore & object )noexcept
+			{
+				crgUnregisterObject( ctx, object );
+				ctx.vkDestroySemaphore( ctx.device, object, ctx.allocator );
+				object = {};
+			} }
 		, m_fence{ m_context
 			, graph.getName() + "/Graph"
 			, { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } }
@@ -195,19 +224,6 @@ namespace crg
 	{
 		auto name = m_graph.getName() + "/Graph";
 
-		if ( m_context.vkCreateSemaphore )
-		{
-			VkSemaphoreCreateInfo createInfo{ VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO
-				, nullptr
-				, 0u };
-			auto res = context.vkCreateSemaphore( m_context.device
-				, &createInfo
-				, m_context.allocator
-				, &m_semaphore );
-			checkVkResult( res, name + " - Semaphore creation" );
-			crgRegisterObject( m_context, name, m_semaphore );
-		}
-
 		if ( m_context.vkAllocateCommandBuffers )
 		{
 			VkCommandBufferAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO
@@ -225,8 +241,10 @@ namespace crg
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
-			m_context.vkEndCommandBuffer( m_commandBuffer );
+			checkVkResult( m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo )
+				, m_graph.getName() + " - CommandBuffer begin" );
+			checkVkResult( m_context.vkEndCommandBuffer( m_commandBuffer )
+				, m_graph.getName() + " - CommandBuffer end" );
 		}
 
 		Logger::logDebug( m_graph.getName() + " - Initialising resources" );
@@ -266,14 +284,6 @@ namespace crg
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
-		if ( m_context.vkDestroySemaphore && m_semaphore )
-		{
-			crgUnregisterObject( m_context, m_semaphore );
-			m_context.vkDestroySemaphore( m_context.device
-				, m_semaphore
-				, m_context.allocator );
-		}
-
 		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
 		{
 			crgUnregisterObject( m_context, m_commandBuffer );
@@ -290,9 +300,11 @@ namespace crg
 		m_states.clear();
 		RecordContext recordContext{ m_resources };
 
+		m_graph.getHandler().initStates( recordContext );
+		recordContext.addInputStates( m_graph.m_inputs );
+
 		for ( auto & dependency : m_graph.getDependencies() )
 		{
-			recordContext.addStates( dependency->getFinalStates() );
 			m_states.try_emplace( dependency
 				, dependency->getFinalStates().getIndexState() );
 		}
@@ -307,13 +319,16 @@ namespace crg
 			recordContext.setNextPipelineState( ( *currPass )->getPipelineState()
 				, ( *currPass )->getImageLayouts() );
 			auto nextPass = std::next( currPass );
-			m_fence.wait( 0xFFFFFFFFFFFFFFFFULL );
-			m_context.vkResetCommandBuffer( m_commandBuffer, 0u );
+			checkVkResult( m_fence.wait( 0xFFFFFFFFFFFFFFFFULL )
+				, m_graph.getName() + " - Fence wait" );
+			checkVkResult( m_context.vkResetCommandBuffer( m_commandBuffer, 0u )
+				, m_graph.getName() + " - CommandBuffer reset" );
 			VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
+			checkVkResult( m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo )
+				, m_graph.getName() + " - CommandBuffer begin" );
 			m_timer.beginPass( m_commandBuffer );
 
 			while ( currPass != m_passes.end() )
@@ -338,7 +353,8 @@ namespace crg
 			}
 
 			m_timer.endPass( m_commandBuffer );
-			m_context.vkEndCommandBuffer( m_commandBuffer );
+			checkVkResult( m_context.vkEndCommandBuffer( m_commandBuffer )
+				, m_graph.getName() + " - CommandBuffer end" );
 		}
 
 		m_graph.registerFinalState( recordContext );
@@ -366,13 +382,6 @@ namespace crg
 		std::vector< VkSemaphore > semaphores;
 		std::vector< VkPipelineStageFlags > dstStageMasks;
 		convert( toWait, semaphores, dstStageMasks );
-		m_timer.notifyPassRender();
-
-		for ( auto const & pass : m_passes )
-		{
-			pass->notifyPassRender();
-		}
-
 		VkSubmitInfo submitInfo{ VK_STRUCTURE_TYPE_SUBMIT_INFO
 			, nullptr
 			, uint32_t( semaphores.size() )
@@ -381,15 +390,30 @@ namespace crg
 			, 1u
 			, &m_commandBuffer
 			, 1u
-			, &m_semaphore };
+			, &m_semaphore.object };
 		m_fence.reset();
 		m_context.delQueue.clear( m_context );
-		m_context.vkQueueSubmit( queue
+		auto res = m_context.vkQueueSubmit( queue
 			, 1u
 			, &submitInfo
 			, m_fence );
-		return { SemaphoreWait{ m_semaphore
-			, m_graph.getFinalStates().getCurrPipelineState().pipelineStage } };
+
+		if ( res != VK_SUCCESS )
+		{
+			m_fence.cancel();
+			checkVkResult( res, m_graph.getName() + " - Queue submit" );
+		}
+
+		m_graph.getHandler().registerStates( m_graph.getFinalStates() );
+		m_timer.notifyPassRender();
+
+		for ( auto const & pass : m_passes )
+		{
+			pass->notifyPassRender();
+		}
+
+		return { SemaphoreWait{ m_semaphore.object
+			, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT } };
 	}
 
 	VkImage RunnableGraph::createImage( ImageId const & image )
@@ -432,17 +456,6 @@ namespace crg
 			}
 		}
 
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
-		{
-			// Lookup in graph's previous final state.
-			result = m_graph.getFinalLayoutState( image, viewType, range );
-
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
-			{
-				context.setLayoutState( image, viewType, range, result );
-			}
-		}
-
 		return result;
 	}
 
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index a515f4c..1f8ed95 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -47,13 +47,21 @@ namespace crg
 	{
 		for ( auto & wait : toWait )
 		{
-			if ( wait.semaphore
-				&& semaphores.end() == std::find( semaphores.begin()
-					, semaphores.end()
-					, wait.semaphore ) )
+			if ( wait.semaphore )
 			{
-				semaphores.push_back( wait.semaphore );
-				dstStageMasks.push_back( wait.dstStageMask );
+				auto it = std::find( semaphores.begin()
+					, semaphores.end()
+					, wait.semaphore );
+
+				if ( it == semaphores.end() )
+				{
+					semaphores.push_back( wait.semaphore );
+					dstStageMasks.push_back( wait.dstStageMask );
+				}
+				else
+				{
+					dstStageMasks[size_t( std::distance( semaphores.begin(), it ) )] |= wait.dstStageMask;
+				}
 			}
 		}
 	}
@@ -147,6 +155,7 @@ namespace crg
 		: m_context{ rhs.m_context }
 		, m_fence{ rhs.m_fence }
 		, m_fenceWaited{ rhs.m_fenceWaited }
+		, m_cancelled{ rhs.m_cancelled }
 	{
 		rhs.m_context = {};
 		rhs.m_fence = {};
@@ -179,13 +188,14 @@ namespace crg
 		}
 
 		m_fenceWaited = false;
+		m_cancelled = false;
 	}
 
 	VkResult Fence::wait( uint64_t timeout )
 	{
 		VkResult res = VK_SUCCESS;
 
-		if ( m_fence )
+		if ( m_fence && !m_cancelled )
 		{
 			res = m_context->vkWaitForFences( m_context->device
 				, 1u
@@ -202,6 +212,11 @@ namespace crg
 		return res;
 	}
 
+	void Fence::cancel()noexcept
+	{
+		m_cancelled = true;
+	}
+
 	//*********************************************************************************************
 
 	RunnablePass::PassData::PassData( RunnableGraph & grh
@@ -355,14 +370,17 @@ namespace crg
 
 		assert( m_passes.size() > index );
 		auto & pass = m_passes[index];
-		pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL );
+		checkVkResult( pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL )
+			, m_pass.getGroupName() + " - Fence wait" );
 		VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 			, nullptr
 			, VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT
 			, nullptr };
-		m_context.vkBeginCommandBuffer( enabled.commandBuffer, &beginInfo );
+		checkVkResult( m_context.vkBeginCommandBuffer( enabled.commandBuffer, &beginInfo )
+			, m_pass.getGroupName() + " - CommandBuffer begin" );
 		recordInto( enabled.commandBuffer, index, context );
-		m_context.vkEndCommandBuffer( enabled.commandBuffer );
+		checkVkResult( m_context.vkEndCommandBuffer( enabled.commandBuffer )
+			, m_pass.getGroupName() + " - CommandBuffer end" );
 	}
 
 	void RunnablePass::recordInto( VkCommandBuffer commandBuffer
@@ -524,10 +542,12 @@ namespace crg
 
 			if ( pass.commandBuffer.commandBuffer )
 			{
-				pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL );
+				checkVkResult( pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL )
+					, m_pass.getGroupName() + " - Fence wait" );
 				pass.commandBuffer.recorded = false;
-				m_context.vkResetCommandBuffer( pass.commandBuffer.commandBuffer
-					, VK_COMMAND_BUFFER_RESET_RELEASE_RESOURCES_BIT );
+				checkVkResult( m_context.vkResetCommandBuffer( pass.commandBuffer.commandBuffer
+						, VK_COMMAND_BUFFER_RESET_RELEASE_RESOURCES_BIT )
+					, m_pass.getGroupName() + " - CommandBuffer reset" );
 			}
 		}
 	}
-- 
2.43.0


From 5c5782933143839cf0832799c52be3ccb3a0a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 14/32] fix: render passes size themselves, their viewport and
 their layers from the attachments of the recorded index

---
 .../RenderGraph/RunnablePasses/RenderPassHolder.hpp | 13 ++++++++++++-
 source/RenderGraph/RunnablePasses/RenderMesh.cpp    |  2 +-
 .../RenderGraph/RunnablePasses/RenderPassHolder.cpp |  8 ++++----
 source/RenderGraph/RunnablePasses/RenderQuad.cpp    |  2 +-
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 93f4493..357356b 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -52,6 +52,17 @@ namespace crg
 			return m_size;
 		}
 
+		/**
+		*\return
+		*	The size of the area rendered by the pass: the one it was given, else the one of its attachments.
+		*/
+		VkExtent2D getRenderSize( uint32_t index )const
+		{
+			return ( m_size.width && m_size.height )
+				? m_size
+				: getRenderArea( index ).extent;
+		}
+
 		VkRect2D const & getRenderArea( uint32_t index )const
 		{
 			return m_passes[index].renderArea;
@@ -87,6 +98,7 @@ namespace crg
 			std::vector< Entry > attaches;
 			PipelineState previousState;
 			PipelineState nextState;
+			uint32_t layers{};
 
 			void cleanup( crg::GraphContext & context )noexcept;
 		};
@@ -98,7 +110,6 @@ namespace crg
 		std::vector< PassData > m_passes;
 		PassData const * m_currentPass{};
 		VkPipelineColorBlendAttachmentStateArray m_blendAttachs;
-		uint32_t m_layers{};
 		uint32_t m_index{};
 		uint32_t m_count{ 1u };
 	};
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index c719f84..8154582 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -52,7 +52,7 @@ namespace crg
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
 			m_renderMesh.cleanup();
-			m_renderMesh.initialise( m_renderPass.getRenderSize()
+			m_renderMesh.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
 				, index );
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 0f9c73a..5fad80f 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -417,7 +417,7 @@ namespace crg
 		uint32_t width{ m_size.width };
 		uint32_t height{ m_size.height };
 		m_passes[index].attachments.clear();
-		m_layers = 1u;
+		m_passes[index].layers = 1u;
 
 		for ( auto & attach : m_pass.images )
 		{
@@ -425,13 +425,13 @@ namespace crg
 				|| attach.isDepthAttach()
 				|| attach.isStencilAttach() )
 			{
-				auto view = attach.view();
+				auto view = attach.view( index );
 				m_passes[index].attachments.push_back( &attach );
 				width = std::max( width
 					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
 				height = std::max( height
 					, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel );
-				m_layers = std::max( m_layers
+				m_passes[index].layers = std::max( m_passes[index].layers
 					, view.data->info.subresourceRange.layerCount );
 			}
 		}
@@ -462,7 +462,7 @@ namespace crg
 				, attachments.data()
 				, data.renderArea.extent.width
 				, data.renderArea.extent.height
-				, m_layers };
+				, data.layers };
 			auto res = m_context.vkCreateFramebuffer( m_context.device
 				, &createInfo
 				, m_context.allocator
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index 66259b3..e571b46 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -51,7 +51,7 @@ namespace crg
 	{
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
-			m_renderQuad.initialise( m_renderPass.getRenderSize()
+			m_renderQuad.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
 				, index );
-- 
2.43.0


From 0c4f541e909da8465aada373989557a32d786b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 15/32] fix: compute passes call each group count's own
 callback and create each pipeline once

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index e872569..b229909 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -52,6 +52,7 @@ namespace crg
 		, uint32_t index )
 	{
 		resetCommandBuffer( index );
+		m_pipeline.initialise();
 		m_pipeline.resetPipeline( std::move( config ), index );
 		doCreatePipeline( index );
 		reRecordCurrent();
@@ -96,8 +97,8 @@ namespace crg
 		{
 			context->vkCmdDispatch( commandBuffer
 				, ( m_cpConfig.getGroupCountX ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountX )
-				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountY )
-				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountZ ) );
+				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountY )() : m_cpConfig.groupCountY )
+				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountZ )() : m_cpConfig.groupCountZ ) );
 		}
 
 		m_cpConfig.end( context, commandBuffer, index );
@@ -105,6 +106,11 @@ namespace crg
 
 	void ComputePass::doCreatePipeline( uint32_t index )
 	{
+		if ( m_pipeline.getPipeline( index ) )
+		{
+			return;
+		}
+
 		auto & program = m_pipeline.getProgram( index );
 		VkComputePipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From 66c79e8de5447018a8402b08782b835ec9589aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 16/32] fix: replaced pipelines are destroyed once the graph no
 longer executes, and no later than the graph

---
 source/RenderGraph/RunnableGraph.cpp             | 2 ++
 source/RenderGraph/RunnablePass.cpp              | 6 ++++++
 source/RenderGraph/RunnablePasses/RenderMesh.cpp | 1 -
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 2c6874b..4d835ed 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -284,6 +284,8 @@ namespace crg
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
+		m_context.delQueue.clear( m_context );
+
 		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
 		{
 			crgUnregisterObject( m_context, m_commandBuffer );
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1f8ed95..d1a521c 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -370,6 +370,9 @@ namespace crg
 
 		assert( m_passes.size() > index );
 		auto & pass = m_passes[index];
+		// Recording can replace what the pass uses, hence the graph must not be executing.
+		checkVkResult( m_graph.getFence().wait( 0xFFFFFFFFFFFFFFFFULL )
+			, m_pass.getGroupName() + " - Graph fence wait" );
 		checkVkResult( pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL )
 			, m_pass.getGroupName() + " - Fence wait" );
 		VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
@@ -539,6 +542,9 @@ namespace crg
 		{
 			assert( m_passes.size() > passIndex );
 			auto & pass = m_passes[passIndex];
+			// The caller replaces what the pass uses, hence the graph must not be executing.
+			checkVkResult( m_graph.getFence().wait( 0xFFFFFFFFFFFFFFFFULL )
+				, m_pass.getGroupName() + " - Graph fence wait" );
 
 			if ( pass.commandBuffer.commandBuffer )
 			{
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index 8154582..a2cf58d 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -51,7 +51,6 @@ namespace crg
 	{
 		if ( m_renderPass.initialise( context, *this, index ) )
 		{
-			m_renderMesh.cleanup();
 			m_renderMesh.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
 				, m_renderPass.createBlendState()
-- 
2.43.0


From 9a442a21fbc3e27ff8ab3f874179ace8ea5011dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 17/32] fix: pass holders can be initialised again after a
 failure, and for each render pass

---
 source/RenderGraph/RunnablePasses/PipelineHolder.cpp | 12 +++++++++++-
 .../RenderGraph/RunnablePasses/RenderMeshHolder.cpp  | 12 +-----------
 .../RenderGraph/RunnablePasses/RenderQuadHolder.cpp  | 10 +++-------
 3 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index c899604..23e2475 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -46,11 +46,19 @@ namespace crg
 
 	void PipelineHolder::initialise()
 	{
-		if ( !m_pipelineLayout )
+		if ( !m_descriptorSetLayout )
 		{
 			doFillDescriptorBindings();
 			doCreateDescriptorSetLayout();
+		}
+
+		if ( !m_pipelineLayout )
+		{
 			doCreatePipelineLayout();
+		}
+
+		if ( !m_descriptorSetPool )
+		{
 			doCreateDescriptorPool();
 		}
 	}
@@ -239,6 +247,8 @@ namespace crg
 			return;
 		}
 
+		descriptorSet.writes.clear();
+
 		for ( auto & attach : m_pass.images )
 		{
 			if ( attach.isSampledView() )
diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index ee2f234..dbef9d3 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -69,17 +69,7 @@ namespace crg
 		, uint32_t index )
 	{
 		m_pipeline.initialise();
-
-		if ( !m_renderPass )
-		{
-			doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
-		}
-		else if ( m_renderPass != renderPass )
-		{
-			resetRenderPass( renderSize, renderPass, std::move( blendState ), index );
-		}
-
-		doCreatePipeline( index );
+		resetRenderPass( renderSize, renderPass, std::move( blendState ), index );
 	}
 
 	void RenderMeshHolder::cleanup()
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index cf1cbff..f7f6eba 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -68,19 +68,15 @@ namespace crg
 		, VkPipelineColorBlendStateCreateInfo blendState
 		, uint32_t index )
 	{
+		m_pipeline.initialise();
+
 		if ( !m_vertexBuffer )
 		{
-			m_pipeline.initialise();
 			m_vertexBuffer = &m_graph.createQuadTriVertexBuffer( m_useTexCoord
 				, m_config.texcoordConfig );
-			doPreparePipelineStates( renderSize, renderPass, std::move( blendState ) );
-		}
-		else if ( m_renderPass != renderPass )
-		{
-			resetRenderPass( renderSize, renderPass, std::move( blendState ), index );
 		}
 
-		doCreatePipeline( index );
+		resetRenderPass( renderSize, renderPass, std::move( blendState ), index );
 	}
 
 	void RenderQuadHolder::resetRenderPass( VkExtent2D const & renderSize
-- 
2.43.0


From fd46f16fbc9fc622b9611224d6f50fc67f98534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 18/32] fix: implicit barriers start each subresource from its
 own layout

---
 source/RenderGraph/RunnablePass.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index d1a521c..265b4ad 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -434,7 +434,7 @@ namespace crg
 					LayoutState const needed{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
 						, { attach.getAccessMask()
 							, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } };
-					auto currentLayout = ( !attach.isInput()
+					auto const currentLayout = ( !attach.isInput()
 						? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
 						: m_graph.getCurrentLayoutState( context, view ) );
 					checkUndefinedInput( "Record", attach, view, currentLayout.layout );
@@ -443,7 +443,6 @@ namespace crg
 					{
 						context.memoryBarrier( commandBuffer
 							, view
-							, currentLayout.layout
 							, LayoutState{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } } );
 
 						if ( isColourFormat( getFormat( view ) ) )
@@ -466,15 +465,10 @@ namespace crg
 								, 1u
 								, &view.data->info.subresourceRange );
 						}
-
-						currentLayout.layout = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
-						currentLayout.state.access = VK_ACCESS_TRANSFER_WRITE_BIT;
-						currentLayout.state.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
 					}
 
 					context.memoryBarrier( commandBuffer
 						, view
-						, currentLayout.layout
 						, needed );
 				}
 			}
-- 
2.43.0


From 8ee7142a176363deefda0a3ffbf83c914fe7ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 19/32] fix: deferred deletions wait for what every graph of
 the context has submitted

---
 include/RenderGraph/GraphContext.hpp | 70 +++++++++++++++++++++++++---
 source/RenderGraph/GraphContext.cpp  |  2 +
 source/RenderGraph/RunnableGraph.cpp |  7 ++-
 3 files changed, 70 insertions(+), 9 deletions(-)

diff --git a/include/RenderGraph/GraphContext.hpp b/include/RenderGraph/GraphContext.hpp
index e68685e..8db43d5 100644
--- a/include/RenderGraph/GraphContext.hpp
+++ b/include/RenderGraph/GraphContext.hpp
@@ -6,8 +6,11 @@ See LICENSE file in root folder.
 
 #include "FrameGraphPrerequisites.hpp"
 
+#include <algorithm>
 #include <array>
 #include <functional>
+#include <iterator>
+#include <map>
 #include <string>
 #include <unordered_map>
 #pragma warning( push )
@@ -346,26 +349,79 @@ namespace crg
 	{
 		using CDtorFunc = void( GraphContext & );
 		using DtorFunc = std::function< CDtorFunc >;
-		using DtorFuncArray = std::vector< DtorFunc >;
 
 	public:
 		void push( DtorFunc func )
 		{
-			m_toDelete.push_back( std::move( func ) );
+			m_toDelete.push_back( { std::move( func ), m_lastSubmission } );
 		}
-
+		/**
+		*\brief
+		*	Executes every deletion.
+		*/
 		void clear( GraphContext & context )
 		{
-			DtorFuncArray tmp{ std::move( m_toDelete ) };
+			doExecute( m_toDelete.end(), context );
+		}
+		/**
+		*\brief
+		*	Executes the deletions given when nothing of what is still executing was submitted.
+		*/
+		void clearCompleted( GraphContext & context )
+		{
+			doExecute( std::find_if( m_toDelete.begin()
+					, m_toDelete.end()
+					, [this]( Entry const & entry )
+					{
+						return std::any_of( m_executing.begin()
+							, m_executing.end()
+							, [&entry]( std::pair< void const * const, uint64_t > const & executing )
+							{
+								return executing.second <= entry.lastSubmission;
+							} );
+					} )
+				, context );
+		}
+		/**
+		*\brief
+		*	Tells that the given graph was submitted.
+		*/
+		void notifySubmitted( void const * graph )
+		{
+			m_executing.insert_or_assign( graph, ++m_lastSubmission );
+		}
+		/**
+		*\brief
+		*	Tells that everything that was submitted by the given graph is executed.
+		*/
+		void notifyCompleted( void const * graph )
+		{
+			m_executing.erase( graph );
+		}
+
+	private:
+		struct Entry
+		{
+			DtorFunc func;
+			uint64_t lastSubmission;
+		};
+		using EntryArray = std::vector< Entry >;
+
+		void doExecute( EntryArray::iterator end, GraphContext & context )
+		{
+			EntryArray tmp{ std::make_move_iterator( m_toDelete.begin() ), std::make_move_iterator( end ) };
+			m_toDelete.erase( m_toDelete.begin(), end );
 
-			for ( DtorFunc const & func : tmp )
+			for ( auto const & entry : tmp )
 			{
-				func( context );
+				entry.func( context );
 			}
 		}
 
 	private:
-		DtorFuncArray m_toDelete;
+		EntryArray m_toDelete;
+		uint64_t m_lastSubmission{};
+		std::map< void const *, uint64_t > m_executing;
 	};
 
 	struct GraphContext
diff --git a/source/RenderGraph/GraphContext.cpp b/source/RenderGraph/GraphContext.cpp
index 3c403ce..e748223 100644
--- a/source/RenderGraph/GraphContext.cpp
+++ b/source/RenderGraph/GraphContext.cpp
@@ -147,6 +147,8 @@ namespace crg
 
 	GraphContext::~GraphContext()noexcept
 	{
+		delQueue.clear( *this );
+
 #if VK_EXT_debug_utils || VK_EXT_debug_marker
 		for ( auto const & [_, alloc] : m_allocated )
 		{
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 4d835ed..440fc28 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -284,7 +284,8 @@ namespace crg
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
-		m_context.delQueue.clear( m_context );
+		m_context.delQueue.notifyCompleted( this );
+		m_context.delQueue.clearCompleted( m_context );
 
 		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
 		{
@@ -394,7 +395,8 @@ namespace crg
 			, 1u
 			, &m_semaphore.object };
 		m_fence.reset();
-		m_context.delQueue.clear( m_context );
+		m_context.delQueue.notifyCompleted( this );
+		m_context.delQueue.clearCompleted( m_context );
 		auto res = m_context.vkQueueSubmit( queue
 			, 1u
 			, &submitInfo
@@ -406,6 +408,7 @@ namespace crg
 			checkVkResult( res, m_graph.getName() + " - Queue submit" );
 		}
 
+		m_context.delQueue.notifySubmitted( this );
 		m_graph.getHandler().registerStates( m_graph.getFinalStates() );
 		m_timer.notifyPassRender();
 
-- 
2.43.0


From 898d7fe61ee57ace0a37bde341504fa81ad63dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 20/32] fix: a failed render pass replacement keeps the
 previous one, and what depends on it is initialised when retried

---
 .../RunnablePasses/RenderPassHolder.hpp       |  1 +
 .../RunnablePasses/RenderMeshHolder.cpp       |  2 +-
 .../RunnablePasses/RenderPassHolder.cpp       | 32 ++++++++++++++-----
 .../RunnablePasses/RenderQuadHolder.cpp       | 16 +++++-----
 4 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 357356b..dbc6bab 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -99,6 +99,7 @@ namespace crg
 			PipelineState previousState;
 			PipelineState nextState;
 			uint32_t layers{};
+			bool begun{};
 
 			void cleanup( crg::GraphContext & context )noexcept;
 		};
diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index dbef9d3..79435c9 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -68,7 +68,6 @@ namespace crg
 		, VkPipelineColorBlendStateCreateInfo blendState
 		, uint32_t index )
 	{
-		m_pipeline.initialise();
 		resetRenderPass( renderSize, renderPass, std::move( blendState ), index );
 	}
 
@@ -176,6 +175,7 @@ namespace crg
 			return;
 		}
 
+		m_pipeline.initialise();
 		auto & program = m_pipeline.getProgram( index );
 		VkGraphicsPipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO
 			, nullptr
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 5fad80f..627d93b 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -234,16 +234,31 @@ namespace crg
 			&& data.previousState == previousState
 			&& data.nextState == nextState )
 		{
-			return false;
+			// What depends on the render pass was not initialised if it was never begun.
+			return !data.begun;
 		}
 
-		data.cleanup( m_context );
-		doCreateRenderPass( context
-			, runnable
-			, previousState
-			, nextState
-			, passIndex );
-		doInitialiseRenderArea( passIndex );
+		// The previous render pass is kept if the new one can't be created.
+		PassData previous{ std::move( data ) };
+		data = PassData{};
+
+		try
+		{
+			doCreateRenderPass( context
+				, runnable
+				, previousState
+				, nextState
+				, passIndex );
+			doInitialiseRenderArea( passIndex );
+		}
+		catch ( ... )
+		{
+			data.cleanup( m_context );
+			data = std::move( previous );
+			throw;
+		}
+
+		previous.cleanup( m_context );
 		return true;
 	}
 
@@ -279,6 +294,7 @@ namespace crg
 		m_context.vkCmdBeginRenderPass( commandBuffer
 			, &beginInfo
 			, subpassContents );
+		m_passes[m_index].begun = true;
 	}
 
 	void RenderPassHolder::end( RecordContext & context
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index f7f6eba..280869c 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -68,14 +68,6 @@ namespace crg
 		, VkPipelineColorBlendStateCreateInfo blendState
 		, uint32_t index )
 	{
-		m_pipeline.initialise();
-
-		if ( !m_vertexBuffer )
-		{
-			m_vertexBuffer = &m_graph.createQuadTriVertexBuffer( m_useTexCoord
-				, m_config.texcoordConfig );
-		}
-
 		resetRenderPass( renderSize, renderPass, std::move( blendState ), index );
 	}
 
@@ -165,6 +157,14 @@ namespace crg
 			return;
 		}
 
+		m_pipeline.initialise();
+
+		if ( !m_vertexBuffer )
+		{
+			m_vertexBuffer = &m_graph.createQuadTriVertexBuffer( m_useTexCoord
+				, m_config.texcoordConfig );
+		}
+
 		auto & program = m_pipeline.getProgram( index );
 		VkGraphicsPipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From 9e3aecacdbdb4aeefac7db25681ee2b863865994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 21/32] fix: the barrier of a buffer covers every use the pass
 makes of it, and re-recording recovers from a failed one

---
 source/RenderGraph/RunnablePass.cpp | 67 +++++++++++++++++++----------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 265b4ad..bec3101 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -375,6 +375,9 @@ namespace crg
 			, m_pass.getGroupName() + " - Graph fence wait" );
 		checkVkResult( pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL )
 			, m_pass.getGroupName() + " - Fence wait" );
+		// A previous recording may have failed before its end.
+		checkVkResult( m_context.vkResetCommandBuffer( enabled.commandBuffer, 0u )
+			, m_pass.getGroupName() + " - CommandBuffer reset" );
 		VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 			, nullptr
 			, VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT
@@ -473,38 +476,58 @@ namespace crg
 				}
 			}
 
+			auto isTransitioned = []( Attachment const & attach )
+				{
+					return !attach.isNoTransition()
+						&& ( attach.isUniformBuffer() || attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() );
+				};
+
 			for ( auto & attach : m_pass.buffers )
 			{
-				if ( !attach.isNoTransition()
-					&& ( attach.isUniformBuffer() || attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
+				if ( isTransitioned( attach )
+					&& attach.isClearableBuffer() )
 				{
 					auto & range = attach.getBufferRange();
 					auto buffer = attach.buffer( index );
-					auto currentState = context.getAccessState( buffer, range );
+					context.memoryBarrier( commandBuffer
+						, buffer
+						, range
+						, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } );
+					m_context.vkCmdFillBuffer( commandBuffer
+						, buffer
+						, range.offset == 0u ? 0u : details::getAlignedSize( range.offset, 4u )
+						, range.size == VK_WHOLE_SIZE ? VK_WHOLE_SIZE : details::getAlignedSize( range.size, 4u )
+						, 0u );
+				}
+			}
+
+			for ( auto it = m_pass.buffers.begin(); it != m_pass.buffers.end(); ++it )
+			{
+				auto isSameBuffer = [&it, &isTransitioned, index]( Attachment const & lookup )
+					{
+						return isTransitioned( lookup )
+							&& lookup.buffer( index ) == it->buffer( index );
+					};
 
-					if ( attach.isClearableBuffer() )
+				if ( isTransitioned( *it )
+					&& std::none_of( m_pass.buffers.begin(), it, isSameBuffer ) )
+				{
+					// The state is the one of the whole buffer, hence it gathers what the pass does to every range of it.
+					AccessState needed{};
+
+					for ( auto & attach : m_pass.buffers )
 					{
-						context.memoryBarrier( commandBuffer
-							, buffer
-							, range
-							, currentState.access
-							, currentState.pipelineStage
-							, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } );
-						m_context.vkCmdFillBuffer( commandBuffer
-							, buffer
-							, range.offset == 0u ? 0u : details::getAlignedSize( range.offset, 4u )
-							, range.size == VK_WHOLE_SIZE ? VK_WHOLE_SIZE : details::getAlignedSize( range.size, 4u )
-							, 0u );
-						currentState.access = VK_ACCESS_TRANSFER_WRITE_BIT;
-						currentState.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
+						if ( isSameBuffer( attach ) )
+						{
+							needed.access |= attach.getAccessMask();
+							needed.pipelineStage |= attach.getPipelineStageFlags( m_callbacks.isComputePass() );
+						}
 					}
 
 					context.memoryBarrier( commandBuffer
-						, buffer
-						, range
-						, currentState.access
-						, currentState.pipelineStage
-						, { attach.getAccessMask(), attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } );
+						, it->buffer( index )
+						, it->getBufferRange()
+						, needed );
 				}
 			}
 
-- 
2.43.0


From 3d02f7c95acef798e48a804ed10bce88c58a7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 22/32] fix: timers report the latest submitted frame, and
 nothing for a pass it left out

---
 include/RenderGraph/FramePassTimer.hpp |  5 +++++
 source/RenderGraph/FramePassTimer.cpp  | 15 +++++++++++----
 source/RenderGraph/RunnablePass.cpp    |  4 ++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/RenderGraph/FramePassTimer.hpp b/include/RenderGraph/FramePassTimer.hpp
index f566291..a2a6d89 100644
--- a/include/RenderGraph/FramePassTimer.hpp
+++ b/include/RenderGraph/FramePassTimer.hpp
@@ -96,6 +96,11 @@ namespace crg
 		CRG_API void notifyPassRender( uint32_t passIndex = 0u )noexcept;
 		/**
 		*\brief
+		*	Notifies that the pass was not part of what was submitted.
+		*/
+		CRG_API void notifyPassSkipped()noexcept;
+		/**
+		*\brief
 		*	Reset the timer's times.
 		*/
 		CRG_API void reset()noexcept;
diff --git a/source/RenderGraph/FramePassTimer.cpp b/source/RenderGraph/FramePassTimer.cpp
index 0045134..20c12c4 100644
--- a/source/RenderGraph/FramePassTimer.cpp
+++ b/source/RenderGraph/FramePassTimer.cpp
@@ -84,8 +84,14 @@ namespace crg
 
 	void FramePassTimer::notifyPassRender( [[maybe_unused]] uint32_t passIndex )noexcept
 	{
-		auto & query = m_queries.front();
-		query.started = true;
+		m_queries.front().started = true;
+		m_queries.back().started = false;
+	}
+
+	void FramePassTimer::notifyPassSkipped()noexcept
+	{
+		m_queries.front().started = false;
+		m_queries.back().started = false;
 	}
 
 	void FramePassTimer::stop()noexcept
@@ -104,7 +110,6 @@ namespace crg
 	{
 		std::swap( m_queries.front(), m_queries.back() );
 		auto & query = m_queries.front();
-		query.started = false;
 		query.written = false;
 		m_context.vkCmdResetQueryPool( commandBuffer
 			, m_timerQueries
@@ -131,7 +136,9 @@ namespace crg
 		auto before = Clock::now();
 		m_gpuTime = 0ns;
 
-		if ( auto & query = m_queries.front(); query.started && query.written )
+		// What was recorded last may not have been submitted.
+		if ( auto & query = m_queries.front().started ? m_queries.front() : m_queries.back();
+			query.started && query.written )
 		{
 			std::array< uint64_t, 2u > values{ 0u, 0u };
 			auto res = m_context.vkGetQueryPoolResults( m_context.device
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index bec3101..3356e5a 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -581,6 +581,10 @@ namespace crg
 		{
 			m_timer.notifyPassRender( getIndex() );
 		}
+		else
+		{
+			m_timer.notifyPassSkipped();
+		}
 	}
 
 	VkCommandBuffer RunnablePass::doCreateCommandBuffer( std::string const & suffix )
-- 
2.43.0


From 82b94c9e08d57e6e08dfb9da6f2b8baf4adda00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 23/32] fix: colours of debug labels without a data race
 between threads compiling graphs

---
 source/RenderGraph/GraphContext.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/RenderGraph/GraphContext.cpp b/source/RenderGraph/GraphContext.cpp
index e748223..3e33b7e 100644
--- a/source/RenderGraph/GraphContext.cpp
+++ b/source/RenderGraph/GraphContext.cpp
@@ -6,6 +6,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/Exception.hpp"
 #include "RenderGraph/Log.hpp"
 
+#include <atomic>
 #include <cassert>
 #include <cmath>
 #include <stdexcept>
@@ -202,17 +203,24 @@ namespace crg
 
 	std::array< float, 4u > GraphContext::getNextRainbowColour()const
 	{
-		static float currentColourHue{ 0.0f };
-		currentColourHue += 0.0125f;
+		static std::atomic< float > currentColourHue{ 0.0f };
+		float previous = currentColourHue.load();
+		float hue{};
 
-		if ( currentColourHue > 1.0f )
+		do
 		{
-			currentColourHue = 0.0f;
+			hue = previous + 0.0125f;
+
+			if ( hue > 1.0f )
+			{
+				hue = 0.0f;
+			}
 		}
+		while ( !currentColourHue.compare_exchange_weak( previous, hue ) );
 
 		float brightness = 1.0f;
 		float saturation = 1.0f;
-		float h = currentColourHue == 1.0f ? 0 : currentColourHue * 6.0f;
+		float h = hue == 1.0f ? 0 : hue * 6.0f;
 		float f = h - std::floor( h );
 		float p = brightness * ( 1.0f - saturation );
 		float q = brightness * ( 1.0f - saturation * f );
-- 
2.43.0


From b59c3e4c84808d99ef3bf6dfcdf9ec426a69435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 24/32] fix: views that only differ by their swizzle shared one
 device object

---
 include/RenderGraph/ImageViewData.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 4e28351..abca5ee 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -48,11 +48,20 @@ namespace crg
 			&& lhs.levelCount == rhs.levelCount;
 	}
 
+	inline bool operator==( VkComponentMapping const & lhs, VkComponentMapping const & rhs )
+	{
+		return lhs.r == rhs.r
+			&& lhs.g == rhs.g
+			&& lhs.b == rhs.b
+			&& lhs.a == rhs.a;
+	}
+
 	inline bool operator==( VkImageViewCreateInfo const & lhs, VkImageViewCreateInfo const & rhs )
 	{
 		return lhs.flags == rhs.flags
 			&& lhs.viewType == rhs.viewType
 			&& lhs.format == rhs.format
+			&& lhs.components == rhs.components
 			&& lhs.subresourceRange == rhs.subresourceRange;
 	}
 
-- 
2.43.0


From a5cdfdec4d10bffb1a9cfa25f8efc2497850af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:51 +0000
Subject: [PATCH 25/32] fix: mip levels of a merged view could not be generated

The next layout of the view was looked up without resolving it, which an
assertion forbids.
---
 source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
index 51660dd..3d6f77b 100644
--- a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
+++ b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
@@ -57,7 +57,7 @@ namespace crg
 		auto mipLevels = imageId.data->info.mipLevels;
 		auto nextLayoutState = m_graph.getNextLayoutState( context
 			, *this
-			, viewId );
+			, resolveView( viewId, 0u ) );
 
 		auto const width = int32_t( extent.width );
 		auto const height = int32_t( extent.height );
-- 
2.43.0


From c6cbc16ab31e45d61fe63ec7e09e3a65dffed47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:09 +0000
Subject: [PATCH 26/32] fix: levels of a 3D image could be left out of its
 states

---
 source/RenderGraph/FrameGraph.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 19c38d8..635c238 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -627,12 +627,11 @@ namespace crg
 	{
 		VkImageSubresourceRange result = range;
 
-		if ( viewType == VK_IMAGE_VIEW_TYPE_3D
-			&& ( range.levelCount == 1u
-				|| range.levelCount == image.data->info.mipLevels ) )
+		if ( viewType == VK_IMAGE_VIEW_TYPE_3D )
 		{
+			// The same slices for each level, hence for each range of levels.
 			result.baseArrayLayer = 0u;
-			result.layerCount = getExtent( image ).depth >> range.baseMipLevel;
+			result.layerCount = getExtent( image ).depth;
 		}
 
 		return result;
-- 
2.43.0


From a7e0acf812df331a604c63eaa84bf43e8e7ec8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:40 +0000
Subject: [PATCH 27/32] fix: the extent of a mip level could be zero

---
 source/RenderGraph/FrameGraph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 635c238..13619eb 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -354,9 +354,9 @@ namespace crg
 	VkExtent3D getMipExtent( ImageViewId const & image )
 	{
 		auto result = getExtent( image.data->image );
-		result.width >>= image.data->info.subresourceRange.baseMipLevel;
-		result.height >>= image.data->info.subresourceRange.baseMipLevel;
-		result.depth >>= image.data->info.subresourceRange.baseMipLevel;
+		result.width = std::max( 1u, result.width >> image.data->info.subresourceRange.baseMipLevel );
+		result.height = std::max( 1u, result.height >> image.data->info.subresourceRange.baseMipLevel );
+		result.depth = std::max( 1u, result.depth >> image.data->info.subresourceRange.baseMipLevel );
 		return result;
 	}
 
-- 
2.43.0


From 72da9c19402f9f8305c2a42a5a1f73f6e58653f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:14 +0000
Subject: [PATCH 28/32] fix: the framebuffer of a small mip level could be
 empty

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 627d93b..d3a1fc0 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -443,10 +443,9 @@ namespace crg
 			{
 				auto view = attach.view( index );
 				m_passes[index].attachments.push_back( &attach );
-				width = std::max( width
-					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
-				height = std::max( height
-					, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel );
+				auto extent = getMipExtent( view );
+				width = std::max( width, extent.width );
+				height = std::max( height, extent.height );
 				m_passes[index].layers = std::max( m_passes[index].layers
 					, view.data->info.subresourceRange.layerCount );
 			}
-- 
2.43.0


From a2e6608319526a91b06d2fa590918c2f66cc4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:18 +0000
Subject: [PATCH 29/32] fix: an undefined depth input was cleared in a
 read-only layout and its stencil loaded

Without contents to load, an attachment is cleared: neither can this be done
in a read-only layout, nor can the stencil aspect be loaded.
---
 .../RunnablePasses/RenderPassHolder.cpp       | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index d3a1fc0..b4a1cfd 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -64,6 +64,24 @@ namespace crg
 			return result;
 		}
 
+		// An attachment can't be cleared in a read-only layout.
+		static VkImageLayout getClearableLayout( VkImageLayout layout )
+		{
+			switch ( layout )
+			{
+			case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
+				return VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
+#if VK_KHR_separate_depth_stencil_layouts
+			case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+				return VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL;
+			case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
+				return VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL;
+#endif
+			default:
+				return layout;
+			}
+		}
+
 		static VkAttachmentReference addAttach( RecordContext & context
 			, Attachment const & attach
 			, ImageViewId view
@@ -74,16 +92,21 @@ namespace crg
 			, LayoutState finalLayout
 			, bool separateDepthStencilLayouts )
 		{
+			// Without contents to load, the attachment is cleared.
+			bool const isUndefined = initialLayout.layout == VK_IMAGE_LAYOUT_UNDEFINED;
+			auto const layout = attach.getImageLayout( separateDepthStencilLayouts );
 			VkAttachmentReference result{ uint32_t( attaches.size() )
-				, attach.getImageLayout( separateDepthStencilLayouts ) };
+				, ( isUndefined ? getClearableLayout( layout ) : layout ) };
 			attaches.push_back( { 0u
 				, view.data->info.format
 				, view.data->image.data->info.samples
-				, ( initialLayout.layout == VK_IMAGE_LAYOUT_UNDEFINED
+				, ( isUndefined
 					? VK_ATTACHMENT_LOAD_OP_CLEAR
 					: attach.getLoadOp() )
 				, attach.getStoreOp()
-				, attach.getStencilLoadOp()
+				, ( isUndefined && attach.getStencilLoadOp() == VK_ATTACHMENT_LOAD_OP_LOAD
+					? VK_ATTACHMENT_LOAD_OP_CLEAR
+					: attach.getStencilLoadOp() )
 				, attach.getStencilStoreOp()
 				, initialLayout.layout
 				, finalLayout.layout } );
-- 
2.43.0


From ce439eed4c7e9bbfa7132f5b306ba6a4b43f25f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:55 +0000
Subject: [PATCH 30/32] fix: a pipeline shared by several pass indices kept the
 viewport of another index

---
 .../RenderGraph/RunnablePasses/PipelineHolder.hpp  |  1 +
 .../RunnablePasses/RenderMeshHolder.hpp            |  7 +++++++
 .../RunnablePasses/RenderQuadHolder.hpp            |  7 +++++++
 .../RenderGraph/RunnablePasses/PipelineHolder.cpp  |  9 +++++++--
 source/RenderGraph/RunnablePasses/RenderMesh.cpp   |  4 +++-
 .../RunnablePasses/RenderMeshHolder.cpp            | 13 ++++++++++++-
 source/RenderGraph/RunnablePasses/RenderQuad.cpp   |  4 +++-
 .../RunnablePasses/RenderQuadHolder.cpp            | 14 ++++++++++++++
 8 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/PipelineHolder.hpp b/include/RenderGraph/RunnablePasses/PipelineHolder.hpp
index 4955db0..b3ad222 100644
--- a/include/RenderGraph/RunnablePasses/PipelineHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/PipelineHolder.hpp
@@ -26,6 +26,7 @@ namespace crg
 		CRG_API void cleanup()noexcept;
 		CRG_API VkPipelineShaderStageCreateInfoArray const & getProgram( uint32_t index );
 		CRG_API VkPipeline & getPipeline( uint32_t index );
+		CRG_API uint32_t getPipelineIndex( uint32_t index )const;
 		CRG_API void createPipeline( uint32_t index
 			, std::string const & name
 			, VkGraphicsPipelineCreateInfo const & createInfo );
diff --git a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
index d39e7aa..2976e45 100644
--- a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
@@ -29,6 +29,12 @@ namespace crg
 			, uint32_t index );
 		CRG_API void resetPipeline( VkPipelineShaderStageCreateInfoArray config
 			, uint32_t index );
+		/**
+		*\return
+		*	\p true if the pipeline used for \p index was created for given render size.
+		*/
+		CRG_API bool isPrepared( VkExtent2D const & renderSize
+			, uint32_t index )const;
 		CRG_API void record( RecordContext & context
 			, VkCommandBuffer commandBuffer
 			, uint32_t index );
@@ -53,6 +59,7 @@ namespace crg
 		PipelineHolder m_pipeline;
 		VkRenderPass m_renderPass{};
 		VkExtent2D m_renderSize{};
+		std::vector< VkExtent2D > m_pipelineSizes{};
 		VkViewport m_viewport{};
 		VkRect2D m_scissor{};
 		VkPipelineViewportStateCreateInfo m_vpState{};
diff --git a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
index 7630f46..935a317 100644
--- a/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderQuadHolder.hpp
@@ -28,6 +28,12 @@ namespace crg
 			, uint32_t index );
 		CRG_API void resetPipeline( VkPipelineShaderStageCreateInfoArray config
 			, uint32_t index );
+		/**
+		*\return
+		*	\p true if the pipeline used for \p index was created for given render size.
+		*/
+		CRG_API bool isPrepared( VkExtent2D const & renderSize
+			, uint32_t index )const;
 		CRG_API void record( RecordContext & context
 			, VkCommandBuffer commandBuffer
 			, uint32_t index );
@@ -69,6 +75,7 @@ namespace crg
 		VertexBuffer const * m_vertexBuffer{};
 		VkRenderPass m_renderPass{};
 		VkExtent2D m_renderSize{};
+		std::vector< VkExtent2D > m_pipelineSizes{};
 		VkViewport m_viewport{};
 		VkRect2D m_scissor{};
 		VkPipelineViewportStateCreateInfo m_vpState{};
diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index 23e2475..a733e2f 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -135,15 +135,20 @@ namespace crg
 	}
 
 	VkPipeline & PipelineHolder::getPipeline( uint32_t index )
+	{
+		return m_pipelines[getPipelineIndex( index )];
+	}
+
+	uint32_t PipelineHolder::getPipelineIndex( uint32_t index )const
 	{
 		if ( m_baseConfig.m_programs.size() == 1u )
 		{
 			assert( m_pipelines.size() == 1u );
-			return m_pipelines[0];
+			return 0u;
 		}
 
 		assert( m_pipelines.size() > index );
-		return m_pipelines[index];
+		return index;
 	}
 
 	void PipelineHolder::createPipeline( uint32_t index
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index a2cf58d..c8b18b6 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -49,7 +49,9 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
-		if ( m_renderPass.initialise( context, *this, index ) )
+		// The pipeline may be shared with an index of another size.
+		if ( m_renderPass.initialise( context, *this, index )
+			|| !m_renderMesh.isPrepared( m_renderPass.getRenderSize( index ), index ) )
 		{
 			m_renderMesh.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index 79435c9..f7a6764 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -97,6 +97,15 @@ namespace crg
 		}
 	}
 
+	bool RenderMeshHolder::isPrepared( VkExtent2D const & renderSize
+		, uint32_t index )const
+	{
+		auto pipelineIndex = m_pipeline.getPipelineIndex( index );
+		return pipelineIndex < m_pipelineSizes.size()
+			&& m_pipelineSizes[pipelineIndex].width == renderSize.width
+			&& m_pipelineSizes[pipelineIndex].height == renderSize.height;
+	}
+
 	void RenderMeshHolder::record( RecordContext & context
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
@@ -197,7 +206,9 @@ namespace crg
 			, VkPipeline{}
 			, 0u };
 		m_pipeline.createPipeline( index, createInfo );
-
+		auto pipelineIndex = m_pipeline.getPipelineIndex( index );
+		m_pipelineSizes.resize( std::max( m_pipelineSizes.size(), size_t( pipelineIndex ) + 1u ) );
+		m_pipelineSizes[pipelineIndex] = m_renderSize;
 	}
 
 	VkPipelineViewportStateCreateInfo RenderMeshHolder::doCreateViewportState( VkExtent2D const & renderSize
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index e571b46..7cc578a 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -49,7 +49,9 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
-		if ( m_renderPass.initialise( context, *this, index ) )
+		// The pipeline may be shared with an index of another size.
+		if ( m_renderPass.initialise( context, *this, index )
+			|| !m_renderQuad.isPrepared( m_renderPass.getRenderSize( index ), index ) )
 		{
 			m_renderQuad.initialise( m_renderPass.getRenderSize( index )
 				, m_renderPass.getRenderPass( index )
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index 280869c..725040f 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -6,6 +6,8 @@ See LICENSE file in root folder.
 
 #include "RenderGraph/GraphContext.hpp"
 
+#include <algorithm>
+
 namespace crg
 {
 	//*********************************************************************************************
@@ -92,6 +94,15 @@ namespace crg
 		}
 	}
 
+	bool RenderQuadHolder::isPrepared( VkExtent2D const & renderSize
+		, uint32_t index )const
+	{
+		auto pipelineIndex = m_pipeline.getPipelineIndex( index );
+		return pipelineIndex < m_pipelineSizes.size()
+			&& m_pipelineSizes[pipelineIndex].width == renderSize.width
+			&& m_pipelineSizes[pipelineIndex].height == renderSize.height;
+	}
+
 	void RenderQuadHolder::record( RecordContext & context
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
@@ -186,6 +197,9 @@ namespace crg
 			, VkPipeline{}
 			, 0u };
 		m_pipeline.createPipeline( index, createInfo );
+		auto pipelineIndex = m_pipeline.getPipelineIndex( index );
+		m_pipelineSizes.resize( std::max( m_pipelineSizes.size(), size_t( pipelineIndex ) + 1u ) );
+		m_pipelineSizes[pipelineIndex] = m_renderSize;
 	}
 
 	VkPipelineViewportStateCreateInfo RenderQuadHolder::doCreateViewportState( VkExtent2D const & renderSize
-- 
2.43.0


From 4dc9a51337cecd509bd9647b20daa3796bc0c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:32 +0000
Subject: [PATCH 31/32] fix: the layouts of one depth or stencil aspect stood
 for no stage and no access

---
 source/RenderGraph/FrameGraph.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 13619eb..09efcd7 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -414,9 +414,17 @@ namespace crg
 			result |= VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+#endif
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
+#endif
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL:
@@ -521,6 +529,12 @@ namespace crg
 		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
+#if VK_KHR_separate_depth_stencil_layouts
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
+#endif
 			result |= VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL:
-- 
2.43.0


From dc4676ccfd476ba7503f640712b406b52dad581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:32 +0000
Subject: [PATCH 32/32] fix: the output layout given to GenerateMipmaps was
 ignored

---
 .../RunnablePasses/GenerateMipmaps.cpp         | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
index 3d6f77b..a93a1ff 100644
--- a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
+++ b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
@@ -55,9 +55,11 @@ namespace crg
 		auto baseArrayLayer = viewId.data->info.subresourceRange.baseArrayLayer;
 		auto layerCount = viewId.data->info.subresourceRange.layerCount;
 		auto mipLevels = imageId.data->info.mipLevels;
-		auto nextLayoutState = m_graph.getNextLayoutState( context
-			, *this
-			, resolveView( viewId, 0u ) );
+		auto nextLayoutState = ( m_outputLayout.layout != VK_IMAGE_LAYOUT_UNDEFINED
+			? m_outputLayout
+			: m_graph.getNextLayoutState( context
+				, *this
+				, resolveView( viewId, 0u ) ) );
 
 		auto const width = int32_t( extent.width );
 		auto const height = int32_t( extent.height );
@@ -97,6 +99,16 @@ namespace crg
 					, VK_ACCESS_TRANSFER_READ_BIT
 					, VK_PIPELINE_STAGE_TRANSFER_BIT } );
 
+			if ( mipLevels == 1u )
+			{
+				// There is nothing to copy, only transition to wanted output layout
+				context.memoryBarrier( commandBuffer
+					, imageId
+					, mipSubRange
+					, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
+					, nextLayoutState );
+			}
+
 			// Copy down mips
 			while ( ++mipSubRange.baseMipLevel < mipLevels )
 			{
-- 
2.43.0

