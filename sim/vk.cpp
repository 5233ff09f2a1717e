// The simulated Vulkan device: objects, lifetimes, protocol rules, fault injection.
#include "vk.hpp"
#ifdef SIM_TSAN
#include "fibers.hpp"
#endif
#include "gpu.hpp"
#include <algorithm>
#include <cstring>
#include <cstdio>

namespace sim
{
	Device * dev{};
	Hooks hooks{};

	namespace
	{
		u32 hMode{};
		Prng hRng;
		u64 hNext{};
		std::vector< u64 > hFree;
		std::unordered_map< u64, Obj * > deadObjs; // (type,value) of the last dead object
		std::set< u64 > hUsed;
		u64 hPerType[size_t( T::COUNT )]{};

		u64 dkey( T t, u64 h ) { return mix2( u64( t ), h ); }

		u64 newHandle( T t )
		{
			if ( hMode == 3 && !hFree.empty() )
			{
				u64 h = hFree.back();
				hFree.pop_back();
				return h;
			}
			switch ( hMode )
			{
			case 1: hNext += 0x40; return 0x7F0000000000ull - hNext;
			case 2:
				for ( ;; )
				{
					u64 h = ( hRng.next() & 0x7FFFFFFFFFF0ull );
					if ( h && hUsed.insert( h ).second ) return h;
				}
			case 4: return ( hPerType[size_t( t )] += 8 );
			default: hNext += 0x10; return 0x10000ull + hNext;
			}
		}

		template< typename O > O * mk( T type, VkAllocationCallbacks const * a )
		{
			auto up = std::make_unique< O >();
			auto * o = up.get();
			o->type = type;
			o->ord = u32( dev->all.size() );
			o->h = newHandle( type );
			o->lib = !dev->userMode;
			o->dev = dev->handle;
			o->alloc = a;
#ifdef SIM_TSAN
			o->thread = threadId();
#endif
			dev->all.push_back( std::move( up ) );
			auto [it, ins] = dev->live.emplace( std::make_pair( u32( type ), o->h ), o );
			if ( !ins ) harnessError( "handle collision" );
			deadObjs.erase( dkey( type, o->h ) );
			if ( o->lib ) count( "device_objects_created" );
			return o;
		}

		u64 fl( float f ) { u32 u; memcpy( &u, &f, 4 ); return u; }

		// text/trace builder
		struct Tr
		{
			u64 h;
			std::string s;
			explicit Tr( char const * n ) : h{ hashStr( n ) } { if ( cfg.verbose ) s = n; }
			Tr & n( u64 v ) { h = mix2( h, v ); if ( cfg.verbose ) s += strf( " %llu", ( unsigned long long )v ); return *this; }
			Tr & x( u64 v ) { h = mix2( h, v ); if ( cfg.verbose ) s += strf( " 0x%llx", ( unsigned long long )v ); return *this; }
			Tr & o( Obj const * p ) { h = mix2( h, p ? p->ord + 1u : 0u ); if ( cfg.verbose ) s += " " + objStr( p ); return *this; }
			Tr & t( char const * c ) { h = mix2( h, hashStr( c ) ); if ( cfg.verbose ) { s += " "; s += c; } return *this; }
			Tr & r( VkImageSubresourceRange const & g )
			{
				n( g.aspectMask ).n( g.baseMipLevel ).n( g.levelCount ).n( g.baseArrayLayer ).n( g.layerCount );
				return *this;
			}
			u64 done() { if ( !dev->userMode ) trace( h ); if ( cfg.verbose ) logf( "%s%s\n", dev->userMode ? "  [app] " : "", s.c_str() ); return h; }
		};

		[[noreturn]] void unknownHandle( T t, u64 h, char const * fn )
		{
			Obj * d{};
			if ( auto it = deadObjs.find( dkey( t, h ) ); it != deadObjs.end() ) d = it->second;
			std::string what = d ? "destroyed" : ( h ? "unknown" : "null" );
			auto msg = strf( "%s names a %s %s (0x%llx)%s", fn, what.c_str(), typeName( t ), ( unsigned long long )h
				, d ? ( " " + objStr( d ) ).c_str() : "" );
			auto key = strf( "%s:%s:%s", fn, what.c_str(), typeName( t ) );
			char const * cls = "use-of-dead-handle";
			if ( dev->injected ) { violate( "C06", cls, key, "%s", msg.c_str() ); violate( "C07", cls, key, "%s", msg.c_str() ); }
			violate( "C05", cls, key, "%s", msg.c_str() );
			violate( "C16", cls, key, "%s", msg.c_str() );
			violate( "C18", cls, key, "%s", msg.c_str() );
			violate( "C09", cls, key, "%s", msg.c_str() );
			violate( "C15", cls, key, "%s", msg.c_str() );
			violateStop( d ? "C04" : "C16", cls, key, "%s", msg.c_str() );
		}

		template< typename O > O * use( T t, u64 h, char const * fn )
		{
			auto it = dev->live.find( { u32( t ), h } );
			if ( it == dev->live.end() ) unknownHandle( t, h, fn );
			return static_cast< O * >( it->second );
		}
		template< typename O > O * useOpt( T t, u64 h, char const * fn ) { return h ? use< O >( t, h, fn ) : nullptr; }

		void checkDev( VkDevice d, char const * fn )
		{
			if ( d != dev->handle )
			{
				violate( "C05", "wrong-device", fn, "%s is given a device that is not the context's", fn );
				violateStop( "C16", "wrong-device", fn, "%s is given a device that is not the context's", fn );
			}
		}

		void checkAlloc( Obj const * o, VkAllocationCallbacks const * a, char const * fn )
		{
			if ( o->lib && o->alloc != a )
				violate( "C05", "wrong-allocator", fn, "%s of %s with an allocator different from the one it was created with", fn, objStr( o ).c_str() );
		}
		// What every structure given to the device has to say: its own type, and no right the device was not asked for.
		template< typename InfoT >
		void checkInfo( InfoT const & info, VkStructureType type, char const * fn, u32 flags = 0u, u32 allowed = 0u )
		{
			if ( dev->userMode ) return;
			if ( info.sType != type ) violate( "C16", "structure-type", fn, "a structure of type %d is given where type %d is meant", int( info.sType ), int( type ) );
			if ( info.pNext ) violate( "C16", "structure-chain", fn, "a structure of type %d is chained to something", int( type ) );
			if ( flags & ~allowed ) violate( "C16", "structure-flags", fn, "flags %x of a structure of type %d are not those of a device without extensions or features", flags, int( type ) );
		}
		// A barrier between two queue families gives the resource away: the graph runs on one queue.
		void checkFamilies( u32 src, u32 dst, char const * fn )
		{
			if ( src != dst ) violate( "C16", "queue-family", fn, "a barrier hands its resource from queue family %u to %u", src, dst );
		}
		void checkCreateAlloc( VkAllocationCallbacks const * a, char const * fn )
		{
			if ( !dev->userMode && a != dev->alloc )
				violate( "C05", "wrong-allocator", fn, "%s does not use the context's allocator", fn );
		}

		// true: the call fails with *res
		bool fault( char const * fn, VkResult * res )
		{
			step( 300 );
			if ( dev->userMode ) return false;
			auto & f = dev->faults;
			if ( dev->lost ) { *res = dev->lastFaultRes = VK_ERROR_DEVICE_LOST; ++dev->injected; dev->lastFault = fn; count( "fault_after_device_lost" ); return true; }
			++dev->fallible;
			if ( !f.on ) return false;
			bool hit = f.nth == dev->fallible;
			if ( !hit && f.rateNum ) hit = chance( f.rateNum, f.rateDen, "fault" );
			if ( !hit ) return false;
			++dev->injected;
#ifdef SIM_TSAN
			++dev->injectedIn[threadId()];
#endif
			dev->lastFault = fn;
			count( strf( "fault_%s", fn ).c_str() );
			if ( f.deviceLost )
			{
				dev->lost = true;
				*res = VK_ERROR_DEVICE_LOST;
			}
			else
			{
				*res = choose( 2, "oom" ) ? VK_ERROR_OUT_OF_DEVICE_MEMORY : VK_ERROR_OUT_OF_HOST_MEMORY;
			}
			dev->lastFaultRes = *res;
			if ( cfg.verbose ) logf( "** %s fails with %d\n", fn, int( *res ) );
			return true;
		}

		void kill( Obj * o )
		{
			o->alive = false;
			dev->live.erase( { u32( o->type ), o->h } );
			deadObjs[dkey( o->type, o->h )] = o;
			if ( hMode == 3 ) hFree.push_back( o->h );
			for ( auto * p : o->parents ) --p->children;
			if ( o->lib ) count( "device_objects_destroyed" );
		}

		void inUse( Obj const * o, char const * fn )
		{
			if ( o->inflight > 0 )
			{
				violate( "C04", "destroyed-in-flight", strf( "%s:%s", fn, typeName( o->type ) )
					, "%s of %s while submitted work that uses it has not been observed to complete", fn, objStr( o ).c_str() );
				if ( o->type == T::Pipeline )
					violate( "C15", "destroyed-in-flight", fn, "%s of %s while submitted work that uses it has not been observed to complete", fn, objStr( o ).c_str() );
			}
		}

		template< typename O > O * destroyPrologue( T t, u64 h, VkDevice d, VkAllocationCallbacks const * a, char const * fn )
		{
			step( 200 );
			checkDev( d, fn );
			if ( !h ) return nullptr;
			auto it = dev->live.find( { u32( t ), h } );
			if ( it == dev->live.end() )
			{
				Obj * dd{};
				if ( auto dt = deadObjs.find( dkey( t, h ) ); dt != deadObjs.end() ) dd = dt->second;
				auto msg = strf( "%s names 0x%llx, %s", fn, ( unsigned long long )h, dd ? ( "already destroyed: " + objStr( dd ) ).c_str() : "which was never created" );
				char const * cls = dd ? "double-destroy" : "destroy-unknown";
				violate( "C15", cls, fn, "%s", msg.c_str() );
				violate( "C18", cls, fn, "%s", msg.c_str() );
				violate( "C09", cls, fn, "%s", msg.c_str() );
				if ( dev->injected ) { violate( "C06", cls, fn, "%s", msg.c_str() ); violate( "C07", cls, fn, "%s", msg.c_str() ); }
				violateStop( "C05", cls, fn, "%s", msg.c_str() );
			}
			auto * o = static_cast< O * >( it->second );
			if ( !dev->userMode )
			{
				if ( !o->lib ) violateStop( "C05", "destroys-foreign", fn, "%s destroys %s, which the application owns", fn, objStr( o ).c_str() );
				checkAlloc( o, a, fn );
			}
			inUse( o, fn );
			if ( o->children > 0 )
				violate( "C05", "destroyed-before-children", fn, "%s of %s while %d object(s) created from it are alive", fn, objStr( o ).c_str(), o->children );
			return o;
		}

		void parent( Obj * child, Obj * p ) { child->parents.push_back( p ); ++p->children; }

		u64 layoutCompat( DSLayout const * l )
		{
			u64 h = 0xD5;
			auto b = l->binds;
			std::sort( b.begin(), b.end(), []( auto & x, auto & y ) { return x.binding < y.binding; } );
			for ( auto & e : b ) h = mix2( mix2( mix2( mix2( h, e.binding ), u64( e.descriptorType ) ), e.descriptorCount ), e.stageFlags );
			return h;
		}
		u64 rpCompatOf( RenderPass const * r )
		{
			u64 h = 0x99;
			for ( auto & a : r->att ) h = mix2( mix2( h, u64( a.format ) ), u64( a.samples ) );
			for ( auto & c : r->col ) h = mix2( h, c.attachment );
			h = mix2( h, r->hasDepth ? r->depth.attachment + 1u : 0u );
			return h;
		}
	}

	u64 hashState( VkGraphicsPipelineCreateInfo const & ci )
	{
		u64 h = 0x51A7E;
		std::string text;
		auto mix2 = [&text]( u64 a, u64 b ) { if ( cfg.verbose ) text += strf( " %llx", static_cast< unsigned long long >( b ) ); return sim::mix2( a, b ); };
		if ( auto * v = ci.pViewportState )
		{
			h = mix2( h, v->viewportCount );
			for ( u32 i = 0; i < v->viewportCount && v->pViewports; ++i )
			{
				auto & p = v->pViewports[i];
				h = mix2( mix2( mix2( mix2( h, fl( p.x ) ), fl( p.y ) ), fl( p.width ) ), fl( p.height ) );
				h = mix2( mix2( h, fl( p.minDepth ) ), fl( p.maxDepth ) );
			}
			for ( u32 i = 0; i < v->scissorCount && v->pScissors; ++i )
			{
				auto & p = v->pScissors[i];
				h = mix2( mix2( mix2( mix2( h, u64( p.offset.x ) ), u64( p.offset.y ) ), p.extent.width ), p.extent.height );
			}
		}
		if ( auto * d = ci.pDepthStencilState )
			h = mix2( mix2( mix2( mix2( h, d->depthTestEnable ), d->depthWriteEnable ), u64( d->depthCompareOp ) ), d->stencilTestEnable );
		if ( auto * c = ci.pColorBlendState )
		{
			h = mix2( h, c->attachmentCount );
			for ( u32 i = 0; i < c->attachmentCount; ++i )
			{
				auto & p = c->pAttachments[i];
				h = mix2( h, p.blendEnable );
				h = mix2( mix2( mix2( h, u64( p.srcColorBlendFactor ) ), u64( p.dstColorBlendFactor ) ), u64( p.colorBlendOp ) );
				h = mix2( h, p.colorWriteMask );
			}
		}
		if ( auto * r = ci.pRasterizationState ) h = mix2( mix2( h, r->cullMode ), u64( r->frontFace ) );
		if ( auto * i = ci.pInputAssemblyState ) h = mix2( h, u64( i->topology ) );
		if ( auto * i = ci.pVertexInputState )
		{
			h = mix2( h, i->vertexBindingDescriptionCount );
			for ( u32 k = 0; k < i->vertexBindingDescriptionCount; ++k ) h = mix2( mix2( h, i->pVertexBindingDescriptions[k].binding ), i->pVertexBindingDescriptions[k].stride );
			for ( u32 k = 0; k < i->vertexAttributeDescriptionCount; ++k )
			{
				auto & p = i->pVertexAttributeDescriptions[k];
				h = mix2( mix2( mix2( mix2( h, p.location ), p.binding ), u64( p.format ) ), p.offset );
			}
		}
		if ( cfg.verbose ) logf( "  pipeline state%s\n", text.c_str() );
		return h;
	}

	u32 Device::liveLib() const
	{
		u32 n = 0;
		for ( auto & [_, o] : live ) if ( o->lib ) ++n;
		return n;
	}

	char const * typeName( T t )
	{
		static char const * const names[]{ "Image", "ImageView", "Buffer", "BufferView", "Memory", "Sampler", "RenderPass", "Framebuffer", "Pipeline", "PipelineLayout"
			, "DescriptorSetLayout", "DescriptorPool", "DescriptorSet", "CommandPool", "CommandBuffer", "Semaphore", "Fence", "QueryPool", "Event", "ShaderModule", "Queue" };
		return names[size_t( t )];
	}
	char const * opName( Op op )
	{
		static char const * const names[]{ "BindPipeline", "BindDescriptorSets", "BindVertexBuffers", "BindIndexBuffer", "ClearColorImage", "ClearDepthStencilImage", "Dispatch", "DispatchIndirect", "Draw", "DrawIndexed", "DrawIndexedIndirect", "DrawIndirect"
			, "BeginRenderPass", "EndRenderPass", "PushConstants", "ResetQueryPool", "WriteTimestamp", "PipelineBarrier", "BlitImage", "CopyBuffer", "CopyBufferToImage", "CopyImage", "CopyImageToBuffer", "ExecuteCommands", "FillBuffer", "BeginLabel", "EndLabel"
			, "ResetEvent", "SetEvent", "WaitEvents", "Probe" };
		return names[size_t( op )];
	}
	std::string objStr( Obj const * o )
	{
		if ( !o ) return "null";
		return strf( "%s#%u%s%s", typeName( o->type ), o->ord, o->name.empty() ? "" : ":", o->name.c_str() );
	}
	V undefV( u64 salt, bool discarded ) { V v; v.h = mix2( 0xDEADDEAD, salt ); v.taint = true; v.discarded = discarded; return v; }

	Obj * findObj( T t, u64 h )
	{
		auto it = dev->live.find( { u32( t ), h } );
		return it == dev->live.end() ? nullptr : it->second;
	}

	static bool isDepthFmt( VkFormat f ) { return f == VK_FORMAT_D16_UNORM || f == VK_FORMAT_X8_D24_UNORM_PACK32 || f == VK_FORMAT_D32_SFLOAT || f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT; }
	static bool isStencilFmt( VkFormat f ) { return f == VK_FORMAT_S8_UINT || f == VK_FORMAT_D16_UNORM_S8_UINT || f == VK_FORMAT_D24_UNORM_S8_UINT || f == VK_FORMAT_D32_SFLOAT_S8_UINT; }
	VkImageAspectFlags aspectMaskOf( VkFormat f )
	{
		VkImageAspectFlags r = 0;
		if ( isDepthFmt( f ) ) r |= VK_IMAGE_ASPECT_DEPTH_BIT;
		if ( isStencilFmt( f ) ) r |= VK_IMAGE_ASPECT_STENCIL_BIT;
		return r ? r : VkImageAspectFlags( VK_IMAGE_ASPECT_COLOR_BIT );
	}
	u32 aspectsOf( VkFormat f ) { return isDepthFmt( f ) && isStencilFmt( f ) ? 2u : 1u; }
	VkImageAspectFlagBits aspectBit( VkFormat f, u32 slot )
	{
		if ( isDepthFmt( f ) && isStencilFmt( f ) ) return slot ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_DEPTH_BIT;
		if ( isDepthFmt( f ) ) return VK_IMAGE_ASPECT_DEPTH_BIT;
		if ( isStencilFmt( f ) ) return VK_IMAGE_ASPECT_STENCIL_BIT;
		return VK_IMAGE_ASPECT_COLOR_BIT;
	}
	VkExtent3D mipExtent( Image const * i, u32 mip )
	{
		auto e = i->info.extent;
		return { std::max( 1u, e.width >> mip ), std::max( 1u, e.height >> mip ), std::max( 1u, e.depth >> mip ) };
	}

	void deviceInit( u32 handleMode, u64 handleSeed )
	{
		hMode = handleMode;
		hRng = Prng{ handleSeed };
		dev = new Device;
		static int dummy;
		dev->handle = reinterpret_cast< VkDevice >( &dummy );
		dev->alloc = &dev->allocCb;
	}

	// ------------------------------------------------------------------ completion knowledge
	void markKnown( Submission * s )
	{
		if ( !s || s->known ) return;
		// completion of a submission implies that of those it waited for
		// (not of everything earlier on the queue, except through the fence's
		// submission-order scope, which covers all of it)
		s->known = true;
		for ( auto * o : s->refs ) --o->inflight;
		for ( auto * w : s->waitSubs ) markKnown( w );
		markKnown( s->prev );
	}
	bool allKnown()
	{
		for ( auto & s : dev->subs ) if ( !s.known ) return false;
		return true;
	}
	void waitAll()
	{
		for ( auto & s : dev->subs )
		{
			if ( s.end > vtime ) vtime = s.end;
		}
		for ( auto & s : dev->subs )
		{
			markKnown( &s );
			if ( s.fence && s.fence->alive && s.fence->sub == &s && s.fence->pending ) { s.fence->pending = false; s.fence->signaled = true; }
		}
		gpuIdle();
	}
	static void observe( Fence * f )
	{
		// the host has seen the fence signalled
		if ( f->pending )
		{
			f->pending = false;
			f->signaled = true;
			if ( !f->sub->known )
			{
				markKnown( f->sub );
				gpuHostSync( f->sub );
				if ( allKnown() ) gpuIdle();
			}
		}
	}

	void leakCheck()
	{
		std::string list;
		std::string first;
		u32 n = 0;
		for ( auto & [_, o] : dev->live )
		{
			if ( !o->lib ) continue;
			if ( !n ) first = typeName( o->type );
			if ( n < 8 ) list += " " + objStr( o );
			++n;
		}
		if ( n )
		{
			// the key names the kinds that leaked
			std::set< std::string > kinds;
			for ( auto & [_, o] : dev->live ) if ( o->lib ) kinds.insert( typeName( o->type ) );
			std::string key;
			for ( auto & k : kinds ) key += ( key.empty() ? "" : "+" ) + k;
			auto msg = strf( "%u object(s) of the library never destroyed:%s%s", n, list.c_str()
				, dev->injected ? ( " (last failed call: " + dev->lastFault + ")" ).c_str() : "" );
			violate( "C05", "leak", key, "%s", msg.c_str() );
			if ( kinds.count( "Pipeline" ) ) violate( "C15", "leak", "Pipeline", "%s", msg.c_str() );
			violate( "C18", "leak", key, "%s", msg.c_str() );
			violate( "C09", "leak", key, "%s", msg.c_str() );
		}
	}

	// ------------------------------------------------------------------ application side helpers
	VkBuffer userCreateBuffer( u64 size, VkBufferUsageFlags usage, int tag )
	{
		UserScope us;
		auto * b = mk< Buffer >( T::Buffer, nullptr );
		b->size = size;
		b->usage = usage;
		b->tag = tag;
		b->ncells = u32( ( size + CellSize - 1 ) / CellSize );
		b->locBase = u32( dev->content.size() );
		for ( u32 i = 0; i < b->ncells; ++i )
		{
			dev->content.push_back( undefV( dev->content.size() ) );
			dev->layout.push_back( VK_IMAGE_LAYOUT_UNDEFINED );
			dev->locOwner.push_back( b );
		}
		return VkBuffer( b->h );
	}
	void userProbe( VkCommandBuffer h, Image * i, VkImageSubresourceRange const & r, VkImageLayout l )
	{
		auto * c = static_cast< CmdBuf * >( findObj( T::CmdBuf, u64( h ) ) );
		if ( !c ) harnessError( "probe" );
		Cmd m;
		m.op = Op::Probe;
		m.img = i;
		m.lay = l;
		m.ranges = { r };
		c->cmds.push_back( m );
	}
	VkBufferView userCreateBufferView( VkBuffer b, u64 off, u64 range )
	{
		UserScope us;
		auto * v = mk< BufferView >( T::BufferView, nullptr );
		v->buf = use< Buffer >( T::Buffer, u64( b ), "vkCreateBufferView" );
		v->off = off;
		v->range = range;
		return VkBufferView( v->h );
	}
	VkShaderModule userCreateShader( std::shared_ptr< Prog > p )
	{
		UserScope us;
		auto * s = mk< Shader >( T::Shader, nullptr );
		s->prog = std::move( p );
		return VkShaderModule( s->h );
	}
	void userDestroy( T t, u64 h )
	{
		UserScope us;
		kill( use< Obj >( t, h, "userDestroy" ) );
	}
	void userSetImage( Image * img, u32 layer, u32 mip, u32 aspect, VkImageLayout lay, V v )
	{
		gpuAppWrite( img->loc( layer, mip, aspect ), v, lay );
	}
	void userSetBuffer( Buffer * b, u32 cell, V v ) { gpuAppWrite( b->locBase + cell, v, VK_IMAGE_LAYOUT_MAX_ENUM ); }

	// ------------------------------------------------------------------ objects
#define API static VKAPI_ATTR
	namespace api
	{
		API VkResult VKAPI_CALL CreateImage( VkDevice d, VkImageCreateInfo const * ci, VkAllocationCallbacks const * a, VkImage * out )
		{
			checkDev( d, "vkCreateImage" ); checkCreateAlloc( a, "vkCreateImage" ); checkInfo( *ci, VK_STRUCTURE_TYPE_IMAGE_CREATE_INFO, "vkCreateImage" );
			VkResult r; if ( fault( "CreateImage", &r ) ) return r;
			auto * o = mk< Image >( T::Image, a );
			o->info = *ci;
			o->naspect = aspectsOf( ci->format );
			o->locBase = u32( dev->content.size() );
			if ( o->nlocs() > 4096 ) harnessError( "image too large" );
			for ( u32 i = 0; i < o->nlocs(); ++i )
			{
				dev->content.push_back( undefV( dev->content.size() ) );
				dev->layout.push_back( ci->initialLayout );
				dev->locOwner.push_back( o );
			}
			Tr( "CreateImage" ).o( o ).n( ci->format ).n( ci->extent.width ).n( ci->extent.height ).n( ci->extent.depth ).n( ci->mipLevels ).n( ci->arrayLayers ).n( ci->imageType ).x( ci->usage ).n( ci->flags ).done();
			*out = VkImage( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyImage( VkDevice d, VkImage h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< Image >( T::Image, u64( h ), d, a, "vkDestroyImage" );
			if ( o ) { if ( cfg.verbose ) logf( "DestroyImage %s\n", objStr( o ).c_str() ); kill( o ); }
		}
		API VkResult VKAPI_CALL CreateImageView( VkDevice d, VkImageViewCreateInfo const * ci, VkAllocationCallbacks const * a, VkImageView * out )
		{
			checkDev( d, "vkCreateImageView" ); checkCreateAlloc( a, "vkCreateImageView" ); checkInfo( *ci, VK_STRUCTURE_TYPE_IMAGE_VIEW_CREATE_INFO, "vkCreateImageView", ci->flags, 0u );
			auto * img = use< Image >( T::Image, u64( ci->image ), "vkCreateImageView" );
			auto & rg = ci->subresourceRange;
			if ( img->lib && !img->mem ) { violate( "C16", "unbound-image", "view", "view created on an image without memory" ); violate( "C06", "unbound-image", "view", "view created on an image without memory" ); violate( "C18", "unbound-image", "view", "view created on an image without memory" ); }
			u32 maxL = img->info.imageType == VK_IMAGE_TYPE_3D && ci->viewType != VK_IMAGE_VIEW_TYPE_3D ? img->info.extent.depth : img->info.arrayLayers;
			if ( rg.levelCount == 0 || rg.layerCount == 0 || rg.baseMipLevel + rg.levelCount > img->info.mipLevels || rg.baseArrayLayer + rg.layerCount > maxL )
			{
				violate( "C16", "range-outside", "vkCreateImageView", "view range [mips %u+%u layers %u+%u] lies outside %s", rg.baseMipLevel, rg.levelCount, rg.baseArrayLayer, rg.layerCount, objStr( img ).c_str() );
				violateStop( "C18", "range-outside", "vkCreateImageView", "view range [mips %u+%u layers %u+%u] lies outside %s", rg.baseMipLevel, rg.levelCount, rg.baseArrayLayer, rg.layerCount, objStr( img ).c_str() );
			}
			bool typeOk{};
			switch ( ci->viewType )
			{
			case VK_IMAGE_VIEW_TYPE_1D: typeOk = img->info.imageType == VK_IMAGE_TYPE_1D && rg.layerCount == 1; break;
			case VK_IMAGE_VIEW_TYPE_1D_ARRAY: typeOk = img->info.imageType == VK_IMAGE_TYPE_1D; break;
			case VK_IMAGE_VIEW_TYPE_2D: typeOk = img->info.imageType != VK_IMAGE_TYPE_1D && rg.layerCount == 1; break;
			case VK_IMAGE_VIEW_TYPE_2D_ARRAY: typeOk = img->info.imageType != VK_IMAGE_TYPE_1D; break;
			case VK_IMAGE_VIEW_TYPE_3D: typeOk = img->info.imageType == VK_IMAGE_TYPE_3D && rg.layerCount == 1; break;
			case VK_IMAGE_VIEW_TYPE_CUBE: typeOk = ( img->info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && rg.layerCount == 6; break;
			case VK_IMAGE_VIEW_TYPE_CUBE_ARRAY: typeOk = ( img->info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && rg.layerCount % 6 == 0; break;
			default: break;
			}
			if ( !typeOk ) violate( "C16", "view-type", "vkCreateImageView", "a view of type %d of %u layers does not fit %s", int( ci->viewType ), rg.layerCount, objStr( img ).c_str() );
			VkResult r; if ( fault( "CreateImageView", &r ) ) return r;
			auto * o = mk< View >( T::View, a );
			o->info = *ci;
			o->img = img;
			parent( o, img );
			Tr( "CreateImageView" ).o( o ).o( img ).n( ci->format ).n( ci->viewType ).r( rg ).done();
			*out = VkImageView( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyImageView( VkDevice d, VkImageView h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< View >( T::View, u64( h ), d, a, "vkDestroyImageView" );
			if ( o ) { if ( cfg.verbose ) logf( "DestroyImageView %s\n", objStr( o ).c_str() ); kill( o ); }
		}
		API VkResult VKAPI_CALL CreateBuffer( VkDevice d, VkBufferCreateInfo const * ci, VkAllocationCallbacks const * a, VkBuffer * out )
		{
			checkDev( d, "vkCreateBuffer" ); checkCreateAlloc( a, "vkCreateBuffer" ); checkInfo( *ci, VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO, "vkCreateBuffer", ci->flags, 0u );
			VkResult r; if ( fault( "CreateBuffer", &r ) ) return r;
			auto * o = mk< Buffer >( T::Buffer, a );
			o->size = ci->size;
			o->usage = ci->usage;
			o->ncells = u32( ( ci->size + CellSize - 1 ) / CellSize );
			o->locBase = u32( dev->content.size() );
			for ( u32 i = 0; i < o->ncells; ++i )
			{
				dev->content.push_back( undefV( dev->content.size() ) );
				dev->layout.push_back( VK_IMAGE_LAYOUT_UNDEFINED );
				dev->locOwner.push_back( o );
			}
			Tr( "CreateBuffer" ).o( o ).n( ci->size ).x( ci->usage ).done();
			*out = VkBuffer( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyBuffer( VkDevice d, VkBuffer h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< Buffer >( T::Buffer, u64( h ), d, a, "vkDestroyBuffer" );
			if ( o ) { if ( cfg.verbose ) logf( "DestroyBuffer %s\n", objStr( o ).c_str() ); kill( o ); }
		}
		API void VKAPI_CALL GetImageMemoryRequirements( VkDevice, VkImage h, VkMemoryRequirements * r )
		{
			auto * o = use< Image >( T::Image, u64( h ), "vkGetImageMemoryRequirements" );
			*r = { 4096ull * o->nlocs(), 256, dev->imageTypeBits };
		}
		API void VKAPI_CALL GetBufferMemoryRequirements( VkDevice, VkBuffer h, VkMemoryRequirements * r )
		{
			auto * o = use< Buffer >( T::Buffer, u64( h ), "vkGetBufferMemoryRequirements" );
			*r = { ( o->size + 255 ) & ~255ull, 256, dev->bufferTypeBits };
		}
		API VkResult VKAPI_CALL AllocateMemory( VkDevice d, VkMemoryAllocateInfo const * ai, VkAllocationCallbacks const * a, VkDeviceMemory * out )
		{
			checkDev( d, "vkAllocateMemory" ); checkCreateAlloc( a, "vkAllocateMemory" ); checkInfo( *ai, VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO, "vkAllocateMemory" );
			VkResult r; if ( fault( "AllocateMemory", &r ) ) return r;
			auto * o = mk< Memory >( T::Memory, a );
			o->size = ai->allocationSize;
			o->typeIndex = ai->memoryTypeIndex;
			if ( o->typeIndex >= dev->memProps.memoryTypeCount ) violateStop( "C16", "memory-type", "index", "memory type index %u does not exist", o->typeIndex );
			auto fl = dev->memProps.memoryTypes[o->typeIndex].propertyFlags;
			o->hostVisible = fl & VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT;
			o->coherent = fl & VK_MEMORY_PROPERTY_HOST_COHERENT_BIT;
			if ( o->hostVisible ) { o->host.resize( std::min< u64 >( o->size, 65536 ) ); o->dev_.resize( o->host.size() ); }
			Tr( "AllocateMemory" ).o( o ).n( o->size ).n( o->typeIndex ).done();
			*out = VkDeviceMemory( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL FreeMemory( VkDevice d, VkDeviceMemory h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< Memory >( T::Memory, u64( h ), d, a, "vkFreeMemory" );
			if ( o ) { if ( cfg.verbose ) logf( "FreeMemory %s\n", objStr( o ).c_str() ); kill( o ); }
		}
		API VkResult VKAPI_CALL BindImageMemory( VkDevice d, VkImage h, VkDeviceMemory m, VkDeviceSize off )
		{
			checkDev( d, "vkBindImageMemory" );
			auto * o = use< Image >( T::Image, u64( h ), "vkBindImageMemory" );
			auto * mem = use< Memory >( T::Memory, u64( m ), "vkBindImageMemory" );
			VkResult r; if ( fault( "BindImageMemory", &r ) ) return r;
			if ( o->mem ) violate( "C18", "rebind", "image", "memory bound twice to %s", objStr( o ).c_str() );
			if ( off ) violate( "C18", "memory-offset", "image", "memory of its own is bound at %llu to %s", ( unsigned long long )off, objStr( o ).c_str() );
			if ( !( ( dev->imageTypeBits >> mem->typeIndex ) & 1u ) ) violate( "C16", "memory-type", "image", "%s is bound to memory of the type %u, which it can't use", objStr( o ).c_str(), mem->typeIndex );
			if ( mem->size < 4096ull * o->nlocs() ) violate( "C18", "memory-size", "image", "memory smaller than required by %s", objStr( o ).c_str() );
			o->mem = mem;
			return VK_SUCCESS;
		}
		static void syncBuf( Memory * m )
		{
			for ( auto & up : dev->all )
				if ( up->type == T::Buffer && up->alive )
				{
					auto * b = static_cast< Buffer * >( up.get() );
					if ( b->mem != m ) continue;
					for ( u32 c = 0; c < b->ncells; ++c )
					{
						u64 hsh = 0xB0F;
						for ( u64 i = 0; i < CellSize && c * CellSize + i < b->size; ++i )
						{
							u64 at = b->memOff + c * CellSize + i;
							hsh = mix2( hsh, at < m->dev_.size() ? m->dev_[at] : 0 );
						}
						V v; v.h = hsh; v.taint = false;
						dev->content[b->locBase + c] = v;
					}
				}
		}
		API VkResult VKAPI_CALL BindBufferMemory( VkDevice d, VkBuffer h, VkDeviceMemory m, VkDeviceSize off )
		{
			checkDev( d, "vkBindBufferMemory" );
			auto * o = use< Buffer >( T::Buffer, u64( h ), "vkBindBufferMemory" );
			auto * mem = use< Memory >( T::Memory, u64( m ), "vkBindBufferMemory" );
			VkResult r; if ( fault( "BindBufferMemory", &r ) ) return r;
			if ( o->mem ) violate( "C18", "rebind", "buffer", "memory bound twice to %s", objStr( o ).c_str() );
			if ( !( ( dev->bufferTypeBits >> mem->typeIndex ) & 1u ) ) violate( "C16", "memory-type", "buffer", "%s is bound to memory of the type %u, which it can't use", objStr( o ).c_str(), mem->typeIndex );
			if ( off + o->size > mem->size ) violate( "C18", "memory-size", "buffer", "memory smaller than required by %s", objStr( o ).c_str() );
			o->mem = mem;
			o->memOff = off;
			return VK_SUCCESS;
		}
		API VkResult VKAPI_CALL MapMemory( VkDevice d, VkDeviceMemory m, VkDeviceSize off, VkDeviceSize size, VkMemoryMapFlags, void ** out )
		{
			checkDev( d, "vkMapMemory" );
			auto * mem = use< Memory >( T::Memory, u64( m ), "vkMapMemory" );
			if ( mem->mapped ) violate( "C16", "map-twice", "map", "memory mapped twice" );
			if ( !mem->hostVisible ) violateStop( "C16", "map-not-visible", "map", "mapping of memory that is not host visible" );
			VkResult r; if ( fault( "MapMemory", &r ) ) return r;
			mem->mapped = true; mem->mapOff = off; mem->mapSize = size;
			*out = mem->host.data() + off;
			return VK_SUCCESS;
		}
		API void VKAPI_CALL UnmapMemory( VkDevice, VkDeviceMemory m )
		{
			auto * mem = use< Memory >( T::Memory, u64( m ), "vkUnmapMemory" );
			if ( !mem->mapped ) violate( "C16", "unmap-unmapped", "unmap", "unmapping of memory that is not mapped" );
			mem->mapped = false;
			if ( mem->coherent ) { mem->dev_ = mem->host; syncBuf( mem ); }
		}
		API VkResult VKAPI_CALL FlushMappedMemoryRanges( VkDevice d, uint32_t n, VkMappedMemoryRange const * rg )
		{
			checkDev( d, "vkFlushMappedMemoryRanges" );
			VkResult r; if ( fault( "FlushMappedMemoryRanges", &r ) ) return r;
			for ( u32 i = 0; i < n; ++i )
			{
				auto * mem = use< Memory >( T::Memory, u64( rg[i].memory ), "vkFlushMappedMemoryRanges" );
				if ( !mem->mapped ) violate( "C16", "flush-unmapped", "flush", "flush of memory that is not mapped" );
				u64 e = rg[i].size == VK_WHOLE_SIZE ? mem->host.size() : std::min< u64 >( mem->host.size(), rg[i].offset + rg[i].size );
				for ( u64 k = rg[i].offset; k < e; ++k ) mem->dev_[k] = mem->host[k];
				syncBuf( mem );
			}
			return VK_SUCCESS;
		}
		API VkResult VKAPI_CALL InvalidateMappedMemoryRanges( VkDevice, uint32_t, VkMappedMemoryRange const * ) { return VK_SUCCESS; }

		API VkResult VKAPI_CALL CreateSampler( VkDevice d, VkSamplerCreateInfo const * ci, VkAllocationCallbacks const * a, VkSampler * out )
		{
			checkDev( d, "vkCreateSampler" ); checkCreateAlloc( a, "vkCreateSampler" ); checkInfo( *ci, VK_STRUCTURE_TYPE_SAMPLER_CREATE_INFO, "vkCreateSampler", ci->flags, 0u );
			VkResult r; if ( fault( "CreateSampler", &r ) ) return r;
			auto * o = mk< Sampler >( T::Sampler, a );
			o->info = *ci;
			Tr( "CreateSampler" ).o( o ).n( ci->magFilter ).n( ci->minFilter ).n( ci->mipmapMode ).n( ci->addressModeU ).n( ci->addressModeV ).n( ci->addressModeW ).n( fl( ci->minLod ) ).n( fl( ci->maxLod ) ).done();
			*out = VkSampler( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroySampler( VkDevice d, VkSampler h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< Sampler >( T::Sampler, u64( h ), d, a, "vkDestroySampler" );
			if ( o ) kill( o );
		}
		// Accesses which no stage of the mask can make: the barrier cannot do what it was recorded for.
		static VkAccessFlags unsupportedAccess( VkPipelineStageFlags st, VkAccessFlags acc )
		{
			if ( st & VK_PIPELINE_STAGE_ALL_COMMANDS_BIT ) return 0;
			VkAccessFlags ok = VK_ACCESS_MEMORY_READ_BIT | VK_ACCESS_MEMORY_WRITE_BIT;
			if ( st & VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT ) st |= VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT | VK_PIPELINE_STAGE_VERTEX_INPUT_BIT | VK_PIPELINE_STAGE_VERTEX_SHADER_BIT | VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT | VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
			VkPipelineStageFlags shaders = VK_PIPELINE_STAGE_VERTEX_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT | VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT | VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT | VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT;
			if ( st & VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT ) ok |= VK_ACCESS_INDIRECT_COMMAND_READ_BIT;
			if ( st & VK_PIPELINE_STAGE_VERTEX_INPUT_BIT ) ok |= VK_ACCESS_INDEX_READ_BIT | VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT;
			if ( st & shaders ) ok |= VK_ACCESS_UNIFORM_READ_BIT | VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT;
			if ( st & VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) ok |= VK_ACCESS_INPUT_ATTACHMENT_READ_BIT;
			if ( st & ( VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ) ) ok |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
			if ( st & VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT ) ok |= VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
			if ( st & VK_PIPELINE_STAGE_TRANSFER_BIT ) ok |= VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT;
			if ( st & VK_PIPELINE_STAGE_HOST_BIT ) ok |= VK_ACCESS_HOST_READ_BIT | VK_ACCESS_HOST_WRITE_BIT;
			return acc & ~ok;
		}
		static void checkAccess( VkPipelineStageFlags s1, VkPipelineStageFlags s2, VkAccessFlags a1, VkAccessFlags a2, char const * fn )
		{
			if ( auto x = unsupportedAccess( s1, a1 ) ) violate( "C16", "access-stage", fn, "source accesses %x cannot be made by the stages %x", x, s1 );
			if ( auto x = unsupportedAccess( s2, a2 ) ) violate( "C16", "access-stage", fn, "destination accesses %x cannot be made by the stages %x", x, s2 );
		}
		API VkResult VKAPI_CALL CreateRenderPass( VkDevice d, VkRenderPassCreateInfo const * ci, VkAllocationCallbacks const * a, VkRenderPass * out )
		{
			checkDev( d, "vkCreateRenderPass" ); checkCreateAlloc( a, "vkCreateRenderPass" ); checkInfo( *ci, VK_STRUCTURE_TYPE_RENDER_PASS_CREATE_INFO, "vkCreateRenderPass", ci->flags, 0u );
			if ( ci->subpassCount != 1 ) harnessError( "only single subpass render passes are simulated" );
			for ( u32 i = 0; i < ci->attachmentCount; ++i )
			{
				auto & at = ci->pAttachments[i];
				if ( at.finalLayout == VK_IMAGE_LAYOUT_UNDEFINED || at.finalLayout == VK_IMAGE_LAYOUT_PREINITIALIZED )
				{
					violate( "C01", "final-layout", "renderpass", "render pass attachment %u has an undefined final layout", i );
					violate( "C16", "final-layout", "renderpass", "render pass attachment %u has an undefined final layout", i );
				}
			}
			for ( u32 i = 0; i < ci->attachmentCount; ++i )
			{
				// nothing can be loaded from an image without contents
				auto & at = ci->pAttachments[i];
				auto am = aspectMaskOf( at.format );
				if ( at.initialLayout != VK_IMAGE_LAYOUT_UNDEFINED ) continue;
				if ( ( ( am & ( VK_IMAGE_ASPECT_COLOR_BIT | VK_IMAGE_ASPECT_DEPTH_BIT ) ) && at.loadOp == VK_ATTACHMENT_LOAD_OP_LOAD ) || ( ( am & VK_IMAGE_ASPECT_STENCIL_BIT ) && at.stencilLoadOp == VK_ATTACHMENT_LOAD_OP_LOAD ) )
					violate( "C16", "load-undefined", am & VK_IMAGE_ASPECT_COLOR_BIT ? "colour" : "depth", "render pass attachment %u is loaded from the undefined layout", i );
			}
			for ( u32 i = 0; i < ci->dependencyCount; ++i ) checkAccess( ci->pDependencies[i].srcStageMask, ci->pDependencies[i].dstStageMask, ci->pDependencies[i].srcAccessMask, ci->pDependencies[i].dstAccessMask, "vkCreateRenderPass" );
			VkResult r; if ( fault( "CreateRenderPass", &r ) ) return r;
			auto * o = mk< RenderPass >( T::RenderPass, a );
			o->att.assign( ci->pAttachments, ci->pAttachments + ci->attachmentCount );
			auto & sp = ci->pSubpasses[0];
			o->col.assign( sp.pColorAttachments, sp.pColorAttachments + sp.colorAttachmentCount );
			if ( sp.pDepthStencilAttachment && sp.pDepthStencilAttachment->attachment != VK_ATTACHMENT_UNUSED ) { o->hasDepth = true; o->depth = *sp.pDepthStencilAttachment; }
			o->deps.assign( ci->pDependencies, ci->pDependencies + ci->dependencyCount );
			o->compat = rpCompatOf( o );
			Tr t( "CreateRenderPass" ); t.o( o );
			for ( auto & at : o->att ) t.n( at.format ).n( at.loadOp ).n( at.storeOp ).n( at.stencilLoadOp ).n( at.stencilStoreOp ).n( at.initialLayout ).n( at.finalLayout );
			for ( auto & c : o->col ) t.n( c.attachment ).n( c.layout );
			if ( o->hasDepth ) t.n( o->depth.attachment ).n( o->depth.layout );
			for ( auto & dp : o->deps ) t.x( dp.srcSubpass ).x( dp.dstSubpass ).x( dp.srcStageMask ).x( dp.dstStageMask ).x( dp.srcAccessMask ).x( dp.dstAccessMask );
			t.done();
			for ( auto & c : o->col ) if ( c.attachment != VK_ATTACHMENT_UNUSED && c.attachment >= o->att.size() ) violateStop( "C16", "attachment-ref", "colour", "colour reference outside of the attachments" );
			*out = VkRenderPass( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyRenderPass( VkDevice d, VkRenderPass h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< RenderPass >( T::RenderPass, u64( h ), d, a, "vkDestroyRenderPass" );
			if ( o ) { if ( cfg.verbose ) logf( "DestroyRenderPass %s\n", objStr( o ).c_str() ); kill( o ); }
		}
		API VkResult VKAPI_CALL CreateFramebuffer( VkDevice d, VkFramebufferCreateInfo const * ci, VkAllocationCallbacks const * a, VkFramebuffer * out )
		{
			checkDev( d, "vkCreateFramebuffer" ); checkCreateAlloc( a, "vkCreateFramebuffer" ); checkInfo( *ci, VK_STRUCTURE_TYPE_FRAMEBUFFER_CREATE_INFO, "vkCreateFramebuffer", ci->flags, 0u );
			auto * rp = use< RenderPass >( T::RenderPass, u64( ci->renderPass ), "vkCreateFramebuffer" );
			std::vector< View * > views;
			if ( !ci->width || !ci->height || !ci->layers ) violate( "C16", "framebuffer", "empty", "framebuffer of %ux%u, %u layers", ci->width, ci->height, ci->layers );
			if ( ci->attachmentCount != rp->att.size() ) violateStop( "C16", "framebuffer", "count", "framebuffer has %u attachments, its render pass %zu", ci->attachmentCount, rp->att.size() );
			for ( u32 i = 0; i < ci->attachmentCount; ++i )
			{
				auto * v = use< View >( T::View, u64( ci->pAttachments[i] ), "vkCreateFramebuffer" );
				views.push_back( v );
				if ( v->info.format != rp->att[i].format ) violate( "C16", "framebuffer", "format", "framebuffer attachment %u: format differs from the render pass", i );
				auto e = mipExtent( v->img, v->info.subresourceRange.baseMipLevel );
				if ( v->info.subresourceRange.levelCount != 1 ) violate( "C16", "framebuffer", "levels", "framebuffer attachment %u has %u levels", i, v->info.subresourceRange.levelCount );
				if ( ci->width > e.width || ci->height > e.height ) violate( "C16", "framebuffer", "extent", "framebuffer %ux%u is larger than attachment %u (%ux%u)", ci->width, ci->height, i, e.width, e.height );
				if ( ci->layers > v->info.subresourceRange.layerCount ) violate( "C16", "framebuffer", "layers", "framebuffer has %u layers, attachment %u only %u", ci->layers, i, v->info.subresourceRange.layerCount );
			}
			VkResult r; if ( fault( "CreateFramebuffer", &r ) ) return r;
			auto * o = mk< Framebuffer >( T::Framebuffer, a );
			o->rp = rp; o->compat = rp->compat; o->views = views; o->w = ci->width; o->h_ = ci->height; o->layers = ci->layers;
			for ( auto * v : views ) parent( o, v );
			Tr t( "CreateFramebuffer" ); t.o( o ).o( rp ).n( o->w ).n( o->h_ ).n( o->layers );
			for ( auto * v : views ) t.o( v );
			t.done();
			*out = VkFramebuffer( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyFramebuffer( VkDevice d, VkFramebuffer h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< Framebuffer >( T::Framebuffer, u64( h ), d, a, "vkDestroyFramebuffer" );
			if ( o ) { if ( cfg.verbose ) logf( "DestroyFramebuffer %s\n", objStr( o ).c_str() ); kill( o ); }
		}
		API VkResult VKAPI_CALL CreateDescriptorSetLayout( VkDevice d, VkDescriptorSetLayoutCreateInfo const * ci, VkAllocationCallbacks const * a, VkDescriptorSetLayout * out )
		{
			checkDev( d, "vkCreateDescriptorSetLayout" ); checkCreateAlloc( a, "vkCreateDescriptorSetLayout" ); checkInfo( *ci, VK_STRUCTURE_TYPE_DESCRIPTOR_SET_LAYOUT_CREATE_INFO, "vkCreateDescriptorSetLayout", ci->flags, 0u );
			VkResult r; if ( fault( "CreateDescriptorSetLayout", &r ) ) return r;
			auto * o = mk< DSLayout >( T::DSLayout, a );
			o->binds.assign( ci->pBindings, ci->pBindings + ci->bindingCount );
			std::set< u32 > seen;
			for ( auto & b : o->binds ) if ( !seen.insert( b.binding ).second ) violate( "C16", "dsl-duplicate", "binding", "binding %u appears twice in a descriptor set layout", b.binding );
			Tr t( "CreateDescriptorSetLayout" ); t.o( o );
			for ( auto & b : o->binds ) t.n( b.binding ).n( b.descriptorType ).n( b.descriptorCount ).x( b.stageFlags );
			t.done();
			*out = VkDescriptorSetLayout( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyDescriptorSetLayout( VkDevice d, VkDescriptorSetLayout h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< DSLayout >( T::DSLayout, u64( h ), d, a, "vkDestroyDescriptorSetLayout" );
			if ( o ) kill( o );
		}
		API VkResult VKAPI_CALL CreatePipelineLayout( VkDevice d, VkPipelineLayoutCreateInfo const * ci, VkAllocationCallbacks const * a, VkPipelineLayout * out )
		{
			checkDev( d, "vkCreatePipelineLayout" ); checkCreateAlloc( a, "vkCreatePipelineLayout" ); checkInfo( *ci, VK_STRUCTURE_TYPE_PIPELINE_LAYOUT_CREATE_INFO, "vkCreatePipelineLayout", ci->flags, 0u );
			std::vector< DSLayout * > sets;
			for ( u32 i = 0; i < ci->setLayoutCount; ++i ) sets.push_back( use< DSLayout >( T::DSLayout, u64( ci->pSetLayouts[i] ), "vkCreatePipelineLayout" ) );
			VkResult r; if ( fault( "CreatePipelineLayout", &r ) ) return r;
			auto * o = mk< PipelineLayout >( T::PipelineLayout, a );
			o->sets = sets;
			o->push.assign( ci->pPushConstantRanges, ci->pPushConstantRanges + ci->pushConstantRangeCount );
			Tr t( "CreatePipelineLayout" ); t.o( o );
			for ( auto * s : sets ) t.o( s );
			for ( auto & p : o->push ) t.n( p.offset ).n( p.size ).x( p.stageFlags );
			t.done();
			*out = VkPipelineLayout( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyPipelineLayout( VkDevice d, VkPipelineLayout h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< PipelineLayout >( T::PipelineLayout, u64( h ), d, a, "vkDestroyPipelineLayout" );
			if ( o ) kill( o );
		}
		static void setPipeCommon( Pipeline * o, u64 layout, char const * fn )
		{
			o->layout = use< PipelineLayout >( T::PipelineLayout, layout, fn );
			o->layoutCompat = o->layout->sets.empty() ? 0 : layoutCompat( o->layout->sets[0] );
			auto & p = *o->prog;
			auto & l = *o->layout;
			for ( auto & b : p.binds )
			{
				VkDescriptorSetLayoutBinding const * d{};
				if ( !l.sets.empty() ) for ( auto & x : l.sets[0]->binds ) if ( x.binding == b.binding ) d = &x;
				VkShaderStageFlags st = p.compute ? VK_SHADER_STAGE_COMPUTE_BIT : VK_SHADER_STAGE_FRAGMENT_BIT;
				if ( !d || d->descriptorType != b.type || !d->descriptorCount ) violate( "C16", "layout-binding", fn, "the pipeline layout does not declare binding %u as the program uses it", b.binding );
				else if ( ( d->stageFlags & st ) != st ) violate( "C16", "layout-stage", fn, "binding %u is not accessible from the stage which uses it", b.binding );
			}
			std::vector< u64 > own;
			for ( size_t i = 1; i < l.sets.size(); ++i ) own.push_back( l.sets[i]->h );
			if ( own != p.sets ) violate( "C16", "layout-sets", fn, "the pipeline layout has %zu sets of the application, whose program uses %zu (or in another order)", own.size(), p.sets.size() );
			bool same = l.push.size() == p.push.size();
			for ( size_t i = 0; same && i < p.push.size(); ++i ) same = l.push[i].stageFlags == p.push[i].stageFlags && l.push[i].offset == p.push[i].offset && l.push[i].size == p.push[i].size;
			if ( !same ) violate( "C16", "layout-push", fn, "the pipeline layout does not have the push constants of its program" );
		}
		API VkResult VKAPI_CALL CreateGraphicsPipelines( VkDevice d, VkPipelineCache, uint32_t n, VkGraphicsPipelineCreateInfo const * ci, VkAllocationCallbacks const * a, VkPipeline * out )
		{
			char const * fn = "vkCreateGraphicsPipelines";
			checkDev( d, fn ); checkCreateAlloc( a, fn );
			VkResult r; if ( fault( "CreateGraphicsPipelines", &r ) ) { for ( u32 i = 0; i < n; ++i ) out[i] = VK_NULL_HANDLE; return r; }
			for ( u32 i = 0; i < n; ++i )
			{
				checkInfo( ci[i], VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO, fn, ci[i].flags );
				if ( ci[i].pVertexInputState ) checkInfo( *ci[i].pVertexInputState, VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO, fn );
				if ( ci[i].pInputAssemblyState ) checkInfo( *ci[i].pInputAssemblyState, VK_STRUCTURE_TYPE_PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO, fn );
				if ( ci[i].pViewportState ) checkInfo( *ci[i].pViewportState, VK_STRUCTURE_TYPE_PIPELINE_VIEWPORT_STATE_CREATE_INFO, fn );
				if ( ci[i].pRasterizationState ) checkInfo( *ci[i].pRasterizationState, VK_STRUCTURE_TYPE_PIPELINE_RASTERIZATION_STATE_CREATE_INFO, fn );
				if ( ci[i].pMultisampleState ) checkInfo( *ci[i].pMultisampleState, VK_STRUCTURE_TYPE_PIPELINE_MULTISAMPLE_STATE_CREATE_INFO, fn );
				if ( ci[i].pDepthStencilState ) checkInfo( *ci[i].pDepthStencilState, VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO, fn );
				if ( ci[i].pColorBlendState ) checkInfo( *ci[i].pColorBlendState, VK_STRUCTURE_TYPE_PIPELINE_COLOR_BLEND_STATE_CREATE_INFO, fn );
				auto * rp = use< RenderPass >( T::RenderPass, u64( ci[i].renderPass ), fn );
				if ( !ci[i].pVertexInputState || !ci[i].pInputAssemblyState || !ci[i].pRasterizationState || !ci[i].pMultisampleState || !ci[i].pViewportState || ( !ci[i].pColorBlendState && !rp->col.empty() ) || ( !ci[i].pDepthStencilState && rp->hasDepth ) )
					violate( "C16", "pipeline-state", fn, "graphics pipeline without a state its attachments need" );
				if ( ci[i].subpass ) violate( "C16", "pipeline-state", "subpass", "graphics pipeline for subpass %u of one", ci[i].subpass );
				if ( auto * vs = ci[i].pViewportState )
				{
					if ( vs->viewportCount != vs->scissorCount || !vs->viewportCount ) violate( "C16", "pipeline-state", "viewport", "graphics pipeline with %u viewports and %u scissors", vs->viewportCount, vs->scissorCount );
				}
				std::shared_ptr< Prog > prog;
				VkShaderStageFlags seen{};
				for ( u32 s = 0; s < ci[i].stageCount; ++s )
				{
					if ( seen & ci[i].pStages[s].stage ) violate( "C16", "pipeline-state", "stage", "graphics pipeline with two programs for stage 0x%x", ci[i].pStages[s].stage );
					seen |= ci[i].pStages[s].stage;
					auto * m = use< Shader >( T::Shader, u64( ci[i].pStages[s].module ), fn );
					if ( !prog ) prog = m->prog;
				}
				if ( !prog ) violateStop( "C16", "pipeline-no-stage", fn, "graphics pipeline created without shader stages" );
				auto * o = mk< Pipeline >( T::Pipeline, a );
				o->bp = VK_PIPELINE_BIND_POINT_GRAPHICS;
				o->prog = prog;
				setPipeCommon( o, u64( ci[i].layout ), fn );
				o->rpCompat = rp->compat;
				o->state = hashState( ci[i] );
				auto * dss = ci[i].pDepthStencilState;
				o->depthTest = dss && dss->depthTestEnable && rp->hasDepth;
				o->depthWrite = dss && dss->depthTestEnable && dss->depthWriteEnable && rp->hasDepth;
				o->stencilTest = dss && dss->stencilTestEnable && rp->hasDepth;
				o->vertexBindings = ci[i].pVertexInputState ? ci[i].pVertexInputState->vertexBindingDescriptionCount : 0u;
				if ( ci[i].pColorBlendState && ci[i].pColorBlendState->attachmentCount != rp->col.size() )
					violate( "C16", "blend-count", fn, "pipeline has %u blend states for %zu colour attachments", ci[i].pColorBlendState->attachmentCount, rp->col.size() );
				Tr( fn ).o( o ).o( rp ).n( prog->id ).x( o->state ).o( o->layout ).done();
				out[i] = VkPipeline( o->h );
			}
			return VK_SUCCESS;
		}
		API VkResult VKAPI_CALL CreateComputePipelines( VkDevice d, VkPipelineCache, uint32_t n, VkComputePipelineCreateInfo const * ci, VkAllocationCallbacks const * a, VkPipeline * out )
		{
			char const * fn = "vkCreateComputePipelines";
			checkDev( d, fn ); checkCreateAlloc( a, fn );
			VkResult r; if ( fault( "CreateComputePipelines", &r ) ) { for ( u32 i = 0; i < n; ++i ) out[i] = VK_NULL_HANDLE; return r; }
			for ( u32 i = 0; i < n; ++i )
			{
				checkInfo( ci[i], VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO, fn, ci[i].flags );
				auto * m = use< Shader >( T::Shader, u64( ci[i].stage.module ), fn );
				auto * o = mk< Pipeline >( T::Pipeline, a );
				o->bp = VK_PIPELINE_BIND_POINT_COMPUTE;
				o->prog = m->prog;
				setPipeCommon( o, u64( ci[i].layout ), fn );
				Tr( fn ).o( o ).n( o->prog->id ).o( o->layout ).done();
				out[i] = VkPipeline( o->h );
			}
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyPipeline( VkDevice d, VkPipeline h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< Pipeline >( T::Pipeline, u64( h ), d, a, "vkDestroyPipeline" );
			if ( o )
			{
				if ( cfg.verbose ) logf( "DestroyPipeline %s\n", objStr( o ).c_str() );
				if ( hooks.onDestroyPipeline ) hooks.onDestroyPipeline( o );
				kill( o );
			}
		}
		API VkResult VKAPI_CALL CreateDescriptorPool( VkDevice d, VkDescriptorPoolCreateInfo const * ci, VkAllocationCallbacks const * a, VkDescriptorPool * out )
		{
			checkDev( d, "vkCreateDescriptorPool" ); checkCreateAlloc( a, "vkCreateDescriptorPool" ); checkInfo( *ci, VK_STRUCTURE_TYPE_DESCRIPTOR_POOL_CREATE_INFO, "vkCreateDescriptorPool", ci->flags, u32( VK_DESCRIPTOR_POOL_CREATE_FREE_DESCRIPTOR_SET_BIT ) );
			VkResult r; if ( fault( "CreateDescriptorPool", &r ) ) return r;
			auto * o = mk< DescPool >( T::DescPool, a );
			o->maxSets = ci->maxSets; o->flags = ci->flags;
			if ( !ci->maxSets ) violate( "C16", "pool-empty", "sets", "descriptor pool for no set" );
			for ( u32 i = 0; i < ci->poolSizeCount; ++i ) if ( !ci->pPoolSizes[i].descriptorCount ) violate( "C16", "pool-empty", "descriptors", "descriptor pool with no descriptor of type %d", int( ci->pPoolSizes[i].type ) );
			for ( u32 i = 0; i < ci->poolSizeCount; ++i ) o->cap[ci->pPoolSizes[i].type] += ci->pPoolSizes[i].descriptorCount;
			Tr t( "CreateDescriptorPool" ); t.o( o ).n( o->maxSets );
			for ( auto & [k, v] : o->cap ) t.n( k ).n( v );
			t.done();
			*out = VkDescriptorPool( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyDescriptorPool( VkDevice d, VkDescriptorPool h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< DescPool >( T::DescPool, u64( h ), d, a, "vkDestroyDescriptorPool" );
			if ( !o ) return;
			for ( auto * s : o->sets ) if ( s->alive ) { inUse( s, "vkDestroyDescriptorPool" ); kill( s ); }
			kill( o );
		}
		API VkResult VKAPI_CALL AllocateDescriptorSets( VkDevice d, VkDescriptorSetAllocateInfo const * ai, VkDescriptorSet * out )
		{
			checkDev( d, "vkAllocateDescriptorSets" ); checkInfo( *ai, VK_STRUCTURE_TYPE_DESCRIPTOR_SET_ALLOCATE_INFO, "vkAllocateDescriptorSets" );
			auto * p = use< DescPool >( T::DescPool, u64( ai->descriptorPool ), "vkAllocateDescriptorSets" );
			for ( u32 i = 0; i < ai->descriptorSetCount; ++i ) use< DSLayout >( T::DSLayout, u64( ai->pSetLayouts[i] ), "vkAllocateDescriptorSets" );
			VkResult r; if ( fault( "AllocateDescriptorSets", &r ) ) { for ( u32 i = 0; i < ai->descriptorSetCount; ++i ) out[i] = VK_NULL_HANDLE; return r; }
			for ( u32 i = 0; i < ai->descriptorSetCount; ++i )
			{
				auto * l = use< DSLayout >( T::DSLayout, u64( ai->pSetLayouts[i] ), "vkAllocateDescriptorSets" );
				bool ok = p->used < p->maxSets;
				std::map< VkDescriptorType, u32 > need;
				for ( auto & b : l->binds ) need[b.descriptorType] += b.descriptorCount;
				for ( auto & [k, v] : need ) if ( p->usedT[k] + v > p->cap[k] ) ok = false;
				if ( !ok )
				{
					// a pool too small for what is allocated from it is the library's doing
					violate( "C16", "pool-exhausted", "descriptors", "descriptor pool too small for the sets allocated from it" );
					violate( "C07", "pool-exhausted", "descriptors", "descriptor pool too small for the sets allocated from it" );
					for ( u32 k = 0; k < ai->descriptorSetCount; ++k ) out[k] = VK_NULL_HANDLE;
					return VK_ERROR_OUT_OF_POOL_MEMORY;
				}
				++p->used;
				for ( auto & [k, v] : need ) p->usedT[k] += v;
				auto * o = mk< DescSet >( T::DescSet, nullptr );
				o->pool = p; o->layout = l;
				for ( auto & b : l->binds ) o->b[b.binding].type = b.descriptorType;
				p->sets.push_back( o );
				Tr( "AllocateDescriptorSet" ).o( o ).o( p ).o( l ).done();
				out[i] = VkDescriptorSet( o->h );
			}
			return VK_SUCCESS;
		}
		API VkResult VKAPI_CALL FreeDescriptorSets( VkDevice d, VkDescriptorPool ph, uint32_t n, VkDescriptorSet const * sets )
		{
			checkDev( d, "vkFreeDescriptorSets" );
			auto * p = use< DescPool >( T::DescPool, u64( ph ), "vkFreeDescriptorSets" );
			if ( !( p->flags & VK_DESCRIPTOR_POOL_CREATE_FREE_DESCRIPTOR_SET_BIT ) ) violate( "C05", "free-set", "flag", "descriptor sets freed individually from a pool created without that right" );
			for ( u32 i = 0; i < n; ++i )
			{
				auto * s = destroyPrologue< DescSet >( T::DescSet, u64( sets[i] ), d, nullptr, "vkFreeDescriptorSets" );
				if ( s ) { --p->used; kill( s ); }
			}
			return VK_SUCCESS;
		}
		API void VKAPI_CALL UpdateDescriptorSets( VkDevice d, uint32_t n, VkWriteDescriptorSet const * w, uint32_t, VkCopyDescriptorSet const * )
		{
			char const * fn = "vkUpdateDescriptorSets";
			checkDev( d, fn );
			for ( u32 i = 0; i < n; ++i )
			{
				checkInfo( w[i], VK_STRUCTURE_TYPE_WRITE_DESCRIPTOR_SET, fn );
				auto * s = use< DescSet >( T::DescSet, u64( w[i].dstSet ), fn );
				inUse( s, fn );
				++s->version;
				auto it = s->b.find( w[i].dstBinding );
				if ( it == s->b.end() ) { violate( "C16", "descriptor-binding", fn, "write to binding %u, which the set's layout does not have", w[i].dstBinding ); continue; }
				auto & b = it->second;
				if ( b.type != w[i].descriptorType ) violate( "C16", "descriptor-type", fn, "write of a descriptor of another type to binding %u", w[i].dstBinding );
				if ( w[i].dstArrayElement ) { violate( "C16", "descriptor-element", fn, "write of element %u of binding %u, which has one", w[i].dstArrayElement, w[i].dstBinding ); continue; }
				if ( w[i].descriptorCount != 1 ) { violate( "C16", "descriptor-count", fn, "write of %u descriptors to binding %u", w[i].descriptorCount, w[i].dstBinding ); continue; }
				Tr t( "UpdateDescriptorSet" ); t.o( s ).n( w[i].dstBinding ).n( w[i].descriptorType );
				switch ( w[i].descriptorType )
				{
				case VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER:
				case VK_DESCRIPTOR_TYPE_SAMPLED_IMAGE:
				case VK_DESCRIPTOR_TYPE_STORAGE_IMAGE:
					b.view = use< View >( T::View, u64( w[i].pImageInfo->imageView ), fn );
					b.layout = w[i].pImageInfo->imageLayout;
					b.sampler = nullptr;
					if ( w[i].descriptorType == VK_DESCRIPTOR_TYPE_STORAGE_IMAGE && b.layout != VK_IMAGE_LAYOUT_GENERAL )
						for ( auto prop : { "C01", "C16" } ) violate( prop, "unfit-layout", "descriptor", "the descriptor of a storage image names layout %d", int( b.layout ) );
					if ( w[i].descriptorType == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER ) b.sampler = use< Sampler >( T::Sampler, u64( w[i].pImageInfo->sampler ), fn );
					t.o( b.view ).n( b.layout ).o( b.sampler );
					break;
				case VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER:
				case VK_DESCRIPTOR_TYPE_STORAGE_BUFFER:
					b.buf = use< Buffer >( T::Buffer, u64( w[i].pBufferInfo->buffer ), fn );
					b.off = w[i].pBufferInfo->offset;
					b.range = w[i].pBufferInfo->range == VK_WHOLE_SIZE ? b.buf->size - std::min( b.buf->size, b.off ) : w[i].pBufferInfo->range;
					if ( b.off + b.range > b.buf->size ) violate( "C16", "range-outside", fn, "descriptor range %llu+%llu lies outside %s", ( unsigned long long )b.off, ( unsigned long long )b.range, objStr( b.buf ).c_str() );
					t.o( b.buf ).n( b.off ).n( b.range );
					break;
				case VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER:
				case VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER:
				{
					auto * bv = use< BufferView >( T::BufferView, u64( w[i].pTexelBufferView[0] ), fn );
					b.buf = bv->buf; b.off = bv->off; b.range = bv->range;
					t.o( b.buf ).n( b.off ).n( b.range );
					break;
				}
				default: harnessError( "descriptor type not simulated" );
				}
				b.written = true;
				t.done();
			}
		}
		API VkResult VKAPI_CALL CreateCommandPool( VkDevice d, VkCommandPoolCreateInfo const * ci, VkAllocationCallbacks const * a, VkCommandPool * out )
		{
			checkDev( d, "vkCreateCommandPool" ); checkCreateAlloc( a, "vkCreateCommandPool" ); checkInfo( *ci, VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO, "vkCreateCommandPool", ci->flags, u32( VK_COMMAND_POOL_CREATE_TRANSIENT_BIT | VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT ) );
			VkResult r; if ( fault( "CreateCommandPool", &r ) ) return r;
			auto * o = mk< CmdPool >( T::CmdPool, a );
			o->flags = ci->flags;
			Tr( "CreateCommandPool" ).o( o ).n( ci->flags ).n( ci->queueFamilyIndex ).done();
			*out = VkCommandPool( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyCommandPool( VkDevice d, VkCommandPool h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< CmdPool >( T::CmdPool, u64( h ), d, a, "vkDestroyCommandPool" );
			if ( !o ) return;
			for ( auto * b : o->bufs ) if ( b->alive ) { inUse( b, "vkDestroyCommandPool" ); kill( b ); }
			kill( o );
		}
		API VkResult VKAPI_CALL AllocateCommandBuffers( VkDevice d, VkCommandBufferAllocateInfo const * ai, VkCommandBuffer * out )
		{
			checkDev( d, "vkAllocateCommandBuffers" ); checkInfo( *ai, VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, "vkAllocateCommandBuffers" );
			auto * p = use< CmdPool >( T::CmdPool, u64( ai->commandPool ), "vkAllocateCommandBuffers" );
			VkResult r; if ( fault( "AllocateCommandBuffers", &r ) ) { for ( u32 i = 0; i < ai->commandBufferCount; ++i ) out[i] = nullptr; return r; }
			for ( u32 i = 0; i < ai->commandBufferCount; ++i )
			{
				auto * o = mk< CmdBuf >( T::CmdBuf, nullptr );
				o->pool = p;
				p->bufs.push_back( o );
				o->level = ai->level;
				Tr( "AllocateCommandBuffer" ).o( o ).o( p ).n( ai->level ).done();
				out[i] = reinterpret_cast< VkCommandBuffer >( o->h );
			}
			return VK_SUCCESS;
		}
		API void VKAPI_CALL FreeCommandBuffers( VkDevice d, VkCommandPool ph, uint32_t n, VkCommandBuffer const * cbs )
		{
			use< CmdPool >( T::CmdPool, u64( ph ), "vkFreeCommandBuffers" );
			for ( u32 i = 0; i < n; ++i )
			{
				auto * o = destroyPrologue< CmdBuf >( T::CmdBuf, u64( cbs[i] ), d, nullptr, "vkFreeCommandBuffers" );
				if ( o )
				{
					if ( u64( ph ) != o->pool->h ) violate( "C05", "wrong-pool", "vkFreeCommandBuffers", "command buffer freed from another pool" );
					kill( o );
				}
			}
		}
		API VkResult VKAPI_CALL CreateSemaphore( VkDevice d, VkSemaphoreCreateInfo const * ci, VkAllocationCallbacks const * a, VkSemaphore * out )
		{
			checkDev( d, "vkCreateSemaphore" ); checkCreateAlloc( a, "vkCreateSemaphore" ); checkInfo( *ci, VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO, "vkCreateSemaphore", ci->flags );
			VkResult r; if ( fault( "CreateSemaphore", &r ) ) return r;
			auto * o = mk< Semaphore >( T::Semaphore, a );
			Tr( "CreateSemaphore" ).o( o ).done();
			*out = VkSemaphore( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroySemaphore( VkDevice d, VkSemaphore h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< Semaphore >( T::Semaphore, u64( h ), d, a, "vkDestroySemaphore" );
			if ( o ) kill( o );
		}
		API VkResult VKAPI_CALL CreateFence( VkDevice d, VkFenceCreateInfo const * ci, VkAllocationCallbacks const * a, VkFence * out )
		{
			checkDev( d, "vkCreateFence" ); checkCreateAlloc( a, "vkCreateFence" ); checkInfo( *ci, VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, "vkCreateFence", ci->flags, u32( VK_FENCE_CREATE_SIGNALED_BIT ) );
			VkResult r; if ( fault( "CreateFence", &r ) ) return r;
			auto * o = mk< Fence >( T::Fence, a );
			o->signaled = ci->flags & VK_FENCE_CREATE_SIGNALED_BIT;
			Tr( "CreateFence" ).o( o ).n( ci->flags ).done();
			*out = VkFence( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyFence( VkDevice d, VkFence h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< Fence >( T::Fence, u64( h ), d, a, "vkDestroyFence" );
			if ( o )
			{
				if ( o->pending ) violate( "C04", "destroyed-in-flight", "vkDestroyFence", "fence destroyed while the submission it guards has not been observed to complete" );
				kill( o );
			}
		}
		API VkResult VKAPI_CALL GetFenceStatus( VkDevice, VkFence h )
		{
			auto * f = use< Fence >( T::Fence, u64( h ), "vkGetFenceStatus" );
			VkResult r; if ( fault( "GetFenceStatus", &r ) ) return r;
			if ( f->signaled ) return VK_SUCCESS;
			if ( f->pending && f->sub->end <= vtime ) { observe( f ); return VK_SUCCESS; }
			return VK_NOT_READY;
		}
		API VkResult VKAPI_CALL WaitForFences( VkDevice d, uint32_t n, VkFence const * fs, VkBool32, uint64_t timeout )
		{
			checkDev( d, "vkWaitForFences" );
			std::vector< Fence * > v;
			for ( u32 i = 0; i < n; ++i ) v.push_back( use< Fence >( T::Fence, u64( fs[i] ), "vkWaitForFences" ) );
			VkResult r; if ( fault( "WaitForFences", &r ) ) return r;
			u64 const t0 = vtime;
			for ( auto * f : v )
			{
				if ( f->signaled ) continue;
				if ( !f->pending )
				{
					if ( timeout == ~0ull )
					{
						char const * key = dev->injected ? "after-fault" : "no-fault";
						for ( char const * p : { "C06", "C07", "C08", "C17" } )
							violate( p, "wait-forever", key, "vkWaitForFences without timeout on %s, which no submission will ever signal", objStr( f ).c_str() );
						violateStop( cfg.prop.c_str(), "wait-forever", key, "vkWaitForFences without timeout on %s, which no submission will ever signal", objStr( f ).c_str() );
					}
					vtime = t0 + timeout;
					if ( cfg.verbose ) logf( "WaitForFences %s timeout (nothing pending)\n", objStr( f ).c_str() );
					return VK_TIMEOUT;
				}
				u64 limit = timeout == ~0ull ? ~0ull : ( t0 > ~0ull - timeout ? ~0ull : t0 + timeout );
				if ( f->sub->end > vtime )
				{
					if ( f->sub->end <= limit ) vtime = f->sub->end;
					else { vtime = limit; count( "fence_wait_timeouts" ); if ( cfg.verbose ) logf( "WaitForFences %s timeout\n", objStr( f ).c_str() ); return VK_TIMEOUT; }
				}
				observe( f );
				if ( cfg.verbose ) logf( "WaitForFences %s done at %llu\n", objStr( f ).c_str(), ( unsigned long long )vtime );
			}
			return VK_SUCCESS;
		}
		API VkResult VKAPI_CALL ResetFences( VkDevice d, uint32_t n, VkFence const * fs )
		{
			checkDev( d, "vkResetFences" );
			std::vector< Fence * > v;
			for ( u32 i = 0; i < n; ++i ) v.push_back( use< Fence >( T::Fence, u64( fs[i] ), "vkResetFences" ) );
			for ( auto * f : v )
				if ( f->pending )
				{
					auto msg = strf( "%s is reset while the submission it guards has not been observed to complete", objStr( f ).c_str() );
					violate( "C17", "reset-pending", "fence", "%s", msg.c_str() );
					violate( "C08", "reset-pending", "fence", "%s", msg.c_str() );
					violate( "C04", "reset-pending", "fence", "%s", msg.c_str() );
					violate( "C07", "reset-pending", "fence", "%s", msg.c_str() );
				}
			VkResult r; if ( fault( "ResetFences", &r ) ) return r;
			for ( auto * f : v ) { f->signaled = false; f->pending = false; }
			if ( cfg.verbose ) logf( "ResetFences %s\n", objStr( v[0] ).c_str() );
			return VK_SUCCESS;
		}
		API VkResult VKAPI_CALL CreateQueryPool( VkDevice d, VkQueryPoolCreateInfo const * ci, VkAllocationCallbacks const * a, VkQueryPool * out )
		{
			checkDev( d, "vkCreateQueryPool" ); checkCreateAlloc( a, "vkCreateQueryPool" ); checkInfo( *ci, VK_STRUCTURE_TYPE_QUERY_POOL_CREATE_INFO, "vkCreateQueryPool", ci->flags, 0u );
			VkResult r; if ( fault( "CreateQueryPool", &r ) ) return r;
			auto * o = mk< QueryPool >( T::QueryPool, a );
			o->q.resize( ci->queryCount );
			Tr( "CreateQueryPool" ).o( o ).n( ci->queryCount ).done();
			*out = VkQueryPool( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyQueryPool( VkDevice d, VkQueryPool h, VkAllocationCallbacks const * a )
		{
			auto * o = destroyPrologue< QueryPool >( T::QueryPool, u64( h ), d, a, "vkDestroyQueryPool" );
			if ( o ) kill( o );
		}
		API VkResult VKAPI_CALL GetQueryPoolResults( VkDevice d, VkQueryPool h, uint32_t first, uint32_t n, size_t size, void * data, VkDeviceSize stride, VkQueryResultFlags flags )
		{
			char const * fn = "vkGetQueryPoolResults";
			checkDev( d, fn );
			auto * q = use< QueryPool >( T::QueryPool, u64( h ), fn );
			if ( first + n > q->q.size() ) violateStop( "C11", "query-range", fn, "queries %u+%u lie outside of the pool (%zu)", first, n, q->q.size() );
			bool w64 = flags & VK_QUERY_RESULT_64_BIT;
			for ( u32 i = 0; i < n; ++i )
			{
				auto & s = q->q[first + i];
				if ( s.st != QuerySlot::Written )
				{
					auto msg = strf( "query %u is read%s but was not reset and written by submitted work", first + i, ( flags & VK_QUERY_RESULT_WAIT_BIT ) ? " with a wait" : "" );
					violate( "C11", "read-unwritten-query", fn, "%s", msg.c_str() );
					if ( dev->injected ) violate( "C06", "wait-forever", "query", "%s", msg.c_str() );
					if ( dev->injected ) violate( "C07", "wait-forever", "query", "%s", msg.c_str() );
					if ( flags & VK_QUERY_RESULT_WAIT_BIT ) violateStop( cfg.prop.c_str(), "wait-forever", "query", "%s", msg.c_str() );
				}
			}
			VkResult r; if ( fault( "GetQueryPoolResults", &r ) ) return r;
			bool ready = true;
			for ( u32 i = 0; i < n; ++i )
			{
				auto & s = q->q[first + i];
				if ( s.st != QuerySlot::Written ) { ready = false; continue; }
				if ( s.time > vtime )
				{
					if ( flags & VK_QUERY_RESULT_WAIT_BIT ) vtime = s.time;
					else { ready = false; continue; }
				}
				if ( ( i + 1 ) * ( w64 ? 8u : 4u ) > size && i * stride + ( w64 ? 8 : 4 ) > size ) violateStop( "C11", "query-size", fn, "result does not fit the given buffer" );
				char * p = static_cast< char * >( data ) + i * stride;
				if ( w64 ) memcpy( p, &s.value, 8 ); else { u32 v = u32( s.value ); memcpy( p, &v, 4 ); }
			}
			return ready ? VK_SUCCESS : VK_NOT_READY;
		}
		API VkResult VKAPI_CALL CreateEvent( VkDevice d, VkEventCreateInfo const *, VkAllocationCallbacks const * a, VkEvent * out )
		{
			checkDev( d, "vkCreateEvent" );
			VkResult r; if ( fault( "CreateEvent", &r ) ) return r;
			auto * o = mk< Event >( T::Event, a );
			*out = VkEvent( o->h );
			return VK_SUCCESS;
		}
		API void VKAPI_CALL DestroyEvent( VkDevice d, VkEvent h, VkAllocationCallbacks const * a ) { auto * o = destroyPrologue< Event >( T::Event, u64( h ), d, a, "vkDestroyEvent" ); if ( o ) kill( o ); }
		API VkResult VKAPI_CALL SetEvent( VkDevice, VkEvent h ) { use< Event >( T::Event, u64( h ), "vkSetEvent" )->set = true; return VK_SUCCESS; }
		API VkResult VKAPI_CALL ResetEvent( VkDevice, VkEvent h ) { use< Event >( T::Event, u64( h ), "vkResetEvent" )->set = false; return VK_SUCCESS; }
		API VkResult VKAPI_CALL GetEventStatus( VkDevice, VkEvent h ) { return use< Event >( T::Event, u64( h ), "vkGetEventStatus" )->set ? VK_EVENT_SET : VK_EVENT_RESET; }

		// ---------------------------------------------------------- naming
		API VkResult VKAPI_CALL SetDebugUtilsObjectNameEXT( VkDevice, VkDebugUtilsObjectNameInfoEXT const * ni )
		{
			// only the types we know are looked up; the name is information, a failure is not fatal
			static std::map< VkObjectType, T > const m{ { VK_OBJECT_TYPE_IMAGE, T::Image }, { VK_OBJECT_TYPE_IMAGE_VIEW, T::View }, { VK_OBJECT_TYPE_BUFFER, T::Buffer }, { VK_OBJECT_TYPE_DEVICE_MEMORY, T::Memory }, { VK_OBJECT_TYPE_SAMPLER, T::Sampler }
				, { VK_OBJECT_TYPE_RENDER_PASS, T::RenderPass }, { VK_OBJECT_TYPE_FRAMEBUFFER, T::Framebuffer }, { VK_OBJECT_TYPE_PIPELINE, T::Pipeline }, { VK_OBJECT_TYPE_PIPELINE_LAYOUT, T::PipelineLayout }, { VK_OBJECT_TYPE_DESCRIPTOR_SET_LAYOUT, T::DSLayout }
				, { VK_OBJECT_TYPE_DESCRIPTOR_POOL, T::DescPool }, { VK_OBJECT_TYPE_DESCRIPTOR_SET, T::DescSet }, { VK_OBJECT_TYPE_COMMAND_POOL, T::CmdPool }, { VK_OBJECT_TYPE_COMMAND_BUFFER, T::CmdBuf }, { VK_OBJECT_TYPE_SEMAPHORE, T::Semaphore }, { VK_OBJECT_TYPE_FENCE, T::Fence }, { VK_OBJECT_TYPE_QUERY_POOL, T::QueryPool } };
			auto it = m.find( ni->objectType );
			if ( it == m.end() ) return VK_SUCCESS;
			if ( auto * o = findObj( it->second, ni->objectHandle ) ) o->name = ni->pObjectName ? ni->pObjectName : "";
			return VK_SUCCESS;
		}
		API VkResult VKAPI_CALL DebugMarkerSetObjectNameEXT( VkDevice, VkDebugMarkerObjectNameInfoEXT const * ) { return VK_SUCCESS; }

		// ---------------------------------------------------------- command buffers
		static void clearRec( CmdBuf * c )
		{
			c->cmds.clear(); c->refs.clear(); c->submits = 0; c->rp = nullptr; c->fb = nullptr; c->vb = c->ib = nullptr; c->push = 0; c->labels.clear();
			for ( int i = 0; i < 2; ++i ) { c->pipe[i] = nullptr; c->set[i] = nullptr; c->setCompat[i] = 0; }
		}
		API VkResult VKAPI_CALL BeginCommandBuffer( VkCommandBuffer h, VkCommandBufferBeginInfo const * bi )
		{
			char const * fn = "vkBeginCommandBuffer";
			auto * c = use< CmdBuf >( T::CmdBuf, u64( h ), fn );
			checkInfo( *bi, VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, fn, bi->flags, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT | VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT );
			inUse( c, fn );
			if ( c->st == CmdBuf::Recording ) violate( "C16", "begin-while-recording", fn, "begin of a command buffer that is already being recorded" );
			if ( c->st != CmdBuf::Initial && !( c->pool->flags & VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT ) ) violate( "C16", "begin-no-reset", fn, "implicit reset of a command buffer whose pool does not allow it" );
			VkResult r; if ( fault( "BeginCommandBuffer", &r ) ) { c->st = CmdBuf::Invalid; return r; }
			clearRec( c );
			c->st = CmdBuf::Recording;
			c->usage = bi->flags;
			Tr( "BeginCommandBuffer" ).o( c ).n( bi->flags ).done();
			return VK_SUCCESS;
		}
		API VkResult VKAPI_CALL EndCommandBuffer( VkCommandBuffer h )
		{
			char const * fn = "vkEndCommandBuffer";
			auto * c = use< CmdBuf >( T::CmdBuf, u64( h ), fn );
			if ( c->st != CmdBuf::Recording )
			{
				violate( "C16", "end-not-recording", fn, "end of a command buffer that is not being recorded" );
				if ( dev->injected ) violate( "C06", "end-not-recording", fn, "end of a command buffer whose begin failed" );
				return VK_ERROR_UNKNOWN;
			}
			if ( c->rp ) violate( "C16", "end-in-render-pass", fn, "command buffer ended inside a render pass" );
			if ( !c->labels.empty() ) violate( "C16", "label-open", fn, "command buffer ended with %zu open debug label(s)", c->labels.size() );
			VkResult r; if ( fault( "EndCommandBuffer", &r ) ) { c->st = CmdBuf::Invalid; return r; }
			c->st = CmdBuf::Executable;
			Tr( "EndCommandBuffer" ).o( c ).done();
			return VK_SUCCESS;
		}
		API VkResult VKAPI_CALL ResetCommandBuffer( VkCommandBuffer h, VkCommandBufferResetFlags )
		{
			char const * fn = "vkResetCommandBuffer";
			auto * c = use< CmdBuf >( T::CmdBuf, u64( h ), fn );
			inUse( c, fn );
			if ( !( c->pool->flags & VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT ) ) violate( "C16", "reset-not-allowed", fn, "reset of a command buffer whose pool does not allow it" );
			VkResult r; if ( fault( "ResetCommandBuffer", &r ) ) return r;
			clearRec( c );
			c->st = CmdBuf::Initial;
			Tr( "ResetCommandBuffer" ).o( c ).done();
			return VK_SUCCESS;
		}

		static bool dupSem( std::vector< VkSemaphore > const & v, VkSemaphore s ) { return std::count( v.begin(), v.end(), s ) > 1; }

		API VkResult VKAPI_CALL QueueSubmit( VkQueue qh, uint32_t n, VkSubmitInfo const * si, VkFence fh )
		{
			char const * fn = "vkQueueSubmit";
			auto * q = use< Queue >( T::Queue, u64( qh ), fn );
			auto * f = useOpt< Fence >( T::Fence, u64( fh ), fn );
			for ( u32 b = 0; b < n; ++b ) checkInfo( si[b], VK_STRUCTURE_TYPE_SUBMIT_INFO, fn );
			for ( u32 b = 0; b < n; ++b )
			{
				for ( u32 i = 0; i < si[b].commandBufferCount; ++i )
				{
					auto * c = use< CmdBuf >( T::CmdBuf, u64( si[b].pCommandBuffers[i] ), fn );
					if ( c->level != VK_COMMAND_BUFFER_LEVEL_PRIMARY ) violate( "C16", "submit-secondary", fn, "%s is not a primary command buffer", objStr( c ).c_str() );
					if ( c->st != CmdBuf::Executable )
					{
						auto msg = strf( "submitted %s is not completely recorded (state %d)", objStr( c ).c_str(), int( c->st ) );
						violate( "C06", "submit-incomplete", fn, "%s", msg.c_str() );
						violate( "C07", "submit-incomplete", fn, "%s", msg.c_str() );
						violateStop( "C16", "submit-incomplete", fn, "%s", msg.c_str() );
					}
					if ( ( c->usage & VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT ) && c->submits ) violate( "C16", "submit-twice", fn, "%s recorded for one submission is submitted again", objStr( c ).c_str() );
					if ( c->inflight && !( c->usage & VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT ) ) violate( "C04", "submit-in-flight", fn, "%s submitted while it is still pending", objStr( c ).c_str() );
					for ( auto * o : c->refs )
						if ( !o->alive )
						{
							auto msg = strf( "submitted commands use %s, destroyed since they were recorded", objStr( o ).c_str() );
							auto key = std::string( typeName( o->type ) );
							violate( "C04", "submit-dead-ref", key, "%s", msg.c_str() );
							violate( "C15", "submit-dead-ref", key, "%s", msg.c_str() );
							violateStop( "C16", "submit-dead-ref", key, "%s", msg.c_str() );
						}
					for ( auto & cm : c->cmds )
						if ( cm.dset && cm.dset->version != cm.setVersion )
						{
							violate( "C16", "set-updated-after-recording", fn, "%s was updated after the commands using it were recorded", objStr( cm.dset ).c_str() );
							break;
						}
				}
				std::vector< VkSemaphore > ws( si[b].pWaitSemaphores, si[b].pWaitSemaphores + si[b].waitSemaphoreCount );
				for ( u32 i = 0; i < si[b].waitSemaphoreCount; ++i )
				{
					auto * s = use< Semaphore >( T::Semaphore, u64( ws[i] ), fn );
					if ( dupSem( ws, ws[i] ) ) violate( "C08", "semaphore-waited-twice", fn, "%s appears twice in the wait list of one submission", objStr( s ).c_str() );
					if ( !si[b].pWaitDstStageMask[i] ) violate( "C08", "wait-stage-zero", fn, "wait without stage" );
					if ( !s->signalBy ) violateStop( "C08", "wait-unsignalled", fn, "submission waits on %s, which has no pending signal", objStr( s ).c_str() );
				}
			}
			if ( f )
			{
				if ( f->pending || f->signaled )
				{
					auto msg = strf( "submission with %s, which is %s", objStr( f ).c_str(), f->pending ? "still pending" : "signalled" );
					violate( "C08", "fence-in-use", fn, "%s", msg.c_str() );
					violate( "C17", "fence-in-use", fn, "%s", msg.c_str() );
					violate( "C07", "fence-in-use", fn, "%s", msg.c_str() );
				}
			}
			for ( u32 b = 0; b < n; ++b )
			{
				std::vector< VkSemaphore > ws( si[b].pWaitSemaphores, si[b].pWaitSemaphores + si[b].waitSemaphoreCount );
				for ( u32 i = 0; i < si[b].signalSemaphoreCount; ++i )
				{
					auto * s = use< Semaphore >( T::Semaphore, u64( si[b].pSignalSemaphores[i] ), fn );
					if ( s->signalBy && std::count( ws.begin(), ws.end(), si[b].pSignalSemaphores[i] ) == 0 )
						violate( "C08", "signal-signalled", fn, "submission signals %s, whose previous signal was not waited for", objStr( s ).c_str() );
				}
			}
			VkResult r; if ( fault( "QueueSubmit", &r ) ) return r;
			for ( u32 b = 0; b < n; ++b )
			{
				dev->subs.emplace_back();
				auto * s = &dev->subs.back();
				s->id = u32( dev->subs.size() - 1 );
				s->q = q;
				s->lib = !dev->userMode;
				s->tSubmit = vtime;
				s->prev = q->last;
				u64 ready = std::max( vtime, q->busyUntil );
				Tr t( "QueueSubmit" ); t.o( q ).o( f );
				for ( u32 i = 0; i < si[b].waitSemaphoreCount; ++i )
				{
					auto * sem = use< Semaphore >( T::Semaphore, u64( si[b].pWaitSemaphores[i] ), fn );
					s->waits.emplace_back( sem, si[b].pWaitDstStageMask[i] );
					if ( sem->signalBy ) { s->waitSubs.push_back( sem->signalBy ); ready = std::max( ready, sem->signalBy->end ); }
					sem->signalBy = nullptr;
					s->refs.insert( sem );
					t.o( sem ).x( si[b].pWaitDstStageMask[i] );
				}
				for ( u32 i = 0; i < si[b].commandBufferCount; ++i )
				{
					auto * c = use< CmdBuf >( T::CmdBuf, u64( si[b].pCommandBuffers[i] ), fn );
					s->cbs.push_back( c );
					++c->submits;
					s->refs.insert( c );
					for ( auto * o : c->refs ) s->refs.insert( o );
					t.o( c );
				}
				for ( auto & cb : s->cbs )
					for ( auto & cm : cb->cmds )
						if ( cm.dset )
							for ( auto & [_, db] : cm.dset->b )
							{
								if ( db.view ) { s->refs.insert( db.view ); s->refs.insert( db.view->img ); }
								if ( db.sampler ) s->refs.insert( db.sampler );
								if ( db.buf ) s->refs.insert( db.buf );
							}
				for ( u32 i = 0; i < si[b].signalSemaphoreCount; ++i )
				{
					auto * sem = use< Semaphore >( T::Semaphore, u64( si[b].pSignalSemaphores[i] ), fn );
					s->signals.push_back( sem );
					sem->signalBy = s;
					s->refs.insert( sem );
					t.o( sem );
				}
				// memory behind images and buffers is used too
				std::vector< Obj * > more;
				for ( auto * o : s->refs )
				{
					if ( o->type == T::Image && static_cast< Image * >( o )->mem ) more.push_back( static_cast< Image * >( o )->mem );
					if ( o->type == T::Buffer && static_cast< Buffer * >( o )->mem ) more.push_back( static_cast< Buffer * >( o )->mem );
				}
				for ( auto * o : more ) s->refs.insert( o );
				for ( auto * o : s->refs ) { if ( !o->alive ) violateStop( "C04", "submit-dead-ref", typeName( o->type ), "submitted commands use %s, which has been destroyed", objStr( o ).c_str() ); ++o->inflight; }
				s->start = ready;
				u64 dur;
				switch ( dev->gpuMode )
				{
				case 1: dur = 1000000ull * chooseRange( 1, 40, "gpu-ms" ); break;
				case 2: dur = 1000000000ull * chooseRange( 1, 30, "gpu-s" ); break;
				case 3:
				{
					static u64 const d[]{ 5000, 200000, 8000000, 900000000ull, 40000000000ull, 7200000000000ull };
					dur = d[choose( 6, "gpu-tail" )] + choose( 1000, "gpu-jit" );
					break;
				}
				default: dur = 20000 + 1000ull * choose( 64, "gpu-us" ); break;
				}
				s->end = s->start + dur;
				q->busyUntil = s->end;
				q->last = s;
				if ( f && b + 1 == n ) { f->pending = true; f->signaled = false; f->sub = s; s->fence = f; }
				if ( s->lib ) { ++dev->libSubmits; dev->lastSub = s; count( "submissions" ); }
				t.done();
				if ( hooks.onSubmit ) hooks.onSubmit( s );
				gpuSubmit( s );
			}
			return VK_SUCCESS;
		}

		// ---------------------------------------------------------- commands
		enum Where { Any, Inside, Outside };
		static CmdBuf * recBuf( VkCommandBuffer h, Op op, Where w )
		{
			step( 60 );
			auto * c = use< CmdBuf >( T::CmdBuf, u64( h ), opName( op ) );
			if ( c->st != CmdBuf::Recording )
			{
				auto msg = strf( "%s recorded in a command buffer that is not being recorded (state %d)", opName( op ), int( c->st ) );
				if ( dev->injected ) violate( "C06", "record-outside", "begin-failed", "%s", msg.c_str() );
				violateStop( "C16", "record-outside", opName( op ), "%s", msg.c_str() );
			}
			if ( w == Inside && !c->rp ) violate( "C16", "outside-render-pass", opName( op ), "%s recorded outside of a render pass", opName( op ) );
			if ( w == Outside && c->rp ) violate( "C16", "inside-render-pass", opName( op ), "%s recorded inside a render pass", opName( op ) );
			return c;
		}
		static Cmd & add( CmdBuf * c, Op op ) { c->cmds.emplace_back(); c->cmds.back().op = op; return c->cmds.back(); }
		static void fin( CmdBuf * c, Tr & t )
		{
			t.done();
			count( "commands" );
			if ( hooks.onCmd ) hooks.onCmd( c, c->cmds.back() );
		}
		static void checkRange( Image const * i, VkImageSubresourceRange const & r, char const * fn )
		{
			if ( r.levelCount == 0 || r.layerCount == 0 || !r.aspectMask || ( r.aspectMask & ~aspectMaskOf( i->info.format ) )
				|| ( r.levelCount != VK_REMAINING_MIP_LEVELS && r.baseMipLevel + r.levelCount > i->info.mipLevels ) || r.baseMipLevel >= i->info.mipLevels
				|| ( r.layerCount != VK_REMAINING_ARRAY_LAYERS && r.baseArrayLayer + r.layerCount > i->info.arrayLayers ) || r.baseArrayLayer >= i->info.arrayLayers )
				violateStop( "C16", "range-outside", fn, "%s: range [aspect %u mips %u+%u layers %u+%u] is not inside %s", fn, r.aspectMask, r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount, objStr( i ).c_str() );
		}
		static VkImageSubresourceRange full( Image const * i, VkImageSubresourceRange r )
		{
			if ( r.levelCount == VK_REMAINING_MIP_LEVELS ) r.levelCount = i->info.mipLevels - r.baseMipLevel;
			if ( r.layerCount == VK_REMAINING_ARRAY_LAYERS ) r.layerCount = i->info.arrayLayers - r.baseArrayLayer;
			return r;
		}
		static void checkLayers( Image const * i, VkImageSubresourceLayers const & l, VkOffset3D o, VkExtent3D e, char const * fn )
		{
			auto m = i->info.mipLevels > l.mipLevel ? mipExtent( i, l.mipLevel ) : VkExtent3D{};
			if ( !l.aspectMask || ( l.aspectMask & ~aspectMaskOf( i->info.format ) ) || l.mipLevel >= i->info.mipLevels || l.layerCount == 0 || l.baseArrayLayer + l.layerCount > i->info.arrayLayers
				|| o.x < 0 || o.y < 0 || o.z < 0 || u64( o.x ) + e.width > m.width || u64( o.y ) + e.height > m.height || u64( o.z ) + e.depth > m.depth || !e.width || !e.height || !e.depth )
				violateStop( "C16", "region-outside", fn, "%s: region [aspect %u mip %u layers %u+%u offset %d,%d,%d extent %ux%ux%u] is not inside %s", fn, l.aspectMask, l.mipLevel, l.baseArrayLayer, l.layerCount, o.x, o.y, o.z, e.width, e.height, e.depth, objStr( i ).c_str() );
		}

		API void VKAPI_CALL CmdBindPipeline( VkCommandBuffer h, VkPipelineBindPoint bp, VkPipeline p )
		{
			auto * c = recBuf( h, Op::BindPipeline, Any );
			auto * pi = use< Pipeline >( T::Pipeline, u64( p ), "vkCmdBindPipeline" );
			if ( pi->bp != bp ) violate( "C16", "bind-point", "pipeline", "pipeline bound to another bind point" );
			auto & m = add( c, Op::BindPipeline ); m.pipe = pi;
			c->pipe[bp == VK_PIPELINE_BIND_POINT_COMPUTE] = pi;
			c->refs.insert( pi );
			Tr t( "CmdBindPipeline" ); t.n( bp ).o( pi ); fin( c, t );
		}
		API void VKAPI_CALL CmdBindDescriptorSets( VkCommandBuffer h, VkPipelineBindPoint bp, VkPipelineLayout l, uint32_t first, uint32_t n, VkDescriptorSet const * s, uint32_t, uint32_t const * )
		{
			auto * c = recBuf( h, Op::BindSets, Any );
			auto * lo = use< PipelineLayout >( T::PipelineLayout, u64( l ), "vkCmdBindDescriptorSets" );
			auto & m = add( c, Op::BindSets ); m.plo = lo;
			Tr t( "CmdBindDescriptorSets" ); t.n( bp ).o( lo ).n( first );
			for ( u32 i = 0; i < n; ++i )
			{
				auto * ds = use< DescSet >( T::DescSet, u64( s[i] ), "vkCmdBindDescriptorSets" );
				if ( first + i >= lo->sets.size() || layoutCompat( lo->sets[first + i] ) != layoutCompat( ds->layout ) ) violate( "C16", "set-layout", "bind", "descriptor set bound with an incompatible layout" );
				if ( first + i == 0 ) { c->set[bp == VK_PIPELINE_BIND_POINT_COMPUTE] = ds; c->setCompat[bp == VK_PIPELINE_BIND_POINT_COMPUTE] = layoutCompat( ds->layout ); m.set = ds; }
				c->refs.insert( ds );
				t.o( ds );
			}
			fin( c, t );
		}
		API void VKAPI_CALL CmdBindVertexBuffers( VkCommandBuffer h, uint32_t first, uint32_t n, VkBuffer const * b, VkDeviceSize const * off )
		{
			auto * c = recBuf( h, Op::BindVB, Any );
			auto & m = add( c, Op::BindVB );
			Tr t( "CmdBindVertexBuffers" ); t.n( first );
			for ( u32 i = 0; i < n; ++i )
			{
				auto * bu = use< Buffer >( T::Buffer, u64( b[i] ), "vkCmdBindVertexBuffers" );
				if ( !( bu->usage & VK_BUFFER_USAGE_VERTEX_BUFFER_BIT ) ) violate( "C16", "buffer-usage", "vertex", "%s bound as vertex buffer lacks that usage", objStr( bu ).c_str() );
				if ( off[i] >= bu->size ) violate( "C16", "range-outside", "vkCmdBindVertexBuffers", "vertex buffer offset outside of the buffer" );
				if ( bu->lib && !bu->mem ) violate( "C06", "unbound-buffer", "vertex", "vertex buffer without memory" );
				if ( first + i == 0 ) { c->vb = bu; c->vbOff = off[i]; }
				m.buf = bu; m.a[0] = off[i];
				c->refs.insert( bu );
				t.o( bu ).n( off[i] );
			}
			fin( c, t );
		}
		API void VKAPI_CALL CmdBindIndexBuffer( VkCommandBuffer h, VkBuffer b, VkDeviceSize off, VkIndexType it )
		{
			auto * c = recBuf( h, Op::BindIB, Any );
			auto * bu = use< Buffer >( T::Buffer, u64( b ), "vkCmdBindIndexBuffer" );
			if ( !( bu->usage & VK_BUFFER_USAGE_INDEX_BUFFER_BIT ) ) violate( "C16", "buffer-usage", "index", "%s bound as index buffer lacks that usage", objStr( bu ).c_str() );
			if ( off >= bu->size ) violate( "C16", "range-outside", "vkCmdBindIndexBuffer", "index buffer offset outside of the buffer" );
			auto & m = add( c, Op::BindIB ); m.buf = bu; m.a[0] = off;
			c->ib = bu; c->ibOff = off; c->itype = it;
			c->refs.insert( bu );
			Tr t( "CmdBindIndexBuffer" ); t.o( bu ).n( off ).n( it ); fin( c, t );
		}
		static void clearImg( VkCommandBuffer h, VkImage ih, VkImageLayout l, u64 val, u32 n, VkImageSubresourceRange const * rg, bool ds, VkClearValue cv )
		{
			Op op = ds ? Op::ClearDS : Op::ClearColor;
			auto * c = recBuf( h, op, Outside );
			auto * i = use< Image >( T::Image, u64( ih ), opName( op ) );
			bool isDS = aspectMaskOf( i->info.format ) != VK_IMAGE_ASPECT_COLOR_BIT;
			if ( isDS != ds ) violate( "C16", "clear-kind", opName( op ), "%s of an image of the other kind", opName( op ) );
			if ( l != VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL && l != VK_IMAGE_LAYOUT_GENERAL ) violate( "C01", "clear-layout", opName( op ), "clear in layout %d", int( l ) );
			auto & m = add( c, op ); m.img = i; m.lay = l; m.clears.push_back( cv ); m.a[0] = val;
			Tr t( opName( op ) ); t.o( i ).n( l ).x( val );
			for ( u32 k = 0; k < n; ++k ) { checkRange( i, rg[k], opName( op ) ); m.ranges.push_back( full( i, rg[k] ) ); t.r( rg[k] ); }
			c->refs.insert( i );
			fin( c, t );
		}
		API void VKAPI_CALL CmdClearColorImage( VkCommandBuffer h, VkImage i, VkImageLayout l, VkClearColorValue const * v, uint32_t n, VkImageSubresourceRange const * r )
		{
			VkClearValue cv{}; cv.color = *v;
			u64 x = 0xC1EA4; for ( int k = 0; k < 4; ++k ) x = mix2( x, v->uint32[k] );
			clearImg( h, i, l, x, n, r, false, cv );
		}
		API void VKAPI_CALL CmdClearDepthStencilImage( VkCommandBuffer h, VkImage i, VkImageLayout l, VkClearDepthStencilValue const * v, uint32_t n, VkImageSubresourceRange const * r )
		{
			VkClearValue cv{}; cv.depthStencil = *v;
			clearImg( h, i, l, mix2( fl( v->depth ), v->stencil ), n, r, true, cv );
		}
		static void resolveExec( CmdBuf * c, Cmd & m, bool compute, bool indexed )
		{
			auto * p = c->pipe[compute];
			if ( !p ) violateStop( "C16", "no-pipeline", opName( m.op ), "%s without a bound pipeline", opName( m.op ) );
			m.dpipe = p;
			m.dset = c->set[compute];
			m.dpush = c->push;
			if ( m.dset ) m.setVersion = m.dset->version;
			if ( !p->prog->binds.empty() || !p->layout->sets.empty() )
			{
				if ( !m.dset ) violateStop( "C16", "no-set", opName( m.op ), "%s without a bound descriptor set", opName( m.op ) );
				if ( c->setCompat[compute] != p->layoutCompat ) violate( "C16", "set-compat", opName( m.op ), "%s with a descriptor set incompatible with the pipeline layout", opName( m.op ) );
				for ( auto & b : p->prog->binds )
				{
					auto it = m.dset->b.find( b.binding );
					if ( it == m.dset->b.end() || it->second.type != b.type ) violateStop( "C16", "binding-missing", opName( m.op ), "%s: binding %u used by the program is not in the set", opName( m.op ), b.binding );
					if ( !it->second.written ) violateStop( "C16", "binding-unwritten", opName( m.op ), "%s: binding %u used by the program was never written", opName( m.op ), b.binding );
				}
			}
			if ( !compute )
			{
				m.drp = c->rp; m.dfb = c->fb; m.darea = c->area;
				if ( c->rp && p->rpCompat != c->rp->compat ) violate( "C16", "rp-compat", opName( m.op ), "%s with a pipeline made for an incompatible render pass", opName( m.op ) );
				if ( p->vertexBindings )
				{
					if ( !c->vb ) violate( "C16", "no-vertex-buffer", opName( m.op ), "%s without a bound vertex buffer", opName( m.op ) );
					m.dvb = c->vb; m.dvbOff = c->vbOff;
				}
				if ( indexed )
				{
					if ( !c->ib ) violateStop( "C16", "no-index-buffer", opName( m.op ), "%s without a bound index buffer", opName( m.op ) );
					m.dib = c->ib; m.dibOff = c->ibOff; m.ditype = c->itype;
				}
			}
		}
		API void VKAPI_CALL CmdDispatch( VkCommandBuffer h, uint32_t x, uint32_t y, uint32_t z )
		{
			auto * c = recBuf( h, Op::Dispatch, Outside );
			auto & m = add( c, Op::Dispatch ); m.a[0] = x; m.a[1] = y; m.a[2] = z;
			resolveExec( c, m, true, false );
			Tr t( "CmdDispatch" ); t.n( x ).n( y ).n( z ); fin( c, t );
		}
		static Buffer * indirect( CmdBuf * c, VkBuffer b, u64 off, u64 size, char const * fn )
		{
			auto * bu = use< Buffer >( T::Buffer, u64( b ), fn );
			if ( !( bu->usage & VK_BUFFER_USAGE_INDIRECT_BUFFER_BIT ) ) violate( "C16", "buffer-usage", "indirect", "%s: %s lacks the indirect usage", fn, objStr( bu ).c_str() );
			if ( off + size > bu->size ) violateStop( "C16", "range-outside", fn, "%s: parameters lie outside of %s", fn, objStr( bu ).c_str() );
			c->refs.insert( bu );
			return bu;
		}
		API void VKAPI_CALL CmdDispatchIndirect( VkCommandBuffer h, VkBuffer b, VkDeviceSize off )
		{
			auto * c = recBuf( h, Op::DispatchIndirect, Outside );
			auto * bu = indirect( c, b, off, 12, "vkCmdDispatchIndirect" );
			auto & m = add( c, Op::DispatchIndirect ); m.buf = bu; m.a[0] = off; m.a[3] = 12;
			resolveExec( c, m, true, false );
			Tr t( "CmdDispatchIndirect" ); t.o( bu ).n( off ); fin( c, t );
		}
		API void VKAPI_CALL CmdDraw( VkCommandBuffer h, uint32_t vc, uint32_t ic, uint32_t fv, uint32_t fi )
		{
			auto * c = recBuf( h, Op::Draw, Inside );
			auto & m = add( c, Op::Draw ); m.a[0] = vc; m.a[1] = ic; m.a[2] = fv; m.a[3] = fi;
			resolveExec( c, m, false, false );
			Tr t( "CmdDraw" ); t.n( vc ).n( ic ).n( fv ).n( fi ); fin( c, t );
		}
		API void VKAPI_CALL CmdDrawIndexed( VkCommandBuffer h, uint32_t xc, uint32_t ic, uint32_t fx, int32_t vo, uint32_t fi )
		{
			auto * c = recBuf( h, Op::DrawIndexed, Inside );
			auto & m = add( c, Op::DrawIndexed ); m.a[0] = xc; m.a[1] = ic; m.a[2] = fx; m.a[3] = u64( vo ); m.a[4] = fi;
			resolveExec( c, m, false, true );
			Tr t( "CmdDrawIndexed" ); t.n( xc ).n( ic ).n( fx ).n( u64( vo ) ).n( fi ); fin( c, t );
		}
		static void drawIndirect( VkCommandBuffer h, VkBuffer b, VkDeviceSize off, uint32_t n, uint32_t stride, Op op )
		{
			auto * c = recBuf( h, op, Inside );
			u64 one = op == Op::DrawIndirect ? 16 : 20;
			auto * bu = indirect( c, b, off, n ? ( n - 1 ) * u64( stride ) + one : 0, opName( op ) );
			auto & m = add( c, op ); m.buf = bu; m.a[0] = off; m.a[1] = n; m.a[2] = stride; m.a[3] = n ? ( n - 1 ) * u64( stride ) + one : 0;
			resolveExec( c, m, false, op == Op::DrawIndexedIndirect );
			Tr t( opName( op ) ); t.o( bu ).n( off ).n( n ).n( stride ); fin( c, t );
		}
		API void VKAPI_CALL CmdDrawIndirect( VkCommandBuffer h, VkBuffer b, VkDeviceSize off, uint32_t n, uint32_t stride ) { drawIndirect( h, b, off, n, stride, Op::DrawIndirect ); }
		API void VKAPI_CALL CmdDrawIndexedIndirect( VkCommandBuffer h, VkBuffer b, VkDeviceSize off, uint32_t n, uint32_t stride ) { drawIndirect( h, b, off, n, stride, Op::DrawIndexedIndirect ); }
		API void VKAPI_CALL CmdBeginRenderPass( VkCommandBuffer h, VkRenderPassBeginInfo const * bi, VkSubpassContents )
		{
			auto * c = recBuf( h, Op::BeginRP, Outside );
			checkInfo( *bi, VK_STRUCTURE_TYPE_RENDER_PASS_BEGIN_INFO, "vkCmdBeginRenderPass" );
			auto * rp = use< RenderPass >( T::RenderPass, u64( bi->renderPass ), "vkCmdBeginRenderPass" );
			auto * fb = use< Framebuffer >( T::Framebuffer, u64( bi->framebuffer ), "vkCmdBeginRenderPass" );
			if ( fb->compat != rp->compat ) violate( "C16", "fb-compat", "begin", "framebuffer incompatible with the render pass" );
			auto & a = bi->renderArea;
			if ( a.offset.x < 0 || a.offset.y < 0 || a.offset.x + a.extent.width > fb->w || a.offset.y + a.extent.height > fb->h_ ) violate( "C16", "area-outside", "begin", "render area %d,%d %ux%u lies outside of the framebuffer %ux%u", a.offset.x, a.offset.y, a.extent.width, a.extent.height, fb->w, fb->h_ );
			for ( u32 i = 0; i < rp->att.size(); ++i )
				if ( ( rp->att[i].loadOp == VK_ATTACHMENT_LOAD_OP_CLEAR || rp->att[i].stencilLoadOp == VK_ATTACHMENT_LOAD_OP_CLEAR ) && i >= bi->clearValueCount )
					violate( "C16", "clear-values", "begin", "%u clear values given, attachment %u is cleared", bi->clearValueCount, i );
			for ( auto * v : fb->views ) if ( !v->alive ) violateStop( "C04", "dead-view-in-framebuffer", "begin", "framebuffer uses a destroyed view" );
			auto & m = add( c, Op::BeginRP ); m.rp = rp; m.fb = fb; m.area = a;
			m.clears.assign( bi->pClearValues, bi->pClearValues + bi->clearValueCount );
			m.clears.resize( rp->att.size() );
			c->rp = rp; c->fb = fb; c->area = a;
			c->refs.insert( rp ); c->refs.insert( fb );
			Tr t( "CmdBeginRenderPass" ); t.o( rp ).o( fb ).n( a.extent.width ).n( a.extent.height );
			for ( u32 i = 0; i < rp->att.size() && i < bi->clearValueCount; ++i ) if ( rp->att[i].loadOp == VK_ATTACHMENT_LOAD_OP_CLEAR ) t.x( bi->pClearValues[i].color.uint32[0] ).x( bi->pClearValues[i].color.uint32[1] );
			for ( auto * v : fb->views ) { c->refs.insert( v ); c->refs.insert( v->img ); }
			fin( c, t );
		}
		API void VKAPI_CALL CmdEndRenderPass( VkCommandBuffer h )
		{
			auto * c = recBuf( h, Op::EndRP, Inside );
			auto & m = add( c, Op::EndRP ); m.rp = c->rp; m.fb = c->fb;
			c->rp = nullptr; c->fb = nullptr;
			Tr t( "CmdEndRenderPass" ); fin( c, t );
		}
		API void VKAPI_CALL CmdPushConstants( VkCommandBuffer h, VkPipelineLayout l, VkShaderStageFlags st, uint32_t off, uint32_t size, void const * data )
		{
			auto * c = recBuf( h, Op::Push, Any );
			use< PipelineLayout >( T::PipelineLayout, u64( l ), "vkCmdPushConstants" );
			add( c, Op::Push );
			u64 x = mix2( off, size );
			for ( u32 i = 0; i < size; ++i ) x = mix2( x, static_cast< u8 const * >( data )[i] );
			c->push = mix2( c->push, x );
			Tr t( "CmdPushConstants" ); t.x( st ).n( off ).n( size ).x( x ); fin( c, t );
		}
		API void VKAPI_CALL CmdResetQueryPool( VkCommandBuffer h, VkQueryPool p, uint32_t first, uint32_t n )
		{
			auto * c = recBuf( h, Op::ResetQuery, Outside );
			auto * q = use< QueryPool >( T::QueryPool, u64( p ), "vkCmdResetQueryPool" );
			if ( first + n > q->q.size() ) { violate( "C11", "query-range", "reset", "reset of queries %u+%u outside of the pool (%zu)", first, n, q->q.size() ); violateStop( "C16", "query-range", "reset", "reset of queries %u+%u outside of the pool (%zu)", first, n, q->q.size() ); }
			auto & m = add( c, Op::ResetQuery ); m.qp = q; m.a[0] = first; m.a[1] = n;
			c->refs.insert( q );
			Tr t( "CmdResetQueryPool" ); t.o( q ).n( first ).n( n ); fin( c, t );
		}
		API void VKAPI_CALL CmdWriteTimestamp( VkCommandBuffer h, VkPipelineStageFlagBits st, VkQueryPool p, uint32_t i )
		{
			auto * c = recBuf( h, Op::WriteTS, Any );
			auto * q = use< QueryPool >( T::QueryPool, u64( p ), "vkCmdWriteTimestamp" );
			if ( i >= q->q.size() ) { violate( "C11", "query-range", "write", "timestamp written to query %u outside of the pool (%zu)", i, q->q.size() ); violateStop( "C16", "query-range", "write", "timestamp written to query %u outside of the pool (%zu)", i, q->q.size() ); }
			auto & m = add( c, Op::WriteTS ); m.qp = q; m.a[0] = i; m.s1 = st;
			c->refs.insert( q );
			Tr t( "CmdWriteTimestamp" ); t.o( q ).n( i ).x( st ); fin( c, t );
		}
		API void VKAPI_CALL CmdPipelineBarrier( VkCommandBuffer h, VkPipelineStageFlags s1, VkPipelineStageFlags s2, VkDependencyFlags df, uint32_t nm, VkMemoryBarrier const * mb, uint32_t nb, VkBufferMemoryBarrier const * bb, uint32_t ni, VkImageMemoryBarrier const * ib )
		{
			char const * fn = "vkCmdPipelineBarrier";
			auto * c = recBuf( h, Op::Barrier, Outside );
			if ( !s1 || !s2 ) violate( "C16", "stage-zero", fn, "barrier with an empty stage mask" );
			auto & m = add( c, Op::Barrier ); m.s1 = s1; m.s2 = s2; m.dflags = df;
			Tr t( "CmdPipelineBarrier" ); t.x( s1 ).x( s2 );
			for ( u32 i = 0; i < nm; ++i ) { checkAccess( s1, s2, mb[i].srcAccessMask, mb[i].dstAccessMask, fn ); m.mb.push_back( mb[i] ); t.x( mb[i].srcAccessMask ).x( mb[i].dstAccessMask ); }
			for ( u32 i = 0; i < nb; ++i )
			{
				checkInfo( bb[i], VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER, fn );
				checkFamilies( bb[i].srcQueueFamilyIndex, bb[i].dstQueueFamilyIndex, fn );
				auto * b = use< Buffer >( T::Buffer, u64( bb[i].buffer ), fn );
				u64 sz = bb[i].size == VK_WHOLE_SIZE ? b->size - std::min( b->size, bb[i].offset ) : bb[i].size;
				if ( bb[i].offset >= b->size || sz == 0 || bb[i].offset + sz > b->size ) violate( "C16", "range-outside", fn, "buffer barrier range %llu+%llu lies outside of %s", ( unsigned long long )bb[i].offset, ( unsigned long long )sz, objStr( b ).c_str() );
				checkAccess( s1, s2, bb[i].srcAccessMask, bb[i].dstAccessMask, fn );
				m.bb.push_back( { bb[i].srcAccessMask, bb[i].dstAccessMask, b, bb[i].offset, sz } );
				c->refs.insert( b );
				t.o( b ).x( bb[i].srcAccessMask ).x( bb[i].dstAccessMask ).n( bb[i].offset ).n( sz );
			}
			for ( u32 i = 0; i < ni; ++i )
			{
				checkInfo( ib[i], VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER, fn );
				checkFamilies( ib[i].srcQueueFamilyIndex, ib[i].dstQueueFamilyIndex, fn );
				auto * im = use< Image >( T::Image, u64( ib[i].image ), fn );
				checkRange( im, ib[i].subresourceRange, fn );
				if ( ib[i].newLayout == VK_IMAGE_LAYOUT_UNDEFINED || ib[i].newLayout == VK_IMAGE_LAYOUT_PREINITIALIZED )
				{
					violate( "C01", "barrier-to-undefined", fn, "barrier to layout %d", int( ib[i].newLayout ) );
					violate( "C16", "barrier-to-undefined", fn, "barrier to layout %d", int( ib[i].newLayout ) );
				}
				checkAccess( s1, s2, ib[i].srcAccessMask, ib[i].dstAccessMask, fn );
				m.ib.push_back( { ib[i].srcAccessMask, ib[i].dstAccessMask, ib[i].oldLayout, ib[i].newLayout, im, full( im, ib[i].subresourceRange ) } );
				c->refs.insert( im );
				t.o( im ).x( ib[i].srcAccessMask ).x( ib[i].dstAccessMask ).n( ib[i].oldLayout ).n( ib[i].newLayout ).r( ib[i].subresourceRange );
			}
			fin( c, t );
		}
		API void VKAPI_CALL CmdBlitImage( VkCommandBuffer h, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageBlit const * rg, VkFilter f )
		{
			char const * fn = "vkCmdBlitImage";
			auto * c = recBuf( h, Op::Blit, Outside );
			auto * si = use< Image >( T::Image, u64( s ), fn ); auto * di = use< Image >( T::Image, u64( d ), fn );
			if ( f != VK_FILTER_NEAREST && ( aspectMaskOf( si->info.format ) != VK_IMAGE_ASPECT_COLOR_BIT || aspectMaskOf( di->info.format ) != VK_IMAGE_ASPECT_COLOR_BIT ) )
				violate( "C16", "blit-filter", fn, "blit of a depth image with a filter" );
			auto & m = add( c, Op::Blit ); m.img = si; m.img2 = di; m.lay = sl; m.lay2 = dl; m.a[0] = f;
			Tr t( "CmdBlitImage" ); t.o( si ).n( sl ).o( di ).n( dl ).n( f );
			for ( u32 i = 0; i < n; ++i )
			{
				auto & r = rg[i];
				auto ext = []( VkOffset3D const * o ) { return VkExtent3D{ u32( std::abs( o[1].x - o[0].x ) ), u32( std::abs( o[1].y - o[0].y ) ), u32( std::abs( o[1].z - o[0].z ) ) }; };
				auto mn = []( VkOffset3D const * o ) { return VkOffset3D{ std::min( o[1].x, o[0].x ), std::min( o[1].y, o[0].y ), std::min( o[1].z, o[0].z ) }; };
				checkLayers( si, r.srcSubresource, mn( r.srcOffsets ), ext( r.srcOffsets ), fn );
				checkLayers( di, r.dstSubresource, mn( r.dstOffsets ), ext( r.dstOffsets ), fn );
				if ( r.srcSubresource.layerCount != r.dstSubresource.layerCount || r.srcSubresource.aspectMask != r.dstSubresource.aspectMask ) violateStop( "C16", "region-mismatch", fn, "blit regions differ in layer count or aspect" );
				m.blit.push_back( r );
				t.n( r.srcSubresource.aspectMask ).n( r.srcSubresource.mipLevel ).n( r.srcSubresource.baseArrayLayer ).n( r.srcSubresource.layerCount ).n( r.dstSubresource.mipLevel ).n( r.dstSubresource.baseArrayLayer );
				for ( int k = 0; k < 2; ++k ) t.n( u64( r.srcOffsets[k].x ) ).n( u64( r.srcOffsets[k].y ) ).n( u64( r.srcOffsets[k].z ) ).n( u64( r.dstOffsets[k].x ) ).n( u64( r.dstOffsets[k].y ) ).n( u64( r.dstOffsets[k].z ) );
			}
			c->refs.insert( si ); c->refs.insert( di );
			fin( c, t );
		}
		API void VKAPI_CALL CmdCopyBuffer( VkCommandBuffer h, VkBuffer s, VkBuffer d, uint32_t n, VkBufferCopy const * rg )
		{
			char const * fn = "vkCmdCopyBuffer";
			auto * c = recBuf( h, Op::CopyBuffer, Outside );
			auto * sb = use< Buffer >( T::Buffer, u64( s ), fn ); auto * db = use< Buffer >( T::Buffer, u64( d ), fn );
			auto & m = add( c, Op::CopyBuffer ); m.buf = sb; m.buf2 = db;
			Tr t( "CmdCopyBuffer" ); t.o( sb ).o( db );
			for ( u32 i = 0; i < n; ++i )
			{
				if ( !rg[i].size || rg[i].srcOffset + rg[i].size > sb->size || rg[i].dstOffset + rg[i].size > db->size ) violateStop( "C16", "region-outside", fn, "buffer copy %llu->%llu size %llu outside of the buffers", ( unsigned long long )rg[i].srcOffset, ( unsigned long long )rg[i].dstOffset, ( unsigned long long )rg[i].size );
				m.bcopy.push_back( rg[i] );
				t.n( rg[i].srcOffset ).n( rg[i].dstOffset ).n( rg[i].size );
			}
			c->refs.insert( sb ); c->refs.insert( db );
			fin( c, t );
		}
		static void copyBI( VkCommandBuffer h, VkBuffer b, VkImage i, VkImageLayout l, uint32_t n, VkBufferImageCopy const * rg, Op op )
		{
			auto * c = recBuf( h, op, Outside );
			auto * bu = use< Buffer >( T::Buffer, u64( b ), opName( op ) ); auto * im = use< Image >( T::Image, u64( i ), opName( op ) );
			auto & m = add( c, op ); m.buf = bu; m.img = im; m.lay = l;
			Tr t( opName( op ) ); t.o( bu ).o( im ).n( l );
			for ( u32 k = 0; k < n; ++k )
			{
				auto & r = rg[k];
				checkLayers( im, r.imageSubresource, r.imageOffset, r.imageExtent, opName( op ) );
				if ( r.bufferOffset >= bu->size ) violateStop( "C16", "region-outside", opName( op ), "buffer offset outside of the buffer" );
				m.bic.push_back( r );
				t.n( r.bufferOffset ).n( r.bufferRowLength ).n( r.bufferImageHeight ).n( r.imageSubresource.aspectMask ).n( r.imageSubresource.mipLevel ).n( r.imageSubresource.baseArrayLayer ).n( r.imageSubresource.layerCount ).n( u64( r.imageOffset.x ) ).n( u64( r.imageOffset.y ) ).n( u64( r.imageOffset.z ) ).n( r.imageExtent.width ).n( r.imageExtent.height ).n( r.imageExtent.depth );
			}
			c->refs.insert( bu ); c->refs.insert( im );
			fin( c, t );
		}
		API void VKAPI_CALL CmdCopyBufferToImage( VkCommandBuffer h, VkBuffer b, VkImage i, VkImageLayout l, uint32_t n, VkBufferImageCopy const * r ) { copyBI( h, b, i, l, n, r, Op::CopyBufImg ); }
		API void VKAPI_CALL CmdCopyImageToBuffer( VkCommandBuffer h, VkImage i, VkImageLayout l, VkBuffer b, uint32_t n, VkBufferImageCopy const * r ) { copyBI( h, b, i, l, n, r, Op::CopyImgBuf ); }
		API void VKAPI_CALL CmdCopyImage( VkCommandBuffer h, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageCopy const * rg )
		{
			char const * fn = "vkCmdCopyImage";
			auto * c = recBuf( h, Op::CopyImage, Outside );
			auto * si = use< Image >( T::Image, u64( s ), fn ); auto * di = use< Image >( T::Image, u64( d ), fn );
			auto & m = add( c, Op::CopyImage ); m.img = si; m.img2 = di; m.lay = sl; m.lay2 = dl;
			Tr t( "CmdCopyImage" ); t.o( si ).n( sl ).o( di ).n( dl );
			for ( u32 i = 0; i < n; ++i )
			{
				auto & r = rg[i];
				checkLayers( si, r.srcSubresource, r.srcOffset, r.extent, fn );
				checkLayers( di, r.dstSubresource, r.dstOffset, r.extent, fn );
				if ( r.srcSubresource.layerCount != r.dstSubresource.layerCount || r.srcSubresource.aspectMask != r.dstSubresource.aspectMask ) violateStop( "C16", "region-mismatch", fn, "copy regions differ in layer count or aspect" );
				m.icopy.push_back( r );
				t.n( r.srcSubresource.aspectMask ).n( r.srcSubresource.mipLevel ).n( r.srcSubresource.baseArrayLayer ).n( r.srcSubresource.layerCount ).n( r.dstSubresource.mipLevel ).n( r.dstSubresource.baseArrayLayer )
					.n( u64( r.srcOffset.x ) ).n( u64( r.srcOffset.y ) ).n( u64( r.srcOffset.z ) ).n( u64( r.dstOffset.x ) ).n( u64( r.dstOffset.y ) ).n( u64( r.dstOffset.z ) ).n( r.extent.width ).n( r.extent.height ).n( r.extent.depth );
			}
			c->refs.insert( si ); c->refs.insert( di );
			fin( c, t );
		}
		API void VKAPI_CALL CmdExecuteCommands( VkCommandBuffer, uint32_t, VkCommandBuffer const * ) { harnessError( "secondary command buffers are not simulated" ); }
		API void VKAPI_CALL CmdResetEvent( VkCommandBuffer, VkEvent, VkPipelineStageFlags ) { harnessError( "events are not simulated" ); }
		API void VKAPI_CALL CmdSetEvent( VkCommandBuffer, VkEvent, VkPipelineStageFlags ) { harnessError( "events are not simulated" ); }
		API void VKAPI_CALL CmdWaitEvents( VkCommandBuffer, uint32_t, VkEvent const *, VkPipelineStageFlags, VkPipelineStageFlags, uint32_t, VkMemoryBarrier const *, uint32_t, VkBufferMemoryBarrier const *, uint32_t, VkImageMemoryBarrier const * ) { harnessError( "events are not simulated" ); }
		API void VKAPI_CALL CmdFillBuffer( VkCommandBuffer h, VkBuffer b, VkDeviceSize off, VkDeviceSize size, uint32_t data )
		{
			char const * fn = "vkCmdFillBuffer";
			auto * c = recBuf( h, Op::Fill, Outside );
			auto * bu = use< Buffer >( T::Buffer, u64( b ), fn );
			u64 sz = size == VK_WHOLE_SIZE ? bu->size - std::min( bu->size, off ) : size;
			if ( off >= bu->size || off + sz > bu->size || !sz || ( off & 3 ) || ( size != VK_WHOLE_SIZE && ( size & 3 ) ) ) violateStop( "C16", "region-outside", fn, "fill of %llu+%llu is not inside %s or not aligned", ( unsigned long long )off, ( unsigned long long )sz, objStr( bu ).c_str() );
			auto & m = add( c, Op::Fill ); m.buf = bu; m.a[0] = off; m.a[1] = sz; m.a[2] = data;
			c->refs.insert( bu );
			Tr t( "CmdFillBuffer" ); t.o( bu ).n( off ).n( sz ).n( data ); fin( c, t );
		}
		API void VKAPI_CALL CmdBeginDebugUtilsLabelEXT( VkCommandBuffer h, VkDebugUtilsLabelEXT const * l )
		{
			auto * c = recBuf( h, Op::LabelBegin, Any );
			auto & m = add( c, Op::LabelBegin ); m.text = l->pLabelName;
			c->labels.push_back( l->pLabelName );
			Tr t( "CmdBeginLabel" ); t.t( l->pLabelName ); fin( c, t );
		}
		API void VKAPI_CALL CmdEndDebugUtilsLabelEXT( VkCommandBuffer h )
		{
			auto * c = recBuf( h, Op::LabelEnd, Any );
			if ( c->labels.empty() ) violate( "C16", "label-end", "none", "debug label closed that was not opened" );
			else c->labels.pop_back();
			add( c, Op::LabelEnd );
			Tr t( "CmdEndLabel" ); fin( c, t );
		}
		API void VKAPI_CALL CmdDebugMarkerBeginEXT( VkCommandBuffer, VkDebugMarkerMarkerInfoEXT const * ) { }
		API void VKAPI_CALL CmdDebugMarkerEndEXT( VkCommandBuffer ) { }
	}

	VkQueue userCreateQueue()
	{
		UserScope us;
		auto * q = mk< Queue >( T::Queue, nullptr );
		q->idx = u32( dev->queues.size() );
		dev->queues.push_back( q );
		return reinterpret_cast< VkQueue >( q->h );
	}

	PFN_vkVoidFunction VKAPI_PTR getProc( VkDevice, char const * name )
	{
		struct E { char const * n; PFN_vkVoidFunction f; };
#ifdef SIM_TSAN
#define F( x ) { "vk" #x, reinterpret_cast< PFN_vkVoidFunction >( &Seam< &api::x >::call ) }
#else
#define F( x ) { "vk" #x, reinterpret_cast< PFN_vkVoidFunction >( &api::x ) }
#endif
		static E const table[]{
			F( CreateGraphicsPipelines ), F( CreateComputePipelines ), F( DestroyPipeline ), F( CreatePipelineLayout ), F( DestroyPipelineLayout ), F( CreateDescriptorSetLayout ), F( DestroyDescriptorSetLayout )
			, F( CreateDescriptorPool ), F( DestroyDescriptorPool ), F( AllocateDescriptorSets ), F( FreeDescriptorSets ), F( CreateBuffer ), F( DestroyBuffer ), F( GetBufferMemoryRequirements ), F( GetImageMemoryRequirements )
			, F( AllocateMemory ), F( FreeMemory ), F( BindBufferMemory ), F( BindImageMemory ), F( MapMemory ), F( UnmapMemory ), F( FlushMappedMemoryRanges ), F( InvalidateMappedMemoryRanges )
			, F( CreateRenderPass ), F( DestroyRenderPass ), F( CreateFramebuffer ), F( DestroyFramebuffer ), F( CreateImage ), F( DestroyImage ), F( CreateImageView ), F( DestroyImageView ), F( CreateSampler ), F( DestroySampler )
			, F( CreateCommandPool ), F( DestroyCommandPool ), F( AllocateCommandBuffers ), F( FreeCommandBuffers ), F( CreateSemaphore ), F( DestroySemaphore ), F( UpdateDescriptorSets ), F( BeginCommandBuffer ), F( EndCommandBuffer )
			, F( QueueSubmit ), F( CreateQueryPool ), F( DestroyQueryPool ), F( GetQueryPoolResults ), F( ResetCommandBuffer ), F( CreateEvent ), F( DestroyEvent ), F( ResetEvent ), F( SetEvent ), F( GetEventStatus )
			, F( CreateFence ), F( DestroyFence ), F( GetFenceStatus ), F( WaitForFences ), F( ResetFences )
			, F( CmdBindPipeline ), F( CmdBindDescriptorSets ), F( CmdBindVertexBuffers ), F( CmdBindIndexBuffer ), F( CmdClearColorImage ), F( CmdClearDepthStencilImage ), F( CmdDispatch ), F( CmdDispatchIndirect )
			, F( CmdDraw ), F( CmdDrawIndexed ), F( CmdDrawIndexedIndirect ), F( CmdDrawIndirect ), F( CmdBeginRenderPass ), F( CmdEndRenderPass ), F( CmdPushConstants ), F( CmdResetQueryPool ), F( CmdWriteTimestamp ), F( CmdPipelineBarrier )
			, F( CmdBlitImage ), F( CmdCopyBuffer ), F( CmdCopyBufferToImage ), F( CmdCopyImage ), F( CmdCopyImageToBuffer ), F( CmdExecuteCommands ), F( CmdResetEvent ), F( CmdSetEvent ), F( CmdWaitEvents ), F( CmdFillBuffer )
			, F( SetDebugUtilsObjectNameEXT ), F( CmdBeginDebugUtilsLabelEXT ), F( CmdEndDebugUtilsLabelEXT ), F( DebugMarkerSetObjectNameEXT ), F( CmdDebugMarkerBeginEXT ), F( CmdDebugMarkerEndEXT ) };
		for ( auto & e : table ) if ( !strcmp( e.n, name ) ) return e.f;
		return nullptr;
	}
}
