// C09: several threads share a resource handler and a context.
#ifdef SIM_TSAN
#include "scen.hpp"
#include "ctx.hpp"
#include "fibers.hpp"
#include <RenderGraph/Exception.hpp>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/RecordContext.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
#include <cstring>
#include <map>
#include <set>
#include <unistd.h>

namespace sim
{
	namespace
	{
		char const * const P = "C09";
		enum class OK { HImage, HView, HDestroyImage, HDestroyView, CImage, CView, CDestroyImage, CDestroyView, CSampler, CQuad, CDrop, ViewId, ImageId, HSampler, HQuad, RegObj, UnregObj, States, GraphImage, GraphRun, NewViewId, Merge, Count };
		struct TOp { OK k{}; u32 a{}, b{}; };
		// one entry of the history of an image or view
		struct HOp
		{
			enum K { Create, Maybe, Destroy } k{};
			u64 t0{}, t1{}, h{};
			bool made{};
			u32 thread{};
		};
		struct Reg
		{
			std::vector< HOp > ops;
			std::set< std::pair< u32, std::pair< u64, u64 > > > seen;
			// state: 0 absent, 1 present with handle, 2 present with a handle nobody saw
			bool search( u32 mask, u32 st, u64 h )
			{
				if ( mask == ( 1u << ops.size() ) - 1u ) return true;
				if ( !seen.insert( { mask, { st, h } } ).second ) return false;
				u64 first = ~0ull; // nobody goes after an operation that ended before it began
				for ( u32 i = 0; i < ops.size(); ++i ) if ( !( mask >> i & 1 ) ) first = std::min( first, ops[i].t1 );
				for ( u32 i = 0; i < ops.size(); ++i )
				{
					if ( mask >> i & 1 || ops[i].t0 > first ) continue;
					auto & o = ops[i];
					u32 m = mask | 1u << i;
					switch ( o.k )
					{
					case HOp::Create:
						if ( st == 0 ? o.made : ( !o.made && ( st == 2 || o.h == h ) ) ) if ( search( m, 1, o.h ) ) return true;
						break;
					case HOp::Maybe:
						if ( search( m, st, h ) ) return true;
						if ( st == 0 && search( m, 2, 0 ) ) return true;
						break;
					case HOp::Destroy:
						if ( search( m, 0, 0 ) ) return true;
						break;
					}
				}
				return false;
			}
		};
		struct Img { crg::ImageData data; crg::ImageId id; Reg reg; bool parent{ false }; };
		struct Vw { crg::ImageViewData data; crg::ImageViewId id; u32 img{}; Reg reg; };
		struct StateWrite { u32 view{}; VkImageLayout layout{}; u64 t0{}, t1{}; };
		struct Th
		{
			std::vector< TOp > prog;
			std::unique_ptr< crg::ContextResourcesCache > cache;
			std::unique_ptr< crg::FrameGraph > fg;
			bool usesViews{ false };
			std::set< u32 > ownImg, ownVw;
			std::map< u32, VkSampler > smp;
			std::map< u32, crg::VertexBuffer const * > vbs;
			std::vector< VkSampler > hSmp;
			std::vector< crg::VertexBuffer const * > hVbs;
			std::set< u32 > regd;
			std::vector< std::pair< u32, crg::ImageViewId > > ids, newIds;
			std::vector< crg::ImageId > imgIds;
			std::vector< StateWrite > states;
			// for the thread's own graphs; contexts are not shared by threads which run graphs
			std::unique_ptr< crg::GraphContext > ctx;
			VkQueue queue{};
			VkShaderModule shaders[4]{};
			u32 graphs{ 0 };
			u32 done{ 0 };
		};
		crg::SamplerDesc samplerDesc( u32 k )
		{
			crg::SamplerDesc d{};
			d.magFilter = k & 1 ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
			d.minFilter = k & 2 ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
			return d;
		}
		crg::Texcoord texcoord( u32 k ) { crg::Texcoord t{}; t.invertU = k & 1; t.invertV = false; return t; }

		struct Run
		{
			std::unique_ptr< crg::GraphContext > ctx;
			std::unique_ptr< crg::ResourceHandler > handler;
			std::vector< Img > imgs;
			std::vector< Vw > vws;
			std::vector< std::unique_ptr< Th > > ths;

			crg::ImageViewData viewData( u32 v ) { auto d = vws[v].data; d.name = strf( "view%u-of-thread%u", v, threadId() ); return d; }
			// views of the first image which nothing creates on the device: 0, 1: the mips of layer 0; 0, 2: the layers of mip 0; 4, 5: both merged
			crg::ImageViewData newView( u32 k ) { return crg::ImageViewData{ "new", imgs[0].id, 0u, VK_IMAGE_VIEW_TYPE_2D_ARRAY, VK_FORMAT_R8G8B8A8_UNORM, VkImageSubresourceRange{ VK_IMAGE_ASPECT_COLOR_BIT, k == 1 ? 1u : 0u, 1, k == 2 ? 1u : 0u, 1 } }; }
			u32 imgIndex( bool freeOnly )
			{
				std::vector< u32 > c;
				for ( u32 i = 0; i < imgs.size(); ++i ) if ( !freeOnly || !imgs[i].parent ) c.push_back( i );
				return c[choose( u32( c.size() ), "image" )];
			}
			void generate()
			{
				u32 ni = 2 + choose( 2, "images" ), nv = 1 + choose( 3, "views" );
				for ( u32 i = 0; i < ni; ++i )
				{
					Img im;
					im.data = crg::ImageData{ strf( "img%u", i ), 0u, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, VkExtent3D{ 16, 16, 1 }, VK_IMAGE_USAGE_SAMPLED_BIT, 2, 2 };
					im.id = handler->createImageId( im.data );
					im.parent = i == 0 || ( i == 1 && ni > 2 && choose( 2, "parents" ) );
					imgs.push_back( std::move( im ) );
				}
				u32 np = imgs[1].parent ? 2 : 1;
				for ( u32 i = 0; i < nv; ++i )
				{
					Vw v;
					v.img = i % np;
					v.data = crg::ImageViewData{ strf( "view%u", i ), imgs[v.img].id, 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, VkImageSubresourceRange{ VK_IMAGE_ASPECT_COLOR_BIT, i % 2, 1, i / 2, 1 } };
					v.id = handler->createViewId( v.data );
					vws.push_back( std::move( v ) );
				}
				u32 nt = 2 + ( choose( 3, "threads" ) == 2 );
				// some runs concentrate on few kinds of operations
				std::vector< OK > kinds;
				u32 focus = choose( 4, "focus" );
				if ( focus ) for ( u32 i = 0; i < focus; ++i ) kinds.push_back( OK( choose( u32( OK::Count ), "kind" ) ) );
				else for ( u32 i = 0; i < u32( OK::Count ); ++i ) kinds.push_back( OK( i ) );
				for ( u32 t = 0; t < nt; ++t )
				{
					auto th = std::make_unique< Th >();
					th->cache = std::make_unique< crg::ContextResourcesCache >( *handler, *ctx );
					if ( choose( 2, "graph" ) ) th->fg = std::make_unique< crg::FrameGraph >( *handler, strf( "graph%u", t ) );
					th->usesViews = choose( 2, "uses-views" );
					th->ctx = makeContext();
					th->queue = userCreateQueue();
					for ( u32 k = 0; k < 2; ++k )
					{
						auto p = std::make_shared< Prog >();
						p->id = 100 + t * 4 + k;
						p->usesVertex = true;
						if ( k ) p->binds.push_back( { 0u, VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER, true, false } );
						th->shaders[k] = userCreateShader( p );
					}
					for ( u32 i = 0; more( i, 1, 7, "thread-operations" ); ++i )
					{
						TOp o;
						o.k = kinds[choose( u32( kinds.size() ), "operation" )];
						if ( o.k == OK::CView && !th->usesViews ) o.k = OK::HView;
						if ( o.k == OK::CDrop && th->usesViews ) o.k = OK::CQuad;
						switch ( o.k )
						{
						case OK::HImage: o.a = imgIndex( false ); break;
						case OK::CImage: o.a = imgIndex( !th->usesViews ); break;
						case OK::HDestroyImage: case OK::CDestroyImage: o.a = imgIndex( true ); break;
						case OK::HView: case OK::CView: case OK::HDestroyView: case OK::CDestroyView: o.a = choose( u32( vws.size() ), "view" ); break;
						case OK::ViewId: o.a = choose( u32( vws.size() ), "view" ); o.b = choose( 2, "through-graph" ); break;
						case OK::NewViewId: o.a = choose( 3, "new-view" ); o.b = choose( 2, "through-graph" ); break;
						case OK::Merge: o.a = choose( 2, "merge-mips" ); break;
						case OK::States: o.a = choose( u32( vws.size() ), "view" ); o.b = choose( 2, "layout" ); break;
						case OK::CSampler: case OK::HSampler: o.a = choose( 4, "sampler" ); break;
						case OK::CQuad: case OK::HQuad: o.a = choose( 2, "quad" ); break;
						case OK::RegObj: case OK::UnregObj: o.a = choose( 3, "object" ); break;
						case OK::GraphRun: o.a = choose( 3, "frames" ); o.b = choose( 2, "copies" ); break;
						default: break;
						}
						th->prog.push_back( o );
						logf( "  thread %u: operation %u on %u\n", t + 1, u32( o.k ), o.a );
					}
					ths.push_back( std::move( th ) );
				}
			}

			// runs the library. False: it failed with a report
			template< typename F > bool lib( char const * what, F f )
			{
				u64 before = 0;
				{ SimScope s; before = dev->injectedIn[threadId()]; }
				bool ok = true;
				try { f(); }
				catch ( crg::Exception & ) { ok = false; }
				SimScope s;
				bool inj = dev->injectedIn[threadId()] != before;
				if ( !ok && !inj ) violateStop( P, "spurious-error", what, "%s throws without a device error", what );
				if ( ok && inj ) violateStop( P, "error-not-reported", what, "%s reports success although a device call failed", what );
				if ( !ok ) count( "failed_operations" );
				return ok;
			}
			template< typename O > bool made( T t, u64 h, u32 ord0, char const * what )
			{
				auto * o = findObj( t, h );
				if ( !o ) violateStop( P, "dead-returned", what, "a thread is given a %s that does not exist", what );
				return o->thread == threadId() && o->ord >= ord0;
			}
			u32 ord() { return u32( dev->all.size() ); }
			u64 now() { return threadTime(); }
			static void add( Reg & r, HOp::K k, u64 t0, u64 t1, u64 h = 0, bool m = false ) { HOp o; o.k = k; o.t0 = t0; o.t1 = t1; o.h = h; o.made = m; o.thread = threadId(); r.ops.push_back( o ); }

			void image( Th & th, u32 i, bool cache )
			{
				auto & im = imgs[i];
				u64 h{}; bool created{};
				u64 t0; u32 o0;
				{ SimScope s; t0 = now(); o0 = ord(); }
				bool ok = lib( "createImage", [&]
					{
						if ( cache ) h = u64( th.cache->createImage( im.id ) );
						else { auto r = handler->createImage( *ctx, im.id ); h = u64( r.first ); created = r.second; }
					} );
				SimScope s;
				if ( !ok ) return;
				u64 t1 = now();
				// the handle may have been destroyed by another thread before it gets here
				auto * o = findObj( T::Image, h );
				bool mine = false; // handles are used again
				for ( size_t k = o0; k < dev->all.size(); ++k ) { auto * x = dev->all[k].get(); if ( x->type == T::Image && x->h == h && x->thread == threadId() ) mine = true; }
				if ( !cache && mine != created ) violate( P, "created-flag", "image", "createImage says that the image was%s created by this call, it was%s", created ? "" : " not", mine ? "" : " not" );
				if ( !h ) violateStop( P, "null", "image", "createImage returns a null image" );
				add( im.reg, HOp::Create, t0, t1, h, mine );
				if ( cache && mine ) th.ownImg.insert( i );
			}
			void view( Th & th, u32 i, bool cache )
			{
				auto & v = vws[i];
				auto & im = imgs[v.img];
				u64 h{}; bool created{};
				u64 t0; u32 o0;
				{ SimScope s; t0 = now(); o0 = ord(); }
				bool ok = lib( "createImageView", [&]
					{
						if ( cache ) h = u64( th.cache->createImageView( v.id ) );
						else { auto r = handler->createImageView( *ctx, v.id ); h = u64( r.first ); created = r.second; }
					} );
				SimScope s;
				u64 t1 = now();
				// the image may have been created on the way
				Obj * im0{};
				for ( size_t k = o0; k < dev->all.size(); ++k ) { auto * x = dev->all[k].get(); if ( x->type == T::Image && x->thread == threadId() && x->alive ) im0 = x; }
				if ( im0 )
				{
					add( im.reg, HOp::Create, t0, t1, im0->h, true );
					if ( cache ) th.ownImg.insert( v.img );
				}
				if ( !ok ) return;
				if ( !h ) violateStop( P, "null", "view", "createImageView returns a null view" );
				bool mine{};
				for ( size_t k = o0; k < dev->all.size(); ++k ) { auto * x = dev->all[k].get(); if ( x->type == T::View && x->h == h && x->thread == threadId() ) mine = true; }
				if ( !cache && mine != created ) violate( P, "created-flag", "view", "createImageView says that the view was%s created by this call, it was%s", created ? "" : " not", mine ? "" : " not" );
				add( v.reg, HOp::Create, t0, t1, h, mine );
				if ( cache && mine ) th.ownVw.insert( i );
			}
			void destroy( Th & th, u32 i, bool isView, bool cache )
			{
				u64 t0;
				{ SimScope s; t0 = now(); }
				bool r = false;
				if ( cache ) r = isView ? th.cache->destroyImageView( vws[i].id ) : th.cache->destroyImage( imgs[i].id );
				else if ( isView ) handler->destroyImageView( *ctx, vws[i].id );
				else handler->destroyImage( *ctx, imgs[i].id );
				SimScope s;
				auto & own = isView ? th.ownVw : th.ownImg;
				if ( cache )
				{
					if ( r != ( own.count( i ) != 0 ) ) violate( P, "wrong-result", isView ? "destroyImageView" : "destroyImage", "a cache reports %d when asked to destroy %s it had%s created", int( r ), isView ? "a view" : "an image", own.count( i ) ? "" : " not" );
					if ( !own.erase( i ) ) return;
				}
				add( isView ? vws[i].reg : imgs[i].reg, HOp::Destroy, t0, now() );
			}
			void drop( Th & th )
			{
				u64 t0;
				{ SimScope s; t0 = now(); }
				th.cache.reset();
				SimScope s;
				u64 t1 = now();
				for ( u32 i : th.ownVw ) add( vws[i].reg, HOp::Destroy, t0, t1 );
				for ( u32 i : th.ownImg ) add( imgs[i].reg, HOp::Destroy, t0, t1 );
				th.ownVw.clear(); th.ownImg.clear(); th.smp.clear(); th.vbs.clear();
				count( "caches_destroyed" );
			}
			void op( Th & th, TOp const & o )
			{
				switch ( o.k )
				{
				case OK::HImage: image( th, o.a, false ); break;
				case OK::CImage: image( th, o.a, true ); break;
				case OK::HView: view( th, o.a, false ); break;
				case OK::CView: view( th, o.a, true ); break;
				case OK::HDestroyImage: destroy( th, o.a, false, false ); break;
				case OK::HDestroyView: destroy( th, o.a, true, false ); break;
				case OK::CDestroyImage: destroy( th, o.a, false, true ); break;
				case OK::CDestroyView: destroy( th, o.a, true, true ); break;
				case OK::CDrop:
					drop( th );
					{ SimScope s; th.cache = std::make_unique< crg::ContextResourcesCache >( *handler, *ctx ); }
					break;
				case OK::CSampler: case OK::HSampler:
				{
					VkSampler h{};
					crg::SamplerDesc d = samplerDesc( o.a );
					bool cache = o.k == OK::CSampler;
					if ( !lib( "createSampler", [&] { h = cache ? th.cache->createSampler( d ) : handler->createSampler( *ctx, "direct", d ); } ) ) break;
					SimScope s;
					auto * ob = findObj( T::Sampler, u64( h ) );
					if ( !ob ) violateStop( P, "dead-returned", "sampler", "a thread is given a sampler that does not exist" );
					auto & i = static_cast< Sampler * >( ob )->info;
					if ( ob->thread != threadId() || i.magFilter != d.magFilter || i.minFilter != d.minFilter ) violate( P, "wrong-result", "sampler", "a thread is given a sampler that is not its own" );
					if ( cache ) { auto [it, ins] = th.smp.emplace( o.a, h ); if ( !ins && it->second != h ) violate( P, "not-shared", "sampler", "one cache creates a sampler twice" ); }
					else th.hSmp.push_back( h );
					break;
				}
				case OK::CQuad: case OK::HQuad:
				{
					crg::VertexBuffer const * v{};
					bool cache = o.k == OK::CQuad;
					if ( !lib( "createQuadTriVertexBuffer", [&] { v = cache ? &th.cache->createQuadTriVertexBuffer( true, texcoord( o.a ) ) : handler->createQuadTriVertexBuffer( *ctx, "direct", true, texcoord( o.a ) ); } ) ) break;
					SimScope s;
					if ( !v ) violateStop( P, "null", "vertex-buffer", "a thread is given a null vertex buffer" );
					auto * b = findObj( T::Buffer, u64( v->buffer.buffer() ) );
					if ( !b ) violateStop( P, "dead-returned", "vertex-buffer", "a thread is given a vertex buffer that does not exist" );
					if ( b->thread != threadId() ) violate( P, "wrong-result", "vertex-buffer", "a thread is given a vertex buffer that is not its own" );
					if ( cache ) { auto [it, ins] = th.vbs.emplace( o.a, v ); if ( !ins && it->second != v ) violate( P, "not-shared", "vertex-buffer", "one cache creates a vertex buffer twice" ); }
					else th.hVbs.push_back( v );
					break;
				}
				case OK::ViewId:
				{
					crg::ImageViewData d;
					{ SimScope s; d = viewData( o.a ); }
					auto id = th.fg && o.b ? th.fg->createView( d ) : handler->createViewId( d );
					SimScope s;
					th.ids.push_back( { o.a, id } );
					break;
				}
				case OK::NewViewId:
				{
					// a view nobody declared before the threads started
					crg::ImageViewData d;
					{ SimScope s; d = newView( o.a ); d.name = strf( "new%u-of-thread%u", o.a, threadId() ); }
					auto id = th.fg && o.b ? th.fg->createView( d ) : handler->createViewId( d );
					SimScope s;
					th.newIds.push_back( { o.a, id } );
					break;
				}
				case OK::Merge:
				{
					if ( !th.fg ) break;
					// the parts of the first image, which other threads may merge too
					crg::ImageViewIdArray src;
					for ( u32 i = 0; i < 2; ++i )
					{
						crg::ImageViewData d;
						{ SimScope s; d = newView( o.a ? i : i * 2 ); d.name = strf( "part%u-of-thread%u", i, threadId() ); }
						auto id = handler->createViewId( d );
						SimScope s;
						th.newIds.push_back( { o.a ? i : i * 2, id } );
						src.push_back( id );
					}
					crg::FramePass * p;
					std::string name;
					{ SimScope s; name = strf( "merge%u-%u", threadId(), th.done ); }
					p = &th.fg->createPass( name, []( crg::FramePass const &, crg::GraphContext &, crg::RunnableGraph & ) { return crg::RunnablePassPtr{}; } );
					auto id = p->mergeViews( src, o.a != 0, o.a == 0 );
					SimScope s;
					th.newIds.push_back( { 4 + o.a, id } );
					break;
				}
				case OK::ImageId:
				{
					auto id = handler->createImageId( imgs[0].data );
					SimScope s;
					th.imgIds.push_back( id );
					break;
				}
				case OK::GraphImage:
				{
					if ( !th.fg ) break;
					crg::ImageData d;
					{ SimScope s; d = imgs[0].data; d.name = strf( "own%u-%u", threadId(), th.done ); }
					auto id = th.fg->createImage( d );
					auto vid = th.fg->createView( crg::ImageViewData{ d.name, id, 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, VkImageSubresourceRange{ VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 } } );
					SimScope s;
					if ( !vid.data || vid.data->image.id != id.id ) violate( P, "wrong-result", "view-id", "a view id does not name the image it was declared on" );
					th.imgIds.push_back( id );
					break;
				}
				case OK::RegObj:
				{
					u32 n = threadId() * 10 + o.a;
					std::string name = strf( "regobj%u-", n );
					crgRegisterObject( *ctx, name, VkBuffer( 0xABC000ull + n ) );
					SimScope s;
					th.regd.insert( n );
					break;
				}
				case OK::UnregObj:
				{
					u32 n = threadId() * 10 + o.a;
					crgUnregisterObject( *ctx, VkBuffer( 0xABC000ull + n ) );
					SimScope s;
					th.regd.erase( n );
					break;
				}
				case OK::States:
				{
					StateWrite w;
					w.view = o.a;
					w.layout = o.b ? VK_IMAGE_LAYOUT_GENERAL : VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
					crg::RecordContext rc{ *handler };
					handler->initStates( rc );
					{ SimScope s; w.t0 = now(); }
					rc.setLayoutState( vws[o.a].id, crg::LayoutState{ w.layout, VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT } );
					handler->registerStates( rc );
					SimScope s;
					w.t1 = now();
					th.states.push_back( w );
					break;
				}
				case OK::GraphRun: graphRun( th, o.a, o.b ); break;
				default: break;
				}
			}
			// a thread builds, compiles and runs a graph of its own on its own context
			void graphRun( Th & th, u32 frames, u32 copies )
			{
				crg::ImageData d;
				std::string name;
				{
					SimScope s;
					name = strf( "t%u-%u-", threadId(), th.graphs++ );
					d = crg::ImageData{ name + "A", 0u, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, VkExtent3D{ 16, 16, 1 }, VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT | VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT, 1, 1 };
				}
				auto fg = std::make_unique< crg::FrameGraph >( *handler, name );
				crg::ImageId img[3];
				crg::ImageViewId view[3];
				for ( u32 i = 0; i < 2 + copies; ++i )
				{
					d.name = name + char( 'A' + i );
					img[i] = fg->createImage( d );
					view[i] = fg->createView( crg::ImageViewData{ d.name, img[i], 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, VkImageSubresourceRange{ VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, 0, 1 } } );
				}
				auto quad = [&]( u32 k )
				{
					VkPipelineShaderStageCreateInfo st{ VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO, nullptr, 0u, VK_SHADER_STAGE_FRAGMENT_BIT, th.shaders[k], "main", nullptr };
					return [st, k]( crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr
					{
						crg::rq::Config cfg;
						cfg.program( { st } );
						cfg.texcoordConfig( crg::Texcoord{ k != 0, false } );
						cfg.renderSize( VkExtent2D{ 16, 16 } );
						return std::make_unique< crg::RenderQuad >( fp, c, rg, crg::ru::Config{}, cfg );
					};
				};
				auto & p0 = fg->createPass( "draw", quad( 0 ) );
				p0.addOutputColourView( view[0] );
				auto & p1 = fg->createPass( "sample", quad( 1 ) );
				p1.addDependency( p0 );
				p1.addSampledView( view[0], 0u, samplerDesc( frames ) );
				p1.addOutputColourView( view[1] );
				if ( copies )
				{
					auto & p2 = fg->createPass( "copy", []( crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr { return std::make_unique< crg::ImageCopy >( fp, c, rg, VkExtent3D{ 16, 16, 1 } ); } );
					p2.addDependency( p1 );
					p2.addTransferInputView( view[1] );
					p2.addTransferOutputView( view[2] );
				}
				crg::RunnableGraphPtr rg;
				bool ok = lib( "compile", [&] { rg = fg->compile( *th.ctx ); } );
				for ( u32 i = 0; ok && i < frames; ++i )
				{
					ok = lib( "run", [&] { rg->run( th.queue ); } );
					SimScope s;
					waitAll();
					// nobody waits for the semaphore of the previous frame: one frame per graph
					if ( ok ) count( "frames_run_in_threads" );
					break;
				}
				{ SimScope s; waitAll(); count( "graphs_compiled_in_threads" ); }
				rg.reset();
				fg.reset();
			}
			std::string history( Reg const & r )
			{
				std::string s;
				for ( auto & o : r.ops ) s += strf( " [thread %u %s %llu..%llu%s]", o.thread, o.k == HOp::Create ? ( o.made ? "creates" : "finds" ) : o.k == HOp::Maybe ? "may create" : "destroys", ( unsigned long long )o.t0, ( unsigned long long )o.t1, o.h ? strf( " 0x%llx", ( unsigned long long )o.h ).c_str() : "" );
				return s;
			}
			void run()
			{
				setupDevice();
				ctx = makeContext();
				handler = std::make_unique< crg::ResourceHandler >();
				generate();
				chooseFaultPlan( 4 );
				if ( dev->faults.nth ) dev->faults.nth += dev->fallible;
				dev->faults.on = true;
				std::vector< std::function< void() > > fns;
				for ( auto & t : ths )
					fns.push_back( [this, th = t.get()]
						{
							for ( auto & o : th->prog )
							{
								op( *th, o );
								SimScope s;
								++th->done;
								count( "thread_operations" );
							}
						} );
				runThreads( fns );
				SimScope scope;
				dev->faults = {};
				// each thread's own resources are still there, and nobody else's
				std::set< u64 > smp, bufs;
				for ( auto & t : ths )
				{
					auto one = [&]( u64 h ) { if ( !findObj( T::Sampler, h ) ) violate( P, "lost", "sampler", "the sampler of a thread was destroyed" ); if ( !smp.insert( h ).second ) violate( P, "shared-wrongly", "sampler", "two threads have the same sampler" ); };
					for ( auto & [_, h] : t->smp ) one( u64( h ) );
					for ( auto h : t->hSmp ) one( u64( h ) );
					auto vb = [&]( crg::VertexBuffer const * v ) { auto h = u64( v->buffer.buffer() ); if ( !findObj( T::Buffer, h ) ) violate( P, "lost", "vertex-buffer", "the vertex buffer of a thread was destroyed" ); if ( !bufs.insert( h ).second ) violate( P, "shared-wrongly", "vertex-buffer", "two threads have the same vertex buffer" ); };
					for ( auto & [_, v] : t->vbs ) vb( v );
					for ( auto v : t->hVbs ) vb( v );
				}
				// identifiers
				std::set< u32 > imgIds;
				std::map< u32, crg::ImageViewId > newIds;
				std::set< u32 > distinctNew;
				for ( auto & i : imgs ) imgIds.insert( i.id.id );
				for ( auto & t : ths )
				{
					for ( auto & [v, id] : t->ids )
					{
						if ( id.id != vws[v].id.id || id.data != vws[v].id.data ) violate( P, "wrong-result", "view-id", "a thread is given another id for an existing view" );
					}
					for ( auto & [v, id] : t->newIds )
					{
						auto it = newIds.emplace( v, id ).first;
						if ( !id.data ) violate( P, "wrong-result", "new-view-id", "a view id carries no data" );
						if ( it->second.id != id.id || it->second.data != id.data ) violate( P, "not-shared", "new-view-id", "two threads which declare one view get different ids" );
						auto & r = id.data->info.subresourceRange;
						if ( id.data->image.id != imgs[0].id.id || r.baseMipLevel != ( v == 1 ? 1u : 0u ) || r.levelCount != ( v == 5 ? 2u : 1u ) || r.baseArrayLayer != ( v == 2 ? 1u : 0u ) || r.layerCount != ( v == 4 ? 2u : 1u ) ) violate( P, "wrong-result", "new-view-id", "a thread is given the id of another view" );
					}
					for ( auto & id : t->imgIds )
						if ( !id.data || !imgIds.insert( id.id ).second ) violate( P, "id-collision", "image-id", "two images get the same id" );
				}
				for ( auto & [v, id] : newIds ) if ( !distinctNew.insert( id.id ).second ) violate( P, "id-collision", "new-view-id", "two views get the same id" );
				// the final states, as part of the history
				for ( u32 i = 0; i < imgs.size(); ++i )
				{
					auto & r = imgs[i].reg;
					auto c = handler->createImage( *ctx, imgs[i].id );
					HOp o; o.k = HOp::Create; o.t0 = now(); o.t1 = now(); o.h = u64( c.first ); o.made = c.second;
					r.ops.push_back( o );
					if ( !findObj( T::Image, u64( c.first ) ) ) violateStop( P, "dead-returned", "image", "an image looked up after the threads ended does not exist" );
					if ( r.ops.size() <= 24 && !r.search( 0, 0, 0 ) ) violate( P, "not-linearizable", "image", "no order of the operations on an image gives their results:%s", history( r ).c_str() );
				}
				for ( u32 i = 0; i < vws.size(); ++i )
				{
					auto & r = vws[i].reg;
					auto c = handler->createImageView( *ctx, vws[i].id );
					HOp o; o.k = HOp::Create; o.t0 = now(); o.t1 = now(); o.h = u64( c.first ); o.made = c.second;
					r.ops.push_back( o );
					auto * vo = static_cast< View * >( findObj( T::View, u64( c.first ) ) );
					if ( !vo ) violateStop( P, "dead-returned", "view", "a view looked up after the threads ended does not exist" );
					if ( r.ops.size() <= 24 && !r.search( 0, 0, 0 ) ) violate( P, "not-linearizable", "view", "no order of the operations on a view gives their results:%s", history( r ).c_str() );
				}
				// states
				{
					crg::RecordContext rc{ *handler };
					handler->initStates( rc );
					for ( u32 v = 0; v < vws.size(); ++v )
					{
						std::vector< StateWrite const * > ws;
						for ( auto & t : ths ) for ( auto & s : t->states ) if ( s.view == v ) ws.push_back( &s );
						if ( ws.empty() ) continue;
						auto l = rc.getLayoutState( vws[v].id ).layout;
						bool ok = false;
						for ( auto * s : ws )
						{
							bool last = s->layout == l;
							for ( auto * x : ws ) if ( x->t0 > s->t1 ) last = false;
							ok = ok || last;
						}
						if ( !ok ) violate( P, "lost", "state", "the state remembered for a view is not the one registered last" );
					}
				}
				u32 ran = 0;
				for ( auto & t : ths ) if ( t->done ) ++ran;
				if ( ran > 1 && counted( "preemptions" ) + counted( "preemptions_at_memory_accesses" ) ) count( "nontrivial" );
				// the end
				for ( auto & t : ths )
				{
					for ( auto h : t->hSmp ) handler->destroySampler( *ctx, h );
					for ( auto v : t->hVbs ) handler->destroyVertexBuffer( *ctx, v );
				}
				for ( auto & v : vws ) handler->destroyImageView( *ctx, v.id );
				for ( auto & t : ths ) { t->fg.reset(); t->cache.reset(); t->ctx.reset(); }
				for ( auto & i : imgs ) handler->destroyImage( *ctx, i.id );
				handler.reset();
				std::set< u32 > regd;
				for ( auto & t : ths ) regd.insert( t->regd.begin(), t->regd.end() );
				fflush( stderr );
				ctx.reset();
				fflush( stderr );
				static char buf[1 << 16];
				auto n = pread( 2, buf, sizeof buf - 1, 0 );
				if ( n > 0 )
				{
					buf[n] = 0;
					for ( u32 t = 1; t <= ths.size(); ++t )
						for ( u32 k = 0; k < 3; ++k )
						{
							bool in = strstr( buf, strf( "(regobj%u-)", t * 10 + k ).c_str() ) != nullptr;
							if ( in != ( regd.count( t * 10 + k ) != 0 ) ) violate( P, in ? "not-unregistered" : "registration-lost", "object", "object %u %s", t * 10 + k, in ? "is still registered after its thread unregistered it" : "registered by a thread is not known to the context" );
						}
				}
				else if ( n == 0 && !regd.empty() ) violate( P, "registration-lost", "object", "objects registered by the threads are not known to the context" );
				for ( auto & [_, o] : dev->live ) if ( o->lib ) { violate( P, "leak", typeName( o->type ), "an object of kind %s is never destroyed", typeName( o->type ) ); break; }
			}
		};
	}
	void scenThreads()
	{
		Run r;
		r.run();
	}
}
#endif
