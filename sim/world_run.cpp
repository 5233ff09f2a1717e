// Histories: the world is compiled, run, changed, broken and torn down by seeded choices, and checked as it goes.
#include "world.hpp"
#include "scen.hpp"
#include <RenderGraph/FramePassTimer.hpp>
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
#include <algorithm>
#include <cstring>
#include <exception>

namespace sim::w
{
	static void wallJump()
	{
		if ( !dev || !dev->wallJumps ) return;
		static int64_t const j[]{ 3600000000000, -3600000000000, 5000000, -5000000 };
		wallOffset += j[choose( 4, "wall-jump" )];
		count( "fault_wall-clock-jump" );
	}
	namespace
	{
		struct ProgInfo { int graph, pass; u32 slot; };
		struct PassTime
		{
			QueryPool * qp{}; u64 q0{}, q1{};   // of the latest submitted frame
			Submission * sub{};
			bool fresh{ false };                // not read since
			u64 cpuMin{ 0 };                    // spent in callbacks since the last reset
			u64 since{ 0 };                     // upper bound: virtual time spent in operations since the last reset
		};
		struct Deferred { u32 id; std::vector< Submission * > before; u32 ran{ 0 }; };

		struct Run
		{
			World & w;
			std::map< u32, ProgInfo > progs;
			std::vector< VkShaderModule > shaders;
			// the submission being made
			WGraph * running{};
			VkQueue wantQueue{};
			std::map< VkSemaphore, VkPipelineStageFlags > wantWaits;
			u32 submitsSeen{ 0 };
			Submission * seen{};
			// callbacks that throw
			u64 callbacks{ 0 }, throwAt{ ~0ull };
			bool faultsEver{ false };
			std::map< std::pair< int, int >, PassTime > times; // pass -1: the graph
			using TimerCon = crg::OnFramePassDestroyConnection;
			struct Watch { int graph, pass; u32 seen{ 0 }; crg::FramePassTimer * timer{}; TimerCon con; };
			std::vector< std::unique_ptr< Watch > > watches;   // of the destruction of timers
			std::vector< std::unique_ptr< Deferred > > deferred;
			u32 deferredNext{ 0 };
			std::vector< int > comp;   // of each graph
			std::vector< std::vector< int > > comps;
			bool dead{ false };        // device lost
			u64 frames{ 0 };
			std::map< u32, std::string > lastWriter;

			explicit Run( World & ww ) : w{ ww } {}

			CmdBuf * cbOf( VkCommandBuffer cb ) { return static_cast< CmdBuf * >( findObj( T::CmdBuf, u64( cb ) ) ); }
			void leftIn( crg::RecordContext & rc, int view, VkImageLayout want, char const * who, WPass & p )
			{
				auto & v = w.Vw( view );
				auto & i = w.I( v.img );
				for ( u32 l = v.r.baseArrayLayer; l < v.r.baseArrayLayer + v.r.layerCount; ++l )
					for ( u32 m = v.r.baseMipLevel; m < v.r.baseMipLevel + v.r.levelCount; ++m )
					{
						auto got = rc.getLayoutState( i.id, i.viewType( 1 ), VkImageSubresourceRange{ v.r.aspectMask, m, 1, l, 1 } ).layout;
						if ( got != want ) violate( "C01", "requested-layout", who, "%s of %s leaves layer %u level %u of view%d in layout %d, not in %d as requested", who, p.name.c_str(), l, m, view, int( got ), int( want ) );
					}
				count( "requested_layouts_checked" );
			}
			// what the library says of the layouts while it records
			void probe( crg::RecordContext & rc, crg::RunnableGraph & rg, WPass & p, u32 idx, VkCommandBuffer cb )
			{
				if ( !running || !( propIs( "C01" ) || propIs( "C07" ) ) ) return;
				u32 how = choose( 5, "probe" );
				if ( how < 2 ) return;
				for ( auto & u : p.uses )
				{
					auto & v = w.Vw( u.view( idx ) );
					auto & i = w.I( v.img );
					if ( !i.real ) continue;
					auto type = i.viewType( 1 );
					bool one = v.r.levelCount == 1 && v.r.layerCount == 1 && v.id.data && v.id.data->source.empty();
					for ( u32 l = v.r.baseArrayLayer; l < v.r.baseArrayLayer + v.r.layerCount; ++l )
						for ( u32 m = v.r.baseMipLevel; m < v.r.baseMipLevel + v.r.levelCount; ++m )
						{
							VkImageSubresourceRange r{ v.r.aspectMask, m, 1, l, 1 };
							crg::LayoutState st;
							switch ( how )
							{
							case 2: st = rc.getLayoutState( i.id, type, r ); break;
							case 3: st = rg.getCurrentLayoutState( rc, i.id, type, r ); break;
							default: st = one ? choose( 2, "current" ) ? rg.getCurrentLayoutState( rc, v.id ) : rc.getLayoutState( v.id ) : rc.getLayoutState( i.id, type, r ); break;
							}
							if ( st.layout != VK_IMAGE_LAYOUT_UNDEFINED ) userProbe( cb, i.real, r, st.layout );
							if ( one && !rc.hasSingleState( v.id ) ) violate( "C01", "reported-layout", "single", "a single level of a single layer has several states" );
						}
				}
			}
			void ev( Ev::K k, WPass & p, u32 idx, u32 n, VkCommandBuffer cb )
			{
				u64 pos = 0;
				if ( cb ) { auto * c = cbOf( cb ); pos = c ? c->cmds.size() : 0; }
				trace( 0xE0 + k ); trace( u64( p.graph ) << 32 | u64( p.idx ) << 16 | idx );
				if ( w.evOn ) w.evs.push_back( { k, p.graph, p.idx, idx, n, pos } );
				if ( propIs( "C11" ) && k != Ev::Init )
				{
					u64 ns = choose( 4, "callback-time" );
					static u64 const d[]{ 0, 50000, 3000000, 700000000 };
					step( d[ns] );
					if ( k != Ev::Action ) times[{ p.graph, p.idx }].cpuMin += d[ns];
					if ( running ) times[{ p.graph, -1 }].cpuMin += d[ns];
				}
				if ( w.evOn && callbacks++ == throwAt )
				{
					++dev->injected;
					count( "fault_callback-throws" );
					dev->lastFault = "callback";
					throw InjectedFailure( "callback" );
				}
			}

			// ------------------------------------------------------------- hooks
			void onSubmit( Submission * s )
			{
				if ( !s->lib ) return;
				++submitsSeen;
				seen = s;
				if ( !running ) { violate( "C08", "unexpected-submit", "submit", "work submitted by an operation that is not a run" ); return; }
				auto & g = *running;
				if ( reinterpret_cast< VkQueue >( s->q->h ) != wantQueue ) violate( "C08", "wrong-queue", "queue", "graph %s submitted to another queue than the given one", g.name.c_str() );
				std::map< VkSemaphore, VkPipelineStageFlags > got;
				for ( auto & [sem, st] : s->waits )
				{
					auto h = reinterpret_cast< VkSemaphore >( sem->h );
					if ( got.count( h ) ) violate( "C08", "wait-twice", "wait", "the submission waits twice on %s", objStr( sem ).c_str() );
					got[h] |= st;
				}
				for ( auto & [h, st] : wantWaits )
				{
					auto it = got.find( h );
					if ( it == got.end() ) violate( "C08", "wait-missing", "wait", "the submission of %s does not wait on a semaphore it was given", g.name.c_str() );
					else
					{
						bool all = it->second & VK_PIPELINE_STAGE_ALL_COMMANDS_BIT;
						if ( !all && ( it->second & st ) != st )
							violate( "C08", "wait-stages", "wait", "the submission of %s blocks stages %x, %x were requested", g.name.c_str(), it->second, st );
					}
				}
				for ( auto & [h, st] : got ) if ( !wantWaits.count( h ) ) violate( "C08", "wait-extra", "wait", "the submission of %s waits on a semaphore it was not given", g.name.c_str() );
				if ( s->cbs.size() != 1 ) violate( "C08", "command-buffers", "count", "%zu command buffers submitted", s->cbs.size() );
				if ( s->signals.size() != 1 ) violate( "C08", "signals", "count", "%zu semaphores signalled", s->signals.size() );
				VkFence f = g.rg->getFence();
				if ( !s->fence || s->fence->h != u64( f ) ) violate( "C08", "fence", "fence", "graph %s submitted without its fence", g.name.c_str() );
				// every draw uses the current program of its pass
				for ( auto * cb : s->cbs )
					for ( auto & c : cb->cmds )
						if ( c.dpipe && c.dpipe->prog )
						{
							auto it = progs.find( c.dpipe->prog->id );
							if ( it == progs.end() ) continue;
							auto & p = *w.G( it->second.graph ).passes[size_t( it->second.pass )];
							if ( p.prog[it->second.slot]->id != c.dpipe->prog->id )
								violate( "C15", "stale-pipeline", pkName( p.kind ), "pass %s is recorded with the pipeline of program %u, which was replaced by program %u", p.name.c_str(), c.dpipe->prog->id, p.prog[it->second.slot]->id );
						}
			}

			// ------------------------------------------------------------- outcome of operations
			enum class Out { Done, Failed, Lost };
			template< typename F > Out guarded( char const * what, bool faults, bool mustReport, F f )
			{
				u64 before = dev->injected;
				bool failed = false;
				std::string why;
				u64 t0 = vtime;
				{
					FaultGuard fg{ faults };
					try { f(); }
					catch ( std::exception & e ) { failed = true; why = e.what(); }
				}
				for ( auto & [k, t] : times ) t.since += vtime - t0;
				u64 inj = dev->injected - before;
				logf( "%s: %s%s injected %llu\n", what, failed ? "failed: " : "done", why.c_str(), ( unsigned long long )inj );
				trace( failed ? 0xF1 : 0xF0 );
				if ( inj ) { faultsEver = true; count( "operations_faulted" ); }
				if ( failed && !inj )
				{
					violate( dev->injected ? "C07" : "C06", "spurious-failure", what, "%s failed (%s) although no device call failed during it", what, why.c_str() );
					violate( cfg.prop.c_str(), "spurious-failure", what, "%s failed (%s) although no device call failed during it", what, why.c_str() );
				}
				if ( !failed && inj && mustReport && dev->lastFault != "GetQueryPoolResults" )
					violate( "C06", "unreported", strf( "%s:%s", what, dev->lastFault.c_str() ), "%s returned normally although %s failed", what, dev->lastFault.c_str() );
				if ( dev->lost ) { dead = true; return Out::Lost; }
				return failed ? Out::Failed : Out::Done;
			}

			// ------------------------------------------------------------- compile
			void dropRunnable( WGraph & g )
			{
				for ( auto & p : g.passes ) p->rp = nullptr;
				g.rg.reset();
				for ( size_t i = 0; i < watches.size(); )
				{
					auto & x = *watches[i];
					if ( x.graph != g.idx ) { ++i; continue; }
					if ( x.seen != 1 ) violate( "C11", "destroy-notification", "timer", "the destruction of the timer of %s is notified %u times", x.pass < 0 ? g.name.c_str() : g.passes[size_t( x.pass )]->name.c_str(), x.seen );
					watches.erase( watches.begin() + long( i ) );
				}
				for ( auto it = times.begin(); it != times.end(); ) { if ( it->first.first == g.idx ) it->second = {}; ++it; }
			}
			void grow()
			{
				auto & g = *w.graphs.back();
				if ( g.later.empty() || g.grown ) return;
				logf( "graph %s grows by %zu passes\n", g.name.c_str(), g.later.size() );
				w.buildPasses( g, g.later );
				g.grown = true;
			}
			bool compile( WGraph & g, bool faults )
			{
				if ( g.grown )
				{
					for ( auto & p : g.later ) g.passes.push_back( std::move( p ) );
					g.later.clear();
					g.grown = false;
					count( "grown_graphs" );
				}
				for ( u32 attempt = 0;; ++attempt )
				{
					bool f = faults && attempt < 3;
					g.initialised.assign( g.passes.size() * 4, false );
					w.evs.clear();
					w.evOn = true;
					Out o = guarded( "compile", f, true, [&]
						{
							g.rg = g.fg->compile( *w.ctx );
						} );
					w.evOn = false;
					if ( o == Out::Lost ) return false;
					if ( o == Out::Done && g.rg ) break;
					if ( attempt > 6 ) { violate( "C07", "compile-fails", "compile", "compiling keeps failing once faults stopped" ); finishAbort( "compile" ); }
				}
				++g.compiles;
				count( "compiles" );
				checkInits( g );
				// fresh images
				for ( auto & i : w.imgs )
					if ( i->graph == g.idx )
					{
						auto h = g.rg->createImage( i->id );
						i->real = static_cast< Image * >( findObj( T::Image, u64( h ) ) );
						if ( !i->real ) violateStop( "C18", "dead-image", "image", "graph %s has no image for %s after it was compiled", g.name.c_str(), i->name.c_str() );
						if ( i->real->nlocs() != i->nlocs() ) violateStop( "C18", "wrong-image", "image", "image of %s has wrong dimensions", i->name.c_str() );
						i->real->tag = i->idx;
						for ( u32 l = 0; l < i->nlocs(); ++l ) dev->content[i->mock.locBase + l] = undefV( i->mock.locBase + l );
					}
				g.pending.reset();
				g.last = nullptr;
				if ( propIs( "C11" ) )
					for ( int i = -1; i < int( g.passes.size() ); ++i )
					{
						if ( i >= 0 && !g.passes[size_t( i )]->rp ) continue;
						auto x = std::make_unique< Watch >();
						auto * px = x.get();
						x->graph = g.idx; x->pass = i;
						x->timer = i < 0 ? &g.rg->getTimer() : &g.passes[size_t( i )]->rp->getTimer();
						x->con = x->timer->onDestroy.connect( [px]( crg::FramePassTimer & t ) { if ( &t != px->timer ) violate( "C11", "destroy-notification", "which", "a timer's destruction is notified as that of another one" ); ++px->seen; } );
						watches.push_back( std::move( x ) );
					}
				return true;
			}
			bool recompile( int gi, bool faults )
			{
				waitAll();
				// dependents first
				// a view belongs to the graph through which it was created first: every
				// graph which shares one with a dropped graph goes too
				std::vector< int > set{ gi };
				auto add = [&set]( int d ) { if ( std::find( set.begin(), set.end(), d ) == set.end() ) set.push_back( d ); };
				for ( size_t i = 0; i < set.size(); ++i )
				{
					for ( int d : w.G( set[i] ).dependents ) add( d );
					auto & mine = w.G( set[i] ).named;
					for ( auto & o : w.graphs )
						if ( o->idx != set[i] )
							for ( int v : o->named ) if ( mine.count( v ) ) { add( o->idx ); break; }
				}
				std::sort( set.begin(), set.end() );
				for ( size_t i = set.size(); i-- > 0; ) dropRunnable( w.G( set[i] ) );
				for ( int i : set ) if ( !compile( w.G( i ), faults ) ) return false;
				return true;
			}
			void checkInits( WGraph & g )
			{
				for ( auto & e : w.evs )
					if ( e.k == Ev::Init && e.graph == g.idx )
					{
						size_t k = size_t( e.pass ) * 4 + std::min( e.idx, 3u );
						auto & p = *g.passes[size_t( e.pass )];
						if ( p.kind == PK::RPass ) continue;
						if ( k >= g.initialised.size() ) { violate( "C12", "init-index", "init", "pass %s initialised for index %u", p.name.c_str(), e.idx ); continue; }
						if ( g.initialised[k] ) violate( "C12", "init-twice", pkName( p.kind ), "pass %s is initialised again for index %u", p.name.c_str(), e.idx );
						g.initialised[k] = true;
					}
			}

			// ------------------------------------------------------------- run
			void clearImage( VkCommandBuffer cb, WImg & i, VkImageAspectFlags asp, u32 m, u32 l )
			{
				auto & c = *w.ctx;
				VkImage h = reinterpret_cast< VkImage >( i.real->h );
				Cmd k;
				k.img = &i.mock;
				k.ranges = { { asp, m, 1, l, 1 } };
				VkClearValue v{};
				if ( asp == VK_IMAGE_ASPECT_COLOR_BIT )
				{
					v.color.uint32[0] = u32( w.nextVal++ );
					c.vkCmdClearColorImage( cb, h, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &v.color, 1, k.ranges.data() );
					k.op = Op::ClearColor;
				}
				else
				{
					v.depthStencil.depth = float( w.nextVal++ & 0xFFFFF ) / float( 0x100000 );
					v.depthStencil.stencil = u32( w.nextVal & 0xFF );
					c.vkCmdClearDepthStencilImage( cb, h, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &v.depthStencil, 1, k.ranges.data() );
					k.op = Op::ClearDS;
				}
				k.clears = { v };
				shadowExec( k );
			}
			void external( WGraph & g, VkQueue q )
			{
				bool any = false;
				for ( auto & i : w.imgs ) if ( i->graph == g.idx && i->external ) any = true;
				if ( !any ) return;
				waitAll();
				UserScope us;
				auto & c = *w.ctx;
				VkCommandBuffer cb{};
				for ( auto & i : w.imgs )
				{
					if ( i->graph != g.idx || !i->external ) continue;
					if ( !i->extGpu )
					{
						for ( u32 l = 0; l < i->layers; ++l )
							for ( u32 m = 0; m < i->mips; ++m )
								for ( u32 a = 0; a < i->mock.naspect; ++a )
								{
									V v = vconst( mix2( 0xE47, w.nextVal++ ) );
									userSetImage( i->real, l, m, a, i->extLayout, v );
									dev->content[i->mock.loc( l, m, a )] = v;
								}
						continue;
					}
					// commands which the graph's have to wait for
					if ( !w.userPool )
					{
						VkCommandPoolCreateInfo pi{ VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO, nullptr, VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT, 0 };
						c.vkCreateCommandPool( c.device, &pi, nullptr, &w.userPool );
					}
					if ( !cb )
					{
						VkCommandBufferAllocateInfo ai{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, nullptr, w.userPool, VK_COMMAND_BUFFER_LEVEL_PRIMARY, 1 };
						c.vkAllocateCommandBuffers( c.device, &ai, &cb );
						VkCommandBufferBeginInfo bi{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, nullptr, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT, nullptr };
						c.vkBeginCommandBuffer( cb, &bi );
					}
					VkImage h = reinterpret_cast< VkImage >( i->real->h );
					auto asp = aspectMaskOf( i->fmt );
					VkImageMemoryBarrier ib{ VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER, nullptr, 0, VK_ACCESS_TRANSFER_WRITE_BIT, VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_QUEUE_FAMILY_IGNORED, VK_QUEUE_FAMILY_IGNORED, h, { asp, 0, i->mips, 0, i->layers } };
					c.vkCmdPipelineBarrier( cb, VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT, 0, 0, nullptr, 0, nullptr, 1, &ib );
					for ( u32 l = 0; l < i->layers; ++l )
						for ( u32 m = 0; m < i->mips; ++m )
						{
							clearImage( cb, *i, asp, m, l );
						}
					if ( i->extLayout != VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL || i->extState.pipelineStage != VK_PIPELINE_STAGE_TRANSFER_BIT )
					{
						ib.srcAccessMask = VK_ACCESS_TRANSFER_WRITE_BIT;
						ib.dstAccessMask = i->extState.access;
						ib.oldLayout = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
						ib.newLayout = i->extLayout;
						c.vkCmdPipelineBarrier( cb, VK_PIPELINE_STAGE_TRANSFER_BIT, i->extState.pipelineStage, 0, 0, nullptr, 0, nullptr, 1, &ib );
					}
				}
				if ( !cb ) return;
				c.vkEndCommandBuffer( cb );
				VkSubmitInfo si{ VK_STRUCTURE_TYPE_SUBMIT_INFO, nullptr, 0, nullptr, nullptr, 1, &cb, 0, nullptr };
				c.vkQueueSubmit( q, 1, &si, VkFence{} );
				count( "inputs_written_by_commands" );
			}
			// The application reads what the frame made: its own commands, made from the final state the graph reports.
			void consume( WGraph & g, VkQueue q )
			{
				bool own = w.nqueues == 1 && choose( 2, "same-queue" );
				std::vector< std::array< u32, 4 > > seenImg; // image, layer, mip
				std::vector< int > vs;
				for ( auto & p : g.passes ) for ( auto & u : p->uses ) for ( int v : u.views ) if ( std::find( vs.begin(), vs.end(), v ) == vs.end() ) vs.push_back( v );
				std::vector< int > bs;
				for ( auto & p : g.passes ) for ( auto & u : p->bufs ) for ( int b : u.bufs ) if ( std::find( bs.begin(), bs.end(), b ) == bs.end() ) bs.push_back( b );
				// the state of a range covers what was done with all of its parts which are in its layout
				for ( int x : vs )
				{
					auto & vw = w.Vw( x );
					auto & i = w.I( vw.img );
					if ( vw.r.levelCount * vw.r.layerCount < 2 ) continue;
					auto all = g.fg->getFinalLayoutState( i.id, i.viewType( vw.r.layerCount, vw.cube ), vw.r );
					for ( u32 l = vw.r.baseArrayLayer; l < vw.r.baseArrayLayer + vw.r.layerCount; ++l )
						for ( u32 m = vw.r.baseMipLevel; m < vw.r.baseMipLevel + vw.r.levelCount; ++m )
						{
							auto part = g.fg->getFinalLayoutState( i.id, i.viewType( 1 ), VkImageSubresourceRange{ vw.r.aspectMask, m, 1, l, 1 } );
							if ( part.layout != all.layout || part.layout == VK_IMAGE_LAYOUT_UNDEFINED ) continue;
							if ( ( part.state.access & ~all.state.access ) || ( part.state.pipelineStage & ~all.state.pipelineStage ) )
								violate( "C03", "final-state", "range", "the final state of view%d, stages 0x%x accesses 0x%x, does not cover that of its layer %u level %u, stages 0x%x accesses 0x%x", x, all.state.pipelineStage, all.state.access, l, m, part.state.pipelineStage, part.state.access );
						}
					count( "ranges_of_final_states_checked" );
				}
				UserScope us;
				auto & c = *w.ctx;
				if ( !w.userPool )
				{
					VkCommandPoolCreateInfo pi{ VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO, nullptr, VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT, 0 };
					c.vkCreateCommandPool( c.device, &pi, nullptr, &w.userPool );
				}
				VkCommandBuffer cb{};
				VkCommandBufferAllocateInfo ai{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, nullptr, w.userPool, VK_COMMAND_BUFFER_LEVEL_PRIMARY, 1 };
				c.vkAllocateCommandBuffers( c.device, &ai, &cb );
				VkCommandBufferBeginInfo bi{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, nullptr, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT, nullptr };
				c.vkBeginCommandBuffer( cb, &bi );
				u32 n = 1 + choose( 3, "consumed" ), done = 0;
				for ( u32 k = 0; k < n && !vs.empty(); ++k )
				{
					auto & vw = w.Vw( vs[choose( u32( vs.size() ), "consumed-view" )] );
					auto & i = w.I( vw.img );
					u32 l = vw.r.baseArrayLayer + choose( vw.r.layerCount, "consumed-layer" ), m = vw.r.baseMipLevel + choose( vw.r.levelCount, "consumed-mip" );
					auto asp = aspectMaskOf( i.fmt );
					VkImageSubresourceRange of{ asp, m, 1, l, 1 };
					// all of the view at once, when all of it is in the same layout
					bool whole = vw.locs.size() > 1 && choose( 3, "consumed-whole" ) == 2;
					if ( whole ) of = { asp, vw.r.baseMipLevel, vw.r.levelCount, vw.r.baseArrayLayer, vw.r.layerCount };
					bool seen = false;
					for ( u32 a = of.baseArrayLayer; a < of.baseArrayLayer + of.layerCount; ++a )
						for ( u32 b = of.baseMipLevel; b < of.baseMipLevel + of.levelCount; ++b )
						{
							std::array< u32, 4 > id{ u32( vw.img ), a, b, 0 };
							if ( std::find( seenImg.begin(), seenImg.end(), id ) != seenImg.end() ) seen = true;
							for ( u32 c = 0; c < i.mock.naspect; ++c ) if ( dev->layout[i.real->loc( a, b, c )] != dev->layout[i.real->loc( l, m, 0 )] ) seen = true;
						}
					if ( seen ) continue;
					for ( u32 a = of.baseArrayLayer; a < of.baseArrayLayer + of.layerCount; ++a )
						for ( u32 b = of.baseMipLevel; b < of.baseMipLevel + of.levelCount; ++b ) seenImg.push_back( { u32( vw.img ), a, b, 0 } );
					auto st = g.fg->getFinalLayoutState( i.id, i.viewType( of.layerCount ), of );
					if ( whole ) count( "views_consumed_whole" );
					if ( st.layout == VK_IMAGE_LAYOUT_UNDEFINED ) continue;
					auto have = dev->layout[i.real->loc( l, m, 0 )];
					if ( i.mock.naspect == 2 && dev->layout[i.real->loc( l, m, 1 )] != have ) continue;
					if ( normLayout( st.layout, aspectBit( i.fmt, 0 ) ) != normLayout( have, aspectBit( i.fmt, 0 ) ) ) continue; // C01 tells
					VkImage h = reinterpret_cast< VkImage >( i.real->h );
					// it may change it, too
					bool rewrite = !own && !i.noWrite && choose( 3, "rewritten" ) == 2;
					auto stage = st.state.pipelineStage;
					auto mine = rewrite ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL;
					VkImageMemoryBarrier ib{ VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER, nullptr, st.state.access, VkAccessFlags( rewrite ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT ), have, mine, VK_QUEUE_FAMILY_IGNORED, VK_QUEUE_FAMILY_IGNORED, h, of };
					c.vkCmdPipelineBarrier( cb, stage ? stage : VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT, 0, 0, nullptr, 0, nullptr, 1, &ib );
					if ( rewrite ) { clearImage( cb, i, asp, m, l ); count( "outputs_rewritten" ); }
					else
					{
						VkBuffer out = userCreateBuffer( 1u << 16, VK_BUFFER_USAGE_TRANSFER_DST_BIT, 0 );
						auto me = mipExtent( i.real, m );
						VkBufferImageCopy rg{ 0, 0, 0, { VkImageAspectFlags( aspectBit( i.fmt, i.mock.naspect == 2 ? choose( 2, "consumed-aspect" ) : 0 ) ), m, l, 1 }, {}, me };
						c.vkCmdCopyImageToBuffer( cb, h, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, out, 1, &rg );
					}
					std::swap( ib.srcAccessMask, ib.dstAccessMask );
					ib.oldLayout = mine; ib.newLayout = have;
					c.vkCmdPipelineBarrier( cb, VK_PIPELINE_STAGE_TRANSFER_BIT, stage ? stage : VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, 0, 0, nullptr, 0, nullptr, 1, &ib );
					++done;
				}
				n = choose( 3, "consumed-buffers" );
				std::set< int > seenBuf;
				for ( u32 k = 0; k < n && !bs.empty(); ++k )
				{
					int id = bs[choose( u32( bs.size() ), "consumed-buffer" )];
					if ( !seenBuf.insert( id ).second ) continue;
					auto & b = *w.bufs[size_t( id )];
					auto st = g.fg->getFinalAccessState( crg::Buffer{ b.vk, b.name }, 0u );
					if ( st.pipelineStage == VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT || !st.pipelineStage ) continue;
					bool rewrite = !own && !b.constant && choose( 3, "rewritten" ) == 2;
					VkBufferMemoryBarrier bb{ VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER, nullptr, st.access, VkAccessFlags( rewrite ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT ), VK_QUEUE_FAMILY_IGNORED, VK_QUEUE_FAMILY_IGNORED, b.vk, 0, VK_WHOLE_SIZE };
					c.vkCmdPipelineBarrier( cb, st.pipelineStage, VK_PIPELINE_STAGE_TRANSFER_BIT, 0, 0, nullptr, 1, &bb, 0, nullptr );
					if ( rewrite )
					{
						Cmd k;
						k.op = Op::Fill;
						k.buf = &b.mock; k.a[0] = 0; k.a[1] = b.real->size / 4 * 4; k.a[2] = u32( w.nextVal++ );
						c.vkCmdFillBuffer( cb, b.vk, 0, k.a[1], u32( k.a[2] ) );
						shadowExec( k );
						count( "outputs_rewritten" );
					}
					else
					{
						VkBuffer out = userCreateBuffer( b.real->size, VK_BUFFER_USAGE_TRANSFER_DST_BIT, 0 );
						VkBufferCopy rg{ 0, 0, b.real->size };
						c.vkCmdCopyBuffer( cb, b.vk, out, 1, &rg );
					}
					std::swap( bb.srcAccessMask, bb.dstAccessMask );
					c.vkCmdPipelineBarrier( cb, VK_PIPELINE_STAGE_TRANSFER_BIT, st.pipelineStage, 0, 0, nullptr, 1, &bb, 0, nullptr );
					++done;
				}
				c.vkEndCommandBuffer( cb );
				if ( !done ) return;
				count( own ? "outputs_read_on_the_queue" : "outputs_read_after_the_semaphore" );
				VkSubmitInfo si{ VK_STRUCTURE_TYPE_SUBMIT_INFO, nullptr, 0, nullptr, nullptr, 1, &cb, 0, nullptr };
				VkPipelineStageFlags stage = g.pending->dstStageMask;
				VkSemaphore sem{};
				if ( !own )
				{
					// in the way of the returned semaphore
					VkSemaphoreCreateInfo sc{ VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO, nullptr, 0 };
					c.vkCreateSemaphore( c.device, &sc, nullptr, &sem );
					si.waitSemaphoreCount = 1; si.pWaitSemaphores = &g.pending->semaphore; si.pWaitDstStageMask = &stage;
					si.signalSemaphoreCount = 1; si.pSignalSemaphores = &sem;
					q = w.queues[w.nqueues > 1 ? choose( w.nqueues, "consumer-queue" ) : 0];
				}
				c.vkQueueSubmit( q, 1, &si, VkFence{} );
				if ( !own ) g.pending = crg::SemaphoreWait{ sem, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT };
			}
			bool runGraph( WGraph & g, bool faults )
			{
				VkQueue q = w.queues[w.nqueues > 1 ? choose( w.nqueues, "queue" ) : 0];
				external( g, q );
				for ( u32 attempt = 0;; ++attempt )
				{
					// every semaphore of the component which nobody waited for yet
					crg::SemaphoreWaitArray waits;
					std::vector< WGraph * > from;
					for ( int o : comps[size_t( comp[size_t( g.idx )] )] )
					{
						auto & og = w.G( o );
						if ( og.pending )
						{
							waits.push_back( *og.pending );
							from.push_back( &og );
							if ( choose( 3, "wait-stages" ) == 2 )
							{
								// the caller may ask for more
								static VkPipelineStageFlags const st[]{ VK_PIPELINE_STAGE_ALL_COMMANDS_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT };
								auto extra = st[choose( 4, "stages" )];
								if ( choose( 2, "as-duplicate" ) ) waits.push_back( { og.pending->semaphore, extra } );
								else waits.back().dstStageMask |= extra;
								if ( choose( 3, "reversed" ) == 2 && waits.size() > 1 ) std::swap( waits[waits.size() - 1], waits[waits.size() - 2] );
							}
						}
					}
					if ( choose( 4, "null-wait" ) == 3 ) waits.insert( waits.begin() + long( choose( u32( waits.size() ) + 1, "null-position" ) ), crg::SemaphoreWait{ VkSemaphore{}, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT } );
					wantWaits.clear();
					for ( auto & x : waits ) if ( x.semaphore ) wantWaits[x.semaphore] |= x.dstStageMask;
					wantQueue = q;
					running = &g;
					submitsSeen = 0;
					seen = nullptr;
					w.evs.clear();
					callbacks = 0;
					bool f = faults && attempt < 4;
					throwAt = ~0ull;
					if ( f && choose( 12, "callback-throws" ) == 11 ) throwAt = choose( 12, "throwing-callback" );
					w.evOn = true;
					crg::SemaphoreWaitArray ret;
					bool recorded = choose( 10, "recorded-before" ) == 9;
					if ( recorded )
					{
						// recording without submitting changes nothing
						count( "recorded_without_run" );
						Out r = guarded( "record", f, true, [&] { g.rg->record(); } );
						if ( r == Out::Done ) checkInits( g ); else checkPartialInits( g );
						w.evs.clear();
						if ( r == Out::Lost ) { w.evOn = false; running = nullptr; return false; }
					}
					Out o = guarded( "run", f, true, [&]
						{
							if ( waits.empty() && choose( 2, "no-wait-overload" ) ) ret = g.rg->run( q );
							else if ( waits.size() == 1 && choose( 2, "one-wait-overload" ) ) ret = g.rg->run( waits[0], q );
							else ret = g.rg->run( waits, q );
						} );
					w.evOn = false;
					throwAt = ~0ull;
					running = nullptr;
					if ( submitsSeen > 1 ) violate( "C08", "submits", "count", "run of %s submitted %u times", g.name.c_str(), submitsSeen );
					if ( submitsSeen )
					{
						for ( auto * og : from ) og->pending.reset();
						g.last = seen;
					}
					if ( o == Out::Done )
					{
						if ( !submitsSeen )
						{
							violate( "C08", "not-submitted", "run", "run of %s returned although nothing was submitted", g.name.c_str() );
							violate( "C06", "not-submitted", strf( "run:%s", dev->lastFault.c_str() ), "run of %s returned although nothing was submitted", g.name.c_str() );
							finishAbort( "nothing submitted" );
						}
						if ( ret.size() != 1 || !ret[0].semaphore ) { violate( "C08", "result", "run", "run of %s returned %zu semaphores", g.name.c_str(), ret.size() ); finishAbort( "semaphores" ); }
						if ( seen->signals.size() != 1 || seen->signals[0]->h != u64( ret[0].semaphore ) ) violate( "C08", "result", "semaphore", "the semaphore returned by the run of %s is not the one signalled", g.name.c_str() );
						trace( ret[0].dstStageMask );
						g.pending = ret[0];
						frameDone( g );
						if ( choose( 4, "consumer" ) == 3 ) consume( g, q );
						return true;
					}
					checkPartialInits( g );
					if ( o == Out::Lost ) return false;
					if ( submitsSeen ) violate( "C06", "failed-but-submitted", "run", "run of %s failed after it submitted", g.name.c_str() ), finishAbort( "submitted" );
					if ( attempt > 8 ) { violate( "C07", "run-fails", "run", "running keeps failing once faults stopped" ); finishAbort( "run" ); }
					count( "retries" );
				}
			}
			// a failed attempt: callbacks that returned initialised their pass
			void checkPartialInits( WGraph & g )
			{
				if ( dev->lastFault == "callback" && !w.evs.empty() && w.evs.back().k == Ev::Init ) w.evs.pop_back();
				checkInits( g );
			}
			void frameDone( WGraph & g )
			{
				++frames;
				++g.frames;
				count( "frames" );
				if ( dev->injected ) count( "frames_after_faults" );
				std::map< u32, u64 > old;
				w.evModel.clear();
				w.modelFrame( g );
				for ( auto & p : g.passes )
					if ( p->enabled ) for ( auto l : p->wr ) lastWriter[l] = strf( "%s", pkName( p->kind ) );
				checkInits( g );
				checkEvents( g );
				checkActions( g );
				checkContents( g );
				checkFinalLayouts( g );
				noteTimes( g );
				u64 st = 0;
				for ( auto & p : g.passes ) st = mix2( st, u64( p->kind ) << 8 | u64( p->enabled ) << 4 | p->index );
				stateSeen( mix2( st, g.frames > 3 ? 3 : g.frames ) );
			}
			static bool isWork( Op op )
			{
				switch ( op )
				{
				case Op::ClearColor: case Op::ClearDS: case Op::Dispatch: case Op::DispatchIndirect: case Op::Draw: case Op::DrawIndexed: case Op::DrawIndexedIndirect: case Op::DrawIndirect:
				case Op::BeginRP: case Op::EndRP: case Op::Blit: case Op::CopyBuffer: case Op::CopyBufImg: case Op::CopyImage: case Op::CopyImgBuf: case Op::Fill: return true;
				default: return false;
				}
			}
			void checkEvents( WGraph & g )
			{
				if ( !propIs( "C12" ) && !propIs( "C07" ) ) return;
				char const * prop = propIs( "C07" ) ? "C07" : "C12";
				if ( propIs( "C07" ) && !dev->injected ) return;
				// the events of each pass are contiguous and complete
				std::vector< int > seenAt( g.passes.size(), -1 );
				int cur = -1, n = 0;
				auto & cmds = seen->cbs[0]->cmds;
				struct St { u32 pre{ 0 }, rec{ 0 }, end{ 0 }, post{ 0 }; u64 first{ 0 }, last{ 0 }; };
				std::vector< St > st( g.passes.size() );
				for ( auto & e : w.evs )
				{
					if ( e.k == Ev::Action ) continue;
					if ( e.graph != g.idx ) { violate( prop, "foreign-pass", "pass", "pass of another graph recorded by %s", g.name.c_str() ); continue; }
					auto & p = *g.passes[size_t( e.pass )];
					if ( e.k == Ev::Init ) { if ( p.kind != PK::RPass && e.idx != p.index ) violate( prop, "init-index", "init", "pass %s initialised for index %u instead of %u", p.name.c_str(), e.idx, p.index ); if ( p.kind != PK::RPass ) continue; }
					if ( !p.enabled ) { violate( prop, "disabled-recorded", pkName( p.kind ), "%s of disabled pass %s is called", e.k == Ev::Pre ? "pre-action" : e.k == Ev::Post ? "post-action" : "record function", p.name.c_str() ); continue; }
					if ( e.idx != p.index ) violate( prop, "wrong-index", pkName( p.kind ), "pass %s is recorded at index %u instead of %u", p.name.c_str(), e.idx, p.index );
					if ( e.pass != cur )
					{
						if ( seenAt[size_t( e.pass )] >= 0 ) violate( prop, "interleaved", "order", "the recording of %s is interrupted or repeated", p.name.c_str() );
						seenAt[size_t( e.pass )] = n++;
						cur = e.pass;
					}
					if ( e.k == Ev::Init ) continue;
					auto & s = st[size_t( e.pass )];
					if ( e.k == Ev::Pre ) { if ( s.rec || s.post || s.end || e.n != s.pre ) violate( prop, "order-in-pass", pkName( p.kind ), "pre-action %u of %s out of order", e.n, p.name.c_str() ); ++s.pre; }
					if ( e.k == Ev::Rec && ( p.kind == PK::Compute || p.kind == PK::Custom ) && !g.initialised[size_t( p.idx ) * 4 + std::min( e.idx, 3u )] ) violate( prop, "not-initialised", pkName( p.kind ), "pass %s is recorded at index %u, for which it was never initialised", p.name.c_str(), e.idx );
					if ( e.k == Ev::Rec ) { if ( s.post || s.pre != p.nPre ) violate( prop, "order-in-pass", pkName( p.kind ), "record function of %s out of order", p.name.c_str() ); ++s.rec; }
					if ( e.k == Ev::End ) { if ( s.post || !s.rec ) violate( prop, "order-in-pass", pkName( p.kind ), "end function of %s out of order", p.name.c_str() ); ++s.end; }
					if ( e.k == Ev::Post ) { if ( e.n != s.post ) violate( prop, "order-in-pass", pkName( p.kind ), "post-action %u of %s out of order", e.n, p.name.c_str() ); if ( !s.post ) s.last = e.pos; ++s.post; }
					if ( e.k == Ev::Pre && s.pre == p.nPre ) s.first = e.pos;
				}
				for ( auto & pp : g.passes )
				{
					auto & p = *pp;
					auto & s = st[size_t( p.idx )];
					if ( !p.enabled ) continue;
					bool cb = p.kind == PK::Custom || p.kind == PK::RPass || p.hasPipeline();
					if ( s.pre != p.nPre ) violate( prop, "pre-actions", pkName( p.kind ), "pass %s: %u of its %u pre-actions are called", p.name.c_str(), s.pre, p.nPre );
					if ( s.post != p.nPost ) violate( prop, "post-actions", pkName( p.kind ), "pass %s: %u of its %u post-actions are called", p.name.c_str(), s.post, p.nPost );
					if ( cb && s.rec != 1 ) violate( prop, "recorded-times", pkName( p.kind ), "the record function of enabled pass %s is called %u times", p.name.c_str(), s.rec );
					if ( p.hasPipeline() && s.end != 1 ) violate( prop, "recorded-times", pkName( p.kind ), "the end function of enabled pass %s is called %u times", p.name.c_str(), s.end );
					if ( p.nPre && p.nPost )
					{
						u64 work = 0;
						for ( u64 i = s.first; i < s.last && i < cmds.size(); ++i ) work += isWork( cmds[i].op );
						bool nothing = p.kind == PK::Custom || ( p.kind == PK::Mips && w.I( w.Vw( p.uses[0].views[0] ).img ).mips == 1 ); // nothing to do
						if ( !work && !nothing ) violate( prop, "nothing-recorded", pkName( p.kind ), "pass %s records nothing between its pre-actions and its post-actions", p.name.c_str() );
					}
					// dependencies come first
					for ( int d : p.deps )
						if ( g.passes[size_t( d )]->enabled && seenAt[size_t( d )] >= 0 && seenAt[size_t( p.idx )] >= 0 && seenAt[size_t( d )] > seenAt[size_t( p.idx )] )
							violate( prop, "dependency-order", "order", "pass %s is recorded before %s, on which it depends", p.name.c_str(), g.passes[size_t( d )]->name.c_str() );
				}
			}
			void checkActions( WGraph & g )
			{
				if ( !propIs( "C13" ) ) return;
				std::map< std::pair< int, u32 >, int > want, got;
				for ( auto & e : w.evModel ) ++want[{ e.pass, e.idx }];
				for ( auto & e : w.evs ) if ( e.k == Ev::Action ) ++got[{ e.pass, e.idx }];
				if ( !w.evModel.empty() ) count( "frames_with_fallbacks" );
				for ( auto & [k, n] : want )
				{
					auto it = got.find( k );
					int m = it == got.end() ? 0 : it->second;
					auto & p = *g.passes[size_t( k.first )];
					if ( m < n ) violate( "C13", "missing", "action", "the fallback of disabled pass %s for view%u does not run although a later pass uses the view", p.name.c_str(), k.second );
					if ( m > n ) violate( "C13", "repeated", "action", "the fallback of disabled pass %s for view%u runs %d times", p.name.c_str(), k.second, m );
				}
				for ( auto & [k, m] : got )
					if ( !want.count( k ) )
					{
						auto & p = *g.passes[size_t( k.first )];
						violate( "C13", p.enabled ? "enabled" : "unneeded", "action", "the fallback of %s pass %s for view%u runs although %s", p.enabled ? "enabled" : "disabled", p.name.c_str(), k.second, p.enabled ? "the pass is enabled" : "no later pass uses the view" );
					}
				// with the index of the pass it is run for
				for ( auto & x : w.evs )
				{
					if ( x.k != Ev::Action || !want.count( { x.pass, x.idx } ) ) continue;
					// the passes which use the view, and those which use what is copied from it by other fallbacks
					std::set< int > views{ int( x.idx ) };
					for ( size_t had = 0; had != views.size(); )
					{
						had = views.size();
						for ( auto & q : g.passes ) if ( !q->enabled ) for ( auto & a : q->acts ) if ( a.src >= 0 && views.count( a.src ) ) views.insert( a.view );
					}
					bool any = false, fits = false;
					for ( auto & q : g.passes )
						if ( q->enabled )
							for ( auto & u : q->uses ) if ( views.count( u.view( q->index ) ) ) { any = true; fits = fits || q->index == x.n; }
					if ( any && !fits ) violate( "C13", "wrong-index", "action", "the fallback of %s for view%u is given the index %u, which no pass that uses the view has", g.passes[size_t( x.pass )]->name.c_str(), x.idx, x.n );
				}
				// before its user
				for ( auto & e : w.evModel )
				{
					bool done = false;
					for ( auto & x : w.evs )
					{
						if ( x.k == Ev::Action && x.pass == e.pass && x.idx == e.idx ) done = true;
						if ( x.k != Ev::Action && x.k != Ev::Init && x.pass == int( e.n ) && !done )
						{
							violate( "C13", "late", "action", "the fallback of %s for view%u runs after the recording of %s, which uses the view", g.passes[size_t( e.pass )]->name.c_str(), e.idx, g.passes[e.n]->name.c_str() );
							break;
						}
					}
				}
			}
			void checkContents( WGraph & g )
			{
				auto bad = [&]( std::string const & what, u32 loc, char const * kind )
				{
					auto it = lastWriter.find( loc );
					std::string key = strf( "%s:%s", kind, it == lastWriter.end() ? "none" : it->second.c_str() );
					auto msg = strf( "after frame %u of %s, %s holds other contents than its declared passes produce (last written by %s pass)%s", g.frames, g.name.c_str(), what.c_str(), it == lastWriter.end() ? "no" : it->second.c_str()
						, dev->injected ? strf( " (last failed call: %s)", dev->lastFault.c_str() ).c_str() : "" );
					if ( dev->injected ) violate( "C07", "wrong-contents", key, "%s", msg.c_str() );
					if ( !w.evModel.empty() ) violate( "C13", "wrong-contents", key, "%s", msg.c_str() );
					violate( "C02", "wrong-contents", key, "%s", msg.c_str() );
					if ( !cfg.keepGoing ) finishAbort( "wrong contents" );
				};
				u64 n = 0;
				for ( auto & i : w.imgs )
					if ( i->real )
						for ( u32 l = 0; l < i->nlocs(); ++l )
						{
							auto & m = dev->content[i->mock.locBase + l];
							if ( m.taint ) continue;
							++n;
							auto & r = dev->content[i->real->locBase + l];
							if ( r.h != m.h || r.taint )
							{
								u32 a = l % i->mock.naspect, k = l / i->mock.naspect;
								bad( strf( "%s layer %u level %u aspect %u%s", i->name.c_str(), k / i->mips, k % i->mips, a, r.taint ? " (undefined contents)" : "" ), i->mock.locBase + l, "image" );
							}
						}
				for ( auto & b : w.bufs )
					for ( u32 c = 0; c < b->mock.ncells; ++c )
					{
						auto & m = dev->content[b->mock.locBase + c];
						if ( m.taint ) continue;
						++n;
						auto & r = dev->content[b->real->locBase + c];
						if ( r.h != m.h || r.taint ) bad( strf( "%s bytes %u..", b->name.c_str(), c * CellSize ), b->mock.locBase + c, "buffer" );
					}
				count( "contents_compared", n );
			}
			void checkFinalLayouts( WGraph & g )
			{
				if ( !propIs( "C01" ) && !propIs( "C07" ) ) return;
				for ( auto & in : g.inputs )
					if ( in.st.layout != ( g.frames % 2 ? g.fg->getInputLayoutState( w.Vw( in.view ).id ) : g.fg->getInputLayoutState( w.I( w.Vw( in.view ).img ).id, w.I( w.Vw( in.view ).img ).viewType( 2 ), w.Vw( in.view ).r ) ).layout )
						violate( "C01", "reported-layout", "input", "the layout in which view%d comes is not the one declared", in.view );
				for ( auto & o : g.outputs )
					if ( o.st.layout != g.fg->getOutputLayoutState( w.Vw( o.view ).id ).layout )
						violate( "C01", "reported-layout", "output", "the layout in which view%d goes is not the one declared", o.view );
				std::set< int > vs;
				for ( auto & p : g.passes ) for ( auto & u : p->uses ) for ( int v : u.views ) vs.insert( v );
				for ( int v : vs )
				{
					auto & vw = w.Vw( v );
					auto & i = w.I( vw.img );
					// each source of a merged view on its own
					auto & src = vw.id.data->source;
					for ( u32 k = 0; k < src.size(); ++k )
					{
						if ( !src[k].data->source.empty() ) continue;
						auto r = src[k].data->info.subresourceRange;
						auto l0 = dev->layout[i.real->loc( r.baseArrayLayer, r.baseMipLevel, 0 )];
						bool uniform = true;
						for ( u32 l = 0; l < r.layerCount; ++l )
							for ( u32 m = 0; m < r.levelCount; ++m )
								for ( u32 a = 0; a < i.mock.naspect; ++a )
									uniform = uniform && dev->layout[i.real->loc( r.baseArrayLayer + l, r.baseMipLevel + m, a )] == l0;
						if ( !uniform ) continue;
						auto got = g.fg->getFinalLayoutState( vw.id, k ).layout;
						if ( normLayout( got, aspectBit( i.fmt, 0 ) ) != normLayout( l0, aspectBit( i.fmt, 0 ) ) )
							violate( dev->injected ? "C07" : "C01", "final-layout", "merged", "after frame %u of %s, part %u of view%d is reported to be in layout %d and is in layout %d", g.frames, g.name.c_str(), k, v, int( got ), int( l0 ) );
						count( "merged_parts_compared" );
					}
					auto l0 = VK_IMAGE_LAYOUT_MAX_ENUM;
					bool uniform = true;
					for ( auto l : vw.locs )
					{
						auto have = dev->layout[i.real->locBase + ( l - i.mock.locBase )];
						if ( l0 == VK_IMAGE_LAYOUT_MAX_ENUM ) l0 = have;
						else if ( l0 != have ) uniform = false;
					}
					if ( !uniform ) continue;
					auto got = ( g.frames % 2 ? g.fg->getFinalLayoutState( vw.id ) : g.fg->getDefaultGroup().getFinalLayoutState( vw.id, 0u ) ).layout;
					trace( u64( got ) );
					if ( normLayout( got, aspectBit( i.fmt, 0 ) ) != normLayout( l0, aspectBit( i.fmt, 0 ) ) )
					{
						auto key = strf( "%s:%s", got == VK_IMAGE_LAYOUT_UNDEFINED ? "unknown" : "other", g.frames > 1 ? "later" : "first" );
						auto msg = strf( "after frame %u of %s, view%d is reported to be in layout %d and is in layout %d", g.frames, g.name.c_str(), v, int( got ), int( l0 ) );
						if ( dev->injected ) violate( "C07", "final-layout", key, "%s", msg.c_str() );
						violate( "C01", "final-layout", key, "%s", msg.c_str() );
					}
				}
			}

			// ------------------------------------------------------------- timers
			void noteTimes( WGraph & g )
			{
				if ( !propIs( "C11" ) ) return;
				auto & cmds = seen->cbs[0]->cmds;
				auto find = [&]( u64 from, bool back ) -> Cmd *
				{
					if ( back ) { for ( u64 i = std::min< u64 >( from, cmds.size() ); i-- > 0; ) if ( cmds[i].op == Op::WriteTS ) return &cmds[i]; }
					else for ( u64 i = from; i < cmds.size(); ++i ) if ( cmds[i].op == Op::WriteTS ) return &cmds[i];
					return nullptr;
				};
				for ( auto & p : g.passes )
				{
					auto & t = times[{ g.idx, p->idx }];
					t.fresh = false; t.sub = nullptr;
					if ( !p->enabled ) continue;
					Ev const * a{}; 
					for ( auto & e : w.evs ) if ( e.pass == p->idx && e.k == Ev::Pre ) { a = &e; break; }
					if ( !a ) continue;
					auto * b = find( a->pos, true ); auto * e = find( a->pos, false );
					if ( !b || !e || b->qp != e->qp ) { violate( "C11", "no-timestamps", "pass", "pass %s is recorded without its timestamps", p->name.c_str() ); continue; }
					t.qp = b->qp; t.q0 = b->a[0]; t.q1 = e->a[0]; t.sub = seen; t.fresh = true;
				}
				auto & t = times[{ g.idx, -1 }];
				auto * b = find( 0, false ); auto * e = find( cmds.size(), true );
				if ( b && e && b != e ) { t.qp = b->qp; t.q0 = b->a[0]; t.q1 = e->a[0]; t.sub = seen; t.fresh = true; }
			}
			void readTimer( WGraph & g, int pi, bool faults )
			{
				auto & t = times[{ g.idx, pi }];
				crg::FramePassTimer & tm = pi < 0 ? g.rg->getTimer() : g.passes[size_t( pi )]->rp->getTimer();
				// a query's value as the device returned it
				u64 v0{}, v1{};
				if ( t.sub && t.qp && t.qp->alive ) { v0 = t.qp->q[t.q0].value; v1 = t.qp->q[t.q1].value; }
				u64 inj = dev->injected;
				u64 t0 = vtime;
				{
					FaultGuard fg{ faults };
					tm.retrieveGpuTime();
				}
				for ( auto & [k, x] : times ) x.since += vtime - t0;
				bool failed = dev->injected != inj;
				if ( dev->lost ) { dead = true; return; }
				if ( !propIs( "C11" ) ) return;
				auto gpu = tm.getGpuTime().count();
				auto cpu = tm.getCpuTime().count();
				std::string name = pi < 0 ? g.name : g.passes[size_t( pi )]->name;
				count( "timers_read" );
				double want = t.sub ? double( v1 - v0 ) * double( dev->props.limits.timestampPeriod ) : 0.0;
				double tol = 2.0 + want * 1e-5;
				bool okv = t.sub && std::abs( double( gpu ) - want ) <= tol;
				if ( failed ) { if ( gpu != 0 ) violate( "C11", "gpu-time-failed", "gpu", "%s reports %lld ns of GPU time although its queries could not be read", name.c_str(), ( long long )gpu ); t.fresh = false; }
				else if ( !t.sub ) { if ( gpu != 0 ) violate( "C11", "gpu-time-not-run", "gpu", "%s, which did not run in the last frame, reports %lld ns of GPU time", name.c_str(), ( long long )gpu ); }
				else if ( t.fresh ) { if ( !okv ) violate( "C11", "gpu-time", pi < 0 ? "graph" : "pass", "%s reports %lld ns of GPU time, its timestamps are %.1f ns apart", name.c_str(), ( long long )gpu, want ); }
				else if ( gpu != 0 && !okv ) violate( "C11", "gpu-time", "again", "%s reports %lld ns of GPU time, its timestamps are %.1f ns apart", name.c_str(), ( long long )gpu, want );
				if ( !failed && t.sub ) t.fresh = false;
				if ( cpu < 0 ) violate( "C11", "cpu-time-negative", "cpu", "%s reports %lld ns of CPU time", name.c_str(), ( long long )cpu );
				else if ( u64( cpu ) + 1000 < t.cpuMin ) violate( "C11", "cpu-time", "low", "%s reports %lld ns of CPU time, at least %llu ns were spent", name.c_str(), ( long long )cpu, ( unsigned long long )t.cpuMin );
				else if ( u64( cpu ) > t.since + 1000 ) violate( "C11", "cpu-time", "high", "%s reports %lld ns of CPU time, at most %llu ns were spent", name.c_str(), ( long long )cpu, ( unsigned long long )t.since );
				if ( choose( 2, "reset-timer" ) ) { tm.reset(); t.cpuMin = 0; t.since = 0; if ( tm.getCpuTime().count() || tm.getGpuTime().count() ) violate( "C11", "reset", "reset", "timer of %s not zero after a reset", name.c_str() ); }
			}

			// ------------------------------------------------------------- deferred deletions
			void defer()
			{
				auto d = std::make_unique< Deferred >();
				d->id = u32( deferred.size() );
				for ( auto & s : dev->subs ) if ( s.lib && !s.known ) d->before.push_back( &s );
				auto * pd = d.get();
				deferred.push_back( std::move( d ) );
				w.ctx->delQueue.push( [this, pd]( crg::GraphContext & )
					{
						++pd->ran;
						count( "deferred_ran" );
						trace( 0xDE0000 + pd->id );
						if ( pd->ran > 1 ) violate( "C15", "deferred-twice", "deferred", "deferred deletion %u executed twice", pd->id );
						if ( pd->id != deferredNext ) violate( "C15", "deferred-order", "deferred", "deferred deletion %u executed before number %u", pd->id, deferredNext );
						deferredNext = pd->id + 1;
						for ( auto * s : pd->before )
							if ( !s->known )
							{
								violate( "C15", "deferred-early", "deferred", "deferred deletion %u executed while submission %u, made before it was given, may be running", pd->id, s->id );
								violate( "C04", "deferred-early", "deferred", "deferred deletion %u executed while submission %u, made before it was given, may be running", pd->id, s->id );
								break;
							}
					} );
				count( "deferred_pushed" );
			}

			// ------------------------------------------------------------- history
			void frame( u32 c, bool faults )
			{
				for ( int gi : comps[c] )
					if ( !runGraph( w.G( gi ), faults ) ) return;
			}
			WPass * anyPass( std::function< bool( WPass & ) > ok )
			{
				std::vector< WPass * > ps;
				for ( auto & g : w.graphs ) for ( auto & p : g->passes ) if ( ok( *p ) ) ps.push_back( p.get() );
				return ps.empty() ? nullptr : ps[choose( u32( ps.size() ), "pass" )];
			}
			void replace( bool faults )
			{
				auto * p = anyPass( [&]( WPass & x ) { return x.hasPipeline() && ( x.kind != PK::Compute || x.resettable ) && w.G( x.graph ).rg; } );
				if ( !p ) return;
				u32 ix = choose( p->maxIdx, "replaced-index" );
				w.newProgram( *p, ix );
				logf( "replace pipeline of %s at %u by program %u\n", p->name.c_str(), ix, p->prog[p->progMode == 0 ? 0 : ix]->id );
				count( "pipelines_replaced" );
				for ( u32 attempt = 0;; ++attempt )
				{
					w.evs.clear();
					w.evOn = true;
					Out o = guarded( "resetPipeline", faults && attempt < 3, true, [&]
						{
							auto st = w.stages( *p, ix );
							if ( p->kind == PK::Compute ) static_cast< crg::ComputePass * >( p->rp )->resetPipeline( st, ix );
							else if ( p->kind == PK::Quad ) static_cast< crg::RenderQuad * >( p->rp )->resetPipeline( st, ix );
							else static_cast< crg::RenderMesh * >( p->rp )->resetPipeline( st, ix );
						} );
					w.evOn = false;
					if ( o == Out::Failed ) checkPartialInits( w.G( p->graph ) ); else checkInits( w.G( p->graph ) );
					if ( o != Out::Failed ) return;
					if ( attempt > 6 ) { violate( "C07", "reset-fails", "resetPipeline", "replacing a pipeline keeps failing once faults stopped" ); finishAbort( "reset" ); }
				}
			}
			// the pass' own command buffer is recorded again, in the state its last recording started from
			void rerecord( bool faults )
			{
				auto * p = anyPass( [&]( WPass & x ) { return x.resettable && w.G( x.graph ).rg && x.rp; } );
				if ( !p ) return;
				bool reset = choose( 2, "with-reset" );
				u32 ix = choose( p->maxIdx, "reset-index" );
				count( "rerecordings" );
				for ( u32 attempt = 0;; ++attempt )
				{
					w.evs.clear();
					w.evOn = true;
					uint32_t got{};
					Out o = guarded( "reRecordCurrent", faults && attempt < 3, true, [&]
						{
							if ( reset ) p->rp->resetCommandBuffer( ix );
							got = p->rp->reRecordCurrent();
						} );
					w.evOn = false;
					if ( o == Out::Done )
					{
						checkInits( w.G( p->graph ) );
						uint32_t want = p->enabled ? p->index : crg::RunnablePass::InvalidIndex;
						if ( got != want ) violate( "C12", "rerecord-result", "index", "re-recording %s returned index %u instead of %u", p->name.c_str(), got, want );
						u32 recs = 0;
						for ( auto & e : w.evs )
						{
							if ( e.k == Ev::Init || e.k == Ev::Action ) continue;
							if ( e.pass != p->idx || e.graph != p->graph || !p->enabled || e.idx != p->index ) violate( "C12", "rerecord", "pass", "re-recording %s called back pass %d at index %u", p->name.c_str(), e.pass, e.idx );
							if ( e.k == Ev::Rec ) ++recs;
						}
						bool cb = p->kind == PK::Custom || p->kind == PK::RPass || p->hasPipeline();
						if ( cb && recs != u32( p->enabled ) ) violate( "C12", "rerecord", "times", "re-recording %s pass %s called its record function %u times", p->enabled ? "enabled" : "disabled", p->name.c_str(), recs );
						return;
					}
					checkPartialInits( w.G( p->graph ) );
					if ( o != Out::Failed ) return;
					if ( attempt > 6 ) { violate( "C07", "rerecord-fails", "reRecordCurrent", "re-recording a pass keeps failing once faults stopped" ); finishAbort( "rerecord" ); }
				}
			}
			// the same operations again and again do not pile up device objects
			void churn()
			{
				std::vector< WPass * > ps;
				for ( auto & g : w.graphs ) for ( auto & p : g->passes ) if ( p->rp && p->hasPipeline() && ( p->kind != PK::Compute || p->resettable ) ) ps.push_back( p.get() );
				u32 before = ~0u, first = 0, grew = 0;
				count( "churns" );
				for ( u32 k = 0; k < 8; ++k )
				{
					for ( auto * p : ps )
					{
						w.newProgram( *p, p->index );
						guarded( "resetPipeline", false, true, [&]
							{
								auto st = w.stages( *p, p->index );
								if ( p->kind == PK::Compute ) static_cast< crg::ComputePass * >( p->rp )->resetPipeline( st, p->index );
								else if ( p->kind == PK::Quad ) static_cast< crg::RenderQuad * >( p->rp )->resetPipeline( st, p->index );
								else static_cast< crg::RenderMesh * >( p->rp )->resetPipeline( st, p->index );
							} );
					}
					for ( u32 n = 0; n < 2; ++n )
					{
						for ( u32 c = 0; c < comps.size(); ++c ) frame( c, false );
						waitAll();
					}
					// one more or less may wait for its frame to complete
					u32 n = dev->liveLib();
					if ( k == 1 ) first = n;
					if ( k > 1 ) grew += n > before;
					before = n;
				}
				if ( grew == 6 )
				{
					violate( "C15", "garbage", "churn", "the same pipeline replacements and frames again and again keep making device objects: from %u to %u", first, before );
					violate( "C05", "garbage", "churn", "the same pipeline replacements and frames again and again keep making device objects: from %u to %u", first, before );
				}
			}
			void op( bool faults )
			{
				static struct { char const * k; u32 wgt; } const ops[]{ { "frame", 10 }, { "toggle", 5 }, { "index", 3 }, { "replace", 2 }, { "recompile", 1 }, { "idle", 1 }, { "fence", 1 }, { "timer", 1 }, { "defer", 1 }, { "sleep", 1 }, { "toggles", 2 }, { "rerecord", 1 }, { "grow", 3 } };
				u32 tot = 0;
				auto wgt = [&]( u32 i )
				{
					u32 x = ops[i].wgt;
					if ( !strcmp( ops[i].k, "grow" ) && ( w.graphs.back()->later.empty() || w.graphs.back()->grown ) ) x = 0;
					if ( propIs( "C11" ) && !strcmp( ops[i].k, "timer" ) ) x = 12;
					if ( propIs( "C11" ) && !strcmp( ops[i].k, "sleep" ) ) x = 4;
					if ( propIs( "C15" ) && !strcmp( ops[i].k, "replace" ) ) x = 8;
					if ( propIs( "C15" ) && !strcmp( ops[i].k, "defer" ) ) x = 5;
					if ( propIs( "C04" ) && !strcmp( ops[i].k, "replace" ) ) x = 4;
					if ( propIs( "C04" ) && !strcmp( ops[i].k, "defer" ) ) x = 2;
					return x;
				};
				for ( u32 i = 0; i < 13; ++i ) tot += wgt( i );
				u32 r = choose( tot, "operation" ), k = 0;
				while ( r >= wgt( k ) ) { r -= wgt( k ); ++k; }
				switch ( k )
				{
				case 0: frame( choose( u32( comps.size() ), "component" ), faults ); break;
				case 1: if ( auto * p = anyPass( []( WPass & x ) { return x.canToggle; } ) ) { p->enabled = !p->enabled; logf( "%s %s\n", p->enabled ? "enable" : "disable", p->name.c_str() ); } break;
				case 2: if ( auto * p = anyPass( []( WPass & x ) { return x.maxIdx > 1; } ) ) { p->index = ( p->index + 1 + ( p->maxIdx > 2 ? choose( p->maxIdx - 1, "index-step" ) : 0 ) ) % p->maxIdx; logf( "index of %s is %u\n", p->name.c_str(), p->index ); } break;
				case 3: replace( faults ); break;
				case 4: recompile( int( choose( u32( w.graphs.size() ), "recompiled" ) ), faults ); break;
				case 5: waitAll(); break;
				case 6:
				{
					auto & g = w.G( int( choose( u32( w.graphs.size() ), "waited" ) ) );
					if ( !g.rg ) break;
					u64 to = choose( 2, "timeout" ) ? 1000 : ~0ull;
					guarded( "wait", faults, false, [&] { g.rg->getFence().wait( to ); } );
					break;
				}
				case 7:
				{
					u32 n = propIs( "C11" ) ? 1 + choose( 6, "reads" ) : 1;
					for ( u32 i = 0; i < n && !dead; ++i )
					{
						auto & g = w.G( int( choose( u32( w.graphs.size() ), "timed" ) ) );
						if ( !g.rg ) break;
						readTimer( g, int( choose( u32( g.passes.size() ) + 1, "timer" ) ) - 1, faults );
					}
					break;
				}
				case 8: defer(); break;
				case 9:
				{
					static u64 const d[]{ 1000, 10000000, 1000000000, 100000000000 };
					step( d[choose( 4, "sleep" )] );
					if ( choose( 2, "jump" ) ) wallJump();
					break;
				}
				case 11: rerecord( faults ); break;
				case 12:
					grow();
					if ( choose( 4, "recompiled-at-once" ) ) recompile( int( w.graphs.size() ) - 1, faults );
					break;
				default: for ( auto & g : w.graphs ) for ( auto & p : g->passes ) if ( p->canToggle && choose( 2, "toggled" ) ) { p->enabled = !p->enabled; logf( "%s %s\n", p->enabled ? "enable" : "disable", p->name.c_str() ); } break;
				}
			}
		};
		Run * R{};
	}

	u32 World::newProgram( WPass & p, u32 index )
	{
		u32 slot = p.progMode == 0 ? 0 : index;
		u32 n = p.progMode == 0 ? 1 : p.maxIdx;
		p.prog.resize( n );
		p.shader.resize( n );
		auto pr = std::make_shared< Prog >();
		pr->id = nextProg++;
		pr->compute = p.kind == PK::Compute;
		pr->usesVertex = p.kind != PK::Compute;
		for ( auto & u : p.uses )
			switch ( u.k )
			{
			case UK::Sampled: pr->binds.push_back( { u.binding, VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER, true, false } ); break;
			case UK::StoIn: pr->binds.push_back( { u.binding, VK_DESCRIPTOR_TYPE_STORAGE_IMAGE, true, false } ); break;
			case UK::StoOut: pr->binds.push_back( { u.binding, VK_DESCRIPTOR_TYPE_STORAGE_IMAGE, false, true } ); break;
			case UK::StoClr: pr->binds.push_back( { u.binding, VK_DESCRIPTOR_TYPE_STORAGE_IMAGE, true, true, true } ); break;
			case UK::StoInOut: pr->binds.push_back( { u.binding, VK_DESCRIPTOR_TYPE_STORAGE_IMAGE, true, true } ); break;
			default: break;
			}
		for ( auto & u : p.bufs )
			switch ( u.k )
			{
			case BK::Uniform: pr->binds.push_back( { u.binding, u.texel ? VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER, true, false } ); break;
			case BK::StoIn: pr->binds.push_back( { u.binding, u.texel ? VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER, true, false } ); break;
			case BK::StoOut: pr->binds.push_back( { u.binding, u.texel ? VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER, false, true } ); break;
			case BK::StoClr: pr->binds.push_back( { u.binding, u.texel ? VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER, true, true, true } ); break;
			case BK::StoInOut: pr->binds.push_back( { u.binding, u.texel ? VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER, true, true } ); break;
			default: break;
			}
		for ( u32 i = 0; i < p.ownSets; ++i ) pr->sets.push_back( ownLayouts[i] );
		pr->push = p.push;
		p.prog[slot] = pr;
		p.shader[slot] = userCreateShader( pr );
		R->shaders.push_back( p.shader[slot] );
		R->progs[pr->id] = { p.graph, p.idx, slot };
		return pr->id;
	}
	crg::VkPipelineShaderStageCreateInfoArray World::stages( WPass const & p, u32 index )
	{
		auto sh_ = p.shader[p.progMode == 0 ? 0 : index];
		auto st = [&]( VkShaderStageFlagBits b ) { return VkPipelineShaderStageCreateInfo{ VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO, nullptr, 0, b, sh_, "main", nullptr }; };
		if ( p.kind == PK::Compute ) return { st( VK_SHADER_STAGE_COMPUTE_BIT ) };
		return { st( VK_SHADER_STAGE_VERTEX_BIT ), st( VK_SHADER_STAGE_FRAGMENT_BIT ) };
	}

	// commands of the application on an image which the library never saw: it says in which layout it is
	void World::writeForeign( WPass & p, crg::RecordContext & rc, VkCommandBuffer cb )
	{
		auto & i = I( p.foreign );
		if ( !i.real ) return;
		auto r = p.foreignPart;
		bool force = p.foreignHow & 4;
		auto barrier = [&]( bool back )
		{
			auto x = r;
			bool all = back && ( p.foreignHow & 8 );
			if ( all ) x = { r.aspectMask, 0, i.mips, 0, i.layers };
			crg::LayoutState st{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } };
			if ( back ) st = { i.extLayout, i.extState };
			if ( ( p.foreignHow & 1 ) && !all ) rc.memoryBarrier( cb, Vw( p.foreignView ).id, i.extLayout, st, force );
			else if ( p.foreignHow & 2 ) rc.memoryBarrier( cb, i.id, i.viewType( x.layerCount ), x, i.extLayout, st, force );
			else rc.memoryBarrier( cb, i.id, x, i.extLayout, st, force );
		};
		barrier( false );
		auto h = reinterpret_cast< VkImage >( i.real->h );
		if ( r.aspectMask == VK_IMAGE_ASPECT_COLOR_BIT ) rc->vkCmdClearColorImage( cb, h, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &p.foreignClear.color, 1, &r );
		else rc->vkCmdClearDepthStencilImage( cb, h, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, &p.foreignClear.depthStencil, 1, &r );
		barrier( true );
		count( "foreign_writes" );
	}

	crg::RunnablePassPtr World::makeRunnable( WGraph & g, WPass & p, crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg )
	{
		using RP = crg::RunnablePass;
		auto * rgp = &rg;
		auto * run = R;
		crg::ru::Config ru;
		ru.maxPassCount = p.maxIdx;
		ru.resettable = p.resettable;
		for ( u32 i = 0; i < p.nPre; ++i ) ru.prePassAction( [this, run, rgp, &p, i]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t ix ) { if ( !i && p.foreign >= 0 && p.foreignAt == 0 ) writeForeign( p, rc, cb ); run->ev( Ev::Pre, p, ix, i, cb ); run->probe( rc, *rgp, p, ix, cb ); } );
		for ( u32 i = 0; i < p.nPost; ++i ) ru.postPassAction( [this, run, rgp, &p, i]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t ix ) { run->ev( Ev::Post, p, ix, i, cb ); if ( !i && p.foreign >= 0 && p.foreignAt == 2 ) writeForeign( p, rc, cb ); if ( p.kind == PK::Copy && p.finalLayout ) for ( auto & u : p.uses ) if ( u.k == UK::TrOut ) run->leftIn( rc, u.view( ix ), p.finalLayout, "the copy", p ); if ( p.kind == PK::Mips && p.finalLayout ) run->leftIn( rc, p.uses[0].view( ix ), p.finalLayout, "the mipmaps", p ); run->probe( rc, *rgp, p, ix, cb ); } );
		for ( auto & a : p.acts )
		{
			crg::RecordContext::ImplicitAction act;
			auto dst = Vw( a.view ).id;
			switch ( a.k )
			{
			case Act::Copy: act = crg::RecordContext::copyImage( Vw( a.src ).id, dst, a.extent, a.finalLayout ); break;
			case Act::Blit: act = crg::RecordContext::blitImage( Vw( a.src ).id, dst, a.so, a.se, a.doff, a.de, a.filter, a.finalLayout ); break;
			default:
				if ( a.attach )
				{
					for ( auto & at : fp.images ) if ( !act && at.view() == dst ) act = crg::RecordContext::clearAttachment( at, a.finalLayout );
					if ( act ) break;
				}
				act = crg::RecordContext::clearAttachment( dst, a.clear, a.finalLayout );
				break;
			}
			int view = a.view;
			auto want = a.finalLayout;
			ru.implicitAction( dst, [run, &p, view, act, want]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t ix )
				{
					run->ev( Ev::Action, p, u32( view ), ix, cb );
					act( rc, cb, ix );
					if ( want ) run->leftIn( rc, view, want, "the fallback", p );
				} );
		}
		RP::GetPassIndexCallback index( [&p]() { return p.index; } );
		RP::IsEnabledCallback enabled( [&p]() { return p.enabled; } );
		if ( p.hasPipeline() && p.prog.empty() )
			for ( u32 i = 0; i < ( p.progMode == 0 ? 1u : p.maxIdx ); ++i ) newProgram( p, i );
		auto program = [&]( auto & cfg_ )
		{
			std::vector< VkDescriptorSetLayout > sets;
			for ( u32 i = 0; i < p.ownSets; ++i ) sets.push_back( VkDescriptorSetLayout( ownLayouts[i] ) );
			if ( !p.push.empty() )
			{
				crg::pp::Config pc;
				if ( p.push.size() == 1 ) pc.pushConstants( p.push[0] );
				else pc.pushConstants( p.push );
				cfg_.baseConfig( std::move( pc ) );
			}
			if ( p.ownSets == 1 ) cfg_.layout( sets[0] );
			else if ( p.ownSets ) cfg_.layouts( sets );
			if ( p.progMode == 0 ) cfg_.program( stages( p, 0 ) );
			else if ( p.progMode == 1 )
			{
				std::vector< crg::VkPipelineShaderStageCreateInfoArray > v;
				for ( u32 i = 0; i < p.maxIdx; ++i ) v.push_back( stages( p, i ) );
				cfg_.programs( std::move( v ) );
			}
			else cfg_.programCreator( crg::ProgramCreator{ p.maxIdx, [this, &p]( u32 i ) { return stages( p, i ); } } );
		};
		auto rec = [run, rgp, &p]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t ix ) { run->ev( Ev::Rec, p, ix, 0, cb ); if ( p.kind == PK::Compute ) run->probe( rc, *rgp, p, ix, cb ); };
		auto end = [run, &p]( crg::RecordContext &, VkCommandBuffer cb, uint32_t ix ) { run->ev( Ev::End, p, ix, 0, cb ); };
		auto init = [run, &p]( uint32_t ix ) { run->ev( Ev::Init, p, ix, 0, {} ); };
		crg::RunnablePassPtr r;
		if ( p.kind == PK::Copy || p.kind == PK::BufToImg || p.kind == PK::ImgToBuf )
		{
			// who copies a level asks for its extent
			auto & v = Vw( p.uses[0].views[0] );
			auto e = mipExtent( &I( v.img ).mock, v.r.baseMipLevel );
			if ( v.id.data && v.id.data->info.subresourceRange.baseMipLevel == v.r.baseMipLevel && e.width == p.copySize.width && e.height == p.copySize.height && e.depth == p.copySize.depth ) p.copySize = crg::getMipExtent( v.id );
		}
		switch ( p.kind )
		{
		case PK::Compute:
		{
			crg::cp::Config k;
			program( k );
			if ( p.groupMode[0] == 2 ) k.getGroupCountX( crg::cp::GetGroupCountCallback( [&p]() { return p.groups[0]; } ) );
			else if ( p.groupMode[0] ) k.groupCountX( p.groups[0] );
			if ( p.groupMode[1] == 2 ) k.getGroupCountY( crg::cp::GetGroupCountCallback( [&p]() { return p.groups[1]; } ) );
			else if ( p.groupMode[1] ) k.groupCountY( p.groups[1] );
			if ( p.groupMode[2] == 2 ) k.getGroupCountZ( crg::cp::GetGroupCountCallback( [&p]() { return p.groups[2]; } ) );
			else if ( p.groupMode[2] ) k.groupCountZ( p.groups[2] );
			if ( p.indirect >= 0 ) k.indirectBuffer( crg::IndirectBuffer( crg::Buffer( drawBuffers( p, indirectBuf, 2 ), "indirect" ), 12, p.indOff ) );
			if ( p.canToggle || p.enableMode ) { if ( p.enableMode ) k.enabled( &p.enabled ); else k.isEnabled( enabled ); }
			if ( !p.defaultCallbacks ) k.getPassIndex( index );
			k.recordInto( rec ).end( end ).initialise( init );
			r = std::make_unique< crg::ComputePass >( fp, c, rg, ru, k );
			break;
		}
		case PK::Quad:
		{
			crg::rq::Config k;
			program( k );
			if ( p.texcoord ) k.texcoordConfig( crg::Texcoord{ p.invU, p.invV } );
			if ( p.sized ) k.renderSize( p.size );
			if ( p.pos.x || p.pos.y ) k.renderPosition( p.pos );
			k.depthStencilState( dsState( p ) );
			if ( !p.defaultCallbacks ) k.passIndex( &p.index );
			if ( p.canToggle || p.enableMode ) { if ( p.enableMode ) k.enabled( &p.enabled ); else k.isEnabled( enabled ); }
			k.recordInto( rec ).end( end );
			k.instances( p.instances );
			if ( p.indirect >= 0 ) k.indirectBuffer( crg::IndirectBuffer( crg::Buffer( drawBuffers( p, indirectBuf, 2 ), "indirect" ), p.indStride, p.indOff ) );
			r = std::make_unique< crg::RenderQuad >( fp, c, rg, ru, k );
			break;
		}
		case PK::Mesh:
		{
			crg::rm::Config k;
			program( k );
			if ( p.sized ) k.renderSize( p.size );
			if ( p.pos.x || p.pos.y ) k.renderPosition( p.pos );
			k.depthStencilState( dsState( p ) );
			if ( !p.defaultCallbacks ) k.getPassIndex( index ).isEnabled( enabled );
			k.recordInto( rec ).end( end );
			auto vi = vertexIn( p );
			k.vertexBuffer( crg::VertexBuffer( crg::Buffer( drawBuffers( p, vertexBuf, 0 ), "vertices" ), VkDeviceMemory{}, vi.a, vi.b ) );
			if ( p.indexed ) k.indexBuffer( crg::IndexBuffer( crg::Buffer( drawBuffers( p, indexBuf, 1 ), "indices" ) ) );
			if ( p.indirect >= 0 ) k.indirectBuffer( crg::IndirectBuffer( crg::Buffer( drawBuffers( p, indirectBuf, 2 ), "indirect" ), p.indStride, p.indOff ) );
			if ( p.indexType ) k.getIndexType( crg::GetIndexTypeCallback( [&p]() { return p.indexType == 2 ? VK_INDEX_TYPE_UINT16 : VK_INDEX_TYPE_UINT32; } ) );
			k.getPrimitiveCount( crg::GetPrimitiveCountCallback( [&p]() { return p.primCount; } ) );
			k.getVertexCount( crg::GetVertexCountCallback( [&p]() { return p.primCount; } ) );
			k.getCullMode( crg::GetCullModeCallback( [&p]() { return p.cull; } ) );
			r = std::make_unique< crg::RenderMesh >( fp, c, rg, ru, std::move( k ) );
			break;
		}
		case PK::RPass:
		{
			// what the application makes for a render pass is made when it is told of it
			auto made = std::make_shared< std::pair< crg::RenderPass *, std::map< u32, VkRenderPass > > >();
			auto rpInit = [init, made]( uint32_t ix ) { init( ix ); made->second[ix] = made->first->getRenderPass( ix ); };
			auto rpRec = [rec, made, &p]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t ix )
			{
				if ( made->second[ix] != made->first->getRenderPass( ix ) )
					for ( auto prop : { "C12", "C07" } )
						if ( propIs( "C12" ) || dev->injected )
							violate( prop, "not-initialised", "RenderPass", "pass %s is recorded at index %u in a render pass for which it was not initialised", p.name.c_str(), ix );
				rec( rc, cb, ix );
			};
			crg::RenderPass::GetSubpassContentsCallback contents( []() { return VK_SUBPASS_CONTENTS_INLINE; } );
			crg::RenderPass::Callbacks cb( rpInit, rpRec, contents, index, enabled );
			if ( !p.canToggle && p.callbackArgs == 0 ) cb = crg::RenderPass::Callbacks( rpInit, rpRec, contents, index );
			else if ( p.defaultCallbacks ) cb = p.callbackArgs == 1 ? crg::RenderPass::Callbacks( rpInit, rpRec, contents ) : crg::RenderPass::Callbacks( rpInit, rpRec );
			r = std::make_unique< crg::RenderPass >( fp, c, rg, cb, p.sized ? p.size : VkExtent2D{}, ru );
			made->first = static_cast< crg::RenderPass * >( r.get() );
			break;
		}
		case PK::Copy:
			if ( p.defaultCallbacks ) r = p.finalLayout ? std::make_unique< crg::ImageCopy >( fp, c, rg, p.copySize, p.finalLayout, ru ) : std::make_unique< crg::ImageCopy >( fp, c, rg, p.copySize, ru );
			else if ( p.finalLayout ) r = std::make_unique< crg::ImageCopy >( fp, c, rg, p.copySize, p.finalLayout, ru, index, enabled );
			else r = std::make_unique< crg::ImageCopy >( fp, c, rg, p.copySize, ru, index, enabled );
			break;
		case PK::Blit: r = p.defaultCallbacks ? std::make_unique< crg::ImageBlit >( fp, c, rg, p.so, p.se, p.doff, p.de, p.filter, ru ) : std::make_unique< crg::ImageBlit >( fp, c, rg, p.so, p.se, p.doff, p.de, p.filter, ru, index, enabled ); break;
		case PK::BufCopy: r = p.defaultCallbacks ? std::make_unique< crg::BufferCopy >( fp, c, rg, p.bcOff, p.bcRange, ru ) : std::make_unique< crg::BufferCopy >( fp, c, rg, p.bcOff, p.bcRange, ru, index, enabled ); break;
		case PK::BufToImg: r = p.defaultCallbacks ? std::make_unique< crg::BufferToImageCopy >( fp, c, rg, p.so, p.copySize, ru ) : std::make_unique< crg::BufferToImageCopy >( fp, c, rg, p.so, p.copySize, ru, index, enabled ); break;
		case PK::ImgToBuf: r = p.defaultCallbacks ? std::make_unique< crg::ImageToBufferCopy >( fp, c, rg, p.so, p.copySize, ru ) : std::make_unique< crg::ImageToBufferCopy >( fp, c, rg, p.so, p.copySize, ru, index, enabled ); break;
		case PK::Mips: r = p.defaultCallbacks ? std::make_unique< crg::GenerateMipmaps >( fp, c, rg, p.finalLayout, ru ) : std::make_unique< crg::GenerateMipmaps >( fp, c, rg, p.finalLayout, ru, index, enabled ); break;
		default:
		{
			auto record = [this, run, &p, rgp]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t ix )
			{
				run->ev( Ev::Rec, p, ix, 0, cb );
				if ( p.foreign >= 0 && p.foreignAt == 1 ) writeForeign( p, rc, cb );
				auto barrier = [&]( Use const & u, bool back )
				{
					auto & v = Vw( u.view( ix ) );
					bool in = u.k == UK::TrIn;
					crg::LayoutState st{ back ? in ? VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : VK_IMAGE_LAYOUT_GENERAL
						, { VkAccessFlags( in ? VK_ACCESS_TRANSFER_READ_BIT : VK_ACCESS_TRANSFER_WRITE_BIT ), VK_PIPELINE_STAGE_TRANSFER_BIT } };
					bool force = u.own & 8;
					if ( !( u.own & 4 ) ) rc.memoryBarrier( cb, v.id, st, force );
					else if ( back ) rc.memoryBarrier( cb, I( v.img ).id, v.r, st, force );
					else rc.memoryBarrier( cb, I( v.img ).id, I( v.img ).viewType( 2 ), v.r, VK_IMAGE_LAYOUT_UNDEFINED, st, force );
					count( "own_barriers" );
				};
				// an in/out transfer comes ready to be written
				auto inout = [&]( Use const & u, bool back )
				{
					auto & v = Vw( u.view( ix ) );
					crg::LayoutState st{ u.own & 1 ? VK_IMAGE_LAYOUT_GENERAL : back ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
						, { VkAccessFlags( back ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT ), VK_PIPELINE_STAGE_TRANSFER_BIT } };
					bool force = u.own & 8;
					if ( u.own & 4 ) rc.memoryBarrier( cb, I( v.img ).id, v.r, VK_IMAGE_LAYOUT_UNDEFINED, st, force );
					else rc.memoryBarrier( cb, v.id, VK_IMAGE_LAYOUT_UNDEFINED, st, force );
					count( "own_barriers" );
				};
				for ( auto & u : p.uses ) if ( u.k == UK::TrInOut ) inout( u, false );
				for ( auto & u : p.uses ) if ( u.own && u.k != UK::TrInOut ) barrier( u, false );
				auto lay = [&]( Use const & u, VkImageLayout l ) { return u.k == UK::TrInOut ? u.own & 1 ? VK_IMAGE_LAYOUT_GENERAL : l : u.own ? VK_IMAGE_LAYOUT_GENERAL : l; };
				for ( auto & u : p.uses )
				{
					if ( u.k != UK::TrOut ) continue;
					auto dl = lay( u, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
					auto & v = Vw( u.view( ix ) );
					auto img = rgp->createImage( I( v.img ).id );
					if ( auto * s = customCopySrc( p, u ) )
					{
						auto & sv = Vw( s->view( ix ) );
						auto e = mipExtent( &I( v.img ).mock, v.r.baseMipLevel );
						VkImageCopy k{ { sv.r.aspectMask, sv.r.baseMipLevel, sv.r.baseArrayLayer, sv.r.layerCount }, {}, { v.r.aspectMask, v.r.baseMipLevel, v.r.baseArrayLayer, v.r.layerCount }, {}, e };
						rc->vkCmdCopyImage( cb, rgp->createImage( I( sv.img ).id ), lay( *s, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ), img, dl, 1, &k );
					}
					else if ( aspectMaskOf( I( v.img ).fmt ) == VK_IMAGE_ASPECT_COLOR_BIT )
						rc->vkCmdClearColorImage( cb, img, dl, &u.clear.color, 1, &v.r );
					else
						rc->vkCmdClearDepthStencilImage( cb, img, dl, &u.clear.depthStencil, 1, &v.r );
				}
				for ( auto & u : p.bufs )
				{
					if ( u.k != BK::TrOut ) continue;
					if ( auto * s = customBufSrc( p, u ) )
					{
						VkBufferCopy k{ s->off, u.off, std::min( s->range, u.range ) };
						rc->vkCmdCopyBuffer( cb, B( s->buf( ix ) ).vk, B( u.buf( ix ) ).vk, 1, &k );
					}
					else rc->vkCmdFillBuffer( cb, B( u.buf( ix ) ).vk, u.partOff, u.partRange, u.value );
				}
				for ( auto & u : p.uses )
				{
					if ( u.k != UK::TrInOut ) continue;
					inout( u, true );
					auto & v = Vw( u.view( ix ) );
					auto part = u.part;
					part.baseMipLevel += v.r.baseMipLevel; part.baseArrayLayer += v.r.baseArrayLayer;
					auto dl = lay( u, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL );
					auto img = rgp->createImage( I( v.img ).id );
					if ( aspectMaskOf( I( v.img ).fmt ) == VK_IMAGE_ASPECT_COLOR_BIT ) rc->vkCmdClearColorImage( cb, img, dl, &u.clear.color, 1, &part );
					else rc->vkCmdClearDepthStencilImage( cb, img, dl, &u.clear.depthStencil, 1, &part );
					count( "inout_transfers" );
				}
				for ( auto & u : p.bufs )
				{
					if ( u.k != BK::TrInOut ) continue;
					bool read = false;
					for ( auto & o : p.bufs ) if ( o.k == BK::TrOut && customBufSrc( p, o ) == &u ) read = true;
					if ( read || ( u.own & 1 ) )
					{
						crg::AccessState st{ VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT };
						crg::BufferSubresourceRange range{ u.off, u.range };
						if ( u.own & 2 ) rc.memoryBarrier( cb, B( u.buf( ix ) ).vk, range, VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT, st, u.own & 4 );
						else rc.memoryBarrier( cb, B( u.buf( ix ) ).vk, range, st, u.own & 4 );
						count( "own_barriers" );
					}
					rc->vkCmdFillBuffer( cb, B( u.buf( ix ) ).vk, u.partOff, u.partRange, u.value );
					count( "inout_transfers" );
				}
				for ( auto & u : p.uses ) if ( u.k != UK::TrInOut && ( u.own & 3 ) == 2 ) barrier( u, true );
				for ( auto & u : p.uses )
					if ( u.toNext && p.rp )
					{
						auto & v = Vw( u.view( ix ) );
						if ( !v.id.data->source.empty() ) continue;
						auto st = rgp->getNextLayoutState( rc, *p.rp, v.id );
						if ( st.layout == VK_IMAGE_LAYOUT_UNDEFINED ) continue;
						rc.memoryBarrier( cb, v.id, st );
						count( "left_for_the_next" );
					}
				run->probe( rc, *rgp, p, ix, cb );
			};
			RP::GetPipelineStateCallback state( []() { return crg::getPipelineState( VK_PIPELINE_STAGE_TRANSFER_BIT ); } );
			RP::Callbacks cb{ init, state, record, index, enabled, RP::IsComputePassCallback( []() { return false; } ) };
			if ( p.callbackArgs == 0 ) cb = RP::Callbacks{ init, state, record, index, enabled };
			else if ( !p.canToggle && p.callbackArgs == 1 ) cb = RP::Callbacks{ init, state, record, index };
			else if ( p.defaultCallbacks ) cb = RP::Callbacks{ init, state, record };
			r = std::make_unique< RP >( fp, c, rg, cb, ru );
			break;
		}
		}
		p.rp = r.get();
		return r;
	}

	void World::run()
	{
		Run r{ *this };
		R = &r;
		dev->separateDS = choose( 2, "separate-ds" );
		dev->gpuMode = choose( 4, "gpu-mode" );
		setupDevice();
		bool c11 = propIs( "C11" );
		if ( c11 )
		{
			static float const ps[]{ 1.0f, 10.0f, 52.08f, 0.5f };
			float period = ps[choose( 4, "period" )];
			dev->wallJumps = choose( 2, "wall-jumps" );
			onWallClock = []() { if ( dev && dev->wallJumps && choose( 6, "clock-set" ) == 5 ) wallJump(); };
			if ( choose( 2, "other-device-first" ) )
			{
				// the process used another device before
				dev->props.limits.timestampPeriod = ps[choose( 4, "other-period" )];
				auto aux = makeContext();
				crg::FramePassTimer t{ *aux, "aux", crg::TimerScope::eUpdate };
				t.retrieveGpuTime();
			}
			dev->props.limits.timestampPeriod = period;
		}
		bool faulty = propIs( "C04" ) || propIs( "C05" ) || propIs( "C06" ) || propIs( "C07" ) || propIs( "C08" ) || propIs( "C12" ) || propIs( "C15" ) || propIs( "C16" );
		dev->reorder = propIs( "C03" ) || ( propIs( "C07" ) && chance( 1, 2, "gpu-orders" ) );
		handler = std::make_unique< crg::ResourceHandler >();
		ctx = makeContext();
		nqueues = 1 + ( choose( 3, "queues" ) == 2 );
		for ( u32 i = 0; i < nqueues; ++i ) queues[i] = userCreateQueue();
		{
			UserScope us;
			for ( u32 i = 0; i < 2; ++i )
			{
				VkDescriptorSetLayoutBinding b{ i, VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER, 1, VK_SHADER_STAGE_ALL, nullptr };
				VkDescriptorSetLayoutCreateInfo ci{ VK_STRUCTURE_TYPE_DESCRIPTOR_SET_LAYOUT_CREATE_INFO, nullptr, 0, 1, &b };
				VkDescriptorSetLayout l{};
				ctx->vkCreateDescriptorSetLayout( ctx->device, &ci, nullptr, &l );
				ownLayouts.push_back( u64( l ) );
			}
		}
		hooks.onSubmit = [&r]( Submission * s ) { r.onSubmit( s ); };
		hooks.onDestroyPipeline = [&r]( Pipeline * p )
		{
			if ( p->inflight ) violate( "C15", "destroyed-in-use", "Pipeline", "%s is destroyed while a submitted frame may use it", objStr( p ).c_str() );
		};
		generate();
		for ( auto & g : graphs ) { r.times[{ g->idx, -1 }]; for ( auto & p : g->passes ) r.times[{ g->idx, p->idx }]; for ( auto & p : g->later ) r.times[{ g->idx, p->idx }]; }
		for ( auto & g : graphs )
			for ( auto * ps : { &g->passes, &g->later } )
			for ( auto & p : *ps )
			{
				if ( propIs( "C15" ) && p->kind == PK::Compute ) p->resettable = true;
				if ( ( propIs( "C12" ) || propIs( "C13" ) || c11 ) && !p->nPre ) p->nPre = 1;
				if ( propIs( "C12" ) && !p->nPost ) p->nPost = 1;
				p->enabled = !p->canToggle || choose( 4, "starts-disabled" ) != 3;
				p->index = p->maxIdx > 1 ? choose( p->maxIdx, "start-index" ) : 0;
			}
		// components
		r.comp.assign( graphs.size(), -1 );
		for ( auto & g : graphs )
			if ( r.comp[size_t( g->idx )] < 0 )
			{
				int id = int( r.comps.size() );
				std::vector< int > c{ g->idx };
				r.comp[size_t( g->idx )] = id;
				for ( size_t i = 0; i < c.size(); ++i )
				{
					auto & x = G( c[i] );
					for ( auto * l : { &x.deps, &x.dependents } )
						for ( int d : *l ) if ( r.comp[size_t( d )] < 0 ) { r.comp[size_t( d )] = id; c.push_back( d ); }
				}
				std::sort( c.begin(), c.end() );
				r.comps.push_back( c );
			}
		if ( faulty ) chooseFaultPlan( propIs( "C06" ) ? 6 : 5 );
		bool faults = faulty;
		for ( auto & g : graphs )
			if ( !r.dead && !r.compile( *g, faults ) ) r.dead = true;
		for ( u32 i = 0; !r.dead && more( i, 1, 20, "operations" ); ++i )
		{
			if ( propIs( "C07" ) && faults && chance( 1, 10, "faults-stop" ) ) faults = false;
			for ( auto & s : dev->subs ) if ( !s.known ) { count( "operations_in_flight" ); break; }
			r.op( faults );
		}
		if ( !r.dead )
		{
			// once faults stop, everything works
			for ( u32 c = 0; c < r.comps.size() && !r.dead; ++c ) r.frame( c, false );
			if ( choose( 2, "frame-again" ) ) for ( u32 c = 0; c < r.comps.size() && !r.dead; ++c ) r.frame( c, false );
		}
		if ( !r.dead && ( propIs( "C05" ) || propIs( "C15" ) ) && choose( 8, "churn" ) == 7 ) r.churn();
		if ( !r.frames && !r.dead ) harnessError( "no frame" );
		waitAll();
		for ( size_t i = graphs.size(); i-- > 0; ) r.dropRunnable( G( int( i ) ) );
		graphs.clear();
		switch ( choose( 2, "handler-first" ) )
		{
		case 1: ctx.reset(); handler.reset(); break;
		default: handler.reset(); ctx.reset(); break;
		}
		dev->destroyedContext = true;
		for ( auto & d : r.deferred )
			if ( d->ran != 1 ) violate( "C15", "deferred-lost", "deferred", "deferred deletion %u executed %u times by the destruction of its context", d->id, d->ran );
		leakCheck();
		bool nt = counted( "frames" ) >= 2;
		if ( propIs( "C04" ) ) nt = counted( "operations_in_flight" ) > 0;
		if ( propIs( "C05" ) || propIs( "C06" ) || propIs( "C07" ) ) nt = dev->injected > 0;
		if ( propIs( "C11" ) ) nt = counted( "timers_read" ) > 0;
		if ( propIs( "C13" ) ) nt = counted( "frames_with_fallbacks" ) > 0;
		if ( propIs( "C15" ) ) nt = counted( "pipelines_replaced" ) + counted( "deferred_pushed" ) > 0;
		if ( nt ) count( "nontrivial" );
		for ( auto h : r.shaders ) userDestroy( T::Shader, u64( h ) );
		for ( auto h : ownLayouts ) userDestroy( T::DSLayout, h );
		hooks = {};
		R = nullptr;
	}
}

namespace sim
{
	void scenWorld()
	{
		setStepLimit( 400000 );
		w::World world;
		world.run();
	}
}
