// C17: fences.
#include "scen.hpp"
#include "ctx.hpp"
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/Exception.hpp>

namespace sim
{
	namespace
	{
		struct F
		{
			std::unique_ptr< crg::Fence > f;
			enum St { Signaled, Unsignaled, Pending } st{};
			Submission * sub{};
		};
	}

	void scenFence()
	{
		setupDevice();
		dev->gpuMode = choose( 4, "gpu-mode" );
		auto ctx = makeContext();
		VkQueue queues[2]{ userCreateQueue(), userCreateQueue() };
		chooseFaultPlan( 4 );
		std::vector< F > fs;
		u32 n = chooseRange( 4, 40, "ops" );
		u32 waits = 0, submits = 0;

		auto doneAt = [&]( F const & f ) { return f.st == F::Pending ? f.sub->end : 0ull; };
		auto wait = [&]( F & f, u64 timeout )
		{
			u64 t0 = vtime, end = doneAt( f );
			bool wasPending = f.st == F::Pending;
			VkResult r;
			u64 inj;
			{ FaultGuard g( true ); r = f.f->wait( timeout ); inj = g.injected(); }
			++waits;
			count( "fence_waits" );
			trace( mix2( 0x3A17, u64( r ) ) );
			logf( "  wait %llu -> %d\n", ( unsigned long long )timeout, int( r ) );
			if ( inj )
			{
				if ( r != dev->lastFaultRes ) violate( "C17", "error-not-reported", "wait", "a wait on which the device failed with %d returns %d", int( dev->lastFaultRes ), int( r ) );
				return;
			}
			if ( r == VK_SUCCESS )
			{
				if ( f.st == F::Unsignaled ) violate( "C17", "false-success", "unsubmitted", "a wait on a reset fence without submission succeeds" );
				if ( wasPending && vtime < end ) violate( "C17", "false-success", "pending", "a wait succeeds %llu ns before the work completes", ( unsigned long long )( end - vtime ) );
				f.st = F::Signaled;
			}
			else if ( r == VK_TIMEOUT )
			{
				if ( f.st == F::Signaled ) violate( "C17", "false-timeout", "signalled", "a wait on a signalled fence times out" );
				if ( timeout == ~0ull ) violate( "C17", "false-timeout", "infinite", "a wait without limit times out" );
				if ( vtime - t0 < timeout ) violate( "C17", "false-timeout", "early", "a wait of %llu ns times out after %llu ns", ( unsigned long long )timeout, ( unsigned long long )( vtime - t0 ) );
				if ( wasPending && end <= t0 + timeout ) violate( "C17", "false-timeout", "completed", "a wait times out although the work completed within the time" );
			}
			else violate( "C17", "spurious-error", "wait", "a wait returns %d without a device error", int( r ) );
		};

		for ( u32 i = 0; i < n; ++i )
		{
			u32 k = choose( 8, "fence-op" );
			trace( mix2( 0xFE, k ) );
			if ( fs.empty() ) k = 0;
			u32 at = fs.empty() ? 0 : choose( u32( fs.size() ), "fence" );
			switch ( k )
			{
			case 0:
			{
				if ( fs.size() >= 3 ) break;
				bool sig = !choose( 3, "unsignalled" );
				F f;
				FaultGuard g( true );
				bool threw = false;
				try
				{
					f.f = std::make_unique< crg::Fence >( *ctx, "fence", VkFenceCreateInfo{ VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, sig ? VkFenceCreateFlags( VK_FENCE_CREATE_SIGNALED_BIT ) : 0u } );
				}
				catch ( crg::Exception & ) { threw = true; }
				if ( threw != ( g.injected() > 0 ) ) violate( "C17", threw ? "spurious-error" : "error-not-reported", "create", "fence creation %s", threw ? "throws without a device error" : "does not report a device error" );
				if ( threw ) break;
				f.st = sig ? F::Signaled : F::Unsignaled;
				logf( "  create fence %s\n", sig ? "signalled" : "unsignalled" );
				fs.push_back( std::move( f ) );
				break;
			}
			case 1: case 2:
			{
				auto & f = fs[at];
				// the application resets before each submission, and submits after each reset
				if ( f.st != F::Unsignaled )
				{
					bool wasPending = f.st == F::Pending;
					u64 end = doneAt( f );
					FaultGuard g( true );
					bool threw = false;
					try { logf( "  reset\n" ); f.f->reset(); }
					catch ( crg::Exception & ) { threw = true; }
					count( "fence_resets" );
					if ( wasPending ) count( "fence_resets_while_pending" );
					if ( threw && !g.injected() ) violate( "C17", "spurious-error", "reset", "reset throws without a device error" );
					if ( !threw && g.injected() ) violate( "C17", "error-not-reported", "reset", "reset does not report the failure of %s", dev->lastFault.c_str() );
					auto * o = static_cast< Fence * >( findObj( T::Fence, u64( VkFence( *f.f ) ) ) );
					if ( threw )
					{
						// whatever failed, the fence is either as it was or reset
						if ( !o->pending ) f.st = o->signaled ? F::Signaled : F::Unsignaled;
						break;
					}
					if ( wasPending && vtime < end ) violate( "C17", "reset-pending", "fence", "reset returns before the pending work completes" );
					if ( o->pending || o->signaled ) violate( "C17", "not-reset", "reset", "the fence is still %s after reset", o->pending ? "pending" : "signalled" );
					f.st = F::Unsignaled;
				}
				VkSubmitInfo si{ VK_STRUCTURE_TYPE_SUBMIT_INFO, nullptr, 0, nullptr, nullptr, 0, nullptr, 0, nullptr };
				UserScope us;
				VkResult r = ctx->vkQueueSubmit( queues[choose( 2, "queue" )], 1u, &si, *f.f );
				if ( r != VK_SUCCESS ) harnessError( "submit" );
				f.sub = &dev->subs.back();
				f.st = F::Pending;
				++submits;
				logf( "  submit, completes in %llu ns\n", ( unsigned long long )( f.sub->end - vtime ) );
				break;
			}
			case 3: case 4:
			{
				auto & f = fs[at];
				static u64 const to[]{ 0, 1000, 100000, 3000000, 1000000000ull, 100000000000ull, ~0ull };
				u64 t = to[choose( 7, "timeout" )];
				if ( f.st == F::Unsignaled && t == ~0ull ) t = 1000;
				wait( f, t );
				break;
			}
			case 5:
			{
				logf( "  move fence\n" );
				count( "fences_moved" );
				fs[at].f = std::make_unique< crg::Fence >( std::move( *fs[at].f ) );
				break;
			}
			case 6: vtime += 1000ull * choose( 100000, "sleep" ); break;
			default:
			{
				auto & f = fs[at];
				if ( choose( 3, "destroy" ) != 2 ) break;
				if ( f.st == F::Pending ) wait( f, ~0ull );
				if ( f.st == F::Pending ) break; // the wait failed
				logf( "  destroy fence\n" );
				f.f.reset();
				fs.erase( fs.begin() + at );
				break;
			}
			}
			u64 h = 0;
			for ( auto & f : fs ) h = h * 3 + u64( f.st );
			stateSeen( mix2( h, fs.size() ) );
		}
		if ( waits && submits ) count( "nontrivial" );
		dev->faults = {};
		for ( auto & f : fs ) if ( f.st == F::Pending ) wait( f, ~0ull );
		fs.clear();
		ctx.reset();
		for ( auto & [_, o] : dev->live ) if ( o->lib ) violate( "C17", "leak", "fence", "a fence is not destroyed" );
	}
}
