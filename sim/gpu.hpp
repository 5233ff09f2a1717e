// Execution model of the simulated GPU: lowering of commands to accesses, in-order execution,
// and seeded re-execution in other orders allowed by the recorded synchronisation.
#pragma once
#include "vk.hpp"

namespace sim
{
	constexpr VkImageLayout NoLayout = VK_IMAGE_LAYOUT_MAX_ENUM;

	// ---- effects, shared with the reference model -------------------------------
	V vconst( u64 h );
	struct Eff
	{
		u64 h; bool taint{ false };
		explicit Eff( u64 sig ) : h{ mix( sig ) } {}
		Eff & in( V const & v ) { h = mix2( h, v.h ); taint = taint || v.taint; return *this; }
		Eff & n( u64 x ) { h = mix2( h, x ); return *this; }
		V v() const { V r; r.h = h; r.taint = taint; return r; }
	};
	V clearValueOf( VkClearValue const & cv, VkImageAspectFlagBits aspect );
	V fillValueOf( u32 data );
	u64 drawSig( Prog const & p, u64 state, Op op, u64 const * a, u64 push );
	u64 samplerSig( VkSamplerCreateInfo const & i );
	u32 texelSize( VkFormat f, VkImageAspectFlagBits aspect );

	struct Rd { u32 loc; VkAccessFlags acc; VkImageLayout lay; };
	struct Wr
	{
		enum K : u8 { Const, Copy, Hash, Undef } k{ Hash };
		u32 loc; VkAccessFlags acc; VkImageLayout lay{ NoLayout };
		u64 sig{ 0 };
		std::vector< u32 > deps;  // indices into the group's values
		V c{};
	};
	struct MemB { VkAccessFlags src, dst; bool all; std::vector< std::pair< u32, u32 > > locs; };
	struct Trans { u32 loc; VkImageLayout from, to; };
	struct Item
	{
		bool sync{ false };
		bool app{ false };
		bool host{ false };          // what the host waited for before a submission
		Queue * queue{};
		u32 sub{}, group{ ~0u };
		int rp{ -1 };
		int cmd{ -1 };
		Op op{};
		// node
		VkPipelineStageFlags stage{};
		std::vector< Rd > rd;
		std::vector< Wr > wr;
		u32 valBase{ 0 };
		// sync
		VkPipelineStageFlags srcRaw{}, dstRaw{}, srcExp{}, dstExp{};
		std::vector< MemB > mem;
		std::vector< Trans > tr;
		std::vector< u32 > srcSubs;  // non empty: only nodes of these submissions
		u32 dstFromSub{ 0 };         // only nodes of submissions >= this one
	};
	// executes a command made by the reference model on its own locations
	void shadowExec( Cmd & c );
	u32 allocLocs( Obj * o, u32 n );
	u64 hashState( VkGraphicsPipelineCreateInfo const & ci );
	VkPipelineStageFlags expandRaw( VkPipelineStageFlags s );
	VkPipelineStageFlags expandSrc( VkPipelineStageFlags s );
	VkPipelineStageFlags expandDst( VkPipelineStageFlags s );
}
