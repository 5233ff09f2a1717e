#include "gpu.hpp"
#include <algorithm>
#include <cstring>
#include <bitset>

namespace sim
{
	// ------------------------------------------------------------------ effects
	V vconst( u64 h ) { V v; v.h = mix( h ); v.taint = false; return v; }
	static u64 f2u( float f ) { u32 u; memcpy( &u, &f, 4 ); return u; }
	V clearValueOf( VkClearValue const & cv, VkImageAspectFlagBits a )
	{
		if ( a == VK_IMAGE_ASPECT_DEPTH_BIT ) return vconst( mix2( 0xDEB7, f2u( cv.depthStencil.depth ) ) );
		if ( a == VK_IMAGE_ASPECT_STENCIL_BIT ) return vconst( mix2( 0x57E4, cv.depthStencil.stencil ) );
		u64 h = 0xC010;
		for ( int i = 0; i < 4; ++i ) h = mix2( h, cv.color.uint32[i] );
		return vconst( h );
	}
	V fillValueOf( u32 d ) { return vconst( mix2( 0xF111, d ) ); }
	u64 drawSig( Prog const & p, u64 state, Op op, u64 const * a, u64 push )
	{
		u64 h = mix2( 0xD4A3, p.id );
		h = mix2( mix2( h, state ), u64( op ) );
		switch ( op )
		{
		case Op::Draw: for ( int i = 0; i < 4; ++i ) h = mix2( h, a[i] ); break;
		case Op::DrawIndexed: for ( int i = 0; i < 5; ++i ) h = mix2( h, a[i] ); break;
		case Op::Dispatch: for ( int i = 0; i < 3; ++i ) h = mix2( h, a[i] ); break;
		case Op::DispatchIndirect: h = mix2( h, a[0] % CellSize ); break;
		default: h = mix2( mix2( mix2( h, a[0] % CellSize ), a[1] ), a[2] ); break;
		}
		return mix2( h, push );
	}
	u64 samplerSig( VkSamplerCreateInfo const & i )
	{
		u64 h = 0x5A3;
		for ( u64 x : { u64( i.magFilter ), u64( i.minFilter ), u64( i.mipmapMode ), u64( i.addressModeU ), u64( i.addressModeV ), u64( i.addressModeW ), f2u( i.mipLodBias ), f2u( i.minLod ), f2u( i.maxLod )
			, u64( i.anisotropyEnable ), u64( i.compareEnable ), u64( i.unnormalizedCoordinates ) } ) h = mix2( h, x );
		return h;
	}
	u32 texelSize( VkFormat f, VkImageAspectFlagBits a )
	{
		switch ( f )
		{
		case VK_FORMAT_R8_UNORM: case VK_FORMAT_S8_UINT: return 1;
		case VK_FORMAT_D16_UNORM: case VK_FORMAT_R8G8_UNORM: return 2;
		case VK_FORMAT_R16G16B16A16_SFLOAT: return 8;
		case VK_FORMAT_R32G32B32A32_SFLOAT: return 16;
		case VK_FORMAT_D24_UNORM_S8_UINT: case VK_FORMAT_D32_SFLOAT_S8_UINT: case VK_FORMAT_D16_UNORM_S8_UINT:
			return a == VK_IMAGE_ASPECT_STENCIL_BIT ? 1 : ( f == VK_FORMAT_D16_UNORM_S8_UINT ? 2 : 4 );
		default: return 4;
		}
	}

	// ------------------------------------------------------------------ stages
	namespace
	{
		// pipelines, in order
		constexpr VkPipelineStageFlags TOP = VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT, BOT = VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT
			, DI = VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT, VI = VK_PIPELINE_STAGE_VERTEX_INPUT_BIT, VS = VK_PIPELINE_STAGE_VERTEX_SHADER_BIT
			, TC = VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT, TE = VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT, GS = VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT
			, EF = VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT, FS = VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, LF = VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT, CO = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
			, CS = VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, TF = VK_PIPELINE_STAGE_TRANSFER_BIT, HO = VK_PIPELINE_STAGE_HOST_BIT;
		constexpr VkPipelineStageFlags GFX[]{ TOP, DI, VI, VS, TC, TE, GS, EF, FS, LF, CO, BOT };
		constexpr VkPipelineStageFlags CMP[]{ TOP, DI, CS, BOT };
		constexpr VkPipelineStageFlags TRA[]{ TOP, TF, BOT };
		constexpr VkPipelineStageFlags ALLG = DI | VI | VS | TC | TE | GS | EF | FS | LF | CO;
		constexpr VkPipelineStageFlags ALL = ALLG | CS | TF;

		template< size_t N > void later( VkPipelineStageFlags const ( &p )[N], VkPipelineStageFlags s, VkPipelineStageFlags & r )
		{
			bool on = false;
			for ( size_t i = 0; i < N; ++i ) { if ( s & p[i] ) on = true; if ( on ) r |= p[i]; }
		}
		template< size_t N > void earlier( VkPipelineStageFlags const ( &p )[N], VkPipelineStageFlags s, VkPipelineStageFlags & r )
		{
			bool on = false;
			for ( size_t i = N; i-- > 0; ) { if ( s & p[i] ) on = true; if ( on ) r |= p[i]; }
		}
	}
	VkPipelineStageFlags expandRaw( VkPipelineStageFlags s )
	{
		if ( s & VK_PIPELINE_STAGE_ALL_COMMANDS_BIT ) s |= ALL | TOP | BOT;
		if ( s & VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT ) s |= ALLG;
		return s;
	}
	VkPipelineStageFlags expandSrc( VkPipelineStageFlags s )
	{
		s = expandRaw( s );
		VkPipelineStageFlags r = s;
		earlier( GFX, s, r ); earlier( CMP, s, r ); earlier( TRA, s, r );
		return r;
	}
	VkPipelineStageFlags expandDst( VkPipelineStageFlags s )
	{
		s = expandRaw( s );
		VkPipelineStageFlags r = s;
		later( GFX, s, r ); later( CMP, s, r ); later( TRA, s, r );
		return r;
	}

	VkImageLayout normLayout( VkImageLayout l, VkImageAspectFlagBits a )
	{
		if ( a == VK_IMAGE_ASPECT_DEPTH_BIT )
			switch ( l )
			{
			case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL: case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL: return VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL;
			case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL: case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL: return VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL;
			default: return l;
			}
		if ( a == VK_IMAGE_ASPECT_STENCIL_BIT )
			switch ( l )
			{
			case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL: case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL: return VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL;
			case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL: case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL: return VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL;
			default: return l;
			}
		return l;
	}

	// ------------------------------------------------------------------ machine state
	namespace
	{
		std::vector< Item > epoch;
		std::vector< std::vector< V > > groups;   // values read, in-order execution
		std::unordered_map< u32, V > epochInit;
		std::vector< u32 > epochSubs;
		std::vector< u32 > knownSubs;             // submissions of the epoch the host knows complete
		bool knownDirty{ false };
		int rpCount{ 0 };
		u32 valCount{ 0 };

		Image * imgOf( u32 loc ) { auto * o = dev->locOwner[loc]; return o->type == T::Image ? static_cast< Image * >( o ) : nullptr; }
		VkImageAspectFlagBits aspectOf( u32 loc )
		{
			auto * i = imgOf( loc );
			return aspectBit( i->info.format, ( loc - i->locBase ) % i->naspect );
		}
		std::string locStr( u32 loc )
		{
			auto * o = dev->locOwner[loc];
			if ( auto * i = imgOf( loc ) )
			{
				u32 r = loc - i->locBase;
				u32 a = r % i->naspect; r /= i->naspect;
				return strf( "%s layer %u mip %u aspect %u", objStr( i ).c_str(), r / i->info.mipLevels, r % i->info.mipLevels, unsigned( aspectBit( i->info.format, a ) ) );
			}
			return strf( "%s cell %u", objStr( o ).c_str(), loc - static_cast< Buffer * >( o )->locBase );
		}

		void touch( u32 loc ) { epochInit.emplace( loc, dev->content[loc] ); }

		template< typename F > void forRange( Image const * i, VkImageSubresourceRange const & r, F f )
		{
			for ( u32 l = r.baseArrayLayer; l < r.baseArrayLayer + r.layerCount; ++l )
				for ( u32 m = r.baseMipLevel; m < r.baseMipLevel + r.levelCount; ++m )
					for ( u32 a = 0; a < i->naspect; ++a )
						if ( r.aspectMask & aspectBit( i->info.format, a ) ) f( i->loc( l, m, a ) );
		}
		// layers of a view in terms of the image's own layers (3D images have one)
		VkImageSubresourceRange viewRange( View const * v )
		{
			auto r = v->info.subresourceRange;
			if ( r.levelCount == VK_REMAINING_MIP_LEVELS ) r.levelCount = v->img->info.mipLevels - r.baseMipLevel;
			if ( r.layerCount == VK_REMAINING_ARRAY_LAYERS ) r.layerCount = v->img->info.arrayLayers - r.baseArrayLayer;
			if ( v->img->info.imageType == VK_IMAGE_TYPE_3D ) { r.baseArrayLayer = 0; r.layerCount = 1; }
			return r;
		}

		// -------------------------------------------------------------- lowering
		struct Lower
		{
			Submission * s;
			u32 group{ ~0u };
			int rp{ -1 };
			int cmd{ -1 };
			Op op{};
			std::vector< Item > out;

			Item & node( VkPipelineStageFlags st )
			{
				out.emplace_back();
				auto & n = out.back();
				n.sub = s->id; n.group = group; n.rp = rp; n.cmd = cmd; n.op = op; n.stage = st;
				n.valBase = nvals;
				return n;
			}
			Item & sync( VkPipelineStageFlags src, VkPipelineStageFlags dst )
			{
				out.emplace_back();
				auto & n = out.back();
				n.sync = true;
				n.sub = s->id; n.rp = rp; n.cmd = cmd; n.op = op;
				n.srcRaw = expandRaw( src ); n.dstRaw = expandRaw( dst );
				n.srcExp = expandSrc( src ); n.dstExp = expandDst( dst );
				return n;
			}
			u32 nvals{ 0 };
			bool shadow{ false };
			void newGroup()
			{
				nvals = 0;
				if ( shadow ) { ++group; return; }
				group = u32( groups.size() ); groups.emplace_back();
			}
			u32 read( Item & n, u32 loc, VkAccessFlags a, VkImageLayout l = NoLayout ) { n.rd.push_back( { loc, a, l } ); return nvals++; }
			Wr & write( Item & n, Wr::K k, u32 loc, VkAccessFlags a, VkImageLayout l = NoLayout )
			{
				n.wr.emplace_back();
				auto & w = n.wr.back();
				w.k = k; w.loc = loc; w.acc = a; w.lay = l;
				return w;
			}
		};

		void exec( Item & n );   // in order
		void lowerCmd( Lower & L, CmdBuf *, Cmd & c )
		{
			L.op = c.op;
			switch ( c.op )
			{
			case Op::Barrier:
			{
				auto & y = L.sync( c.s1, c.s2 );
				for ( auto & m : c.mb ) y.mem.push_back( { m.srcAccessMask, m.dstAccessMask, true, {} } );
				for ( auto & b : c.bb )
				{
					MemB m{ b.src, b.dst, false, {} };
					u32 c0 = u32( b.off / CellSize ), c1 = u32( ( b.off + b.size + CellSize - 1 ) / CellSize );
					// cells only partly inside the range are not covered
					if ( b.off % CellSize ) ++c0;
					if ( ( b.off + b.size ) % CellSize && b.off + b.size != b.buf->size ) --c1;
					if ( c1 > c0 ) m.locs.push_back( { b.buf->locBase + c0, b.buf->locBase + c1 } );
					y.mem.push_back( std::move( m ) );
				}
				for ( auto & b : c.ib )
				{
					MemB m{ b.src, b.dst, false, {} };
					auto full = aspectMaskOf( b.img->info.format );
					if ( b.img->naspect == 2 && b.r.aspectMask != full && b.from != b.to && !dev->separateDS )
						violate( "C16", "aspect-mask", "barrier", "layout transition of %s names one of depth and stencil only, without separateDepthStencilLayouts", objStr( b.img ).c_str() );
					forRange( b.img, b.r, [&]( u32 loc )
						{
							m.locs.push_back( { loc, loc + 1 } );
							if ( b.from != b.to ) y.tr.push_back( { loc, b.from, b.to } );
							else y.tr.push_back( { loc, b.from, NoLayout } ); // no transition, but the layout named must be right
						} );
					y.mem.push_back( std::move( m ) );
				}
				break;
			}
			case Op::ClearColor:
			case Op::ClearDS:
			{
				L.newGroup();
				auto & n = L.node( TF );
				for ( auto & r : c.ranges )
					forRange( c.img, r, [&]( u32 loc )
						{
							auto & w = L.write( n, Wr::Const, loc, VK_ACCESS_TRANSFER_WRITE_BIT, c.lay );
							w.c = clearValueOf( c.clears[0], aspectOf( loc ) );
						} );
				break;
			}
			case Op::Fill:
			{
				L.newGroup();
				auto & n = L.node( TF );
				u64 e = c.a[0] + c.a[1];
				for ( u32 k = u32( c.a[0] / CellSize ); k * CellSize < e; ++k )
				{
					u64 lo = std::max< u64 >( c.a[0], k * CellSize ), hi = std::min< u64 >( e, ( k + 1 ) * CellSize );
					bool whole = hi - lo == CellSize || ( lo == k * CellSize && hi == c.buf->size );
					if ( whole ) L.write( n, Wr::Const, c.buf->locBase + k, VK_ACCESS_TRANSFER_WRITE_BIT ).c = fillValueOf( u32( c.a[2] ) );
					else
					{
						u32 old = L.read( n, c.buf->locBase + k, VK_ACCESS_TRANSFER_WRITE_BIT );
						auto & w = L.write( n, Wr::Hash, c.buf->locBase + k, VK_ACCESS_TRANSFER_WRITE_BIT );
						w.sig = mix2( mix2( mix2( 0xF112, lo % CellSize ), hi - lo ), c.a[2] );
						w.deps = { old };
					}
				}
				break;
			}
			case Op::CopyBuffer:
				for ( auto & r : c.bcopy )
				{
					L.newGroup();
					auto & n = L.node( TF );
					u64 e = r.dstOffset + r.size;
					for ( u32 k = u32( r.dstOffset / CellSize ); k * CellSize < e; ++k )
					{
						u64 lo = std::max< u64 >( r.dstOffset, k * CellSize ), hi = std::min< u64 >( e, ( k + 1 ) * CellSize );
						bool whole = hi - lo == CellSize;
						u64 slo = lo - r.dstOffset + r.srcOffset, shi = slo + ( hi - lo );
						std::vector< u32 > deps;
						for ( u32 sc = u32( slo / CellSize ); sc * CellSize < shi; ++sc ) deps.push_back( L.read( n, c.buf->locBase + sc, VK_ACCESS_TRANSFER_READ_BIT ) );
						if ( whole && slo % CellSize == 0 )
						{
							auto & w = L.write( n, Wr::Copy, c.buf2->locBase + k, VK_ACCESS_TRANSFER_WRITE_BIT );
							w.deps = deps;
						}
						else
						{
							if ( !whole ) deps.push_back( L.read( n, c.buf2->locBase + k, VK_ACCESS_TRANSFER_WRITE_BIT ) );
							auto & w = L.write( n, Wr::Hash, c.buf2->locBase + k, VK_ACCESS_TRANSFER_WRITE_BIT );
							w.sig = mix2( mix2( mix2( 0xC0B1, slo % CellSize ), lo % CellSize ), hi - lo );
							w.deps = deps;
						}
					}
				}
				break;
			case Op::CopyImage:
				for ( auto & r : c.icopy )
				{
					auto se = mipExtent( c.img, r.srcSubresource.mipLevel ), de = mipExtent( c.img2, r.dstSubresource.mipLevel );
					bool dfull = !r.dstOffset.x && !r.dstOffset.y && !r.dstOffset.z && r.extent.width == de.width && r.extent.height == de.height && r.extent.depth == de.depth;
					bool sfull = !r.srcOffset.x && !r.srcOffset.y && !r.srcOffset.z && r.extent.width == se.width && r.extent.height == se.height && r.extent.depth == se.depth;
					for ( u32 l = 0; l < r.srcSubresource.layerCount; ++l )
						for ( u32 a = 0; a < c.img->naspect; ++a )
						{
							if ( !( r.srcSubresource.aspectMask & aspectBit( c.img->info.format, a ) ) ) continue;
							L.newGroup();
							auto & n = L.node( TF );
							u32 da = 0;
							for ( u32 x = 0; x < c.img2->naspect; ++x ) if ( aspectBit( c.img2->info.format, x ) == aspectBit( c.img->info.format, a ) ) da = x;
							u32 s = L.read( n, c.img->loc( r.srcSubresource.baseArrayLayer + l, r.srcSubresource.mipLevel, a ), VK_ACCESS_TRANSFER_READ_BIT, c.lay );
							u32 dl = c.img2->loc( r.dstSubresource.baseArrayLayer + l, r.dstSubresource.mipLevel, da );
							if ( dfull && sfull ) { auto & w = L.write( n, Wr::Copy, dl, VK_ACCESS_TRANSFER_WRITE_BIT, c.lay2 ); w.deps = { s }; }
							else
							{
								std::vector< u32 > deps{ s };
								if ( !dfull ) deps.push_back( L.read( n, dl, VK_ACCESS_TRANSFER_WRITE_BIT, c.lay2 ) );
								auto & w = L.write( n, Wr::Hash, dl, VK_ACCESS_TRANSFER_WRITE_BIT, c.lay2 );
								u64 g = 0xC01A;
								g = mix2( mix2( mix2( g, u64( r.srcOffset.x ) ), u64( r.srcOffset.y ) ), u64( r.srcOffset.z ) );
								g = mix2( mix2( mix2( g, u64( r.dstOffset.x ) ), u64( r.dstOffset.y ) ), u64( r.dstOffset.z ) );
								g = mix2( mix2( mix2( g, r.extent.width ), r.extent.height ), r.extent.depth );
								w.sig = g;
								w.deps = deps;
							}
						}
				}
				break;
			case Op::Blit:
				for ( auto & r : c.blit )
				{
					auto de = mipExtent( c.img2, r.dstSubresource.mipLevel );
					auto & d0 = r.dstOffsets[0]; auto & d1 = r.dstOffsets[1];
					bool dfull = std::min( d0.x, d1.x ) == 0 && std::min( d0.y, d1.y ) == 0 && std::min( d0.z, d1.z ) == 0
						&& u32( std::abs( d1.x - d0.x ) ) == de.width && u32( std::abs( d1.y - d0.y ) ) == de.height && u32( std::abs( d1.z - d0.z ) ) == de.depth;
					u64 g = 0xB117;
					for ( int k = 0; k < 2; ++k ) g = mix2( mix2( mix2( mix2( mix2( mix2( g, u64( r.srcOffsets[k].x ) ), u64( r.srcOffsets[k].y ) ), u64( r.srcOffsets[k].z ) ), u64( r.dstOffsets[k].x ) ), u64( r.dstOffsets[k].y ) ), u64( r.dstOffsets[k].z ) );
					g = mix2( g, c.a[0] );
					for ( u32 l = 0; l < r.srcSubresource.layerCount; ++l )
						for ( u32 a = 0; a < c.img->naspect; ++a )
						{
							if ( !( r.srcSubresource.aspectMask & aspectBit( c.img->info.format, a ) ) ) continue;
							u32 da = 0;
							for ( u32 x = 0; x < c.img2->naspect; ++x ) if ( aspectBit( c.img2->info.format, x ) == aspectBit( c.img->info.format, a ) ) da = x;
							L.newGroup();
							auto & n = L.node( TF );
							std::vector< u32 > deps{ L.read( n, c.img->loc( r.srcSubresource.baseArrayLayer + l, r.srcSubresource.mipLevel, a ), VK_ACCESS_TRANSFER_READ_BIT, c.lay ) };
							u32 dl = c.img2->loc( r.dstSubresource.baseArrayLayer + l, r.dstSubresource.mipLevel, da );
							if ( !dfull ) deps.push_back( L.read( n, dl, VK_ACCESS_TRANSFER_WRITE_BIT, c.lay2 ) );
							auto & w = L.write( n, Wr::Hash, dl, VK_ACCESS_TRANSFER_WRITE_BIT, c.lay2 );
							w.sig = g; w.deps = deps;
						}
				}
				break;
			case Op::CopyBufImg:
			case Op::CopyImgBuf:
				for ( auto & r : c.bic )
				{
					auto me = mipExtent( c.img, r.imageSubresource.mipLevel );
					bool ifull = !r.imageOffset.x && !r.imageOffset.y && !r.imageOffset.z && r.imageExtent.width == me.width && r.imageExtent.height == me.height && r.imageExtent.depth == me.depth;
					for ( u32 a = 0; a < c.img->naspect; ++a )
					{
						auto ab = aspectBit( c.img->info.format, a );
						if ( !( r.imageSubresource.aspectMask & ab ) ) continue;
						u64 rowl = r.bufferRowLength ? r.bufferRowLength : r.imageExtent.width;
						u64 imh = r.bufferImageHeight ? r.bufferImageHeight : r.imageExtent.height;
						u64 lay = rowl * imh * r.imageExtent.depth * texelSize( c.img->info.format, ab );
						u64 total = lay * r.imageSubresource.layerCount;
						if ( r.bufferOffset + total > c.buf->size )
							violateStop( "C16", "region-outside", opName( c.op ), "%s of %llu bytes at offset %llu does not fit %s (%llu bytes)", opName( c.op ), ( unsigned long long )total, ( unsigned long long )r.bufferOffset, objStr( c.buf ).c_str(), ( unsigned long long )c.buf->size );
						u64 g = mix2( mix2( 0xB0F1 + u64( c.op ), rowl ), imh );
						g = mix2( mix2( mix2( mix2( mix2( mix2( g, u64( r.imageOffset.x ) ), u64( r.imageOffset.y ) ), u64( r.imageOffset.z ) ), r.imageExtent.width ), r.imageExtent.height ), r.imageExtent.depth );
						if ( c.op == Op::CopyBufImg )
						{
							for ( u32 l = 0; l < r.imageSubresource.layerCount; ++l )
							{
								L.newGroup();
								auto & n = L.node( TF );
								u64 lo = r.bufferOffset + l * lay, hi = lo + lay;
								std::vector< u32 > deps;
								for ( u32 k = u32( lo / CellSize ); k * CellSize < hi; ++k ) deps.push_back( L.read( n, c.buf->locBase + k, VK_ACCESS_TRANSFER_READ_BIT ) );
								u32 dl = c.img->loc( r.imageSubresource.baseArrayLayer + l, r.imageSubresource.mipLevel, a );
								if ( !ifull ) deps.push_back( L.read( n, dl, VK_ACCESS_TRANSFER_WRITE_BIT, c.lay ) );
								auto & w = L.write( n, Wr::Hash, dl, VK_ACCESS_TRANSFER_WRITE_BIT, c.lay );
								w.sig = mix2( g, lo % CellSize ); w.deps = deps;
							}
						}
						else
						{
							L.newGroup();
							auto & n = L.node( TF );
							u64 b = r.bufferOffset, e = b + total;
							for ( u32 k = u32( b / CellSize ); k * CellSize < e; ++k )
							{
								u64 lo = std::max< u64 >( b, k * CellSize ), hi = std::min< u64 >( e, ( k + 1 ) * CellSize );
								std::vector< u32 > deps;
								for ( u32 l = u32( ( lo - b ) / lay ); l < r.imageSubresource.layerCount && b + l * lay < hi; ++l ) deps.push_back( L.read( n, c.img->loc( r.imageSubresource.baseArrayLayer + l, r.imageSubresource.mipLevel, a ), VK_ACCESS_TRANSFER_READ_BIT, c.lay ) );
								if ( hi - lo != CellSize ) deps.push_back( L.read( n, c.buf->locBase + k, VK_ACCESS_TRANSFER_WRITE_BIT ) );
								auto & w = L.write( n, Wr::Hash, c.buf->locBase + k, VK_ACCESS_TRANSFER_WRITE_BIT );
								w.sig = mix2( mix2( g, ( lo - b ) % lay ), hi - lo ); w.deps = deps;
							}
						}
					}
				}
				break;
			case Op::BeginRP:
			{
				L.rp = ++rpCount;
				auto * rp = c.rp;
				auto & y = L.sync( 0, 0 );
				bool any = false;
				for ( auto & d : rp->deps )
					if ( d.srcSubpass == VK_SUBPASS_EXTERNAL && d.dstSubpass == 0 )
					{
						any = true;
						y.srcRaw |= expandRaw( d.srcStageMask ); y.dstRaw |= expandRaw( d.dstStageMask );
						y.srcExp |= expandSrc( d.srcStageMask ); y.dstExp |= expandDst( d.dstStageMask );
						y.mem.push_back( { d.srcAccessMask, d.dstAccessMask, true, {} } );
					}
				if ( !any )
				{
					y.srcRaw = y.srcExp = TOP; y.dstRaw = y.dstExp = ALL | TOP | BOT;
					y.mem.push_back( { 0, VK_ACCESS_INPUT_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, true, {} } );
				}
				auto refLayout = [&]( u32 i )
				{
					if ( rp->hasDepth && rp->depth.attachment == i ) return rp->depth.layout;
					for ( auto & k : rp->col ) if ( k.attachment == i ) return k.layout;
					return rp->att[i].initialLayout;
				};
				for ( u32 i = 0; i < rp->att.size(); ++i )
				{
					auto * v = c.fb->views[i];
					auto rg = viewRange( v );
					rg.aspectMask = aspectMaskOf( v->img->info.format ); // attachments transition all aspects of the format
					auto & at = rp->att[i];
					forRange( v->img, rg, [&]( u32 loc ) { y.tr.push_back( { loc, at.initialLayout, refLayout( i ) == at.initialLayout ? NoLayout : refLayout( i ) } ); } );
				}
				// load operations
				for ( u32 i = 0; i < rp->att.size(); ++i )
				{
					auto * v = c.fb->views[i];
					auto & at = rp->att[i];
					bool ds = aspectMaskOf( at.format ) != VK_IMAGE_ASPECT_COLOR_BIT;
					auto rg = viewRange( v );
					rg.aspectMask = aspectMaskOf( at.format );
					rg.layerCount = std::min( rg.layerCount, c.fb->layers );
					L.newGroup();
					auto & n = L.node( ds ? EF : CO );
					forRange( v->img, rg, [&]( u32 loc )
						{
							auto ab = aspectOf( loc );
							auto lop = ab == VK_IMAGE_ASPECT_STENCIL_BIT ? at.stencilLoadOp : at.loadOp;
							auto me = mipExtent( v->img, rg.baseMipLevel );
							bool whole = c.area.offset.x == 0 && c.area.offset.y == 0 && c.area.extent.width == me.width && c.area.extent.height == me.height;
							if ( lop == VK_ATTACHMENT_LOAD_OP_LOAD ) L.read( n, loc, ds ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT : VK_ACCESS_COLOR_ATTACHMENT_READ_BIT, refLayout( i ) );
							else if ( lop == VK_ATTACHMENT_LOAD_OP_CLEAR )
							{
								auto wa = ds ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT : VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
								if ( whole ) L.write( n, Wr::Const, loc, wa, refLayout( i ) ).c = clearValueOf( c.clears[i], ab );
								else
								{
									u32 old = L.read( n, loc, wa, refLayout( i ) );
									auto & w = L.write( n, Wr::Hash, loc, wa, refLayout( i ) );
									w.sig = mix2( mix2( clearValueOf( c.clears[i], ab ).h, c.area.extent.width ), c.area.extent.height ); w.deps = { old };
								}
							}
							else L.write( n, Wr::Undef, loc, ds ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT : VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, refLayout( i ) );
						} );
				}
				break;
			}
			case Op::EndRP:
			{
				auto * rp = c.rp;
				auto refLayout = [&]( u32 i )
				{
					if ( rp->hasDepth && rp->depth.attachment == i ) return rp->depth.layout;
					for ( auto & k : rp->col ) if ( k.attachment == i ) return k.layout;
					return rp->att[i].initialLayout;
				};
				for ( u32 i = 0; i < rp->att.size(); ++i )
				{
					auto * v = c.fb->views[i];
					auto & at = rp->att[i];
					bool ds = aspectMaskOf( at.format ) != VK_IMAGE_ASPECT_COLOR_BIT;
					auto rg = viewRange( v );
					rg.aspectMask = aspectMaskOf( at.format );
					rg.layerCount = std::min( rg.layerCount, c.fb->layers );
					L.newGroup();
					auto & n = L.node( ds ? LF : CO );
					auto wa = ds ? VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT : VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
					forRange( v->img, rg, [&]( u32 loc )
						{
							auto sop = aspectOf( loc ) == VK_IMAGE_ASPECT_STENCIL_BIT ? at.stencilStoreOp : at.storeOp;
							if ( sop == VK_ATTACHMENT_STORE_OP_STORE )
							{
								// a read-only attachment is not written
								auto rl = normLayout( refLayout( i ), aspectOf( loc ) );
								if ( rl == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL || rl == VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL ) return;
								u32 r = L.read( n, loc, wa, refLayout( i ) );
								L.write( n, Wr::Copy, loc, wa, refLayout( i ) ).deps = { r };
							}
							else L.write( n, Wr::Undef, loc, wa, refLayout( i ) );
						} );
				}
				auto & y = L.sync( 0, 0 );
				bool any = false;
				for ( auto & d : rp->deps )
					if ( d.srcSubpass == 0 && d.dstSubpass == VK_SUBPASS_EXTERNAL )
					{
						any = true;
						y.srcRaw |= expandRaw( d.srcStageMask ); y.dstRaw |= expandRaw( d.dstStageMask );
						y.srcExp |= expandSrc( d.srcStageMask ); y.dstExp |= expandDst( d.dstStageMask );
						y.mem.push_back( { d.srcAccessMask, d.dstAccessMask, true, {} } );
					}
				if ( !any )
				{
					y.srcRaw = ALL | TOP | BOT; y.srcExp = ALL | TOP | BOT; y.dstRaw = y.dstExp = BOT;
					y.mem.push_back( { VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, 0, true, {} } );
				}
				for ( u32 i = 0; i < rp->att.size(); ++i )
				{
					auto * v = c.fb->views[i];
					auto rg = viewRange( v );
					rg.aspectMask = aspectMaskOf( v->img->info.format );
					auto & at = rp->att[i];
					if ( refLayout( i ) != at.finalLayout )
						forRange( v->img, rg, [&]( u32 loc ) { y.tr.push_back( { loc, refLayout( i ), at.finalLayout } ); } );
				}
				L.rp = -1;
				break;
			}
			case Op::Draw: case Op::DrawIndexed: case Op::DrawIndirect: case Op::DrawIndexedIndirect: case Op::Dispatch: case Op::DispatchIndirect:
			{
				bool comp = c.op == Op::Dispatch || c.op == Op::DispatchIndirect;
				L.newGroup();
				u64 sig = drawSig( *c.dpipe->prog, c.dpipe->state, c.op, c.a, c.dpush );
				if ( c.dib ) sig = mix2( sig, u64( c.ditype ) );
				if ( c.op == Op::DrawIndirect || c.op == Op::DrawIndexedIndirect || c.op == Op::DispatchIndirect )
				{
					auto & n = L.node( DI );
					u64 lo = c.a[0], hi = lo + c.a[3];
					for ( u32 k = u32( lo / CellSize ); k * CellSize < hi; ++k ) L.read( n, c.buf->locBase + k, VK_ACCESS_INDIRECT_COMMAND_READ_BIT );
				}
				if ( !comp && ( c.dvb || c.dib ) )
				{
					auto & n = L.node( VI );
					if ( c.dvb ) for ( u32 k = u32( c.dvbOff / CellSize ); k < c.dvb->ncells; ++k ) L.read( n, c.dvb->locBase + k, VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT );
					if ( c.dib ) for ( u32 k = u32( c.dibOff / CellSize ); k < c.dib->ncells; ++k ) L.read( n, c.dib->locBase + k, VK_ACCESS_INDEX_READ_BIT );
				}
				auto binds = c.dpipe->prog->binds;
				std::sort( binds.begin(), binds.end(), []( auto & x, auto & y ) { return x.binding < y.binding; } );
				// how the images are seen
				for ( auto & pb : binds )
				{
					auto & db = c.dset->b[pb.binding];
					if ( db.view ) sig = mix2( mix2( sig, u64( db.view->info.viewType ) ), u64( db.view->info.format ) );
					if ( db.sampler && pb.type == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER ) sig = mix2( sig, samplerSig( db.sampler->info ) );
				}
				{
					auto & n = L.node( comp ? CS : FS );
					auto each = [&]( ProgBind const & pb, auto f )
					{
						auto & db = c.dset->b[pb.binding];
						if ( db.view )
							forRange( db.view->img, viewRange( db.view ), [&]( u32 loc ) { f( loc, db.layout ); } );
						else if ( db.buf )
							for ( u32 k = u32( db.off / CellSize ); k * CellSize < db.off + db.range; ++k ) f( db.buf->locBase + k, NoLayout );
					};
					for ( auto & pb : binds )
						if ( pb.r )
						{
							VkAccessFlags acc = pb.type == VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER ? VK_ACCESS_UNIFORM_READ_BIT | VK_ACCESS_SHADER_READ_BIT : pb.partial ? VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT : VK_ACCESS_SHADER_READ_BIT;
							each( pb, [&]( u32 loc, VkImageLayout l ) { L.read( n, loc, acc, l ); } );
						}
					std::vector< u32 > deps;
					for ( u32 i = 0; i < L.nvals; ++i ) deps.push_back( i );
					for ( auto & pb : binds )
						if ( pb.w )
						{
							u32 idx = 0;
							each( pb, [&]( u32 loc, VkImageLayout l )
								{
									auto & w = L.write( n, Wr::Hash, loc, VK_ACCESS_SHADER_WRITE_BIT, l );
									w.sig = mix2( mix2( mix2( sig, 0x57 ), pb.binding ), idx++ );
									w.deps = deps;
								} );
						}
				}
				if ( !comp && c.drp )
				{
					auto * rp = c.drp;
					std::vector< u32 > deps;
					for ( u32 i = 0; i < L.nvals; ++i ) deps.push_back( i );
					if ( rp->hasDepth && ( c.dpipe->depthTest || c.dpipe->stencilTest ) )
					{
						auto * v = c.dfb->views[rp->depth.attachment];
						auto rg = viewRange( v );
						auto fm = aspectMaskOf( v->img->info.format );
						auto & n = L.node( EF | LF );
						auto one = [&]( VkImageAspectFlagBits ab, bool write )
						{
							if ( !( fm & ab ) ) return;
							u32 slot = 0;
							for ( u32 x = 0; x < v->img->naspect; ++x ) if ( aspectBit( v->img->info.format, x ) == ab ) slot = x;
							u32 loc = v->img->loc( rg.baseArrayLayer, rg.baseMipLevel, slot );
							u32 r = L.read( n, loc, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, rp->depth.layout );
							deps.push_back( r );
							if ( write )
							{
								auto & w = L.write( n, Wr::Hash, loc, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, rp->depth.layout );
								w.sig = mix2( sig, 0xD0 + u64( ab ) );
								w.deps = deps;
							}
						};
						if ( c.dpipe->depthTest )
						{
							one( VK_IMAGE_ASPECT_DEPTH_BIT, c.dpipe->depthWrite );
							auto rl = normLayout( rp->depth.layout, VK_IMAGE_ASPECT_DEPTH_BIT );
							if ( c.dpipe->depthWrite && ( fm & VK_IMAGE_ASPECT_DEPTH_BIT ) && rl == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL )
								violate( "C16", "write-read-only-depth", "draw", "draw writes a depth attachment in a read-only layout" );
						}
						if ( c.dpipe->stencilTest ) one( VK_IMAGE_ASPECT_STENCIL_BIT, normLayout( rp->depth.layout, VK_IMAGE_ASPECT_STENCIL_BIT ) == VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL );
					}
					u32 ci = 0;
					for ( auto & col : rp->col )
					{
						++ci;
						if ( col.attachment == VK_ATTACHMENT_UNUSED ) continue;
						auto * v = c.dfb->views[col.attachment];
						auto rg = viewRange( v );
						auto & n = L.node( CO );
						u32 loc = v->img->loc( rg.baseArrayLayer, rg.baseMipLevel, 0 );
						u32 r = L.read( n, loc, VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, col.layout );
						auto & w = L.write( n, Wr::Hash, loc, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, col.layout );
						w.sig = mix2( sig, 0xC0 + ci );
						w.deps = deps;
						w.deps.push_back( r );
					}
				}
				break;
			}
			default: break;
			}
		}

		V compute( Wr const & w, std::vector< V > const & vals )
		{
			switch ( w.k )
			{
			case Wr::Const: return w.c;
			case Wr::Copy: return vals[w.deps[0]];
			case Wr::Undef: return undefV( w.loc );
			default:
			{
				Eff e{ w.sig };
				for ( auto d : w.deps ) e.in( vals[d] );
				return e.v();
			}
			}
		}

		char const * layoutName( VkImageLayout l )
		{
			switch ( l )
			{
			case VK_IMAGE_LAYOUT_UNDEFINED: return "UNDEFINED";
			case VK_IMAGE_LAYOUT_GENERAL: return "GENERAL";
			case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL: return "COLOR_ATTACHMENT";
			case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL: return "DEPTH_STENCIL_ATTACHMENT";
			case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL: return "DEPTH_STENCIL_READ_ONLY";
			case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL: return "SHADER_READ_ONLY";
			case VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL: return "TRANSFER_SRC";
			case VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL: return "TRANSFER_DST";
			case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL: return "DEPTH_ATTACHMENT";
			case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL: return "DEPTH_READ_ONLY";
			case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL: return "STENCIL_ATTACHMENT";
			case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL: return "STENCIL_READ_ONLY";
			default: return "other";
			}
		}

		// whether an access may be made in a layout at all
		bool fits( VkImageLayout l, VkAccessFlags acc, bool undef )
		{
			if ( l == VK_IMAGE_LAYOUT_GENERAL ) return true;
			bool ro = l == VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL || l == VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL;
			bool at = l == VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL || l == VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL;
			if ( acc & VK_ACCESS_SHADER_WRITE_BIT ) return false;
			if ( acc & VK_ACCESS_SHADER_READ_BIT ) return l == VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL || ro;
			if ( acc & VK_ACCESS_TRANSFER_WRITE_BIT ) return l == VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
			if ( acc & VK_ACCESS_TRANSFER_READ_BIT ) return l == VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL;
			if ( acc & ( VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT ) ) return l == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
			if ( ( acc & VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT ) && !undef ) return at;
			if ( acc & ( VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT ) ) return at || ro;
			return true;
		}
		void checkLayout( Item const & n, u32 loc, VkImageLayout l, VkAccessFlags acc, bool undef = false )
		{
			if ( l == NoLayout ) return;
			auto a = aspectOf( loc );
			auto have = dev->layout[loc];
			if ( !fits( normLayout( l, a ), acc, undef ) )
				for ( auto prop : { "C01", "C16" } )
					violate( dev->injected && propIs( "C07" ) ? "C07" : prop, "unfit-layout", strf( "%s:%s", opName( n.op ), layoutName( l ) )
						, "%s uses %s as %s, in which it may not (access 0x%x)", opName( n.op ), locStr( loc ).c_str(), layoutName( l ), acc );
			if ( normLayout( have, a ) != normLayout( l, a ) )
				violate( dev->injected && propIs( "C07" ) ? "C07" : "C01", "wrong-layout", strf( "%s:%s:%s", opName( n.op ), layoutName( l ), layoutName( have ) )
					, "%s uses %s as %s but it is in %s", opName( n.op ), locStr( loc ).c_str(), layoutName( l ), layoutName( have ) );
		}

		void exec( Item & n )
		{
			if ( n.sync )
			{
				for ( auto & t : n.tr )
				{
					auto a = aspectOf( t.loc );
					touch( t.loc );
					if ( t.from == VK_IMAGE_LAYOUT_UNDEFINED || t.from == VK_IMAGE_LAYOUT_PREINITIALIZED )
					{
						if ( t.to != NoLayout )
						{
							V v = undefV( t.loc, true );
							dev->content[t.loc] = v;
							dev->layout[t.loc] = t.to;
						}
						else if ( t.from == VK_IMAGE_LAYOUT_UNDEFINED )
						{
							dev->content[t.loc] = undefV( t.loc, true );
						}
						continue;
					}
					auto have = dev->layout[t.loc];
					if ( normLayout( have, a ) != normLayout( t.from, a ) )
						violate( dev->injected && propIs( "C07" ) ? "C07" : "C01", "wrong-old-layout", strf( "%s:%s->%s:%s", opName( n.op ), layoutName( t.from ), t.to == NoLayout ? "same" : layoutName( t.to ), layoutName( have ) )
							, "%s names old layout %s (new %s) for %s, which is in %s", opName( n.op ), layoutName( t.from ), t.to == NoLayout ? "same" : layoutName( t.to ), locStr( t.loc ).c_str(), layoutName( have ) );
					if ( t.to != NoLayout ) dev->layout[t.loc] = t.to;
				}
				return;
			}
			auto & vals = groups[n.group];
			for ( auto & r : n.rd )
			{
				touch( r.loc );
				checkLayout( n, r.loc, r.lay, r.acc );
				vals.push_back( dev->content[r.loc] );
			}
			for ( auto & w : n.wr )
			{
				touch( w.loc );
				checkLayout( n, w.loc, w.lay, w.acc, w.k == Wr::Undef );
				dev->content[w.loc] = compute( w, vals );
			}
		}
	}

	void shadowExec( Cmd & c )
	{
		Lower L{};
		Submission dummy;
		L.s = &dummy;
		L.shadow = true;
		lowerCmd( L, nullptr, c );
		u32 grp = ~0u;
		std::vector< V > vals;
		for ( auto & n : L.out )
		{
			if ( n.sync ) continue;
			if ( n.group != grp ) { grp = n.group; vals.clear(); }
			for ( auto & r : n.rd ) vals.push_back( dev->content[r.loc] );
			for ( auto & w : n.wr ) dev->content[w.loc] = compute( w, vals );
		}
	}

	u32 allocLocs( Obj * o, u32 n )
	{
		u32 b = u32( dev->content.size() );
		dev->content.resize( b + n );
		dev->layout.resize( b + n, VK_IMAGE_LAYOUT_UNDEFINED );
		dev->locOwner.resize( b + n, o );
		return b;
	}

	void gpuAppWrite( u32 loc, V v, VkImageLayout lay )
	{
		// the application writes with its own complete synchronisation
		touch( loc );
		dev->content[loc] = v;
		if ( lay != NoLayout ) dev->layout[loc] = lay;
		if ( !dev->reorder || epoch.empty() ) { epochInit[loc] = v; if ( !epoch.empty() ) {} }
		if ( dev->reorder && !epoch.empty() )
		{
			Item n;
			n.app = true; n.sub = ~0u; n.group = u32( groups.size() );
			groups.emplace_back();
			Wr w; w.k = Wr::Const; w.loc = loc; w.acc = VK_ACCESS_MEMORY_WRITE_BIT; w.c = v;
			n.wr.push_back( w );
			n.stage = VK_PIPELINE_STAGE_ALL_COMMANDS_BIT;
			epoch.push_back( n );
		}
	}

	void gpuSubmit( Submission * s )
	{
		Lower L{ s };
		if ( knownDirty && !knownSubs.empty() )
		{
			Item y;
			y.sync = true; y.sub = s->id;
			y.srcRaw = y.srcExp = y.dstRaw = y.dstExp = ALL | TOP | BOT;
			y.mem.push_back( { VK_ACCESS_MEMORY_WRITE_BIT | VK_ACCESS_MEMORY_READ_BIT, VK_ACCESS_MEMORY_WRITE_BIT | VK_ACCESS_MEMORY_READ_BIT, true, {} } );
			y.srcSubs = knownSubs;
			y.dstFromSub = s->id;
			y.host = true;
			epoch.push_back( y );
			knownDirty = false;
		}
		for ( u32 i = 0; i < s->waits.size(); ++i )
		{
			Item y;
			y.sync = true; y.sub = s->id;
			y.srcRaw = y.srcExp = ALL | TOP | BOT;
			y.dstRaw = expandRaw( s->waits[i].second ); y.dstExp = expandDst( s->waits[i].second );
			y.mem.push_back( { VK_ACCESS_MEMORY_WRITE_BIT | VK_ACCESS_MEMORY_READ_BIT, VK_ACCESS_MEMORY_WRITE_BIT | VK_ACCESS_MEMORY_READ_BIT, true, {} } );
			// everything submitted to the signalling queue up to the signal
			if ( i < s->waitSubs.size() )
				for ( auto * w = s->waitSubs[i]; w; w = w->prev ) y.srcSubs.push_back( w->id );
			if ( y.srcSubs.empty() ) y.srcSubs.push_back( ~0u - 1 );
			y.dstFromSub = s->id;
			y.queue = s->q;
			epoch.push_back( y );
		}
		u64 total = 0, k = 0;
		for ( auto * cb : s->cbs ) total += cb->cmds.size();
		int ci = 0;
		for ( auto * cb : s->cbs )
			for ( auto & c : cb->cmds )
			{
				++k;
				L.cmd = ci++;
				u64 t = s->start + ( s->end - s->start ) * k / ( total + 1 );
				if ( c.op == Op::ResetQuery )
				{
					for ( u64 q = c.a[0]; q < c.a[0] + c.a[1]; ++q ) { c.qp->q[q].st = QuerySlot::Reset; c.qp->q[q].sub = s; }
					continue;
				}
				if ( c.op == Op::Probe )
				{
					auto & r = c.ranges[0];
					for ( u32 l = r.baseArrayLayer; l < r.baseArrayLayer + r.layerCount; ++l )
						for ( u32 m = r.baseMipLevel; m < r.baseMipLevel + r.levelCount; ++m )
							for ( u32 a = 0; a < c.img->naspect; ++a )
							{
								auto asp = aspectBit( c.img->info.format, a );
								if ( c.img->naspect == 2 && dev->layout[c.img->loc( l, m, 0 )] != dev->layout[c.img->loc( l, m, 1 )] ) continue;
								if ( !( r.aspectMask & asp ) ) continue;
								auto have = dev->layout[c.img->loc( l, m, a )];
								if ( normLayout( have, asp ) != normLayout( c.lay, asp ) )
									violate( dev->injected && propIs( "C07" ) ? "C07" : "C01", "reported-layout", "recording", "while a pass is recorded, layer %u level %u of %s is reported to be in layout %d and will be in layout %d there", l, m, objStr( c.img ).c_str(), int( c.lay ), int( have ) );
								count( "layouts_probed" );
							}
					continue;
				}
				if ( c.op == Op::WriteTS )
				{
					auto & q = c.qp->q[c.a[0]];
					if ( q.st != QuerySlot::Reset ) { violate( "C11", "write-unreset-query", "timestamp", "timestamp written to query %llu, which was not reset since its last use", ( unsigned long long )c.a[0] ); violate( "C16", "write-unreset-query", "timestamp", "timestamp written to query %llu, which was not reset since its last use", ( unsigned long long )c.a[0] ); }
					q.st = QuerySlot::Written;
					q.sub = s;
					q.time = t;
					q.value = u64( double( t ) / double( dev->props.limits.timestampPeriod ) );
					continue;
				}
				size_t before = L.out.size();
				lowerCmd( L, cb, c );
				for ( size_t i = before; i < L.out.size(); ++i ) exec( L.out[i] );
			}
		for ( auto & it : L.out ) { it.queue = s->q; epoch.push_back( std::move( it ) ); }
		epochSubs.push_back( s->id );
	}

	void gpuHostSync( Submission * )
	{
		knownSubs.clear();
		for ( auto & s : dev->subs ) if ( s.known ) knownSubs.push_back( s.id );
		knownDirty = true;
	}

	// ------------------------------------------------------------------ other execution orders
	namespace
	{
		using Bits = std::vector< u64 >;
		bool bit( Bits const & b, u32 i ) { return ( b[i >> 6] >> ( i & 63 ) ) & 1; }
		void setb( Bits & b, u32 i ) { b[i >> 6] |= 1ull << ( i & 63 ); }

		struct Graph
		{
			u32 n{}, words{};
			std::vector< Bits > reach;   // over items that are syncs
			std::vector< Bits > after;   // of nodes: syncs directly before
			std::vector< std::vector< u32 > > succ;
			bool ordSync( u32 i, u32 s ) const { return bit( reach[i], s ); }
			bool ordNode( u32 i, u32 j ) const
			{
				auto & it = epoch[i];
				if ( it.sync && bit( after[j], i ) ) return true;
				for ( u32 w = 0; w < words; ++w ) if ( reach[i][w] & after[j][w] ) return true;
				return false;
			}
			bool implicit( u32 i, u32 j ) const
			{
				// i before j in recorded order
				auto & a = epoch[i]; auto & b = epoch[j];
				if ( a.app || b.app ) return sharesLoc( a, b );
				if ( a.sync || b.sync ) return false;
				if ( a.group == b.group ) return true;
				// rasterisation order and load/store operations of one attachment in one render pass
				if ( a.rp >= 0 && a.rp == b.rp && attach( a ) && attach( b ) && sharesLoc( a, b ) ) return true;
				return false;
			}
			static bool attach( Item const & x ) { return ( x.stage & ( EF | LF | CO ) ) != 0; }
			static bool sharesLoc( Item const & a, Item const & b )
			{
				auto has = [&]( u32 l )
				{
					for ( auto & r : b.rd ) if ( r.loc == l ) return true;
					for ( auto & r : b.wr ) if ( r.loc == l ) return true;
					for ( auto & r : b.tr ) if ( r.loc == l && r.to != NoLayout ) return true;
					return false;
				};
				for ( auto & r : a.rd ) if ( has( r.loc ) ) return true;
				for ( auto & r : a.wr ) if ( has( r.loc ) ) return true;
				for ( auto & r : a.tr ) if ( r.to != NoLayout && has( r.loc ) ) return true;
				return false;
			}
			bool ord( u32 i, u32 j ) const
			{
				if ( implicit( i, j ) ) return true;
				return epoch[j].sync ? ordSync( i, j ) : ordNode( i, j );
			}
		};

		bool inSrc( Item const & node, Item const & s )
		{
			if ( node.app ) return false;
			if ( s.srcSubs.empty() ) { if ( node.queue != s.queue ) return false; }
			else if ( std::find( s.srcSubs.begin(), s.srcSubs.end(), node.sub ) == s.srcSubs.end() ) return false;
			return ( node.stage & s.srcExp ) == node.stage;
		}
		bool inDst( Item const & node, Item const & s )
		{
			if ( node.app ) return false;
			if ( s.dstFromSub && node.sub < s.dstFromSub ) return false;
			// scopes do not reach other queues; what the host waits for does
			if ( !s.host && node.queue != s.queue ) return false;
			return ( node.stage & s.dstExp ) == node.stage;
		}
		// does the second scope of a meet the first scope of y?
		bool chained( Item const & a, Item const & y )
		{
			if ( !( a.dstExp & y.srcExp ) ) return false;
			auto has = [&y]( u32 sub ) { return std::find( y.srcSubs.begin(), y.srcSubs.end(), sub ) != y.srcSubs.end(); };
			if ( y.srcSubs.empty() ) return a.host || a.queue == y.queue;
			if ( a.host ) return std::any_of( y.srcSubs.begin(), y.srcSubs.end(), [&a]( u32 s ) { return s >= a.sub; } );
			return has( a.sub );
		}
		bool covers( MemB const & m, u32 loc )
		{
			if ( m.all ) return true;
			for ( auto & r : m.locs ) if ( loc >= r.first && loc < r.second ) return true;
			return false;
		}
		bool srcAccess( Item const & s, VkPipelineStageFlags st, VkAccessFlags acc, u32 loc )
		{
			if ( !( st & s.srcRaw ) ) return false;
			for ( auto & m : s.mem ) if ( ( m.src & ( acc | VK_ACCESS_MEMORY_WRITE_BIT ) ) && covers( m, loc ) ) return true;
			return false;
		}
		bool dstAccess( Item const & s, VkPipelineStageFlags st, VkAccessFlags acc, bool write, u32 loc )
		{
			if ( !( st & s.dstRaw ) ) return false;
			VkAccessFlags any = write ? VK_ACCESS_MEMORY_WRITE_BIT : VK_ACCESS_MEMORY_READ_BIT;
			for ( auto & m : s.mem ) if ( ( m.dst & ( acc | any ) ) && covers( m, loc ) ) return true;
			return false;
		}

		struct VisKey { u32 w, r, loc; bool wr; bool operator==( VisKey const & o ) const { return w == o.w && r == o.r && loc == o.loc && wr == o.wr; } };
		struct VisHash { size_t operator()( VisKey const & k ) const { return mix2( mix2( k.w, k.r ), k.loc * 2 + k.wr ); } };
		std::unordered_map< VisKey, bool, VisHash > visCache;

		// is the write of item w to loc (recorded before r) available and visible to r's access?
		bool visible( Graph const & g, u32 w, u32 r, u32 loc, VkAccessFlags wacc, VkAccessFlags racc, bool rIsWrite )
		{
			if ( w >= r ) return false;
			VisKey key{ w, r, loc, rIsWrite };
			auto it = visCache.find( key );
			if ( it != visCache.end() ) return it->second;
			bool res = false;
			auto & W = epoch[w]; auto & R = epoch[r];
			if ( g.implicit( w, r ) ) res = true;
			else
			{
				for ( u32 s1 = w; s1 < g.n && !res; ++s1 )
				{
					// where the write becomes available
					if ( s1 == w ) { if ( !W.sync ) continue; }
					else
					{
						if ( W.sync || !epoch[s1].sync || !g.ordSync( w, s1 ) ) continue;
						if ( !srcAccess( epoch[s1], W.stage, wacc, loc ) ) continue;
					}
					if ( R.sync )
					{
						if ( s1 == r || g.ordSync( s1, r ) ) res = true;
						continue;
					}
					for ( u32 s2 = s1; s2 < r && !res; ++s2 )
					{
						if ( !epoch[s2].sync ) continue;
						if ( s2 != s1 && !g.ordSync( s1, s2 ) ) continue;
						if ( !bit( g.after[r], s2 ) ) continue;
						if ( dstAccess( epoch[s2], R.stage, racc, rIsWrite, loc ) ) res = true;
					}
				}
			}
			visCache.emplace( key, res );
			return res;
		}

		std::string stageStr( VkPipelineStageFlags s )
		{
			static std::pair< VkPipelineStageFlags, char const * > const n[]{ { DI, "INDIRECT" }, { VI, "VERTEX_INPUT" }, { EF, "EARLY" }, { FS, "FRAGMENT" }, { LF, "LATE" }, { CO, "COLOR_OUTPUT" }, { CS, "COMPUTE" }, { TF, "TRANSFER" } };
			std::string r;
			for ( auto & [b, t] : n ) if ( s & b ) r += ( r.empty() ? "" : "|" ) + std::string( t );
			return r.empty() ? "none" : r;
		}
	}

	// message for a difference observed at loc: the first conflicting pair that is not synchronised
	static std::pair< std::string, std::string > hazard( Graph const & g, u32 loc, int reader )
	{
		struct A { u32 i; bool w; VkAccessFlags acc; };
		std::vector< A > acc;
		for ( u32 i = 0; i < g.n; ++i )
		{
			auto & it = epoch[i];
			for ( auto & r : it.rd ) if ( r.loc == loc ) acc.push_back( { i, false, r.acc } );
			for ( auto & w : it.wr ) if ( w.loc == loc ) acc.push_back( { i, true, w.acc } );
			for ( auto & t : it.tr ) if ( t.loc == loc && t.to != NoLayout ) acc.push_back( { i, true, 0 } );
		}
		auto nm = [&]( A const & a )
		{
			auto & it = epoch[a.i];
			return it.sync ? strf( "transition(%s)", opName( it.op ) ) : strf( "%s@%s%s", opName( it.op ), stageStr( it.stage ).c_str(), a.w ? "(w)" : "(r)" );
		};
		auto kind = [&]( A const & a ) { auto & it = epoch[a.i]; return it.sync ? std::string( "transition" ) : stageStr( it.stage ) + ( a.w ? "w" : "r" ); };
		(void)reader;
		for ( size_t y = 1; y < acc.size(); ++y )
			for ( size_t x = y; x-- > 0; )
			{
				if ( acc[x].i == acc[y].i || ( !acc[x].w && !acc[y].w ) ) continue;
				bool ok = g.ord( acc[x].i, acc[y].i );
				if ( ok && acc[x].w ) ok = visible( g, acc[x].i, acc[y].i, loc, acc[x].acc, acc[y].acc, acc[y].w );
				if ( !ok )
					return { kind( acc[x] ) + "->" + kind( acc[y] ) + ( imgOf( loc ) ? ":image" : ":buffer" )
						, strf( "%s (command %d of submission %u) and %s (command %d of submission %u) on %s are not synchronised", nm( acc[x] ).c_str(), epoch[acc[x].i].cmd, epoch[acc[x].i].sub, nm( acc[y] ).c_str(), epoch[acc[y].i].cmd, epoch[acc[y].i].sub, locStr( loc ).c_str() ) };
				if ( acc[x].w ) break;
			}
		return { "indirect", "difference through other resources" };
	}

	static void clearEpoch()
	{
		epoch.clear(); groups.clear(); epochInit.clear(); epochSubs.clear(); visCache.clear();
		knownSubs.clear(); knownDirty = false;
	}

	void gpuIdle()
	{
		if ( epoch.empty() || !dev->reorder ) { clearEpoch(); return; }
		Graph g;
		g.n = u32( epoch.size() );
		g.words = ( g.n + 63 ) / 64;
		g.reach.assign( g.n, Bits( g.words, 0 ) );
		g.after.assign( g.n, Bits( g.words, 0 ) );
		// reach, from the last item backwards
		for ( u32 i = g.n; i-- > 0; )
		{
			auto & a = epoch[i];
			for ( u32 s = i + 1; s < g.n; ++s )
			{
				auto & y = epoch[s];
				if ( !y.sync || bit( g.reach[i], s ) ) continue;
				bool in;
				if ( a.sync ) in = chained( a, y );
				else in = inSrc( a, y );
				if ( in )
				{
					setb( g.reach[i], s );
					for ( u32 w = 0; w < g.words; ++w ) g.reach[i][w] |= g.reach[s][w];
				}
			}
		}
		for ( u32 j = 0; j < g.n; ++j )
			if ( !epoch[j].sync )
				for ( u32 s = 0; s < j; ++s )
					if ( epoch[s].sync && inDst( epoch[j], epoch[s] ) ) setb( g.after[j], s );
		// edges
		std::vector< std::vector< u32 > > succ( g.n );
		std::vector< u32 > indeg0( g.n, 0 );
		for ( u32 i = 0; i < g.n; ++i )
			for ( u32 j = i + 1; j < g.n; ++j )
				if ( g.ord( i, j ) ) { succ[i].push_back( j ); ++indeg0[j]; }
		u32 K = dev->schedules;
		std::vector< V > init;
		for ( u32 k = 0; k < K; ++k )
		{
			Prng rng{ mix2( choose( 1u << 30, "gpu-schedule" ), k ) };
			count( "gpu_schedules" );
			// priorities: random, or recorded order with one item delayed or hurried
			std::vector< u64 > prio( g.n );
			u32 mode = rng.below( 4 );
			for ( u32 i = 0; i < g.n; ++i ) prio[i] = mode == 0 ? rng.next() >> 1 : ( mode == 1 ? ( g.n - i ) : i );
			if ( mode >= 2 ) for ( u32 c = 0; c < 1 + rng.below( 3 ); ++c ) prio[rng.below( g.n )] = mode == 2 ? ~0ull >> 1 : 0;
			bool stale = rng.below( 4 ) != 0;
			std::vector< u32 > indeg = indeg0;
			std::set< std::pair< u64, u32 > > ready;
			for ( u32 i = 0; i < g.n; ++i ) if ( !indeg[i] ) ready.insert( { prio[i], i } );
			struct Hist { u32 item; VkAccessFlags acc; V v; };
			std::unordered_map< u32, std::vector< Hist > > mem;
			auto cur = [&]( u32 loc ) -> std::vector< Hist > &
			{
				auto & h = mem[loc];
				if ( h.empty() ) h.push_back( { ~0u, 0, epochInit.at( loc ) } );
				return h;
			};
			auto readLoc = [&]( u32 r, u32 loc, VkAccessFlags acc, bool wr )
			{
				auto & h = cur( loc );
				size_t at = h.size() - 1;
				while ( at > 0 && stale && !visible( g, h[at].item, r, loc, h[at].acc, acc, wr ) && ( rng.next() & 1 ) ) --at;
				return h[at].v;
			};
			auto writeLoc = [&]( u32 wi, u32 loc, VkAccessFlags acc, V v )
			{
				auto & h = cur( loc );
				size_t at = h.size() - 1;
				bool lost = at > 0 && stale && h[at].item != wi && !visible( g, h[at].item, wi, loc, h[at].acc, acc, true ) && ( rng.next() & 1 );
				if ( lost ) v = h[at].v;
				h.push_back( { wi, acc, v } );
			};
			std::vector< std::vector< V > > vals( groups.size() );
			u64 order = 0;
			int bad = -1; u32 badLoc = 0; V want{}, got{};
			while ( !ready.empty() )
			{
				u32 i = ready.begin()->second;
				ready.erase( ready.begin() );
				order = mix2( order, i );
				auto & it = epoch[i];
				if ( it.sync )
				{
					for ( auto & t : it.tr )
					{
						if ( t.from == VK_IMAGE_LAYOUT_UNDEFINED || t.from == VK_IMAGE_LAYOUT_PREINITIALIZED ) { writeLoc( i, t.loc, 0, undefV( t.loc, true ) ); continue; }
						if ( t.to == NoLayout ) continue;
						V v = readLoc( i, t.loc, 0, true );
						cur( t.loc ).push_back( { i, 0, v } );
					}
				}
				else
				{
					auto & gv = vals[it.group];
					auto & ref = groups[it.group];
					for ( auto & r : it.rd )
					{
						V v = readLoc( i, r.loc, r.acc, false );
						size_t idx = gv.size();
						if ( idx < ref.size() && !ref[idx].taint && !( v == ref[idx] ) && bad < 0 ) { bad = int( i ); badLoc = r.loc; want = ref[idx]; got = v; }
						gv.push_back( v );
					}
					for ( auto & w : it.wr ) writeLoc( i, w.loc, w.acc, compute( w, gv ) );
				}
				for ( u32 j : succ[i] ) if ( --indeg[j] == 0 ) ready.insert( { prio[j], j } );
				if ( bad >= 0 ) break;
			}
			stateSeen( order );
			trace( order );
			if ( bad >= 0 )
			{
				auto hz = hazard( g, badLoc, bad );
				violate( dev->injected && propIs( "C07" ) ? "C07" : "C03", "read-differs", hz.first, "%s of submission %u reads a different value of %s in an allowed GPU order: %s", opName( epoch[u32( bad )].op ), epoch[u32( bad )].sub, locStr( badLoc ).c_str(), hz.second.c_str() );
				continue;
			}
			for ( auto & [loc, h] : mem )
			{
				// final contents; in-order contents are those of the device
				V const & ref = dev->content[loc];
				if ( ref.taint ) continue;
				if ( !( h.back().v == ref ) )
				{
					auto hz = hazard( g, loc, -1 );
					violate( dev->injected && propIs( "C07" ) ? "C07" : "C03", "final-differs", hz.first, "%s ends with different contents in an allowed GPU order: %s", locStr( loc ).c_str(), hz.second.c_str() );
				}
			}
		}
		clearEpoch();
	}
}
