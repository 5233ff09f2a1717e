// The reference model: what a frame means, computed from the declarations alone.
#include "world.hpp"
#include <deque>
#include <algorithm>
#include <cstring>

namespace sim::w
{
	VertexIn vertexIn( WPass const & p )
	{
		VertexIn r;
		if ( p.kind == PK::Quad )
		{
			r.a.push_back( { 0, 0, VK_FORMAT_R32G32_SFLOAT, 0 } );
			if ( p.texcoord ) r.a.push_back( { 1, 0, VK_FORMAT_R32G32_SFLOAT, 8 } );
			r.b.push_back( { 0, 16, VK_VERTEX_INPUT_RATE_VERTEX } );
		}
		else
		{
			r.a.push_back( { 0, 0, VK_FORMAT_R32G32B32_SFLOAT, 0 } );
			r.b.push_back( { 0, 12, VK_VERTEX_INPUT_RATE_VERTEX } );
		}
		return r;
	}
	VkPipelineDepthStencilStateCreateInfo dsState( WPass const & p )
	{
		VkPipelineDepthStencilStateCreateInfo d{ VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO };
		d.depthTestEnable = p.depthTest;
		d.depthWriteEnable = p.depthWrite;
		d.depthCompareOp = VK_COMPARE_OP_LESS_OR_EQUAL;
		d.stencilTestEnable = p.stencilTest;
		return d;
	}
	VkPipelineColorBlendAttachmentState blendState( Use const & u )
	{
		auto bl = crg::DefaultBlendState;
		if ( u.k == UK::ColInOut && u.blend ) { bl.blendEnable = VK_TRUE; bl.srcColorBlendFactor = VK_BLEND_FACTOR_ONE; bl.dstColorBlendFactor = VK_BLEND_FACTOR_ONE_MINUS_SRC_ALPHA; }
		return bl;
	}
	u64 World::modelState( WPass const & p, u32 ix )
	{
		if ( p.kind == PK::Compute ) return 0;
		VkViewport vp{ float( p.pos.x ), float( p.pos.y ), float( p.sizeAt( ix ).width ), float( p.sizeAt( ix ).height ), 0.0f, 1.0f };
		VkRect2D sc{ p.pos, p.sizeAt( ix ) };
		VkPipelineViewportStateCreateInfo vs{ VK_STRUCTURE_TYPE_PIPELINE_VIEWPORT_STATE_CREATE_INFO, nullptr, 0, 1, &vp, 1, &sc };
		auto ds = dsState( p );
		std::vector< VkPipelineColorBlendAttachmentState > bl;
		for ( auto & u : p.uses ) if ( isColour( u.k ) ) bl.push_back( blendState( u ) );
		VkPipelineColorBlendStateCreateInfo bs{ VK_STRUCTURE_TYPE_PIPELINE_COLOR_BLEND_STATE_CREATE_INFO };
		bs.attachmentCount = u32( bl.size() ); bs.pAttachments = bl.data();
		VkPipelineRasterizationStateCreateInfo rs{ VK_STRUCTURE_TYPE_PIPELINE_RASTERIZATION_STATE_CREATE_INFO };
		rs.cullMode = p.kind == PK::Mesh ? p.cull : VkCullModeFlags( VK_CULL_MODE_NONE );
		rs.frontFace = VK_FRONT_FACE_COUNTER_CLOCKWISE;
		VkPipelineInputAssemblyStateCreateInfo ia{ VK_STRUCTURE_TYPE_PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO };
		ia.topology = p.kind == PK::Quad ? VK_PRIMITIVE_TOPOLOGY_TRIANGLE_STRIP : VK_PRIMITIVE_TOPOLOGY_TRIANGLE_LIST;
		auto vi = vertexIn( p );
		VkPipelineVertexInputStateCreateInfo vis{ VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO, nullptr, 0, u32( vi.b.size() ), vi.b.data(), u32( vi.a.size() ), vi.a.data() };
		VkGraphicsPipelineCreateInfo ci{ VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO };
		ci.pViewportState = &vs; ci.pDepthStencilState = &ds; ci.pColorBlendState = &bs; ci.pRasterizationState = &rs; ci.pInputAssemblyState = &ia; ci.pVertexInputState = &vis;
		return hashState( ci );
	}

	Buffer * World::modelQuadVb( bool tex, bool iu, bool iv )
	{
		u32 key = ( iu ? 2u : 0u ) | ( iv ? 4u : 0u );
		auto & b = quadVb[key];
		if ( !b )
		{
			float minU = 0.0f, maxU = 2.0f, minV = -1.0f, maxV = 1.0f;
			if ( iu ) std::swap( minU, maxU );
			if ( iv ) std::swap( minV, maxV );
			float d[12]{ -1, -3, minU, minV, -1, 1, minU, maxV, 3, 1, maxU, maxV };
			b = std::make_unique< Buffer >();
			b->type = T::Buffer;
			b->size = sizeof( d );
			b->ncells = 1;
			b->locBase = allocLocs( b.get(), 1 );
			u8 raw[sizeof( d )];
			memcpy( raw, d, sizeof( d ) );
			u64 h = 0xB0F;
			for ( u8 x : raw ) h = mix2( h, x );
			V v; v.h = h; v.taint = false;
			dev->content[b->locBase] = v;
		}
		return b.get();
	}

	void World::undefine( std::vector< u32 > const & locs )
	{
		for ( auto l : locs ) dev->content[l] = undefV( l, true );
	}

	namespace
	{
		VkImageSubresourceLayers layersOf( WView const & v, u32 mip )
		{
			return { v.r.aspectMask, mip, v.r.baseArrayLayer, v.r.layerCount };
		}
		VkImageSubresourceLayers layersOf( WView const & v ) { return layersOf( v, v.r.baseMipLevel ); }
	}

	void World::modelAction( Act const & a )
	{
		auto & d = Vw( a.view );
		auto & di = I( d.img );
		Cmd c;
		u32 dw = std::max( 1u, di.w >> d.r.baseMipLevel ), dh = std::max( 1u, di.h >> d.r.baseMipLevel );
		switch ( a.k )
		{
		case Act::Clear:
			c.op = aspectMaskOf( di.fmt ) == VK_IMAGE_ASPECT_COLOR_BIT ? Op::ClearColor : Op::ClearDS;
			c.img = &di.mock; c.ranges = { d.r }; c.clears = { a.clear };
			break;
		case Act::Copy:
		{
			auto & s = Vw( a.src );
			if ( a.extent.width != dw || a.extent.height != dh ) undefine( d.locs );
			c.op = Op::CopyImage;
			c.img = &I( s.img ).mock; c.img2 = &di.mock;
			c.icopy.push_back( { layersOf( s ), {}, layersOf( d ), {}, { a.extent.width, a.extent.height, 1 } } );
			break;
		}
		default:
		{
			auto & s = Vw( a.src );
			if ( a.de.width != dw || a.de.height != dh ) undefine( d.locs );
			c.op = Op::Blit;
			c.img = &I( s.img ).mock; c.img2 = &di.mock;
			VkImageBlit b{};
			b.srcSubresource = layersOf( s ); b.dstSubresource = layersOf( d );
			b.srcOffsets[0] = { a.so.x, a.so.y, 0 }; b.srcOffsets[1] = { a.so.x + int( a.se.width ), a.so.y + int( a.se.height ), 1 };
			b.dstOffsets[0] = { a.doff.x, a.doff.y, 0 }; b.dstOffsets[1] = { a.doff.x + int( a.de.width ), a.doff.y + int( a.de.height ), 1 };
			c.blit.push_back( b );
			c.a[0] = u64( a.filter );
			break;
		}
		}
		shadowExec( c );
	}

	crg::VkBufferArray World::drawBuffers( WPass & p, int const * b, u32 what )
	{
		crg::VkBufferArray r;
		if ( p.dyn[what] >= 0 )
		{
			for ( int x : p.bufs[size_t( p.dyn[what] )].bufs ) r.push_back( B( x ).vk );
			return r;
		}
		for ( u32 i = 0; i < ( ( p.perIndex >> what ) & 1 ? p.maxIdx : 1 ); ++i ) r.push_back( B( b[i] ).vk );
		return r;
	}

	void World::modelPass( WPass & p )
	{
		u32 ix = p.index;
		if ( p.foreign >= 0 )
		{
			Cmd c;
			c.op = p.foreignPart.aspectMask == VK_IMAGE_ASPECT_COLOR_BIT ? Op::ClearColor : Op::ClearDS;
			c.img = &I( p.foreign ).mock; c.ranges = { p.foreignPart }; c.clears = { p.foreignClear };
			shadowExec( c );
		}
		// output only uses start from nothing
		for ( auto & u : p.uses )
			if ( u.k == UK::StoOut || u.k == UK::StoClr || u.k == UK::TrOut ) undefine( Vw( u.view( ix ) ).locs );
		for ( auto & u : p.uses )
			if ( u.k == UK::StoClr )
			{
				auto & v = Vw( u.view( ix ) );
				Cmd c;
				c.op = aspectMaskOf( I( v.img ).fmt ) == VK_IMAGE_ASPECT_COLOR_BIT ? Op::ClearColor : Op::ClearDS;
				c.img = &I( v.img ).mock; c.ranges = { v.r }; c.clears = { VkClearValue{} };
				shadowExec( c );
			}
		for ( auto & u : p.bufs )
			if ( u.k == BK::StoClr )
			{
				Cmd c;
				c.op = Op::Fill;
				c.buf = &B( u.buf( ix ) ).mock; c.a[0] = u.off; c.a[1] = u.range; c.a[2] = 0;
				shadowExec( c );
			}
		auto use = [&]( UK k, size_t n ) -> Use *
		{
			for ( auto & u : p.uses ) if ( u.k == k && !n-- ) return &u;
			return nullptr;
		};
		switch ( p.kind )
		{
		case PK::Compute:
		case PK::Quad:
		case PK::Mesh:
		case PK::RPass:
		{
			RenderPass rp;
			Framebuffer fb;
			DescSet set;
			std::deque< Sampler > samplers;
			Pipeline pipe;
			bool gfx = p.kind != PK::Compute;
			Cmd c;
			if ( gfx )
			{
				std::vector< VkClearValue > clears;
				fb.layers = 1;
				for ( auto & u : p.uses )
				{
					if ( !isAttach( u.k ) ) continue;
					auto & v = Vw( u.view( ix ) );
					auto fmt = I( v.img ).fmt;
					auto lay = useLayout( u.k, u.layout );
					VkAttachmentDescription a{};
					a.format = fmt; a.samples = VK_SAMPLE_COUNT_1_BIT;
					a.initialLayout = a.finalLayout = lay;
					bool in = u.k == UK::ColIn || u.k == UK::DepIn || u.k == UK::DSIn || u.k == UK::StIn;
					bool out = !ukReads( u.k );
					auto lo = out ? VK_ATTACHMENT_LOAD_OP_CLEAR : VK_ATTACHMENT_LOAD_OP_LOAD;
					auto so = in ? VK_ATTACHMENT_STORE_OP_DONT_CARE : VK_ATTACHMENT_STORE_OP_STORE;
					bool d = u.k <= UK::DSOut, s = u.k >= UK::DSIn && u.k <= UK::StOut;
					if ( isColour( u.k ) ) s = false;
					a.loadOp = d ? lo : VK_ATTACHMENT_LOAD_OP_DONT_CARE; a.storeOp = d ? so : VK_ATTACHMENT_STORE_OP_DONT_CARE;
					a.stencilLoadOp = s ? lo : VK_ATTACHMENT_LOAD_OP_DONT_CARE; a.stencilStoreOp = s ? so : VK_ATTACHMENT_STORE_OP_DONT_CARE;
					VkAttachmentReference ref{ u32( rp.att.size() ), lay };
					if ( isColour( u.k ) ) rp.col.push_back( ref ); else { rp.hasDepth = true; rp.depth = ref; }
					rp.att.push_back( a );
					fb.views.push_back( &v.mock );
					fb.layers = std::max( fb.layers, v.r.layerCount );
					clears.push_back( u.clear );
				}
				fb.rp = &rp;
				Cmd b;
				b.op = Op::BeginRP;
				b.rp = &rp; b.fb = &fb; b.area = { {}, p.sizeAt( ix ) }; b.clears = clears;
				shadowExec( b );
			}
			if ( p.hasPipeline() )
			{
				for ( auto & u : p.uses )
					if ( isDescr( u.k ) )
					{
						auto & db = set.b[u.binding];
						db.view = &Vw( u.view( ix ) ).mock;
						db.layout = useLayout( u.k, {} );
						if ( u.k == UK::Sampled )
						{
							auto d = samplerOf( u.sampler );
							samplers.emplace_back();
							samplers.back().info = { VK_STRUCTURE_TYPE_SAMPLER_CREATE_INFO, nullptr, 0, d.magFilter, d.minFilter, d.mipmapMode, d.addressModeU, d.addressModeV, d.addressModeW, d.mipLodBias, VK_FALSE, 0.0f, VK_FALSE, VK_COMPARE_OP_ALWAYS, d.minLod, d.maxLod, VK_BORDER_COLOR_FLOAT_TRANSPARENT_BLACK, VK_FALSE };
							db.sampler = &samplers.back();
						}
					}
				for ( auto & u : p.bufs )
				{
					if ( u.k == BK::Implicit ) continue;
					auto & db = set.b[u.binding];
					db.buf = &B( u.buf( ix ) ).mock; db.off = u.off; db.range = u.range;
				}
				pipe.prog = p.prog[p.progMode == 0 ? 0 : ix];
				pipe.state = modelState( p, ix );
				pipe.depthTest = p.depthTest && rp.hasDepth; pipe.depthWrite = p.depthWrite && rp.hasDepth; pipe.stencilTest = p.stencilTest && rp.hasDepth;
				c.dpipe = &pipe; c.dset = &set;
				if ( gfx ) { c.drp = &rp; c.dfb = &fb; }
				if ( p.kind == PK::Compute )
				{
					if ( p.indirect >= 0 ) { c.op = Op::DispatchIndirect; c.buf = &B( drawBuffer( p, indirectBuf, 2, ix ) ).mock; c.a[0] = p.indOff; c.a[3] = 12; }
					else { c.op = Op::Dispatch; for ( int i = 0; i < 3; ++i ) c.a[i] = p.groups[i]; }
				}
				else
				{
					c.dvb = p.kind == PK::Quad ? modelQuadVb( p.texcoord, p.invU, p.invV ) : &B( drawBuffer( p, vertexBuf, 0, ix ) ).mock;
					if ( p.kind == PK::Mesh && p.indexed ) { c.dib = &B( drawBuffer( p, indexBuf, 1, ix ) ).mock; c.ditype = p.indexType == 2 ? VK_INDEX_TYPE_UINT16 : VK_INDEX_TYPE_UINT32; }
					if ( p.indirect >= 0 )
					{
						c.op = c.dib ? Op::DrawIndexedIndirect : Op::DrawIndirect;
						c.buf = &B( drawBuffer( p, indirectBuf, 2, ix ) ).mock; c.a[0] = p.indOff; c.a[1] = 1; c.a[2] = p.indStride; c.a[3] = c.dib ? 20 : 16;
					}
					else if ( c.dib ) { c.op = Op::DrawIndexed; c.a[0] = p.primCount; c.a[1] = 1; }
					else { c.op = Op::Draw; c.a[0] = p.kind == PK::Quad ? 3 : p.primCount; c.a[1] = p.kind == PK::Quad ? p.instances : 1; }
				}
				shadowExec( c );
			}
			if ( gfx )
			{
				Cmd e;
				e.op = Op::EndRP;
				e.rp = &rp; e.fb = &fb;
				shadowExec( e );
			}
			break;
		}
		case PK::Copy:
			for ( size_t n = 0;; ++n )
			{
				auto * s = use( UK::TrIn, n ); auto * d = use( UK::TrOut, n );
				if ( !s || !d ) break;
				auto & sv = Vw( s->view( ix ) ); auto & dv = Vw( d->view( ix ) );
				Cmd c;
				c.op = Op::CopyImage;
				c.img = &I( sv.img ).mock; c.img2 = &I( dv.img ).mock;
				c.icopy.push_back( { layersOf( sv ), {}, layersOf( dv ), {}, p.copySize } );
				shadowExec( c );
			}
			break;
		case PK::Blit:
		{
			auto & sv = Vw( use( UK::TrIn, 0 )->view( ix ) ); auto & dv = Vw( use( UK::TrOut, 0 )->view( ix ) );
			Cmd c;
			c.op = Op::Blit;
			c.img = &I( sv.img ).mock; c.img2 = &I( dv.img ).mock;
			VkImageBlit b{};
			b.srcSubresource = layersOf( sv ); b.dstSubresource = layersOf( dv );
			b.srcOffsets[0] = p.so; b.srcOffsets[1] = { p.so.x + int( p.se.width ), p.so.y + int( p.se.height ), p.so.z + int( p.se.depth ) };
			b.dstOffsets[0] = p.doff; b.dstOffsets[1] = { p.doff.x + int( p.de.width ), p.doff.y + int( p.de.height ), p.doff.z + int( p.de.depth ) };
			c.blit.push_back( b );
			c.a[0] = u64( p.filter );
			shadowExec( c );
			break;
		}
		case PK::BufCopy:
		{
			Cmd c;
			c.op = Op::CopyBuffer;
			auto & s = p.bufs[0]; auto & d = p.bufs[1];
			c.buf = &B( s.buf( ix ) ).mock; c.buf2 = &B( d.buf( ix ) ).mock;
			c.bcopy.push_back( { s.off + p.bcOff, d.off + p.bcOff, p.bcRange } );
			shadowExec( c );
			break;
		}
		case PK::BufToImg:
		case PK::ImgToBuf:
		{
			Cmd c;
			bool to = p.kind == PK::BufToImg;
			c.op = to ? Op::CopyBufImg : Op::CopyImgBuf;
			auto & v = Vw( p.uses[0].view( ix ) );
			c.img = &I( v.img ).mock;
			c.buf = &B( p.bufs[0].buf( ix ) ).mock;
			c.bic.push_back( { p.bufs[0].off, 0, 0, layersOf( v ), p.so, p.copySize } );
			shadowExec( c );
			break;
		}
		case PK::Mips:
		{
			auto & v = Vw( p.uses[0].view( ix ) );
			auto & im = I( v.img );
			for ( u32 l = v.r.baseArrayLayer; l < v.r.baseArrayLayer + v.r.layerCount; ++l )
				for ( u32 m = 1; m < im.mips; ++m )
				{
					Cmd c;
					c.op = Op::Blit;
					c.img = c.img2 = &im.mock;
					auto e = mipExtent( &im.mock, m - 1 ), f = mipExtent( &im.mock, m );
					VkImageBlit b{};
					b.srcSubresource = { v.r.aspectMask, m - 1, l, 1 }; b.dstSubresource = { v.r.aspectMask, m, l, 1 };
					b.srcOffsets[1] = { int( e.width ), int( e.height ), int( e.depth ) };
					b.dstOffsets[1] = { int( f.width ), int( f.height ), int( f.depth ) };
					c.blit.push_back( b );
					c.a[0] = u64( VK_FILTER_LINEAR );
					shadowExec( c );
				}
			break;
		}
		default:
			for ( auto & u : p.uses )
				if ( u.k == UK::TrOut )
				{
					auto & v = Vw( u.view( ix ) );
					Cmd c;
					c.op = aspectMaskOf( I( v.img ).fmt ) == VK_IMAGE_ASPECT_COLOR_BIT ? Op::ClearColor : Op::ClearDS;
					c.img = &I( v.img ).mock; c.ranges = { v.r }; c.clears = { u.clear };
					if ( auto * im = customCopySrc( p, u ) )
					{
						auto & sv = Vw( im->view( ix ) );
						c = Cmd{};
						c.op = Op::CopyImage;
						c.img = &I( sv.img ).mock; c.img2 = &I( v.img ).mock;
						auto e = mipExtent( c.img2, v.r.baseMipLevel );
						c.icopy.push_back( { layersOf( sv ), {}, layersOf( v ), {}, e } );
					}
					shadowExec( c );
				}
			for ( auto & u : p.bufs )
				if ( u.k == BK::TrOut )
				{
					Cmd c;
					c.op = Op::Fill;
					c.buf = &B( u.buf( ix ) ).mock; c.a[0] = u.partOff; c.a[1] = u.partRange; c.a[2] = u.value;
					if ( auto * s = customBufSrc( p, u ) )
					{
						c = Cmd{};
						c.op = Op::CopyBuffer;
						c.buf = &B( s->buf( ix ) ).mock; c.buf2 = &B( u.buf( ix ) ).mock;
						c.bcopy.push_back( { s->off, u.off, std::min( s->range, u.range ) } );
					}
					shadowExec( c );
				}
			for ( auto & u : p.uses )
				if ( u.k == UK::TrInOut )
				{
					auto & v = Vw( u.view( ix ) );
					Cmd c;
					c.op = aspectMaskOf( I( v.img ).fmt ) == VK_IMAGE_ASPECT_COLOR_BIT ? Op::ClearColor : Op::ClearDS;
					auto r = u.part;
					r.baseMipLevel += v.r.baseMipLevel; r.baseArrayLayer += v.r.baseArrayLayer;
					c.img = &I( v.img ).mock; c.ranges = { r }; c.clears = { u.clear };
					shadowExec( c );
				}
			for ( auto & u : p.bufs )
				if ( u.k == BK::TrInOut )
				{
					Cmd c;
					c.op = Op::Fill;
					c.buf = &B( u.buf( ix ) ).mock; c.a[0] = u.partOff; c.a[1] = u.partRange; c.a[2] = u.value;
					shadowExec( c );
				}
			break;
		}
		// what an input only attachment held is consumed
	}

	Use * World::customCopySrc( WPass & p, Use const & dst )
	{
		for ( auto & u : p.uses )
			if ( u.k == UK::TrIn || u.k == UK::TrInOut || ( u.k == UK::Implicit && u.layout == VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) )
			{
				auto & a = Vw( u.views[0] ); auto & b = Vw( dst.views[0] );
				auto & x = I( a.img ); auto & y = I( b.img );
				if ( x.fmt != y.fmt || a.r.levelCount != 1 || b.r.levelCount != 1 || a.r.layerCount != b.r.layerCount || a.r.aspectMask != b.r.aspectMask ) continue;
				auto e = mipExtent( &x.mock, a.r.baseMipLevel ), f = mipExtent( &y.mock, b.r.baseMipLevel );
				if ( e.width == f.width && e.height == f.height && e.depth == f.depth && x.vol == y.vol ) return &u;
			}
		return nullptr;
	}

	BUse * World::customBufSrc( WPass & p, BUse const & )
	{
		for ( auto & u : p.bufs ) if ( u.k == BK::TrIn || u.k == BK::TrInOut || u.k == BK::Implicit ) return &u;
		return nullptr;
	}

	void World::modelFrame( WGraph & g )
	{
		struct P { WPass * p; Act * a; };
		std::vector< P > pending;
		std::function< void( int, int ) > flush = [&]( int view, int user )
		{
			for ( bool again = true; again; )
			{
				again = false;
				for ( size_t i = 0; i < pending.size(); ++i )
					if ( pending[i].a->view == view )
					{
						auto e = pending[i];
						pending.erase( pending.begin() + long( i ) );
						if ( e.a->src >= 0 ) flush( e.a->src, user );
						modelAction( *e.a );
						evModel.push_back( { Ev::Action, g.idx, e.p->idx, u32( e.a->view ), u32( user ) } );
						again = true;
						break;
					}
			}
		};
		for ( auto & pp : g.passes )
		{
			auto & p = *pp;
			if ( p.enabled )
			{
				for ( auto & u : p.uses ) flush( u.view( p.index ), p.idx );
				modelPass( p );
			}
			else
				for ( auto & a : p.acts ) pending.push_back( { &p, &a } );
		}
	}
}
