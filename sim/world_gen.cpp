// Generation: graphs, images, views, passes and their declared dependencies from seeded choices.
#include "world.hpp"
#include <algorithm>

namespace sim::w
{
	char const * pkName( PK k )
	{
		static char const * n[]{ "Compute", "Quad", "Mesh", "RenderPass", "ImageCopy", "ImageBlit", "BufferCopy", "BufferToImage", "ImageToBuffer", "Mipmaps", "Custom" };
		return n[int( k )];
	}
	char const * ukName( UK k )
	{
		static char const * n[]{ "sampled", "storage-in", "storage-out", "storage-clear", "storage-inout", "transfer-in", "transfer-out", "transfer-inout"
			, "colour-in", "colour-inout", "colour-out", "depth-in", "depth-inout", "depth-out", "ds-in", "ds-inout", "ds-out", "stencil-in", "stencil-inout", "stencil-out", "implicit" };
		return n[int( k )];
	}
	VkImageLayout useLayout( UK k, VkImageLayout implicit )
	{
		bool sep = dev->separateDS;
		switch ( k )
		{
		case UK::Sampled: return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		case UK::StoIn: case UK::StoOut: case UK::StoClr: case UK::StoInOut: return VK_IMAGE_LAYOUT_GENERAL;
		case UK::TrIn: return VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL;
		case UK::TrOut: case UK::TrInOut: return VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
		case UK::ColIn: case UK::ColInOut: case UK::ColOut: return VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
		case UK::DepIn: return sep ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case UK::DepInOut: case UK::DepOut: return sep ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		case UK::DSIn: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case UK::DSInOut: case UK::DSOut: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		case UK::StIn: return sep ? VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case UK::StInOut: case UK::StOut: return sep ? VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		default: return implicit;
		}
	}

	namespace
	{
		bool isDepthFmt( VkFormat f ) { return aspectMaskOf( f ) != VK_IMAGE_ASPECT_COLOR_BIT; }
		bool isCombined( VkFormat f ) { return aspectsOf( f ) == 2; }
		bool isStencilOnly( VkFormat f ) { return aspectMaskOf( f ) == VK_IMAGE_ASPECT_STENCIL_BIT; }

		struct Cand { int img; u32 mip, nmips, layer, nlayers; VkImageAspectFlags asp{}; /* one aspect of a combined format, or all there are */ };
		struct Want
		{
			UK uk{};
			bool single{ true };        // one mip level
			bool allMips{ false };      // all the levels of the image
			bool whole{ false };        // the whole image
			bool toggle{ true };        // the pass may be disabled
			u32 maxLayers{ 64 };
			std::function< bool( Cand const & ) > extra;
		};

		struct Gen
		{
			World & w;
			WGraph & g;
			WPass * p{};
			std::set< u32 > used;           // by the pass being made
			std::set< u32 > written;        // locations written by passes so far, or by others
			std::set< u32 > firstWritten;   // images whose first user has been made
			std::vector< World::Lock > locks;
			std::map< int, std::vector< u32 > > touched; // image: passes
			u32 binding{ 0 };

			Gen( World & ww, WGraph & gg ) : w{ ww }, g{ gg } {}

			std::vector< u32 > locsOf( Cand const & c )
			{
				auto & i = w.I( c.img );
				std::vector< u32 > r;
				for ( u32 l = c.layer; l < c.layer + c.nlayers; ++l )
					for ( u32 m = c.mip; m < c.mip + c.nmips; ++m )
						for ( u32 a = 0; a < i.mock.naspect; ++a ) if ( !c.asp || ( c.asp & aspectBit( i.fmt, a ) ) ) r.push_back( i.mock.loc( l, m, a ) );
				return r;
			}
			std::vector< int > images()
			{
				std::vector< int > r;
				for ( auto & i : w.imgs )
				{
					if ( i->graph == g.idx ) { r.push_back( i->idx ); continue; }
					if ( !i->shared ) continue;
					// every graph which uses the image must be one this graph depends on
					bool ok = true;
					for ( auto & o : w.graphs )
						if ( o->idx != g.idx && std::find( o->images.begin(), o->images.end(), i->idx ) != o->images.end()
							&& std::find( g.allDeps.begin(), g.allDeps.end(), o->idx ) == g.allDeps.end() )
							ok = false;
					if ( ok ) r.push_back( i->idx );
				}
				return r;
			}
			VkImageAspectFlags aspOf( Cand const & c ) { return c.asp ? c.asp : aspectMaskOf( w.I( c.img ).fmt ); }
			// the range of a view, for one mip level
			Cand refOf( int view )
			{
				auto & v = w.Vw( view );
				return { v.img, v.r.baseMipLevel, 1, v.r.baseArrayLayer, v.r.layerCount, v.r.aspectMask == aspectMaskOf( w.I( v.img ).fmt ) ? 0u : v.r.aspectMask };
			}
			World::Lock const * lockOn( Cand const & c, bool & bad, bool write )
			{
				World::Lock const * r{};
				auto L = locsOf( c );
				for ( auto & k : locks )
				{
					auto & v = w.Vw( k.view );
					bool ov = false, sv = false;
					for ( auto l : L )
					{
						if ( std::find( v.locs.begin(), v.locs.end(), l ) != v.locs.end() ) ov = true;
						if ( k.src >= 0 ) { auto & s = w.Vw( k.src ); if ( std::find( s.locs.begin(), s.locs.end(), l ) != s.locs.end() ) sv = true; }
					}
					if ( ov )
					{
						if ( v.img == c.img && v.r.baseMipLevel == c.mip && v.r.levelCount == c.nmips && v.r.baseArrayLayer == c.layer && v.r.layerCount == c.nlayers && v.r.aspectMask == aspOf( c ) ) r = &k;
						else bad = true;
					}
					if ( sv && write ) bad = true;
				}
				return r;
			}
			bool accept( Cand const & c, Want const & wt )
			{
				auto & i = w.I( c.img );
				if ( i.vol && isAttach( wt.uk ) ) return false;
				bool wr = ukWrites( wt.uk ), rd = ukReads( wt.uk );
				if ( wr && i.noWrite ) return false;
				bool first = i.graph == g.idx && i.shared && !touched.count( c.img );
				if ( first && ( wt.uk != UK::TrOut || !wt.whole || wt.toggle ) ) return false;
				if ( wt.whole && !( c.nmips == i.mips && c.nlayers == i.layers ) ) return false;
				if ( c.nlayers > wt.maxLayers ) return false;
				bool depth = isDepthFmt( i.fmt ), comb = isCombined( i.fmt );
				if ( c.asp && ( wt.whole || wt.allMips || ( wt.uk != UK::Sampled && wt.uk != UK::TrIn && wt.uk != UK::TrOut ) ) ) return false;
				switch ( wt.uk )
				{
				case UK::Sampled: if ( comb && !c.asp ) return false; break;
				case UK::StoIn: case UK::StoOut: case UK::StoClr: case UK::StoInOut: if ( depth ) return false; break;
				case UK::ColIn: case UK::ColInOut: case UK::ColOut: if ( depth ) return false; break;
				case UK::DepIn: case UK::DepInOut: case UK::DepOut: if ( !depth || isStencilOnly( i.fmt ) || ( comb && dev->separateDS ) ) return false; break;
				case UK::DSIn: case UK::DSInOut: case UK::DSOut: if ( !comb ) return false; break;
				case UK::StIn: case UK::StInOut: case UK::StOut: if ( !isStencilOnly( i.fmt ) && ( !comb || dev->separateDS ) ) return false; break;
				default: break;
				}
				for ( auto l : locsOf( c ) ) if ( used.count( l ) ) return false;
				bool bad = false;
				auto * k = lockOn( c, bad, wr );
				if ( bad ) return false;
				( void )rd;
				if ( k )
				{
					// a user writes the view through the fallback and reads its source
					if ( wt.uk == UK::Implicit && w.Vw( k->view ).img != c.img ) return false;
					std::set< u32 > rs;
					lockReads( k->view, rs );
					for ( auto l : rs ) if ( used.count( l ) ) return false;
				}
				return !wt.extra || wt.extra( c );
			}
			void lockReads( int view, std::set< u32 > & r, int depth = 0 )
			{
				if ( depth > 8 ) return;
				for ( auto & k : locks )
					if ( k.view == view && k.src >= 0 )
					{
						for ( auto l : w.Vw( k.src ).locs ) r.insert( l );
						lockReads( k.src, r, depth + 1 );
					}
			}
			// chooses a range, or nothing
			std::optional< Cand > pick( Want const & wt, std::vector< int > const * only = nullptr )
			{
				std::vector< Cand > c, pref;
				for ( int i : only ? *only : images() )
				{
					auto & im = w.I( i );
					auto add = [&]( u32 m, u32 nm, u32 l, u32 nl )
					{
						// the aspects of combined formats are tracked together: views of one of them need the device to keep them in one layout
						for ( u32 asp : { 0u, u32( VK_IMAGE_ASPECT_DEPTH_BIT ), u32( VK_IMAGE_ASPECT_STENCIL_BIT ) } )
						{
							if ( asp && ( dev->separateDS || !isCombined( im.fmt ) ) ) break;
							Cand k{ i, m, nm, l, nl, asp };
							if ( !accept( k, wt ) ) continue;
							c.push_back( k );
							auto L = locsOf( k );
							if ( std::all_of( L.begin(), L.end(), [&]( u32 x ) { return written.count( x ) > 0; } ) ) pref.push_back( k );
						}
					};
					for ( u32 m = 0; m < im.mips; ++m )
						for ( u32 nm = 1; m + nm <= im.mips; ++nm )
						{
							if ( wt.single && nm != 1 ) continue;
							if ( wt.allMips && !( m == 0 && nm == im.mips ) ) continue;
							for ( u32 l = 0; l < im.layers; ++l )
								for ( u32 nl = 1; l + nl <= im.layers; ++nl )
									add( m, nm, l, nl );
						}
				}
				if ( c.empty() ) return std::nullopt;
				if ( ukReads( wt.uk ) && !pref.empty() && choose( 5, "fresh-read" ) != 4 ) c = pref;
				return c[choose( u32( c.size() ), "view" )];
			}
			int viewOf( Cand const & c )
			{
				return w.findView( g.idx, c.img, c.mip, c.nmips, c.layer, c.nlayers, aspOf( c ) );
			}
			// registers the accesses of a use of the pass
			void take( Cand const & c, UK uk )
			{
				int v = viewOf( c );
				// the aspects of a subresource are in one layout
				auto all = c;
				all.asp = 0;
				for ( auto l : locsOf( all ) ) used.insert( l );
				for ( auto l : locsOf( c ) )
				{
					if ( ukReads( uk ) ) p->rd.insert( l );
					if ( ukWrites( uk ) ) { p->wr.insert( l ); }
				}
				// output only uses discard what the image held: reading back is impossible, so the range is written as a whole
				for ( auto & k : locks )
					if ( k.view == v )
					{
						for ( auto l : w.Vw( v ).locs ) p->wr.insert( l );
						lockReads( v, p->rd );
					}
				touched[c.img].push_back( u32( p->idx ) );
				if ( std::find( g.images.begin(), g.images.end(), c.img ) == g.images.end() ) g.images.push_back( c.img );
			}
			bool same( Cand const & a, Cand const & b, bool dims )
			{
				auto & x = w.I( a.img ); auto & y = w.I( b.img );
				return x.fmt == y.fmt && a.asp == b.asp && a.nlayers == b.nlayers && a.nmips == b.nmips && x.vol == y.vol && x.line == y.line && ( !dims || ( mipD( a ) == mipD( b ) &&  std::max( 1u, x.w >> a.mip ) == std::max( 1u, y.w >> b.mip ) && std::max( 1u, x.h >> a.mip ) == std::max( 1u, y.h >> b.mip ) ) );
			}
			// one use, possibly different for each index
			Use * addUse( Want wt, bool desc, bool indexed = true )
			{
				wt.toggle = p->canToggle;
				auto c = pick( wt );
				if ( !c ) return nullptr;
				Use u;
				u.k = wt.uk;
				take( *c, wt.uk );
				u.views.push_back( viewOf( *c ) );
				if ( indexed && p->maxIdx > 1 && choose( 2, "indexed-view" ) )
				{
					bool free = onlyAttach && isAttach( wt.uk ); // each index can have a size of its own
					for ( u32 n = 1; n < p->maxIdx; ++n )
					{
						Want w2 = wt;
						auto ref = *c;
						auto old = wt.extra;
						w2.extra = [this, ref, old, free]( Cand const & k ) { return same( ref, k, !free ) && ( !old || old( k ) ); };
						auto d = pick( w2 );
						if ( !d ) { u.views.resize( 1 ); break; }
						take( *d, wt.uk );
						u.views.push_back( viewOf( *d ) );
					}
				}
				if ( desc ) u.binding = binding++;
				if ( wt.uk == UK::Sampled && choose( 2, "sampler" ) ) u.sampler = choose( 11, "which-sampler" );
				if ( !w.I( c->img ).vol && ( c->nlayers > 1 || c->nmips > 1 ) && choose( 4, "merged" ) == 3 )
					u.merged = c->nlayers > 1 && ( c->nmips == 1 || choose( 2, "merged-by" ) ) ? 1 : 2;
				p->uses.push_back( std::move( u ) );
				return &p->uses.back();
			}
			u32 mipW( Cand const & c ) { return std::max( 1u, w.I( c.img ).w >> c.mip ); }
			u32 mipH( Cand const & c ) { return std::max( 1u, w.I( c.img ).h >> c.mip ); }
			u32 mipD( Cand const & c ) { return std::max( 1u, w.I( c.img ).d >> c.mip ); }
			u32 vd( int v ) { return std::max( 1u, w.I( w.Vw( v ).img ).d >> w.Vw( v ).r.baseMipLevel ); }
			u32 vw( int v ) { return std::max( 1u, w.I( w.Vw( v ).img ).w >> w.Vw( v ).r.baseMipLevel ); }
			u32 vh( int v ) { return std::max( 1u, w.I( w.Vw( v ).img ).h >> w.Vw( v ).r.baseMipLevel ); }

			int newBuf( u64 size, bool constant )
			{
				auto b = std::make_unique< WBuf >();
				b->idx = int( w.bufs.size() );
				b->name = strf( "buf%d", b->idx );
				b->constant = constant;
				b->graph = constant ? -1 : g.idx;
				b->shared = !constant && choose( 3, "shared-buffer" ) == 2;
				b->vk = userCreateBuffer( size, VK_BUFFER_USAGE_TRANSFER_SRC_BIT | VK_BUFFER_USAGE_TRANSFER_DST_BIT | VK_BUFFER_USAGE_STORAGE_BUFFER_BIT | VK_BUFFER_USAGE_UNIFORM_BUFFER_BIT
					| VK_BUFFER_USAGE_UNIFORM_TEXEL_BUFFER_BIT | VK_BUFFER_USAGE_STORAGE_TEXEL_BUFFER_BIT | VK_BUFFER_USAGE_VERTEX_BUFFER_BIT | VK_BUFFER_USAGE_INDEX_BUFFER_BIT | VK_BUFFER_USAGE_INDIRECT_BUFFER_BIT, b->idx );
				b->real = static_cast< Buffer * >( findObj( T::Buffer, u64( b->vk ) ) );
				b->mock.type = T::Buffer;
				b->mock.size = size;
				b->mock.ncells = b->real->ncells;
				b->mock.locBase = allocLocs( &b->mock, b->mock.ncells );
				for ( u32 c = 0; c < b->mock.ncells; ++c )
				{
					V v = vconst( mix2( 0xBBBB, w.nextVal++ ) );
					userSetBuffer( b->real, c, v );
					dev->content[b->mock.locBase + c] = v;
				}
				w.bufs.push_back( std::move( b ) );
				return w.bufs.back()->idx;
			}
			bool bufFree( int b, u64 off, u64 range )
			{
				auto & m = w.B( b ).mock;
				for ( u32 c = u32( off / CellSize ); c * CellSize < off + range; ++c ) if ( used.count( m.locBase + c ) ) return false;
				return true;
			}
			void takeBuf( int b, u64 off, u64 range, bool rd, bool wr )
			{
				auto & m = w.B( b ).mock;
				w.B( b ).users.insert( g.idx );
				for ( u32 c = u32( off / CellSize ); c * CellSize < off + range; ++c )
				{
					used.insert( m.locBase + c );
					if ( rd ) p->rd.insert( m.locBase + c );
					// a range which ends inside a cell leaves the rest of it
					if ( wr ) { p->wr.insert( m.locBase + c ); if ( ( c + 1 ) * CellSize > off + range ) p->rd.insert( m.locBase + c ); }
				}
			}
			std::vector< int > pool()
			{
				std::vector< int > r;
				for ( auto & b : w.bufs )
				{
					if ( b->constant || b->mock.size > 512 ) continue;
					if ( b->graph != g.idx )
					{
						// every graph which uses the buffer must be one this graph depends on
						if ( !b->shared ) continue;
						bool ok = true;
						for ( int o : b->users ) if ( o != g.idx && std::find( g.allDeps.begin(), g.allDeps.end(), o ) == g.allDeps.end() ) ok = false;
						if ( !ok ) continue;
					}
					r.push_back( b->idx );
				}
				return r;
			}
			BUse * addBuf( BK k, bool desc )
			{
				auto bs = pool();
				if ( bs.size() < 2 || ( bs.size() < 4 && choose( 3, "new-buffer" ) == 2 ) ) bs.push_back( newBuf( 64u * chooseRange( 1, 6, "buffer-size" ), false ) );
				BUse u;
				u.k = k;
				int b = bs[choose( u32( bs.size() ), "buffer" )];
				u32 cells = u32( w.B( b ).mock.size / CellSize );
				u32 c0 = choose( cells, "buffer-offset" );
				u32 n = 1 + choose( cells - c0, "buffer-range" );
				u.off = c0 * CellSize;
				u.range = n * CellSize;
				if ( k != BK::Uniform && choose( 4, "ragged" ) == 3 ) u.range -= 16;
				if ( !bufFree( b, u.off, u.range ) ) return nullptr;
				u.bufs.push_back( b );
				takeBuf( b, u.off, u.range, bkReads( k ), bkWrites( k ) );
				if ( desc && p->maxIdx > 1 && choose( 3, "indexed-buffer" ) == 2 )
				{
					for ( int o : bs )
						if ( o != b && w.B( o ).mock.size >= u.off + u.range && bufFree( o, u.off, u.range ) )
						{
							u.bufs.push_back( o );
							takeBuf( o, u.off, u.range, bkReads( k ), bkWrites( k ) );
							if ( u.bufs.size() == p->maxIdx ) break;
						}
					if ( u.bufs.size() < p->maxIdx ) u.bufs.resize( 1 );
				}
				if ( desc ) u.binding = binding++;
				// there is one view for all indices
				if ( u.bufs.size() == 1 && desc && ( k < BK::TrIn || k == BK::Implicit ) ) u.texel = choose( 4, "texel" ) == 3;
				u.whole = desc && std::all_of( u.bufs.begin(), u.bufs.end(), [&]( int x ) { return w.B( x ).mock.size == u.off + u.range; } ) && choose( 2, "whole-size" );
				p->bufs.push_back( std::move( u ) );
				return &p->bufs.back();
			}
			// vertices, indices or indirect parameters which passes of the graph may write
			void addDraw( u32 what, crg::AccessState want )
			{
				static u64 const need[]{ 256, 128, 64 };
				std::vector< int > ok;
				for ( int b : pool() ) if ( w.B( b ).mock.size >= need[what] && bufFree( b, 0, w.B( b ).mock.size ) ) ok.push_back( b );
				if ( ok.size() < 2 && choose( 2, "new-buffer" ) ) ok.push_back( newBuf( std::max( need[what], u64( 64u * chooseRange( 1, 5, "buffer-size" ) ) ), false ) );
				if ( ok.empty() ) return;
				BUse u;
				u.k = BK::Implicit;
				u.want = want;
				size_t n = p->maxIdx > 1 && ok.size() >= p->maxIdx && choose( 2, "indexed-buffer" ) ? p->maxIdx : 1;
				size_t first = choose( u32( ok.size() - n + 1 ), "buffer" );
				u.range = what == 2 && choose( 2, "part" ) ? need[2] : ~0ull;
				for ( size_t i = 0; i < n; ++i )
				{
					int b = ok[first + i];
					u.bufs.push_back( b );
					if ( u.range != need[2] ) u.range = std::min( u.range, w.B( b ).mock.size );
				}
				for ( int b : u.bufs ) takeBuf( b, 0, w.B( b ).mock.size, true, false );
				if ( u.range != need[2] && n == 1 && choose( 2, "whole-size" ) ) u.range = VK_WHOLE_SIZE;
				if ( n == 1 ) u.texel = choose( 4, "texel" ) == 3;
				p->dyn[what] = int( p->bufs.size() );
				p->bufs.push_back( std::move( u ) );
				count( "implicit_buffers" );
			}

			bool genCompute()
			{
				bool wr = false;
				for ( u32 i = 0; more( i, 0, 2, "sampled" ); ++i ) addUse( { UK::Sampled, choose( 3, "multi-mip" ) != 2 }, true );
				for ( u32 i = 0; more( i, 0, 2, "storages" ); ++i )
				{
					static UK const ks[]{ UK::StoOut, UK::StoInOut, UK::StoIn, UK::StoClr, UK::StoOut, UK::StoInOut };
					auto k = ks[choose( 6, "storage-kind" )];
					if ( auto * u = addUse( { k }, true ) ) wr |= ukWrites( u->k );
				}
				for ( u32 i = 0; more( i, 0, 2, "buffers" ); ++i )
				{
					static BK const ks[]{ BK::Uniform, BK::StoInOut, BK::StoIn, BK::StoOut, BK::StoClr };
					auto k = ks[choose( 5, "buffer-kind" )];
					if ( auto * u = addBuf( k, true ) ) wr |= bkWrites( u->k );
				}
				if ( !wr )
				{
					if ( !addUse( { UK::StoOut }, true ) && !addBuf( BK::StoInOut, true ) ) return false;
				}
				for ( int i = 0; i < 3; ++i )
				{
					p->groupMode[i] = choose( 3, "groups-mode" );
					p->groups[i] = p->groupMode[i] ? chooseRange( 1, 4, "groups" ) : 1;
				}
				if ( choose( 5, "indirect" ) == 4 ) { p->indirect = w.indirectBuf[0]; p->indOff = 16 * choose( 3, "indirect-offset" ); }
				if ( p->maxIdx > 1 ) p->perIndex = choose( 2, "buffers-per-index" ) * 4;
				if ( p->indirect >= 0 && choose( 2, "implicit-buffer" ) ) addDraw( 2, { VK_ACCESS_INDIRECT_COMMAND_READ_BIT, VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT } );
				return true;
			}
			// attachments of graphics passes
			bool onlyAttach{ false };
			bool genAttachments()
			{
				onlyAttach = p->maxIdx > 1 && choose( 2, "sizes-per-index" );
				struct Reset { bool & b; ~Reset() { b = false; } } reset{ onlyAttach };
				std::optional< Cand > ref;
				auto sized = [&]( Cand const & k )
				{
					if ( !ref ) return true;
					return mipW( k ) == mipW( *ref ) && mipH( k ) == mipH( *ref ) && k.nlayers == ref->nlayers;
				};
				auto setRef = [&]( Use & u )
				{
					ref = refOf( u.views[0] );
				};
				for ( u32 i = 0; more( i, 0, onlyAttach ? 1 : 2, "colours" ); ++i )
				{
					static UK const ks[]{ UK::ColOut, UK::ColInOut, UK::ColOut, UK::ColInOut, UK::ColIn };
					Want wt; wt.uk = ks[choose( 5, "colour-kind" )]; wt.extra = sized;
					if ( auto * u = addUse( wt, false ) )
					{
						setRef( *u );
						u->clear = clearFor( w.I( w.Vw( u->views[0] ).img ).fmt );
						u->blend = u->k == UK::ColInOut && choose( 3, "blend" ) == 2;
					}
				}
				if ( ( choose( 3, "depth" ) == 2 && !onlyAttach ) || !ref )
				{
					static UK const ks[]{ UK::DepOut, UK::DepInOut, UK::DepIn, UK::DSOut, UK::DSInOut, UK::DSIn, UK::StInOut, UK::StOut, UK::StIn };
					Want wt; wt.uk = ks[choose( 9, "depth-kind" )]; wt.extra = sized;
					auto * u = addUse( wt, false );
					if ( !u && !dev->separateDS ) { wt.uk = UK::DepInOut; u = addUse( wt, false ); }
					if ( !u ) { wt.uk = UK::StInOut; u = addUse( wt, false ); }
					if ( u )
					{
						setRef( *u );
						u->clear = clearFor( VK_FORMAT_D24_UNORM_S8_UINT );
						if ( isStencilOnly( w.I( w.Vw( u->views[0] ).img ).fmt ) ) count( dev->separateDS ? "stencil_only_attachments_separate" : "stencil_only_attachments" );
						bool hasD = u->k <= UK::DSOut, hasS = u->k >= UK::DSIn;
						bool in = u->k == UK::DepIn || u->k == UK::DSIn || u->k == UK::StIn;
						p->depthTest = hasD && choose( 4, "depth-test" ) != 3;
						p->depthWrite = p->depthTest && !in && choose( 3, "depth-write" ) != 2;
						p->stencilTest = hasS && choose( 2, "stencil-test" );
					}
				}
				if ( !ref )
				{
					Want wt; wt.uk = UK::ColOut;
					auto * u = addUse( wt, false );
					if ( !u ) return false;
					setRef( *u );
					u->clear = clearFor( w.I( w.Vw( u->views[0] ).img ).fmt );
				}
				p->size = { mipW( *ref ), mipH( *ref ) };
				if ( onlyAttach )
					for ( auto & u : p->uses )
						if ( isAttach( u.k ) && u.views.size() > 1 )
						{
							bool differ = false;
							for ( int v : u.views ) { p->sizes.push_back( { vw( v ), vh( v ) } ); differ = differ || vw( v ) != p->size.width || vh( v ) != p->size.height; }
							if ( differ ) count( "passes_with_sizes_per_index" ); else p->sizes.clear();
						}
				return true;
			}
			VkClearValue clearFor( VkFormat f )
			{
				VkClearValue c{};
				if ( isDepthFmt( f ) ) { c.depthStencil.depth = float( w.nextVal % 16 ) / 16.0f; c.depthStencil.stencil = u32( w.nextVal % 251 ); }
				else for ( u32 i = 0; i < 4; ++i ) c.color.float32[i] = float( ( w.nextVal * ( i + 3 ) ) % 64 ) / 64.0f;
				++w.nextVal;
				return c;
			}
			bool genQuad( bool mesh )
			{
				bool none = choose( 12, "no-attachment" ) == 11;
				if ( none )
				{
					// what its fragments store is all it makes
					p->size = { 16, 16 };
					p->sized = true;
					static UK const ks[]{ UK::StoOut, UK::StoInOut };
					static BK const bs[]{ BK::StoInOut, BK::StoOut };
					if ( !addUse( { ks[choose( 2, "storage-kind" )] }, true ) && !addBuf( bs[choose( 2, "buffer-kind" )], true ) ) return false;
					count( "passes_without_attachments" );
				}
				else if ( !genAttachments() ) return false;
				for ( u32 i = 0; more( i, 0, 2, "sampled" ); ++i ) addUse( { UK::Sampled, choose( 3, "multi-mip" ) != 2 }, true );
				if ( choose( 5, "storage" ) == 4 )
				{
					static UK const ks[]{ UK::StoOut, UK::StoInOut, UK::StoIn, UK::StoClr };
					auto k = ks[choose( 4, "storage-kind" )];
					addUse( { k }, true );
				}
				for ( u32 i = 0; more( i, 0, 1, "buffers" ); ++i )
				{
					static BK const ks[]{ BK::Uniform, BK::StoIn, BK::StoInOut, BK::StoClr };
					auto k = ks[choose( 4, "buffer-kind" )];
					addBuf( k, true );
				}
				if ( mesh )
				{
					p->indexed = choose( 2, "indexed" );
					p->indexType = choose( 3, "index-type" );
					p->primCount = 3 * chooseRange( 1, 4, "primitives" );
					p->cull = choose( 2, "cull" ) ? VK_CULL_MODE_BACK_BIT : VK_CULL_MODE_NONE;
				}
				else
				{
					p->texcoord = choose( 2, "texcoord" );
					if ( p->texcoord ) { p->invU = choose( 2, "invert-u" ); p->invV = choose( 2, "invert-v" ); }
					p->instances = 1 + choose( 3, "instances" );
				}
				if ( choose( 6, "indirect" ) == 5 ) { p->indirect = w.indirectBuf[0]; p->indOff = 32 * choose( 2, "indirect-offset" ); p->indStride = mesh && p->indexed ? 20 : 16; }
				if ( choose( 6, "position" ) == 5 ) p->pos = { 1, 2 };
				if ( p->maxIdx > 1 ) p->perIndex = choose( 8, "buffers-per-index" );
				if ( p->indirect >= 0 && choose( 2, "implicit-buffer" ) ) addDraw( 2, { VK_ACCESS_INDIRECT_COMMAND_READ_BIT, VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT } );
				if ( mesh && choose( 3, "implicit-buffer" ) == 2 ) addDraw( 0, { VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT } );
				if ( mesh && p->indexed && choose( 3, "implicit-buffer" ) == 2 ) addDraw( 1, { VK_ACCESS_INDEX_READ_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT } );
				return true;
			}
			bool genRPass()
			{
				if ( !genAttachments() ) return false;
				return true;
			}
			VkExtent3D pickExtent( u32 mw, u32 mh, u32 md = 1 )
			{
				if ( choose( 4, "partial" ) != 3 ) return { mw, mh, md };
				return { std::max( 1u, mw / 2 ), std::max( 1u, mh / 2 ), std::max( 1u, md / 2 ) };
			}
			bool genCopy()
			{
				u32 n = choose( 4, "copies" ) == 3 ? 2 + choose( 3, "more-copies" ) : 1;
				u32 done = 0;
				for ( u32 i = 0; i < n; ++i )
				{
					Want s; s.uk = UK::TrIn;
					s.toggle = p->canToggle;
					u32 cw = p->copySize.width, ch = p->copySize.height, cd = p->copySize.depth;
					if ( i ) s.extra = [this, cw, ch, cd]( Cand const & k ) { return mipW( k ) >= cw && mipH( k ) >= ch && mipD( k ) >= cd; };
					auto saved = *p; auto savedUsed = used; auto savedT = touched;
					auto * su = addUse( s, false );
					if ( !su ) break;
					auto sv = su->views;
					Cand ref = refOf( sv[0] );
					Want d; d.uk = choose( 4, "transfer-inout" ) == 3 ? UK::TrInOut : UK::TrOut;
					if ( d.uk == UK::TrInOut ) d.uk = UK::TrOut; // copies write their destination only
					d.extra = [this, ref, i, cw, ch, cd]( Cand const & k ) { return same( ref, k, false ) && ( !i || ( mipW( k ) >= cw && mipH( k ) >= ch && mipD( k ) >= cd ) ); };
					auto * du = addUse( d, false );
					if ( !du ) { *p = saved; used = savedUsed; touched = savedT; break; }
					++done;
					if ( !i )
					{
						u32 mw = std::min( vw( sv[0] ), vw( du->views[0] ) ), mh = std::min( vh( sv[0] ), vh( du->views[0] ) );
						p->copySize = pickExtent( mw, mh, std::min( vd( sv[0] ), vd( du->views[0] ) ) );
					}
				}
				if ( done && choose( 3, "copy-final-layout" ) == 2 )
				{
					bool comb = false;
					for ( auto & u : p->uses ) comb = comb || isCombined( w.I( w.Vw( u.views[0] ).img ).fmt );
					static VkImageLayout const ls[]{ VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL };
					p->finalLayout = ls[choose( comb ? 3 : 4, "which-final-layout" )];
					if ( !p->uses.empty() && !comb && isDepthFmt( w.I( w.Vw( p->uses[0].views[0] ).img ).fmt ) && choose( 2, "depth-layout" ) ) p->finalLayout = w.depthLayout( w.I( w.Vw( p->uses[0].views[0] ).img ).fmt, choose( 2, "read-only" ) );
					count( "copies_with_final_layout" );
				}
				return done > 0;
			}
			bool genBlit()
			{
				Want s; s.uk = UK::TrIn;
				auto * su = addUse( s, false );
				if ( !su ) return false;
				auto sv = su->views;
				auto r = w.Vw( sv[0] );
				Cand ref = refOf( sv[0] );
				bool depth = isDepthFmt( w.I( r.img ).fmt );
				Want d; d.uk = UK::TrOut;
				d.extra = [this, ref, depth]( Cand const & k )
				{
					if ( k.nlayers != ref.nlayers ) return false;
					if ( depth ) return w.I( k.img ).fmt == w.I( ref.img ).fmt && k.asp == ref.asp;
					return !isDepthFmt( w.I( k.img ).fmt );
				};
				auto * du = addUse( d, false );
				if ( !du ) return false;
				auto reg = [&]( int v, VkOffset3D & o, VkExtent3D & e )
				{
					u32 mw = vw( v ), mh = vh( v ), md = vd( v );
					o = {}; e = { mw, mh, md };
					if ( choose( 3, "region" ) == 2 )
					{
						o.x = int( choose( mw, "region-x" ) ); o.y = int( choose( mh, "region-y" ) );
						e.width = 1 + choose( mw - u32( o.x ), "region-w" ); e.height = 1 + choose( mh - u32( o.y ), "region-h" );
						if ( md > 1 ) { o.z = int( choose( md, "region-z" ) ); e.depth = 1 + choose( md - u32( o.z ), "region-d" ); }
					}
				};
				reg( sv[0], p->so, p->se );
				reg( du->views[0], p->doff, p->de );
				p->filter = depth || choose( 2, "filter" ) ? VK_FILTER_NEAREST : VK_FILTER_LINEAR;
				return true;
			}
			bool genBufCopy()
			{
				auto * s = addBuf( BK::TrIn, false );
				if ( !s ) return false;
				auto su = *s;
				auto bs = pool();
				std::vector< int > ok;
				for ( int b : bs ) if ( b != su.bufs[0] && bufFree( b, 0, w.B( b ).mock.size ) ) ok.push_back( b );
				if ( ok.empty() ) ok.push_back( newBuf( 64u * chooseRange( 1, 6, "buffer-size" ), false ) );
				BUse d;
				d.k = BK::TrOut;
				int b = ok[choose( u32( ok.size() ), "buffer" )];
				u32 cells = u32( w.B( b ).mock.size / CellSize );
				u32 c0 = choose( cells, "buffer-offset" );
				d.off = c0 * CellSize;
				d.range = w.B( b ).mock.size - d.off;
				d.bufs = { b };
				u64 maxr = std::min( su.range, d.range );
				p->bcOff = choose( 3, "copy-offset" ) == 2 && maxr > 32 ? 16 : 0;
				p->bcRange = maxr - p->bcOff;
				if ( choose( 3, "copy-range" ) == 2 && p->bcRange > 32 ) p->bcRange -= 16;
				takeBuf( b, d.off, d.range, p->bcRange != d.range, true );
				p->bufs.push_back( d );
				return true;
			}
			bool genBufImg( bool toImg )
			{
				Want wt; wt.uk = toImg ? UK::TrOut : UK::TrIn;
				wt.maxLayers = 2;
				wt.extra = [this]( Cand const & k ) { return ( k.asp || !isCombined( w.I( k.img ).fmt ) ) && mipW( k ) * mipH( k ) * mipD( k ) * k.nlayers * 16 <= 16384; };
				auto * u = addUse( wt, false );
				if ( !u ) return false;
				auto v = w.Vw( u->views[0] );
				auto fmt = w.I( v.img ).fmt;
				u32 mw = vw( u->views[0] ), mh = vh( u->views[0] ), md = vd( u->views[0] );
				p->so = {};
				p->copySize = { mw, mh, md };
				if ( choose( 4, "region" ) == 3 )
				{
					p->so.x = int( choose( mw, "region-x" ) ); p->so.y = int( choose( mh, "region-y" ) );
					p->copySize = { 1 + choose( mw - u32( p->so.x ), "region-w" ), 1 + choose( mh - u32( p->so.y ), "region-h" ), 1 };
					if ( md > 1 ) { p->so.z = int( choose( md, "region-z" ) ); p->copySize.depth = 1 + choose( md - u32( p->so.z ), "region-d" ); }
				}
				u64 size = u64( p->copySize.width ) * p->copySize.height * p->copySize.depth * v.r.layerCount * texelSize( fmt, VkImageAspectFlagBits( v.r.aspectMask ) );
				BUse b;
				b.k = toImg ? BK::TrIn : BK::TrOut;
				b.off = 64 * choose( 3, "buffer-offset" );
				b.range = size;
				b.bufs.push_back( newBuf( b.off + ( size + CellSize - 1 ) / CellSize * CellSize, false ) );
				takeBuf( b.bufs[0], b.off, b.range, bkReads( b.k ), bkWrites( b.k ) );
				p->bufs.push_back( b );
				return true;
			}
			bool genMips()
			{
				Want wt; wt.uk = UK::TrInOut; wt.single = false; wt.allMips = true;
				u32 least = choose( 6, "single-level" ) == 5 ? 1 : 2;
				wt.extra = [this, least]( Cand const & k ) { return w.I( k.img ).mips >= least && !isDepthFmt( w.I( k.img ).fmt ); };
				static VkImageLayout const ls[]{ VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL };
				p->finalLayout = ls[choose( 5, "mips-output-layout" )];
				return addUse( wt, false ) != nullptr;
			}
			u32 genOwn()
			{
				u32 r = choose( 4, "own-barriers" );
				if ( r == 3 ) r = 0;
				if ( r && choose( 3, "whole-image" ) == 2 ) r |= 4;
				if ( r && choose( 3, "forced" ) == 2 ) r |= 8;
				return r;
			}
			bool genCustom()
			{
				// clears its outputs, or copies an implicit view into them; implicit views are read otherwise
				bool any = false;
				u32 n = 1 + choose( 2, "customs" );
				for ( u32 i = 0; i < n; ++i )
				{
					Want wt; wt.uk = UK::TrOut; wt.single = choose( 3, "multi-mip" ) != 2;
					if ( auto * u = addUse( wt, false ) )
					{
						any = true;
						u->clear = clearFor( w.I( w.Vw( u->views[0] ).img ).fmt );
						u->own = genOwn();
					}
				}
				if ( choose( 3, "source" ) == 2 )
				{
					Want wt; wt.uk = UK::TrIn; wt.toggle = p->canToggle;
					if ( auto * u = addUse( wt, false ) ) { any = true; u->own = genOwn(); }
				}
				if ( choose( 3, "implicit" ) == 2 )
				{
					Want wt; wt.uk = UK::Implicit; wt.single = choose( 3, "multi-mip" ) != 2;
					if ( auto * u = addUse( wt, false ) )
					{
						auto f = w.I( w.Vw( u->views[0] ).img ).fmt;
						static VkImageLayout const c[]{ VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL };
						u->layout = c[choose( isDepthFmt( f ) || w.I( w.Vw( u->views[0] ).img ).vol ? 3 : 4, "implicit-layout" )];
						if ( isDepthFmt( f ) && !isCombined( f ) && choose( 2, "depth-layout" ) ) u->layout = w.depthLayout( f, choose( 2, "read-only" ) );
						any = true;
					}
				}
				if ( choose( 3, "custom-inout" ) == 2 )
				{
					Want wt; wt.uk = UK::TrInOut; wt.single = choose( 3, "multi-mip" ) != 2; wt.toggle = p->canToggle;
					if ( auto * u = addUse( wt, false ) )
					{
						any = true;
						u->clear = clearFor( w.I( w.Vw( u->views[0] ).img ).fmt );
						u->own = choose( 2, "by-general" ) | ( choose( 3, "whole-image" ) == 2 ? 4 : 0 ) | ( choose( 3, "forced" ) == 2 ? 8 : 0 );
						auto r = w.Vw( u->views[0] ).r;
						u->part = r; // relative to the view
						u->part.baseMipLevel = choose( r.levelCount, "part-mip" ); u->part.levelCount = 1 + choose( r.levelCount - u->part.baseMipLevel, "part-levels" );
						u->part.baseArrayLayer = choose( r.layerCount, "part-layer" ); u->part.layerCount = 1 + choose( r.layerCount - u->part.baseArrayLayer, "part-layers" );
					}
				}
				if ( choose( 3, "custom-buffers" ) == 2 )
					for ( u32 i = 0; more( i, 1, 3, "buffers" ); ++i )
					{
						static BK const ks[]{ BK::TrInOut, BK::TrOut, BK::TrIn, BK::TrInOut, BK::Implicit };
						auto * u = addBuf( ks[choose( 5, "buffer-kind" )], true );
						if ( !u ) continue;
						any = true;
						if ( u->k == BK::Implicit ) { u->want = { VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT }; count( "implicit_buffers" ); }
						u->value = u32( w.nextVal++ );
						u->own = choose( 8, "own-barriers" );
						u32 cells = u32( u->range / CellSize );
						u32 c0 = cells > 1 ? choose( cells, "part-offset" ) : 0;
						u->partOff = u->off + c0 * CellSize;
						u->partRange = cells ? ( 1 + choose( cells - c0, "part-range" ) ) * CellSize : u->range;
						if ( u->k == BK::TrOut ) { u->partOff = u->off; u->partRange = u->range; }
					}
				return any;
			}
			// fallback actions on the outputs of the pass
			void genActions()
			{
				if ( !p->canToggle ) return;
				u32 den = propIs( "C13" ) ? 2 : 4;
				for ( auto & u : p->uses )
				{
					if ( !ukWrites( u.k ) || u.views.size() != 1 || u.k == UK::TrInOut ) continue;
					int vi = u.views[0];
					auto v = w.Vw( vi );
					auto & im = w.I( v.img );
					if ( v.r.levelCount != 1 || im.shared || im.external ) continue;
					bool vol = im.vol;
					if ( choose( den, "action" ) != den - 1 ) continue;
					// earlier uses of the pass's views by the same pass or locked ranges
					bool clash = false;
					for ( auto & k : locks )
					{
						auto & o = w.Vw( k.view );
						if ( k.view != vi ) for ( auto l : v.locs ) if ( std::find( o.locs.begin(), o.locs.end(), l ) != o.locs.end() ) clash = true;
					}
					if ( clash ) continue;
					Act a;
					a.view = vi;
					auto kind = choose( 3, "action-kind" );
					a.clear = clearFor( im.fmt );
					a.k = Act::Clear;
					if ( kind && !vol )
					{
						// a source: a settled range which the pass does not use
						Want wt; wt.uk = UK::TrIn;
						Cand ref = refOf( vi );
						bool depth = isDepthFmt( im.fmt );
						wt.extra = [this, ref, kind, depth, &u]( Cand const & k )
						{
							if ( w.I( k.img ).shared || w.I( k.img ).external || w.I( k.img ).vol ) return false;
							if ( k.nlayers != ref.nlayers ) return false;
							for ( auto l : locsOf( k ) ) if ( !written.count( l ) ) return false;
							if ( kind == 1 || depth ) return w.I( k.img ).fmt == w.I( ref.img ).fmt && k.asp == ref.asp;
							return !isDepthFmt( w.I( k.img ).fmt );
						};
						if ( auto c = pick( wt ) )
						{
							a.k = kind == 1 ? Act::Copy : Act::Blit;
							// the pass itself does not read it but its fallback does
							auto all = *c;
							all.asp = 0;
							for ( auto l : locsOf( all ) ) used.insert( l );
							for ( auto l : locsOf( *c ) ) p->rd.insert( l );
							a.src = viewOf( *c );
							lockReads( a.src, p->rd );
							for ( auto & k : locks ) if ( k.view == a.src ) for ( auto l : w.Vw( a.src ).locs ) p->wr.insert( l );
							touched[c->img].push_back( u32( p->idx ) );
							if ( std::find( g.images.begin(), g.images.end(), c->img ) == g.images.end() ) g.images.push_back( c->img );
							auto & sv = w.Vw( a.src );
							auto & si = w.I( sv.img );
							u32 sw = std::max( 1u, si.w >> sv.r.baseMipLevel ), shh = std::max( 1u, si.h >> sv.r.baseMipLevel );
							u32 dw = vw( vi ), dh = vh( vi );
							auto e = pickExtent( std::min( sw, dw ), std::min( shh, dh ) );
							a.extent = { e.width, e.height };
							a.se = { sw, shh }; a.de = { dw, dh };
							if ( choose( 3, "region" ) == 2 )
							{
								a.so = { int( choose( sw, "region-x" ) ), int( choose( shh, "region-y" ) ) };
								a.se = { 1 + choose( sw - u32( a.so.x ), "region-w" ), 1 + choose( shh - u32( a.so.y ), "region-h" ) };
							}
							if ( choose( 3, "region" ) == 2 )
							{
								a.doff = { int( choose( dw, "region-x" ) ), int( choose( dh, "region-y" ) ) };
								a.de = { 1 + choose( dw - u32( a.doff.x ), "region-w" ), 1 + choose( dh - u32( a.doff.y ), "region-h" ) };
							}
							a.filter = depth || choose( 2, "filter" ) ? VK_FILTER_NEAREST : VK_FILTER_LINEAR;
						}
					}
					if ( a.k == Act::Clear && ( u.k == UK::ColOut || u.k == UK::DepOut || u.k == UK::DSOut || u.k == UK::StOut ) && choose( 2, "as-attachment" ) )
					{
						a.attach = true;
						a.clear = u.clear;
						count( "fallbacks_by_attachment" );
					}
					switch ( choose( 6, "final-layout" ) )
					{
					case 1: a.finalLayout = VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL; break;
					case 2: a.finalLayout = isCombined( im.fmt ) ? VK_IMAGE_LAYOUT_GENERAL : VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL; break;
					case 3: a.finalLayout = VK_IMAGE_LAYOUT_GENERAL; break;
					case 4: a.finalLayout = isDepthFmt( im.fmt ) ? isCombined( im.fmt ) && dev->separateDS ? VK_IMAGE_LAYOUT_GENERAL : w.depthLayout( im.fmt, false ) : vol ? VK_IMAGE_LAYOUT_GENERAL : VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL; break;
					case 5: a.finalLayout = isDepthFmt( im.fmt ) ? isCombined( im.fmt ) && dev->separateDS ? VK_IMAGE_LAYOUT_GENERAL : w.depthLayout( im.fmt, true ) : VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL; break;
					default: break;
					}
					im.actions = true;
					p->acts.push_back( a );
				}
				for ( auto & a : p->acts ) locks.push_back( { a.view, a.src, p->idx } );
			}

			int newImage()
			{
				auto i = std::make_unique< WImg >();
				i->idx = int( w.imgs.size() );
				i->graph = g.idx;
				i->name = strf( "img%d", i->idx );
				static VkFormat const f[]{ VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT, VK_FORMAT_R32_SFLOAT
					, VK_FORMAT_R32G32B32A32_SFLOAT, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_S8_UINT };
				i->fmt = w.focusFmt && choose( 4, "focused-format" ) != 3 ? f[w.focusFmt - 1] : f[choose( 12, "format" )];
				static u32 const sz[]{ 16, 16, 16, 16, 8, 32, 12 };
				i->w = sz[choose( 7, "width" )];
				i->h = choose( 4, "square" ) ? i->w : sz[choose( 7, "height" )];
				static u32 const mp[]{ 1, 1, 2, 3 };
				i->mips = mp[choose( 4, "mips" )];
				static u32 const ly[]{ 1, 1, 1, 2, 3 };
				i->layers = ly[choose( 5, "layers" )];
				bool depth = isDepthFmt( i->fmt );
				if ( !depth && i->layers == 1 && choose( 6, "volume" ) == 5 )
				{
					i->vol = true;
					i->w = std::min( i->w, 16u ); i->h = std::min( i->h, 16u );
					static u32 const dp[]{ 4, 2, 1, 3 };
					i->d = dp[choose( 4, "depth" )];
				}
				if ( !i->vol && i->w == i->h && choose( 12, "cube" ) == 11 ) { i->cube = true; i->layers = 6; i->mips = std::min( i->mips, 2u ); }
				else if ( !i->vol && !depth && choose( 16, "line" ) == 15 ) { i->line = true; i->h = 1; }
				// down to one texel, whichever side gets there first
				if ( !i->cube && choose( 10, "full-chain" ) == 9 ) { i->mips = 1; while ( ( std::max( { i->w, i->h, i->d } ) >> i->mips ) > 0 ) ++i->mips; i->layers = std::min( i->layers, 2u ); }
				VkImageUsageFlags us = VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT
					| ( depth ? VkImageUsageFlags( VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT ) : i->vol ? VkImageUsageFlags( VK_IMAGE_USAGE_STORAGE_BIT ) : VK_IMAGE_USAGE_STORAGE_BIT | VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT );
				auto ty = i->vol ? VK_IMAGE_TYPE_3D : i->line ? VK_IMAGE_TYPE_1D : VK_IMAGE_TYPE_2D;
				crg::ImageData data{ i->name, VkImageCreateFlags( i->cube ? VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT : 0 ), ty, i->fmt, { i->w, i->h, i->d }, us, i->mips, i->layers };
				i->id = choose( 4, "by-group" ) == 3 ? g.fg->getDefaultGroup().createImage( data ) : g.fg->createImage( data );
				auto & m = i->mock;
				m.type = T::Image;
				m.info.imageType = ty; m.info.format = i->fmt; m.info.extent = { i->w, i->h, i->d }; m.info.mipLevels = i->mips; m.info.arrayLayers = i->layers;
				m.naspect = aspectsOf( i->fmt );
				m.tag = i->idx;
				m.locBase = allocLocs( &m, m.nlocs() );
				w.imgs.push_back( std::move( i ) );
				logf( "  image img%d graph %d format %d %ux%ux%u mips %u layers %u\n", w.imgs.back()->idx, g.idx, int( w.imgs.back()->fmt ), w.imgs.back()->w, w.imgs.back()->h, w.imgs.back()->vol ? w.imgs.back()->d : 0, w.imgs.back()->mips, w.imgs.back()->layers );
				return w.imgs.back()->idx;
			}
			WPass & newPass( PK k )
			{
				g.passes.push_back( std::make_unique< WPass >() );
				p = g.passes.back().get();
				p->graph = g.idx;
				p->idx = int( g.passes.size() ) - 1;
				p->kind = k;
				p->name = strf( "g%dp%d", g.idx, p->idx );
				used.clear();
				binding = 0;
				return *p;
			}
			void settle()
			{
				// conflicts with earlier passes become dependencies
				auto hits = []( std::set< u32 > const & a, std::set< u32 > const & b ) { for ( auto l : a ) if ( b.count( l ) ) return true; return false; };
				for ( auto & q : g.passes )
				{
					if ( q.get() == p ) continue;
					if ( hits( q->wr, p->rd ) || hits( q->wr, p->wr ) || hits( q->rd, p->wr ) ) p->deps.insert( q->idx );
					else if ( choose( 12, "extra-dependency" ) == 11 ) p->deps.insert( q->idx );
				}
				for ( int d : p->deps ) { p->allDeps.insert( d ); p->allDeps.insert( g.passes[size_t( d )]->allDeps.begin(), g.passes[size_t( d )]->allDeps.end() ); }
				for ( auto l : p->wr ) written.insert( l );
			}
			void makePass( PK k )
			{
				newPass( k );
				auto before = locks.size();
				auto savedT = touched; auto savedI = g.images;
				p->canToggle = choose( 4, "fixed" ) != 3;
				p->maxIdx = choose( 4, "indices" ) == 3 ? choose( 3, "three-indices" ) == 2 ? 3 : 2 : 1;
				bool ok = false;
				switch ( k )
				{
				case PK::Compute: ok = genCompute(); break;
				case PK::Quad: ok = genQuad( false ); break;
				case PK::Mesh: ok = genQuad( true ); break;
				case PK::RPass: ok = genRPass(); break;
				case PK::Copy: ok = genCopy(); break;
				case PK::Blit: ok = genBlit(); break;
				case PK::BufCopy: ok = genBufCopy(); break;
				case PK::BufToImg: ok = genBufImg( true ); break;
				case PK::ImgToBuf: ok = genBufImg( false ); break;
				case PK::Mips: ok = genMips(); break;
				default: ok = genCustom(); break;
				}
				if ( !ok )
				{
					locks.resize( before );
					touched = savedT; g.images = savedI;
					g.passes.pop_back();
					return;
				}
				bool indexedUse = false;
				for ( auto & u : p->uses ) if ( u.views.size() > 1 ) indexedUse = true;
				for ( auto & u : p->bufs ) if ( u.bufs.size() > 1 ) indexedUse = true;
				if ( indexedUse && p->maxIdx < 2 ) harnessError( "index" );
				genActions();
				p->nPre = choose( 4, "pre-actions" ) == 3 ? 1 + choose( 2, "pre-count" ) : 0;
				p->nPost = choose( 4, "post-actions" ) == 3 ? 1 + choose( 2, "post-count" ) : 0;
				p->resettable = choose( 4, "resettable" ) == 3;
				p->progMode = choose( 3, "program-mode" );
				if ( p->hasPipeline() && choose( 4, "layout-extras" ) == 3 )
				{
					p->ownSets = choose( 3, "own-sets" );
					u32 off = 0;
					for ( u32 i = 0, n = choose( 3, "push-ranges" ); i < n; ++i )
					{
						VkPushConstantRange r{ VkShaderStageFlags( k == PK::Compute ? VK_SHADER_STAGE_COMPUTE_BIT : i ? VK_SHADER_STAGE_FRAGMENT_BIT : VK_SHADER_STAGE_VERTEX_BIT ), off, 4 * chooseRange( 1, 4, "push-size" ) };
						if ( k == PK::Compute && i ) break;
						off += r.size;
						p->push.push_back( r );
					}
				}
				p->defaultCallbacks = !p->canToggle && p->maxIdx == 1 && choose( 3, "default-callbacks" ) == 2;
				p->enableMode = choose( 2, "enable-mode" );
				p->indexMode = choose( 2, "index-mode" );
				if ( p->idx % 2 && p->sizes.empty() ) p->sized = true;
				p->callbackArgs = choose( 3, "callback-arguments" );
				if ( p->kind == PK::Custom ) for ( auto & u : p->uses ) if ( u.k == UK::TrOut || u.k == UK::TrIn || u.k == UK::TrInOut ) u.toNext = choose( 4, "left-for-the-next" ) == 3;
				p->group = int( choose( 4, "group" ) );
				settle();
				count( strf( "pass_%s", pkName( k ) ).c_str() );
			}
			PK pickKind()
			{
				static struct { PK k; u32 wgt; } const t[]{ { PK::Compute, 20 }, { PK::Quad, 15 }, { PK::Mesh, 10 }, { PK::RPass, 10 }, { PK::Copy, 8 }, { PK::Blit, 8 }
					, { PK::BufCopy, 6 }, { PK::BufToImg, 5 }, { PK::ImgToBuf, 5 }, { PK::Mips, 5 }, { PK::Custom, 8 } };
				u32 pipe = propIs( "C15" ) ? 3 : 1;
				if ( w.focusKind && choose( 2, "focused-kind" ) ) return t[w.focusKind - 1].k;
				u32 tot = 0;
				for ( auto & x : t ) tot += x.wgt * ( x.k <= PK::Mesh ? pipe : 1 );
				u32 r = choose( tot, "pass-kind" );
				for ( auto & x : t ) { u32 k = x.wgt * ( x.k <= PK::Mesh ? pipe : 1 ); if ( r < k ) return x.k; r -= k; }
				return PK::Compute;
			}
		};
	}

	int World::findView( int gi, int img, u32 mip, u32 nmips, u32 layer, u32 nlayers, VkImageAspectFlags asp, int faces )
	{
		auto & g = G( gi );
		auto & i = I( img );
		bool cube = i.cube && nlayers == 6 && ( faces < 0 ? choose( 2, "cube-view" ) != 0 : faces != 0 );
		for ( auto & v : views )
			if ( v->img == img && v->cube == cube && v->r.baseMipLevel == mip && v->r.levelCount == nmips && v->r.baseArrayLayer == layer && v->r.layerCount == nlayers && v->r.aspectMask == asp )
			{
				// graphs that share an image name its views too
				if ( v->id.data ) g.fg->createView( *v->id.data );
				g.named.insert( v->idx );
				return v->idx;
			}
		auto v = std::make_unique< WView >();
		v->idx = int( views.size() );
		v->img = img;
		v->cube = cube;
		v->r = { asp, mip, nmips, layer, nlayers };
		if ( !i.vol && ( nlayers > 1 || nmips > 1 ) && choose( 4, "made-by-merging" ) == 3 ) v->merge = nlayers > 1 && ( nmips == 1 || choose( 2, "merge-layers" ) ) ? 1 : 2;
		if ( v->merge == 1 && i.cube && nlayers == 6 && !cube ) v->merge = 0; // (merging all the faces makes a cube)
		v->mock.type = T::View;
		v->mock.img = &i.mock;
		v->mock.info.subresourceRange = v->r;
		v->mock.info.viewType = i.viewType( nlayers, cube );
		v->mock.info.format = i.fmt;
		for ( u32 l = layer; l < layer + nlayers; ++l )
			for ( u32 m = mip; m < mip + nmips; ++m )
				for ( u32 a = 0; a < i.mock.naspect; ++a ) if ( asp & aspectBit( i.fmt, a ) ) v->locs.push_back( i.mock.loc( l, m, a ) );
		logf( "  view%d of img%d mips %u+%u layers %u+%u\n", v->idx, img, mip, nmips, layer, nlayers );
		g.named.insert( v->idx );
		views.push_back( std::move( v ) );
		auto & n = *views.back();
		if ( !n.merge ) n.id = choose( 4, "by-group" ) == 3 ? g.fg->getDefaultGroup().createView( plainView( n.idx ) ) : g.fg->createView( plainView( n.idx ) );
		return n.idx;
	}

	// views which are made by merging others come to be with the first pass that uses them
	void World::mergeView( WGraph & g, int view, crg::FramePass & fp )
	{
		if ( Vw( view ).id.data ) return;
		auto r = Vw( view ).r;
		int img = Vw( view ).img;
		bool byLayer = Vw( view ).merge == 1;
		std::vector< int > parts;
		for ( u32 i = 0; i < ( byLayer ? r.layerCount : r.levelCount ); ++i )
			parts.push_back( byLayer ? findView( g.idx, img, r.baseMipLevel, r.levelCount, r.baseArrayLayer + i, 1, r.aspectMask )
				: findView( g.idx, img, r.baseMipLevel + i, 1, r.baseArrayLayer, r.layerCount, r.aspectMask, Vw( view ).cube ) );
		crg::ImageViewIdArray ids;
		for ( int p : parts )
		{
			// parts are views on their own
			ids.push_back( partId( g, p ) );
			if ( !ids.back().data->source.empty() ) { Vw( view ).merge = 0; partId( g, view ); return; }
		}
		bool l = r.layerCount > 1, m = r.levelCount > 1;
		Vw( view ).id = fp.mergeViews( ids, m, l );
		count( "merged_views" );
	}

	crg::ImageViewId World::partId( WGraph & g, int v )
	{
		if ( !Vw( v ).id.data ) { Vw( v ).merge = 0; Vw( v ).id = g.fg->createView( plainView( v ) ); }
		return Vw( v ).id;
	}

	crg::SamplerDesc World::samplerOf( u32 k )
	{
		crg::SamplerDesc d;
		switch ( k )
		{
		case 1: d.magFilter = VK_FILTER_LINEAR; break;
		case 2: d.minFilter = VK_FILTER_LINEAR; break;
		case 3: d.mipmapMode = VK_SAMPLER_MIPMAP_MODE_LINEAR; break;
		case 4: d.addressModeU = VK_SAMPLER_ADDRESS_MODE_REPEAT; break;
		case 5: d.addressModeV = VK_SAMPLER_ADDRESS_MODE_REPEAT; break;
		case 6: d.addressModeW = VK_SAMPLER_ADDRESS_MODE_REPEAT; break;
		case 7: d.mipLodBias = 0.5f; break;
		case 8: d.minLod = 1.0f; break;
		case 9: d.maxLod = 2.0f; break;
		case 10: d = crg::SamplerDesc{ VK_FILTER_LINEAR, VK_FILTER_LINEAR, VK_SAMPLER_MIPMAP_MODE_LINEAR }; break;
		default: break;
		}
		return d;
	}

	crg::ImageViewData World::plainView( int v )
	{
		auto & r = Vw( v ).r;
		return crg::ImageViewData{ strf( "view%d", v ), I( Vw( v ).img ).id, 0, I( Vw( v ).img ).viewType( r.layerCount, Vw( v ).cube ), I( Vw( v ).img ).fmt, r };
	}

	void World::generate()
	{
		// some worlds concentrate on one kind of pass or one format
		if ( choose( 3, "focus-kind" ) == 2 ) focusKind = 1 + choose( 11, "focus-on-kind" );
		if ( choose( 4, "focus-format" ) == 3 ) focusFmt = 1 + choose( 12, "focus-on-format" );
		bool last = false;
		for ( u32 gi = 0; !last; ++gi )
		{
			last = !more( gi + 1, 1, 3, "graphs" );
			graphs.push_back( std::make_unique< WGraph >() );
			auto & g = *graphs.back();
			g.idx = int( gi );
			g.name = strf( "g%u", gi );
			g.fg = std::make_unique< crg::FrameGraph >( *handler, g.name );
			for ( u32 d = 0; d < gi; ++d )
				if ( choose( 2, "graph-dependency" ) )
				{
					g.deps.push_back( int( d ) );
					G( int( d ) ).dependents.push_back( int( gi ) );
				}
			for ( int d : g.deps )
			{
				for ( int x : G( d ).allDeps ) if ( std::find( g.allDeps.begin(), g.allDeps.end(), x ) == g.allDeps.end() ) g.allDeps.push_back( x );
				if ( std::find( g.allDeps.begin(), g.allDeps.end(), d ) == g.allDeps.end() ) g.allDeps.push_back( d );
			}
			Gen gen{ *this, g };
			if ( !gi )
			{
				for ( int & b : vertexBuf ) b = gen.newBuf( 256, true );
				for ( int & b : indexBuf ) b = gen.newBuf( 128, true );
				for ( int & b : indirectBuf ) b = gen.newBuf( 128, true );
			}
			// what earlier graphs produce can be read
			for ( auto & o : graphs )
				if ( o->idx != g.idx ) for ( auto & q : o->passes ) for ( auto l : q->wr ) gen.written.insert( l );
			for ( u32 n = 0; more( n, 1, 4, "images" ); ++n )
			{
				int id = gen.newImage();
				auto & i = I( id );
				u32 k = choose( 8, "image-role" );
				if ( k == 7 )
				{
					// given by the application before every frame
					i.external = true;
					static VkImageLayout const c[]{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL };
					bool depth = aspectMaskOf( i.fmt ) != VK_IMAGE_ASPECT_COLOR_BIT;
					bool comb = aspectsOf( i.fmt ) == 2;
					u32 l = choose( depth || i.vol ? 3 : 4, "external-layout" );
					i.extLayout = comb && l == 0 ? VK_IMAGE_LAYOUT_GENERAL : c[l];
					int v = findView( g.idx, id, 0, i.mips, 0, i.layers, aspectMaskOf( i.fmt ) );
					bool asDepth = depth && !comb && choose( 2, "depth-layout" );
					if ( asDepth ) i.extLayout = depthLayout( i.fmt, choose( 2, "read-only" ) );
					i.extState = { VK_ACCESS_MEMORY_READ_BIT | VK_ACCESS_MEMORY_WRITE_BIT, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT };
					if ( choose( 3, "written-by-the-application's-commands" ) )
					{
						i.extGpu = true;
						switch ( i.extLayout )
						{
						case VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL: i.extState = { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT }; break;
						case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL: i.extState = { VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT }; break;
						case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL: i.extState = { VK_ACCESS_SHADER_READ_BIT, VkPipelineStageFlags( choose( 2, "stage" ) ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) }; break;
						default: if ( asDepth ) i.extState = crg::makeLayoutState( i.extLayout ).state; else if ( choose( 2, "by-shader" ) ) i.extState = { VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT }; break;
						}
					}
					g.inputs.push_back( { v, { i.extLayout, i.extState } } );
					for ( auto l2 : Vw( v ).locs ) gen.written.insert( l2 );
					g.images.push_back( id );
				}
				else if ( k >= 5 && !last )
				{
					i.shared = i.discarder = true;
				}
			}
			// the first pass of a graph rewrites the images it shares
			for ( auto & i : imgs )
				if ( i->graph == g.idx && i->shared )
				{
					auto & p = gen.newPass( PK::Custom );
					p.canToggle = false;
					Want wt; wt.uk = UK::TrOut; wt.single = false; wt.whole = true; wt.toggle = false;
					std::vector< int > only{ i->idx };
					auto c = gen.pick( wt, &only );
					if ( !c ) harnessError( "discarder" );
					gen.take( *c, UK::TrOut );
					Use u; u.k = UK::TrOut; u.views = { gen.viewOf( *c ) };
					u.clear = gen.clearFor( i->fmt );
					p.uses.push_back( u );
					gen.settle();
				}
			for ( u32 n = 0; more( n, 1, propIs( "C03" ) ? 5 : 7, "passes" ); ++n ) gen.makePass( gen.pickKind() );
			for ( u32 tries = 0; g.passes.empty() && tries < 20; ++tries ) gen.makePass( tries < 10 ? gen.pickKind() : PK::Compute );
			if ( g.passes.empty() ) harnessError( "no pass" );
			// images of the application's own commands
			for ( auto & p : g.passes )
			{
				if ( choose( propIs( "C03" ) ? 6 : 12, "foreign-image" ) != 1 || ( p->kind != PK::Custom && !p->nPre && !p->nPost ) ) continue;
				int id = gen.newImage();
				auto & i = I( id );
				i.external = i.foreign = true;
				bool depth = isDepthFmt( i.fmt );
				static VkImageLayout const c[]{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL };
				i.extLayout = c[choose( 5, "foreign-layout" )];
				if ( depth && ( i.extLayout == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL || i.extLayout == VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ) ) i.extLayout = depthLayout( i.fmt, i.extLayout == VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL );
				if ( i.vol && i.extLayout == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL ) i.extLayout = VK_IMAGE_LAYOUT_GENERAL;
				i.extState = crg::makeLayoutState( i.extLayout ).state;
				// (what a layout stands for: only the pass's barriers know of them)
				i.extGpu = i.extLayout != VK_IMAGE_LAYOUT_GENERAL && choose( 3, "written-by-the-application's-commands" );
				p->foreign = id;
				p->foreignAt = choose( 3, "foreign-at" );
				if ( p->foreignAt == 0 && !p->nPre ) p->foreignAt = 1;
				if ( p->foreignAt == 2 && !p->nPost ) p->foreignAt = 1;
				if ( p->foreignAt == 1 && p->kind != PK::Custom ) p->foreignAt = p->nPre ? 0 : 2;
				p->foreignHow = choose( 16, "foreign-how" );
				VkImageSubresourceRange r{ aspectMaskOf( i.fmt ), 0, 1, 0, 1 };
				r.baseMipLevel = choose( i.mips, "part-mip" ); r.levelCount = 1 + choose( i.mips - r.baseMipLevel, "part-levels" );
				r.baseArrayLayer = choose( i.layers, "part-layer" ); r.layerCount = 1 + choose( i.layers - r.baseArrayLayer, "part-layers" );
				p->foreignPart = r;
				if ( p->foreignHow & 1 ) partId( g, p->foreignView = findView( g.idx, id, r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount, r.aspectMask ) );
				p->foreignClear = gen.clearFor( i.fmt );
				count( "foreign_images" );
			}
			// declared outputs
			if ( choose( 3, "outputs" ) == 2 && !views.empty() )
			{
				std::vector< int > mine;
				for ( auto & p : g.passes ) for ( auto & u : p->uses ) if ( isAttach( u.k ) && aspectsOf( I( Vw( u.views[0] ).img ).fmt ) == 1 ) mine.push_back( u.views[0] );
				if ( !mine.empty() )
				{
					int v = mine[choose( u32( mine.size() ), "output" )];
					auto l = choose( 2, "output-layout" ) ? VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL : VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
					auto f = I( Vw( v ).img ).fmt;
					if ( isDepthFmt( f ) && !isCombined( f ) && choose( 2, "depth-layout" ) ) l = depthLayout( f, choose( 2, "read-only" ) );
					g.outputs.push_back( { v, crg::makeLayoutState( l ) } );
				}
			}
			if ( last && g.passes.size() > 1 && choose( 5, "grows" ) == 4 )
			{
				// some of its passes come later
				size_t first = 1 + choose( u32( g.passes.size() ) - 1, "made-first" );
				while ( first < g.passes.size() && g.passes[first]->kind == PK::Custom && !g.passes[first]->canToggle && I( Vw( g.passes[first]->uses[0].views[0] ).img ).shared ) ++first;
				for ( size_t i = first; i < g.passes.size(); ++i ) g.later.push_back( std::move( g.passes[i] ) );
				g.passes.resize( first );
				if ( !g.later.empty() ) count( "growing_graphs" );
			}
			buildGraph( g.idx );
		}
		// contents of undefined model locations
		for ( auto & i : imgs ) for ( u32 l = 0; l < i->nlocs(); ++l ) dev->content[i->mock.locBase + l] = undefV( i->mock.locBase + l );
	}

	crg::FramePass & World::createFp( WGraph & g, WPass & p, crg::FramePassGroup * grp )
	{
		auto creator = [this, &g, &p]( crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg ) { return makeRunnable( g, p, fp, c, rg ); };
		auto & fp = grp ? grp->createPass( p.name, creator ) : g.fg->createPass( p.name, creator );
		for ( auto & u : p.uses )
		{
			crg::ImageViewIdArray v;
			for ( int x : u.views )
			{
				mergeView( g, x, fp );
				auto & vw = Vw( x );
				auto r = vw.r;
				bool byLayer = u.merged == 1 && r.layerCount > 1, byMip = u.merged == 2 && r.levelCount > 1;
				if ( ( !byLayer && !byMip ) || !vw.id.data->source.empty() ) { v.push_back( vw.id ); continue; }
				int img = vw.img;
				if ( byLayer && I( img ).cube && r.layerCount == 6 && !vw.cube ) { v.push_back( vw.id ); continue; } // (they would make a cube)
				crg::ImageViewIdArray parts;
				for ( u32 i = 0; i < ( byLayer ? r.layerCount : r.levelCount ); ++i )
					parts.push_back( partId( g, byLayer ? findView( g.idx, img, r.baseMipLevel, r.levelCount, r.baseArrayLayer + i, 1, r.aspectMask )
						: findView( g.idx, img, r.baseMipLevel + i, 1, r.baseArrayLayer, r.layerCount, r.aspectMask, vw.cube ) ) );
				v.push_back( fp.mergeViews( parts, byMip || r.levelCount > 1, byLayer || r.layerCount > 1 ) );
			}
			auto bl = blendState( u );
			auto f = I( Vw( u.views[0] ).img ).fmt;
			switch ( u.k )
			{
			case UK::Sampled: fp.addSampledView( v, u.binding, samplerOf( u.sampler ) ); break;
			case UK::StoIn: fp.addInputStorageView( v, u.binding ); break;
			case UK::StoOut: fp.addOutputStorageView( v, u.binding ); break;
			case UK::StoClr: fp.addClearableOutputStorageView( v, u.binding ); break;
			case UK::StoInOut: fp.addInOutStorageView( v, u.binding ); break;
			case UK::TrIn: fp.addTransferInputView( v ); break;
			case UK::TrOut: fp.addTransferOutputView( v ); break;
			case UK::TrInOut: fp.addTransferInOutView( v ); break;
			case UK::ColIn: fp.addInputColourView( v ); break;
			case UK::ColInOut: fp.addInOutColourView( v, bl ); break;
			case UK::ColOut: fp.addOutputColourView( v, u.clear ); break;
			case UK::DepIn: fp.addInputDepthView( v ); break;
			case UK::DepInOut: fp.addInOutDepthView( v ); break;
			case UK::DepOut: fp.addOutputDepthView( v, u.clear ); break;
			case UK::DSIn: fp.addInputDepthStencilView( v ); break;
			case UK::DSInOut: fp.addInOutDepthStencilView( v ); break;
			case UK::DSOut: fp.addOutputDepthStencilView( v, u.clear ); break;
			case UK::StIn: fp.addInputStencilView( v ); break;
			case UK::StInOut: fp.addInOutStencilView( v ); break;
			case UK::StOut: fp.addOutputStencilView( v, u.clear ); break;
			default:
				if ( !isDepthFmt( f ) ) fp.addImplicitColourView( v, u.layout );
				else if ( isCombined( f ) || isStencilOnly( f ) ) fp.addImplicitDepthStencilView( v, u.layout );
				else fp.addImplicitDepthView( v, u.layout );
				break;
			}
		}
		for ( auto & u : p.bufs )
		{
			crg::VkBufferArray bs;
			for ( int x : u.bufs ) bs.push_back( B( x ).vk );
			u64 range = u.whole ? VK_WHOLE_SIZE : u.range;
			crg::Buffer b{ bs, B( u.bufs[0] ).name };
			if ( u.texel ) { u.view = userCreateBufferView( bs[0], u.off, u.range == VK_WHOLE_SIZE ? B( u.bufs[0] ).mock.size - u.off : u.range ); count( "buffer_views" ); }
			switch ( u.k )
			{
			case BK::Uniform: if ( u.texel ) fp.addUniformBufferView( b, u.view, u.binding, u.off, range ); else fp.addUniformBuffer( b, u.binding, u.off, range ); break;
			case BK::StoIn: if ( u.texel ) fp.addInputStorageBufferView( b, u.view, u.binding, u.off, range ); else fp.addInputStorageBuffer( b, u.binding, u.off, range ); break;
			case BK::StoOut: if ( u.texel ) fp.addOutputStorageBufferView( b, u.view, u.binding, u.off, range ); else fp.addOutputStorageBuffer( b, u.binding, u.off, range ); break;
			case BK::StoClr: if ( u.texel ) fp.addClearableOutputStorageBufferView( b, u.view, u.binding, u.off, range ); else fp.addClearableOutputStorageBuffer( b, u.binding, u.off, range ); break;
			case BK::StoInOut: if ( u.texel ) fp.addInOutStorageBufferView( b, u.view, u.binding, u.off, range ); else fp.addInOutStorageBuffer( b, u.binding, u.off, range ); break;
			case BK::TrIn: fp.addTransferInputBuffer( b, u.off, range ); break;
			case BK::TrOut: fp.addTransferOutputBuffer( b, u.off, range ); break;
			case BK::Implicit: if ( u.texel ) fp.addImplicitBufferView( b, u.view, u.off, range, u.want ); else fp.addImplicitBuffer( b, u.off, range, u.want ); break;
			default: fp.addTransferInOutBuffer( b, u.off, range ); break;
			}
		}
		return fp;
	}

	void World::buildPasses( WGraph & g, std::vector< std::unique_ptr< WPass > > & ps )
	{
		auto & grps = g.grps;
		std::vector< WPass * > order;
		for ( auto & p : ps ) order.push_back( p.get() );
		if ( choose( 2, "shuffle" ) )
			for ( size_t i = order.size(); i > 1; --i ) std::swap( order[i - 1], order[choose( u32( i ), "order" )] );
		for ( auto * pp : order )
		{
			auto & p = *pp;
			crg::FramePassGroup * grp{};
			if ( p.group == 3 )
			{
				if ( grps.empty() ) grps.push_back( &g.fg->createPassGroup( "grp" ) );
				grp = grps[0];
			}
			else if ( p.group == 2 )
			{
				if ( grps.empty() ) grps.push_back( &g.fg->createPassGroup( "grp" ) );
				if ( grps.size() < 2 ) grps.push_back( &grps[0]->createPassGroup( "sub" ) );
				grp = grps[1];
			}
			p.fp = &createFp( g, p, grp );
			for ( auto & u : p.uses )
			{
				std::string s;
				for ( int x : u.views ) s += strf( " view%d", x );
				logf( "    %s %s%s\n", p.name.c_str(), ukName( u.k ), s.c_str() );
			}
			for ( auto & u : p.bufs )
			{
				std::string s;
				for ( int x : u.bufs ) s += strf( " buf%d", x );
				logf( "    %s buffer kind %d%s off %llu range %llu\n", p.name.c_str(), int( u.k ), s.c_str(), ( unsigned long long )u.off, ( unsigned long long )u.range );
			}
			for ( auto & a : p.acts ) logf( "    %s fallback %s on view%d from view%d\n", p.name.c_str(), a.k == Act::Copy ? "copy" : a.k == Act::Blit ? "blit" : "clear", a.view, a.src );
			logf( "    %s kind %s indices %u %s\n", p.name.c_str(), pkName( p.kind ), p.maxIdx, p.canToggle ? "" : "fixed" );
		}
		for ( auto & p : ps )
			for ( auto & a : p->acts ) { mergeView( g, a.view, *p->fp ); if ( a.src >= 0 ) mergeView( g, a.src, *p->fp ); }
		for ( auto & p : ps )
			for ( int d : p->deps )
			{
				auto & q = size_t( d ) < g.passes.size() ? *g.passes[size_t( d )] : *g.later[size_t( d ) - g.passes.size()];
				p->fp->addDependency( *q.fp );
				logf( "    %s depends on %s\n", p->name.c_str(), q.name.c_str() );
			}
	}

	void World::buildGraph( int gi )
	{
		auto & g = G( gi );
		for ( int d : g.deps ) g.fg->addDependency( *G( d ).fg );
		buildPasses( g, g.passes );
		for ( auto & i : g.inputs ) mergeView( g, i.view, *g.passes[0]->fp );
		for ( auto & o : g.outputs ) mergeView( g, o.view, *g.passes[0]->fp );
		auto & any = g.grps.empty() ? g.fg->getDefaultGroup() : *g.grps.back();
		auto type = [this]( int v ) { auto & w_ = Vw( v ); return I( w_.img ).viewType( w_.r.layerCount, w_.cube ); };
		for ( auto & i : g.inputs )
		{
			auto & v = Vw( i.view );
			switch ( choose( 4, "input-by" ) )
			{
			case 1: any.addInput( v.id, i.st ); break;
			case 2: any.addInput( I( v.img ).id, type( i.view ), v.r, i.st ); break;
			case 3: g.fg->addInput( I( v.img ).id, type( i.view ), v.r, i.st ); break;
			default: g.fg->addInput( v.id, i.st ); break;
			}
		}
		for ( auto & o : g.outputs )
		{
			auto & v = Vw( o.view );
			switch ( choose( 4, "output-by" ) )
			{
			case 1: any.addOutput( v.id, o.st ); break;
			case 2: any.addOutput( I( v.img ).id, type( o.view ), v.r, o.st ); break;
			case 3: g.fg->addOutput( I( v.img ).id, type( o.view ), v.r, o.st ); break;
			default: g.fg->addOutput( v.id, o.st ); break;
			}
		}
		g.built = true;
	}
}
