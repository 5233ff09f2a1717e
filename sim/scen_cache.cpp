// C18: the resource handler and the caches of several graphs.
#include "scen.hpp"
#include "ctx.hpp"
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/Attachment.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
#include <RenderGraph/Exception.hpp>
#include <cstring>

namespace sim
{
	namespace
	{
		struct Img { crg::ImageId id; crg::ImageData data; VkImage h{}; Obj * obj{}; int owner{ -1 }; };
		struct Vw { crg::ImageViewId id; crg::ImageViewData data; int img{}; VkImageView h{}; Obj * obj{}; int owner{ -1 }; };
		struct Smp { crg::SamplerDesc d; VkSampler h{}; Obj * obj{}; };
		struct Vb { bool tc; crg::Texcoord cfg; crg::VertexBuffer const * vb{}; Obj * obj{}; };
		struct Cache
		{
			std::unique_ptr< crg::ResourcesCache > c;
			std::vector< Smp > smp;
			std::vector< Vb > vbs;
		};

		// the parameters, compared field by field (not with the library's operators)
		bool sameInfo( VkImageViewCreateInfo const & a, VkImageViewCreateInfo const & b )
		{
			auto & x = a.subresourceRange; auto & y = b.subresourceRange;
			return a.flags == b.flags && a.viewType == b.viewType && a.format == b.format && x.aspectMask == y.aspectMask && x.baseMipLevel == y.baseMipLevel
				&& x.levelCount == y.levelCount && x.baseArrayLayer == y.baseArrayLayer && x.layerCount == y.layerCount
				&& a.components.r == b.components.r && a.components.g == b.components.g && a.components.b == b.components.b && a.components.a == b.components.a;
		}
		bool sameInfo( VkImageCreateInfo const & a, VkImageCreateInfo const & b )
		{
			return a.flags == b.flags && a.imageType == b.imageType && a.format == b.format && a.extent.width == b.extent.width && a.extent.height == b.extent.height && a.extent.depth == b.extent.depth
				&& a.mipLevels == b.mipLevels && a.arrayLayers == b.arrayLayers && a.samples == b.samples && a.tiling == b.tiling && a.usage == b.usage && a.sharingMode == b.sharingMode && a.initialLayout == b.initialLayout;
		}
		bool sameDesc( crg::SamplerDesc const & a, crg::SamplerDesc const & b )
		{
			return a.magFilter == b.magFilter && a.minFilter == b.minFilter && a.mipmapMode == b.mipmapMode && a.addressModeU == b.addressModeU
				&& a.addressModeV == b.addressModeV && a.addressModeW == b.addressModeW && a.mipLodBias == b.mipLodBias && a.minLod == b.minLod && a.maxLod == b.maxLod;
		}

		struct World
		{
			std::unique_ptr< crg::GraphContext > ctx;
			std::unique_ptr< crg::ResourceHandler > handler;
			std::unique_ptr< crg::FrameGraph > fg;
			std::vector< Img > imgs;
			std::vector< Vw > vws;
			Cache caches[3];
			u32 created{ 0 }, looked{ 0 };

			char const * P() { return "C18"; }

			// runs an operation under faults. Returns false when it failed with a report
			template< typename F > bool tryOp( char const * what, F f )
			{
				FaultGuard g( true );
				u32 before = dev->liveLib();
				(void)before;
				try { f(); }
				catch ( crg::Exception & )
				{
					if ( !g.injected() ) violate( P(), "spurious-error", what, "%s throws without a device error", what );
					count( "failed_operations" );
					return false;
				}
				if ( g.injected() ) violate( P(), "error-not-reported", strf( "%s:%s", what, dev->lastFault.c_str() ), "%s reports success although %s failed", what, dev->lastFault.c_str() );
				return true;
			}

			void makeImageId()
			{
				static VkFormat const fmts[]{ VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_D32_SFLOAT };
				u32 f = choose( 4, "format" ), mips = chooseRange( 1, 4, "mips" ), layers = choose( 4, "many-layers" ) == 3 ? 6 * chooseRange( 1, 2, "cubes" ) : chooseRange( 1, 6, "layers" ), e = 8u << choose( 3, "extent" );
				Img im;
				bool vol = f < 2 && choose( 6, "3d" ) == 5;
				if ( vol ) layers = 1;
				u32 h = choose( 3, "height" ) == 2 ? e / 2 : e;
				im.data = crg::ImageData{ strf( "img%zu", choose( 4, "same-name" ) == 3 ? size_t( 0 ) : imgs.size() ), ( !vol && layers % 6 == 0 && h == e ? VkImageCreateFlags( VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) : 0u ) | ( !f && choose( 2, "mutable" ) ? VkImageCreateFlags( VK_IMAGE_CREATE_MUTABLE_FORMAT_BIT ) : 0u )
					, vol ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, fmts[f], VkExtent3D{ e, h, vol ? 1u + choose( 8, "depth" ) : 1 }
					, VkImageUsageFlags( VK_IMAGE_USAGE_SAMPLED_BIT | ( choose( 2, "usage" ) ? VK_IMAGE_USAGE_TRANSFER_DST_BIT : 0 ) ), mips, layers
					, !vol && mips == 1 && choose( 8, "samples" ) == 7 ? VK_SAMPLE_COUNT_4_BIT : VK_SAMPLE_COUNT_1_BIT
					, !vol && mips == 1 && layers == 1 && f < 2 && choose( 8, "tiling" ) == 7 ? VK_IMAGE_TILING_LINEAR : VK_IMAGE_TILING_OPTIMAL };
				im.id = handler->createImageId( im.data );
				for ( auto & o : imgs ) if ( o.id.id == im.id.id ) violate( P(), "id-collision", "image", "two images get the same id" );
				if ( !im.id.data || im.id.data->info.mipLevels != mips || im.id.data->info.arrayLayers != layers || !sameInfo( im.id.data->info, im.data.info ) ) violate( P(), "wrong-parameters", "image-id", "the image id does not carry the declared data" );
				imgs.push_back( im );
				logf( "  image id %zu\n", imgs.size() - 1 );
			}
			void makeViewId( bool dup )
			{
				if ( imgs.empty() ) return;
				Vw v;
				if ( dup && !vws.empty() )
				{
					auto & o = vws[choose( u32( vws.size() ), "dup-of" )];
					v = o;
					v.data.name = "other name";
					auto id = handler->createViewId( v.data );
					if ( id.id != o.id.id ) violate( P(), "not-shared", "view-id", "two equal views get different ids" );
					return;
				}
				u32 i = choose( u32( imgs.size() ), "image" );
				auto & d = imgs[i].data.info;
				VkImageSubresourceRange r{};
				r.aspectMask = aspectMaskOf( d.format );
				if ( r.aspectMask == ( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT ) ) { u32 k = choose( 3, "aspect" ); if ( k ) r.aspectMask = k == 1 ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT; }
				r.baseMipLevel = choose( d.mipLevels, "base-mip" ); r.levelCount = 1 + choose( d.mipLevels - r.baseMipLevel, "levels" );
				r.baseArrayLayer = choose( d.arrayLayers, "base-layer" ); r.layerCount = 1 + choose( d.arrayLayers - r.baseArrayLayer, "layer-count" );
				v.img = int( i );
				bool vol = d.imageType == VK_IMAGE_TYPE_3D, cube = ( d.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && r.layerCount % 6 == 0 && choose( 2, "cube" );
				v.data = crg::ImageViewData{ strf( "view%zu", vws.size() ), imgs[i].id, 0u
					, vol ? VK_IMAGE_VIEW_TYPE_3D : cube ? ( r.layerCount == 6 ? VK_IMAGE_VIEW_TYPE_CUBE : VK_IMAGE_VIEW_TYPE_CUBE_ARRAY ) : r.layerCount > 1 || choose( 4, "array-view" ) == 3 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, d.format, r };
				if ( choose( 4, "swizzle" ) == 3 )
				{
					// a view declared by its create info
					static VkComponentSwizzle const sw[]{ VK_COMPONENT_SWIZZLE_IDENTITY, VK_COMPONENT_SWIZZLE_ZERO, VK_COMPONENT_SWIZZLE_ONE, VK_COMPONENT_SWIZZLE_R, VK_COMPONENT_SWIZZLE_A };
					auto & c = v.data.info.components;
					VkComponentSwizzle * which[]{ &c.r, &c.g, &c.b, &c.a };
					*which[choose( 4, "swizzled" )] = sw[choose( 5, "swizzle-to" )];
				}
				// sometimes all but one parameter of a view seen before
				if ( !vws.empty() && choose( 3, "almost" ) == 2 )
				{
					auto & o = vws[choose( u32( vws.size() ), "almost-of" )];
					auto & od = imgs[size_t( o.img )].data.info;
					if ( od.format == d.format && od.mipLevels <= d.mipLevels && od.arrayLayers <= d.arrayLayers && od.imageType == d.imageType && o.data.info.viewType != VK_IMAGE_VIEW_TYPE_CUBE && o.data.info.viewType != VK_IMAGE_VIEW_TYPE_CUBE_ARRAY )
					{
						auto keep = v.data;
						v.data = o.data;
						v.data.name = keep.name; v.data.image = keep.image;
						switch ( choose( 6, "but" ) )
						{
						case 5: if ( d.flags & VK_IMAGE_CREATE_MUTABLE_FORMAT_BIT ) v.data.info.format = v.data.info.format == VK_FORMAT_R8G8B8A8_UNORM ? VK_FORMAT_R8G8B8A8_SRGB : VK_FORMAT_R8G8B8A8_UNORM; break;
						case 4: v.data.info.flags ^= VK_IMAGE_VIEW_CREATE_FRAGMENT_DENSITY_MAP_DYNAMIC_BIT_EXT; break;
						case 0: v.data.info.components = keep.info.components; break;
						case 1: v.data.info.subresourceRange.aspectMask = keep.info.subresourceRange.aspectMask; break;
						case 2: if ( v.data.info.viewType == VK_IMAGE_VIEW_TYPE_2D ) v.data.info.viewType = VK_IMAGE_VIEW_TYPE_2D_ARRAY; break;
						default: break;
						}
					}
				}
				v.id = handler->createViewId( v.data );
				if ( !v.id.data || !sameInfo( v.id.data->info, v.data.info ) || v.id.data->image.id != imgs[i].id.id ) violate( P(), "wrong-parameters", "view-id", "the view id does not carry the declared data" );
				for ( auto & o : vws )
				{
					bool eq = o.img == v.img && sameInfo( o.data.info, v.data.info );
					if ( eq != ( o.id.id == v.id.id ) ) violate( P(), eq ? "not-shared" : "id-collision", "view-id", "two %s views get %s ids", eq ? "equal" : "different", eq ? "different" : "equal" );
					if ( eq ) return;
				}
				vws.push_back( v );
				logf( "  view id %zu of image %u\n", vws.size() - 1, i );
			}
			void merge()
			{
				if ( imgs.empty() ) return;
				u32 i = choose( u32( imgs.size() ), "image" );
				auto & d = imgs[i].data.info;
				u32 mode = choose( 3, "merge-what" );
				bool mips = mode != 1, lays = mode != 0;
				// a box of mips and layers, cut in parts which are given in any order
				u32 mb = choose( d.mipLevels, "base" ), mn = mips ? 1 + choose( d.mipLevels - mb, "n" ) : 1;
				u32 lb = choose( d.arrayLayers, "base" ), ln = lays ? 1 + choose( d.arrayLayers - lb, "n" ) : 1;
				bool cubes = ( d.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && lays && choose( 2, "cubes" );
				bool faces = cubes && choose( 2, "faces" );
				if ( cubes ) { lb = 0; ln = d.arrayLayers; }
				if ( faces ) cubes = false;
				auto asp = aspectMaskOf( d.format );
				if ( asp == ( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT ) ) { u32 k = choose( 3, "aspect" ); if ( k ) asp = k == 1 ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT; }
				VkComponentMapping comp{};
				if ( choose( 4, "swizzle" ) == 3 ) comp.r = VK_COMPONENT_SWIZZLE_B;
				bool vol = d.imageType == VK_IMAGE_TYPE_3D;
				crg::ImageViewIdArray src;
				auto cut = []( u32 b, u32 n, u32 whole )
				{
					std::vector< std::pair< u32, u32 > > r;
					for ( u32 at = 0; at < n; )
					{
						u32 m = whole ? whole : 1 + choose( n - at, "part" );
						r.push_back( { b + at, m } );
						at += m;
					}
					return r;
				};
				auto mp = cut( mb, mn, 0 ), lp = cut( lb, ln, faces ? 1 : cubes ? 6 : 0 );
				for ( auto & [m0, mc] : mp )
					for ( auto & [l0, lc] : lp )
					{
						crg::ImageViewData v{ "part", imgs[i].id, 0u, vol ? VK_IMAGE_VIEW_TYPE_3D : cubes ? VK_IMAGE_VIEW_TYPE_CUBE : lc > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D, d.format, VkImageSubresourceRange{ asp, m0, mc, l0, lc } };
						v.info.components = comp;
						src.insert( src.begin() + long( choose( u32( src.size() ) + 1, "part-order" ) ), handler->createViewId( v ) );
					}
				if ( src.size() < 2 ) return;
				auto & pass = fg->createPass( strf( "merge%u", created++ ), []( crg::FramePass const &, crg::GraphContext &, crg::RunnableGraph & ) { return crg::RunnablePassPtr{}; } );
				auto id = mips && lays && choose( 2, "by-default" ) ? pass.mergeViews( src ) : pass.mergeViews( src, mips, lays );
				count( "merged_views" );
				auto & vi = id.data->info;
				auto & r = vi.subresourceRange;
				if ( r.baseMipLevel != mb || r.levelCount != mn || r.baseArrayLayer != lb || r.layerCount != ln || r.aspectMask != asp || id.data->image.id != imgs[i].id.id || vi.format != d.format || vi.flags != 0
					|| memcmp( &vi.components, &comp, sizeof comp ) )
					violate( P(), "wrong-parameters", "merged-view", "views merged over mips %u+%u and layers %u+%u give mips %u+%u and layers %u+%u", mb, mn, lb, ln, r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount );
				bool typeOk;
				switch ( vi.viewType )
				{
				case VK_IMAGE_VIEW_TYPE_3D: typeOk = vol; break;
				case VK_IMAGE_VIEW_TYPE_2D: typeOk = !vol && ln == 1; break;
				case VK_IMAGE_VIEW_TYPE_2D_ARRAY: typeOk = !vol; break;
				case VK_IMAGE_VIEW_TYPE_CUBE: typeOk = ( d.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && ln == 6; break;
				case VK_IMAGE_VIEW_TYPE_CUBE_ARRAY: typeOk = ( d.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && ln % 6 == 0; break;
				default: typeOk = false; break;
				}
				if ( !typeOk ) violate( P(), "wrong-parameters", "merged-type", "views merged over layers %u+%u give a view of type %d", lb, ln, int( vi.viewType ) );
				// it is a view as the others
				Vw v;
				v.img = int( i );
				v.data = *id.data;
				v.id = id;
				for ( auto & o : vws )
				{
					bool eq = o.img == v.img && sameInfo( o.data.info, v.data.info );
					if ( eq != ( o.id.id == v.id.id ) ) violate( P(), eq ? "not-shared" : "id-collision", "merged-view", "two %s views get %s ids", eq ? "equal" : "different", eq ? "different" : "equal" );
					if ( eq ) return;
				}
				vws.push_back( v );
			}
			void checkImage( Img & im, VkImage h )
			{
				auto * o = static_cast< Image * >( findObj( T::Image, u64( h ) ) );
				if ( !o ) violateStop( P(), "dead-returned", "image", "a lookup returns an image that does not exist" );
				if ( im.h ) { if ( im.h != h ) violateStop( P(), "not-shared", "image", "a second device image is created for one resource" ); ++looked; count( "lookups" ); return; }
				auto & a = o->info; auto & b = im.data.info;
				if ( !sameInfo( a, b ) ) violate( P(), "wrong-parameters", "image", "image created with other parameters than declared" );
				if ( !o->mem ) violate( P(), "no-memory", "image", "image without memory" );
				for ( auto & x : imgs ) if ( x.h == h ) violate( P(), "shared-wrongly", "image", "two resources share one image" );
				im.h = h; im.obj = o; ++created;
				count( "images_created" );
			}
			void checkView( Vw & v, VkImageView h )
			{
				auto * o = static_cast< View * >( findObj( T::View, u64( h ) ) );
				if ( !o ) violateStop( P(), "dead-returned", "view", "a lookup returns a view that does not exist" );
				if ( v.h ) { if ( v.h != h ) violateStop( P(), "not-shared", "view", "a second device view is created for one resource" ); ++looked; count( "lookups" ); return; }
				auto & a = o->info; auto & b = v.data.info;
				if ( !sameInfo( a, b ) || o->img != imgs[size_t( v.img )].obj ) violate( P(), "wrong-parameters", "view", "view created with other parameters than declared" );
				v.h = h; v.obj = o; ++created;
				count( "views_created" );
			}
			bool hasViews( u32 i ) { for ( auto & v : vws ) if ( v.img == int( i ) && v.h ) return true; return false; }

			void createImage( u32 c )
			{
				if ( imgs.empty() ) return;
				u32 i = choose( u32( imgs.size() ), "image" );
				auto & im = imgs[i];
				VkImage h{};
				bool was = im.h;
				logf( "  cache %u: create image %u\n", c, i );
				if ( !tryOp( "createImage", [&]() { h = caches[c].c->createImage( *ctx, im.id ); } ) ) { if ( was && im.obj && !im.obj->alive ) violate( P(), "lost", "image", "a failed lookup destroys the image" ); return; }
				checkImage( im, h );
				if ( !was ) im.owner = int( c );
			}
			void createView( u32 c )
			{
				if ( vws.empty() ) return;
				u32 i = choose( u32( vws.size() ), "view" );
				auto & v = vws[i];
				auto & im = imgs[size_t( v.img )];
				VkImageView h{};
				bool was = v.h, imgWas = im.h;
				logf( "  cache %u: create view %u of image %d\n", c, i, v.img );
				bool ok = tryOp( "createImageView", [&]() { h = caches[c].c->createImageView( *ctx, v.id ); } );
				if ( !imgWas )
				{
					// the image may have been created on the way: it belongs to the same cache
					Image * found{};
					for ( auto & [_, o] : dev->live ) if ( o->type == T::Image && o->lib )
					{
						bool k = false;
						for ( auto & x : imgs ) if ( x.obj == o ) k = true;
						if ( !k ) found = static_cast< Image * >( o );
					}
					if ( found ) { checkImage( im, VkImage( found->h ) ); im.owner = int( c ); count( "images_created_through_views" ); }
				}
				if ( !ok ) return;
				checkView( v, h );
				if ( !was ) v.owner = int( c );
			}
			void destroyImage( u32 c )
			{
				if ( imgs.empty() ) return;
				u32 i = choose( u32( imgs.size() ), "image" );
				auto & im = imgs[i];
				bool mine = im.h && im.owner == int( c );
				if ( mine && hasViews( i ) ) return;   // the application destroys views first
				if ( im.h && !mine && hasViews( i ) ) {}
				logf( "  cache %u: destroy image %u\n", c, i );
				count( "destructions" );
				bool r = choose( 2, "with-context" ) ? caches[c].c->destroyImage( *ctx, im.id ) : ( mine || !im.h ? caches[c].c->destroyImage( im.id ) : caches[c].c->destroyImage( *ctx, im.id ) );
				if ( r != mine ) violate( P(), "wrong-result", "destroyImage", "destroyImage returns %d for an image %s", int( r ), mine ? "of this cache" : im.h ? "of another cache" : "that does not exist" );
				if ( mine )
				{
					if ( im.obj->alive ) violate( P(), "not-destroyed", "image", "destroyImage leaves the image alive" );
					im.h = {}; im.obj = {}; im.owner = -1;
				}
				else if ( im.h && !im.obj->alive ) violateStop( P(), "destroyed-wrongly", "image", "destroyImage of one cache destroys the image of another" );
			}
			void destroyView( u32 c )
			{
				if ( vws.empty() ) return;
				u32 i = choose( u32( vws.size() ), "view" );
				auto & v = vws[i];
				bool mine = v.h && v.owner == int( c );
				logf( "  cache %u: destroy view %u\n", c, i );
				count( "destructions" );
				bool r = choose( 2, "with-context" ) ? caches[c].c->destroyImageView( *ctx, v.id ) : caches[c].c->destroyImageView( v.id );
				if ( r != mine ) violate( P(), "wrong-result", "destroyImageView", "destroyImageView returns %d for a view %s", int( r ), mine ? "of this cache" : v.h ? "of another cache" : "that does not exist" );
				if ( mine )
				{
					if ( v.obj->alive ) violate( P(), "not-destroyed", "view", "destroyImageView leaves the view alive" );
					v.h = {}; v.obj = {}; v.owner = -1;
				}
				else if ( v.h && !v.obj->alive ) violateStop( P(), "destroyed-wrongly", "view", "destroyImageView of one cache destroys the view of another" );
			}
			void sampler( u32 c )
			{
				crg::SamplerDesc d{};
				d.magFilter = choose( 2, "mag" ) ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
				d.minFilter = choose( 2, "min" ) ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
				d.mipmapMode = choose( 2, "mip" ) ? VK_SAMPLER_MIPMAP_MODE_LINEAR : VK_SAMPLER_MIPMAP_MODE_NEAREST;
				d.addressModeU = VkSamplerAddressMode( choose( 4, "u" ) );
				d.addressModeV = VkSamplerAddressMode( choose( 4, "v" ) );
				d.addressModeW = VkSamplerAddressMode( choose( 4, "w" ) );
				static float const bias[]{ 0.0f, 1.0f, 0.25f, 0.5f, -0.25f, -1.0f, 1.5f, 1e-3f };
				static float const lods[]{ -500.0f, 0.0f, 0.25f, 0.75f, 1.0f, 2.5f, -0.5f, 1e-4f };
				static float const maxs[]{ 500.0f, 12.0f, 12.25f, 11.75f, 3.0f, 3.5f, 1000.0f, 1.0f };
				d.mipLodBias = bias[choose( 8, "bias" )];
				d.minLod = lods[choose( 8, "minlod" )];
				d.maxLod = maxs[choose( 8, "maxlod" )];
				// often one asked for before, or all but one of its parameters
				if ( u32 k = caches[c].smp.empty() ? 0 : choose( 4, "again" ) )
				{
					auto e = d;
					d = caches[c].smp[choose( u32( caches[c].smp.size() ), "which" )].d;
					if ( k > 1 )
						switch ( choose( 9, "but" ) )
						{
						case 0: d.magFilter = e.magFilter; break;
						case 1: d.minFilter = e.minFilter; break;
						case 2: d.mipmapMode = e.mipmapMode; break;
						case 3: d.addressModeU = e.addressModeU; break;
						case 4: d.addressModeV = e.addressModeV; break;
						case 5: d.addressModeW = e.addressModeW; break;
						case 6: d.mipLodBias = e.mipLodBias; break;
						case 7: d.minLod = e.minLod; break;
						default: d.maxLod = e.maxLod; break;
						}
				}
				VkSampler h{};
				logf( "  cache %u: create sampler\n", c );
				if ( !tryOp( "createSampler", [&]() { h = caches[c].c->createSampler( *ctx, d ); } ) ) return;
				auto * o = static_cast< Sampler * >( findObj( T::Sampler, u64( h ) ) );
				if ( !o ) violateStop( P(), "dead-returned", "sampler", "a lookup returns a sampler that does not exist" );
				auto & i = o->info;
				if ( i.magFilter != d.magFilter || i.minFilter != d.minFilter || i.mipmapMode != d.mipmapMode || i.addressModeU != d.addressModeU || i.addressModeV != d.addressModeV || i.addressModeW != d.addressModeW
					|| i.mipLodBias != d.mipLodBias || i.minLod != d.minLod || i.maxLod != d.maxLod )
					violate( P(), "wrong-parameters", "sampler", "the sampler returned has other parameters than asked for" );
				for ( auto & s : caches[c].smp )
				{
					if ( sameDesc( s.d, d ) )
					{
						if ( s.h != h ) violate( P(), "not-shared", "sampler", "two samplers for one description in one cache" );
						++looked; count( "lookups" );
						return;
					}
					if ( s.h == h ) violate( P(), "shared-wrongly", "sampler", "one sampler for two descriptions" );
				}
				caches[c].smp.push_back( { d, h, o } );
				++created; count( "samplers_created" );
			}
			void vertexBuffer( u32 c )
			{
				bool tc = choose( 2, "texcoords" );
				crg::Texcoord t{};
				t.invertU = choose( 2, "invert-u" ); t.invertV = choose( 2, "invert-v" );
				crg::VertexBuffer const * vb{};
				logf( "  cache %u: create vertex buffer %d %d %d\n", c, tc, int( t.invertU ), int( t.invertV ) );
				if ( !tryOp( "createQuadTriVertexBuffer", [&]() { vb = &caches[c].c->createQuadTriVertexBuffer( *ctx, tc, t ); } ) ) return;
				if ( !vb ) violateStop( P(), "dead-returned", "vertex-buffer", "a lookup returns a null vertex buffer" );
				auto * o = static_cast< Buffer * >( findObj( T::Buffer, u64( vb->buffer.buffer() ) ) );
				auto * m = static_cast< Memory * >( findObj( T::Memory, u64( vb->memory ) ) );
				if ( !o || !m ) violateStop( P(), "dead-returned", "vertex-buffer", "a lookup returns a vertex buffer whose buffer or memory does not exist" );
				for ( auto & s : caches[c].vbs )
					if ( s.tc == tc && s.cfg.invertU == t.invertU && s.cfg.invertV == t.invertV )
					{
						if ( s.vb != vb || s.obj != o ) violate( P(), "not-shared", "vertex-buffer", "two vertex buffers for one configuration in one cache" );
						++looked; count( "lookups" );
					}
					else if ( s.obj == o ) violate( P(), "shared-wrongly", "vertex-buffer", "one vertex buffer for two configurations" );
				float u0 = t.invertU ? 2.0f : 0.0f, u1 = t.invertU ? 0.0f : 2.0f, v0 = t.invertV ? 1.0f : -1.0f, v1 = t.invertV ? -1.0f : 1.0f;
				float const want[12]{ -1, -3, u0, v0, -1, 1, u0, v1, 3, 1, u1, v1 };
				if ( o->mem != m || m->dev_.size() < sizeof want || memcmp( m->dev_.data(), want, sizeof want ) != 0 ) violate( P(), "wrong-contents", "vertex-buffer", "the vertex buffer's memory does not hold the triangle asked for" );
				if ( vb->vertexAttribs.size() != ( tc ? 2u : 1u ) || vb->vertexBindings.size() != 1 || vb->vertexBindings[0].stride != 16 || vb->inputState.vertexAttributeDescriptionCount != ( tc ? 2u : 1u ) )
					violate( P(), "wrong-parameters", "vertex-buffer", "the vertex buffer does not have the attributes asked for" );
				for ( auto & s : caches[c].vbs ) if ( s.obj == o ) return;
				caches[c].vbs.push_back( { tc, t, vb, o } );
				++created; count( "vertex_buffers_created" );
			}
			bool canDrop( u32 c )
			{
				for ( auto & v : vws )
					if ( v.h && v.owner != int( c ) && imgs[size_t( v.img )].owner == int( c ) ) return false;
				return true;
			}
			void dropCache( u32 c )
			{
				logf( "  destroy cache %u\n", c );
				count( "caches_destroyed" );
				caches[c].c.reset();
				for ( auto & v : vws ) if ( v.owner == int( c ) ) { if ( v.obj->alive ) violate( P(), "not-destroyed", "view", "a destroyed cache leaves its view alive" ); v.h = {}; v.obj = {}; v.owner = -1; }
				for ( auto & v : vws ) if ( v.h && !v.obj->alive ) violateStop( P(), "destroyed-wrongly", "view", "a destroyed cache destroys another cache's view" );
				for ( auto & v : imgs ) if ( v.owner == int( c ) ) { if ( v.obj->alive ) violate( P(), "not-destroyed", "image", "a destroyed cache leaves its image alive" ); v.h = {}; v.obj = {}; v.owner = -1; }
				for ( auto & v : imgs ) if ( v.h && !v.obj->alive ) violateStop( P(), "destroyed-wrongly", "image", "a destroyed cache destroys another cache's image" );
				for ( auto & s : caches[c].smp ) if ( s.obj->alive ) violate( P(), "not-destroyed", "sampler", "a destroyed cache leaves its sampler alive" );
				for ( auto & s : caches[c].vbs ) if ( s.obj->alive ) violate( P(), "not-destroyed", "vertex-buffer", "a destroyed cache leaves its vertex buffer alive" );
				caches[c].smp.clear();
				caches[c].vbs.clear();
			}

			void run()
			{
				setupDevice();
				ctx = makeContext();
				handler = std::make_unique< crg::ResourceHandler >();
				fg = std::make_unique< crg::FrameGraph >( *handler, "merger" );
				for ( auto & c : caches ) c.c = std::make_unique< crg::ResourcesCache >( *handler );
				chooseFaultPlan( 4 );
				u32 n = chooseRange( 4, 50, "ops" );
				makeImageId();
				makeViewId( false );
				for ( u32 i = 0; i < n; ++i )
				{
					u32 k = choose( 14, "cache-op" );
					trace( mix2( 0xCAC, k ) );
					u32 c = choose( 3, "cache" );
					switch ( k )
					{
					case 0: if ( imgs.size() < 5 ) makeImageId(); break;
					case 1: if ( vws.size() < 8 ) makeViewId( false ); break;
					case 2: makeViewId( true ); break;
					case 3: case 4: createImage( c ); break;
					case 5: case 6: createView( c ); break;
					case 7: destroyImage( c ); break;
					case 8: destroyView( c ); break;
					case 9: sampler( c ); break;
					case 10: vertexBuffer( c ); break;
					case 11: merge(); break;
					case 12: if ( choose( 3, "drop-cache" ) == 2 && canDrop( c ) ) { dropCache( c ); caches[c].c = std::make_unique< crg::ResourcesCache >( *handler ); } break;
					default: createView( c ); break;
					}
					u64 h = 0;
					for ( auto & v : imgs ) h = h * 5 + u64( v.owner + 1 );
					for ( auto & v : vws ) h = mix2( h, u64( v.owner + 1 ) );
					stateSeen( h );
				}
				if ( created && looked ) count( "nontrivial" );
				dev->faults = {};
				// everything can still be created and looked up
				for ( u32 i = 0; i < vws.size(); ++i )
				{
					auto & v = vws[i];
					bool imgWas = imgs[size_t( v.img )].h, was = v.h;
					VkImage ih = caches[0].c->createImage( *ctx, imgs[size_t( v.img )].id );
					checkImage( imgs[size_t( v.img )], ih );
					if ( !imgWas ) imgs[size_t( v.img )].owner = 0;
					VkImageView h = caches[0].c->createImageView( *ctx, v.id );
					checkView( v, h );
					if ( !was ) v.owner = 0;
				}
				bool done[3]{};
				for ( u32 left = 3; left; )
				{
					u32 c = choose( 3, "teardown" );
					for ( u32 t = 0; t < 3 && ( done[c] || !canDrop( c ) ); ++t ) c = ( c + 1 ) % 3;
					if ( done[c] || !canDrop( c ) )
					{
						// two caches hold views of each other's images: views first
						for ( u32 k = 0; k < 3; ++k ) for ( auto & v : vws ) if ( v.h && v.owner == int( k ) && !done[k] ) { caches[k].c->destroyImageView( *ctx, v.id ); v.h = {}; v.owner = -1; }
						continue;
					}
					dropCache( c );
					done[c] = true;
					--left;
				}
				fg.reset();
				handler.reset();
				ctx.reset();
				std::string l;
				for ( auto & [_, o] : dev->live ) if ( o->lib ) { l = typeName( o->type ); break; }
				if ( !l.empty() ) violate( P(), "leak", l, "an object of kind %s is never destroyed", l.c_str() );
			}
		};
	}

	void scenCache()
	{
		World w;
		w.run();
	}
}
