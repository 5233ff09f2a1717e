// C14: signals, driven by seeded histories of connections and (re-entrant) emissions.
#include "scen.hpp"
#include <RenderGraph/Signal.hpp>
#include <memory>
#include <string>

namespace sim
{
	namespace
	{
		using Func = std::function< void( int, std::string ) >;
		using Sig = crg::Signal< Func >;
		using Con = crg::SignalConnection< Sig >;
		using Func0 = std::function< void() >;
		using Sig0 = crg::Signal< Func0 >;
		using Con0 = crg::SignalConnection< Sig0 >;

		struct Token { u32 id; u64 magic; };
		struct Thrown {};

		struct Listener
		{
			u32 id{}; int sig{ -1 };
			bool connected{ false };
			std::weak_ptr< Token > token;
		};

		struct Emission
		{
			int sig{};
			std::vector< u32 > snapshot;
			size_t next{ 0 };                 // snapshot index reached
			std::set< u32 > called;
			int arg{}; std::string text;
		};

		template< typename SigT, typename ConT, bool Args > struct World
		{
			std::unique_ptr< SigT > sigs[3];
			std::vector< Listener > ls;                       // by id
			std::vector< u32 > order[3];                      // connected, in order of connection
			struct Slot { std::unique_ptr< ConT > con; int lst{ -1 }; };
			std::vector< Slot > slots;
			std::vector< Emission > stack;
			u32 calls{ 0 };
			u32 budget{ 0 };                                  // re-entrant operations left
			u32 depth{ 0 };
			u32 emissions{ 0 };

			void called( u32 id, u64 magic, int arg, std::string const & text )
			{
				trace( mix2( 0xCA11, id ) );
				logf( "    listener %u called\n", id );
				count( "listener_calls" );
				if ( ++calls > 3000 ) violateStop( "C14", "endless", "emission", "an emission does not end" );
				if ( magic != 0xA11CE ) violateStop( "C14", "listener-destroyed", "call", "listener %u is called after it was released", id );
				if ( stack.empty() ) violateStop( "C14", "spurious-call", "no emission", "listener %u is called outside of any emission", id );
				auto & e = stack.back();
				auto & l = ls[id];
				if ( l.sig != e.sig ) violateStop( "C14", "wrong-signal", "call", "listener %u of signal %d is called by signal %d", id, l.sig, e.sig );
				if ( !l.connected ) violateStop( "C14", "called-after-disconnect", "call", "listener %u is called after it was disconnected", id );
				if ( !e.called.insert( id ).second ) violateStop( "C14", "called-twice", "call", "listener %u is called twice by one emission", id );
				if ( Args && ( arg != e.arg || text != e.text ) ) violateStop( "C14", "wrong-arguments", "call", "listener %u receives (%d,'%s') instead of (%d,'%s')", id, arg, text.c_str(), e.arg, e.text.c_str() );
				// position
				for ( size_t i = e.next; i < e.snapshot.size(); ++i )
				{
					u32 o = e.snapshot[i];
					if ( o == id ) { e.next = i + 1; return; }
					if ( ls[o].connected ) violateStop( "C14", "skipped", "order", "listener %u is called before listener %u, connected earlier", id, o );
				}
				for ( size_t i = 0; i < e.next && i < e.snapshot.size(); ++i )
					if ( e.snapshot[i] == id ) violateStop( "C14", "out-of-order", "call", "listener %u is called after a later one", id );
				// connected during the emission: may be called, after those it found
			}

			void body( std::shared_ptr< Token > const & t, int arg, std::string const & text )
			{
				called( t->id, t->magic, arg, text );
				u32 n = budget ? choose( 3, "reentrant-ops" ) : 0;
				for ( u32 i = 0; i < n && budget; ++i ) { --budget; op( true, t->id ); }
				if ( choose( 16, "throws" ) == 15 ) { count( "fault_listener-throws" ); throw Thrown{}; }
				// the listener still owns what it captured
				if ( t->magic != 0xA11CE ) violateStop( "C14", "listener-destroyed", "during", "listener is released while it runs" );
			}

			void connect( int s )
			{
				if ( !sigs[s] ) return;
				u32 id = u32( ls.size() );
				auto tok = std::make_shared< Token >( Token{ id, 0xA11CE } );
				Listener l;
				l.id = id; l.sig = s; l.connected = true; l.token = tok;
				ls.push_back( l );
				order[s].push_back( id );
				logf( "  connect listener %u to signal %d\n", id, s );
				count( "connects" );
				Slot sl;
				sl.lst = int( id );
				// a member of this holder keeps the captures alive for the call: the
				// closure itself may be destroyed by a disconnection from inside
				if constexpr ( Args )
					sl.con = std::make_unique< ConT >( sigs[s]->connect( [this, tok]( int a, std::string b ) { auto keep = tok; this->body( keep, a, b ); touch( tok ); } ) );
				else
					sl.con = std::make_unique< ConT >( sigs[s]->connect( [this, tok]() { auto keep = tok; this->body( keep, 0, {} ); touch( tok ); } ) );
				slots.push_back( std::move( sl ) );
			}
			static void touch( std::shared_ptr< Token > const & t )
			{
				// reads the closure's own capture after a possible self-disconnection
				if ( t->magic != 0xA11CE ) violateStop( "C14", "listener-destroyed", "during", "listener is released while it runs" );
			}

			void drop( int id )
			{
				if ( id < 0 ) return;
				auto & l = ls[size_t( id )];
				if ( !l.connected ) return;
				l.connected = false;
				auto & o = order[l.sig];
				for ( size_t i = 0; i < o.size(); ++i ) if ( o[i] == l.id ) { o.erase( o.begin() + long( i ) ); break; }
			}

			void emit( int s )
			{
				if ( !sigs[s] || depth >= 3 ) return;
				Emission e;
				e.sig = s;
				e.snapshot = order[s];
				e.arg = int( emissions * 7 + 3 );
				e.text = strf( "argument of emission number %u (long enough to live on the heap)", emissions );
				++emissions;
				logf( "  emit signal %d with %zu listeners\n", s, e.snapshot.size() );
				count( "emissions" );
				if ( depth ) count( "nested_emissions" );
				size_t level = stack.size();
				stack.push_back( e );
				++depth;
				try
				{
					if constexpr ( Args )
					{
						bool rv = choose( 2, "rvalue-arguments" );
						if ( rv ) ( *sigs[s] )( int( e.arg ), std::string( e.text ) );
						else { int a = e.arg; std::string t = e.text; ( *sigs[s] )( a, t ); if ( t != e.text ) violateStop( "C14", "wrong-arguments", "caller", "the emission changes the caller's argument" ); }
					}
					else
						( *sigs[s] )();
				}
				catch ( Thrown const & )
				{
					// the caller's affair: later emissions are as any other
					logf( "  emission ended by an exception of a listener\n" );
					--depth;
					stack.resize( level );
					return;
				}
				--depth;
				auto & f = stack.back();
				for ( size_t i = f.next; i < f.snapshot.size(); ++i )
					if ( ls[f.snapshot[i]].connected ) violateStop( "C14", "skipped", "end", "listener %u is connected during a whole emission and not called", f.snapshot[i] );
				u64 h = 0x5167;
				for ( u32 c : f.called ) h = mix2( h, c );
				stateSeen( h );
				stack.pop_back();
			}

			int pickSlot( char const * l ) { return slots.empty() ? -1 : int( choose( u32( slots.size() ), l ) ); }

			void op( bool inside, u32 self )
			{
				u32 k = choose( inside ? 8u : 10u, "signal-op" );
				trace( mix2( 0x0B, k ) );
				switch ( k )
				{
				case 0: connect( int( choose( 2, "signal" ) ) ); break;
				case 1: emit( int( choose( 2, "signal" ) ) ); break;
				case 2:
				{
					int i = pickSlot( "slot" );
					if ( inside && choose( 3, "self" ) == 1 ) { for ( size_t q = 0; q < slots.size(); ++q ) if ( slots[q].lst == int( self ) ) i = int( q ); }
					if ( i < 0 ) break;
					auto & s = slots[size_t( i )];
					logf( "  disconnect listener %d\n", s.lst );
					count( inside ? "disconnects_inside_emission" : "disconnects" );
					int l = s.lst;
					drop( l );
					s.con->disconnect();
					slots[size_t( i )].lst = -1;
					break;
				}
				case 3:
				{
					int i = pickSlot( "slot" );
					if ( i < 0 ) break;
					logf( "  destroy connection of listener %d\n", slots[size_t( i )].lst );
					count( "connections_destroyed" );
					drop( slots[size_t( i )].lst );
					auto c = std::move( slots[size_t( i )].con );
					slots.erase( slots.begin() + i );
					c.reset();
					break;
				}
				case 4:
				{
					int i = pickSlot( "slot" );
					if ( i < 0 ) break;
					logf( "  move-construct connection of listener %d\n", slots[size_t( i )].lst );
					count( "connections_moved" );
					auto c = std::make_unique< ConT >( std::move( *slots[size_t( i )].con ) );
					if ( slots[size_t( i )].con->isValid() ) violateStop( "C14", "moved-from-valid", "construct", "a moved-from connection is still valid" );
					slots[size_t( i )].con = std::move( c );
					break;
				}
				case 5:
				{
					int i = pickSlot( "slot" ), j = pickSlot( "slot2" );
					if ( i < 0 || j < 0 ) break;
					logf( "  move-assign connection of listener %d over that of listener %d\n", slots[size_t( j )].lst, slots[size_t( i )].lst );
					count( "connections_assigned" );
					if ( i != j )
					{
						drop( slots[size_t( i )].lst );
						*slots[size_t( i )].con = std::move( *slots[size_t( j )].con );
						slots[size_t( i )].lst = slots[size_t( j )].lst;
						slots[size_t( j )].lst = -1;
					}
					break;
				}
				case 6: connect( int( choose( 2, "signal" ) ) ); break;
				case 7: { auto s = std::make_unique< ConT >(); Slot sl; sl.con = std::move( s ); slots.push_back( std::move( sl ) ); break; }
				case 8: emit( int( choose( 2, "signal" ) ) ); break;
				default:
				{
					int s = int( choose( 2, "signal" ) );
					if ( choose( 4, "signal-destroy" ) != 3 ) { emit( s ); break; }
					if ( !sigs[s] ) { sigs[s] = std::make_unique< SigT >(); break; }
					logf( "  destroy signal %d\n", s );
					count( "signals_destroyed" );
					for ( auto & sl : slots ) if ( sl.lst >= 0 && ls[size_t( sl.lst )].sig == s ) { drop( sl.lst ); sl.lst = -1; }
					sigs[s].reset();
					break;
				}
				}
				if ( !inside ) quiet();
			}

			void quiet()
			{
				for ( auto & s : slots )
				{
					bool want = s.lst >= 0;
					if ( s.con->isValid() != want ) violateStop( "C14", "validity", want ? "invalid" : "valid", "a connection whose listener is %s says %s", want ? "connected" : "not connected", s.con->isValid() ? "valid" : "invalid" );
				}
				for ( auto & l : ls )
				{
					bool alive = !l.token.expired();
					if ( alive && !l.connected ) violateStop( "C14", "listener-kept", "quiet", "listener %u is still held after its disconnection", l.id );
					if ( !alive && l.connected ) violateStop( "C14", "listener-lost", "quiet", "listener %u, connected, was released", l.id );
				}
			}

			void run()
			{
				sigs[0] = std::make_unique< SigT >();
				sigs[1] = std::make_unique< SigT >();
				u32 n = chooseRange( 3, 26, "ops" );
				for ( u32 i = 0; i < n; ++i )
				{
					budget = choose( 7, "budget" );
					op( false, ~0u );
				}
				budget = 0;
				emit( 0 );
				emit( 1 );
				quiet();
				if ( emissions && calls ) count( "nontrivial" );
				// tear down in either order
				if ( choose( 2, "teardown" ) )
				{
					for ( int s = 0; s < 2; ++s )
					{
						for ( auto & sl : slots ) if ( sl.lst >= 0 && ls[size_t( sl.lst )].sig == s ) { drop( sl.lst ); sl.lst = -1; }
						sigs[s].reset();
					}
					quiet();
					slots.clear();
				}
				else
				{
					for ( auto & sl : slots ) drop( sl.lst );
					slots.clear();
					quiet();
					sigs[0].reset();
					sigs[1].reset();
				}
			}
		};
	}

	void scenSignal()
	{
		if ( choose( 3, "signature" ) == 1 ) { World< Sig0, Con0, false > w; w.run(); }
		else { World< Sig, Con, true > w; w.run(); }
	}
}
