// Driver: seeded search over runs, minimisation, replay, evidence.
#include "scen.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

namespace
{
	double now()
	{
		struct timespec ts{};
		syscall( SYS_clock_gettime, CLOCK_MONOTONIC, &ts );
		return double( ts.tv_sec ) + 1e-9 * double( ts.tv_nsec );
	}

	struct Opts
	{
		std::string prop, tier{ "quick" }, out, known, replayDir{ "." }, replay;
		u64 seed{ 1 };
		double seconds{ 20 }, maxSeconds{ 0 };
		u64 minRuns{ 0 }, maxRuns{ ~0ull };
		u32 jobs{ 8 };
		bool all{ false }, verbose{ false };
		u64 one{ ~0ull };
		bool noShrink{ false }, shrinkOne{ false }, exact{ false };
	} opt;

	struct Control
	{
		std::atomic< u64 > next;
		std::atomic< u32 > stop;
		std::atomic< u64 > distinct, distinctStates, nontrivialDistinct;
		static constexpr u32 TabSize = 1u << 22;
		std::atomic< u64 > tab[TabSize];
		std::atomic< u64 > tabS[TabSize];
	};
	Control * ctl{};

	bool insert( std::atomic< u64 > * tab, u64 h )
	{
		if ( !h ) h = 1;
		for ( u32 i = u32( h ) & ( Control::TabSize - 1 ), k = 0; k < 64; ++k, i = ( i + 1 ) & ( Control::TabSize - 1 ) )
		{
			u64 e = tab[i].load( std::memory_order_relaxed );
			if ( e == h ) return false;
			if ( !e )
			{
				u64 z = 0;
				if ( tab[i].compare_exchange_strong( z, h ) ) return true;
				if ( z == h ) return false;
			}
		}
		return false;
	}

	int errFd{ -1 };

	std::string slurpErr()
	{
		std::string r;
		char buf[4096];
		lseek( errFd, 0, SEEK_SET );
		ssize_t n;
		while ( ( n = read( errFd, buf, sizeof buf ) ) > 0 && r.size() < 65536 ) r.append( buf, size_t( n ) );
		return r;
	}

	struct Result
	{
		Status st{};
		std::string prop, cls, key, msg, err, log;
		u64 traceHash{}, stateHash{}, steps{}, vt{};
		std::vector< u32 > tape;
		bool same( Result const & o )const { return st == o.st && prop == o.prop && cls == o.cls && key == o.key; }
	};

	std::string crashKey( std::string const & err, int status )
	{
		auto line = [&]( size_t p ) { auto e = err.find( '\n', p ); return err.substr( p, e == std::string::npos ? std::string::npos : e - p ); };
		if ( auto p = err.find( "Assertion `" ); p != std::string::npos )
		{
			auto l = line( p );
			return "assert " + l.substr( 10 );
		}
		if ( auto p = err.find( "AddressSanitizer: " ); p != std::string::npos )
		{
			auto l = line( p + 18 );
			return "asan " + l.substr( 0, l.find( ' ' ) );
		}
		if ( auto p = err.find( "runtime error: " ); p != std::string::npos ) return "ubsan " + line( p + 15 ).substr( 0, 60 );
		if ( auto p = err.find( "what():" ); p != std::string::npos ) return "exception " + line( p + 7 ).substr( 0, 80 );
		if ( err.find( "double free" ) != std::string::npos ) return "double free";
		if ( err.find( "free of foreign pointer" ) != std::string::npos ) return "free of foreign pointer";
		if ( WIFSIGNALED( status ) ) return std::string( "signal " ) + strsignal( WTERMSIG( status ) );
		return "exit status " + std::to_string( WEXITSTATUS( status ) );
	}

	// runs one simulated execution in a child process
	Result execRun( RunCfg const & c, bool symbolize = false )
	{
		Result r;
		(void)!ftruncate( errFd, 0 );
		lseek( errFd, 0, SEEK_SET );
		sh->status = Status::Running;
		fflush( stdout ); fflush( stderr );
		pid_t pid = fork();
		if ( pid < 0 ) { r.st = Status::HarnessError; r.msg = "fork failed"; return r; }
		if ( pid == 0 )
		{
			dup2( errFd, 1 );
			dup2( errFd, 2 );
			(void)symbolize;
			initRun( c );
			runScenario();
			finishOk();
		}
		int status = 0;
		double t0 = now();
		bool killed = false;
		for ( ;; )
		{
			pid_t w = waitpid( pid, &status, WNOHANG );
			if ( w == pid ) break;
			double el = now() - t0;
			if ( el > 60 && !killed ) { kill( pid, SIGKILL ); killed = true; }
			struct timespec ts{ 0, el < 0.02 ? 20000 : 1000000 };
			// blocking wait for short runs is cheaper
			if ( el < 0.0001 ) { ts.tv_nsec = 300000; }
			syscall( SYS_nanosleep, &ts, nullptr );
		}
		r.tape.assign( sh->tape, sh->tape + std::min( sh->ntape, MaxTape ) );
		r.traceHash = sh->traceHash;
		r.stateHash = sh->stateHash;
		r.steps = sh->steps;
		r.vt = sh->vtime;
		bool clean = WIFEXITED( status ) && WEXITSTATUS( status ) == 0 && sh->status != Status::Running;
		if ( clean )
		{
			r.st = sh->status;
			r.prop = sh->prop; r.cls = sh->cls; r.key = sh->key; r.msg = sh->msg;
			if ( c.verbose ) r.log.assign( sh->log, sh->logLen );
			return r;
		}
		r.err = slurpErr();
		r.st = Status::Violation;
		r.prop = c.prop;
		if ( c.verbose ) r.log.assign( sh->log, sh->logLen );
		if ( killed || ( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGVTALRM ) )
		{
			r.cls = "hang";
			r.key = "no progress";
			r.msg = "the run does not end (no device call completes it)";
		}
		else
		{
			r.cls = "crash";
			r.key = crashKey( r.err, status );
			r.msg = "the run crashed: " + r.key;
		}
		for ( size_t i = 0; i < knownFindings.size() && i < MaxKnown; ++i )
		{
			auto & k = knownFindings[i];
			if ( k.prop == r.prop && k.cls == r.cls && k.key == r.key ) { ++sh->known[i]; r.st = Status::AbortedOther; }
		}
		return r;
	}

	// C10: the same run under two address spaces must be the same
	Result execPair( RunCfg const & c )
	{
		RunCfg a = c;
		a.addrForced = true;
		u64 s = c.replay ? 0x1234567 : c.seed;
		if ( c.replay && c.tape.size() > 0 ) for ( size_t i = 0; i < 8 && i < c.tape.size(); ++i ) s = mix2( s, c.tape[i] );
		a.addrMode = 0; a.handleMode = 0; a.addrSeed = 1; a.handleSeed = 1;
		Result ra = execRun( a );
		if ( ra.st != Status::Ok ) return ra;
		RunCfg b = a;
		b.replay = true;
		b.tape = ra.tape;
		Result last = ra;
		for ( u32 k = 0; k < 2; ++k )
		{
			// one mirror image and one random placement
			b.addrMode = k == 0 ? 1 : 2; b.handleMode = k == 0 ? 1 : ( ra.tape.empty() ? 2u : ra.tape.size() % 2 ? 2u : 3u ); b.addrSeed = 77 + k; b.handleSeed = 99 + k;
			u64 known0[MaxKnown];
			memcpy( known0, sh->known, sizeof known0 );
			Result rb = execRun( b );
			for ( u32 i = 0; i < MaxKnown; ++i ) sh->known[i] += known0[i];
			if ( rb.st == Status::HarnessError ) return rb;
			if ( rb.st == Status::Ok && rb.traceHash == ra.traceHash ) continue;
			// find the first difference
			RunCfg va = b, vb = b;
			va.addrMode = 0; va.handleMode = 0; va.addrSeed = 1; va.handleSeed = 1;
			va.verbose = vb.verbose = true;
			Result la = execRun( va ), lb = execRun( vb );
			std::istringstream ia( la.log ), ib( lb.log );
			std::string x, y;
			bool ga, gb;
			do { ga = bool( std::getline( ia, x ) ); gb = bool( std::getline( ib, y ) ); } while ( ga && gb && x == y );
			Result v = rb;
			v.tape = ra.tape;
			v.st = Status::Violation;
			v.prop = c.prop;
			v.cls = "diverges";
			std::string w = x.substr( 0, x.find_first_of( " :" ) );
			v.key = w.empty() ? "results" : w;
			v.msg = "two executions that differ only in addresses and handle values diverge: first does '" + ( ga ? x : std::string( "(end)" ) ) + "', second '" + ( gb ? y : std::string( "(end)" ) ) + "'";
			v.log = la.log;
			for ( size_t i = 0; i < knownFindings.size() && i < MaxKnown; ++i )
			{
				auto & kf = knownFindings[i];
				if ( kf.prop == v.prop && kf.cls == v.cls && kf.key == v.key ) { ++sh->known[i]; v.st = Status::AbortedOther; }
			}
			return v;
		}
		return last;
	}

	Result execute( RunCfg const & c )
	{
		Result r = c.prop == "C10" ? execPair( c ) : execRun( c );
		return r;
	}

	RunCfg baseCfg()
	{
		RunCfg c;
		c.prop = opt.prop;
		return c;
	}
	u64 runSeed( u64 idx ) { return mix2( mix2( opt.seed, hashStr( opt.prop.c_str() ) ), idx ); }

	// ------------------------------------------------------------------ worker
	struct Agg
	{
		u64 runs{}, ok{}, aborted{}, harness{}, steps{}, vt{}, viol{}, nontriv{};
		std::map< std::string, u64 > counters;
		u64 known[MaxKnown]{};
	};

	void worker( u32 id, int fd, double tEnd, double tMax )
	{
		(void)id;
		Agg g;
		FILE * f = fdopen( fd, "w" );
		std::set< std::string > reported;
		while ( !ctl->stop.load() )
		{
			double t = now();
			u64 idx = ctl->next.fetch_add( 1 );
			if ( idx >= opt.maxRuns ) break;
			if ( t >= tMax ) break;
			if ( t >= tEnd && idx >= opt.minRuns ) break;
			RunCfg c = baseCfg();
			c.seed = runSeed( idx );
			Result r = execute( c );
			++g.runs;
			g.steps += r.steps;
			g.vt += r.vt ? r.vt - 1000000000ull : 0;
			bool nt = false;
			for ( u32 i = 0; i < sh->ncounters; ++i )
			{
				g.counters[sh->cname[i]] += sh->cval[i];
				if ( !strcmp( sh->cname[i], "nontrivial" ) && sh->cval[i] ) nt = true;
			}
			for ( u32 i = 0; i < MaxKnown; ++i ) g.known[i] += sh->known[i];
			if ( nt ) ++g.nontriv;
			if ( insert( ctl->tab, r.traceHash ) ) { ctl->distinct.fetch_add( 1 ); if ( nt ) ctl->nontrivialDistinct.fetch_add( 1 ); }
			if ( insert( ctl->tabS, r.stateHash ) ) ctl->distinctStates.fetch_add( 1 );
			if ( r.st == Status::Ok ) ++g.ok;
			else if ( r.st == Status::AbortedOther )
			{
				++g.aborted;
				if ( opt.all )
				{
					auto k = "aborted: " + r.msg.substr( 0, 150 );
					std::replace( k.begin(), k.end(), '\n', ' ' ); std::replace( k.begin(), k.end(), '\t', ' ' );
					fprintf( f, "V\t%llu\t%s\t%s\t%s\n", ( unsigned long long )( idx | u64( r.tape.size() ) << 40 ), r.prop.c_str(), "aborted", k.c_str() );
				}
			}
			else
			{
				if ( r.st == Status::HarnessError ) ++g.harness; else ++g.viol;
				std::string k = r.st == Status::HarnessError ? "HARNESS " + r.msg : r.key;
				std::replace( k.begin(), k.end(), '\n', ' ' ); std::replace( k.begin(), k.end(), '\t', ' ' );
				fprintf( f, "V\t%llu\t%s\t%s\t%s\n", ( unsigned long long )( idx | ( opt.all ? u64( r.tape.size() ) << 40 : 0 ) ), r.prop.c_str(), r.st == Status::HarnessError ? "harness" : r.cls.c_str(), k.c_str() );
				fflush( f );
				if ( !opt.all ) { ctl->stop.store( 1 ); break; }
			}
			// the simulator itself must be deterministic
			if ( g.runs % 256 == 100 && opt.prop != "C10" )
			{
				Result r2 = execute( c );
				if ( !( r2.same( r ) && r2.traceHash == r.traceHash && r2.tape == r.tape ) )
				{
					++g.harness;
					fprintf( f, "V\t%llu\t%s\tharness\tHARNESS run is not repeatable\n", ( unsigned long long )idx, opt.prop.c_str() );
					if ( !opt.all ) { ctl->stop.store( 1 ); break; }
				}
				else ++g.counters["repeatability_checks"];
			}
		}
		fprintf( f, "A\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\n", ( unsigned long long )g.runs, ( unsigned long long )g.ok, ( unsigned long long )g.aborted, ( unsigned long long )g.harness
			, ( unsigned long long )g.steps, ( unsigned long long )( g.vt / 1000 ), ( unsigned long long )g.viol, ( unsigned long long )g.nontriv );
		for ( auto & [n, v] : g.counters ) fprintf( f, "C\t%s\t%llu\n", n.c_str(), ( unsigned long long )v );
		for ( u32 i = 0; i < MaxKnown; ++i ) if ( g.known[i] ) fprintf( f, "K\t%u\t%llu\n", i, ( unsigned long long )g.known[i] );
		fclose( f );
		_exit( 0 );
	}

	std::vector< std::string > split( std::string const & s, char d )
	{
		std::vector< std::string > r;
		std::string c;
		for ( char ch : s ) { if ( ch == d ) { r.push_back( c ); c.clear(); } else c += ch; }
		r.push_back( c );
		return r;
	}

	std::string jstr( std::string const & s )
	{
		std::string r = "\"";
		for ( unsigned char c : s )
		{
			if ( c == '"' || c == '\\' ) { r += '\\'; r += char( c ); }
			else if ( c == '\n' ) r += "\\n";
			else if ( c < 32 || c > 126 ) r += strf( "\\u%04x", c );
			else r += char( c );
		}
		return r + "\"";
	}

	// ------------------------------------------------------------------ minimisation
	bool stillFails( std::vector< u32 > const & tape, Result const & want, Result & got )
	{
		RunCfg c = baseCfg();
		c.replay = true;
		c.tape = tape;
		got = execute( c );
		return got.same( want );
	}

	std::vector< u32 > shrink( std::vector< u32 > tape, Result const & want, double limit, u32 & tries )
	{
		double t0 = now();
		Result got;
		auto trim = [&]() { while ( !tape.empty() && tape.back() == 0 ) tape.pop_back(); };
		auto test = [&]( std::vector< u32 > const & t ) { ++tries; return stillFails( t, want, got ); };
		trim();
		bool progress = true;
		while ( progress && now() - t0 < limit )
		{
			progress = false;
			// cut the tail
			for ( size_t n = tape.size() / 2; n >= 1 && now() - t0 < limit; n /= 2 )
			{
				while ( tape.size() >= n && now() - t0 < limit )
				{
					auto t = tape;
					t.resize( tape.size() - n );
					if ( !test( t ) ) break;
					tape = t;
					progress = true;
				}
			}
			// delete and zero chunks
			for ( size_t n = std::max< size_t >( 1, tape.size() / 4 ); n >= 1; n /= 2 )
			{
				for ( size_t at = 0; at < tape.size() && now() - t0 < limit; )
				{
					size_t m = std::min( n, tape.size() - at );
					auto t = tape;
					t.erase( t.begin() + long( at ), t.begin() + long( at + m ) );
					if ( test( t ) ) { tape = t; progress = true; continue; }
					bool any = false;
					t = tape;
					for ( size_t i = at; i < at + m; ++i ) { any = any || t[i]; t[i] = 0; }
					if ( any && test( t ) ) { tape = t; progress = true; }
					at += m;
				}
				if ( n == 1 || now() - t0 >= limit ) break;
			}
			trim();
			// lower single values
			for ( size_t at = 0; at < tape.size() && now() - t0 < limit; ++at )
			{
				while ( tape[at] > 1 && now() - t0 < limit )
				{
					auto t = tape;
					t[at] /= 2;
					if ( !test( t ) ) break;
					tape = t;
					progress = true;
				}
			}
		}
		trim();
		return tape;
	}

	void writeReplay( std::string const & path, std::vector< u32 > const & tape, Result const & r, std::string const & log )
	{
		std::ofstream f( path );
		f << "dsim-replay 1\n";
		f << "property " << opt.prop << "\n";
		f << "class " << r.cls << "\n";
		f << "key " << r.key << "\n";
		f << "trace " << r.traceHash << "\n";
		auto m = r.msg;
		std::replace( m.begin(), m.end(), '\n', ' ' );
		f << "message " << m << "\n";
		f << "tape " << tape.size();
		for ( auto v : tape ) f << " " << v;
		f << "\n";
		f << "# how to replay: bash /verif/check.sh --replay <this file>\n";
		f << "# ---- schedule and fault trace of the minimised run ----\n";
		std::istringstream is( log );
		std::string l;
		while ( std::getline( is, l ) ) f << "# " << l << "\n";
		if ( !r.err.empty() )
		{
			f << "# ---- output ----\n";
			std::istringstream es( r.err.substr( 0, 12000 ) );
			while ( std::getline( es, l ) ) f << "# " << l << "\n";
		}
	}

	bool readReplay( std::string const & path, std::vector< u32 > & tape, Result & want )
	{
		std::ifstream f( path );
		std::string l;
		bool ok = false;
		while ( std::getline( f, l ) )
		{
			if ( l.compare( 0, 9, "property " ) == 0 ) opt.prop = l.substr( 9 );
			else if ( l.compare( 0, 6, "class " ) == 0 ) want.cls = l.substr( 6 );
			else if ( l.compare( 0, 4, "key " ) == 0 ) want.key = l.substr( 4 );
			else if ( l.compare( 0, 6, "trace " ) == 0 ) want.traceHash = std::stoull( l.substr( 6 ) );
			else if ( l.compare( 0, 5, "tape " ) == 0 )
			{
				std::istringstream is( l.substr( 5 ) );
				size_t n;
				is >> n;
				tape.resize( n );
				for ( auto & v : tape ) is >> v;
				ok = true;
			}
		}
		want.st = Status::Violation;
		want.prop = opt.prop;
		return ok;
	}

	void loadKnown( std::string const & path )
	{
		std::ifstream f( path );
		std::string l;
		while ( std::getline( f, l ) )
		{
			if ( l.empty() || l[0] == '#' || l.compare( 0, 6, "fixed:" ) == 0 ) continue;
			// known: property=<id> class=<cls> key=<key> :: text
			if ( l.compare( 0, 6, "known:" ) != 0 ) continue;
			KnownFinding k;
			auto p = l.find( "property=" ), c = l.find( " class=" ), y = l.find( " key=" ), t = l.find( " :: " );
			if ( p == std::string::npos || c == std::string::npos || y == std::string::npos || t == std::string::npos ) continue;
			k.prop = l.substr( p + 9, c - p - 9 );
			k.cls = l.substr( c + 7, y - c - 7 );
			k.key = l.substr( y + 5, t - y - 5 );
			k.text = l.substr( t + 4 );
			knownFindings.push_back( k );
		}
	}

	void setupShared()
	{
		sh = static_cast< Shared * >( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
		errFd = int( syscall( SYS_memfd_create, "err", 0 ) );
	}
}

int main( int argc, char ** argv )
{
	{
		int p = personality( 0xffffffff );
		if ( p != -1 && !( p & ADDR_NO_RANDOMIZE ) && !getenv( "DSIM_NOASLR" ) )
		{
			setenv( "DSIM_NOASLR", "1", 1 );
			if ( personality( unsigned( p ) | ADDR_NO_RANDOMIZE ) != -1 ) execv( "/proc/self/exe", argv );
		}
	}
	for ( int i = 1; i < argc; ++i )
	{
		std::string a = argv[i];
		auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if ( a == "--prop" ) opt.prop = nx();
		else if ( a == "--tier" ) opt.tier = nx();
		else if ( a == "--seed" ) opt.seed = std::stoull( nx() );
		else if ( a == "--seconds" ) opt.seconds = std::stod( nx() );
		else if ( a == "--max-seconds" ) opt.maxSeconds = std::stod( nx() );
		else if ( a == "--min-runs" ) opt.minRuns = std::stoull( nx() );
		else if ( a == "--max-runs" ) opt.maxRuns = std::stoull( nx() );
		else if ( a == "--jobs" ) opt.jobs = u32( std::stoul( nx() ) );
		else if ( a == "--out" ) opt.out = nx();
		else if ( a == "--known" ) opt.known = nx();
		else if ( a == "--replay-dir" ) opt.replayDir = nx();
		else if ( a == "--replay" ) opt.replay = nx();
		else if ( a == "--all" ) opt.all = true;
		else if ( a == "--verbose" ) opt.verbose = true;
		else if ( a == "--one" ) opt.one = std::stoull( nx() );
		else if ( a == "--no-shrink" ) opt.noShrink = true;
		else if ( a == "--shrink" ) opt.shrinkOne = true;
		else { fprintf( stderr, "unknown option %s\n", a.c_str() ); return 2; }
	}
	if ( !opt.known.empty() ) loadKnown( opt.known );
	setupShared();

	if ( !opt.replay.empty() )
	{
		std::vector< u32 > tape;
		Result want;
		if ( !readReplay( opt.replay, tape, want ) ) { fprintf( stderr, "cannot read %s\n", opt.replay.c_str() ); return 2; }
		knownFindings.clear();
		RunCfg c = baseCfg();
		c.replay = true;
		c.tape = tape;
		c.verbose = opt.verbose;
		Result r = execute( c );
		if ( opt.verbose ) fputs( r.log.c_str(), stdout );
		if ( opt.verbose && !r.err.empty() ) fputs( r.err.c_str(), stdout );
		bool same = r.same( want ) && r.traceHash == want.traceHash;
		printf( "replay property=%s class=%s key=%s trace=%llu %s\n  %s\n", opt.prop.c_str(), r.cls.c_str(), r.key.c_str(), ( unsigned long long )r.traceHash
			, r.st == Status::Violation ? ( same ? "REPRODUCED" : "VIOLATION DIFFERS FROM THE RECORDED ONE" ) : "NO VIOLATION", r.msg.c_str() );
		if ( r.st == Status::Violation ) { printf( "VIOLATION property=%s replay=%s\n", opt.prop.c_str(), opt.replay.c_str() ); return same ? 1 : 3; }
		return 0;
	}
	if ( opt.one != ~0ull )
	{
		RunCfg c = baseCfg();
		c.seed = runSeed( opt.one );
		c.verbose = opt.verbose;
		Result r = execute( c );
		if ( opt.shrinkOne )
		{
			u32 tries = 0;
			c.replay = true;
			c.verbose = false;
			opt.exact = true;
			c.tape = shrink( r.tape, r, opt.seconds, tries );
			c.verbose = opt.verbose;
			r = execute( c );
		}
		if ( opt.verbose ) fputs( r.log.c_str(), stdout );
		if ( !r.err.empty() ) fputs( r.err.c_str(), stdout );
		printf( "status %u prop %s cls %s key %s tape %zu trace %llu steps %llu\n%s\n", u32( r.st ), r.prop.c_str(), r.cls.c_str(), r.key.c_str(), r.tape.size(), ( unsigned long long )r.traceHash, ( unsigned long long )r.steps, r.msg.c_str() );
		for ( u32 i = 0; i < sh->ncounters; ++i ) printf( "  %s=%llu\n", sh->cname[i], ( unsigned long long )sh->cval[i] );
		return 0;
	}

	ctl = static_cast< Control * >( mmap( nullptr, sizeof( Control ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
	double t0 = now();
	double tEnd = t0 + opt.seconds;
	double tMax = opt.maxSeconds > 0 ? t0 + opt.maxSeconds : ( opt.minRuns ? t0 + opt.seconds * 4 : tEnd );
	std::vector< pid_t > pids;
	std::vector< int > fds;
	for ( u32 i = 0; i < opt.jobs; ++i )
	{
		int p[2];
		if ( pipe( p ) ) return 2;
		pid_t pid = fork();
		if ( pid == 0 )
		{
			close( p[0] );
			setupShared();
			worker( i, p[1], tEnd, tMax );
		}
		close( p[1] );
		pids.push_back( pid );
		fds.push_back( p[0] );
	}
	struct Viol { u64 idx; std::string prop, cls, key; };
	std::vector< Viol > viols;
	Agg g;
	{
		std::vector< std::string > bufs( fds.size() );
		std::vector< struct pollfd > pf;
		for ( int fd : fds ) pf.push_back( { fd, POLLIN, 0 } );
		size_t open = fds.size();
		while ( open )
		{
			poll( pf.data(), pf.size(), 1000 );
			for ( size_t i = 0; i < pf.size(); ++i )
			{
				if ( pf[i].fd < 0 || !pf[i].revents ) continue;
				char b[65536];
				ssize_t n = read( pf[i].fd, b, sizeof b );
				if ( n <= 0 ) { close( pf[i].fd ); pf[i].fd = -1; --open; continue; }
				bufs[i].append( b, size_t( n ) );
			}
		}
		for ( auto & b : bufs )
		{
			std::istringstream is( b );
			std::string l;
			while ( std::getline( is, l ) )
			{
				auto t = split( l, '\t' );
				if ( t[0] == "V" && t.size() >= 5 ) viols.push_back( { std::stoull( t[1] ), t[2], t[3], t[4] } );
				else if ( t[0] == "A" && t.size() >= 9 )
				{
					g.runs += std::stoull( t[1] ); g.ok += std::stoull( t[2] ); g.aborted += std::stoull( t[3] ); g.harness += std::stoull( t[4] );
					g.steps += std::stoull( t[5] ); g.vt += std::stoull( t[6] ); g.viol += std::stoull( t[7] ); g.nontriv += std::stoull( t[8] );
				}
				else if ( t[0] == "C" && t.size() >= 3 ) g.counters[t[1]] += std::stoull( t[2] );
				else if ( t[0] == "K" && t.size() >= 3 ) g.known[std::stoull( t[1] ) % MaxKnown] += std::stoull( t[2] );
			}
		}
		for ( auto p : pids ) { int s; waitpid( p, &s, 0 ); }
	}
	double searchS = now() - t0;

	if ( opt.all )
	{
		std::map< std::string, std::pair< u64, u64 > > byKey;
		for ( auto & v : viols )
		{
			auto & e = byKey[v.prop + " | " + v.cls + " | " + v.key];
			if ( !e.first++ || v.idx < e.second ) e.second = v.idx;
		}
		printf( "runs %llu ok %llu aborted %llu harness %llu viol %llu distinct %llu nontrivial %llu  (%.0f runs/s)\n", ( unsigned long long )g.runs, ( unsigned long long )g.ok, ( unsigned long long )g.aborted, ( unsigned long long )g.harness
			, ( unsigned long long )g.viol, ( unsigned long long )ctl->distinct.load(), ( unsigned long long )ctl->nontrivialDistinct.load(), double( g.runs ) / searchS );
		for ( auto & [k, e] : byKey ) printf( "%8llu  seed %-8llu %s\n", ( unsigned long long )e.first, ( unsigned long long )( e.second & 0xFFFFFFFFFFull ), k.c_str() );
		for ( size_t i = 0; i < knownFindings.size() && i < MaxKnown; ++i ) if ( g.known[i] ) printf( "known %zu x%llu %s\n", i, ( unsigned long long )g.known[i], knownFindings[i].text.c_str() );
		if ( opt.verbose ) for ( auto & [n, v] : g.counters ) printf( "  %-40s %llu\n", n.c_str(), ( unsigned long long )v );
		return 0;
	}

	int rc = 0;
	std::string violMsg;
	for ( auto & v : viols )
	{
		if ( v.cls == "harness" ) { fprintf( stderr, "HARNESS ERROR property=%s seed=%llu: %s\n", opt.prop.c_str(), ( unsigned long long )v.idx, v.key.c_str() ); rc = 2; }
	}
	std::sort( viols.begin(), viols.end(), []( Viol const & a, Viol const & b ) { return a.idx < b.idx; } );
	u64 nviol = 0;
	for ( auto & v : viols )
	{
		if ( v.cls == "harness" ) continue;
		// one violation is enough: minimise it and write the replay file
		RunCfg c = baseCfg();
		c.seed = runSeed( v.idx );
		Result r = execute( c );
		if ( r.st != Status::Violation ) { fprintf( stderr, "HARNESS ERROR property=%s: run %llu does not repeat\n", opt.prop.c_str(), ( unsigned long long )v.idx ); rc = 2; continue; }
		u32 tries = 0;
		size_t n0 = r.tape.size();
		std::vector< u32 > tape = r.tape;
		Result again;
		bool tapeOk = stillFails( tape, r, again );
		if ( tapeOk && !opt.noShrink ) tape = shrink( tape, r, opt.tier == "quick" ? 25.0 : 90.0, tries );
		// gate: the minimised run must reproduce twice, bit for bit
		Result a, b;
		bool ga = stillFails( tape, r, a ), gb = stillFails( tape, r, b );
		if ( !tapeOk || !ga || !gb || a.traceHash != b.traceHash ) { fprintf( stderr, "HARNESS ERROR property=%s: the violation of run %llu does not replay\n", opt.prop.c_str(), ( unsigned long long )v.idx ); rc = 2; continue; }
		RunCfg vc = baseCfg();
		vc.replay = true; vc.tape = tape; vc.verbose = true;
		Result lr = execute( vc );
		std::string path = opt.replayDir + "/" + opt.prop + "-" + std::to_string( v.idx ) + ".replay";
		if ( a.err.empty() ) a.err = lr.err;
		writeReplay( path, tape, a, lr.log );
		// and in a fresh process
		{
			pid_t pid = fork();
			if ( pid == 0 )
			{
				int dn = open( "/dev/null", O_WRONLY );
				dup2( dn, 1 ); dup2( dn, 2 );
				execl( "/proc/self/exe", "dsim", "--replay", path.c_str(), static_cast< char * >( nullptr ) );
				_exit( 99 );
			}
			int s = 0;
			waitpid( pid, &s, 0 );
			if ( !WIFEXITED( s ) || WEXITSTATUS( s ) != 1 ) { fprintf( stderr, "HARNESS ERROR property=%s: %s does not replay in a fresh process\n", opt.prop.c_str(), path.c_str() ); rc = 2; continue; }
		}
		printf( "violated rule: %s %s: %s\n", a.cls.c_str(), a.key.c_str(), a.msg.c_str() );
		printf( "seed=%llu run=%llu choices=%zu minimised to %zu (%u executions)\n", ( unsigned long long )opt.seed, ( unsigned long long )v.idx, n0, tape.size(), tries );
		printf( "VIOLATION property=%s replay=%s\n", opt.prop.c_str(), path.c_str() );
		violMsg = a.cls + " " + a.key;
		++nviol;
		rc = 1;
		break;
	}
	if ( g.runs == 0 ) { fprintf( stderr, "HARNESS ERROR: no run\n" ); rc = rc ? rc : 2; }
	if ( !rc && g.ok * 2 < g.runs ) { fprintf( stderr, "HARNESS ERROR property=%s: more than half of the runs were cut short by other rules (%llu of %llu)\n", opt.prop.c_str(), ( unsigned long long )g.aborted, ( unsigned long long )g.runs ); }
	for ( size_t i = 0; i < knownFindings.size() && i < MaxKnown; ++i )
		if ( knownFindings[i].prop == opt.prop )
			printf( "KNOWN-FINDING: property=%s %s (seen %llu times in this search)\n", opt.prop.c_str(), knownFindings[i].text.c_str(), ( unsigned long long )g.known[i] );

	if ( !opt.out.empty() )
	{
		// samples: three runs written out
		std::string samples;
		for ( u64 k = 0; k < 3; ++k )
		{
			RunCfg c = baseCfg();
			c.seed = runSeed( k );
			c.verbose = true;
			Result r = execute( c );
			std::string s = strf( "run %llu: %zu choices, %llu device calls, trace %016llx; ", ( unsigned long long )k, r.tape.size(), ( unsigned long long )r.steps, ( unsigned long long )r.traceHash );
			for ( u32 i = 0; i < sh->ncounters; ++i ) s += strf( "%s=%llu ", sh->cname[i], ( unsigned long long )sh->cval[i] );
			s += "\n" + r.log.substr( 0, 1200 );
			samples += ( k ? "," : "" ) + jstr( s );
		}
		double wall = now() - t0;
		std::ofstream f( opt.out );
		f << "{\n \"property\": " << jstr( opt.prop ) << ",\n \"tier\": " << jstr( opt.tier ) << ",\n \"seed\": " << opt.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
		f << "  \"evaluations\": " << g.runs << ",\n  \"distinct_nontrivial\": " << ctl->nontrivialDistinct.load() << ",\n";
		f << "  \"rule\": " << jstr( std::string( scenarioRule( opt.prop ) ) + " Distinct: by the hash of the complete trace of device calls with their arguments (handles renamed by creation order) and observed results." ) << ",\n";
		f << "  \"samples\": [" << samples << "],\n";
		f << "  \"runs_ok\": " << g.ok << ", \"runs_cut_short_by_other_properties_rules\": " << g.aborted << ",\n";
		f << "  \"distinct_traces\": " << ctl->distinct.load() << ", \"distinct_state_histories\": " << ctl->distinctStates.load() << ",\n";
		f << strf( "  \"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f,\n", double( g.runs ) / searchS * 3600., double( g.runs ) / searchS * 3600. );
		f << strf( "  \"simulated_time_s\": %.6f, \"device_calls\": %llu,\n", double( g.vt ) * 1e-6, ( unsigned long long )g.steps );
		f << "  \"faults_injected\": {";
		bool first = true;
		for ( auto & [n, v] : g.counters ) if ( n.compare( 0, 6, "fault_" ) == 0 ) { f << ( first ? "" : ", " ) << jstr( n.substr( 6 ) ) << ": " << v; first = false; }
		f << "},\n  \"counters\": {";
		first = true;
		for ( auto & [n, v] : g.counters ) if ( n.compare( 0, 6, "fault_" ) != 0 ) { f << ( first ? "" : ", " ) << jstr( n ) << ": " << v; first = false; }
		f << "},\n  \"components_real\": [\"all of /repo/source/RenderGraph and /repo/include/RenderGraph, compiled from the current tree\"],\n";
		f << "  \"components_stub\": [\"Vulkan driver and GPU (sim/vk.cpp, sim/gpu.cpp)\", \"operator new/delete (address placement)\", \"clock_gettime\"" << ( opt.prop == "C09" ? ", \"pthread mutexes and threads (cooperative fibers)\"" : "" ) << "]\n },\n";
		f << strf( " \"wall_s\": %.2f,\n \"violations\": %llu\n}\n", wall, ( unsigned long long )nviol );
	}
	printf( "property=%s tier=%s seed=%llu runs=%llu distinct=%llu nontrivial=%llu ok=%llu cut-short=%llu in %.1f s: %s\n", opt.prop.c_str(), opt.tier.c_str(), ( unsigned long long )opt.seed, ( unsigned long long )g.runs
		, ( unsigned long long )ctl->distinct.load(), ( unsigned long long )ctl->nontrivialDistinct.load(), ( unsigned long long )g.ok, ( unsigned long long )g.aborted, searchS, rc == 0 ? "no violation" : rc == 1 ? "VIOLATED" : "ERROR" );
	return rc;
}
