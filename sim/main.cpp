// Search, minimisation, gate, evidence.
#include "drv.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {

Coverage* g_cov;
static uint64_t* g_hashes;
constexpr uint64_t MAXHASH = 1u<<20;
void noteHash( uint64_t h ) { if( g_cov->nh < MAXHASH ) g_hashes[g_cov->nh++]=h; }
void probe( int k ) { g_cov->probe[k]++; }

static double now()
{
	return std::chrono::duration<double>( std::chrono::steady_clock::now().time_since_epoch() ).count();
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, sig, replay, text; };
static std::vector<Known> g_known;
static std::string g_dir=".";
static void loadKnown()
{
	std::ifstream f( g_dir+"/known_findings.txt" );
	std::string l;
	while( std::getline( f, l ) )
	{
		if( l.compare( 0, 6, "known:" ) ) continue;
		Known k; std::istringstream s( l.substr(6) ); std::string w;
		while( s >> w )
		{
			if( !w.compare( 0, 9, "property=" ) ) k.prop=w.substr(9);
			else if( !w.compare( 0, 4, "sig=" ) ) k.sig=w.substr(4);
			else if( !w.compare( 0, 7, "replay=" ) ) k.replay=w.substr(7);
			else { std::getline( s, k.text ); k.text=w+k.text; break; }
		}
		g_known.push_back( k );
	}
}
static bool g_ignoreKnown=false;
bool isKnown( const std::string& prop, const std::string& sig )
{
	if( g_ignoreKnown ) return false;
	for( auto& k: g_known ) if( k.prop==prop && k.sig==sig ) return true;
	return false;
}

// ---------------------------------------------------------------- minimisation
static size_t sizeOf( const Plan& p )
{
	size_t n=0;
	for( auto& v: p.prog ) for( auto& o: v ) { n+=20+(o.tu!=0); for( auto& a: o.a ) n += a.str.size() + ( a.num!=0 && a.num!=1 ) + ( a.num!=std::floor(a.num) ); }
	return n + 5*p.pre.size() + 5*p.io.size() + (p.fill!=0) + (p.shift!=0) + p.search + (p.locale!=0) + (p.rndMode!=0);
}
static bool g_verbose=false;
struct Minimiser
{
	const Check* c; std::string cls, sig; Plan best; Violation viol; double deadline; int tries=0;
	bool attempt( const Plan& p )
	{
		if( now() > deadline ) return false;
		if( sizeOf(p) > sizeOf(best) ) return false;
		tries++;
		Verdict v=c->check( p );
		if( v && v->cls==cls && ( sig.empty() || v->sig==sig ) && !isKnown( c->id, v->sig ) )
		{
			best = sizeOf(v->plan) <= sizeOf(best) ? v->plan : p;
			viol=*v;
			return true;
		}
		return false;
	}
	// replaces the seeded scheduler by the preemptions it decided
	void explicitSchedule()
	{
		if( !best.search ) return;
		Result x=execute( best );
		Plan p=best; p.search=false; p.pre=x.trace;
		Verdict v=c->check( p );
		if( v && v->cls==cls && !isKnown( c->id, v->sig ) ) { best=p; viol=*v; }
	}
	void run()
	{
		pass();
		if( best.search ) { explicitSchedule(); pass(); }
	}
	void pass()
	{
		bool again=true;
		while( again && now()<deadline )
		{
			again=false;
			// operations, in chunks then one by one
			for( int k=0; k<NPROG; k++ )
				for( size_t n=std::max<size_t>( 1, best.prog[k].size()/2 ); ; n/=2 )
				{
					for( size_t i=0; i<best.prog[k].size() && now()<deadline; )
					{
						Plan p=best;
						size_t e=std::min( p.prog[k].size(), i+n );
						p.prog[k].erase( p.prog[k].begin()+i, p.prog[k].begin()+e );
						if( attempt(p) ) again=true; else i+=n;
					}
					if( n<=1 ) break;
				}
			for( size_t n=std::max<size_t>( 1, best.pre.size()/2 ); ; n/=2 )
			{
				for( size_t i=0; i<best.pre.size() && now()<deadline; )
				{
					Plan p=best;
					size_t e=std::min( p.pre.size(), i+n );
					p.pre.erase( p.pre.begin()+i, p.pre.begin()+e );
					if( attempt(p) ) again=true; else i+=n;
				}
				if( n<=1 ) break;
			}
			for( size_t i=0; i<best.io.size(); )
			{
				Plan p=best; p.io.erase( p.io.begin()+i );
				if( attempt(p) ) again=true; else i++;
			}
			for( int k=0; k<NPROG; k++ )
				for( size_t i=0; i<best.prog[k].size(); i++ )
					if( best.prog[k][i].tu ) { Plan p=best; p.prog[k][i].tu=0; if( attempt(p) ) again=true; }
			if( best.fill )    { Plan p=best; p.fill=0; if( attempt(p) ) again=true; }
			if( best.shift )   { Plan p=best; p.shift=0; if( attempt(p) ) again=true; }
			if( best.locale )  { Plan p=best; p.locale=0; if( attempt(p) ) again=true; }
			if( best.rndMode ) { Plan p=best; p.rndMode=0; if( attempt(p) ) again=true; }
			// arguments
			for( int k=0; k<NPROG; k++ )
				for( size_t i=0; i<best.prog[k].size(); i++ )
					for( size_t j=0; i<best.prog[k].size() && j<best.prog[k][i].a.size() && now()<deadline; j++ )
					{
						PArg a=best.prog[k][i].a[j];
						if( isObj(a.t) ) continue;
						auto set=[&]( const PArg& b ) { if( i>=best.prog[k].size() || j>=best.prog[k][i].a.size() ) return false; Plan p=best; p.prog[k][i].a[j]=b; bool r=attempt(p); if( r ) again=true; return r; };
						// raw markup given by the caller stays well-formed: all of it or nothing
						if( a.t=='t' && c->id==std::string("C07") ) { PArg b=a; b.str.clear(); if( !a.str.empty() ) set(b); continue; }
						if( a.t=='t' || a.t=='g' || a.t=='v' )
						{
							if( a.t=='g' || a.t=='t' )
								for( size_t n=std::max<size_t>( 1, a.str.size()/2 ); n>=1 && now()<deadline; n/=2 )
								{
									for( size_t q=0; q<a.str.size() && now()<deadline; )
									{
										PArg b=a; b.str.erase( q, n );
										if( b.str.size()<a.str.size() && set(b) ) a=b; else q+=n;
									}
									if( n==1 ) break;
								}
							else
							{
								std::vector<std::string> w; std::istringstream s( a.str ); std::string x; while( s >> x ) w.push_back( x );
								for( size_t q=0; q<w.size(); )
								{
									std::vector<std::string> z=w; z.erase( z.begin()+q );
									PArg b=a; b.str.clear(); for( auto& y: z ) { if( !b.str.empty() ) b.str+=' '; b.str+=y; }
									if( set(b) ) { w=z; a=b; } else q++;
								}
							}
						}
						else
						{
							bool keepSize = c->id==std::string("C10") && ( a.t=='r' || a.t=='x' );   // stays within the sizes generated
							for( double v: { 0., 1., std::floor(a.num), std::floor(a.num*10)/10 } )
								if( keepSize && ( v==0 || std::fabs(v-a.num)>std::fabs(a.num)/2 ) ) continue;
								else if( v!=a.num && !( a.num==0. ) && !( a.num==1. && v!=0. ) ) { PArg b=a; b.num=v; if( set(b) ) break; }
						}
					}
		}
	}
};

// ---------------------------------------------------------------- workers
struct Shared
{
	Coverage cov;
	volatile uint64_t foundAt;    // index of the plan + 1
	volatile int stop;
	char plan[1<<20];
	uint64_t hashes[MAXHASH];
};
static constexpr int MAXW=16;

static std::string jsonEsc( const std::string& s )
{
	std::string r;
	for( unsigned char c: s )
	{
		if( c=='"' || c=='\\' ) { r+='\\'; r+=(char)c; }
		else if( c=='\n' ) r+="\\n";
		else if( c<32 || c>126 ) { char b[8]; snprintf( b, sizeof b, "\\u%04x", c ); r+=b; }
		else r+=(char)c;
	}
	return r;
}
static std::string readFile( const std::string& n ) { std::ifstream f( n, std::ios::binary ); std::ostringstream s; s << f.rdbuf(); return s.str(); }

// ---------------------------------------------------------------- stored plans
// Plans that once showed a violation (of a repaired defect or a planted bug) are run again first, and later
// with other schedules, addresses, memory contents, random sequences and faults.
static std::vector<std::string> g_corpus;
static void loadCorpus( const Check* c )
{
	std::string d=g_dir+"/corpus/"+c->id;
	std::vector<std::string> names;
	if( DIR* h=opendir( d.c_str() ) )
	{
		while( dirent* e=readdir( h ) ) { std::string n=e->d_name; if( n.size()>5 && n.substr( n.size()-5 )==".plan" ) names.push_back( n ); }
		closedir( h );
	}
	std::sort( names.begin(), names.end() );
	for( auto& n: names )
	{
		std::string t=readFile( d+"/"+n );
		size_t a=t.find( "\nuniverse " ); if( a==std::string::npos ) { if( !t.compare( 0, 9, "universe " ) ) a=(size_t)-1; else continue; }
		std::string un=t.substr( a+10, t.find( '\n', a+1 )-a-10 );
		if( findUniverse( un ) ) g_corpus.push_back( t );
	}
}
static Plan variantOf( const Check* c, Plan p, Rng& r )
{
	const Universe* from=findUniverse( p.universe );
	const Universe* to=universes()[r.below( universes().size() )];
	std::string id=c->id;
	if( to!=from && r.chance(.5) && id!="C08" && id!="C09" && id!="C10" )      // the import exists in one universe only
	{
		Plan q=p; bool ok=true; q.universe=to->name;
		for( auto& v: q.prog ) for( auto& o: v ) { int i=findOp( to, from->ops[o.op].name ); if( i<0 ) ok=false; else o.op=i; }
		if( ok ) p=q;
	}
	p.seed=r.next(); p.rnd=r.next(); if( r.chance(.3) ) p.rndMode=(int)r.below(7);
	if( r.chance(.5) ) p.fill=r.next();
	if( r.chance(.7) ) for( auto& v: p.prog ) for( auto& o: v ) { o.fault=0; o.lim=-1; }
	if( r.chance(.3) ) p.io.clear();
	if( p.nthreads() && !p.seq ) { static const int gp[]={2,5,15,60}; p.search=true; p.pre.clear(); p.sched=r.next(); p.gap=gp[r.below(4)]; }
	return p;
}

static Plan generate( const Check* c, uint64_t seed, uint64_t i )
{
	if( i<g_corpus.size() ) return fromText( g_corpus[i] );
	if( g_corpus.size() && i%16==5 )
	{
		Rng r( mix( mix( seed, 77 ), i ) );
		return variantOf( c, fromText( g_corpus[r.below( g_corpus.size() )] ), r );
	}
	i-=g_corpus.size();
	uint64_t ps = mix( mix( seed, (uint64_t)( c->id[1]*10+c->id[2] ) ), i );
	Rng r( ps );
	Plan p=c->gen( r, i );
	p.prop=c->id; p.seed=ps;
	Rng r2( mix( ps, 2 ) );
	if( secondOf( findUniverse( p.universe ) ) && r2.chance(.3) ) for( auto& v: p.prog ) for( auto& o: v ) o.tu=r2.chance(.5);
	return p;
}

static int replayFile( const std::string& name, bool quiet )
{
	Plan p=fromText( readFile( name ) );
	const Check* c=findCheck( p.prop );
	if( !c ) { fprintf( stderr, "replay: no check for property '%s'\n", p.prop.c_str() ); return 2; }
	Coverage cv; g_cov=&cv; g_hashes=(uint64_t*)calloc( MAXHASH, 8 );
	Verdict v=c->check( p );
	if( !v ) { printf( "replay: no violation\n" ); return 0; }
	printf( "REPLAYED property=%s class=%s sig=%s\n", c->id, v->cls.c_str(), v->sig.c_str() );
	if( !quiet ) printf( "%s\n", v->text.c_str() );
	return 1;
}

static int runCheck( const Check* c, const std::string& tier, uint64_t seed, double seconds, int W, const char* self, uint64_t maxPlans )
{
	double t0=now();
	loadKnown();
	loadCorpus( c );
	Shared* sh[MAXW];
	for( int w=0; w<W; w++ )
	{
		sh[w]=(Shared*)mmap( nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0 );
		if( sh[w]==MAP_FAILED ) { perror( "mmap" ); return 2; }
	}
	pid_t pid[MAXW];
	fflush( stdout );
	for( int w=0; w<W; w++ )
	{
		pid[w]=fork();
		if( pid[w] ) continue;
		g_cov=&sh[w]->cov; g_hashes=sh[w]->hashes;
		rtInit();
		for( uint64_t i=w; ; i+=W )
		{
			if( now()-t0 > seconds || ( maxPlans && i>=maxPlans ) ) break;
			// a violation with a smaller index stops the search
			bool stop=false;
			for( int k=0; k<W; k++ ) if( sh[k]->foundAt && sh[k]->foundAt-1 < i ) stop=true;
			if( stop ) break;
			Plan p=generate( c, seed, i );
			g_cov->plans++;
			g_stats=Stats();
			Verdict v=c->check( p );
			g_cov->execs+=g_stats.execs; g_cov->steps+=g_stats.steps; g_cov->accesses+=g_stats.accesses; g_cov->allocs+=g_stats.allocs;
			g_cov->faults+=g_stats.faults; g_cov->switches+=g_stats.switches; g_cov->crashes+=g_stats.crashes;
			for( int k=0; k<IO_NKIND; k++ ) g_cov->io[k]+=g_stats.io[k];
			if( v )
			{
				if( isKnown( c->id, v->sig ) ) { g_cov->known++; continue; }
				std::string t=toText( v->plan );
				if( t.size() < sizeof(sh[w]->plan) ) { memcpy( sh[w]->plan, t.c_str(), t.size()+1 ); sh[w]->foundAt=i+1; break; }
			}
			if( i % 40 < (uint64_t)W && !v )      // the same plan twice: the simulator is deterministic
			{
				Result a=execute( p ), b=execute( p );
				if( a.hash==b.hash && a.steps==b.steps ) g_cov->detOk++; else g_cov->detBad++;
			}
		}
		_exit( 0 );
	}
	int bad=0;
	for( int w=0; w<W; w++ )
	{
		int st=0; waitpid( pid[w], &st, 0 );
		if( !( WIFEXITED(st) && WEXITSTATUS(st)==0 ) ) { bad++; fprintf( stderr, "worker %d ended abnormally (status %x)\n", w, st ); }
	}
	Coverage cv;
	std::unordered_set<uint64_t> hs;
	int fw=-1;
	for( int w=0; w<W; w++ )
	{
		const Coverage& k=sh[w]->cov;
		cv.plans+=k.plans; cv.evals+=k.evals; cv.discarded+=k.discarded; cv.ops+=k.ops; cv.opsThrew+=k.opsThrew; cv.faultPoints+=k.faultPoints; cv.unstable+=k.unstable; cv.known+=k.known;
		cv.execs+=k.execs; cv.steps+=k.steps; cv.accesses+=k.accesses; cv.allocs+=k.allocs; cv.faults+=k.faults; cv.switches+=k.switches; cv.crashes+=k.crashes;
		cv.detOk+=k.detOk; cv.detBad+=k.detBad;
		for( int i=0; i<IO_NKIND; i++ ) cv.io[i]+=k.io[i];
		for( int i=0; i<32; i++ ) cv.probe[i]+=k.probe[i];
		for( uint64_t i=0; i<k.nh; i++ ) hs.insert( sh[w]->hashes[i] );
		if( sh[w]->foundAt && ( fw<0 || sh[w]->foundAt < sh[fw]->foundAt ) ) fw=w;
	}
	double searchS = now()-t0;
	int rc = bad ? 2 : 0;
	Coverage scratch; g_cov=&scratch; g_hashes=(uint64_t*)calloc( MAXHASH, 8 );
	std::string sampleText, violText;
	if( fw>=0 )
	{
		rc=2;
		Plan p=fromText( sh[fw]->plan );
		Verdict v=c->check( p );
		if( !v ) { fprintf( stderr, "violation found in plan %llu did not reproduce\n%s\n", (unsigned long long)sh[fw]->foundAt-1, sh[fw]->plan ); }
		else
		{
			Minimiser m; m.c=c; m.cls=v->cls; m.best = v->plan; m.viol=*v; m.deadline = now()+ ( tier=="quick" ? 25 : 120 );
			printf( "violation in plan %llu: %s\nminimising...\n", (unsigned long long)sh[fw]->foundAt-1, v->cls.c_str() ); fflush( stdout );
			m.run();
			mkdir( (g_dir+"/replays").c_str(), 0777 );
			std::string file = g_dir+"/replays/"+c->id+".plan";
			{
				std::ofstream f( file, std::ios::binary );
				std::istringstream s( m.viol.text ); std::string l;
				while( std::getline( s, l ) ) f << "# " << l << "\n";
				f << toText( m.best );
			}
			// gate: the file read back, twice in this process, and once in a fresh one
			Plan q=fromText( readFile( file ) );
			Verdict a=c->check( q ), b=c->check( q );
			Result ra=execute( q ), rb=execute( q );
			bool ok = a && b && a->cls==m.cls && b->cls==m.cls && ( c->gateClassOnly || ( a->text==b->text && ra.hash==rb.hash ) );
			std::string cmd = std::string("'")+self+"' --dir '"+g_dir+"' replay '"+file+"'";
			FILE* pf=popen( cmd.c_str(), "r" ); std::string out; char buf[4096]; size_t n;
			if( pf ) { while( (n=fread( buf, 1, sizeof buf, pf ))>0 ) out.append( buf, n ); pclose( pf ); }
			bool fresh = out.find( "REPLAYED property="+std::string(c->id)+" class="+m.cls )!=std::string::npos;
			if( a ) printf( "%s\n", a->text.c_str() );
			printf( "--- minimised plan (%zu steps)\n%s---\n", q.prog[0].size()+q.prog[1].size()+q.prog[2].size()+q.prog[3].size()+q.prog[4].size(), toText( q ).c_str() );
			if( ok && fresh )
			{
				printf( "VIOLATION property=%s replay=%s\n", c->id, ("replays/"+std::string(c->id)+".plan").c_str() );
				rc=1;
			}
			else
				fprintf( stderr, "gate: the violation does not replay exactly (in process %d, fresh process %d)\n", (int)ok, (int)fresh );
		}
	}
	// known findings still present?
	int nknown=0;
	for( auto& k: g_known ) if( k.prop==c->id )
	{
		bool still=true;
		if( !k.replay.empty() )
		{
			Plan p=fromText( readFile( g_dir+"/"+k.replay ) );
			g_ignoreKnown=true;
			Verdict v=c->check( p );
			g_ignoreKnown=false;
			still = v && v->sig==k.sig;
		}
		if( still ) { printf( "KNOWN-FINDING: property=%s %s\n", c->id, k.text.c_str() ); nknown++; }
	}
	// evidence
	{
		mkdir( (g_dir+"/evidence").c_str(), 0777 );
		std::ofstream f( g_dir+"/evidence/"+c->id+".json" );
		double wall=now()-t0;
		f << "{\n \"property\": \"" << c->id << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"" << c->level << "\",\n \"coverage\": {\n";
		f << "  \"evaluations\": " << cv.evals << ", \"distinct_nontrivial\": " << hs.size() << ",\n";
		f << "  \"rule\": \"" << jsonEsc( c->rule ) << "\",\n";
		f << "  \"simulated_runs\": " << cv.execs << ", \"runs_per_hour\": " << (uint64_t)( cv.execs/std::max(.1,searchS)*3600 ) << ", \"seeds\": " << cv.plans << ", \"stored_plans\": " << g_corpus.size() << ", \"seeds_per_hour\": " << (uint64_t)( cv.plans/std::max(.1,searchS)*3600 ) << ",\n";
		f << "  \"simulated_time\": \"" << cv.steps << " instrumented steps (logical time; the code has no timers)\",\n";
		f << "  \"plans_discarded\": " << cv.discarded << ", \"operations\": " << cv.ops << ", \"operations_that_threw\": " << cv.opsThrew << ", \"unstable_comparisons_ignored\": " << cv.unstable << ", \"known_findings_met\": " << cv.known << ",\n";
		f << "  \"memory_accesses_checked\": " << cv.accesses << ", \"allocations\": " << cv.allocs << ", \"thread_switches\": " << cv.switches << ", \"runs_ended_by_process_death\": " << cv.crashes << ",\n";
		f << "  \"faults_injected\": { \"allocation\": " << cv.faults;
		static const char* kn[]={"open","write","close","rename","sync","read","bitmap_writer","disk_full"};
		for( int i=0; i<IO_NKIND; i++ ) if( cv.io[i] ) f << ", \"" << kn[i] << "\": " << cv.io[i];
		f << " }, \"fault_points_enumerated\": " << cv.faultPoints << ", \"fault_kinds_of_this_check\": \"" << jsonEsc( c->faults ) << "\",\n";
		f << "  \"probes\": {";
		for( size_t i=0; i<c->probes.size(); i++ ) f << ( i?", ":" " ) << "\"" << c->probes[i] << "\": " << cv.probe[i];
		f << " },\n  \"determinism\": { \"plans_run_twice\": " << cv.detOk+cv.detBad << ", \"identical\": " << cv.detOk << " },\n";
		f << "  \"real_code\": \"all of homog2d.hpp (compiled from /repo with access instrumentation), libstdc++, tinyxml2\", \"stubs\": \"heap, scheduler, file system, clock, random generator, standard streams" << ( !strcmp(c->id,"C06") ? ", cv::imwrite" : "" ) << "\",\n";
		f << "  \"samples\": [";
		int ns=0;
		for( uint64_t i=0; i<3; i++ )
		{
			Plan p=generate( c, seed, i );
			f << ( ns++?",\n":"\n" ) << "   \"" << jsonEsc( toText( p ).substr( 0, 1500 ) ) << "\"";
		}
		f << "\n  ]\n },\n";
		f << " \"assumptions\": [ \"interleavings are explored at the granularity of instrumented memory accesses, sequentially consistent; data races are reported separately by vector clocks\", \"allocation failures inside third-party libraries (tinyxml2) are not injected\" ],\n";
		f << " \"wall_s\": " << wall << ", \"violations\": " << ( rc==1 ? 1 : 0 ) << "\n}\n";
	}
	printf( "%s %s: %llu plans, %llu executions, %llu evaluations, %zu distinct, %llu discarded, %llu unstable, %llu faults, det %llu/%llu, %.1f s -> %s\n", c->id, tier.c_str(),
		(unsigned long long)cv.plans, (unsigned long long)cv.execs, (unsigned long long)cv.evals, hs.size(), (unsigned long long)cv.discarded, (unsigned long long)cv.unstable,
		(unsigned long long)cv.faults, (unsigned long long)cv.detOk, (unsigned long long)(cv.detOk+cv.detBad), now()-t0, rc==0?"held":rc==1?"VIOLATED":"error" );
	for( size_t i=0; i<c->probes.size(); i++ ) printf( "  probe %s: %llu\n", c->probes[i], (unsigned long long)cv.probe[i] );
	return rc;
}
} // namespace sim

using namespace sim;
int main( int argc, char** argv )
{
	int pers = personality( 0xffffffff );
	if( pers!=-1 && !( pers & ADDR_NO_RANDOMIZE ) && !getenv( "SIM_REEXEC" ) )
	{
		setenv( "SIM_REEXEC", "1", 1 );
		if( personality( pers | ADDR_NO_RANDOMIZE )!=-1 ) execv( "/proc/self/exe", argv );
	}
	std::vector<std::string> a;
	std::string tier="quick"; uint64_t seed=1; double seconds=30; int W=8; uint64_t maxPlans=0; bool quiet=false;
	if( getenv( "VERIF_SEED" ) ) seed=strtoull( getenv( "VERIF_SEED" ), nullptr, 10 );
	for( int i=1; i<argc; i++ )
	{
		std::string s=argv[i];
		if( s=="--tier" ) tier=argv[++i];
		else if( s=="--seed" ) seed=strtoull( argv[++i], nullptr, 10 );
		else if( s=="--time" ) seconds=atof( argv[++i] );
		else if( s=="--workers" ) W=atoi( argv[++i] );
		else if( s=="--plans" ) maxPlans=strtoull( argv[++i], nullptr, 10 );
		else if( s=="--dir" ) g_dir=argv[++i];
		else if( s=="--quiet" ) quiet=true;
		else if( s=="-v" ) g_verbose=true;
		else a.push_back( s );
	}
	if( W>MAXW ) W=MAXW;
	if( a.size()==2 && a[0]=="replay" ) { g_ignoreKnown=true; return replayFile( a[1], quiet ); }
	if( a.size()==2 && a[0]=="run" )      // executes a plan and shows everything
	{
		Plan p=fromText( readFile( a[1] ) );
		Coverage cv; g_cov=&cv;
		Result r=execute( p );
		for( auto& o: r.ops ) printf( "%d.%d%s %s steps=%llu allocs=%llu err=%ld  %s\n", o.prog, o.idx, o.isRetry?" (again)":"", nameOf( p, p.prog[o.prog][o.idx] ).c_str(), (unsigned long long)o.steps, (unsigned long long)o.allocs, o.err, show(o).c_str() );
		for( auto& x: r.races ) printf( "race %s / %s (%s)\n", x.a.c_str(), x.b.c_str(), x.where.c_str() );
		printf( "done=%d death=%s in %s memerr=%s live=%llu hash=%llx\nstdout: %s\nstderr: %s\n", r.done, r.death.c_str(), r.deathOp.c_str(), r.memerr.c_str(), (unsigned long long)r.liveEnd, (unsigned long long)r.hash, r.outText.c_str(), r.errText.c_str() );
		for( auto& f: r.files ) printf( "file %s: %zu bytes\n", f.first.c_str(), f.second.size() );
		return 0;
	}
	if( a.size()==3 && ( a[0]=="minim" || a[0]=="minimsig" ) )      // minimises the violation of one generated plan
	{
		const Check* c=findCheck( a[1] ); if( !c ) return 2;
		Coverage cv; g_cov=&cv; g_hashes=(uint64_t*)calloc( MAXHASH, 8 );
		loadKnown(); loadCorpus( c ); rtInit();
		Plan p=generate( c, seed, strtoull( a[2].c_str(), nullptr, 10 ) );
		Verdict v=c->check( p );
		if( !v ) { printf( "no violation\n" ); return 0; }
		Minimiser m; m.c=c; m.cls=v->cls; m.best=v->plan; m.viol=*v; m.deadline=now()+seconds; m.sig=v->sig;
		m.run();
		std::istringstream s( m.viol.text ); std::string l;
		printf( "# sig=%s\n", m.viol.sig.c_str() );
		while( std::getline( s, l ) ) printf( "# %s\n", l.c_str() );
		printf( "%s", toText( m.best ).c_str() );
		return 1;
	}
	if( a.size()==3 && a[0]=="survey" )      // all violations among the first N plans, by signature
	{
		const Check* c=findCheck( a[1] ); if( !c ) return 2;
		uint64_t n=strtoull( a[2].c_str(), nullptr, 10 );
		loadKnown(); loadCorpus( c );
		std::vector<FILE*> fs;
		for( int w=0; w<W; w++ )
		{
			int fd[2]; if( pipe( fd ) ) return 2;
			fflush( stdout );
			if( fork()==0 )
			{
				FILE* o=fdopen( fd[1], "w" );
				Coverage cv; g_cov=&cv; g_hashes=(uint64_t*)calloc( MAXHASH, 8 );
				for( uint64_t i=w; i<n; i+=W )
				{
					Plan p=generate( c, seed, i );
					Verdict v=c->check( p );
					if( v ) { std::string t=v->text; for( auto& ch: t ) if( ch=='\n' ) ch='|'; fprintf( o, "%s\t%s\t%llu\t%s\n", v->sig.c_str(), v->cls.c_str(), (unsigned long long)i, t.substr(0,300).c_str() ); }
				}
				fclose( o ); _exit( 0 );
			}
			close( fd[1] ); fs.push_back( fdopen( fd[0], "r" ) );
		}
		std::map<std::string,std::pair<int,std::string>> m;
		for( auto f: fs ) { char b[2000]; while( fgets( b, sizeof b, f ) ) { std::string l=b; std::string k=l.substr( 0, l.find('\t') ); auto& x=m[k]; if( !x.first++ ) x.second=l; } }
		for( auto& x: m ) printf( "%6d %s", x.second.first, x.second.second.c_str() );
		return 0;
	}
	if( a.size()==3 && a[0]=="gen" )
	{
		const Check* c=findCheck( a[1] ); if( !c ) return 2;
		rtInit(); loadCorpus( c );
		printf( "%s", toText( generate( c, seed, strtoull( a[2].c_str(), nullptr, 10 ) ) ).c_str() );
		return 0;
	}
	if( a.size()==1 )
	{
		const Check* c=findCheck( a[0] );
		if( c ) return runCheck( c, tier, seed, seconds, W, argv[0], maxPlans );
	}
	fprintf( stderr, "usage: simcheck [--tier T] [--seed N] [--time S] ID | replay FILE | run FILE | gen ID N\n" );
	return 2;
}
