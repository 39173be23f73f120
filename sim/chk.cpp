// The checks: one generator and one oracle per property.
#include "drv.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>

namespace sim {

// ---------------------------------------------------------------- helpers
static const Universe* pickUniverse( Rng& r )
{
	static const char* n[]={ "d","d","d","s","f","l","cv" };
	for(;;) { auto u=findUniverse( n[r.below(7)] ); if( u ) return u; }
}
static bool startsWith( const std::string& s, const char* p ) { return !s.compare( 0, strlen(p), p ); }
static bool isPolyEq( const char* n ) { return !strcmp(n,"G.==") || !strcmp(n,"G.!=") || !strcmp(n,"F.==") || !strcmp(n,"F.!=") || !strcmp(n,"G.==F") || !strcmp(n,"F.==G"); }
static bool isMatEq( const char* n ) { return !strcmp(n,"H.==") || !strcmp(n,"H.!="); }
static const char TYPES[]="PLSOCREGFHVDIX";
static bool uses( const std::vector<SpecArg>& s, char t ) { for( auto& a: s ) if( a.t==t ) return true; return false; }
static const unsigned F_SPECIAL = F_GLOBAL|F_FILE|F_IMPORT|F_STDIO|F_CLOCK;

static double tolOf( const Plan& p ) { return p.universe=="f" ? 2e-4 : 1e-8; }
static double pertOf( const Plan& p ) { return p.universe=="f" ? 3e-5 : 1e-9; }

// largest relative difference, or -1 if the results differ in kind
static double diffOf( const OpRes& a, const OpRes& b )
{
	if( a.st!=b.st || a.printed!=b.printed || a.tok.size()!=b.tok.size() ) return -1;
	double m=0;
	for( size_t i=0; i<a.tok.size(); i++ )
	{
		const Tok &x=a.tok[i], &y=b.tok[i];
		if( x.t!=y.t || x.s!=y.s ) return -1;
		if( x.t==T_NUM )
		{
			if( ( std::isnan(x.v) && std::isnan(y.v) ) || x.v==y.v ) continue;
			if( !std::isfinite(x.v) || !std::isfinite(y.v) ) return -1;
			m=std::max( m, (double)( std::fabs(x.v-y.v)/( std::fabs(x.v)+std::fabs(y.v)+1e-3 ) ) );
		}
		else if( x.v!=y.v ) return -1;
	}
	return m;
}
// Is the result of operation (prog,idx) of this plan so sensitive to its inputs that rounding decides it?
static bool unstable( const Plan& p, int prog, int idx, const OpRes& twin, double d )
{
	Rng r( p.seed ^ 0x777 );
	for( int k=0; k<40; k++ )
	{
		Plan q=perturb( p, pertOf(p)*( k%5<3 ? 1 : 1e-3 ), r );
		Result x=execute( q );
		const OpRes* o=x.find( prog, idx );
		if( !x.done || !o ) return true;
		double e=diffOf( *o, twin );
		if( e<0 ) return true;
		if( d>=0 && e*300 > d ) return true;
	}
	return false;
}
// equal up to rounding?
static bool agree( const Plan& p, const OpRes& a, const OpRes& b )
{
	if( same( a, b ) ) return true;
	double d=diffOf( a, b );
	return d>=0 && d<=tolOf(p);
}
static std::string describe( const Plan& p, const OpRes& o ) { return nameOf( p, p.prog[o.prog][o.idx] ); }
static Verdict violation( const Plan& p, const std::string& cls, const std::string& sig, const std::string& text )
{
	if( text.find( "simulator: " )!=std::string::npos ) { g_cov->discarded++; return std::nullopt; }      // a limit of the simulator was reached
	Violation v; v.cls=cls; v.sig=sig; v.text=text; v.plan=p;
	std::replace( v.sig.begin(), v.sig.end(), ' ', '_' );
	if( isKnown( p.prop, v.sig ) ) { g_cov->known++; return std::nullopt; }
	return v;
}
static void count( const Result& r )
{
	g_cov->evals++;
	for( auto& o: r.ops ) { g_cov->ops++; if( o.st!=ST_OK ) g_cov->opsThrew++; }
	noteHash( r.hash );
}
static std::string died( const Result& r ) { return r.memerr.empty() ? r.death : "memory error: "+r.memerr; }
static std::string deathClass( const Result& r ) { return r.memerr.empty() ? ( startsWith( r.death, "exit(" ) ? "exit" : r.death ) : "memory error"; }

// A random sequence of operations around a few types
struct Mix
{
	Gen& g; std::string focus; int bank;
	std::vector<int> all, foc;
	Mix( Gen& g_, int bank_, std::function<bool(const OpDesc&,const std::vector<SpecArg>&)> f, const char* types="PLSOCREGFHVDIX", int nFocus=2 ): g(g_), bank(bank_)
	{
		size_t n=strlen(types);
		bool sized=g.big>0 && g.r.chance(.8);   // large inputs: work on the types that have a size
		for( int i=0; i<nFocus; i++ )
		{
			char c=types[g.r.below(n)];
			if( sized ) for( int k=0; k<40 && !strchr("GFVX",c); k++ ) c=types[g.r.below(n)];
			focus += c;
		}
		all=g.select( f );
		foc=g.select( [&]( const OpDesc& d, const std::vector<SpecArg>& s ) { if( !f(d,s) ) return false; for( char c: focus ) if( uses(s,c) ) return true; return false; } );
		if( all.empty() ) all=foc;
	}
	bool empty() const { return all.empty(); }
	POp one()
	{
		if( !foc.empty() && g.r.chance(.8) ) return g.op( g.pick(foc), bank );
		return g.op( g.pick(all), bank );
	}
};


// =========================================================================== C17
static Plan gen17( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r );
	if( r.chance(.3) ) g.bad=.15;
	Mix m( g, 0, []( const OpDesc& d, const std::vector<SpecArg>& ) { return !( d.flags & (F_CLOCK|F_GLOBAL) ); }, TYPES, 3 );
	int n=r.range( 4, 16 );
	for( int i=0; i<n; i++ ) p.prog[0].push_back( m.one() );
	p.rnd=r.next(); p.rndMode=r.chance(.2) ? (int)r.below(7) : 0;
	g.setup( p );
	// unrelated work, used by one of the variants
	Mix q( g, 1, []( const OpDesc& d, const std::vector<SpecArg>& ) { return !( d.flags & (F_CLOCK|F_GLOBAL|F_RAND|F_FILE|F_STDIO) ); }, TYPES, 2 );
	Plan t; t.universe=p.universe;
	for( int i=0; i<8; i++ ) t.prog[0].push_back( q.one() );
	g.setup( t );
	for( auto& o: t.prog[0] ) o.tag=9;
	p.prog[4]=t.prog[0];      // kept aside; the check moves it
	return p;
}
static Verdict chk17( const Plan& p0 )
{
	Plan p=p0; std::vector<POp> other=p.prog[4]; p.prog[4].clear();
	Result ref=execute( p );
	if( !ref.done ) { g_cov->discarded++; return std::nullopt; }
	count( ref );
	auto compare=[&]( const Plan& q, const char* what, const std::vector<int>* map ) -> Verdict
	{
		Result x=execute( q );
		g_cov->evals++;
		if( !x.done ) { return violation( p0, std::string("not reproducible: ")+what, "death:"+x.deathOp, std::string("with ")+what+", "+x.deathOp+" ended the process: "+died(x) ); }
		for( size_t i=0; i<ref.ops.size(); i++ )
		{
			const OpRes* o=x.find( 0, map ? (*map)[i] : (int)i );
			if( !o ) continue;
			if( !same( ref.ops[i], *o ) )
				return violation( p0, std::string("not reproducible: ")+what, "diff:"+describe(p,ref.ops[i]),
					describe(p,ref.ops[i])+" gives another result with "+what+"\n  before: "+show(ref.ops[i])+"\n  after:  "+show(*o) );
		}
		if( x.files!=ref.files || x.outText!=ref.outText ) return violation( p0, std::string("not reproducible: ")+what, "files", std::string("files or output differ with ")+what );
		return std::nullopt;
	};
	Verdict v;
	Plan q=p; q.fill=1;
	if( (v=compare( q, "other prior contents of memory", nullptr )) ) return v;
	q=p; q.fill=0x123456789abcull;
	if( (v=compare( q, "other prior contents of memory", nullptr )) ) return v;
	q=p; q.shift=77761; q.clock=1234567;   // odd: objects placed in the opposite order
	if( (v=compare( q, "other addresses and clock", nullptr )) ) return v;
	q=p;      // the same once more
	if( (v=compare( q, "nothing changed", nullptr )) ) return v;
	if( !other.empty() )
	{
		q=p; q.prog[0].clear();
		std::vector<int> map;
		size_t k=0;
		Rng r( p.seed );
		for( size_t i=0; i<p.prog[0].size(); i++ )
		{
			while( k<other.size() && ( i+other.size()-k >= p.prog[0].size() || r.chance(.4) ) && !( i==0 && k>other.size()/2 ) ) { q.prog[0].push_back( other[k++] ); if( r.chance(.5) ) break; }
			map.push_back( (int)q.prog[0].size() );
			q.prog[0].push_back( p.prog[0][i] );
		}
		Plan only=p; only.prog[0]=other;
		if( execute( only ).done )
		{
			Result x=execute( q );
			g_cov->evals++;
			if( !x.done ) return violation( p0, "not reproducible: unrelated objects", "death:"+x.deathOp, "with unrelated operations in between, "+x.deathOp+" ended the process: "+died(x) );
			for( size_t i=0; i<ref.ops.size(); i++ )
			{
				const OpRes* o=x.find( 0, map[i] );
				if( o && !same( ref.ops[i], *o ) )
					return violation( p0, "not reproducible: unrelated objects", "diff:"+describe(p,ref.ops[i]),
						describe(p,ref.ops[i])+" gives another result when unrelated objects are used in between\n  before: "+show(ref.ops[i])+"\n  after:  "+show(*o) );
			}
		}
	}
	return std::nullopt;
}

// =========================================================================== C14
static Plan gen14( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r ); g.bad=r.chance(.5) ? .25 : .05;
	Mix m( g, 0, []( const OpDesc& d, const std::vector<SpecArg>& ) { return !( d.flags & F_GLOBAL ); }, "PLSOCREGFHVDIXCCV", 2 );
	auto glob=g.select( []( const OpDesc& d, const std::vector<SpecArg>& ) { return ( d.flags & F_GLOBAL )!=0; } );
	int n=r.range( 2, 10 );
	for( int i=0; i<n; i++ )
	{
		if( r.chance(.25) ) p.prog[0].push_back( g.op( g.pick(glob), 0 ) );
		else
		{
			POp o=m.one();
			if( r.chance(.3) ) { o.fault=r.range(1,10); o.fmode=r.below(2); }
			p.prog[0].push_back( o );
		}
	}
	if( r.chance(.2) ) { p.prog[0].push_back( g.op( r.chance(.5) ? "C.mec" : "C.mecctor", 0 ) ); if( r.chance(.7) ) p.prog[0].back().fault=r.range(1,6); }
	p.rnd=r.next();
	p.clocale=r.chance(.5); p.locale=r.chance(.2) ? 1+(int)r.below(2) : 0;
	g.setup( p );
	return p;
}
static Verdict chk14( const Plan& p )
{
	auto u=findUniverse( p.universe );
	int iset=findOp( u, "settings" ), ipr=findOp( u, "probe.radius" );
	Plan q=p; q.prog[0].clear();
	auto obs=[&]{ POp o; o.op=iset; o.tag=5; q.prog[0].push_back( o ); o.op=ipr; q.prog[0].push_back( o ); };
	obs();
	for( auto& o: p.prog[0] ) { q.prog[0].push_back( o ); obs(); }
	bool two = secondOf( u );
	if( two ) { obs(); q.prog[0].back().tu=1; q.prog[0][q.prog[0].size()-2].tu=1; }
	Result x=execute( q );
	if( !x.done ) { g_cov->discarded++; return std::nullopt; }
	count( x );
	for( size_t i=0; i<p.prog[0].size(); i++ )
	{
		const OpRes &s0=x.ops[3*i], &r0=x.ops[3*i+1], &o=x.ops[3*i+2], &s1=x.ops[3*i+3], &r1=x.ops[3*i+4];
		std::string n=nameOf( p, p.prog[0][i] );
		if( o.st!=ST_OK ) probe(0);
		if( o.faultsFired ) probe(1);
		if( !same( r0, r1 ) )
			return violation( p, "validity check of the radius changed", "radius:"+n, "after "+n+" ("+stName(o.st)+") the acceptance of a zero radius changed: "+show(r0)+" ->"+show(r1) );
		if( o.stdFmtChanged )
			return violation( p, "format of a standard stream changed", "stdformat:"+n, n+" ("+stName(o.st)+") changed the formatting state of a standard stream" );
		std::set<size_t> allowed;
		bool draw=false;
		if( flagsOf( p, p.prog[0][i] ) & F_GLOBAL )
		{
			probe(2);
			if( n=="thr.dist" ) allowed.insert(0);
			if( n=="thr.orthog" ) allowed.insert(1);
			if( n=="thr.angle" ) allowed.insert(2);
			if( n=="thr.denom" ) allowed.insert(3);
			if( n=="thr.deter" ) allowed.insert(4);
			if( n=="printWarnings" ) allowed.insert(5);
			if( startsWith( n, "D." ) ) draw=true;
		}
		bool ok = s0.tok.size()==s1.tok.size();
		for( size_t k=0; ok && k<s0.tok.size(); k++ )
			if( s0.tok[k].v!=s1.tok[k].v || s0.tok[k].s!=s1.tok[k].s )
				if( !allowed.count(k) && !( draw && k>=6 && k+1<s0.tok.size() ) ) ok=false;
		if( !ok )
			return violation( p, "settings changed", "settings:"+n, n+" ("+stName(o.st)+") changed the settings\n  before: "+show(s0)+"\n  after:  "+show(s1) );
	}
	if( two )
	{
		size_t z=x.ops.size();
		if( !same( x.ops[z-4], x.ops[z-2] ) || !same( x.ops[z-3], x.ops[z-1] ) )
			return violation( p, "settings differ between the source files of a program", "settings:files", "the settings seen from one source file and from another differ\n  one:   "+show(x.ops[z-4])+show(x.ops[z-3])+"\n  other: "+show(x.ops[z-2])+show(x.ops[z-1]) );
	}
	return std::nullopt;
}

// =========================================================================== C15
static const uint64_t STEP_BUDGET = 3000000;
// stack space an operation may use, whatever the size of its input (the greatest need seen is 6000 bytes)
static const uint64_t STACK_LIMIT = 65536;
static Plan gen15( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r );
	g.regime = r.chance(.4) ? 5 : (int)r.below(5);
	g.bad=r.chance(.5) ? .3 : .05;
	Mix m( g, 0, []( const OpDesc& d, const std::vector<SpecArg>& ) { return !( d.flags & F_GLOBAL ); }, TYPES, 2 );
	int n=r.range( 2, 12 );
	for( int i=0; i<n; i++ )
	{
		POp o=m.one();
		if( r.chance(.1) ) { o.fault=r.range(1,12); o.fmode=r.below(2); }
		p.prog[0].push_back( o );
	}
	p.rnd=r.next(); p.rndMode=r.chance(.5) ? (int)r.below(7) : 0; p.clock=r.chance(.5) ? (int64_t)r.next()%4000000000ll : 0;
	g.setup( p );
	// the work allowed grows with the square of the size of the input
	double L=0;
	for( auto& o: p.prog[0] ) for( auto& a: o.a ) { if( a.t=='v' ) L += std::count( a.str.begin(), a.str.end(), ',' ); else if( a.t=='n' ) L += a.num; else L += a.str.size()/6.; }
	p.budget=STEP_BUDGET + (uint64_t)std::min( 5000.*L*L, 3e8 );
	p.stack=STACK_LIMIT;
	return p;
}
static Verdict chk15( const Plan& p )
{
	Result x=execute( p );
	count( x );
	if( getenv("SIMDBG15") ) { uint64_t t=0; for( auto& o: x.ops ) t+=o.steps; if( t>p.budget/20 ) { for( auto& o: x.ops ) if( o.steps>t/3 ) fprintf( stderr, "%g %s\n", t/(double)p.budget, describe( p, o ).c_str() ); } }
	for( auto& o: x.ops ) { if( o.steps>100000 ) probe(0); if( o.steps>500000 ) probe(1); if( o.st!=ST_OK ) probe(2); }
	if( x.done ) return std::nullopt;
	bool endless = x.death=="step budget exceeded" || x.death=="hang" || x.death=="deadlock" || x.death=="heap budget exceeded";
	return violation( p, endless ? "does not end" : "ends the process", ( endless ? "endless:" : "death:" )+x.deathOp, x.deathOp+": "+died(x) );
}

// =========================================================================== C03
static Plan gen03( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r );
	if( r.chance(.5) ) g.regime=r.chance(.5) ? 2 : 3;
	g.bad=r.chance(.3) ? .2 : .02;
	static const char* T="PLSOCREGFHVXGFHGFH";
	auto filt=[]( const OpDesc& d, const std::vector<SpecArg>& s ) { return !( d.flags & (F_SPECIAL|F_RAND|F_DRAW|F_OBS) ) && !uses(s,'I'); };
	Mix m( g, 0, filt, T, 2 );
	Mix mods( g, 0, [&]( const OpDesc& d, const std::vector<SpecArg>& s ) { return filt(d,s) && ( d.flags & F_MOD ); }, m.focus.c_str(), 1 );
	Mix obs( g, 0, [&]( const OpDesc& d, const std::vector<SpecArg>& s ) { return filt(d,s) && !( d.flags & F_MOD ); }, m.focus.c_str(), 2 );
	obs.focus=m.focus;
	if( r.chance(.6) )
	{	// the same queries on one object before and after some modification of it
		char t=m.focus[0]; int slot=(int)r.below(NSLOT);
		auto on=[&]( POp o ) { for( auto& a: o.a ) if( a.t==t ) { a.slot=slot; break; } return o; };
		auto has=[t]( const std::vector<SpecArg>& s, bool mod ) { for( auto& a: s ) if( a.t==t && ( !mod || a.mod ) ) return true; return false; };
		auto qs=g.select( [&]( const OpDesc& d, const std::vector<SpecArg>& s ) { return filt(d,s) && !( d.flags & F_MOD ) && has(s,false); } );
		auto ms=g.select( [&]( const OpDesc& d, const std::vector<SpecArg>& s ) { return filt(d,s) && ( d.flags & F_MOD ) && !( d.flags & F_FACTORY ) && has(s,true); } );
		auto fs=g.select( [&]( const OpDesc& d, const std::vector<SpecArg>& s ) { return filt(d,s) && ( d.flags & F_MOD ) && has(s,true); } );
		if( !qs.empty() && !fs.empty() )
		{
			std::vector<POp> q;
			int n=r.range( 3, 10 );
			for( int i=0; i<n; i++ ) q.push_back( on( g.op( g.pick(qs), 0 ) ) );
			for( int round=r.range(1,2); round>0; round-- )
			{
				for( auto& o: q ) if( r.chance(.8) ) p.prog[0].push_back( o );
				for( int k=r.range(1,2); k>0; k-- ) p.prog[0].push_back( on( g.op( g.pick( ms.empty() || r.chance(.2) ? fs : ms ), 0 ) ) );
			}
			for( auto& o: q ) { o.tag=1; p.prog[0].push_back( o ); }
			g.setup( p );
			return p;
		}
	}
	int n=r.range( 3, 18 );
	for( int i=0; i<n; i++ ) p.prog[0].push_back( r.chance(.35) && !mods.empty() ? mods.one() : r.chance(.5) ? obs.one() : m.one() );
	n=r.range( 2, 5 );
	for( int i=0; i<n; i++ ) { POp o=obs.one(); o.tag=1; p.prog[0].push_back( o ); }
	g.setup( p );
	return p;
}
static std::string rawOf( const OpRes& d )     // the numbers of a dump, 10 bytes each
{
	std::string s;
	for( auto& t: d.tok ) if( t.t==T_NUM ) { char b[16]={0}; memcpy( b, &t.v, 10 ); s.append( b, 10 ); }
	return s;
}
// True if every final query gives the same without the earlier queries, and with the same values built anew
static bool batch03( const Plan& p, const Plan& q, const Result& x, const std::vector<int>& at0, const std::map<std::pair<int,int>,int>& dumpAt, bool hraw )
{
	auto u=findUniverse( p.universe );
	auto isNorm=[&]( const POp& o ) { const OpDesc& d=u->ops[o.op]; return ( d.flags & F_NORM ) || isPolyEq( d.name ); };
	Plan t=p; t.prog[0].clear();
	std::vector<std::pair<int,int>> where;      // position in t, position in p
	bool tagNorm=false;
	for( size_t k=0; k<p.prog[0].size(); k++ )
	{
		const POp& o=p.prog[0][k];
		if( o.tag==1 ) { where.push_back( { (int)t.prog[0].size(), (int)k } ); t.prog[0].push_back( o ); if( isNorm(o) ) tagNorm=true; }
		else if( isNorm(o) || ( ( u->ops[o.op].flags & F_MOD ) && x.find(0,at0[k])->st==ST_OK ) ) t.prog[0].push_back( o );
	}
	Result y=execute( t );
	g_cov->evals++;
	if( !y.done ) return false;
	for( auto& w: where )
	{
		const OpRes *a=x.find( 0, at0[w.second] ), *b=y.find( 0, w.first );
		probe( a->st==ST_OK ? 0 : 1 );
		if( !agree( p, *a, *b ) ) return false;
	}
	if( tagNorm || hraw ) return !tagNorm;
	Plan f=p; f.prog[0].clear();
	std::map<std::pair<char,int>,const OpRes*> val;
	std::vector<std::pair<int,const OpRes*>> dumps;
	std::vector<std::pair<int,int>> there;
	for( auto& w: where )
	{
		const POp& o=p.prog[0][w.second];
		if( u->ops[o.op].flags & F_HIST ) continue;
		bool ok=true;
		std::vector<std::pair<char,int>> objs;
		for( size_t gi=0; gi<o.a.size() && ok; gi++ ) if( isObj( o.a[gi].t ) )
		{
			auto& g=o.a[gi];
			if( findOp( u, std::string(1,g.t)+".raw" )<0 ) { ok=false; break; }
			auto dm=dumpAt.find( { w.second, (int)gi } ); if( dm==dumpAt.end() ) { ok=false; break; }
			const OpRes* d=x.find( 0, dm->second );
			if( !d || d->st!=ST_OK ) { ok=false; break; }
			for( auto& tk: d->tok ) if( tk.t==T_NUM && !std::isfinite(tk.v) ) ok=false;
			auto key=std::make_pair( g.t, g.slot );
			auto it=val.find( key );
			if( it!=val.end() && !same( *it->second, *d ) ) ok=false;
			if( it==val.end() ) { val[key]=d; objs.push_back( key ); }
		}
		if( !ok ) { for( auto& k: objs ) val.erase( k ); continue; }
		there.push_back( { 0, w.second } );
	}
	if( there.empty() ) return true;
	for( auto& v: val )
	{
		POp o; o.op=findOp( u, std::string(1,v.first.first)+".raw" ); o.a.push_back( argO( v.first.first, v.first.second ) ); o.a.push_back( argS( 'w', rawOf(*v.second) ) );
		f.prog[0].push_back( o );
		POp e; e.op=findOp( u, std::string(1,v.first.first)+".dump" ); e.a.push_back( argO( v.first.first, v.first.second ) );
		f.prog[0].push_back( e );
		dumps.push_back( { (int)f.prog[0].size()-1, v.second } );
	}
	int at=(int)f.prog[0].size();
	for( auto& w: there ) { w.first=(int)f.prog[0].size(); f.prog[0].push_back( p.prog[0][w.second] ); }
	Result z=execute( f );
	g_cov->evals++;
	if( !z.done ) return false;
	for( int k=0; k<at; k++ ) if( z.ops[k].st!=ST_OK ) return false;
	for( auto& d: dumps ) if( !same( *z.find( 0, d.first ), *d.second ) ) return false;   // values that cannot be built this way
	for( auto& w: there )
	{
		probe(2);
		if( !agree( p, *x.find( 0, at0[w.second] ), *z.find( 0, w.first ) ) ) return false;
	}
	(void)q;
	return true;
}
static Verdict chk03( const Plan& p )
{
	auto u=findUniverse( p.universe );
	bool hraw=false;
	for( auto& o: p.prog[0] ) if( flagsOf(p,o) & F_HRAW ) hraw=true;
	Plan q=p; q.prog[0].clear();
	// the values of the operands of each final query, just before it
	std::map<std::pair<int,int>,int> dumpAt;
	std::vector<int> at0;
	for( size_t i=0; i<p.prog[0].size(); i++ )
	{
		if( p.prog[0][i].tag==1 )
			for( size_t k=0; k<p.prog[0][i].a.size(); k++ )
			{
				auto& g=p.prog[0][i].a[k];
				if( !isObj(g.t) ) continue;
				std::string n=std::string(1,g.t)+".dump";
				if( findOp(u,n)<0 ) continue;
				dumpAt[{(int)i,(int)k}]=(int)q.prog[0].size();
				POp x; x.op=findOp(u,n); x.a.push_back( g ); q.prog[0].push_back( x );
			}
		at0.push_back( (int)q.prog[0].size() );
		q.prog[0].push_back( p.prog[0][i] );
	}
	Result x=execute( q );
	if( !x.done ) { g_cov->discarded++; return std::nullopt; }
	count( x );
	// the bounding box of a set does not depend on the order of its elements
	for( size_t i=0; i<p.prog[0].size(); i++ )
		if( p.prog[0][i].tag==1 && nameOf( p, p.prog[0][i] )=="X.getBB" )
		{
			Plan t=q; t.prog[0][at0[i]].op=findOp( u, "X.getBBrev" );
			Result y=execute( t );
			g_cov->evals++;
			if( !y.done ) continue;
			const OpRes *a=x.find( 0, at0[i] ), *b=y.find( 0, at0[i] );
			probe(4);
			bool fin=true; for( auto o: { a, b } ) for( auto& k: o->tok ) if( k.t==T_NUM && !std::isfinite( k.v ) ) fin=false;
			if( fin && !same( *a, *b ) )
			{
				// an element whose own box is not a number has none, and none of the two results is right
				Plan w=q; w.prog[0][at0[i]].op=findOp( u, "X.rawboxes" );
				Result z=execute( w );
				const OpRes* bx=z.done ? z.find( 0, at0[i] ) : nullptr;
				if( !bx ) continue;
				for( auto& k: bx->tok ) if( k.t==T_NUM && !std::isfinite( k.v ) ) fin=false;
				if( !fin ) { g_cov->unstable++; continue; }
				Verdict v=violation( p, "bounding box of a set depends on the order of its elements", "order:X.getBB", "X.getBB gives\n  "+show(*a)+"\n  with the elements in the opposite order:\n  "+show(*b) );
				if( v ) return v;
			}
		}
	// first all the queries together, which is quicker; then one by one if one of them differs (and now and then anyway)
	if( p.seed%4 && batch03( p, q, x, at0, dumpAt, hraw ) ) return std::nullopt;
	for( size_t i=0; i<p.prog[0].size(); i++ )
	{
		if( p.prog[0][i].tag!=1 ) continue;
		Plan t=p; t.prog[0].clear();
		bool polyNorm=false;
		for( size_t k=0; k<p.prog[0].size(); k++ )
		{
			const POp& o=p.prog[0][k];
			const OpDesc& d=u->ops[o.op];
			bool norm = ( d.flags & F_NORM ) || isPolyEq( d.name );
			if( k<i && norm ) polyNorm=true;
			if( o.tag==1 ? ( k<i && norm ) : ( ( ( d.flags & F_MOD ) && x.find(0,at0[k])->st==ST_OK ) || norm ) ) t.prog[0].push_back( o );
		}
		(void)polyNorm;
		int at=(int)t.prog[0].size();
		t.prog[0].push_back( p.prog[0][i] );
		Result y=execute( t );
		g_cov->evals++;
		std::string n=nameOf( p, p.prog[0][i] );
		if( !y.done ) { probe(3); continue; }
		const OpRes *a=x.find( 0, at0[i] ), *b=y.find( 0, at );
		probe( a->st==ST_OK ? 0 : 1 );
		if( !agree( p, *a, *b ) )
		{
			if( unstable( t, 0, at, *b, diffOf( *a, *b ) ) || unstable( q, 0, at0[i], *a, diffOf( *a, *b ) ) ) g_cov->unstable++;
			else
			{
				Verdict v=violation( p, "result depends on history", "history:"+n, n+" gives another result after earlier queries or failed operations\n  with them:    "+show(*a)+"\n  without them: "+show(*b) );
				if( v ) return v;
			}
		}
		// the same values built anew
		const unsigned fl=u->ops[p.prog[0][i].op].flags;
		bool ok=!( fl & F_HIST ) && ( !( fl & F_NORM ) || ( fl & F_CANON ) ) && !hraw;
		Plan f=p; f.prog[0].clear();
		std::vector<std::pair<int,const OpRes*>> dumps;
		for( size_t gi=0; gi<p.prog[0][i].a.size(); gi++ ) if( isObj(p.prog[0][i].a[gi].t) )
		{
			auto& g=p.prog[0][i].a[gi];
			std::string rn=std::string(1,g.t)+".raw";
			if( findOp(u,rn)<0 ) { ok=false; break; }
			auto dm=dumpAt.find( {(int)i,(int)gi} ); if( dm==dumpAt.end() ) { ok=false; break; }
			const OpRes* d=x.find( 0, dm->second );
			if( !d || d->st!=ST_OK ) { ok=false; break; }
			for( auto& tk: d->tok ) if( tk.t==T_NUM && !std::isfinite(tk.v) ) ok=false;
			POp o; o.op=findOp(u,rn); o.a.push_back( g ); o.a.push_back( argS( 'w', rawOf(*d) ) );
			f.prog[0].push_back( o );
			std::string dn=std::string(1,g.t)+".dump";
			POp e; e.op=findOp(u,dn); e.a.push_back( g ); f.prog[0].push_back( e );
			dumps.push_back( { (int)f.prog[0].size()-1, d } );
		}
		if( !ok ) continue;
		at=(int)f.prog[0].size();
		f.prog[0].push_back( p.prog[0][i] );
		Result z=execute( f );
		g_cov->evals++;
		if( !z.done ) { probe(3); continue; }
		for( int k=0; k<at; k++ ) if( z.ops[k].st!=ST_OK ) ok=false;
		for( auto& d: dumps ) if( !same( *z.find( 0, d.first ), *d.second ) ) ok=false;   // values that cannot be built this way
		if( !ok ) continue;
		probe(2);
		b=z.find( 0, at );
		if( agree( p, *a, *b ) ) continue;
		if( unstable( f, 0, at, *b, diffOf( *a, *b ) ) || unstable( q, 0, at0[i], *a, diffOf( *a, *b ) ) ) { g_cov->unstable++; continue; }
		Verdict v=violation( p, "result depends on history", "rebuilt:"+n, n+" gives another result for the same values built anew\n  here:       "+show(*a)+"\n  built anew: "+show(*b) );
		if( v ) return v;
	}
	return std::nullopt;
}

// =========================================================================== C02
static Plan gen02( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r );
	if( r.chance(.4) ) g.regime=r.chance(.5) ? 2 : 3;
	static const char* T="PLSOCREGFHVXGFHCD";
	auto filt=[]( const OpDesc& d, const std::vector<SpecArg>& s ) { return !( d.flags & (F_SPECIAL|F_RAND|F_DRAW|F_OBS) ) && !uses(s,'I'); };
	Mix m( g, 0, filt, T, 2 );
	int n=r.range( 0, 5 );
	for( int i=0; i<n; i++ ) p.prog[0].push_back( m.one() );
	double sb=g.bad; g.bad=r.chance(.6) ? .45 : .02;
	int rg=g.regime; if( r.chance(.15) ) g.regime=5;
	Mix tm( g, 0, []( const OpDesc& d, const std::vector<SpecArg>& s ) { return !( d.flags & (F_GLOBAL|F_FILE|F_STDIO|F_CLOCK|F_DRAW|F_OBS) ) && !uses(s,'I') && !strstr( d.name, ".swap" ) && !strstr( d.name, ".moveassign" ); }, m.focus.c_str(), 2 );
	POp t=tm.one(); t.tag=1;
	// degenerate arguments of sets
	for( auto& a: t.a ) if( a.t=='v' && r.chance(.4) ) { double y=g.bad; g.bad=0; a.str=g.coordList(0,2); g.bad=y; }
	p.prog[0].push_back( t );
	g.bad=sb; g.regime=rg;
	Plan dm; dm.prog[0].push_back( t );
	for( auto& o: objectsOf( dm ) )
	{
		std::string dn=std::string(1,o.first)+".dump";
		if( findOp(u,dn)>=0 ) { POp x; x.op=findOp(u,dn); x.a.push_back( argO(o.first,o.second) ); p.prog[0].push_back( x ); }
	}
	Mix fo( g, 0, filt, u->ops[t.op].name[0]>='A' && u->ops[t.op].name[1]=='.' ? std::string(1,u->ops[t.op].name[0]).c_str() : m.focus.c_str(), 1 );
	n=r.range( 2, 6 );
	for( int i=0; i<n; i++ )
	{
		POp o=fo.one();
		for( auto& a: o.a ) for( auto& b: t.a ) if( a.t==b.t && isObj(a.t) && r.chance(.7) ) a.slot=b.slot;
		p.prog[0].push_back( o );
	}
	g.setup( p );
	if( r.chance(.3) )   // objects sometimes empty or in their initial state
		for( size_t i=0; i<p.prog[0].size(); i++ ) if( p.prog[0][i].tag==0 && r.chance(.2) && ( nameOf(p,p.prog[0][i])=="G.setv" || nameOf(p,p.prog[0][i])=="F.setv" || nameOf(p,p.prog[0][i])=="V.set" ) ) p.prog[0][i].a[1].str="";
	return p;
}
static Verdict chk02( const Plan& p )
{
	auto u=findUniverse( p.universe );
	int ti=-1;
	for( size_t i=0; i<p.prog[0].size(); i++ ) if( p.prog[0][i].tag==1 ) ti=(int)i;
	if( ti<0 ) return std::nullopt;
	const std::string tn=nameOf( p, p.prog[0][ti] );
	const OpDesc& td=u->ops[p.prog[0][ti].op];
	bool norm = ( td.flags & F_NORM ) || isPolyEq( td.name ) || isMatEq( td.name );
	int given=p.prog[0][ti].fault;
	Plan q=p; q.prog[0][ti].fault=0;
	Result B=execute( q );
	if( !B.done ) { g_cov->discarded++; return std::nullopt; }
	count( B );
	Plan pa=p; pa.prog[0].erase( pa.prog[0].begin()+ti );
	Result A=execute( pa );
	if( !A.done ) { g_cov->discarded++; return std::nullopt; }
	auto compare=[&]( const Plan& f, const Result& x, bool natural ) -> Verdict
	{
		const OpRes* t=x.find( 0, ti );
		int okA=1, okB=1; const OpRes *badA=nullptr, *badB=nullptr, *ba=nullptr; int badAt=-1;
		for( size_t i=ti+1; i<p.prog[0].size(); i++ )
		{
			const OpRes *o=x.find( 0, (int)i ), *a=A.find( 0, (int)i-1 ), *b=B.find( 0, (int)i );
			if( !o || !a || !b ) continue;
			bool ea=agree( p, *o, *a ), eb=agree( p, *o, *b );
			if( norm && ( ea || eb ) ) continue;
			if( !ea && okA ) { okA=0; badA=o; ba=a; badAt=(int)i; }
			if( !eb && okB ) { okB=0; badB=o; }
		}
		(void)badB;
		if( okA || ( !natural && okB ) ) return std::nullopt;
		if( natural && norm ) return std::nullopt;
		if( unstable( pa, 0, badAt-1, *ba, diffOf( *badA, *ba ) ) ) { g_cov->unstable++; return std::nullopt; }
		std::string on=nameOf( p, p.prog[0][badAt] );
		return violation( f, natural ? "failed operation changed its operands" : "operation interrupted by memory shortage changed its operands", ( natural ? "natural:" : "alloc:" )+tn,
			"after "+tn+" failed ("+stName(t->st)+" "+t->what+"), "+on+" gives\n  "+show(*badA)+"\n without the failed call:\n  "+show(*ba) );
	};
	if( B.find(0,ti)->st!=ST_OK )
	{
		probe(0);
		return given ? std::nullopt : compare( p, B, true );
	}
	uint64_t na=B.find(0,ti)->allocs;
	if( !na ) return std::nullopt;
	std::vector<int> ks;
	if( given ) ks.push_back( given );
	else
	{
		Rng r( p.seed^5 );
		for( uint64_t k=1; k<=na && k<=10; k++ ) ks.push_back( (int)k );
		for( int k=0; k<6 && na>10; k++ ) ks.push_back( 11+(int)r.below(na-10) );
	}
	for( int k: ks )
	{
		Plan f=p; f.prog[0][ti].fault=k;
		if( !given ) f.prog[0][ti].fmode=( p.seed>>3 ) & 1;
		Result x=execute( f );
		g_cov->evals++; g_cov->faultPoints++;
		if( !x.done ) { probe(2); continue; }       // C01 reports this
		if( x.find(0,ti)->st==ST_OK ) continue;
		probe(1);
		Verdict v=compare( f, x, false );
		if( v ) return v;
	}
	return std::nullopt;
}

// =========================================================================== C01
static Plan gen01( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r ); g.bad=r.chance(.2) ? .2 : .01;
	auto filt=[]( const OpDesc& d, const std::vector<SpecArg>& ) { return !( d.flags & (F_SPECIAL|F_RAND|F_OBS) ); };
	Mix m( g, 0, filt, TYPES, 2 );
	int n=r.range( 0, 5 );
	for( int i=0; i<n; i++ ) p.prog[0].push_back( m.one() );
	Mix tm( g, 0, []( const OpDesc& d, const std::vector<SpecArg>& ) { return !( d.flags & (F_GLOBAL|F_CLOCK|F_FILE) ); }, m.focus.c_str(), 2 );
	// every operation gets its turn
	POp t = r.chance(.5) ? g.op( g.pick(tm.all), 0 ) : tm.one();
	if( r.chance(.12) )     // import: the part of the code in which most allocations are made
	{
		static const char* sv[]={ "svg.points", "svg.points", "svg.path", "svg.rotattr", "svg.import", "X.getBB" };
		const char* n=sv[r.below(6)];
		if( findOp( u, n )>=0 ) t=g.op( n, 0 );
	}
	t.tag=1; 
	unsigned fl=u->ops[t.op].flags;
	t.retry = !( fl & F_MOD ) || ( fl & F_IDEM );
	if( fl & F_PRINT ) t.retry=true;
	p.prog[0].push_back( t );
	Plan dm; dm.prog[0].push_back( t );
	for( auto& o: objectsOf( dm ) )
	{
		std::string dn=std::string(1,o.first)+".dump";
		if( findOp(u,dn)>=0 ) { POp x; x.op=findOp(u,dn); x.a.push_back( argO(o.first,o.second) ); x.tag=2; p.prog[0].push_back( x ); }
	}
	p.rnd=r.next();
	g.setup( p );
	return p;
}
static Verdict chk01( const Plan& p )
{
	auto u=findUniverse( p.universe );
	int ti=-1;
	for( size_t i=0; i<p.prog[0].size(); i++ ) if( p.prog[0][i].tag==1 ) ti=(int)i;
	if( ti<0 ) return std::nullopt;
	const std::string tn=nameOf( p, p.prog[0][ti] );
	const OpDesc& td=u->ops[p.prog[0][ti].op];
	bool retry=p.prog[0][ti].retry;
	int given=p.prog[0][ti].fault;
	Plan q=p; q.prog[0][ti].fault=0;
	Result ref=execute( q );
	if( !ref.done ) { g_cov->discarded++; return std::nullopt; }
	count( ref );
	const OpRes* rt=ref.find( 0, ti );
	uint64_t na=rt->allocs;
	if( !na ) { probe(0); return std::nullopt; }
	std::vector<std::pair<int,int>> ks;
	if( given ) ks.push_back( { given, p.prog[0][ti].fmode } );
	else
	{
		Rng r( p.seed^5 );
		for( uint64_t k=1; k<=na && k<=24; k++ ) ks.push_back( { (int)k, 0 } );
		for( int k=0; k<12 && na>24; k++ ) ks.push_back( { 25+(int)r.below(na-24), 0 } );
		ks.push_back( { 1, 1 } );
		if( na>1 ) ks.push_back( { 1+(int)r.below(na), 1 } );
		if( na>1 ) ks.push_back( { 1+(int)r.below(na), 1 } );
	}
	auto eq=[&]( const OpRes& a, const OpRes& b ) { return ( td.flags & F_RAND ) ? a.st==b.st && agree( p, a, b ) : same( a, b ); };
	for( auto& k: ks )
	{
		Plan f=p; f.prog[0][ti].fault=k.first; f.prog[0][ti].fmode=k.second;
		Result x=execute( f );
		g_cov->evals++; g_cov->faultPoints++;
		Verdict v;
		char where[80]; snprintf( where, sizeof where, " (allocation %d of %llu%s fails)", k.first, (unsigned long long)na, k.second?" and all after it":"" );
		if( !x.done )
		{
			v=violation( f, "memory shortage ends the process: "+deathClass(x), "death:"+x.deathOp, x.deathOp+where+": "+died(x) );
			if( v ) return v;
			continue;
		}
		const OpRes* t=x.find( 0, ti );
		if( !t->faultsFired ) continue;
		probe(1);
		noteHash( mix( x.hash, k.first ) );
		if( t->st==ST_OK || ( rt->st!=ST_OK && t->st==rt->st ) )
		{
			if( t->st==ST_OK ) probe(2);
			if( !eq( *t, *rt ) )
			{
				v=violation( f, "memory shortage silently changes the result", "silent:"+tn, tn+where+" returned normally with another result\n  expected: "+show(*rt)+"\n  got:      "+show(*t) );
				if( v ) return v;
				continue;
			}
			if( t->st==ST_OK )
			for( size_t i=ti+1; i<p.prog[0].size(); i++ )
			{
				const OpRes *a=x.find(0,(int)i), *b=ref.find(0,(int)i);
				if( a && b && !eq( *a, *b ) )
				{
					v=violation( f, "memory shortage silently changes an object", "object:"+tn, tn+where+" returned normally, but afterwards "+nameOf(p,p.prog[0][i])+" gives\n  "+show(*a)+"\n  instead of "+show(*b) );
					if( v ) return v;
					break;
				}
			}
		}
		else
		{
			probe(3);
			const OpRes* a=x.find( 0, ti, true );
			if( retry && a )
			{
				if( ( td.flags & F_RAND ) && ( a->st!=ST_OK || rt->st!=ST_OK ) ) {}      // another random sequence
				else if( !eq( *a, *rt ) )
				{
					bool loose = isPolyEq( td.name ) || ( td.flags & F_NORM );
					if( !( loose && agree( p, *a, *rt ) ) )
					{
						v=violation( f, "operation does not recover from memory shortage", "retry:"+tn, tn+where+" threw; repeated with memory available it gives\n  "+show(*a)+"\n  instead of "+show(*rt) );
						if( v ) return v;
						continue;
					}
				}
				if( rt->st==ST_OK )
				for( size_t i=ti+1; i<p.prog[0].size(); i++ )
				{
					const OpRes *c=x.find(0,(int)i), *b=ref.find(0,(int)i);
					if( c && b && !eq( *c, *b ) && !( td.flags & F_RAND ) )
					{
						v=violation( f, "object damaged by memory shortage", "object:"+tn, tn+where+" threw and was repeated; afterwards "+nameOf(p,p.prog[0][i])+" gives\n  "+show(*c)+"\n  instead of "+show(*b) );
						if( v ) return v;
						break;
					}
				}
			}
		}
		if( x.liveEnd > ref.liveEnd )
		{
			v=violation( f, "memory leaked", "leak:"+tn, tn+where+": "+std::to_string(x.liveEnd-ref.liveEnd)+" blocks more than normally are never freed" );
			if( v ) return v;
		}
	}
	return std::nullopt;
}

#include "chk_threads.inc"
#include "chk_misc.inc"
#include "chk_text.inc"
#include "chk_alias.inc"

// ---------------------------------------------------------------------------
static const Check g_checks[] = {
	{ "C01", "fault_enumeration", "random operation after a random history; each allocation it performs (up to 36 of them) is made to fail in a run of its own, alone or with all later ones; distinct = distinct observable behaviour of a run in which a fault fired", "allocation failures",
	  { "operation without allocations", "fault fired", "operation absorbed the fault", "operation threw" }, gen01, chk01, false },
	{ "C02", "fault_enumeration", "random history, then an operation that throws by itself or because one of its allocations fails, then observations; compared with the run without that operation; distinct = distinct behaviour of the fault-free run", "invalid arguments, allocation failures",
	  { "threw by itself", "threw because of a fault", "died" }, gen02, chk02, false },
	{ "C03", "exploration", "random history of modifications, queries, comparisons, copies and failing operations, then queries; each final query is compared with the run reduced to the modifications and with the same values built anew; distinct = distinct behaviour of the full run", "failing operations in the history",
	  { "observation returned", "observation threw", "compared with rebuilt values", "twin died", "bounding box of a set" }, gen03, chk03, false },
	{ "C14", "exploration", "random operations (valid, failing, interrupted by allocation failures), all settings and the acceptance of zero radii read between any two; distinct = distinct behaviour of the run", "invalid arguments, allocation failures",
	  { "operation threw", "allocation fault fired", "setting operations" }, gen14, chk14, false },
	{ "C15", "exploration", "random operations on ordinary, degenerate and extreme operands, extreme random sequences, damaged SVG text, allocation failures; every operation must end within 3000000 instrumented steps by returning or throwing; distinct = distinct behaviour of the run", "random generator extremes, clock values, damaged files, allocation failures",
	  { "operation above 100000 steps", "operation above 500000 steps", "operation threw" }, gen15, chk15, false },
	{ "C17", "exploration", "random operations; executed again with other prior contents of heap and stack, other addresses, another clock, and unrelated operations in between; distinct = distinct behaviour of the reference run", "memory contents, addresses, clock",
	  {}, gen17, chk17, true },
	CHECKS_THREADS
	CHECKS_TEXT
	CHECKS_MISC
	CHECKS_ALIAS
};
const Check* findCheck( const std::string& id )
{
	for( auto& c: g_checks ) if( id==c.id ) return &c;
	return nullptr;
}
} // namespace sim
