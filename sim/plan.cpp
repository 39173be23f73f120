// Text form of plans: the replay file format.
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

namespace sim {

static std::string esc( const std::string& s )
{
	std::string r="\"";
	for( unsigned char c: s )
	{
		if( c=='"' || c=='\\' ) { r+='\\'; r+=(char)c; }
		else if( c<32 || c>126 ) { char b[8]; snprintf( b, sizeof b, "\\x%02x", c ); r+=b; }
		else r+=(char)c;
	}
	return r+"\"";
}
static std::string unesc( const std::string& s )
{
	std::string r;
	size_t i = s.find( '"' );
	if( i==std::string::npos ) return r;
	for( i++; i<s.size() && s[i]!='"'; i++ )
	{
		if( s[i]=='\\' && i+1<s.size() )
		{
			i++;
			if( s[i]=='x' && i+2<s.size() ) { r += (char)strtol( s.substr(i+1,2).c_str(), nullptr, 16 ); i+=2; }
			else r += s[i];
		}
		else r += s[i];
	}
	return r;
}

std::string toText( const Plan& p )
{
	const Universe* u=findUniverse( p.universe );
	std::string o;
	char b[400];
	auto line=[&]( const char* k, long long v ) { snprintf( b, sizeof b, "%s %lld\n", k, v ); o+=b; };
	o += "property " + p.prop + "\nuniverse " + p.universe + "\n";
	if( !p.variant.empty() ) o += "variant " + p.variant + "\n";
	snprintf( b, sizeof b, "seed %llu\nfill %llu\nrnd %llu\nsched %llu\nbudget %llu\nstack %llu\n", (unsigned long long)p.seed, (unsigned long long)p.fill,
		(unsigned long long)p.rnd, (unsigned long long)p.sched, (unsigned long long)p.budget, (unsigned long long)p.stack ); o+=b;
	line( "shift", p.shift ); line( "rndMode", p.rndMode ); line( "clock", p.clock ); line( "locale", p.locale ); line( "clocale", p.clocale );
	line( "seq", p.seq ); line( "only", p.only ); line( "search", p.search ); line( "gap", p.gap );
	for( auto& f: p.io ) { snprintf( b, sizeof b, "io %d %d %d\n", f.nth, f.kind, f.arg ); o+=b; }
	for( auto& f: p.pre ) { snprintf( b, sizeof b, "preempt %d %llu %d\n", f.thread, (unsigned long long)f.at, f.to ); o+=b; }
	for( int k=0; k<NPROG; k++ )
		for( auto& q: p.prog[k] )
		{
			snprintf( b, sizeof b, "op %d %s fault=%d mode=%d retry=%d lim=%d limmode=%d fmt=%d tag=%d%s\n", k, u->ops[q.op].name, q.fault, q.fmode, (int)q.retry, q.lim, q.limMode, q.fmt, q.tag, q.tu ? " tu=1" : "" );
			o+=b;
			for( auto& a: q.a )
			{
				if( a.t>='A' && a.t<='Z' ) snprintf( b, sizeof b, " arg %c %d\n", a.t, a.slot );
				else if( a.t=='t' || a.t=='v' || a.t=='g' || a.t=='w' ) { o += std::string(" arg ")+a.t+" "+esc(a.str)+"\n"; continue; }
				else snprintf( b, sizeof b, " arg %c %a\n", a.t, a.num );
				o+=b;
			}
		}
	return o;
}

Plan fromText( const std::string& t )
{
	Plan p;
	std::istringstream is( t );
	std::string l;
	POp* cur=nullptr;
	const Universe* u=nullptr;
	while( std::getline( is, l ) )
	{
		if( l.empty() || l[0]=='#' ) continue;
		std::istringstream s( l );
		std::string k; s >> k;
		if( k=="property" ) s >> p.prop;
		else if( k=="universe" ) { s >> p.universe; u=findUniverse( p.universe ); }
		else if( k=="variant" ) s >> p.variant;
		else if( k=="seed" ) s >> p.seed;
		else if( k=="fill" ) s >> p.fill;
		else if( k=="rnd" ) s >> p.rnd;
		else if( k=="sched" ) s >> p.sched;
		else if( k=="budget" ) s >> p.budget;
		else if( k=="stack" ) s >> p.stack;
		else if( k=="shift" ) s >> p.shift;
		else if( k=="rndMode" ) s >> p.rndMode;
		else if( k=="clock" ) s >> p.clock;
		else if( k=="locale" ) s >> p.locale;
		else if( k=="clocale" ) s >> p.clocale;
		else if( k=="seq" ) s >> p.seq;
		else if( k=="only" ) s >> p.only;
		else if( k=="search" ) s >> p.search;
		else if( k=="gap" ) s >> p.gap;
		else if( k=="io" ) { IoFault f; s >> f.nth >> f.kind >> f.arg; p.io.push_back(f); }
		else if( k=="preempt" ) { Preempt f; s >> f.thread >> f.at >> f.to; p.pre.push_back(f); }
		else if( k=="op" )
		{
			int pr; std::string rest; s >> pr; std::getline( s, rest );
			size_t f = rest.rfind( " fault=" );
			POp q;
			std::string name = rest.substr( 1, f-1 );
			if( !u || (q.op = findOp( u, name ))<0 || pr<0 || pr>=NPROG ) { fprintf( stderr, "replay: unknown operation '%s'\n", name.c_str() ); _Exit( 2 ); }
			int rt=0;
			sscanf( rest.c_str()+f, " fault=%d mode=%d retry=%d lim=%d limmode=%d fmt=%d tag=%d tu=%d", &q.fault, &q.fmode, &rt, &q.lim, &q.limMode, &q.fmt, &q.tag, &q.tu );
			q.retry=rt;
			p.prog[pr].push_back( q ); cur=&p.prog[pr].back();
		}
		else if( k=="arg" && cur )
		{
			PArg a; std::string v; s >> a.t; std::getline( s, v );
			if( a.t>='A' && a.t<='Z' ) a.slot=atoi( v.c_str() );
			else if( a.t=='t' || a.t=='v' || a.t=='g' || a.t=='w' ) a.str=unesc( v );
			else a.num=strtod( v.c_str(), nullptr );
			cur->a.push_back( a );
		}
	}
	return p;
}
} // namespace sim
