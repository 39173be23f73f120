#pragma GCC diagnostic ignored "-Wmisleading-indentation"
// Checks over random sequences and clocks: minimum enclosing circle, random colours.

// =========================================================================== C13
struct PtL { long double x, y; };
static std::vector<PtL> parsePts( const std::string& s )
{
	std::vector<PtL> v; const char* c=s.c_str(); char* e;
	for(;;)
	{
		while( *c==' ' || *c==',' ) c++;
		long double x=strtold( c, &e ); if( e==c ) break; c=e; if( *c==',' ) c++;
		long double y=strtold( c, &e ); if( e==c ) break; c=e;
		v.push_back( {x,y} );
	}
	return v;
}
// smallest circle containing all points, by trying all pairs and triples
static bool minCircle( std::vector<PtL> v, PtL& best, long double& rad )
{
	if( v.size()>40 )
	{	// only the points of the convex hull matter
		std::sort( v.begin(), v.end(), []( const PtL& a, const PtL& b ) { return a.x<b.x || ( a.x==b.x && a.y<b.y ); } );
		std::vector<PtL> h( 2*v.size() ); size_t k=0;
		auto cross=[]( const PtL& o, const PtL& a, const PtL& b ) { return (a.x-o.x)*(b.y-o.y)-(a.y-o.y)*(b.x-o.x); };
		for( size_t i=0; i<v.size(); i++ ) { while( k>=2 && cross( h[k-2], h[k-1], v[i] )<=0 ) k--; h[k++]=v[i]; }
		for( size_t i=v.size()-1, t=k+1; i>0; i-- ) { while( k>=t && cross( h[k-2], h[k-1], v[i-1] )<=0 ) k--; h[k++]=v[i-1]; }
		h.resize( k-1 ); v=h;
	}
	auto inside=[&]( PtL c, long double r ) { for( auto& p: v ) if( hypotl( p.x-c.x, p.y-c.y ) > r*(1+1e-15L)+1e-300L ) return false; return true; };
	bool found=false; size_t n=v.size();
	auto tryC=[&]( PtL c, long double r ) { if( ( !found || r<rad ) && inside( c, r ) ) { found=true; best=c; rad=r; } };
	for( size_t i=0; i<n; i++ ) for( size_t j=i+1; j<n; j++ )
	{
		PtL c{ (v[i].x+v[j].x)/2, (v[i].y+v[j].y)/2 };
		tryC( c, std::max( hypotl( v[i].x-c.x, v[i].y-c.y ), hypotl( v[j].x-c.x, v[j].y-c.y ) )*(1+1e-15L) );
		for( size_t k=j+1; k<n; k++ )
		{
			long double ax=v[j].x-v[i].x, ay=v[j].y-v[i].y, bx=v[k].x-v[i].x, by=v[k].y-v[i].y, d=2*(ax*by-ay*bx);
			if( fabsl(d) < 1e-15L*( ax*ax+ay*ay+bx*bx+by*by ) ) continue;
			long double a2=ax*ax+ay*ay, b2=bx*bx+by*by, ux=(by*a2-ay*b2)/d, uy=(ax*b2-bx*a2)/d;
			PtL q{ v[i].x+ux, v[i].y+uy };
			long double r=0;
			for( size_t z: { i, j, k } ) r=std::max( r, hypotl( v[z].x-q.x, v[z].y-q.y ) );
			tryC( q, r*(1+1e-15L) );
		}
	}
	return found;
}
static std::string ptsText( const std::vector<PtL>& v )
{
	std::string s; char b[100];
	for( auto& p: v ) { snprintf( b, sizeof b, "%s%.9Lf,%.9Lf", s.empty()?"":" ", p.x, p.y ); s+=b; }
	return s;
}
static Plan gen13( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r );
	int n = r.chance(.15) ? 2+(int)r.below(2) : r.chance(.15) ? r.range( 10, 40 ) : r.range( 4, 9 );
	std::vector<PtL> v;
	int kind=(int)r.below(9);
	bool close=r.chance(.3);           // some points close to others
	long double sc = r.chance(.7) ? 1 : r.chance(.5) ? 1000 : .125L;
	long double ox = r.chance(.5) ? 0 : r.range(-200,200), oy = r.chance(.5) ? 0 : r.range(-200,200);
	for( int guard=0; (int)v.size()<n && guard<1000; guard++ )
	{
		PtL q{0,0}; int i=(int)v.size();
		switch( kind )
		{
			case 0: case 1: q={ (long double)r.range(-500,500)/16, (long double)r.range(-500,500)/16 }; break;
			case 2: q={ (long double)r.range(0,4), (long double)r.range(0,4) }; break;                  // small grid: many ties
			case 3: { int k=r.range(0,11); q={ 8*cosl( k*0.523598775598298873L ), 8*sinl( k*0.523598775598298873L ) }; } break; // on a circle
			case 4: q={ (long double)r.range(-20,20), 0 }; if( ox!=0 ) q.y=q.x*2; break;            // collinear
			case 5: if( i<2 ) q={ i ? 10.L : -10.L, 0 }; else q={ (long double)r.range(-5,5), (long double)r.range(-5,5) }; break; // two points decide
			case 6: { static const int s[4][2]={{0,0},{8,0},{8,6},{0,6}}; if( i<4 ) q={ (long double)s[i][0], (long double)s[i][1] }; else q={ (long double)r.range(1,7), (long double)r.range(1,5) }; } break;
			case 7: q={ (long double)r.range(-1000000,1000000)/65536, (long double)r.range(-1000000,1000000)/65536 }; break;
			default: { static const int t[12][2]={{5,0},{-5,0},{0,5},{0,-5},{3,4},{-3,4},{3,-4},{-3,-4},{4,3},{-4,3},{4,-3},{-4,-3}}; int k=r.range(0,11); q={ (long double)t[k][0], (long double)t[k][1] }; } // exactly on a circle
		}
		if( close && i && r.chance(.4) ) { auto& w=v[r.below(i)]; q={ (w.x-ox)/sc+r.range(-20,20)/1000.L, (w.y-oy)/sc+r.range(-20,20)/1000.L }; }
		q.x=q.x*sc+ox; q.y=q.y*sc+oy;
		bool dup=false;
		for( auto& w: v ) if( hypotl( w.x-q.x, w.y-q.y ) < sc*1e-2L ) dup=true;
		if( !dup ) v.push_back( q );
	}
	if( r.chance(.04) && v.size()<=9 && u->name!=std::string("f") )
	{	// a large set: many points inside
		PtL c{0,0}; long double rad=0;
		if( minCircle( v, c, rad ) )
			for( int i=0, nb=r.range( 60, 400 ); i<nb; i++ )
			{
				long double d=rad*.7L*sqrtl( (i+.5L)/nb ), t=i*2.399963229728653L;
				v.push_back( { c.x+d*cosl(t), c.y+d*sinl(t) } );
			}
	}
	p.stack=STACK_LIMIT;
	std::vector<PArg> a{ argO( 'V', 0 ), argS( 'v', ptsText( v ) ) };
	p.prog[0].push_back( g.opArgs( "V.set", a ) );
	POp m;
	static const char* how[]={ "C.mec", "C.mecctor", "C.mecv" };
	const char* h=how[r.below(3)];
	if( !strcmp( h, "C.mecv" ) ) m=g.opArgs( h, { argO( 'C', 0 ), argS( 'v', ptsText( v ) ) } );
	else m=g.opArgs( h, { argO( 'C', 0 ), argO( 'V', 0 ) } );
	p.prog[0].push_back( m );
	p.prog[0].push_back( g.opArgs( "C.dump", { argO( 'C', 0 ) } ) );
	p.prog[0].push_back( g.opArgs( "probe.radius", {} ) );
	p.rnd=r.next(); p.rndMode=r.chance(.4) ? (int)r.below(7) : 0;
	p.sched=r.next();
	return p;
}
static Verdict chk13( const Plan& p0 )
{
	if( p0.prog[0].size()<3 ) return std::nullopt;
	int runs = p0.variant=="one" ? 1 : 8;
	for( int k=0; k<runs; k++ )
	{
		Plan p=p0;
		Rng r( mix( p0.sched, k ) );
		int im=-1;
		for( size_t i=0; i<p.prog[0].size(); i++ ) if( flagsOf( p, p.prog[0][i] ) & F_MEC ) im=(int)i;
		if( im<0 ) return std::nullopt;
		bool direct = nameOf( p, p.prog[0][im] )=="C.mecv";
		std::string* txt=nullptr;
		if( direct ) txt=&p.prog[0][im].a[1].str;
		else for( auto& o: p.prog[0] ) if( nameOf(p,o)=="V.set" ) txt=&o.a[1].str;
		if( !txt ) return std::nullopt;
		auto v=parsePts( *txt );
		if( v.size()<2 ) return std::nullopt;
		for( size_t i=0; i<v.size(); i++ ) for( size_t j=0; j<i; j++ ) if( v[i].x==v[j].x && v[i].y==v[j].y ) return std::nullopt;  // distinct points only
		if( k )
		{
			for( size_t i=v.size(); i>1; i-- ) std::swap( v[i-1], v[r.below(i)] );
			*txt=ptsText( v ); v=parsePts( *txt );
			p.rnd=r.next(); p.rndMode = r.chance(.4) ? (int)r.below(7) : 0;
		}
		p.variant="one";
		PtL c{0,0}; long double rad=0;
		if( !minCircle( v, c, rad ) ) { g_cov->discarded++; continue; }
		Result x=execute( p ); count( x );
		Verdict w;
		std::string seq=" (random sequence "+std::to_string(p.rnd)+"/"+std::to_string(p.rndMode)+")";
		if( !x.done ) { w=violation( p, "minimum enclosing circle does not end normally", "death:"+x.deathOp, "minimum enclosing circle of "+std::to_string(v.size())+" points"+seq+": "+died(x) ); if( w ) return w; continue; }
		const OpRes* o=x.find( 0, im );
		if( !o ) continue;
		if( o->st!=ST_OK )
		{
			w=violation( p, "minimum enclosing circle throws", "throws:n="+std::to_string(std::min<size_t>(v.size(),4)), "minimum enclosing circle of the distinct points "+*txt+seq+" throws: "+show(*o) );
			if( w ) return w; continue;
		}
		const OpRes* d=nullptr;
		for( size_t i=im+1; i<p.prog[0].size(); i++ ) if( nameOf(p,p.prog[0][i])=="C.dump" ) d=x.find( 0, (int)i );
		if( !d || d->st!=ST_OK || d->tok.size()<4 ) continue;
		std::vector<long double> t; for( auto& q: d->tok ) if( q.t==T_NUM ) t.push_back( q.v );
		if( t.size()<4 ) continue;
		probe( v.size()<4 ? 0 : 1 );
		long double ext=0; for( auto& q: v ) ext=std::max( ext, std::max( fabsl(q.x), fabsl(q.y) ) );
		bool f=p.universe=="f";
		long double rt = f ? 2e-3L*rad+1e-5L*ext : 1e-7L*rad+1e-10L*ext, ct = f ? .05L*rad+1e-4L*ext : 1e-3L*rad;
		bool good = fabsl( t[3]-rad )<=rt && hypotl( t[0]-c.x, t[1]-c.y )<=ct;
		if( !good )
		{
			char b[300]; snprintf( b, sizeof b, "center %.9Lg,%.9Lg radius %.9Lg, the smallest circle has center %.9Lg,%.9Lg radius %.9Lg", t[0], t[1], t[3], c.x, c.y, rad );
			w=violation( p, "not the minimum enclosing circle", "wrong:n="+std::to_string(std::min<size_t>(v.size(),4)), "minimum enclosing circle of "+*txt+seq+" gives "+b );
			if( w ) return w; continue;
		}
	}
	return std::nullopt;
}

// =========================================================================== C16
static Plan gen16( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r );
	int n=r.range(1,3);
	for( int i=0; i<n; i++ )
	{
		double nb = r.chance(.2) ? (double)r.below(3) : r.chance(.1) ? r.range(50,400) : r.chance(.02) ? r.range(400,5000) : r.range(1,20);
		if( i && r.chance(.4) ) p.prog[0].push_back( p.prog[0][r.below(i)] );
		else if( r.chance(.3) ) p.prog[0].push_back( g.opArgs( "genColors", { argN( 'n', nb ) } ) );
		else
		{
			int a=r.range(0,255), b=r.range(0,255); if( r.chance(.2) ) { a=0; b=255; } if( r.chance(.2) ) b=a+1; if( r.chance(.05) ) b=a; if( b>255 ) { b=255; a=254; }
			if( b<a && r.chance(.95) ) std::swap( a, b );
			p.prog[0].push_back( g.opArgs( "genColors2", { argN( 'n', nb ), argN( 'c', a ), argN( 'c', b ) } ) );
		}
	}
	static const int64_t clk[]={ 0, 1, -1, 1700000000, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, -2147483648ll, 9223372036854775807ll };
	p.clock = r.chance(.6) ? clk[r.below(10)] : (int64_t)r.next();
	p.rnd=r.next(); p.rndMode=r.chance(.6) ? 1+(int)r.below(6) : 0;
	return p;
}
static std::string callText( const Plan& p, const POp& o )
{
	std::string s=nameOf( p, o );
	for( auto& a: o.a ) { char b[40]; snprintf( b, sizeof b, " %.17g", a.num ); s+=b; }
	return s;
}
static Verdict chk16( const Plan& p )
{
	Result x=execute( p ); count( x );
	if( !x.done ) return violation( p, "random colours do not end normally", "death", "random colours: "+died(x) );
	for( size_t i=0; i<p.prog[0].size(); i++ )
	{
		const OpRes* o=x.find( 0, (int)i );
		if( !o ) continue;
		const POp& op=p.prog[0][i]; std::string n=nameOf( p, op );
		if( n!="genColors" && n!="genColors2" ) continue;
		long nb=(long)op.a[0].num, lo=20, hi=250;
		if( n=="genColors2" ) { lo=(long)op.a[1].num; hi=(long)op.a[2].num; }
		if( hi<=lo )
		{
			probe(0);
			if( o->st==ST_OK ) { probe(1); }
			continue;
		}
		probe(2);
		if( p.rndMode ) probe(3);
		Verdict v;
		std::string ctx=n+"("+std::to_string(nb)+","+std::to_string(lo)+","+std::to_string(hi)+"), clock "+std::to_string(p.clock)+", random sequence "+std::to_string(p.rnd)+"/"+std::to_string(p.rndMode);
		if( o->st!=ST_OK ) { v=violation( p, "random colours throw", "throws", ctx+": "+show(*o) ); if( v ) return v; continue; }
		std::vector<long> t; for( auto& q: o->tok ) if( q.t==T_INT ) t.push_back( (long)q.v );
		if( t.empty() || t[0]!=nb || (long)t.size()!=1+3*nb ) { v=violation( p, "wrong number of colours", "number", ctx+" gives "+std::to_string(t.empty()?-1:t[0])+" colours" ); if( v ) return v; continue; }
		for( size_t k=1; k<t.size(); k++ ) if( t[k]<lo || t[k]>hi )
		{
			v=violation( p, "colour out of range", "range", ctx+": component "+std::to_string(t[k]) );
			if( v ) return v;
			break;
		}
	}
	// the same call again, the clock being the same: the generator starts anew, thus the same colours
	for( size_t i=0; i<p.prog[0].size(); i++ )
		for( size_t j=0; j<i; j++ )
		{
			const OpRes *a=x.find(0,(int)j), *b=x.find(0,(int)i);
			if( !a || !b || callText( p, p.prog[0][i] )!=callText( p, p.prog[0][j] ) ) continue;
			probe(4);
			if( !same( *a, *b ) ) { Verdict v=violation( p, "random colours not reproducible", "again", callText(p,p.prog[0][i])+" gives other colours the second time, for the same clock and random sequence\n  "+show(*a)+"\n  "+show(*b) ); if( v ) return v; }
		}
	Plan q=p; q.fill=p.fill^0x5aa5; q.shift=p.shift+77760;
	Result y=execute( q ); g_cov->evals++;
	for( size_t i=0; i<p.prog[0].size(); i++ )
	{
		const OpRes *a=x.find(0,(int)i), *b=y.find(0,(int)i);
		if( a && b && !same( *a, *b ) ) { Verdict v=violation( p, "random colours not reproducible", "repro", nameOf(p,p.prog[0][i])+" gives other colours for the same clock and random sequence\n  "+show(*a)+"\n  "+show(*b) ); if( v ) return v; }
	}
	return std::nullopt;
}

#define CHECKS_MISC \
	{ "C13", "exploration", "sets of 2 to 9 distinct points (in general position, on a grid, on a circle, collinear, with ties); minimum enclosing circle computed for 8 random sequences (also constant, extreme and alternating ones) and orders of the points each, compared with the circle found by trying all pairs and triples; distinct = distinct behaviour of the run", "random generator extremes", \
	  { "two or three points", "four points or more" }, gen13, chk13, false }, \
	{ "C16", "exploration", "numbers of colours and ranges, under extreme and arbitrary clock values and random sequences; number and range of the colours checked, and equality of two executions with the same clock and sequence; distinct = distinct behaviour of the run", "random generator extremes, clock values", \
	  { "empty range requested", "empty range accepted", "colours generated", "extreme random sequence", "same call made twice" }, gen16, chk16, false },
