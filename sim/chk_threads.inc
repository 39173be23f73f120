// Checks over seeded thread schedules.

// runs the plan under several schedules (search mode), or under the one it holds
template<typename F> static Verdict overSchedules( const Plan& p, int n, F judge )
{
	if( !p.search )
	{
		Result x=execute( p );
		count( x );
		return judge( p, x );
	}
	static const int gaps[]={ 3, 12, 50, 200, 1000, 5000 };
	for( int k=0; k<n; k++ )
	{
		Plan q=p;
		if( k )
		{
			Rng r( mix( p.sched, k ) );
			q.sched=r.next(); q.gap=gaps[r.below(6)];
		}
		Result x=execute( q );
		g_cov->evals++;
		for( auto& o: x.ops ) { g_cov->ops++; if( o.st!=ST_OK ) g_cov->opsThrew++; }
		noteHash( mix( x.schedHash, p.seed ) );
		if( x.switches>2 ) probe(0);
		if( x.switches>50 ) probe(1);
		Verdict v=judge( q, x );
		if( v ) return v;
	}
	return std::nullopt;
}
static Verdict raceVerdict( const Plan& p, const Result& x )
{
	for( auto& r: x.races )
	{
		Verdict v=violation( p, "data race", "race:"+r.a+"/"+r.b, r.a+" and "+r.b+" access the same memory ("+r.where+") from two threads without synchronisation, one of them writing" );
		if( v ) return v;
	}
	return std::nullopt;
}
static int idealThreads( Rng& r ) { return r.chance(.7) ? 2 : 3; }
static void privateFiles( Plan& p )
{
	for( int t=1; t<=3; t++ )
		for( auto& o: p.prog[t] ) for( auto& a: o.a ) if( a.t=='t' && startsWith( a.str, "/simdisk/" ) ) a.str += std::to_string(t);
}

// =========================================================================== C04
static Plan gen04( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r ); g.bad = r.chance(.3) ? .3 : .04;
	auto filt=[]( const OpDesc& d, const std::vector<SpecArg>& ) { return !( d.flags & (F_GLOBAL|F_STDIO|F_CLOCK|F_BIG) ); };
	int nt=idealThreads( r );
	std::string focus;
	for( int t=1; t<=nt; t++ )
	{
		Mix m( g, t, filt, TYPES, 1 );
		if( t>1 && r.chance(.6) ) m.focus=focus;      // the same kind of work in several threads
		focus=m.focus;
		Mix n( g, t, filt, focus.c_str(), 1 );
		int k=r.range( 1, 6 );
		for( int i=0; i<k; i++ ) p.prog[t].push_back( r.chance(.8) ? n.one() : m.one() );
		if( t==2 && r.chance(.5) )    // the very same calls
		{
			p.prog[2].clear();
			for( auto o: p.prog[1] ) { for( auto& a: o.a ) if( isObj(a.t) ) a.slot += NSLOT; p.prog[2].push_back( o ); }
		}
		Plan x; x.prog[0]=p.prog[t];
		for( auto& o: objectsOf( x ) )
		{
			std::string dn=std::string(1,o.first)+".dump";
			if( findOp(u,dn)>=0 ) { POp d; d.op=findOp(u,dn); d.a.push_back( argO(o.first,o.second) ); p.prog[t].push_back( d ); }
		}
	}
	if( r.chance(.15) )
	{
		int t=r.range( 1, nt ); if( !p.prog[t].empty() ) { auto& o=p.prog[t][r.below(p.prog[t].size())]; if( !( flagsOf(p,o) & F_OBS ) ) { o.fault=r.range(1,8); o.fmode=r.below(2); } }
	}
	privateFiles( p );
	p.rnd=r.next();
	g.setup( p );
	p.search=true; p.sched=r.next(); p.gap=50;
	return p;
}
static Verdict chk04( const Plan& p )
{
	Result alone[4];
	for( int t=1; t<=3; t++ )
	{
		if( p.prog[t].empty() ) continue;
		Plan q=p; q.seq=true; q.only=t; q.search=false; q.pre.clear();
		alone[t]=execute( q );
		g_cov->evals++;
		if( !alone[t].done ) { g_cov->discarded++; return std::nullopt; }
	}
	return overSchedules( p, 4, [&]( const Plan& q, const Result& x ) -> Verdict
	{
		if( !x.done ) return violation( q, "threads end the process", "death:"+x.deathOp, x.deathOp+" in one of several threads: "+died(x)+" (not when the threads run alone)" );
		Verdict v=raceVerdict( q, x ); if( v ) return v;
		for( int t=1; t<=3; t++ )
			for( size_t i=0; i<q.prog[t].size(); i++ )
			{
				const OpRes *a=alone[t].find( t, (int)i ), *b=x.find( t, (int)i );
				if( !a || !b ) continue;
				if( flagsOf( q, q.prog[t][i] ) & F_RAND ) continue;
				bool rnd=false;      // what was made by random operations
				for( auto& o: q.prog[t] ) if( flagsOf(q,o) & F_RAND ) rnd=true;
				if( rnd ? a->st==b->st && agree( q, *a, *b ) : same( *a, *b ) ) continue;
				if( rnd && ( a->st!=b->st || !agree( q, *a, *b ) ) ) continue;
				std::string n=nameOf( q, q.prog[t][i] );
				v=violation( q, "threads disturb each other", "disturbed:"+n, n+" in thread "+std::to_string(t)+" gives another result than when the thread runs alone\n  alone:   "+show(*a)+"\n  together: "+show(*b) );
				if( v ) return v;
			}
		return std::nullopt;
	} );
}

// =========================================================================== C05
static bool coldOp( const char* n ) { return isPolyEq(n) || strstr(n,".offset") || strstr(n,".normalize"); }
static Plan gen05( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r ); g.bad = r.chance(.2) ? .2 : .02;
	bool warm=r.chance(.5);
	static const char* T="PLSOCREGFHVDIXGFEGFE";
	char focus[2]={ T[r.below(strlen(T))], 0 };
	auto filt=[&]( const OpDesc& d, const std::vector<SpecArg>& s )
	{
		if( d.flags & (F_GLOBAL|F_STDIO|F_CLOCK|F_BIG|F_RAND|F_IMPORT|F_NORM) ) return false;
		if( !warm && coldOp( d.name ) ) return false;
		bool reads=false; for( auto& a: s ) if( isObj(a.t) && !a.mod ) reads=true;
		return reads;
	};
	int nt=idealThreads( r );
	Mix m( g, 0, filt, focus, 1 );
	if( m.foc.empty() ) m.foc=m.all;
	int slots=r.chance(.6) ? 1 : NSLOT;       // few objects, so that threads meet
	for( int t=1; t<=nt; t++ )
	{
		int k=r.range( 1, 4 );
		for( int i=0; i<k; i++ )
		{
			POp o=m.one();
			if( t>1 && r.chance(.4) ) o=p.prog[1][r.below(p.prog[1].size())];
			const auto& sp=specOf( u, o.op );
			for( size_t j=0; j<o.a.size(); j++ )
				if( isObj(o.a[j].t) )
				{
					int s=o.a[j].slot%NSLOT;
					o.a[j].slot = sp[j].mod ? t*NSLOT+s : r.chance(.9) ? s%slots : t*NSLOT+s;
				}
			p.prog[t].push_back( o );
		}
	}
	privateFiles( p );
	p.rnd=r.next();
	g.setup( p );
	std::set<std::pair<char,int>> shared;
	for( auto& o: objectsOf( p ) ) if( o.second<NSLOT ) shared.insert( o );
	for( auto& o: shared )
	{
		if( warm && ( o.first=='G' || o.first=='F' ) )
		{
			POp e=g.op( o.first=='G' ? "G.==" : "F.==", 0 ); e.a[0].slot=e.a[1].slot=o.second;
			p.prog[0].push_back( e );
		}
		std::string dn=std::string(1,o.first)+".dump";
		if( findOp(u,dn)>=0 ) { POp d; d.op=findOp(u,dn); d.a.push_back( argO(o.first,o.second) ); p.prog[PROG_POST].push_back( d ); }
	}
	p.search=true; p.sched=r.next(); p.gap=30; p.variant="shared";
	return p;
}
static Verdict chk05( const Plan& p )
{
	Result alone[4];
	for( int t=1; t<=3; t++ )
	{
		if( p.prog[t].empty() ) continue;
		Plan q=p; q.seq=true; q.only=t; q.search=false; q.pre.clear();
		alone[t]=execute( q );
		g_cov->evals++;
		if( !alone[t].done ) { g_cov->discarded++; return std::nullopt; }
	}
	Plan none=p; for( int t=1; t<=3; t++ ) none.prog[t].clear(); none.search=false; none.pre.clear();
	Result before=execute( none );
	if( !before.done ) { g_cov->discarded++; return std::nullopt; }
	return overSchedules( p, 4, [&]( const Plan& q, const Result& x ) -> Verdict
	{
		if( !x.done ) return violation( q, "concurrent readers end the process", "death:"+x.deathOp, x.deathOp+" in one of several threads: "+died(x)+" (not when the threads run alone)" );
		Verdict v=raceVerdict( q, x ); if( v ) return v;
		for( int t=1; t<=3; t++ )
			for( size_t i=0; i<q.prog[t].size(); i++ )
			{
				const OpRes *a=alone[t].find( t, (int)i ), *b=x.find( t, (int)i );
				if( !a || !b || same( *a, *b ) ) continue;
				std::string n=nameOf( q, q.prog[t][i] );
				v=violation( q, "concurrent read gives another result", "disturbed:"+n, n+" in thread "+std::to_string(t)+" gives another result than without concurrency\n  alone:    "+show(*a)+"\n  together: "+show(*b) );
				if( v ) return v;
			}
		for( size_t i=0; i<q.prog[PROG_POST].size(); i++ )
		{
			const OpRes *a=before.find( PROG_POST, (int)i ), *b=x.find( PROG_POST, (int)i );
			if( !a || !b || same( *a, *b ) ) continue;
			std::string n=nameOf( q, q.prog[PROG_POST][i] );
			v=violation( q, "concurrent read changes the object", "changed:"+n, "a shared object has another value after read-only use ("+n+")\n  before: "+show(*a)+"\n  after:  "+show(*b) );
			if( v ) return v;
		}
		return std::nullopt;
	} );
}

// =========================================================================== C12
static Plan gen12( Rng& r, uint64_t index )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	if( index%4000==11 || r.chance(.004) )       // very many errors
	{
		Gen g( u, r );
		int nt=index%4000==11 ? 0 : idealThreads( r );
		for( int t=nt?1:0; t<=nt; t++ ) for( int k=r.range(1,3); k>0; k-- ) p.prog[t].push_back( g.opArgs( "err.burst", { argN( 'n', nt ? r.range(1,40) : index%4000==11 ? 66000 : r.range(100,600) ) } ) );
		if( nt ) { p.search=true; p.sched=r.next(); p.gap=r.chance(.5) ? 60 : 15; }
		else { p.prog[0].resize( 1 ); p.budget=300000000; }
		return p;
	}
	Gen g( u, r ); g.bad=.5; if( r.chance(.4) ) g.regime=r.chance(.5) ? 0 : 5;
	auto filt=[]( const OpDesc& d, const std::vector<SpecArg>& ) { return !( d.flags & (F_GLOBAL|F_CLOCK|F_BIG|F_STDIO) ); };
	int nt=r.chance(.5) ? 0 : idealThreads( r );
	bool svg=findOp( u, "svg.import" )>=0 && r.chance(.4);
	for( int t=0; t<=nt; t++ )
	{
		if( nt && !t ) continue;
		Mix m( g, t, filt, TYPES, 2 );
		int k=nt ? r.range( 1, 4 ) : r.range( 4, 14 );
		for( int i=0; i<k; i++ )
		{
			POp o=m.one();
			if( svg && r.chance(.5) )
			{
				static const char* im[]={ "svg.import", "svg.path", "svg.path", "svg.path", "svg.points", "svg.rotattr", "svg.imgsize", "svg.path" };
				o=g.op( im[r.below(8)], t );
				for( auto& a: o.a )
				{
					if( a.t=='g' ) a.str=g.svgDoc( r.chance(.7) );
					if( a.t=='t' && nameOf(p,o)=="svg.path" )   a.str = r.chance(.3) ? g.mutate( g.pathData( 0 ), r.range(1,2) ) : g.pathData( r.chance(.7) );
					if( a.t=='t' && nameOf(p,o)=="svg.points" ) a.str = g.pointsData( r.chance(.7) );
					if( a.t=='t' && nameOf(p,o)=="svg.rotattr" ) a.str = g.mutate( a.str, r.range(0,4) );
				}
			}
			for( auto& a: o.a ) if( a.t=='v' && r.chance(.4) ) { double y=g.bad; g.bad=0; a.str=g.coordList(0,2); g.bad=y; }
			if( !nt && r.chance(.1) ) { o.fault=r.range(1,8); o.fmode=r.below(2); }
			p.prog[t].push_back( o );
		}
		if( t==2 && r.chance(.6) )
		{
			p.prog[2].clear();
			for( auto o: p.prog[1] ) { for( auto& a: o.a ) if( isObj(a.t) ) a.slot += NSLOT; p.prog[2].push_back( o ); }
		}
	}
	privateFiles( p );
	p.rnd=r.next();
	g.setup( p );
	if( nt ) { p.search=true; p.sched=r.next(); static const int gp[]={2,5,15,60}; p.gap=gp[r.below(4)]; }
	return p;
}
static long countText( const std::string& s, const char* w )
{
	long n=0; size_t i=0;
	while( (i=s.find( w, i ))!=std::string::npos ) { n++; i+=strlen(w); }
	return n;
}
static Verdict judge12( const Plan& q, const Result& x )
{
	for( auto& o: x.ops )
	{
		std::string n=describe( q, o );
		if( o.st==ST_RUNTIME ) probe(2);
		if( o.warn ) probe(3);
		if( n=="err.burst" )
		{
			long k=(long)q.prog[o.prog][o.idx].a[0].num;
			if( o.st==ST_OK && !q.nthreads() && o.err!=k ) return violation( q, "error counter wrong", "count:"+n, std::to_string(k)+" errors in a row changed the error counter by "+std::to_string(o.err) );
			continue;
		}
		if( n=="probe.radius" ) continue;      // made of several calls
		bool ok;
		if( o.st==ST_RUNTIME ) ok = o.err>=1 && o.err<=1+o.warn;
		else if( o.st==ST_BADALLOC || o.faultsFired ) ok = o.err>=0 && o.err<=1+o.warn;
		else ok = o.err==0 || ( o.err>0 && o.err<=o.warn );     // an error turned into a warning
		if( !ok )
		{
			Verdict v=violation( q, "error counter wrong", "count:"+n, n+" ("+stName(o.st)+" "+o.what+") changed the error counter by "+std::to_string(o.err)+" and the warning counter by "+std::to_string(o.warn) );
			if( v ) return v;
		}
	}
	long w=countText( x.errText, "homog2d warning (" );
	bool fired=false; for( auto& o: x.ops ) if( o.faultsFired ) fired=true;
	if( x.errText.size()>900000 ) return std::nullopt;       // too much text to be kept
	if( w!=x.warnTotal && !fired )
		return violation( q, "warning counter wrong", "warnings", std::to_string(w)+" warnings were printed, the counter grew by "+std::to_string(x.warnTotal) );
	return std::nullopt;
}
static Verdict chk12( const Plan& p )
{
	if( !p.nthreads() )
	{
		Result x=execute( p );
		if( !x.done ) { g_cov->discarded++; return std::nullopt; }
		count( x );
		return judge12( p, x );
	}
	Plan s=p; s.seq=true; s.search=false; s.pre.clear();
	Result ref=execute( s );
	g_cov->evals++;
	if( !ref.done ) { g_cov->discarded++; return std::nullopt; }
	Verdict v=judge12( s, ref );
	if( v ) return v;
	return overSchedules( p, 5, [&]( const Plan& q, const Result& x ) -> Verdict
	{
		if( !x.done ) return std::nullopt;
		for( auto& o: x.ops )
		{
			const OpRes* a=ref.find( o.prog, o.idx, o.isRetry );
			if( !a || a->st!=o.st ) return std::nullopt;      // C04 reports this
			if( flagsOf( q, q.prog[o.prog][o.idx] ) & F_RAND ) return std::nullopt;
		}
		if( x.errTotal!=ref.errTotal ) return violation( q, "error counter wrong under concurrency", "total", "the error counter grew by "+std::to_string(x.errTotal)+" instead of "+std::to_string(ref.errTotal) );
		if( x.warnTotal!=ref.warnTotal ) return violation( q, "warning counter wrong under concurrency", "wtotal", "the warning counter grew by "+std::to_string(x.warnTotal)+" instead of "+std::to_string(ref.warnTotal) );
		return std::nullopt;
	} );
}

#define CHECKS_THREADS \
	{ "C04", "exploration", "2 or 3 threads with random operations on private objects, each plan run under 4 seeded schedules that switch between memory accesses; results compared with each thread run alone, races detected by vector clocks; distinct = distinct (plan, schedule)", "thread schedules, allocation failures in one thread", \
	  { "more than 2 switches", "more than 50 switches" }, gen04, chk04, false }, \
	{ "C05", "exploration", "2 or 3 threads with random read-only operations on shared objects, each plan run under 4 seeded schedules that switch between memory accesses, mostly at accesses to shared memory; results compared with each thread run alone, races detected by vector clocks; distinct = distinct (plan, schedule)", "thread schedules", \
	  { "more than 2 switches", "more than 50 switches" }, gen05, chk05, false }, \
	{ "C12", "exploration", "random operations, half of them with invalid arguments; counters read around each operation, and for 2 or 3 threads under 5 seeded schedules compared with their sum; distinct = distinct behaviour or (plan, schedule)", "invalid arguments, thread schedules, allocation failures", \
	  { "more than 2 switches", "more than 50 switches", "errors", "warnings" }, gen12, chk12, false },
