// Check over shared operands: arguments that are (parts of) the object itself.
// =========================================================================== C18
// indices of the arguments of an operation that are another argument too, and only read
static std::vector<int> sharedArgs( const Universe* u, const POp& o )
{
	std::vector<int> v; const auto& sp=specOf( u, o.op );
	for( size_t j=0; j<o.a.size() && j<sp.size(); j++ )
	{
		if( !isObj( o.a[j].t ) || sp[j].mod ) continue;
		for( size_t i=0; i<o.a.size() && i<sp.size(); i++ )
			if( i!=j && o.a[i].t==o.a[j].t && o.a[i].slot==o.a[j].slot && ( sp[i].mod || i<j ) ) { v.push_back( (int)j ); break; }
	}
	return v;
}
static int copyOfOwn( const Universe* u, const POp& o )
{
	std::string n=u->ops[o.op].name;
	if( n.size()<4 || n.substr( n.size()-4 )!=".own" ) return -1;
	return findOp( u, n+"copy" );
}
static Plan gen18( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r ); g.bad=r.chance(.2) ? .15 : .01;
	if( r.chance(.4) ) g.regime=r.chance(.5) ? 2 : 3;
	static const char* T="PLSOCREGFHXGFHCC";
	auto filt=[]( const OpDesc& d, const std::vector<SpecArg>& s ) { return !( d.flags & (F_SPECIAL|F_RAND|F_OBS|F_HIST|F_DRAW) ) && !uses(s,'I'); };
	Mix hist( g, 0, filt, T, 2 );
	auto twice=[]( const std::vector<SpecArg>& s ) { for( size_t i=0; i<s.size(); i++ ) for( size_t j=0; j<i; j++ ) if( isObj(s[i].t) && s[i].t==s[j].t && !( s[i].mod && s[j].mod ) ) return true; return false; };
	Mix pairs( g, 0, [&]( const OpDesc& d, const std::vector<SpecArg>& s ) { return filt(d,s) && twice(s); }, T, 2 );
	Mix pairMods( g, 0, [&]( const OpDesc& d, const std::vector<SpecArg>& s ) { return filt(d,s) && twice(s) && ( d.flags & F_MOD ); }, T, 2 );
	auto own=g.select( []( const OpDesc& d, const std::vector<SpecArg>& ) { const char* e=strstr( d.name, ".own" ); return e && !e[4]; } );
	int n=r.range( 0, 4 );
	for( int i=0; i<n; i++ ) p.prog[0].push_back( hist.one() );
	n=r.range( 1, 3 );
	for( int i=0; i<n; i++ )
	{
		POp t = r.chance(.5) ? g.op( g.pick(own), 0 ) : r.chance(.5) && !pairMods.empty() ? pairMods.one() : pairs.one();
		const auto& sp=specOf( u, t.op );
		for( size_t k=0; k<t.a.size(); k++ ) for( size_t j=0; j<k; j++ ) if( isObj(t.a[k].t) && t.a[j].t==t.a[k].t && !( sp[j].mod && sp[k].mod ) && r.chance(.8) ) t.a[k].slot=t.a[j].slot;
		t.tag=1; p.prog[0].push_back( t );
		Plan dm; dm.prog[0].push_back( t );
		for( auto& o: objectsOf( dm ) )
		{
			std::string dn=std::string(1,o.first)+".dump"; int di=findOp( u, dn );
			if( di>=0 ) { POp x; x.op=di; x.a.push_back( argO(o.first,o.second) ); p.prog[0].push_back( x ); }
		}
		for( int k=r.range(0,2); k>0; k-- )
		{
			POp o=hist.one();
			for( auto& a: o.a ) for( auto& b: t.a ) if( a.t==b.t && isObj(a.t) && r.chance(.7) ) a.slot=b.slot;
			p.prog[0].push_back( o );
		}
	}
	p.rnd=r.next();
	g.setup( p );
	return p;
}
static Verdict chk18( const Plan& p )
{
	auto u=findUniverse( p.universe );
	Plan q=p; q.prog[0].clear();
	std::vector<int> at; int shared=-1;
	std::map<char,int> next;
	for( size_t i=0; i<p.prog[0].size(); i++ )
	{
		POp o=p.prog[0][i];
		int oc=copyOfOwn( u, o );
		if( oc>=0 ) { o.op=oc; if( shared<0 ) shared=(int)i; probe(0); }
		for( int j: sharedArgs( u, o ) )
		{
			std::string an=std::string(1,o.a[j].t)+".assign"; int ai=findOp( u, an );
			if( ai<0 ) continue;
			int s=NSLOT + next[o.a[j].t]++ % NSLOT;
			POp c; c.op=ai; c.a.push_back( argO( o.a[j].t, s ) ); c.a.push_back( argO( o.a[j].t, o.a[j].slot ) );
			q.prog[0].push_back( c );
			o.a[j].slot=s;
			if( shared<0 ) shared=(int)i;
			probe( ( flagsOf(p,o) & F_MOD ) ? 1 : 2 );
		}
		at.push_back( (int)q.prog[0].size() );
		q.prog[0].push_back( o );
	}
	if( shared<0 ) return std::nullopt;
	Result x=execute( p ); count( x );
	if( !x.done ) { g_cov->discarded++; return std::nullopt; }
	Result y=execute( q );
	if( !y.done ) { g_cov->discarded++; return std::nullopt; }
	std::string tn=nameOf( p, p.prog[0][shared] );
	for( size_t i=shared; i<p.prog[0].size(); i++ )
	{
		if( copyOfOwn( u, p.prog[0][i] )>=0 || !sharedArgs( u, p.prog[0][i] ).empty() ) tn=nameOf( p, p.prog[0][i] );
		if( flagsOf( p, p.prog[0][i] ) & (F_HIST|F_RAND) ) continue;
		const OpRes *a=x.find( 0, (int)i ), *b=y.find( 0, at[i] );
		if( !a || !b || agree( p, *a, *b ) ) continue;
		if( unstable( q, 0, at[i], *b, diffOf( *a, *b ) ) ) { g_cov->unstable++; return std::nullopt; }
		return violation( p, "another result when an argument is (a part of) the object itself", "alias:"+tn,
			nameOf( p, p.prog[0][i] )+" gives\n  "+show(*a)+"\n when "+tn+" is given (a part of) the object itself, with a copy of it:\n  "+show(*b) );
	}
	return std::nullopt;
}
#define CHECKS_ALIAS \
	{ "C18", "exploration", "random history, then operations given one object twice, or parts of the object they modify; compared with the run in which copies of these arguments are given; distinct = distinct behaviour of the run with shared arguments", "shared arguments, failing operations", \
	  { "part of the object as argument", "modified object as argument", "same object twice in a query" }, gen18, chk18, false },
