// Checks over files, markup and text: image files, SVG drawing and import, printing.

// =========================================================================== C06
static Plan gen06( Rng& r, uint64_t )
{
	Plan p; auto u = r.chance(.3) && findUniverse("cv") ? findUniverse("cv") : pickUniverse( r ); p.universe=u->name;
	Gen g( u, r ); g.bad=.02;
	Mix m( g, 0, []( const OpDesc& d, const std::vector<SpecArg>& s ) { return ( d.flags & F_DRAW ) && s.size() && s[0].t=='I'; }, TYPES, 2 );
	int n = r.chance(.15) ? r.range(60,300) : r.range(0,8);
	for( int i=0; i<n; i++ ) { POp o=m.one(); o.a[0].slot=0; p.prog[0].push_back( o ); }
	if( r.chance(.4) ) p.prog[0].insert( p.prog[0].begin(), g.opArgs( "I.new", { argO('I',0), argN('n',r.range(0,2000)), argN('n',r.range(0,2000)) } ) );
	p.prog[0].push_back( g.opArgs( "I.dump", { argO('I',0) } ) );
	POp w=g.opArgs( "I.write", { argO('I',0), argS('t',"/simdisk/a.png") } ); w.retry=true; w.tag=1;
	p.prog[0].push_back( w );
	p.prog[0].push_back( g.opArgs( "I.dump", { argO('I',0) } ) );
	p.locale=r.chance(.2) ? 1+(int)r.below(2) : 0;
	p.rnd=r.next(); p.sched=r.next();
	g.setup( p );
	return p;
}
static std::string ioName( const IoFault& f )
{
	char b[80]; 
	switch( f.kind )
	{
		case IO_OPEN:    return "the file can not be created";
		case IO_WRITE:   snprintf( b, sizeof b, "write number %d %s", f.nth, f.arg>0 ? "fails" : "is cut short" ); return b;
		case IO_CLOSE:   return "closing the file fails";
		case IO_CAP:     snprintf( b, sizeof b, "the disk is full after %d bytes", f.arg ); return b;
		case IO_IMWRITE: return f.arg==2 ? "the file writer throws" : "the file writer fails";
		case IO_RENAME:  return "renaming fails";
		case IO_SYNC:    return "syncing fails";
	}
	return "file operation fails";
}
static Verdict chk06( const Plan& p0 )
{
	Plan p=p0; p.io.clear();
	int wi=-1; for( size_t i=0; i<p.prog[0].size(); i++ ) if( p.prog[0][i].tag==1 ) wi=(int)i;
	if( wi<0 || p.prog[0][wi].a.size()<2 ) return std::nullopt;
	int given=p.prog[0][wi].fault; p.prog[0][wi].fault=0;
	std::string name=p.prog[0][wi].a[1].str;
	if( !startsWith( name, "/simdisk/" ) ) return std::nullopt;
	Result ref=execute( p ); count( ref );
	const OpRes* w=ref.find( 0, wi );
	if( !ref.done || !w ) { g_cov->discarded++; return std::nullopt; }
	Verdict v;
	if( w->st!=ST_OK ) { v=violation( p, "writing fails on a healthy disk", "healthy", "write to a healthy disk: "+show(*w) ); return v; }
	auto fi=ref.files.find( name );
	if( fi==ref.files.end() ) return violation( p, "no file written", "nofile", "write returned, but there is no file "+name );
	const std::string whole=fi->second;
	const OpRes *d0=ref.find( 0, wi-1 ), *d1=ref.find( 0, wi+1 );
	if( d0 && d1 && nameOf(p,p.prog[0][wi-1])=="I.dump" && nameOf(p,p.prog[0][wi+1])=="I.dump" )
	{
		if( !same( *d0, *d1 ) ) return violation( p, "writing changes the image", "changed", "the image differs after writing it: "+show(*d0)+" ->"+show(*d1) );
		if( p.universe!="cv" && d0->st==ST_OK && d0->tok.size()==1 && whole.find( d0->tok[0].s )==std::string::npos )
			return violation( p, "incomplete file on a healthy disk", "incomplete", "the file does not hold the markup of the image\n  image: "+d0->tok[0].s.substr(0,300)+"\n  file: "+whole.substr(0,600) );
	}
	struct Case { std::vector<IoFault> io; int fault=0, fmode=0; };
	std::vector<Case> cs;
	if( !p0.io.empty() || given ) { Case c; c.io=p0.io; c.fault=given; c.fmode=p0.prog[0][wi].fmode; cs.push_back( c ); }
	else
	{
		Rng r( p0.sched );
		auto add=[&]( int kind, int nth, int arg ) { Case c; c.io.push_back( {nth,kind,arg} ); cs.push_back( c ); };
		static const int errs[]={ 13/*EACCES*/, 28/*ENOSPC*/, 5/*EIO*/, 24/*EMFILE*/, 2, 30, 122 };
		if( p.universe=="cv" ) { add( IO_IMWRITE, 1, 1 ); add( IO_IMWRITE, 1, 2 ); }
		else
		{
			add( IO_OPEN, 1, errs[r.below(7)] );
			int nw=ref.ioCalls[IO_WRITE];
			for( int k=1; k<=nw && k<=4; k++ ) { add( IO_WRITE, k, errs[1+r.below(2)] ); add( IO_WRITE, k, -(int)r.range(1,200) ); }
			if( nw>4 ) { int k=r.range(5,nw); add( IO_WRITE, k, 28 ); }
			add( IO_WRITE, 1, 4 );     // interrupted system call
			for( int k=1; k<=ref.ioCalls[IO_CLOSE] && k<=3; k++ ) add( IO_CLOSE, k, r.chance(.5) ? 5 : 28 );
			for( int k=1; k<=ref.ioCalls[IO_RENAME]; k++ ) add( IO_RENAME, k, 13 );
			for( int k=1; k<=ref.ioCalls[IO_SYNC]; k++ ) add( IO_SYNC, k, 5 );
			int n=(int)whole.size();
			add( IO_CAP, 1, 0 ); add( IO_CAP, 1, n-1 ); add( IO_CAP, 1, n ); add( IO_CAP, 1, (int)r.below(n) );
			if( n>300 ) add( IO_CAP, 1, n-7 );
			if( n>8300 ) { add( IO_CAP, 1, 8191 ); add( IO_CAP, 1, 4096 ); }
			Case c; c.io.push_back( { 1, IO_WRITE, -(int)r.range(1,50) } ); c.io.push_back( { 2, IO_WRITE, 28 } ); cs.push_back( c );   // short, then full
		}
		int na=(int)w->allocs;
		for( int k=1; k<=na && k<=6; k++ ) { Case c; c.fault=k; c.fmode=k&1; cs.push_back( c ); }
	}
	for( auto& c: cs )
	{
		Plan q=p; q.io=c.io; q.prog[0][wi].fault=c.fault; q.prog[0][wi].fmode=c.fmode;
		Result x=execute( q ); g_cov->evals++; g_cov->faultPoints++;
		std::string what = c.fault ? "an allocation fails" : c.io.empty() ? "nothing" : ioName( c.io.back() );
		if( !x.done ) { v=violation( q, "failing file operation ends the process", "death:"+x.deathOp, what+": "+died(x) ); if( v ) return v; continue; }
		const OpRes *o=x.find( 0, wi ), *again=x.find( 0, wi, true );
		bool fired = c.fault ? o && o->faultsFired>0 : false; for( int k=0; k<IO_NKIND; k++ ) if( x.ioFired[k] ) fired=true;
		noteHash( mix( x.hash, c.io.empty() ? 1000+c.fault : c.io[0].kind*10007+c.io[0].nth*101+c.io[0].arg ) );
		if( !o ) continue;
		if( fired ) probe(0);
		if( o->st!=ST_OK ) probe(1);
		if( !fired && o->st!=ST_OK ) { v=violation( q, "writing throws without any failure", "throws", what+" (did not happen): "+show(*o) ); if( v ) return v; continue; }
		auto f=x.files.find( name );
		std::string got = f==x.files.end() ? std::string("(none)") : f->second;
		if( o->st==ST_OK && got!=whole )
		{
			v=violation( q, "write returned normally, but the file is not complete", "incomplete:"+std::to_string( c.io.empty() ? -1 : c.io.back().kind ), what+", write returns normally, but the file holds "+std::to_string(got.size())+" of "+std::to_string(whole.size())+" bytes" );
			if( v ) return v; continue;
		}
		if( o->st!=ST_OK )
		{
			if( !again || again->st!=ST_OK || got!=whole )
			{
				v=violation( q, "writing again after a failure does not work", "again", what+", write throws; written again to the healthy disk, "+( again ? show(*again) : "nothing" )+", the file holds "+std::to_string(got.size())+" of "+std::to_string(whole.size())+" bytes" );
				if( v ) return v; continue;
			}
		}
		const OpRes *e0=x.find( 0, wi-1 ), *e1=x.find( 0, wi+1 );
		if( e0 && e1 && nameOf(p,p.prog[0][wi-1])=="I.dump" && nameOf(p,p.prog[0][wi+1])=="I.dump" && !same( *e0, *e1 ) )
		{
			v=violation( q, "a failing write changes the image", "image", what+", the image changes: "+show(*e0)+" ->"+show(*e1) );
			if( v ) return v;
		}
	}
	return std::nullopt;
}

// =========================================================================== C07
static bool isNumberAttrib( const std::string& a )
{
	static const std::set<std::string> t{ "cx","cy","r","rx","ry","x","y","x1","y1","x2","y2","width","height","stroke-width","font-size" };
	return t.count( a )>0;
}
// a number in C format; SVG has none for the infinite and the undefined ones, these we let pass
static bool isPlainNumber( std::string v )
{
	size_t i=0; auto digits=[&]() { size_t k=i; while( i<v.size() && v[i]>='0' && v[i]<='9' ) i++; return i-k; };
	if( v.size()>2 && ( !v.compare( v.size()-2, 2, "px" ) || !v.compare( v.size()-2, 2, "pt" ) ) ) v.resize( v.size()-2 );
	if( i<v.size() && ( v[i]=='-' || v[i]=='+' ) ) i++;
	if( !v.compare( i, 3, "inf" ) || !v.compare( i, 3, "nan" ) ) return true;
	size_t n=digits(); if( i<v.size() && v[i]=='.' ) { i++; n+=digits(); }
	if( !n ) return false;
	if( i<v.size() && ( v[i]=='e' || v[i]=='E' ) ) { i++; if( i<v.size() && ( v[i]=='-' || v[i]=='+' ) ) i++; if( !digits() ) return false; }
	return i==v.size();
}
// is the text a sequence of complete elements?
static std::string xmlDefect( const std::string& s )
{
	std::vector<std::string> open;
	size_t i=0, n=s.size();
	auto nameCh=[]( char c ) { return isalnum((unsigned char)c) || c=='-' || c=='_' || c==':' || c=='.'; };
	while( i<n )
	{
		if( s[i]!='<' ) { if( s[i]=='>' ) return "stray '>'"; i++; continue; }
		if( !s.compare( i, 4, "<!--" ) ) { size_t e=s.find( "-->", i+4 ); if( e==std::string::npos ) return "comment not closed"; i=e+3; continue; }
		if( i+1<n && s[i+1]=='/' )
		{
			size_t e=s.find( '>', i ); if( e==std::string::npos ) return "tag not closed";
			std::string nm=s.substr( i+2, e-i-2 ); while( !nm.empty() && isspace((unsigned char)nm.back()) ) nm.pop_back();
			if( open.empty() || open.back()!=nm ) return "closing tag </"+nm+"> does not match";
			open.pop_back(); i=e+1; continue;
		}
		size_t j=i+1; std::string nm; while( j<n && nameCh(s[j]) ) nm+=s[j++];
		if( nm.empty() ) return "tag without name";
		std::set<std::string> at;
		for(;;)
		{
			size_t j0=j; while( j<n && isspace((unsigned char)s[j]) ) j++;
			if( j>=n ) return "tag <"+nm+"> not closed";
			if( s[j]=='>' ) { open.push_back( nm ); j++; break; }
			if( s[j]=='/' ) { if( j+1<n && s[j+1]=='>' ) { j+=2; break; } return "'/' inside tag <"+nm+">"; }
			if( j==j0 ) return "blank missing in tag <"+nm+">";
			std::string a; while( j<n && nameCh(s[j]) ) a+=s[j++];
			if( a.empty() ) return std::string("character '")+s[j]+"' inside tag <"+nm+">";
			if( j>=n || s[j]!='=' ) return "attribute "+a+" of <"+nm+"> without value";
			j++;
			if( j>=n || ( s[j]!='"' && s[j]!='\'' ) ) return "value of attribute "+a+" of <"+nm+"> not quoted";
			char q=s[j++]; size_t e=s.find( q, j ); if( e==std::string::npos ) return "value of attribute "+a+" not closed";
			if( s.substr( j, e-j ).find( '<' )!=std::string::npos ) return "'<' in the value of attribute "+a;
			std::string val=s.substr( j, e-j );
			if( ( a=="fill" || a=="stroke" ) && val[0]=='#' && ( ( val.size()!=7 && val.size()!=4 ) || val.find_first_not_of( "0123456789abcdefABCDEF", 1 )!=std::string::npos ) )
				return "attribute "+a+" is not a color: "+val;
			if( isNumberAttrib( a ) && !isPlainNumber( val ) ) return "attribute "+a+" is not a plain number: "+val;
			if( !at.insert( a ).second ) return "attribute "+a+" of <"+nm+"> given twice";
			j=e+1;
		}
		i=j;
	}
	if( !open.empty() ) return "element <"+open.back()+"> not closed";
	return "";
}
static bool touchesImage( const Plan& p, const POp& o )
{
	auto u=findUniverse( p.universe );
	auto& sp=specOf( u, o.op );
	for( auto& s: sp ) if( s.t=='I' && s.mod ) return true;
	return false;
}
static Plan gen07( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r ); g.bad=r.chance(.2) ? .15 : .02;
	Mix m( g, 0, []( const OpDesc& d, const std::vector<SpecArg>& s ) { return ( d.flags & F_DRAW ) && s.size() && s[0].t=='I'; }, "PLSOCREGFVXD", 3 );
	Mix mod( g, 0, []( const OpDesc& d, const std::vector<SpecArg>& s ) { return ( d.flags & F_MOD ) && !( d.flags & (F_DRAW|F_SPECIAL|F_RAND) ) && !uses( s, 'I' ); }, "DPSGFCX", 2 );
	int n=r.chance(.02) ? r.range( 20, 70 ) : r.range( 1, 7 );
	POp last;
	for( int i=0; i<n; i++ )
	{
		if( r.chance(.3) ) { p.prog[0].push_back( mod.one() ); continue; }
		POp o = last.op>=0 && r.chance(.2) ? last : m.one();
		if( r.chance(.8) ) o.a[0].slot=0;
		o.fault=0; last=o;
		if( r.chance(.25) ) { o.fault = r.chance(.7) ? r.range(1,12) : r.range(1,60); o.fmode=r.below(2); }
		p.prog[0].push_back( o );
		if( r.chance(.04) ) p.prog[0].push_back( g.opArgs( "I.clear", { argO('I',0) } ) );
	}
	p.rnd=r.next(); p.sched=r.next();
	g.setup( p );
	return p;
}
static Verdict chk07( const Plan& p )
{
	auto u=findUniverse( p.universe );
	int idump=findOp( u, "I.dump" ), inew=findOp( u, "I.new" ), isize=findOp( u, "I.size" );
	const auto& prog=p.prog[0];
	auto dumpOf=[&]( int slot ) { POp d; d.op=idump; d.a.push_back( argO('I',slot) ); d.tag=7; return d; };
	std::set<int> slots; for( auto& o: prog ) for( auto& a: o.a ) if( a.t=='I' ) slots.insert( a.slot );
	if( slots.empty() ) return std::nullopt;
	// observed run
	Plan q=p; q.prog[0].clear();
	std::vector<int> at( prog.size() ); std::vector<std::map<int,int>> dumps( prog.size() );
	std::map<int,int> first;
	for( size_t i=0; i<prog.size(); i++ )
	{
		if( ( flagsOf( p, prog[i] ) & F_DRAW ) && !prog[i].a.empty() && prog[i].a[0].t=='I' ) { POp z; z.op=isize; z.a.push_back( argO( 'I', prog[i].a[0].slot ) ); q.prog[0].push_back( z ); }
		at[i]=(int)q.prog[0].size(); q.prog[0].push_back( prog[i] );
		if( touchesImage( p, prog[i] ) ) for( int s: slots ) { dumps[i][s]=(int)q.prog[0].size(); q.prog[0].push_back( dumpOf(s) ); }
	}
	for( int s: slots ) q.prog[0].push_back( dumpOf(s) );
	{ POp w; int iw=findOp(u,"I.write"); for( int s: slots ) { w.op=iw; w.a={ argO('I',s), argS('t',"/simdisk/w"+std::to_string(s)) }; q.prog[0].push_back( w ); } }
	Result x=execute( q ); count( x );
	if( !x.done ) { g_cov->discarded++; return std::nullopt; }
	// the text of an image is a document: head (with the size), drawings, end
	bool oddDoc=false;
	auto split=[&]( const std::string& d, std::string& h, std::string& body )
	{
		size_t b=d.find( "</style>" ), e=d.rfind( "</svg>" );
		if( b==std::string::npos || e==std::string::npos || e<b ) return false;
		b+=8; if( b<d.size() && d[b]=='\n' ) b++;
		h=d.substr( 0, b ); body=d.substr( b, e-b ); return true;
	};
	auto text=[&]( const Result& z, int idx, std::string& t )
	{
		const OpRes* o=z.find( 0, idx ); if( !o || o->st!=ST_OK || o->tok.size()!=1 ) return false;
		std::string h;
		oddDoc = !split( o->tok[0].s, h, t );
		if( oddDoc ) t=o->tok[0].s;
		return true;
	};
	std::map<int,std::string> cur;   // text of each image so far; absent: unknown
	for( int s: slots ) cur[s]="";
	Verdict v;
	for( size_t i=0; i<prog.size(); i++ )
	{
		const OpRes* o=x.find( 0, at[i] );
		if( dumps[i].empty() || !o ) continue;
		unsigned fl=flagsOf( p, prog[i] );
		std::string n=nameOf( p, prog[i] );
		int target = ( fl & F_DRAW ) && !prog[i].a.empty() ? prog[i].a[0].slot : -1;
		for( auto& d: dumps[i] )
		{
			std::string t; bool ok=text( x, d.second, t );
			if( ok && oddDoc ) { v=violation( p, "image is not a complete document", "doc:"+n, "after "+n+" the text of the image is not a complete document\n  "+t.substr(0,400) ); if( v ) return v; cur.erase( d.first ); continue; }
			if( !ok ) { v=violation( p, "image can not be read", "read:"+n, "the text of the image can not be read after "+n ); if( v ) return v; cur.erase( d.first ); continue; }
			auto b=cur.find( d.first );
			if( !( fl & F_DRAW ) ) { cur[d.first]=t; continue; }
			if( b==cur.end() ) { cur[d.first]=t; continue; }
			std::string before=b->second; b->second=t;
			if( t.compare( 0, before.size(), before ) || t.size()<before.size() )
			{
				v=violation( p, "earlier drawings damaged", "damaged:"+n, n+" ("+stName(o->st)+") changed what had been drawn before\n  before: "+before.substr(0,400)+"\n  after:  "+t.substr(0,400) );
				if( v ) return v; continue;
			}
			std::string delta=t.substr( before.size() );
			if( d.first!=target )
			{
				if( !delta.empty() ) { v=violation( p, "drawing appears in another image", "other:"+n, n+" added to another image: "+delta.substr(0,300) ); if( v ) return v; }
				continue;
			}
			std::string bad=xmlDefect( delta );
			if( !bad.empty() )
			{
				v=violation( p, "markup not well-formed", "xml:"+n, n+" ("+stName(o->st)+( o->faultsFired ? ", an allocation failed" : "" )+") added markup with a defect: "+bad+"\n  "+delta.substr(0,400) );
				if( v ) return v; continue;
			}
			if( o->faultsFired ) probe(0);
			if( o->st!=ST_OK ) probe(1);
			// the same on a fresh image, without the other drawings, in another process
			const OpRes* sz=x.find( 0, at[i]-1 );
			if( !sz || sz->st!=ST_OK || sz->tok.size()<2 ) continue;
			Tok zw=sz->tok[sz->tok.size()-2], zh=sz->tok.back();
			Plan f=p; f.prog[0].clear();
			for( size_t k=0; k<=i; k++ ) if( k==i || !touchesImage( p, prog[k] ) ) { if( k==i ) { POp w; w.op=inew; w.a={ argO('I',target), argN( 'n', (double)zw.v-1 ), argN( 'n', (double)zh.v-1 ) }; f.prog[0].push_back( w ); } f.prog[0].push_back( prog[k] ); }
			f.prog[0].back().fault=0;
			int fi=(int)f.prog[0].size()-1;
			f.prog[0].push_back( dumpOf( target ) );
			Result y=execute( f ); g_cov->evals++;
			std::string ft; const OpRes* fo=y.find( 0, fi );
			if( !y.done || !fo || !text( y, fi+1, ft ) ) { g_cov->discarded++; continue; }
			if( o->st==ST_OK && fo->st==ST_OK && delta!=ft )
			{
				v=violation( p, "markup depends on what came before", "history:"+n, n+( o->faultsFired ? " (an allocation failed, it returned normally)" : "" )+" added\n  "+delta.substr(0,400)+"\n but on a fresh image gives\n  "+ft.substr(0,400) );
				if( v ) return v; continue;
			}
			if( o->st==ST_OK && fo->st!=ST_OK ) { v=violation( p, "markup depends on what came before", "history:"+n, n+" returned normally, but on a fresh image throws "+show(*fo) ); if( v ) return v; }
			if( o->st!=ST_OK && fo->st==ST_OK && !o->faultsFired ) { v=violation( p, "drawing depends on what came before", "history:"+n, n+" throws "+show(*o)+" but not on a fresh image" ); if( v ) return v; }
		}
	}
	// other locales
	for( int l=1; l<=2; l++ )
	{
		Plan f=q; f.locale=l; f.clocale = l==1;
		Result y=execute( f ); g_cov->evals++;
		if( !y.done ) { v=violation( p, "drawing depends on the locale", "locale:death", "with another locale: "+died(y) ); if( v ) return v; continue; }
		for( size_t i=0; i<q.prog[0].size(); i++ ) if( q.prog[0][i].tag==7 )
		{
			const OpRes *a=x.find(0,(int)i), *b=y.find(0,(int)i);
			if( a && b && !same( *a, *b ) )
			{
				std::string n = i ? nameOf( q, q.prog[0][i-1] ) : "";
				v=violation( p, "drawing depends on the locale", "locale:"+n, "with another global locale the image is\n  "+show(*b)+"\n instead of\n  "+show(*a) );
				if( v ) return v; break;
			}
		}
		for( auto& fl: x.files ) { auto z=y.files.find( fl.first ); if( startsWith( fl.first, "/simdisk/w" ) && ( z==y.files.end() || z->second!=fl.second ) ) { v=violation( p, "image file depends on the locale", "localefile", "with another global locale the file is\n  "+( z==y.files.end() ? "" : z->second.substr(0,400) )+"\n instead of\n  "+fl.second.substr(0,400) ); if( v ) return v; } }
	}
	return std::nullopt;
}

// =========================================================================== C08
static Plan gen08( Rng& r, uint64_t )
{
	Plan p; auto u=findUniverse( "d" ); p.universe=u->name;
	Gen g( u, r );
	static const char* ops[]={ "svg.import", "svg.importfile", "svg.importfile", "svg.import", "svg.path", "svg.points", "svg.rotattr", "svg.imgsize", "svg.attrib", "svg.visit" };
	if( r.chance(.15) ) g.big=.5;
	int n=r.range( 1, 4 );
	for( int i=0; i<n; i++ )
	{
		POp o=g.op( ops[r.below(10)], 0 );
		for( auto& a: o.a )
		{
			if( a.t=='g' ) a.str=g.svgDoc( r.chance(.85) ? 1 : 0 );
			if( a.t=='t' && nameOf(p,o)=="svg.path" )    a.str=g.pathData( r.chance(.85) );
			if( a.t=='t' && nameOf(p,o)=="svg.points" )  a.str=g.pointsData( r.chance(.85) );
			if( a.t=='t' && nameOf(p,o)=="svg.rotattr" ) a.str=g.mutate( a.str, r.range(0,4) );
		}
		if( r.chance(.12) ) { o.fault=r.range(1,40); o.fmode=r.below(2); }
		p.prog[0].push_back( o );
		if( nameOf(p,o)=="svg.import" || nameOf(p,o)=="svg.importfile" )
		{
			int s=o.a[0].slot;
			p.prog[0].push_back( g.opArgs( "X.dump", { argO('X',s) } ) );
			if( r.chance(.5) ) p.prog[0].push_back( g.opArgs( "X.attr", { argO('X',s) } ) );
		}
	}
	if( r.chance(.15) ) p.io.push_back( { 1+(int)r.below(2), IO_READ, r.chance(.5) ? 5 : -(int)r.below(200) } );
	if( r.chance(.05) ) p.io.push_back( { 1, IO_OPEN, 13 } );
	p.clocale=r.chance(.15); p.rnd=r.next();
	g.setup( p );
	return p;
}
static Verdict chk08( const Plan& p )
{
	Result x=execute( p ); count( x );
	if( !x.done )
		return violation( p, "import ends the process: "+deathClass(x), "death:"+x.deathOp+":"+deathClass(x), x.deathOp+": "+died(x) );
	for( auto& o: x.ops )
	{
		unsigned fl=flagsOf( p, p.prog[o.prog][o.idx] );
		if( !( fl & F_IMPORT ) ) continue;
		probe( o.st==ST_OK ? 0 : 1 );
		if( o.faultsFired ) probe(2);
	}
	for( int k=0; k<IO_NKIND; k++ ) if( x.ioFired[k] ) probe(3);
	return std::nullopt;
}

// =========================================================================== C09
static const char SVGPRE[]="<svg version=\"1.1\" width=\"500\" height=\"500\" xmlns=\"http://www.w3.org/2000/svg\">\n";
static Plan gen09( Rng& r, uint64_t )
{
	Plan p; auto u=findUniverse( "d" ); p.universe=u->name;
	Gen g( u, r );
	int n=r.chance(.03) ? r.range( 7, 60 ) : r.range( 2, 6 );
	double dmg = r.chance(.3) ? 0 : r.chance(.5) ? .25 : .6;
	for( int i=0; i<n; i++ )
	{
		std::string e=g.svgElement( 0 );
		if( r.chance(dmg) ) e=g.svgElement( 1 );
		else if( r.chance(.15) ) e=g.svgElement( 1 );
		if( r.chance(.1) ) e="<g>"+e+g.svgElement( 0 )+"</g>";
		if( r.chance(.05) ) e+="\n<text x=\"1\" y=\"2\">abc</text>";
		POp o=g.opArgs( "svg.visit", { argS( 'g', e ) } ); o.tag=1;
		p.prog[0].push_back( o );
		if( i && r.chance(.15) ) p.prog[0].push_back( p.prog[0][r.below(p.prog[0].size())] );   // twice the same
	}
	if( r.chance(.3) )
	{
		POp o=g.op( "svg.import", 0 ); o.tag=4; o.a[0].slot=0;
		o.a[1].str=g.svgDoc( r.chance(.5) ); o.fault = r.chance(.7) ? r.range(1,60) : 0; o.fmode=r.below(2);
		p.prog[0].push_back( o );
	}
	p.clocale=r.chance(.15); p.locale=r.chance(.1); p.rnd=r.next(); p.sched=r.next();
	return p;
}
static Verdict chk09( const Plan& p )
{
	auto u=findUniverse( p.universe );
	int iv=findOp( u, "svg.visit" ), iv2=findOp( u, "svg.visit2" );
	auto doc=[&]( const std::string& body ) { return SVGPRE+body+"</svg>\n"; };
	struct El { std::string t; bool ok, threw; std::vector<Tok> toks; };
	std::vector<El> els;
	std::vector<POp> others;
	for( auto& o: p.prog[0] )
	{
		if( o.tag!=1 ) { others.push_back( o ); continue; }
		Plan q=p; q.prog[0].clear();
		POp a=o; a.a[0].str=doc( o.a[0].str ); q.prog[0].push_back( a );
		Result x=execute( q ); count( x );
		const OpRes* r=x.find( 0, 0 );
		if( !x.done || !r || r->st!=ST_OK || r->tok.size()<2 || r->tok[0].v!=0 ) { g_cov->discarded++; continue; }
		El e{ o.a[0].str, true, r->tok[1].v!=0, std::vector<Tok>( r->tok.begin()+2, r->tok.end() ) };
		els.push_back( e );
	}
	if( els.empty() ) return std::nullopt;
	// one after the other in one process, then together
	Plan q=p; q.prog[0].clear();
	std::string all, h1, h2;
	for( size_t i=0; i<els.size(); i++ )
	{
		POp o; o.op=iv; o.a.push_back( argS( 'g', doc( els[i].t ) ) ); q.prog[0].push_back( o );
		all+=els[i].t+"\n"; ( i<els.size()/2 ? h1 : h2 ) += els[i].t+"\n";
	}
	for( auto& o: others ) q.prog[0].push_back( o );
	int ci=(int)q.prog[0].size();
	{ POp o; o.op=iv; o.a.push_back( argS( 'g', doc( all ) ) ); q.prog[0].push_back( o ); q.prog[0].push_back( o ); }
	bool anyThrew=false; for( auto& e: els ) if( e.threw ) anyThrew=true;
	int c2=-1;
	if( !anyThrew && iv2>=0 ) { c2=(int)q.prog[0].size(); POp o; o.op=iv2; o.a.push_back( argS( 'g', doc(h1) ) ); o.a.push_back( argS( 'g', doc(h2) ) ); q.prog[0].push_back( o ); }
	Result x=execute( q ); count( x );
	Verdict v;
	if( !x.done ) return violation( p, "import ends the process", "death:"+x.deathOp, "importing several elements: "+died(x) );
	std::vector<Tok> exp; bool threw=false;
	for( auto& e: els ) { exp.insert( exp.end(), e.toks.begin(), e.toks.end() ); if( e.threw ) { threw=true; break; } }
	if( anyThrew ) probe(1); else probe(0);
	auto cmp=[&]( const OpRes& o, size_t skip, bool thr, const std::vector<Tok>& t )
	{
		OpRes a, b; a.st=b.st=ST_OK;
		if( o.st!=ST_OK || o.tok.size()<skip || ( o.tok[skip-1].v!=0 )!=thr ) return false;
		a.tok.assign( o.tok.begin()+skip, o.tok.end() ); b.tok=t;
		return same( a, b );
	};
	auto showT=[&]( const std::vector<Tok>& t, bool thr ) { OpRes o; o.st=ST_OK; o.tok=t; return show(o)+( thr ? " and throws" : "" ); };
	for( size_t i=0; i<els.size(); i++ )
	{
		const OpRes* o=x.find( 0, (int)i );
		if( o && !cmp( *o, 2, els[i].threw, els[i].toks ) )
		{
			v=violation( p, "import depends on earlier imports", "earlier", "importing "+els[i].t+" after other imports gives\n  "+show(*o)+"\n  alone: "+showT( els[i].toks, els[i].threw ) );
			if( v ) return v; break;
		}
	}
	for( int k=0; k<2; k++ )
	{
		const OpRes* o=x.find( 0, ci+k );
		if( o && !cmp( *o, 2, threw, exp ) )
		{
			v=violation( p, "import of a document differs from its elements", "document", "importing\n"+all+"gives\n  "+show(*o)+"\n  its elements alone: "+showT( exp, threw ) );
			if( v ) return v; break;
		}
	}
	if( c2>=0 )
	{
		const OpRes* o=x.find( 0, c2 );
		if( o && !cmp( *o, 1, false, exp ) ) { v=violation( p, "importer state survives from one document to the next", "visitor", "importing two documents with the same visitor gives\n  "+show(*o)+"\n  their elements alone: "+showT( exp, false ) ); if( v ) return v; }
	}
	return std::nullopt;
}

// =========================================================================== C10
static Plan gen10( Rng& r, uint64_t )
{
	Plan p; auto u=findUniverse( "d" ); p.universe=u->name;
	Gen g( u, r );
	double sc = r.chance(.6) ? 1 : r.chance(.5) ? 100 : r.chance(.5) ? .01 : 10000;
	bool neg=r.chance(.4), whole=r.chance(.4);
	auto c=[&]{ double x = whole ? r.range(0,400) : r.range(0,4000000)/10000.; if( neg && r.chance(.5) ) x=-x; return x*sc; };
	auto len=[&]{ return ( whole ? r.range(1,200) : r.range(10000,2000000)/10000. )*sc; };
	auto draws=[&]( char t ) { std::vector<std::string> v{ std::string(1,t)+".draw", std::string("draw.")+t, std::string("I.draw.")+t, std::string("I.drawdef.")+t }; return v[r.below(4)]; };
	p.prog[0].push_back( g.opArgs( "I.new", { argO('I',0), argN('n',r.range(100,900)), argN('n',r.range(100,900)) } ) );
	int n=r.chance(.08) ? r.range(9,40) : r.range( 1, 8 );
	for( int i=0; i<n; i++ )
	{
		if( r.chance(.3) )
		{
			static const char* mo[]={ "D.color", "D.thickness", "D.attr", "D.fontSize", "D.pointSize", "D.pointStyle", "D.make" };
			POp o=g.op( mo[r.below(7)], 0 ); o.a[0].slot=0; p.prog[0].push_back( o );
		}
		if( r.chance(.1) ) { POp o=g.op( "I.text", 0 ); o.a[0].slot=0; o.a[3].slot=0; if( o.a[2].str.find( '\0' )!=std::string::npos ) o.a[2].str="abc"; p.prog[0].push_back( o ); }
		char t="CERSGF"[r.below(6)];
		int s=(int)r.below(NSLOT);
		if( t=='C' ) p.prog[0].push_back( g.opArgs( "C.make", { argO('C',s), argN('x',c()), argN('x',c()), argN('r',len()) } ) );
		if( t=='E' ) { double a=len(), b=len(); p.prog[0].push_back( g.opArgs( "E.make", { argO('E',s), argN('x',c()), argN('x',c()), argN('r',a), argN('r',b), argN('a',r.chance(.3) ? 0 : r.chance(.2) ? r.range(-4,4)*.7853981633974483 : r.range(-3000,3000)/1000.) } ) ); }
		if( t=='R' ) { double x=c(), y=c(); p.prog[0].push_back( g.opArgs( "R.make", { argO('R',s), argN('x',x), argN('x',y), argN('x',x+len()), argN('x',y+len()) } ) ); }
		if( t=='S' ) { double x=c(), y=c(); p.prog[0].push_back( g.opArgs( "S.make", { argO('S',s), argN('x',x), argN('x',y), argN('x',x+( r.chance(.5) ? len() : -len() )), argN('x',y+( r.chance(.3) ? 0 : r.chance(.5) ? len() : -len() )) } ) ); }
		if( t=='G' || t=='F' )
		{
			std::vector<PtL> v; int k=r.range( t=='G' ? 3 : 2, r.chance(.1) ? 40 : r.chance(.02) ? 400 : 8 );
			bool again=r.chance(.35);               // a path passing several times through a point
			for( int guard=0; (int)v.size()<k && guard<600; guard++ )
			{
				if( again && v.size()>=2 && r.chance(.3) ) { size_t j=r.below( v.size()-1 ); if( v[j].x!=v.back().x || v[j].y!=v.back().y ) v.push_back( PtL( v[j] ) ); continue; }
				PtL q{ c(), c() }; bool ok=true;
				for( auto& w: v ) if( hypotl( w.x-q.x, w.y-q.y )<.5L*sc ) ok=false;
				if( ok ) v.push_back( q );
			}
			while( v.size()>1 && v.front().x==v.back().x && v.front().y==v.back().y ) v.pop_back();
			if( v.size()<2 ) continue;
			if( t=='G' && v.size()<3 ) continue;
			p.prog[0].push_back( g.opArgs( t=='G' ? "G.setv" : "F.setv", { argO(t,s), argS('v',ptsText(v)) } ) );
		}
		// sometimes an object that results from operations on another one
		if( r.chance(.3) )
		{
			double f[]={1,1,1,.5,2}, ang=r.chance(.5) ? r.range(-3,4)*1.5707963267948966 : r.range(-3000,3000)/1000.;
			p.prog[0].push_back( g.opArgs( "H.rot", { argO('H',0), argN('a',ang) } ) );
			if( r.chance(.5) ) p.prog[0].push_back( g.opArgs( "H.addScale", { argO('H',0), argN('s',f[r.below(5)]) } ) );
			if( r.chance(.5) ) p.prog[0].push_back( g.opArgs( "H.addTranslation", { argO('H',0), argN('x',c()), argN('x',c()) } ) );
			auto from=[&]( const char* n, char to, char src ) { p.prog[0].push_back( g.opArgs( n, { argO(to,s), argO('H',0), argO(src,s) } ) ); t=to; };
			switch( t )
			{
				case 'C': if( r.chance(.5) ) from( "E.fromHC", 'E', 'C' ); break;
				case 'E': from( "E.fromHE", 'E', 'E' ); break;
				case 'G': from( "G.fromHG", 'G', 'G' ); break;
				case 'F': from( "F.fromHF", 'F', 'F' ); break;
				case 'R': if( r.chance(.5) ) from( "G.fromHR", 'G', 'R' ); else p.prog[0].push_back( g.opArgs( "R.rotate", { argO('R',s), argN('k',r.below(8)) } ) ); break;
			}
		}
		if( r.chance(.1) ) p.prog[0].push_back( g.opArgs( ( std::string("translate.")+t ).c_str(), { argO(t,s), argN('x',c()), argN('x',c()) } ) );
		int times=r.chance(.1) ? 2 : 1;
		for( int k=0; k<times; k++ )
		{
			POp d=g.opArgs( (std::string(1,t)+".dump").c_str(), { argO(t,s) } ); d.tag=1;
			p.prog[0].push_back( d );
			std::string dn=draws( t );
			std::vector<PArg> a{ argO('I',0), argO(t,s) }; if( dn.find("drawdef")==std::string::npos ) a.push_back( argO('D',0) );
			POp o=g.opArgs( dn.c_str(), a ); o.tag=2;
			p.prog[0].push_back( o );
		}
	}
	int rounds=r.range( 1, 3 );
	p.gap=rounds;
	p.locale=r.chance(.15) ? 1+(int)r.below(2) : 0; p.clocale=r.chance(.1);
	p.rnd=r.next();
	return p;
}
// splits the text of a list of objects into one list of numbers per object
static bool splitObjects( const OpRes& o, std::vector<std::pair<std::string,std::vector<long double>>>& v )
{
	static const std::set<std::string> ty{ "Point","Line","Segment","OSegment","Circle","FRect","Ellipse","CPolyline","OPolyline" };
	v.clear();
	for( auto& t: o.tok )
	{
		if( t.t==T_TAG ) { if( ty.count( t.s ) ) v.push_back( { t.s, {} } ); continue; }
		if( v.empty() ) continue;                   // length of the list
		v.back().second.push_back( t.v );
	}
	return true;
}
static bool sameObject( const std::pair<std::string,std::vector<long double>>& a, const std::pair<std::string,std::vector<long double>>& b )
{
	if( a.first!=b.first || a.second.size()!=b.second.size() ) return false;
	long double m=0;
	auto &x=a.second, &y=b.second;
	size_t n=x.size();
	bool ell = a.first=="Ellipse" && n>=6;
	size_t k = ell ? n-1 : n;
	for( size_t i=0; i<k; i++ ) m=std::max( m, fabsl( x[i] ) );
	for( size_t i=0; i<k; i++ ) if( !( fabsl( x[i]-y[i] ) <= 2e-5L*m + 1e-12L ) ) return false;
	if( ell )
	{
		long double ma=x[3], mi=x[4], d=fabsl( x[5]-y[5] );
		const long double PI=3.14159265358979323846L;
		d=fmodl( d, PI ); d=std::min( d, PI-d );
		if( fabsl(ma-mi) > .02L*ma && !( d <= 2e-4L + 4e-5L*m/fabsl(ma-mi) ) ) return false;
	}
	return true;
}
static Verdict chk10( const Plan& p )
{
	auto u=findUniverse( p.universe );
	Plan q=p;
	std::vector<int> dumps;
	for( size_t i=0; i+1<p.prog[0].size(); i++ ) if( p.prog[0][i].tag==1 && p.prog[0][i+1].tag==2 && p.prog[0][i].a[0].t==p.prog[0][i+1].a[1].t && p.prog[0][i].a[0].slot==p.prog[0][i+1].a[1].slot ) dumps.push_back( (int)i );
	if( dumps.empty() ) return std::nullopt;
	for( size_t i=0; i<p.prog[0].size(); i++ ) if( p.prog[0][i].tag==2 && ( !i || p.prog[0][i-1].tag!=1 ) ) return std::nullopt;    // a drawing without its reading
	auto op=[&]( const char* n, std::vector<PArg> a ) { POp o; o.op=findOp( u, n ); o.a=a; q.prog[0].push_back( o ); return (int)q.prog[0].size()-1; };
	int rounds = p.gap>=1 && p.gap<=5 ? p.gap : 1;
	std::vector<int> loads;
	for( int k=0; k<rounds; k++ )
	{
		std::string f="/simdisk/r"+std::to_string(k);
		if( k )
		{
			op( "I.newdef", { argO('I',1) } );
			op( "X.draw", { argO('I',1), argO('X',k-1), argO('D',1) } );
		}
		op( "I.write", { argO('I',k?1:0), argS('t',f) } );
		op( "svg.load", { argO('X',k), argS('t',f) } );
		loads.push_back( op( "X.dump", { argO('X',k) } ) );
	}
	q.gap=200;
	Result x=execute( q ); count( x );
	Verdict v;
	if( !x.done ) return violation( p, "round trip ends the process", "death:"+x.deathOp, x.deathOp+": "+died(x) );
	std::vector<std::pair<std::string,std::vector<long double>>> want, got, one;
	for( int i: dumps )
	{
		const OpRes *d=x.find( 0, i ), *w=x.find( 0, i+1 );
		if( !d || !w || d->st!=ST_OK ) { g_cov->discarded++; return std::nullopt; }
		if( w->st!=ST_OK ) { return violation( p, "drawing throws", "draw:"+nameOf(p,p.prog[0][i+1]), nameOf(p,p.prog[0][i+1])+" throws: "+show(*w) ); }
		splitObjects( *d, one ); if( one.size()!=1 || one[0].second.size()<3 ) { g_cov->discarded++; return std::nullopt; }
		for( auto& z: one[0].second ) if( !std::isfinite(z) ) { g_cov->discarded++; return std::nullopt; }
		want.push_back( one[0] );
	}
	std::string kinds; for( auto& w: want ) kinds+=w.first+" ";
	for( size_t k=0; k<loads.size(); k++ )
	{
		const OpRes *l=x.find( 0, loads[k] ), *ld=x.find( 0, loads[k]-1 ), *wr=x.find( 0, loads[k]-2 );
		if( !l || !ld || !wr ) continue;
		std::string file; auto fi=x.files.find( "/simdisk/r"+std::to_string(k) ); if( fi!=x.files.end() ) file=fi->second;
		probe( k ? 1 : 0 );
		if( wr->st!=ST_OK || ld->st!=ST_OK || l->st!=ST_OK )
			return violation( p, "round trip throws", "throws", "round "+std::to_string(k+1)+" of "+kinds+": write "+show(*wr)+", import "+show(*ld)+"\n"+file.substr(0,1500) );
		splitObjects( *l, got );
		bool ok = got.size()==want.size(); size_t bad=0;
		for( size_t i=0; i<want.size() && ok; i++ ) if( !sameObject( want[i], got[i] ) ) { ok=false; bad=i; }
		if( !ok )
		{
			std::string s; if( got.size()!=want.size() ) s=std::to_string(got.size())+" objects instead of "+std::to_string(want.size());
			else { OpRes a,b; a.st=b.st=ST_OK; for( auto z: want[bad].second ) { Tok t; t.t=T_NUM; t.v=z; a.tok.push_back(t); } for( auto z: got[bad].second ) { Tok t; t.t=T_NUM; t.v=z; b.tok.push_back(t); } s=want[bad].first+show(a)+"\n came back as "+got[bad].first+show(b); }
			return violation( p, "objects come back different", "differs:"+( got.size()!=want.size() ? "number" : want[bad].first ), "round "+std::to_string(k+1)+": "+s+"\n"+file.substr(0,2000) );
		}
	}
	return std::nullopt;
}

// =========================================================================== C11
static Plan gen11( Rng& r, uint64_t )
{
	Plan p; auto u=pickUniverse( r ); p.universe=u->name;
	Gen g( u, r ); g.bad=r.chance(.2) ? .15 : .02;
	Mix hist( g, 0, []( const OpDesc& d, const std::vector<SpecArg>& ) { return !( d.flags & (F_SPECIAL|F_RAND|F_OBS) ); }, TYPES, 2 );
	auto pr=g.select( []( const OpDesc& d, const std::vector<SpecArg>& ) { return ( d.flags & F_PRINT )!=0; } );
	int n=r.range( 0, 4 );
	for( int i=0; i<n; i++ ) p.prog[0].push_back( hist.one() );
	POp o=g.op( g.pick(pr), 0 ); o.tag=1;
	o.fmt=r.chance(.5) ? 0 : (int)r.below(256);
	p.prog[0].push_back( o );
	p.rnd=r.next(); p.sched=r.next();
	g.setup( p );
	return p;
}
static Verdict chk11( const Plan& p0 )
{
	auto u=findUniverse( p0.universe );
	int ti=-1; for( size_t i=0; i<p0.prog[0].size(); i++ ) if( p0.prog[0][i].tag==1 ) ti=(int)i;
	if( ti<0 || !( flagsOf( p0, p0.prog[0][ti] ) & F_PRINT ) ) return std::nullopt;
	Plan p=p0; int given=p.prog[0][ti].lim, gmode=p.prog[0][ti].limMode, gfault=p.prog[0][ti].fault;
	std::string n=nameOf( p, p.prog[0][ti] );
	// dump of the operands before and after, then printed again
	POp t=p.prog[0][ti]; t.lim=-1; t.fault=0;
	POp clean=t; clean.fmt&=~128;
	std::vector<POp> after( p.prog[0].begin()+ti+1, p.prog[0].end() ), dumps;
	Plan one; one.prog[0].push_back( t );
	for( auto& ob: objectsOf( one ) ) { int d=findOp( u, (std::string(1,ob.first)+".dump").c_str() ); if( d>=0 ) { POp x; x.op=d; x.a.push_back( argO(ob.first,ob.second) ); dumps.push_back( x ); } }
	p.prog[0].resize( ti );
	for( auto& d: dumps ) p.prog[0].push_back( d );
	int at=(int)p.prog[0].size(), nd=(int)dumps.size();
	p.prog[0].push_back( t );
	for( auto& d: dumps ) p.prog[0].push_back( d );
	int again=(int)p.prog[0].size();
	p.prog[0].push_back( clean );
	{ POp c=clean; c.fmt=0; p.prog[0].push_back( c ); }
	// reference: printed once, first thing
	Plan rp=p; rp.prog[0][at]=clean;
	Result ref=execute( rp ); count( ref );
	if( !ref.done ) { g_cov->discarded++; return std::nullopt; }
	const OpRes *r0=ref.find( 0, at ), *rf=ref.find( 0, again+1 );
	if( !r0 || !rf ) return std::nullopt;
	const std::string full=r0->printed, fullPlain=rf->printed;
	Verdict v;
	auto judge=[&]( const Plan& run, const Result& x, const std::string& what, const Plan& rep ) -> Verdict
	{
		const OpRes* o=x.find( 0, at );
		if( !o ) return std::nullopt;
		if( o->outBytes || o->errBytes ) { v=violation( rep, "printing writes to a standard stream", "stdout:"+n, n+what+" wrote "+std::to_string(o->outBytes)+" bytes to the standard output and "+std::to_string(o->errBytes)+" to the standard error stream: "+x.outText.substr(0,100)+x.errText.substr(0,100) ); if( v ) return v; }
		if( o->fmtChanged ) { v=violation( rep, "printing changes the format of the stream", "format:"+n, n+what+" changed the formatting state of the stream" ); if( v ) return v; }
		if( o->stdFmtChanged ) { v=violation( rep, "printing changes the format of a standard stream", "stdformat:"+n, n+what+" changed the formatting state of a standard stream" ); if( v ) return v; }
		for( int k=0; k<nd; k++ )
		{
			const OpRes *a=x.find( 0, at-nd+k ), *b=x.find( 0, at+1+k );
			if( a && b && !same( *a, *b ) ) { v=violation( rep, "printing modifies the object", "modified:"+n, n+what+" modified its operand\n  "+show(*a)+"\n  "+show(*b) ); if( v ) return v; }
		}
		const OpRes *c=x.find( 0, again ), *d=x.find( 0, again+1 );
		if( o->st!=r0->st && !( run.prog[0][at].fmt & 128 ) && !o->faultsFired ) { v=violation( rep, "printing not repeatable", "status:"+n, n+what+": "+show(*o)+" instead of "+show(*r0) ); if( v ) return v; }
		if( full.compare( 0, o->printed.size(), o->printed ) || o->printed.size()>full.size() ) { v=violation( rep, "printed text is not a prefix", "prefix:"+n, n+what+" printed '"+o->printed.substr(0,300)+"', which is no prefix of '"+full.substr(0,300)+"'" ); if( v ) return v; }
		if( c && ( c->printed!=full || c->st!=r0->st ) ) { v=violation( rep, "printing again gives another text", "again:"+n, n+" after "+n+what+" printed '"+c->printed.substr(0,300)+"' instead of '"+full.substr(0,300)+"'" ); if( v ) return v; }
		if( d && ( d->printed!=fullPlain ) ) { v=violation( rep, "printing again gives another text", "again:"+n, n+" after "+n+what+" printed '"+d->printed.substr(0,300)+"' instead of '"+fullPlain.substr(0,300)+"'" ); if( v ) return v; }
		return std::nullopt;
	};
	{ Plan rep=p0; v=judge( rp, ref, "", rep ); if( v ) return v; }
	if( r0->st==ST_OK && t.fmt==0 && full!=fullPlain ) { v=violation( p0, "printing is not repeatable", "repeat:"+n, n+" printed '"+full.substr(0,300)+"', later '"+fullPlain.substr(0,300)+"'" ); if( v ) return v; }
	struct Case { int lim, mode, fault; };
	std::vector<Case> cs;
	if( given>=0 || gfault ) cs.push_back( { given, gmode, gfault } );
	else
	{
		Rng r( p0.sched ); int len=(int)full.size();
		for( int k=0; k<=len && k<24; k++ ) cs.push_back( { k, (int)r.below(2), 0 } );
		for( int k=0; k<12 && len>24; k++ ) cs.push_back( { 24+(int)r.below(len-23), (int)r.below(2), 0 } );
		for( int k=1; k<=(int)r0->allocs && k<=4; k++ ) cs.push_back( { -1, 0, k } );
	}
	for( auto& c: cs )
	{
		Plan q=p; q.prog[0][at].lim=c.lim; q.prog[0][at].limMode=c.mode; q.prog[0][at].fault=c.fault;
		Plan rep=p0; rep.prog[0][ti].lim=c.lim; rep.prog[0][ti].limMode=c.mode; rep.prog[0][ti].fault=c.fault;
		Result x=execute( q ); g_cov->evals++; g_cov->faultPoints++;
		char what[120]; if( c.fault ) snprintf( what, sizeof what, " (allocation %d fails)", c.fault ); else snprintf( what, sizeof what, " (the stream fails after %d characters%s)", c.lim, c.mode ? ", its buffer throws" : "" );
		if( !x.done ) { v=violation( rep, "printing ends the process", "death:"+x.deathOp, n+what+": "+died(x) ); if( v ) return v; continue; }
		const OpRes* o=x.find( 0, at );
		noteHash( mix( x.hash, c.lim*2+c.mode+c.fault*7919 ) );
		if( o && o->faultsFired ) probe( c.fault ? 1 : 0 );
		v=judge( q, x, what, rep ); if( v ) return v;
	}
	return std::nullopt;
}

#define CHECKS_TEXT \
	{ "C06", "fault_enumeration", "image with random drawings, written to the simulated disk once for each failure of the underlying file operations (creation, each write failing or cut short, closing, disk full after any number of bytes, the bitmap writer) and for failing allocations; distinct = distinct behaviour of a run with its fault", "failing open, write, close, short writes, full disk, failing bitmap writer, allocation failures", \
	  { "fault fired", "write threw" }, gen06, chk06, false }, \
	{ "C07", "exploration", "random drawing calls on several images with changing parameters, allocation failures in some; the text each call adds is compared with what it adds to a fresh image in a process of its own, checked to be well-formed, and the run repeated under other locales; distinct = distinct behaviour of the run", "allocation failures, locales", \
	  { "allocation fault fired", "drawing threw" }, gen07, chk07, false }, \
	{ "C08", "exploration", "SVG documents, path, point and attribute texts damaged at random (cut, bytes and attributes changed, removed, repeated), read errors and short files, allocation failures; imported under memory checking and a step limit; distinct = distinct behaviour of the run", "damaged files, read errors, short reads, allocation failures", \
	  { "import returned", "import threw", "allocation fault fired", "file fault fired" }, gen08, chk08, false }, \
	{ "C09", "exploration", "documents of up to 8 elements, some damaged; each element imported alone in a process of its own, then all one after the other and as one document in one process; distinct = distinct behaviour of a run", "damaged elements, allocation failures in earlier imports", \
	  { "all elements readable", "an element throws" }, gen09, chk09, false }, \
	{ "C10", "exploration", "random sequences of drawings on one image, written, loaded, imported, and repeated up to 3 times; the imported objects are compared with the drawn ones; distinct = distinct behaviour of the run", "locales", \
	  { "first round", "later round" }, gen10, chk10, false }, \
	{ "C11", "fault_enumeration", "every printing operation, on objects with a random history, for every number of characters (up to 36 of them) after which the stream fails, under various stream formats, and with failing allocations; distinct = distinct behaviour of a run with its fault", "failing streams, throwing stream buffers, allocation failures", \
	  { "stream failed", "allocation failed" }, gen11, chk11, false },
