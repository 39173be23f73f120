#include "drv.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <algorithm>

namespace sim {

const std::vector<SpecArg>& specOf( const Universe* u, int op )
{
	static std::map<const Universe*,std::vector<std::vector<SpecArg>>> cache;
	auto& v = cache[u];
	if( v.empty() )
		for( int i=0; i<u->nops; i++ )
		{
			std::vector<SpecArg> s; bool m=false;
			for( const char* p=u->ops[i].spec; *p; p++ )
			{
				if( *p=='*' ) m=true;
				else { s.push_back( SpecArg{ *p, m } ); m=false; }
			}
			v.push_back( s );
		}
	return v[op];
}
PArg argO( char t, int slot ) { PArg a; a.t=t; a.slot=slot; return a; }
PArg argN( char t, double v ) { PArg a; a.t=t; a.num=v; return a; }
PArg argS( char t, const std::string& s ) { PArg a; a.t=t; a.str=s; return a; }

Gen::Gen( const Universe* u_, Rng& r_ ): u(u_), r(r_) { regime=(int)r.below(5); if( r.chance(.08) ) big=r.chance(.5) ? .3 : .6; }

double Gen::coord()
{
	switch( regime )
	{
		case 0: return r.range( 0, 5 );
		case 1: return r.range( -10, 20 );
		case 2: return r.range( -10000, 10000 )/100.;
		case 3: return r.range( -10000000, 10000000 )/1e6;
		case 4: return r.range( -1000000, 1000000 );
		case 5: // extremes
			switch( r.below(8) )
			{
				case 0: return 0;
				case 1: return r.range(-3,3);
				case 2: return std::ldexp( (double)r.range(-1000,1000), r.range(-60,60) );
				case 3: return r.range(-3,3)*1e-9;
				case 4: return r.range(-3,3)*1e9 + r.range(-1,1);
				case 5: return r.range(-10,10)*1e-13;
				case 6: return r.range(-10,10)*1e15;
				default: return r.range(-1000,1000)/7.;
			}
		case 6: return r.range( 10, 400 );               // inside an image
		default: return r.range( 0, 1000 )/10.;
	}
}
double Gen::radius()
{
	if( r.chance( bad ) ) return r.chance(.5) ? 0 : -1.5;
	double x = std::fabs( coord() );
	if( regime==6 ) return r.range( 1, 100 );
	return x==0 && !r.chance(bad) ? 1 : x;
}
double Gen::number( char t )
{
	switch( t )
	{
		case 'x': return coord();
		case 'r': return radius();
		case 's':
			if( r.chance(bad*2) ) return 0;
			return r.chance(.5) ? r.range(1,40)/8. : r.range(-30,30)/10.;
		case 'a': return r.chance(.3) ? r.range(-4,8)*0.7853981633974483 : r.range(-7000,7000)/1000.;
		case 'i': return r.chance(bad) ? r.range(3,20) : r.range(0,2);
		case 'n': return r.chance(big) ? r.range(21,300) : r.range(0,20);
		case 'k': return r.range(0,7);
		case 'b': return r.range(0,1);
		case 'c': return r.range(0,255);
	}
	return 0;
}
static std::string num( double v )
{
	char b[64];
	if( v==std::floor(v) && std::fabs(v)<1e15 ) snprintf( b, sizeof b, "%.0f", v );
	else if( std::fabs(v)<1e9 && std::fabs(v)>1e-4 ) { snprintf( b, sizeof b, "%.9f", v ); size_t n=strlen(b); while( b[n-1]=='0' ) b[--n]=0; }
	else snprintf( b, sizeof b, "%.6e", v );
	return b;
}
std::string Gen::coordList( int minN, int maxN, bool simple )
{
	int n = r.range( minN, maxN );
	if( maxN>4 && r.chance(big) ) n = r.chance(.7) ? r.range( 10, 30 ) : r.chance(.85) ? r.range( 31, 130 ) : r.range( 240, 300 );
	int kind = simple ? 1 : (int)r.below(8);
	if( n>30 && !simple && r.chance(.6) ) kind = r.chance(.5) ? 8 : 9;
	std::vector<std::pair<double,double>> v;
	double cx=coord(), cy=coord(), ra=std::fabs(coord())+1;
	switch( kind )
	{
		case 0: case 2: case 3:                 // any points
			for( int i=0; i<n; i++ ) v.push_back( { coord(), coord() } );
			break;
		case 1: case 4:            // star-shaped, simple
			for( int i=0; i<n; i++ )
			{
				double a = (i + 0.6*r.unit())*6.283185307/n, d = ra*(0.5+0.5*r.unit());
				v.push_back( { cx+d*std::cos(a), cy+d*std::sin(a) } );
			}
			break;
		case 5:            // collinear
		{
			double dx=coord(), dy=coord();
			for( int i=0; i<n; i++ ) { int k=r.range(0,6); v.push_back( { cx+k*dx, cy+k*dy } ); }
			break;
		}
		case 6:            // rectangle with points on its sides
		{
			double w=ra, h=std::fabs(coord())+1;
			double q[8][2]={{0,0},{.5,0},{1,0},{1,.5},{1,1},{.5,1},{0,1},{0,.5}};
			for( int i=0; i<8; i++ ) if( i%2==0 || r.chance(.6) ) v.push_back( { cx+q[i][0]*w, cy+q[i][1]*h } );
			if( n<3 ) v.resize( n );
			break;
		}
		case 8:            // convex, many points
			for( int i=0; i<n; i++ ) { double a=i*6.283185307179586/n; v.push_back( { cx+ra*std::cos(a), cy+ra*std::sin(a) } ); }
			break;
		case 9:            // rectangle with many points on its sides
			for( int i=0; i<n; i++ )
			{
				int q=n/4+1, k=i%q; double f=ra*k/q;
				switch( i/q ) { case 0: v.push_back( {cx+f,cy} ); break; case 1: v.push_back( {cx+ra,cy+f} ); break; case 2: v.push_back( {cx+ra-f,cy+ra} ); break; default: v.push_back( {cx,cy+ra-f} ); }
			}
			break;
		default:           // points on a circle, repeated points
			for( int i=0; i<n; i++ )
			{
				if( i && r.chance(.15) ) v.push_back( v[r.below(v.size())] );
				else { double a=r.range(0,11)*6.283185307179586/12; v.push_back( { cx+ra*std::cos(a), cy+ra*std::sin(a) } ); }
			}
	}
	if( !simple && kind!=6 && v.size()>3 && r.chance(.12) ) v[2+r.below(v.size()-2)] = v[r.below(v.size()-2)];   // passes again through a point
	if( r.chance( kind>7 ? .1 : .3 ) && !simple ) for( size_t i=v.size(); i>1; i-- ) std::swap( v[i-1], v[r.below(i)] );
	std::string s;
	for( auto& p: v ) { if( !s.empty() ) s+=' '; s += num(p.first)+","+num(p.second); }
	return s;
}
std::string Gen::text( const std::string& op, int )
{
	if( op=="D.attr" )
	{
		static const char* v[]={ "", "stroke-dasharray=\"2,3\"", "class=\"a\"", "opacity=\"0.5\"", "fill=\"none\"", "fill=\"blue\"" };
		return v[r.below(6)];
	}
	if( op=="I.write" || op=="svg.load" || op=="svg.importfile" ) { static const char* v[]={ "/simdisk/a.svg","/simdisk/b.svg","/simdisk/c" }; return v[r.below(3)]; }
	if( op=="svg.path" ) return pathData( r.chance(.7) ? 0 : 1 );
	if( op=="svg.points" ) return pointsData( r.chance(.7) ? 0 : 1 );
	if( op=="svg.rotattr" )
	{
		std::string s="rotate("+num(r.range(-180,180))+","+num(r.range(0,99))+","+num(r.range(0,99))+")";
		return r.chance(.6) ? s : mutate( s, r.range(1,3) );
	}
	static const char* v[]={ "", "abc", "text with blanks", "0.5", "x", "a longer text 1234567890 1234567890 1234567890", "caf\xc3\xa9 100%s \\n" };
	if( op=="I.text" && r.chance(.04) ) return std::string( "before\0after", 12 );
	if( op=="I.text" && r.chance(.04) ) return std::string( r.range(900,9000), 'y' );
	return v[r.below(7)];
}
PArg Gen::arg( const SpecArg& s, int bank, const std::string& opName, int k )
{
	PArg a; a.t=s.t;
	if( isObj(s.t) ) a.slot = bank*NSLOT + (int)r.below(NSLOT);
	else if( s.t=='v' ) a.str = coordList();
	else if( s.t=='t' ) a.str = text( opName, k );
	else if( s.t=='g' ) a.str = svgDoc( r.chance(.5) ? 0 : 1 );
	else a.num = number( s.t );
	return a;
}
POp Gen::op( int idx, int bank )
{
	POp o; o.op=idx;
	const auto& sp=specOf( u, idx );
	for( size_t k=0; k<sp.size(); k++ ) o.a.push_back( arg( sp[k], bank, u->ops[idx].name, (int)k ) );
	return o;
}
POp Gen::op( const char* n, int bank )
{
	int i=findOp( u, n );
	if( i<0 ) { fprintf( stderr, "generator: no operation %s in universe %s\n", n, u->name ); _Exit(2); }
	return op( i, bank );
}
POp Gen::opArgs( const char* n, std::vector<PArg> a )
{
	int i=findOp( u, n );
	if( i<0 ) { fprintf( stderr, "generator: no operation %s in universe %s\n", n, u->name ); _Exit(2); }
	POp o; o.op=i; o.a=std::move(a); return o;
}
void Gen::initObj( std::vector<POp>& v, char t, int slot, int depth )
{
	int bank=slot/NSLOT;
	auto on=[&]( const char* n ) { POp o=op( n, bank ); o.a[0].slot=slot; v.push_back(o); };
	double sb=bad; bad=bad*.3;
	switch( t )
	{
		case 'P': on( "P.make" ); break;
		case 'L': on( r.chance(.7) ? "L.make" : "L.orient" ); break;
		case 'S': on( "S.make" ); break;
		case 'O': on( "O.make" ); break;
		case 'C': on( "C.make" ); break;
		case 'R': on( "R.make" ); break;
		case 'E': on( "E.make" ); break;
		case 'G': if( r.chance(.12) ) on( "G.regular" ); else { on( "G.setv" ); if( r.chance(.8) ) v.back().a[1].str=coordList(3,8,r.chance(.6)); } break;
		case 'F': on( "F.setv" ); if( r.chance(.8) ) v.back().a[1].str=coordList(2,8,r.chance(.6)); break;
		case 'V': on( "V.set" ); if( r.chance(.5) ) v.back().a[1].str=coordList(4,4); break;
		case 'H':
		{
			if( r.chance(.12) )        // special ones: the last element of the inverse is null, or the matrix is singular, or its last element is null
			{
				double q[9]; for( auto& x: q ) x=r.range(-8,8)/4.;
				q[8]=1;
				if( r.chance(.6) ) { double k=r.range(-4,4)/2.; q[3]=k*q[0]; q[4]=k*q[1]; }
				else if( r.chance(.5) ) for( int i=0; i<3; i++ ) q[3+i]=2*q[i];
				else q[8]=0;
				on( "H.fromArr" );
				for( int i=0; i<9; i++ ) v.back().a[i+1].num=q[i];
				break;
			}
			static const char* f[]={ "H.trans","H.rot","H.setScale2","H.fromArr","H.fromVec" };
			on( f[r.below(5)] );
			if( r.chance(.5) && v.back().a.size()==10 )      // an ordinary transformation
			{
				static const double id[9]={1,0,0,0,1,0,0,0,1};
				for( int i=0; i<9; i++ ) v.back().a[i+1].num = id[i] + (i<6 ? r.range(-8,8)/16. : i<8 ? r.range(-4,4)/1024. : 0);
			}
			static const char* m[]={ "H.addTranslation","H.addRotation","H.addScale","H.inverse" };
			for( int k=r.range(0,2); k>0; k-- ) on( m[r.below(4)] );
			break;
		}
		case 'D':
		{
			on( "D.make" );
			static const char* m[]={ "D.color","D.thickness","D.pointStyle","D.pointSize","D.showPoints","D.showIndex","D.fontSize","D.attr","D.showAngles","D.selectPoint","D.color2" };
			for( int k=r.range(0,7); k>0; k-- ) on( m[r.below(11)] );
			break;
		}
		case 'I': on( "I.new" ); for( int k=1; k<=2; k++ ) v.back().a[k].num=r.range(20,600); break;
		case 'X':
			on( "X.clear" );
			if( depth<1 )
			{
				static const char* m[]={ "X.add.P","X.add.L","X.add.S","X.add.O","X.add.C","X.add.R","X.add.E","X.add.G","X.add.F" };
				for( int k=r.chance(big*.3) ? r.range(5,30) : r.range(0,4); k>0; k-- )
				{
					POp o=op( m[r.below(9)], bank ); o.a[0].slot=slot;
					if( r.chance(.7) && ( o.a[1].t=='P' || o.a[1].t=='L' ) && r.chance(.8) ) { o=op( "X.add.C", bank ); o.a[0].slot=slot; }
					v.push_back( o );
				}
			}
			break;
	}
	bad=sb;
}
std::set<std::pair<char,int>> objectsOf( const Plan&, const std::vector<POp>& v )
{
	std::set<std::pair<char,int>> s;
	for( auto& o: v ) for( auto& a: o.a ) if( isObj(a.t) ) s.insert( { a.t, a.slot } );
	return s;
}
std::set<std::pair<char,int>> objectsOf( const Plan& p )
{
	std::set<std::pair<char,int>> s;
	for( auto& v: p.prog ) { auto q=objectsOf( p, v ); s.insert( q.begin(), q.end() ); }
	return s;
}
void Gen::setup( Plan& p )
{
	auto objs = objectsOf( p );
	std::vector<POp> lists, v;
	for( auto& o: objs ) if( o.first=='X' ) initObj( lists, 'X', o.second );
	auto more = objectsOf( p, lists );
	objs.insert( more.begin(), more.end() );
	for( auto& o: objs ) if( o.first!='X' ) initObj( v, o.first, o.second );
	v.insert( v.end(), lists.begin(), lists.end() );
	p.prog[0].insert( p.prog[0].begin(), v.begin(), v.end() );
}
std::vector<int> Gen::select( std::function<bool(const OpDesc&,const std::vector<SpecArg>&)> f )
{
	std::vector<int> v;
	for( int i=0; i<u->nops; i++ )
		if( strncmp( u->ops[i].name, "svg.visit", 9 ) && strcmp( u->ops[i].name, "err.burst" ) && !strstr( u->ops[i].name, ".owncopy" ) && ( !strstr( u->ops[i].name, ".raw" ) || strstr( u->ops[i].name, "rawpt" ) || strstr( u->ops[i].name, "rawradius" ) || strstr( u->ops[i].name, "rawcenter" ) ) )
			if( f( u->ops[i], specOf(u,i) ) ) v.push_back( i );
	return v;
}

// ---------------------------------------------------------------- SVG texts
std::string Gen::mutate( std::string s, int n )
{
	static const char* ins[]={ ",", " ", "-", ".", "e", "z", "M", "\"", "<", ">", "&", "/", "0", "9999999999999999999999", "1e999", "nan", "--", "\xff", "#", "(", ")", "\n", "L", "h", "C", "=", "''", "&#0;", "-e5", "Z Z" };
	for( ; n>0; n-- )
	{
		size_t L=s.size(), i=r.below(L+1);
		switch( r.below(9) )
		{
			case 0: s.resize( i ); break;                                        // cut short
			case 1: if( L ) s[i%L] = (char)( s[i%L] ^ (1<<r.below(8)) ); break;   // a flipped bit
			case 2: if( L ) s.erase( i, 1+r.below(12) ); break;                   // lost bytes
			case 3: s.insert( i, ins[r.below(30)] ); break;
			case 4: if( L ) { size_t k=1+r.below(20); s.insert( i, s.substr( r.below(L), k ) ); } break; // repeated block
			case 5: if( L ) s[i%L] = "0123456789 ,.-+eEMmLlHhVvCcSsQqTtAaZz\"'<>/="[r.below(44)]; break;
			case 6: // removes a token
			{
				size_t a=s.find_first_of( " ,\"", i ); if( a==std::string::npos ) break;
				size_t b=s.find_first_of( " ,\"", a+1 ); if( b==std::string::npos ) b=L;
				s.erase( a, b-a );
				break;
			}
			case 7: // empties an attribute
			{
				size_t a=s.find( "=\"", i ); if( a==std::string::npos ) break;
				size_t b=s.find( '"', a+2 ); if( b==std::string::npos ) break;
				s.erase( a+2, b-a-2 );
				break;
			}
			default: // exchanges two blocks
			{
				if( L<8 ) break;
				size_t k=1+r.below(L/4), a=r.below(L-2*k), b=a+k+r.below(L-a-2*k+1);
				for( size_t q=0; q<k; q++ ) std::swap( s[a+q], s[b+q] );
			}
		}
	}
	return s;
}
std::string Gen::pointsData( int damage )
{
	std::string s;
	int n=r.range( damage ? 0 : 2, 7 );
	if( r.chance(big) ) n=r.range( 8, r.chance(.2) ? 1500 : r.chance(.3) ? 300 : 60 );
	bool digits=r.chance(.4);                   // some numbers with many digits
	for( int i=0; i<n; i++ )
	{
		double dn = digits && r.chance(.5) ? 9973. : 10.;
		if( i ) s += r.chance(.7) ? " " : r.chance(.5) ? "  " : "\n ";
		s += num( r.range(0,4000)/dn ) + ( r.chance(.8) ? "," : " " ) + num( r.range(0,4000)/dn );
	}
	if( damage && r.chance(.8) ) s=mutate( s, r.range(1,3) );
	return s;
}
std::string Gen::pathData( int damage )
{
	std::string s;
	bool digits=r.chance(.3);
	auto n=[&]{ double dn = digits && r.chance(.5) ? 9973. : 10.; return num( r.chance(.5) ? r.range(0,300) : r.range(-1000,3000)/dn ); };
	auto pair=[&]{ return n() + ( r.chance(.7) ? "," : " " ) + n(); };
	s = ( damage && r.chance(.06) ? "" : r.chance(.5) ? "M" : "m" ) + std::string( r.chance(.5) ? " " : "" ) + pair();
	int k=r.range( 1, 6 );
	if( r.chance(big) ) k=r.range( 7, r.chance(.3) ? 150 : 40 );
	bool closed=false;
	for( int i=0; i<k; i++ )
	{
		s += r.chance(.9) ? " " : "";
		switch( r.below(10) )
		{
			case 0: s += ( r.chance(.5)?"L":"l" ) + pair(); break;
			case 1: s += ( r.chance(.5)?"H":"h" ) + n(); break;
			case 2: s += ( r.chance(.5)?"V":"v" ) + n(); break;
			case 3: s += ( r.chance(.5)?"L ":"l " ) + pair() + " " + pair(); break;
			case 4: s += ( r.chance(.5)?"C ":"c " ) + pair() + " " + pair() + " " + pair(); break;
			case 5: s += ( r.chance(.5)?"S ":"s " ) + pair() + " " + pair(); break;
			case 6: s += ( r.chance(.5)?"Q ":"q " ) + pair() + " " + pair(); break;
			case 7: s += ( r.chance(.5)?"T ":"t " ) + pair(); break;
			case 8: if( damage ) { s += ( r.chance(.5)?"A ":"a " ) + pair() + " 0 0 1 " + pair(); break; } // fallthrough
			default: s += pair(); break;
		}
		if( i==k-1 && r.chance(.5) ) { s += r.chance(.5) ? " z" : "Z"; closed=true; }
	}
	(void)closed;
	if( damage && r.chance(.8) ) s=mutate( s, r.range(1,3) );
	return s;
}
std::string Gen::svgElement( int damage )
{
	auto q=[&]( const char* n, double v ) { return std::string(" ")+n+"=\""+num(v)+"\""; };
	auto c=[&]{ return r.range(0,4000)/10.; };
	std::string s;
	switch( r.below( damage ? 12 : 8 ) )
	{
		case 0: s = "<circle"+q("cx",c())+q("cy",c())+q("r",r.range(1,100))+"/>"; break;
		case 1: s = "<rect"+q("x",c())+q("y",c())+q("width",r.range(1,100))+q("height",r.range(1,100))+"/>"; break;
		case 2: s = "<line"+q("x1",c())+q("y1",c())+q("x2",c()+1000)+q("y2",c())+"/>"; break;
		case 3: s = "<polygon points=\""+pointsData(0)+"\"/>"; break;
		case 4: s = "<polyline points=\""+pointsData(0)+"\"/>"; break;
		case 5: s = "<ellipse"+q("cx",c())+q("cy",c())+q("rx",r.range(1,100))+q("ry",r.range(1,100))+( r.chance(.5) ? " transform=\"rotate("+num(r.range(-90,90))+","+num(c())+","+num(c())+")\"" : "" )+"/>"; break;
		case 6: case 7: s = "<path d=\""+pathData( r.chance(.1) ? 1 : 0 )+"\"/>"; break;
		case 8: s = "<text x=\"5\" y=\"6\">abc</text>"; break;
		case 9: s = "<g>"+svgElement(0)+"</g>"; break;
		case 10: s = "<foo bar=\"1\"/>"; break;
		default: s = "<!-- comment -->"; break;
	}
	if( damage )
	{
		if( r.chance(.3) )       // one attribute lost
		{
			size_t a=s.find( ' ' ), n=0;
			std::vector<size_t> pos; while( a!=std::string::npos && n++<8 ) { if( s.find('=',a)!=std::string::npos ) pos.push_back(a); a=s.find( ' ', a+1 ); }
			if( !pos.empty() )
			{
				size_t b=pos[r.below(pos.size())], e=s.find( '"', b ); if( e!=std::string::npos ) e=s.find( '"', e+1 );
				if( e!=std::string::npos ) s.erase( b, e-b+1 );
			}
		}
		else if( r.chance(.3) )       // path or points replaced by damaged ones
		{
			size_t a=s.find( " d=\"" ); size_t o=4;
			if( a==std::string::npos ) { a=s.find( " points=\"" ); o=9; }
			if( a!=std::string::npos )
			{
				size_t e=s.find( '"', a+o );
				std::string d = o==4 ? pathData(1) : pointsData(1), f;
				for( char x: d ) if( x!='"' && x!='<' && x!='&' ) f+=x;
				s.replace( a+o, e-a-o, f );
			}
		}
		else // an attribute value replaced
		{
			static const char* bad[]={ "", "abc", "-5", "0", "1e400", "nan", "12px", " 3 ", "1,5", "rotate(", "rotate()", "rotate(1)", "rotate(1,2)", "rotate(a,b,c)", "M", "z", "M 1", "M 1,2", "L 3,4", "1", "1,2", "1,2 3", ",", " " };
			std::vector<size_t> pos; size_t a=s.find( "=\"" );
			while( a!=std::string::npos ) { pos.push_back(a); a=s.find( "=\"", a+2 ); }
			if( !pos.empty() )
			{
				size_t b=pos[r.below(pos.size())], e=s.find( '"', b+2 );
				if( e!=std::string::npos ) s.replace( b+2, e-b-2, bad[r.below(24)] );
			}
		}
	}
	return s;
}
std::string Gen::svgDoc( int damage )
{
	std::string s="<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n";
	if( r.chance(.3) ) s="";
	std::string w=num(r.range(1,900)), h=num(r.range(1,900));
	s += "<svg version=\"1.1\" width=\""+w+"\" height=\""+h+"\" xmlns=\"http://www.w3.org/2000/svg\">\n";
	int n=r.range( 0, 6 );
	if( r.chance(big) ) { n=r.range( 7, r.chance(.2) ? 200 : 40 ); }
	double sb=big; if( n>6 ) big=.02;
	for( int i=0; i<n; i++ )
	{
		bool g=r.chance(.15);
		if( g ) s+="<g>\n";
		s += svgElement( damage && r.chance(.5) ) + "\n";
		if( g ) s+="</g>\n";
	}
	big=sb;
	s += "</svg>\n";
	if( damage && r.chance(.5) ) s=mutate( s, r.range(1,4) );
	if( damage && r.chance(.03) ) s="";
	return s;
}

// ---------------------------------------------------------------- perturbation
Plan perturb( const Plan& p, double rel, Rng& r )
{
	Plan q=p;
	auto f=[&]( double x ) { double e=(r.unit()-.5)*2; return x + e*rel*( std::fabs(x) + 1 ); };
	for( auto& v: q.prog )
		for( auto& o: v )
			for( auto& a: o.a )
			{
				if( a.t=='x' || a.t=='r' || a.t=='s' || a.t=='a' ) a.num = f( a.num );
				else if( a.t=='w' )
				{
					for( size_t i=0; i+10<=a.str.size(); i+=10 )
					{
						long double x=0; memcpy( &x, a.str.data()+i, 10 );
						if( x!=1 ) { x = f( (double)x ); memcpy( &a.str[i], &x, 10 ); }
					}
				}
				else if( a.t=='v' )
				{
					std::string s; const char* c=a.str.c_str(); char* e;
					for(;;)
					{
						double x=strtod( c, &e ); if( e==c ) break; c=e; if( *c==',' ) c++;
						double y=strtod( c, &e ); if( e==c ) break; c=e;
						char b[80]; snprintf( b, sizeof b, "%.13e,%.13e", f(x), f(y) );
						if( !s.empty() ) s+=' ';
						s+=b;
					}
					a.str=s;
				}
			}
	return q;
}
double scaleOf( const Plan& p )
{
	double m=1;
	for( auto& v: p.prog ) for( auto& o: v ) for( auto& a: o.a )
	{
		if( a.t=='x' || a.t=='r' ) m=std::max( m, std::fabs(a.num) );
		else if( a.t=='v' )
		{
			const char* c=a.str.c_str(); char* e;
			while( *c ) { double x=strtod( c, &e ); if( e==c ) c++; else { m=std::max(m,std::fabs(x)); c=e; } }
		}
	}
	return m;
}

// ---------------------------------------------------------------- comparison
bool same( const OpRes& a, const OpRes& b )
{
	if( a.st!=b.st || a.printed!=b.printed || a.tok.size()!=b.tok.size() ) return false;
	for( size_t i=0; i<a.tok.size(); i++ )
	{
		const Tok &x=a.tok[i], &y=b.tok[i];
		if( x.t!=y.t || x.s!=y.s ) return false;
		if( x.t==T_NUM ? memcmp( &x.v, &y.v, 10 ) && !( std::isnan(x.v) && std::isnan(y.v) ) : x.v!=y.v ) return false;
	}
	return true;
}
bool close( const OpRes& a, const OpRes& b, double tol, double scale )
{
	if( a.st!=b.st || a.printed!=b.printed || a.tok.size()!=b.tok.size() ) return false;
	for( size_t i=0; i<a.tok.size(); i++ )
	{
		const Tok &x=a.tok[i], &y=b.tok[i];
		if( x.t!=y.t || x.s!=y.s ) return false;
		if( x.t==T_NUM )
		{
			if( std::isnan(x.v) && std::isnan(y.v) ) continue;
			if( x.v==y.v ) continue;
			if( !( std::fabs(x.v-y.v) <= tol*( std::fabs(x.v)+std::fabs(y.v)+scale ) ) ) return false;
		}
		else if( x.v!=y.v ) return false;
	}
	return true;
}
std::string show( const OpRes& o )
{
	std::string s = stName( o.st );
	if( !o.what.empty() && o.st!=ST_OK ) s += " ("+o.what.substr(0,100)+")";
	s += ":";
	char b[80]; int n=0;
	for( auto& t: o.tok )
	{
		if( n++>40 ) { s+=" ..."; break; }
		switch( t.t )
		{
			case T_NUM: snprintf( b, sizeof b, " %.12Lg", t.v ); s+=b; break;
			case T_INT: snprintf( b, sizeof b, " %.0Lf", t.v ); s+=b; break;
			case T_BOOL: s += t.v!=0 ? " true":" false"; break;
			default: s += " '"+( t.s.size()>400 ? t.s.substr(0,400)+"..." : t.s )+"'";
		}
	}
	if( !o.printed.empty() ) s += " printed '"+o.printed.substr(0,300)+"'";
	return s;
}
} // namespace sim
