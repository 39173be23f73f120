// Operation catalogue: the public API of homog2d as a table of operations on a "world" of objects.
// Compiled once per universe (floating-point type and build options) with memory-access instrumentation.
//
// NUMT: floating-point type; UNI: name of the universe (a string).
#include "api.h"
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <array>
#include <cstring>
#include <clocale>
#include <cfenv>
#include <locale.h>
#include "homog2d.hpp"

namespace sim {
int  simImwrite( const char* name, const void* data, size_t n );
void simPutFile( const char* name, const char* data, size_t n );
}

namespace {
using namespace h2d;
using namespace sim;

using TPt = Point2d_<NUMT>;  using TLn = Line2d_<NUMT>;   using TSg = Segment_<NUMT>;  using TOs = OSegment_<NUMT>;
using TCi = Circle_<NUMT>;   using TRe = FRect_<NUMT>;    using TEl = Ellipse_<NUMT>;
using TCp = CPolyline_<NUMT>; using TOp = OPolyline_<NUMT>;
using THm = Homogr_<NUMT>;
using TVp = std::vector<TPt>;
using TVar = CommonType_<NUMT>;
using TVx = std::vector<TVar>;
using TDp = img::DrawParams;
using ALT = std::conditional_t<std::is_same_v<NUMT,double>,long double,double>;  // another floating-point type, not a shorter one (unless NUMT is the longest)
#ifdef CAT_CV
using TIm = img::Image<cv::Mat>;
#else
using TIm = img::Image<img::SvgImage>;
#endif

constexpr int NS = NBANK*NSLOT;

struct XY { NUMT x=0, y=0; XY() {} XY( NUMT a, NUMT b ): x(a), y(b) {} };
struct World
{
	TPt* P[NS]; TLn* L[NS]; TSg* S[NS]; TOs* O[NS]; TCi* C[NS]; TRe* R[NS]; TEl* E[NS];
	TCp* G[NS]; TOp* F[NS]; THm* H[NS]; TVp* V[NS]; TDp* D[NS]; TIm* I[NS]; TVx* X[NS];
};

void* worldCreate()
{
	World* w = new World;
	for( int k=0; k<NS; k++ )
	{
		int i = simReversed() ? NS-1-k : k;   // the objects are placed in memory in this order
		w->P[i]=new TPt; w->L[i]=new TLn; w->S[i]=new TSg; w->O[i]=new TOs; w->C[i]=new TCi; w->R[i]=new TRe; w->E[i]=new TEl;
		w->G[i]=new TCp; w->F[i]=new TOp; w->H[i]=new THm; w->V[i]=new TVp; w->D[i]=new TDp; w->I[i]=new TIm; w->X[i]=new TVx;
	}
	return w;
}
void worldDestroy( void* p )
{
	World* w = (World*)p;
	for( int i=0; i<NS; i++ )
	{
		delete w->P[i]; delete w->L[i]; delete w->S[i]; delete w->O[i]; delete w->C[i]; delete w->R[i]; delete w->E[i];
		delete w->G[i]; delete w->F[i]; delete w->H[i]; delete w->V[i]; delete w->D[i]; delete w->I[i]; delete w->X[i];
	}
	delete w;
}

// ------------------------------------------------------------------ output of values
inline void out( float v )        { out_num( v ); }
inline void out( double v )       { out_num( v ); }
inline void out( long double v )  { out_num( v ); }
inline void out( bool v )         { out_bool( v ); }
inline void out( int v )          { out_int( v ); }
inline void out( long v )         { out_int( v ); }
inline void out( size_t v )       { out_int( (long)v ); }
inline void out( const std::string& s ) { out_str( s.data(), s.size() ); }
inline void out( const char* s )  { out_str( s ? s : "(null)", s ? strlen(s) : 6 ); }
inline void out( PointSide s )    { out_int( (int)s ); }
inline void out( Type s )         { out_int( (int)s ); }
inline void out( Dtype s )        { out_int( (int)s ); }
inline void out( const img::Color& c ) { out_int( c.r ); out_int( c.g ); out_int( c.b ); }
// points are shown with a unit third coordinate, whatever multiple they are stored as
template<typename T> void outPt( const Point2d_<T>& p )
{
	auto a=p.get();
	if( a[2]!=0 ) { out_num( a[0]/a[2] + 0 ); out_num( a[1]/a[2] + 0 ); out_num( 1 ); }
	else          { out_num( a[0] ); out_num( a[1] ); out_num( a[2] ); }
}
template<typename T> void out( const Point2d_<T>& p )  { out_tag("Point"); outPt(p); }
template<typename T> void out( const Line2d_<T>& p )   { out_tag("Line"); auto a=p.get(); out_num(a[0]); out_num(a[1]); out_num(a[2]); }
template<typename T> void out( const Segment_<T>& s )  { out_tag("Segment"); auto p=s.getPts(); outPt(p.first); outPt(p.second); }
template<typename T> void out( const OSegment_<T>& s ) { out_tag("OSegment"); auto p=s.getPts(); outPt(p.first); outPt(p.second); }
template<typename T> void out( const Circle_<T>& s )   { out_tag("Circle"); outPt(s.center()); out_num(s.radius()); }
template<typename T> void out( const FRect_<T>& s )    { out_tag("FRect"); auto p=s.getPts(); outPt(p.first); outPt(p.second); }
template<typename T> void out( const Ellipse_<T>& s )  { out_tag("Ellipse"); outPt(s.getCenter()); auto m=s.getMajMin(); out_num(m.first); out_num(m.second); out_num(s.angle()); }
template<typename T> void out( const CPolyline_<T>& s ){ out_tag("CPolyline"); const auto& v=s.getPts(); out_int((long)v.size()); for( const auto& p: v ) outPt(p); }
template<typename T> void out( const OPolyline_<T>& s ){ out_tag("OPolyline"); const auto& v=s.getPts(); out_int((long)v.size()); for( const auto& p: v ) outPt(p); }
template<typename T> void out( const Homogr_<T>& h )   { out_tag("Homogr"); for( size_t r=0; r<3; r++ ) for( size_t c=0; c<3; c++ ) out_num( h.value(r,c) ); }
template<typename T> void out( const std::vector<T>& );
template<typename T,size_t N> void out( const std::array<T,N>& );
template<typename T> void out( const std::list<T>& );
template<typename T,typename U> void out( const std::pair<T,U>& );
template<typename T> void out( const detail::Intersect<detail::Inters_1,T>& i ) { out_tag("Inters1"); out_bool(i()); out_int((long)i.size()); if( i() ) out( i.get() ); }
template<typename T> void out( const detail::Intersect<detail::Inters_2,T>& i ) { out_tag("Inters2"); out_bool(i()); out_int((long)i.size()); if( i() ) out( i.get() ); }
template<typename T> void out( const detail::IntersectM<T>& i ) { out_tag("IntersM"); out_bool(i()); out_int((long)i.size()); out( i.get() ); }
template<typename T> void out( const detail::RectArea<T>& i ) { out_tag("RectArea"); out_bool(i()); if( i() ) out( i.get() ); }
template<typename... A> void out( const std::variant<A...>& v ) { std::visit( []( const auto& x ){ out(x); }, v ); }
template<typename T> void out( const std::vector<T>& v ) { out_tag("vector"); out_int((long)v.size()); for( const auto& x: v ) out(x); }
template<typename T> void out( const std::list<T>& v )   { out_tag("list"); out_int((long)v.size()); for( const auto& x: v ) out(x); }
template<typename T,size_t N> void out( const std::array<T,N>& v ) { out_tag("array"); for( const auto& x: v ) out(x); }
template<typename T,typename U> void out( const std::pair<T,U>& p ) { out(p.first); out(p.second); }
inline void out( const TDp& d )
{
	out_tag("DrawParams");
	const auto& v=d._dpValues;
	out( v._color ); out_int(v._lineThickness); out_int(v._pointSize); out_int(v._lineType); out_int(v._ptDelta); out_int((int)v._ptStyle);
	out_bool(v._enhancePoint); out_bool(v._showPoints); out_bool(v._showIndex); out_bool(v._showAngles); out_int(v._fontSize); out(v._attrString);
}

template<typename T> void assignObj( T& a, const T& b ) { a = b; }
template<typename T> void assignObj( std::vector<T>& a, const std::vector<T>& b ) { std::vector<T> t( b ); a.swap( t ); }  // not code under test

// ------------------------------------------------------------------ arguments
#define W (*(World*)c.world)
#define o_P(k) (*W.P[c.a[k].slot])
#define o_L(k) (*W.L[c.a[k].slot])
#define o_S(k) (*W.S[c.a[k].slot])
#define o_O(k) (*W.O[c.a[k].slot])
#define o_C(k) (*W.C[c.a[k].slot])
#define o_R(k) (*W.R[c.a[k].slot])
#define o_E(k) (*W.E[c.a[k].slot])
#define o_G(k) (*W.G[c.a[k].slot])
#define o_F(k) (*W.F[c.a[k].slot])
#define o_H(k) (*W.H[c.a[k].slot])
#define o_V(k) (*W.V[c.a[k].slot])
#define o_D(k) (*W.D[c.a[k].slot])
#define o_I(k) (*W.I[c.a[k].slot])
#define o_X(k) (*W.X[c.a[k].slot])
#define cP(k) ((const TPt&)o_P(k))
#define cL(k) ((const TLn&)o_L(k))
#define cS(k) ((const TSg&)o_S(k))
#define cO(k) ((const TOs&)o_O(k))
#define cC(k) ((const TCi&)o_C(k))
#define cR(k) ((const TRe&)o_R(k))
#define cE(k) ((const TEl&)o_E(k))
#define cG(k) ((const TCp&)o_G(k))
#define cF(k) ((const TOp&)o_F(k))
#define cH(k) ((const THm&)o_H(k))
#define cV(k) ((const TVp&)o_V(k))
#define cD(k) ((const TDp&)o_D(k))
#define cI(k) ((const TIm&)o_I(k))
#define cX(k) ((const TVx&)o_X(k))
#define N(k)  ((NUMT)c.a[k].num)
#define K(k)  ((int)c.a[k].num)
#define Z(k)  ((size_t)c.a[k].num)
#define B(k)  (c.a[k].num!=0.)
#define TXT(k) std::string( c.a[k].str, c.a[k].len )

// list of coordinates "x,y x,y ...": plain numbers, parsed without the C library
struct CoordList
{
	const char *p,*e;
	CoordList( const Arg& a ): p(a.str), e(a.str+a.len) {}
	bool num( double& v )
	{
		while( p<e && ( *p==' ' || *p==',' ) ) p++;
		if( p>=e ) return false;
		bool neg=false; if( *p=='-' ) { neg=true; p++; }
		double x=0, f=1; bool dot=false; int ex=0;
		while( p<e && *p!=' ' && *p!=',' )
		{
			if( *p=='.' ) dot=true;
			else if( *p=='e' ) { p++; bool en=false; if( p<e && *p=='-' ) { en=true; p++; } else if( p<e && *p=='+' ) p++; while( p<e && *p>='0' && *p<='9' ) ex=ex*10+(*p++-'0'); if( en ) ex=-ex; continue; }
			else { x=x*10+(*p-'0'); if( dot ) f*=10; }
			p++;
		}
		v = x/f; while( ex>0 ) { v*=10; ex--; } while( ex<0 ) { v/=10; ex++; }
		if( neg ) v=-v;
		return true;
	}
};
TVp coords( const Arg& a )
{
	TVp v; CoordList cl(a); double x,y;
	while( cl.num(x) && cl.num(y) ) v.push_back( TPt(x,y) );
	return v;
}
// exact values, 10 bytes each
struct Raw
{
	const char *p,*e;
	Raw( const Arg& a ): p(a.str), e(a.str+a.len) {}
	NUMT num() { long double v=0; if( p+10<=e ) { memcpy( &v, p, 10 ); p+=10; } return (NUMT)v; }
	TPt  pt()  { NUMT x=num(), y=num(), w=num(); return w==1 ? TPt( x, y ) : TPt( x, y, w ); }
	TVp  pts() { TVp v; while( p+30<=e ) v.push_back( pt() ); return v; }
};

inline Rotate rotOf( int k ) { switch( k&7 ) { case 0: return Rotate::CCW; case 1: return Rotate::CW; case 2: return Rotate::Full; case 3: return Rotate::VMirror; default: return Rotate::HMirror; } }
inline GivenCoord gcOf( bool b ) { return b ? GivenCoord::X : GivenCoord::Y; }
inline CardDir cdOf( int k ) { switch( k&3 ) { case 0: return CardDir::Top; case 1: return CardDir::Bottom; case 2: return CardDir::Left; default: return CardDir::Right; } }
inline img::PtStyle psOf( int k ) { return (img::PtStyle)( k % 6 ); }

#define Q(name,spec,flags,...) { name, spec, flags, []( Ctx& c ) { (void)c; __VA_ARGS__; } },
#ifdef CAT_SECOND   // used in the first source file only: what it instantiates meets code instantiated in the second one
#define Q1(name,spec,flags,...) { name, spec, flags, nullptr },
#else
#define Q1 Q
#endif
#define QRY(name,spec,...)  Q( name, spec, F_QUERY, out( __VA_ARGS__ ) )
#define MOD(name,spec,...)  Q( name, spec, F_MOD, __VA_ARGS__ )
#define FAC(name,spec,...)  Q( name, spec, F_MOD|F_FACTORY|F_IDEM, __VA_ARGS__ )

#define INSIDE(A,B)  QRY( #A ".isInside." #B, #A #B, c##A(0).isInside( c##B(1) ) )
#define INTER(A,B)   QRY( #A ".intersects." #B, #A #B, c##A(0).intersects( c##B(1) ) )
#define FGETBB2(A,B) QRY( "getBB." #A "." #B, #A #B, getBB( c##A(0), c##B(1) ) )

// operations every type has
#define COMMON(A,T) \
	Q( #A ".dump", #A, F_OBS, out( c##A(0) ) ) \
	Q( #A ".copyctor", #A, F_QUERY, T t( c##A(0) ); out( t ) ) \
	Q( #A ".assign", "*" #A #A, F_MOD|F_FACTORY|F_IDEM, assignObj( o_##A(0), c##A(1) ) ) \
	Q( #A ".moveassign", "*" #A "*" #A, F_MOD, if( &o_##A(0)!=&o_##A(1) ) { T t( c##A(1) ); o_##A(0) = std::move( t ); } ) \
	Q( #A ".swap", "*" #A "*" #A, F_MOD, std::swap( o_##A(0), o_##A(1) ) )
// the same figure, built anew from its points, starting with another one and in the other direction; false if it passes
// twice through a point (then its normal form is not unique)
template<typename T> bool rebuilt( const T& g, long k, T& res )
{
	TVp v( g.getPts() );
	if( v.empty() ) return false;
	for( size_t i=0; i<v.size(); i++ ) for( size_t j=0; j<i; j++ ) if( v[i]==v[j] ) return false;
	size_t n=(size_t)( k<0 ? -k : k );
	if( res.isClosed() ) std::rotate( v.begin(), v.begin() + n/2%v.size(), v.end() );
	if( n & 1 ) std::reverse( v.begin(), v.end() );
	T t( v );
	res = t;
	return true;
}
// conversion to another floating-point type and back
#define CONV(A,TPL) \
	Q( #A ".conv", #A, F_QUERY, TPL<ALT> t( c##A(0) ); out( t ); TPL<NUMT> u( t ); out( u ) )
#define SHAPE(A,T) COMMON(A,T) \
	QRY( #A ".==", #A #A, c##A(0) == c##A(1) ) \
	QRY( #A ".!=", #A #A, c##A(0) != c##A(1) ) \
	QRY( #A ".type", #A, c##A(0).type() ) \
	QRY( #A ".dtype", #A, c##A(0).dtype() ) \
	QRY( #A ".dsize", #A, c##A(0).dsize() ) \
	QRY( #A ".size", #A, c##A(0).size() ) \
	QRY( #A ".length", #A, c##A(0).length() ) \
	QRY( #A ".area", #A, c##A(0).area() ) \
	QRY( "length." #A, #A, length( c##A(0) ) ) \
	QRY( "area." #A, #A, area( c##A(0) ) ) \
	QRY( "type." #A, #A, std::string( getString( type( c##A(0) ) ) ) ) \
	QRY( "dtype." #A, #A, std::string( getString( dtype( c##A(0) ) ) ) ) \
	QRY( "size." #A, #A, (double)size( c##A(0) ) ) \
	QRY( "dsize." #A, #A, dsize( c##A(0) ) ) \
	Q( "print." #A, #A, F_PRINT, *c.os << c##A(0) ) \
	Q( #A ".draw", "*I" #A "D", F_MOD|F_DRAW, c##A(1).draw( o_I(0), cD(2) ) ) \
	Q( "draw." #A, "*I" #A "D", F_MOD|F_DRAW, draw( o_I(0), c##A(1), cD(2) ) ) \
	Q( "I.draw." #A, "*I" #A "D", F_MOD|F_DRAW, o_I(0).draw( c##A(1), cD(2) ) ) \
	Q( "I.drawdef." #A, "*I" #A, F_MOD|F_DRAW, o_I(0).draw( c##A(1) ) ) \
	RTP(A) \
	QRY( "variant." #A, #A, ( [&]{ TVar v( c##A(0) ); return std::make_pair( (double)length(v), (double)area(v) ); }() ) ) \
	QRY( "varsize." #A, #A, ( [&]{ TVar v( c##A(0) ); return std::make_pair( (double)size(v), std::string( getString( type(v) ) ) ); }() ) ) \
	QRY( "getBBvar." #A, #A, ( [&]{ TVar v( c##A(0) ); return std::visit( fct::BBFunct{}, v ); }() ) ) \
	Q( "transform." #A, "H" #A, F_QUERY, TVar v( c##A(1) ); out( transform( cH(0), v ) ) ) \
	Q( "X.add." #A, "*X" #A, F_MOD, o_X(0).push_back( TVar( c##A(1) ) ) )
#ifdef HOMOG2D_ENABLE_PRTP
#define RTP(A) \
	Q( "root." #A, #A, F_QUERY, const rtp::Root* r=&c##A(0); out( r->length() ); out( r->area() ); out( r->type() ); out( r->size() ) ) \
	Q( "root.draw." #A, "*I" #A "D", F_MOD|F_DRAW, const rtp::Root* r=&c##A(1); r->draw( o_I(0), cD(2) ) ) \
	Q( "root.print." #A, #A, F_PRINT, const rtp::Root* r=&c##A(0); *c.os << *r )
#else
#define RTP(A)
#endif
#define MOVES(A) \
	MOD( #A ".translate", "*" #A "xx", o_##A(0).translate( N(1), N(2) ) ) \
	MOD( #A ".translatep", "*" #A "xx", o_##A(0).translate( std::make_pair( N(1), N(2) ) ) ) \
	MOD( "translate." #A, "*" #A "xx", translate( o_##A(0), N(1), N(2) ) ) \
	MOD( "translatep." #A, "*" #A "xx", translate( o_##A(0), std::make_pair( N(1), N(2) ) ) ) \
	Q( #A ".moveTo", "*" #A "P", F_MOD|F_IDEM, o_##A(0).moveTo( cP(1) ) ) \
	Q( "moveTo." #A, "*" #A "P", F_MOD|F_IDEM, moveTo( o_##A(0), cP(1) ) )
#define MOVEXY(A) \
	Q( #A ".moveToxy", "*" #A "xx", F_MOD|F_IDEM, o_##A(0).moveTo( N(1), N(2) ) ) \
	Q( "moveToxy." #A, "*" #A "xx", F_MOD|F_IDEM, moveTo( o_##A(0), N(1), N(2) ) )
#define POLY(A,T) \
	QRY( #A ".isClosed", #A, c##A(0).isClosed() ) \
	QRY( #A ".isSimple", #A, c##A(0).isSimple() ) \
	QRY( #A ".getBB", #A, c##A(0).getBB() ) \
	QRY( #A ".centroid", #A, c##A(0).centroid() ) \
	QRY( #A ".nbSegs", #A, c##A(0).nbSegs() ) \
	QRY( #A ".getTm", #A, c##A(0).getTmPoint() ) \
	QRY( #A ".getBm", #A, c##A(0).getBmPoint() ) \
	QRY( #A ".getLm", #A, c##A(0).getLmPoint() ) \
	QRY( #A ".getRm", #A, c##A(0).getRmPoint() ) \
	QRY( "getTm." #A, #A, getTmPoint( c##A(0) ) ) \
	QRY( "getBm." #A, #A, getBmPoint( c##A(0) ) ) \
	QRY( "getLm." #A, #A, getLmPoint( c##A(0) ) ) \
	QRY( "getRm." #A, #A, getRmPoint( c##A(0) ) ) \
	QRY( "extreme." #A, #A "k", getExtremePoint( cdOf(K(1)), c##A(0) ) ) \
	QRY( #A ".isConvex", #A, c##A(0).isConvex() ) \
	QRY( "isConvex." #A, #A, isConvex( c##A(0) ) ) \
	QRY( "isSimple." #A, #A, isSimple( c##A(0) ) ) \
	QRY( "nbSegs." #A, #A, nbSegs( c##A(0) ) ) \
	QRY( "getSegs." #A, #A, getSegs( c##A(0) ) ) \
	QRY( #A ".getOSegs", #A, c##A(0).getOSegs() ) \
	QRY( #A ".getSegs", #A, c##A(0).getSegs() ) \
	QRY( #A ".getPoint", #A "i", c##A(0).getPoint( Z(1) ) ) \
	QRY( #A ".getSegment", #A "i", c##A(0).getSegment( Z(1) ) ) \
	QRY( #A ".getOSegment", #A "i", c##A(0).getOSegment( Z(1) ) ) \
	QRY( #A ".convexHull", #A, c##A(0).convexHull() ) \
	QRY( "convexHull." #A, #A, convexHull( c##A(0) ) ) \
	QRY( #A ".getBisectorLines", #A, c##A(0).getBisectorLines() ) \
	QRY( "getBisectorLines." #A, #A, getBisectorLines( c##A(0) ) ) \
	QRY( "getPts." #A, #A, c##A(0).getPts() ) \
	QRY( "centroid." #A, #A, centroid( c##A(0) ) ) \
	Q( #A ".clear", "*" #A, F_MOD|F_FACTORY|F_IDEM, o_##A(0).clear() ) \
	MOD( #A ".rotate", "*" #A "k", o_##A(0).rotate( rotOf(K(1)) ) ) \
	MOD( #A ".rotatep", "*" #A "kP", o_##A(0).rotate( rotOf(K(1)), cP(2) ) ) \
	MOD( "rotate." #A, "*" #A "k", rotate( o_##A(0), rotOf(K(1)) ) ) \
	MOD( "rotatep." #A, "*" #A "kP", rotate( o_##A(0), rotOf(K(1)), cP(2) ) ) \
	MOD( #A ".minimize", "*" #A, o_##A(0).minimize() ) \
	FAC( #A ".make", "*" #A "v", T t( coords(c.a[1]) ); o_##A(0) = t ) \
	Q( #A ".setv", "*" #A "v", F_MOD|F_FACTORY|F_IDEM, o_##A(0).set( coords(c.a[1]) ) ) \
	Q( #A ".setV", "*" #A "V", F_MOD|F_FACTORY|F_IDEM, o_##A(0).set( cV(1) ) ) \
	Q( #A ".setlist", "*" #A "V", F_MOD|F_FACTORY|F_IDEM, std::list<TPt> l( cV(1).begin(), cV(1).end() ); o_##A(0).set( l ) ) \
	QRY( #A ".applyH", #A "H", cH(1) * c##A(0) ) \
	QRY( "getBB." #A, #A, getBB( c##A(0) ) ) \
	QRY( "closest." #A ".G", #A "G", ( [&]{ auto r=getClosestPoints( c##A(0), cG(1) ); return std::make_pair( std::make_pair( r.getPoints(), r.getMinDist() ), r.getIndexes() ); }() ) ) \
	QRY( "closest." #A ".F", #A "F", ( [&]{ auto r=getClosestPoints( c##A(0), cF(1) ); return std::make_pair( std::make_pair( r.getPoints(), r.getMinDist() ), r.getIndexes() ); }() ) ) \
	Q( #A ".fromList", "*" #A "V", F_MOD|F_FACTORY|F_IDEM, T t( cV(1) ); o_##A(0) = t ) \
	MOD( #A ".rawpt", "*" #A "ixx", auto& v=o_##A(0).getPts(); if( !v.empty() ) v[ Z(1) % v.size() ] = TPt( N(2), N(3) ) ) \
	Q( #A ".same", #A "k", F_NORM|F_CANON, T t; if( rebuilt( c##A(0), K(1), t ) ) { out( c##A(0) == t ); out( t != c##A(0) ); } ) \
	QRY( "draw.empty." #A, #A, c##A(0).size() )

// arguments that are parts of the object itself, and the same call given copies of them
#define OWN(A,name,spec,ref,cpy,...) \
	Q( #A "." name ".own",     spec, F_MOD, ref; __VA_ARGS__ ) \
	Q( #A "." name ".owncopy", spec, F_MOD, cpy; __VA_ARGS__ )
#define OWN_PTS(A,T) const auto& v=c##A(0).getPts(); if( v.empty() ) return; T p=v[Z(1)%v.size()]; T q=v[(Z(1)/2+1)%v.size()]; T r=v[(Z(1)/3+2)%v.size()]; (void)p; (void)q; (void)r
#define OWN_POLY(A,T) \
	OWN( A, "rotatep",  "*" #A "nkP", OWN_PTS(A,const TPt&), OWN_PTS(A,const TPt), o_##A(0).rotate( rotOf(K(2)), p ) ) \
	OWN( A, "rotatep2", "*" #A "nkP", OWN_PTS(A,const TPt&), OWN_PTS(A,const TPt), rotate( o_##A(0), rotOf(K(2)), p ) ) \
	OWN( A, "moveTo",   "*" #A "nkP", OWN_PTS(A,const TPt&), OWN_PTS(A,const TPt), o_##A(0).moveTo( q ) ) \
	OWN( A, "moveTo2",  "*" #A "nkP", OWN_PTS(A,const TPt&), OWN_PTS(A,const TPt), moveTo( o_##A(0), p ) ) \
	OWN( A, "set",      "*" #A, const TVp& v=c##A(0).getPts(), const TVp v( c##A(0).getPts() ), o_##A(0).set( v ) ) \
	OWN( A, "ctor",     "*" #A, const TVp& v=c##A(0).getPts(), const TVp v( c##A(0).getPts() ), o_##A(0) = T( v ) ) \
	OWN( A, "ptmove",   "*" #A "nkP", OWN_PTS(A,const TPt&), OWN_PTS(A,const TPt), auto& w=o_##A(0).getPts(); w[K(2)%w.size()].moveTo( p ) )
#define OWN_CENTER(T) T p=cC(0).center(); (void)p

#define SEG(A,T) \
	QRY( #A ".getBB", #A, c##A(0).getBB() ) \
	QRY( #A ".angle.S", #A "S", c##A(0).getAngle( cS(1) ) ) \
	QRY( #A ".angle.O", #A "O", c##A(0).getAngle( cO(1) ) ) \
	QRY( #A ".angle.L", #A "L", c##A(0).getAngle( cL(1) ) ) \
	QRY( #A ".<", #A #A, c##A(0) < c##A(1) ) \
	QRY( #A ".getPts", #A, c##A(0).getPts() ) \
	QRY( #A ".getParallelSegs", #A "r", c##A(0).getParallelSegs( N(1) ) ) \
	QRY( #A ".getOrthogPts", #A, c##A(0).getOrthogPts() ) \
	QRY( #A ".getOrthogSegs", #A, c##A(0).getOrthogSegs() ) \
	QRY( #A ".getLine", #A, c##A(0).getLine() ) \
	QRY( #A ".split", #A, c##A(0).split() ) \
	QRY( "split." #A, #A, split( c##A(0) ) ) \
	QRY( #A ".distTo.P", #A "P", c##A(0).distTo( cP(1) ) ) \
	Q( #A ".distTo2", #A "P", F_QUERY, int k=7; out( c##A(0).distTo( cP(1), &k ) ); out( k ) ) \
	QRY( #A ".isParallelTo.L", #A "L", c##A(0).isParallelTo( cL(1) ) ) \
	QRY( #A ".getCenter", #A, c##A(0).getCenter() ) \
	QRY( #A ".getBisector", #A, c##A(0).getBisector() ) \
	QRY( #A ".applyH", #A "H", cH(1) * c##A(0) ) \
	QRY( #A ".xS", #A "S", c##A(0) * cS(1) ) \
	FAC( #A ".make", "*" #A "xxxx", o_##A(0) = T( N(1), N(2), N(3), N(4) ) ) \
	FAC( #A ".makep", "*" #A "PP", o_##A(0) = T( cP(1), cP(2) ) ) \
	FAC( #A ".set", "*" #A "PP", o_##A(0).set( cP(1), cP(2) ) ) \
	FAC( #A ".setpair", "*" #A "PP", o_##A(0).set( std::make_pair( cP(1), cP(2) ) ) ) \
	FAC( #A ".setx", "*" #A "xxxx", o_##A(0).set( N(1), N(2), N(3), N(4) ) ) \
	INSIDE(A,C) INSIDE(A,R) INSIDE(A,E) INSIDE(A,G) INSIDE(A,F) \
	INTER(A,L) INTER(A,O) INTER(A,C) INTER(A,R) INTER(A,G) INTER(A,F)

std::string imgText( const TIm& im )
{
#ifdef CAT_CV
	Pause p;
	const cv::Mat& m = im.getReal();
	std::string t = std::to_string( m.cols )+"x"+std::to_string( m.rows )+":";
	uint64_t h=1469598103934665603ull;
	for( int r=0; r<m.rows; r++ ) for( size_t i=0; i<m.cols*m.elemSize(); i++ ) h=( h^m.ptr( r )[i] )*1099511628211ull;
	return t+std::to_string( h );
#else
	std::ostringstream s;
	s.exceptions( std::ios::badbit|std::ios::failbit );
	s.imbue( std::locale::classic() );
	s << im;
	return s.str();
#endif
}

void dumpSettings()
{
	out( thr::nullDistance() ); out( thr::nullOrthogDistance() ); out( thr::nullAngleValue() ); out( thr::nullDenom() ); out( thr::nullDeter() );
	out( err::printWarnings() );
	out( TDp() );
	std::ostringstream s; s << 1234567.5 << ' ' << true; out( s.str() + ' ' + setlocale( LC_ALL, nullptr ) + ( uselocale( (locale_t)0 )==LC_GLOBAL_LOCALE ? "" : " thread locale" ) + ' ' + std::to_string( fegetround() ) );   // the locales, and the rounding mode
}
void resetSettings() {}

OpDesc g_ops[] = {
// ------------------------------------------------------------------ objects from exact values
FAC( "P.raw", "*Pw", Raw r( c.a[1] ); o_P(0) = r.pt() )
FAC( "L.raw", "*Lw", Raw r( c.a[1] ); NUMT a=r.num(), b=r.num(), d=r.num(); o_L(0) = TLn( a, b, d ) )
FAC( "S.raw", "*Sw", Raw r( c.a[1] ); TPt p=r.pt(), q=r.pt(); o_S(0) = TSg( p, q ) )
FAC( "O.raw", "*Ow", Raw r( c.a[1] ); TPt p=r.pt(), q=r.pt(); o_O(0) = TOs( p, q ) )
FAC( "C.raw", "*Cw", Raw r( c.a[1] ); TPt p=r.pt(); o_C(0) = TCi( p, r.num() ) )
FAC( "R.raw", "*Rw", Raw r( c.a[1] ); TPt p=r.pt(), q=r.pt(); o_R(0) = TRe( p, q ) )
FAC( "E.raw", "*Ew", Raw r( c.a[1] ); TPt p=r.pt(); NUMT a=r.num(), b=r.num(), g=r.num(); o_E(0) = TEl( p, a, b, g ) )
FAC( "G.raw", "*Gw", Raw r( c.a[1] ); TVp v=r.pts(); TCp t; t.set( v ); o_G(0) = t )
FAC( "F.raw", "*Fw", Raw r( c.a[1] ); TVp v=r.pts(); TOp t; t.set( v ); o_F(0) = t )
FAC( "V.raw", "*Vw", Raw r( c.a[1] ); o_V(0) = r.pts() )
FAC( "H.raw", "*Hw", Raw r( c.a[1] ); std::vector<std::vector<NUMT>> v( 3, std::vector<NUMT>(3) ); for( auto& x: v ) for( auto& y: x ) y=r.num(); \
	if( v[2][2]==1 ) o_H(0) = THm( v ); else { THm t; for( size_t i=0; i<3; i++ ) for( size_t j=0; j<3; j++ ) t.set( i, j, v[i][j] ); o_H(0) = t; } )
// ------------------------------------------------------------------ points
SHAPE(P,TPt) MOVES(P)
FAC( "P.make", "*Pxx", o_P(0) = TPt( N(1), N(2) ) )
FAC( "P.make3", "*Pxxs", o_P(0) = TPt( N(1), N(2), N(3) ) )
FAC( "P.set", "*Pxx", o_P(0).set( N(1), N(2) ) )
FAC( "P.set3", "*Pxxs", o_P(0).set( N(1), N(2), N(3) ) )
FAC( "P.fromLines", "*PLL", o_P(0) = TPt( cL(1), cL(2) ) )
FAC( "P.fromXLines", "*PLL", o_P(0) = cL(1) * cL(2) )
FAC( "P.fromArray", "*Pxxs", std::array<NUMT,3> a{{ N(1), N(2), N(3) }}; o_P(0) = TPt( a ) )
FAC( "P.fromVec", "*Pxxs", std::vector<NUMT> a{ N(1), N(2), N(3) }; o_P(0) = TPt( a ) )
FAC( "P.fromVecN", "*Pn", std::vector<NUMT> a( Z(1)%6, (NUMT)2 ); o_P(0) = TPt( a ) )
Q( "P.getPt", "P", F_QUERY, auto t=cP(0).getPt<XY>(); out( t.x ); out( t.y ); auto u=getPt<XY>( cP(0) ); out( u.x ); out( u.y ) )
QRY( "P.getX", "P", cP(0).getX() )
QRY( "P.getY", "P", cP(0).getY() )
QRY( "getX.P", "P", getX( cP(0) ) )
QRY( "getY.P", "P", getY( cP(0) ) )
Q( "P.get", "P", F_QUERY, auto v=cP(0).get(); out( TPt( v[0], v[1], v[2] ) ) )
QRY( "P.isInf", "P", cP(0).isInf() )
QRY( "P.<", "PP", cP(0) < cP(1) )
QRY( "P.distTo.P", "PP", cP(0).distTo( cP(1) ) )
QRY( "P.distTo.L", "PL", cP(0).distTo( cL(1) ) )
QRY( "P.distTo.S", "PS", cP(0).distTo( cS(1) ) )
QRY( "dist.PP", "PP", dist( cP(0), cP(1) ) )
QRY( "P.xP", "PP", cP(0) * cP(1) )
QRY( "P.isInside.PP", "PPP", cP(0).isInside( cP(1), cP(2) ) )
QRY( "P.isInside.circ", "PPr", cP(0).isInside( cP(1), N(2) ) )
INSIDE(P,C) INSIDE(P,R) INSIDE(P,E) INSIDE(P,G) INSIDE(P,F)
QRY( "areCollinear", "PPP", areCollinear( cP(0), cP(1), cP(2) ) )
QRY( "side", "PL", side( cP(0), cL(1) ) )
QRY( "P.applyH", "PH", cH(1) * cP(0) )
QRY( "getSegment.PP", "CC", getSegment( cC(0), cC(1) ) )
// ------------------------------------------------------------------ lines
SHAPE(L,TLn)
MOD( "L.translate", "*Lxx", o_L(0).translate( N(1), N(2) ) )
MOD( "L.translatep", "*Lxx", o_L(0).translate( std::make_pair( N(1), N(2) ) ) )
FAC( "L.make", "*Lxxxx", o_L(0) = TLn( N(1), N(2), N(3), N(4) ) )
FAC( "L.makep", "*LPP", o_L(0) = TLn( cP(1), cP(2) ) )
FAC( "L.make2", "*Lxx", o_L(0) = TLn( N(1), N(2) ) )
FAC( "L.make3", "*Lsss", o_L(0) = TLn( N(1), N(2), N(3) ) )
FAC( "L.set3", "*Lsss", o_L(0).set( N(1), N(2), N(3) ) )
FAC( "L.from1", "*LP", o_L(0) = TLn( cP(1) ) )
FAC( "L.orient", "*Lbx", o_L(0) = TLn( B(1) ? LineDir::H : LineDir::V, N(2) ) )
FAC( "L.orientp", "*LbP", o_L(0) = TLn( B(1) ? LineDir::H : LineDir::V, cP(2) ) )
FAC( "L.xP", "*LPP", o_L(0) = cP(1) * cP(2) )
QRY( "L.get", "L", cL(0).get() )
QRY( "L.xL", "LL", cL(0) * cL(1) )
QRY( "L.getCoord", "Lbx", cL(0).getCoord( gcOf(B(1)), N(2) ) )
QRY( "L.getPoint", "Lbx", cL(0).getPoint( gcOf(B(1)), N(2) ) )
QRY( "L.getPoints", "Lbxr", cL(0).getPoints( gcOf(B(1)), N(2), N(3) ) )
QRY( "L.getPointsP", "LPr", cL(0).getPoints( cP(1), N(2) ) )
QRY( "L.getOrthogLine", "Lbx", cL(0).getOrthogLine( gcOf(B(1)), N(2) ) )
QRY( "L.getOrthogLineP", "LP", cL(0).getOrthogLine( cP(1) ) )
QRY( "L.getRotatedLine", "LPa", cL(0).getRotatedLine( cP(1), N(2) ) )
#ifdef CAT_DEFNUM
QRY( "L.getOrthogSegment", "LP", cL(0).getOrthogSegment( cP(1) ) )
#endif
QRY( "L.getParallelLine", "LP", cL(0).getParallelLine( cP(1) ) )
QRY( "L.getParallelLines", "Lr", cL(0).getParallelLines( N(1) ) )
QRY( "getParallelLines", "Lr", getParallelLines( cL(0), N(1) ) )
QRY( "getParallelDistance", "LL", getParallelDistance( cL(0), cL(1) ) )
QRY( "L.distTo.P", "LP", cL(0).distTo( cP(1) ) )
QRY( "L.isParallelTo.L", "LL", cL(0).isParallelTo( cL(1) ) )
QRY( "L.isParallelTo.S", "LS", cL(0).isParallelTo( cS(1) ) )
QRY( "L.angle.L", "LL", cL(0).getAngle( cL(1) ) )
QRY( "L.angle.S", "LS", cL(0).getAngle( cS(1) ) )
QRY( "areParallel.LL", "LL", areParallel( cL(0), cL(1) ) )
QRY( "areParallel.SL", "SL", areParallel( cS(0), cL(1) ) )
QRY( "getAngle.LL", "LL", getAngle( cL(0), cL(1) ) )
QRY( "getAngle.SS", "SS", getAngle( cS(0), cS(1) ) )
QRY( "getAngle.LS", "LS", getAngle( cL(0), cS(1) ) )
QRY( "getAngle.OO", "OO", getAngle( cO(0), cO(1) ) )
INTER(L,L) INTER(L,S) INTER(L,O) INTER(L,C) INTER(L,R) INTER(L,G) INTER(L,F)
QRY( "L.intersects.PP", "LPP", cL(0).intersects( cP(1), cP(2) ) )
QRY( "L.intersects.Pr", "LPr", cL(0).intersects( cP(1), N(2) ) )
QRY( "L.applyH", "LH", cH(1) * cL(0) )
// ------------------------------------------------------------------ segments
SHAPE(S,TSg) MOVES(S) MOVEXY(S) SEG(S,TSg) INTER(S,S)
QRY( "getPts.S", "S", getPts( cS(0) ) )
QRY( "getLine.S", "S", getLine( cS(0) ) )
QRY( "S.getExtended", "S", cS(0).getExtended() )
QRY( "getExtended.S", "S", getExtended( cS(0) ) )
QRY( "getOrthogSegs.S", "S", getOrthogSegs( cS(0) ) )
QRY( "getOrthogPts.S", "S", getOrthogPts( cS(0) ) )
QRY( "getCenter.S", "S", getCenter( cS(0) ) )
QRY( "getBisector.S", "S", getBisector( cS(0) ) )
QRY( "getParallelSegs.S", "Sr", getParallelSegs( cS(0), N(1) ) )
FAC( "S.fromO", "*SO", o_S(0) = TSg( cO(1) ) )
// ------------------------------------------------------------------ oriented segments
SHAPE(O,TOs) MOVES(O) MOVEXY(O) SEG(O,TOs)
QRY( "O.getVector", "O", cO(0).getVector() )
QRY( "O.getPointAt", "Ox", cO(0).getPointAt( N(1) ) )
QRY( "O.splitd", "Or", cO(0).split( N(1) ) )
QRY( "splitd.O", "Or", split( cO(0), N(1) ) )
QRY( "O.pointSide", "OP", cO(0).getPointSide( cP(1) ) )
Q( "O.neg", "O", F_QUERY, TOs t( cO(0) ); out( -t ) )
// ------------------------------------------------------------------ circles
SHAPE(C,TCi) MOVES(C) MOVEXY(C)
OWN( C, "set1",   "*C",   OWN_CENTER(const TPt&), OWN_CENTER(const TPt), o_C(0).set( p ) )
OWN( C, "moveTo", "*C",   OWN_CENTER(const TPt&), OWN_CENTER(const TPt), o_C(0).moveTo( p ) )
OWN( C, "moveTo2","*C",   OWN_CENTER(const TPt&), OWN_CENTER(const TPt), moveTo( o_C(0), p ) )
OWN( C, "setr",   "*C",   const auto& x=cC(0).radius(), const auto x=cC(0).radius(), o_C(0).set( x ) )
OWN( C, "setpr",  "*Cr",  OWN_CENTER(const TPt&), OWN_CENTER(const TPt), o_C(0).set( p, N(1) ) )
OWN( C, "setpr2", "*C",   OWN_CENTER(const TPt&); const auto& x=cC(0).radius(), OWN_CENTER(const TPt); const auto x=cC(0).radius(), o_C(0).set( p, x ) )
OWN( C, "ctor",   "*C",   OWN_CENTER(const TPt&); const auto& x=cC(0).radius(), OWN_CENTER(const TPt); const auto x=cC(0).radius(), o_C(0) = TCi( p, x ) )
OWN( C, "set2a",  "*CP",  OWN_CENTER(const TPt&), OWN_CENTER(const TPt), o_C(0).set( p, cP(1) ) )
OWN( C, "set2b",  "*CP",  OWN_CENTER(const TPt&), OWN_CENTER(const TPt), o_C(0).set( cP(1), p ) )
OWN( C, "set3a",  "*CPP", OWN_CENTER(const TPt&), OWN_CENTER(const TPt), o_C(0).set( p, cP(1), cP(2) ) )
OWN( C, "set3b",  "*CPP", OWN_CENTER(const TPt&), OWN_CENTER(const TPt), o_C(0).set( cP(1), p, cP(2) ) )
OWN( C, "set3c",  "*CPP", OWN_CENTER(const TPt&), OWN_CENTER(const TPt), o_C(0).set( cP(1), cP(2), p ) )
OWN( C, "trans",  "*C",   const auto& x=cC(0).radius(), const auto x=cC(0).radius(), o_C(0).translate( x, x ) )
FAC( "C.make", "*Cxxr", o_C(0) = TCi( N(1), N(2), N(3) ) )
FAC( "C.makepr", "*CPr", o_C(0) = TCi( cP(1), N(2) ) )
FAC( "C.makep", "*CP", o_C(0) = TCi( cP(1) ) )
FAC( "C.maker", "*Cr", o_C(0) = TCi( N(1) ) )
FAC( "C.make2p", "*CPP", o_C(0) = TCi( cP(1), cP(2) ) )
FAC( "C.make3p", "*CPPP", o_C(0) = TCi( cP(1), cP(2), cP(3) ) )
FAC( "C.set2p", "*CPP", o_C(0).set( cP(1), cP(2) ) )
FAC( "C.set3p", "*CPPP", o_C(0).set( cP(1), cP(2), cP(3) ) )
Q( "C.setc", "*CP", F_MOD|F_IDEM, o_C(0).set( cP(1) ) )
Q( "C.setr", "*Cr", F_MOD|F_IDEM, o_C(0).set( N(1) ) )
FAC( "C.setpr", "*CPr", o_C(0).set( cP(1), N(2) ) )
FAC( "C.setxyr", "*Cxxr", o_C(0).set( N(1), N(2), N(3) ) )
Q1( "C.mec", "*CV", F_MOD|F_FACTORY|F_IDEM|F_RAND|F_MEC, o_C(0).set( cV(1) ) )
Q1( "C.mecctor", "*CV", F_MOD|F_FACTORY|F_IDEM|F_RAND|F_MEC, o_C(0) = TCi( cV(1) ) )
Q1( "C.mecv", "*Cv", F_MOD|F_FACTORY|F_IDEM|F_RAND|F_MEC, o_C(0).set( coords(c.a[1]) ) )
QRY( "C.radius", "C", cC(0).radius() )
QRY( "C.center", "C", cC(0).center() )
QRY( "C.getCenter", "C", cC(0).getCenter() )
QRY( "radius.C", "C", radius( cC(0) ) )
QRY( "center.C", "C", center( cC(0) ) )
QRY( "getCenter.C", "C", getCenter( cC(0) ) )
Q( "C.rawradius", "*Cr", F_MOD|F_IDEM, o_C(0).radius() = N(1) )
Q( "C.rawcenter", "*CP", F_MOD|F_IDEM, center( o_C(0) ) = cP(1) )
QRY( "C.getBB", "C", cC(0).getBB() )
QRY( "getBB.C", "C", getBB( cC(0) ) )
INSIDE(C,C) INSIDE(C,R) INSIDE(C,G) INSIDE(C,F)
QRY( "C.isInside.PP", "CPP", cC(0).isInside( cP(1), cP(2) ) )
INTER(C,L) INTER(C,S) INTER(C,O) INTER(C,C) INTER(C,R) INTER(C,G) INTER(C,F)
QRY( "C.applyH", "CH", cH(1) * cC(0) )
QRY( "getSegment.CC", "CC", getSegment( cC(0), cC(1) ) )
QRY( "getLine.CC", "CC", getLine<NUMT>( cC(0), cC(1) ) )
QRY( "getTanSegs", "CC", getTanSegs( cC(0), cC(1) ) )
// ------------------------------------------------------------------ rectangles
SHAPE(R,TRe)
MOD( "R.translate", "*Rxx", o_R(0).translate( N(1), N(2) ) )
MOD( "R.translatep", "*Rxx", o_R(0).translate( std::make_pair( N(1), N(2) ) ) )
MOD( "translate.R", "*Rxx", translate( o_R(0), N(1), N(2) ) )
FAC( "R.make", "*Rxxxx", o_R(0) = TRe( N(1), N(2), N(3), N(4) ) )
FAC( "R.makep", "*RPP", o_R(0) = TRe( cP(1), cP(2) ) )
FAC( "R.makewh", "*RPrr", o_R(0) = TRe( cP(1), N(2), N(3) ) )
FAC( "R.set", "*RPP", o_R(0).set( cP(1), cP(2) ) )
FAC( "R.setx", "*Rxxxx", o_R(0).set( N(1), N(2), N(3), N(4) ) )
MOD( "R.rotate", "*Rk", o_R(0).rotate( rotOf(K(1)) ) )
MOD( "R.rotatep", "*RkP", o_R(0).rotate( rotOf(K(1)), cP(2) ) )
MOD( "rotate.R", "*Rk", rotate( o_R(0), rotOf(K(1)) ) )
MOD( "rotatep.R", "*RkP", rotate( o_R(0), rotOf(K(1)), cP(2) ) )
QRY( "R.height", "R", cR(0).height() )
QRY( "R.width", "R", cR(0).width() )
QRY( "height.R", "R", height( cR(0) ) )
QRY( "width.R", "R", width( cR(0) ) )
QRY( "R.getBB", "R", cR(0).getBB() )
QRY( "getBB.R", "R", getBB( cR(0) ) )
QRY( "R.getPts", "R", cR(0).getPts() )
QRY( "getPts.R", "R", getPts( cR(0) ) )
QRY( "R.get4Pts", "R", cR(0).get4Pts() )
QRY( "get4Pts.R", "R", get4Pts( cR(0) ) )
QRY( "R.getSegs", "R", cR(0).getSegs() )
QRY( "getSegs.R", "R", getSegs( cR(0) ) )
QRY( "R.getCenter", "R", cR(0).getCenter() )
QRY( "getCenter.R", "R", getCenter( cR(0) ) )
QRY( "R.getBoundingCircle", "R", cR(0).getBoundingCircle() )
QRY( "getBoundingCircle", "R", getBoundingCircle( cR(0) ) )
QRY( "R.getInscribedCircle", "R", cR(0).getInscribedCircle() )
QRY( "getInscribedCircle", "R", getInscribedCircle( cR(0) ) )
QRY( "R.getExtended", "R", cR(0).getExtended() )
QRY( "getExtended.R", "R", getExtended( cR(0) ) )
QRY( "R.getDiagonals", "R", cR(0).getDiagonals() )
QRY( "getDiagonals.R", "R", getDiagonals( cR(0) ) )
QRY( "R.unionArea", "RR", cR(0).unionArea( cR(1) ) )
QRY( "R.intersectArea.get", "RR", cR(0).intersectArea( cR(1) ).get() )
QRY( "LL.inter.get", "LL", cL(0).intersects( cL(1) ).get() )
QRY( "LS.inter.get", "LS", cL(0).intersects( cS(1) ).get() )
QRY( "SS.inter.get", "SS", cS(0).intersects( cS(1) ).get() )
QRY( "LC.inter.get", "LC", cL(0).intersects( cC(1) ).get() )
QRY( "LR.inter.get", "LR", cL(0).intersects( cR(1) ).get() )
QRY( "R.intersectArea", "RR", cR(0).intersectArea( cR(1) ) )
QRY( "unionArea", "RR", unionArea( cR(0), cR(1) ) )
QRY( "intersectArea", "RR", intersectArea( cR(0), cR(1) ) )
QRY( "R.|", "RR", cR(0) | cR(1) )
QRY( "R.&", "RR", cR(0) & cR(1) )
QRY( "IoU", "RR", IoU( cR(0), cR(1) ) )
INSIDE(R,C) INSIDE(R,R) INSIDE(R,E) INSIDE(R,G) INSIDE(R,F)
INTER(R,L) INTER(R,S) INTER(R,O) INTER(R,C) INTER(R,R) INTER(R,G) INTER(R,F)
QRY( "R.applyH", "RH", cH(1) * cR(0) )
// ------------------------------------------------------------------ ellipses
SHAPE(E,TEl) MOVES(E) MOVEXY(E)
FAC( "E.make", "*Exxrra", o_E(0) = TEl( N(1), N(2), N(3), N(4), N(5) ) )
FAC( "E.makep", "*EPrra", o_E(0) = TEl( cP(1), N(2), N(3), N(4) ) )
FAC( "E.fromC", "*EC", o_E(0) = TEl( cC(1) ) )
FAC( "E.fromHC", "*EHC", o_E(0) = cH(1) * cC(2) )
FAC( "E.fromHE", "*EHE", o_E(0) = cH(1) * cE(2) )
// documented to compare coefficients of the matrix, thus depends on its scale, too
Q( "E.isCircle", "E", F_QUERY|F_HIST, out( cE(0).isCircle() ) )
Q( "isCircle.E", "E", F_QUERY|F_HIST, out( isCircle( cE(0) ) ) )
Q( "E.isCircle2", "Er", F_QUERY|F_HIST, out( cE(0).isCircle( N(1) ) ) )
QRY( "E.getCenter", "E", cE(0).getCenter() )
QRY( "getCenter.E", "E", getCenter( cE(0) ) )
QRY( "E.getOBB", "E", cE(0).getOBB() )
QRY( "getOBB.E", "E", getOBB( cE(0) ) )
QRY( "E.getBB", "E", cE(0).getBB() )
QRY( "getBB.E", "E", getBB( cE(0) ) )
QRY( "E.angle", "E", cE(0).angle() )
QRY( "angle.E", "E", angle( cE(0) ) )
QRY( "E.getMajMin", "E", cE(0).getMajMin() )
QRY( "E.getAxisLines", "E", cE(0).getAxisLines() )
QRY( "getAxisLines.E", "E", getAxisLines( cE(0) ) )
QRY( "E.pointIsInside", "EP", cE(0).pointIsInside( cP(1) ) )
QRY( "E.applyH", "EH", cH(1) * cE(0) )
// ------------------------------------------------------------------ polylines
SHAPE(G,TCp) MOVES(G) MOVEXY(G) POLY(G,TCp)
OWN_POLY(G,TCp) OWN_POLY(F,TOp)
OWN( G, "parallelogram", "*Gn", OWN_PTS(G,const TPt&), OWN_PTS(G,const TPt), o_G(0).setParallelogram( p, q, r ) )
INSIDE(G,C) INSIDE(G,R) INSIDE(G,E) INSIDE(G,G)
INTER(G,L) INTER(G,S) INTER(G,C) INTER(G,R) INTER(G,G) INTER(G,F)
FAC( "G.fromR", "*GR", o_G(0) = TCp( cR(1) ) )
FAC( "G.setR", "*GR", o_G(0).set( cR(1) ) )
FAC( "G.parallelogram", "*GPPP", o_G(0).setParallelogram( cP(1), cP(2), cP(3) ) )
Q( "G.regular", "*Grn", F_MOD|F_FACTORY|F_IDEM, out( o_G(0).set( N(1), (size_t)K(2) ) ) )
FAC( "G.regularctor", "*Grn", o_G(0) = TCp( N(1), K(2) ) )
FAC( "G.fromHR", "*GHR", o_G(0) = cH(1) * cR(2) )
FAC( "G.fromHG", "*GHG", o_G(0) = cH(1) * cG(2) )
FAC( "G.hull", "*GV", o_G(0) = convexHull( cV(1) ) )
Q( "G.offset", "Gx", F_NORM, out( cG(0).getOffsetPoly( N(1) ) ) )
Q( "G.offset2", "Gx", F_NORM, OffsetPolyParams p; p._angleSplit=true; out( cG(0).getOffsetPoly( N(1), p ) ) )
SHAPE(F,TOp) MOVES(F) MOVEXY(F) POLY(F,TOp)
INTER(F,L) INTER(F,S) INTER(F,C) INTER(F,R) INTER(F,G) INTER(F,F)
FAC( "F.fromS", "*FS", o_F(0) = TOp( cS(1) ) )
FAC( "F.fromHF", "*FHF", o_F(0) = cH(1) * cF(2) )
FAC( "F.fromO", "*FF", TOp t( cF(1) ); o_F(0) = t )
Q( "G.==F", "GF", F_QUERY, out( cG(0) == cF(1) ) )
Q( "F.==G", "FG", F_QUERY, out( cF(0) == cG(1) ) )
// ------------------------------------------------------------------ transformations
COMMON(H,THm)
QRY( "H.==", "HH", cH(0) == cH(1) )
QRY( "H.!=", "HH", cH(0) != cH(1) )
// equality with the same transformation, built anew from its (scaled) values
Q( "H.same", "Hk", F_QUERY, const THm& h=cH(0); NUMT w=h.value(2,2), f=(NUMT)( 1 << (K(1)&3) ); if( std::fabs( w ) > .01 ) { THm t; for( size_t i=0; i<3; i++ ) for( size_t j=0; j<3; j++ ) t.set( i, j, h.value(i,j)*f ); \
	out( h == t ); out( t != h ); } )
Q( "print.H", "H", F_PRINT, *c.os << cH(0) )
FAC( "H.trans", "*Hxx", o_H(0) = THm( N(1), N(2) ) )
FAC( "H.rot", "*Ha", o_H(0) = THm( N(1) ) )
FAC( "H.setTranslation", "*Hxx", o_H(0).setTranslation( N(1), N(2) ) )
FAC( "H.setRotation", "*Ha", o_H(0).setRotation( N(1) ) )
FAC( "H.setScale", "*Hs", o_H(0).setScale( N(1) ) )
FAC( "H.setScale2", "*Hss", o_H(0).setScale( N(1), N(2) ) )
Q( "err.burst", "n", F_GLOBAL|F_BIG, long k=(long)c.a[0].num, t=0; for( long i=0; i<k; i++ ) { try { TPt p( 1, 1 ), q( 1, 1 ); TLn l( p, q ); (void)l; } catch( const std::runtime_error& ) { t++; } } out( t ) )
OWN( H, "raw", "*H", const auto& a=cH(0).getRaw(), const auto a=cH(0).getRaw(), o_H(0) = THm( a ) )
OWN( H, "val", "*Hii", const auto& a=cH(0).getRaw()[2][2], const auto a=cH(0).getRaw()[2][2], o_H(0).set( Z(1), Z(2), a ) )
OWN( H, "trans", "*H", const auto& a=cH(0).getRaw()[0][2]; const auto& b=cH(0).getRaw()[1][2], const auto a=cH(0).getRaw()[0][2]; const auto b=cH(0).getRaw()[1][2], o_H(0).addTranslation( a, b ) )
OWN( H, "tr2", "*H", const auto& a=cH(0).getRaw()[0][0]; const auto& b=cH(0).getRaw()[1][1], const auto a=cH(0).getRaw()[0][0]; const auto b=cH(0).getRaw()[1][1], o_H(0).setTranslation( a, b ) )
OWN( H, "scale2", "*H", const auto& a=cH(0).getRaw()[0][0]; const auto& b=cH(0).getRaw()[1][1], const auto a=cH(0).getRaw()[0][0]; const auto b=cH(0).getRaw()[1][1], o_H(0).setScale( a, b ) )
OWN( H, "rot", "*H", const auto& a=cH(0).getRaw()[0][1], const auto a=cH(0).getRaw()[0][1], o_H(0).setRotation( a ) )
OWN( H, "addscale2", "*H", const auto& a=cH(0).getRaw()[0][0]; const auto& b=cH(0).getRaw()[1][1], const auto a=cH(0).getRaw()[0][0]; const auto b=cH(0).getRaw()[1][1], o_H(0).addScale( a, b ) )
OWN( H, "addscale", "*Hii", const auto& a=cH(0).getRaw()[Z(1)%3][Z(2)%3], const auto a=cH(0).getRaw()[Z(1)%3][Z(2)%3], o_H(0).addScale( a ) )
OWN( H, "setscale", "*Hii", const auto& a=cH(0).getRaw()[Z(1)%3][Z(2)%3], const auto a=cH(0).getRaw()[Z(1)%3][Z(2)%3], o_H(0).setScale( a ) )
OWN( H, "addrot", "*Hii", const auto& a=cH(0).getRaw()[Z(1)%3][Z(2)%3], const auto a=cH(0).getRaw()[Z(1)%3][Z(2)%3], o_H(0).addRotation( a ) )
OWN( H, "setval", "*Hiiii", const auto& a=cH(0).getRaw()[Z(1)%3][Z(2)%3], const auto a=cH(0).getRaw()[Z(1)%3][Z(2)%3], o_H(0).set( Z(3)%3, Z(4)%3, a ) )
MOD( "H.addTranslation", "*Hxx", o_H(0).addTranslation( N(1), N(2) ) )
MOD( "H.addRotation", "*Ha", o_H(0).addRotation( N(1) ) )
MOD( "H.addScale", "*Hs", o_H(0).addScale( N(1) ) )
MOD( "H.addScale2", "*Hss", o_H(0).addScale( N(1), N(2) ) )
FAC( "H.init", "*H", o_H(0).init() )
MOD( "H.inverse", "*H", o_H(0).inverse() )
Q( "H.transpose", "*H", F_MOD, o_H(0).transpose() )
Q( "H.set", "*Hiis", F_MOD, o_H(0).set( Z(1), Z(2), N(3) ) )
Q( "H.value", "*Hiis", F_MOD, o_H(0).value( Z(1), Z(2) ) = N(3) )
Q( "H.getRaw", "*Hiis", F_MOD, o_H(0).getRaw()[Z(1)%3][Z(2)%3] = N(3) )
FAC( "H.fromVec", "*Hsssssssss", std::vector<std::vector<NUMT>> v{ { N(1),N(2),N(3) }, { N(4),N(5),N(6) }, { N(7),N(8),N(9) } }; o_H(0) = THm( v ) )
FAC( "H.fromArr", "*Hsssssssss", std::array<std::array<NUMT,3>,3> v{{ {{ N(1),N(2),N(3) }}, {{ N(4),N(5),N(6) }}, {{ N(7),N(8),N(9) }} }}; o_H(0) = THm( v ) )
FAC( "H.fromBad", "*Hn", std::vector<std::vector<NUMT>> v( Z(1)%5, std::vector<NUMT>( (Z(1)/5)%5, (NUMT)1 ) ); o_H(0) = THm( v ) )
Q( "H.from4", "*HVV", F_MOD|F_FACTORY|F_IDEM, o_H(0).buildFrom4Points( cV(1), cV(2), BF4P_METHOD ) )
Q( "H.from4m", "*HVVk", F_MOD|F_FACTORY|F_IDEM, o_H(0).buildFrom4Points( cV(1), cV(2), BF4P_METHODK(K(3)) ) )
Q( "H.from4r", "*HRRk", F_MOD|F_FACTORY|F_IDEM, auto a=cR(1).get4Pts(); auto b=cR(2).get4Pts(); std::vector<TPt> v( a.begin(), a.end() ), w( b.begin(), b.end() ); \
	std::rotate( w.begin(), w.begin()+K(3)%4, w.end() ); o_H(0).buildFrom4Points( v, w, BF4P_METHOD ) )
Q( "H.from4p", "*HRPPPP", F_MOD|F_FACTORY|F_IDEM, auto a=cR(1).get4Pts(); std::vector<TPt> v( a.begin(), a.end() ); \
	std::vector<TPt> w{ cP(2), cP(3), cP(4), cP(5) }; o_H(0).buildFrom4Points( v, w, BF4P_METHOD ) )
QRY( "H.get", "Hii", cH(0).getRaw().at( Z(1) ).at( Z(2) ) )
QRY( "H.valuec", "Hii", cH(0).value( Z(1), Z(2) ) )
QRY( "H.determ", "H", cH(0).determ() )
Q( "H.isNormalized", "H", F_HIST, out( cH(0).isNormalized() ) )
Q( "H.normalize", "H", F_NORM|F_IDEM, cH(0).normalize() )
#ifdef CAT_CV
Q( "H.copyTo", "Hk", F_QUERY, cv::Mat m; cH(0).copyTo( m, K(1)%5==4 ? CV_8U : K(1)&1 ? CV_32F : CV_64F ); out( m.rows ); out( m.cols ); \
	for( int i=0; i<9; i++ ) { if( m.type()==CV_32F ) out( m.at<float>(i/3,i%3) ); else out( m.at<double>(i/3,i%3) ); } )
Q( "H.fromMat", "*Hksssssssss", F_MOD|F_FACTORY|F_IDEM, int k=K(1)&15; cv::Mat m( k==15 ? 2 : 3, k==14 ? 4 : 3, k==13 ? CV_8U : k==12 ? CV_64FC2 : (k&1) ? CV_32F : CV_64F, cv::Scalar::all(1) ); \
	if( k<12 ) for( int i=0; i<9; i++ ) { if( k&1 ) m.at<float>(i/3,i%3)=(float)c.a[2+i].num; else m.at<double>(i/3,i%3)=c.a[2+i].num; } \
	if( k&2 ) o_H(0) = THm( m ); else o_H(0) = m )
Q( "R.fromMat", "*Rnn", F_MOD|F_FACTORY|F_IDEM, cv::Mat m( K(1)%20, K(2)%20, CV_8U ); o_R(0) = getFRect<NUMT>( m ) )
Q( "P.cv", "P", F_QUERY, auto i=cP(0).getCvPti(); out( i.x ); out( i.y ); i=getCvPti( cP(0) ); out( i.x ); out( i.y ); \
	auto d=getCvPtd( cP(0) ); out( d.x ); out( d.y ); auto f=getCvPtf( cP(0) ); out( f.x ); out( f.y ); cv::Point2d e( cP(0).getCvPtd() ); out( e.x ); out( e.y ) )
Q( "P.fromCv", "*Pxx", F_MOD|F_FACTORY|F_IDEM, o_P(0) = TPt( cv::Point2d( N(1), N(2) ) ) )
#endif
QRY( "H.xH", "HH", cH(0) * cH(1) )
MOD( "H.x=H", "*HHH", o_H(0) = cH(1) * cH(2) )
QRY( "H.xV", "HV", cH(0) * cV(1) )
Q( "applyTo.V", "H*V", F_MOD, cH(0).applyTo( o_V(1) ) )
// ------------------------------------------------------------------ sets of points
COMMON(V,TVp)
Q( "V.set", "*Vv", F_MOD|F_FACTORY|F_IDEM, o_V(0) = coords( c.a[1] ) )
MOD( "V.push", "*VP", o_V(0).push_back( cP(1) ) )
Q( "print.V", "V", F_PRINT, *c.os << cV(0) )
Q( "print.pairPL", "PL", F_PRINT, *c.os << std::make_pair( cP(0), cL(1) ) )
QRY( "convexHull.V", "V", convexHull( cV(0) ) )
QRY( "getBB.V", "V", getBB( cV(0) ) )
QRY( "getTm.V", "V", getTmPoint( cV(0) ) )
QRY( "getBm.V", "V", getBmPoint( cV(0) ) )
QRY( "getLm.V", "V", getLmPoint( cV(0) ) )
QRY( "getRm.V", "V", getRmPoint( cV(0) ) )
QRY( "extreme.V", "Vk", getExtremePoint( cdOf(K(1)), cV(0) ) )
QRY( "nearest", "PV", findNearestPoint( cP(0), cV(1) ) )
QRY( "farthest", "PV", findFarthestPoint( cP(0), cV(1) ) )
QRY( "nearfar", "PV", findNearestFarthestPoint( cP(0), cV(1) ) )
QRY( "ptsInside.C", "VC", getPtsInside( cV(0), cC(1) ) )
QRY( "ptsInside.R", "VR", getPtsInside( cV(0), cR(1) ) )
QRY( "ptsInside.G", "VG", getPtsInside( cV(0), cG(1) ) )
QRY( "ptsInside.E", "VE", getPtsInside( cV(0), cE(1) ) )
QRY( "getCenters", "SSS", ( [&]{ std::vector<TSg> v{ cS(0), cS(1), cS(2) }; return getCenters( v ); }() ) )
QRY( "getLines", "SSS", ( [&]{ std::vector<TSg> v{ cS(0), cS(1), cS(2) }; return getLines( v ); }() ) )
QRY( "getBB.segs", "SSS", ( [&]{ std::vector<TSg> v{ cS(0), cS(1), cS(2) }; return getBB( v ); }() ) )
QRY( "getBB.rects", "RRR", ( [&]{ std::vector<TRe> v{ cR(0), cR(1), cR(2) }; return getBB( v ); }() ) )
QRY( "getBB.S", "S", getBB( cS(0) ) )
FGETBB2(P,P) FGETBB2(P,C) FGETBB2(C,R) FGETBB2(R,R) FGETBB2(S,C) FGETBB2(S,S) FGETBB2(G,P) FGETBB2(P,G) FGETBB2(G,C) FGETBB2(E,R) FGETBB2(F,G) FGETBB2(C,F) FGETBB2(O,G) FGETBB2(E,S)
QRY( "getBB.pp", "PPPP", getBB( std::make_pair( cP(0), cP(1) ), std::make_pair( cP(2), cP(3) ) ) )
// ------------------------------------------------------------------ lists of objects of any type
COMMON(X,TVx)
Q( "X.clear", "*X", F_MOD|F_FACTORY|F_IDEM, o_X(0).clear() )
QRY( "X.getBB", "X", getBB( cX(0) ) )
QRY( "X.getBBrev", "X", getBB( TVx( cX(0).rbegin(), cX(0).rend() ) ) )
QRY( "X.rawboxes", "X", ( [&]{ std::vector<double> r; for( const auto& e: cX(0) ) try { TVx v(1,e); auto b=getBB( v ).getPts(); for( auto q: { b.first, b.second } ) { r.push_back( (double)q.getX() ); r.push_back( (double)q.getY() ); } } catch( const std::runtime_error& ) {} return r; }() ) )
QRY( "X.attr", "X", ( [&]{ std::vector<double> r; for( const auto& e: cX(0) ) { r.push_back( (double)length(e) ); r.push_back( (double)area(e) ); r.push_back( (double)(int)type(e) ); } return r; }() ) )
QRY( "X.transform", "HX", ( [&]{ TVx r; for( const auto& e: cX(1) ) r.push_back( transform( cH(0), e ) ); return r; }() ) )
Q( "X.draw", "*IXD", F_MOD|F_DRAW, draw( o_I(0), cX(1), cD(2) ) )
// ------------------------------------------------------------------ drawing
COMMON(D,TDp)
Q( "print.D", "D", F_PRINT, *c.os << cD(0) )
FAC( "D.make", "*D", o_D(0) = TDp() )
MOD( "D.color", "*Dccc", o_D(0).setColor( (uint8_t)K(1), (uint8_t)K(2), (uint8_t)K(3) ) )
MOD( "D.color2", "*Dccc", o_D(0).setColor( img::Color( (uint8_t)K(1), (uint8_t)K(2), (uint8_t)K(3) ) ) )
MOD( "D.thickness", "*Dn", o_D(0).setThickness( (uint8_t)K(1) ) )
MOD( "D.pointStyle", "*Dk", o_D(0).setPointStyle( (img::PtStyle)( K(1)%8 ) ) )
MOD( "D.pointSize", "*Dn", o_D(0).setPointSize( (uint8_t)K(1) ) )
MOD( "D.fontSize", "*Dn", o_D(0).setFontSize( 2+K(1) ) )
MOD( "D.showPoints", "*Db", o_D(0).showPoints( B(1) ) )
MOD( "D.showIndex", "*Db", o_D(0).showIndex( B(1) ) )
MOD( "D.showAngles", "*Db", o_D(0).showAngles( B(1) ) )
MOD( "D.selectPoint", "*D", o_D(0).selectPoint() )
MOD( "D.attr", "*Dt", o_D(0).setAttrString( TXT(1) ) )
QRY( "D.getcolor", "D", cD(0).color() )
Q( "print.color", "ccc", F_PRINT, *c.os << img::Color( (uint8_t)K(0), (uint8_t)K(1), (uint8_t)K(2) ) )
Q( "D.setDefault", "D", F_GLOBAL, TDp t( cD(0) ); t.setDefault() )
Q( "D.resetDefault", "", F_GLOBAL, TDp::resetDefault() )
Q( "I.dump", "I", F_OBS, out( imgText( cI(0) ) ) )
Q( "I.size", "I", F_QUERY, out( cI(0).size() ); out( cI(0).cols() ); out( cI(0).rows() ) )
#ifndef CAT_CV
Q( "print.I", "I", F_PRINT, *c.os << cI(0) )
#endif
FAC( "I.new", "*Inn", TIm* p=new TIm( 1+Z(1), 1+Z(2) ); delete W.I[c.a[0].slot]; W.I[c.a[0].slot]=p )
FAC( "I.newdef", "*I", TIm* p=new TIm; delete W.I[c.a[0].slot]; W.I[c.a[0].slot]=p )
Q( "I.setSize", "*Inn", F_MOD|F_IDEM, o_I(0).setSize( 1+Z(1), 1+Z(2) ) )
Q( "I.setSize2", "*Inn", F_MOD|F_IDEM, o_I(0).setSize( std::make_pair( 1+Z(1), 1+Z(2) ) ) )
Q( "I.clear", "*I", F_MOD|F_IDEM, o_I(0).clear() )
Q( "I.clear3", "*Iccc", F_MOD|F_IDEM, o_I(0).clear( (uint8_t)K(1), (uint8_t)K(2), (uint8_t)K(3) ) )
Q( "I.write", "It", F_FILE, cI(0).write( TXT(1) ) )
Q( "I.text", "*IPtD", F_MOD|F_DRAW, o_I(0).drawText( TXT(2), Point2d_<float>( cP(1) ), cD(3) ) )
Q( "drawText", "*IPtD", F_MOD|F_DRAW, drawText( o_I(0), TXT(2), Point2d_<float>( cP(1) ), cD(3) ) )
Q( "draw.V", "*IVD", F_MOD|F_DRAW, draw( o_I(0), cV(1), cD(2) ) )
Q( "draw.Vdef", "*IV", F_MOD|F_DRAW, draw( o_I(0), cV(1) ) )
Q( "draw.Vfunc", "*IVDD", F_MOD|F_DRAW, std::function<TDp(int)> f=[&]( int i ){ return TDp( i&1 ? cD(2) : cD(3) ); }; draw( o_I(0), cV(1), f ) )
Q( "draw.segs", "*ISSD", F_MOD|F_DRAW, std::vector<TSg> v{ cS(1), cS(2) }; draw( o_I(0), v, cD(3) ) )
Q( "draw.segarr", "*ISSD", F_MOD|F_DRAW, std::array<TSg,2> v{{ cS(1), cS(2) }}; draw( o_I(0), v, cD(3) ) )
Q( "draw.circs", "*ICCD", F_MOD|F_DRAW, std::vector<TCi> v{ cC(1), cC(2) }; draw( o_I(0), v, cD(3) ) )
Q( "draw.lines", "*ILLD", F_MOD|F_DRAW, std::vector<TLn> v{ cL(1), cL(2) }; draw( o_I(0), v, cD(3) ) )
Q( "draw.pairSC", "*ISCD", F_MOD|F_DRAW, draw( o_I(0), std::make_pair( cS(1), cC(2) ), cD(3) ) )
Q( "I.draw.pair", "*ISCD", F_MOD|F_DRAW, o_I(0).draw( std::make_pair( cS(1), cC(2) ), cD(3) ) )
Q( "genColors", "n", F_RAND|F_CLOCK, out( img::genRandomColors( Z(0) ) ) )
Q( "genColors2", "ncc", F_RAND|F_CLOCK, out( img::genRandomColors( Z(0), K(1), K(2) ) ) )
// ------------------------------------------------------------------ conversions and mixed floating-point types
CONV(P,Point2d_) CONV(L,Line2d_) CONV(S,Segment_) CONV(O,OSegment_) CONV(C,Circle_) CONV(R,FRect_) CONV(E,Ellipse_) CONV(G,CPolyline_) CONV(F,OPolyline_)
FAC( "C.makexyr", "*Cxxr", o_C(0) = TCi( N(1), N(2), N(3) ) )
FAC( "C.radiusw", "*Cr", radius( o_C(0) ) = N(1) > 0 ? N(1) : (NUMT)1 )
QRY( "mix.P.distTo", "PP", Point2d_<ALT>( cP(0) ).distTo( cP(1) ) )
QRY( "mix.S.inter", "SG", Segment_<ALT>( cS(0) ).intersects( cG(1) ) )
QRY( "mix.C.inter", "CS", Circle_<ALT>( cC(0) ).intersects( cS(1) ) )
QRY( "mix.getBB", "RC", getBB( FRect_<ALT>( cR(0) ), cC(1) ) )
Q( "mix.pts", "V", F_QUERY, auto v=getPts<XY>( cV(0) ); for( const auto& q: v ) { out( q.x ); out( q.y ); } )
Q( "mix.getReal", "I", F_QUERY, const auto& r=cI(0).getReal(); out( (const void*)&r != nullptr ) )
#ifdef HOMOG2D_USE_BOOSTGEOM
// ------------------------------------------------------------------ boost::geometry points and polygons
FAC( "P.fromBg", "*Pxx", o_P(0) = TPt( boost::geometry::model::point<double,2,boost::geometry::cs::cartesian>( c.a[1].num, c.a[2].num ) ) )
FAC( "P.fromBgXy", "*Pxx", o_P(0) = TPt( boost::geometry::model::d2::point_xy<float>( (float)c.a[1].num, (float)c.a[2].num ) ) )
FAC( "P.setBg", "*Pxx", o_P(0).set( boost::geometry::model::point<double,2,boost::geometry::cs::cartesian>( c.a[1].num, c.a[2].num ) ) )
Q( "P.getBg", "P", F_QUERY, auto q=cP(0).getPt<boost::geometry::model::d2::point_xy<NUMT>>(); out( q.x() ); out( q.y() ) )
Q( "V.getBg", "V", F_QUERY, auto v=getPts<boost::geometry::model::d2::point_xy<NUMT>>( cV(0) ); for( const auto& q: v ) { out( q.x() ); out( q.y() ); } )
FAC( "G.fromBg", "*GVb", boost::geometry::model::polygon<boost::geometry::model::d2::point_xy<NUMT>> b; for( const auto& q: cV(1) ) b.outer().emplace_back( q.getX(), q.getY() ); \
	if( B(2) && b.outer().size() ) { auto q=b.outer().front(); b.outer().push_back( q ); } if( b.outer().size() ) o_G(0) = TCp( b ); )
FAC( "F.fromBg", "*FVb", boost::geometry::model::polygon<boost::geometry::model::d2::point_xy<NUMT>> b; for( const auto& q: cV(1) ) b.outer().emplace_back( q.getX(), q.getY() ); \
	if( B(2) && b.outer().size() ) { auto q=b.outer().front(); b.outer().push_back( q ); } if( b.outer().size() ) o_F(0) = TOp( b ); )
#endif
// ------------------------------------------------------------------ intersection objects
Q( "print.interM.CC", "CC", F_PRINT, *c.os << cC(0).intersects( cC(1) ) )
Q( "print.interM.GL", "GL", F_PRINT, *c.os << cG(0).intersects( cL(1) ) )
Q( "print.inter2.LC", "LC", F_PRINT, *c.os << cL(0).intersects( cC(1) ) )
Q( "interM.add", "VPP", F_QUERY, detail::IntersectM<NUMT> m; m.add( cV(0) ); m.add( cP(1) ); out( m ); detail::IntersectM<NUMT> n( m ); n.add( cP(2) ); out( n ) )
// ------------------------------------------------------------------ texts and settings
Q( "names", "k", F_QUERY, out( getString( (img::PtStyle)( K(0)%6 ) ) ); out( getString( (PointSide)( K(0)%3 ) ) ) )
Q( "print.thresholds", "", F_PRINT, thr::printThresholds( *c.os ) )
Q( "thr.dist", "s", F_GLOBAL, thr::nullDistance() = (HOMOG2D_INUMTYPE)( 1e-10 * ( 1 + c.a[0].num*c.a[0].num ) ) )
Q( "thr.orthog", "s", F_GLOBAL, thr::nullOrthogDistance() = (HOMOG2D_INUMTYPE)( 1e-14 * ( 1 + c.a[0].num*c.a[0].num ) ) )
Q( "thr.angle", "s", F_GLOBAL, thr::nullAngleValue() = (HOMOG2D_INUMTYPE)( 1e-3 * ( 1 + c.a[0].num*c.a[0].num ) ) )
Q( "thr.denom", "s", F_GLOBAL, thr::nullDenom() = (HOMOG2D_INUMTYPE)( 1e-10 * ( 1 + c.a[0].num*c.a[0].num ) ) )
Q( "thr.deter", "s", F_GLOBAL, thr::nullDeter() = (HOMOG2D_INUMTYPE)( 1e-15 * ( 1 + c.a[0].num*c.a[0].num ) ) )
Q( "printWarnings", "b", F_GLOBAL, err::printWarnings() = B(0) )
Q( "settings", "", F_OBS, dumpSettings() )
// is a zero radius still refused?
Q( "probe.radius", "", F_OBS, int k=0; try { TCi x( (NUMT)0 ); k=1; } catch( const std::runtime_error& ) { k=2; } out_int( k ); TCi y; k=0; try { y.set( (NUMT)0 ); k=1; } catch( const std::runtime_error& ) { k=2; } out_int( k ) )
#ifdef CAT_SVG
#include "cat_svg.inc"
#endif
};
} // namespace

static sim::Universe g_universe = {
	UNI, g_ops, (int)( sizeof(g_ops)/sizeof(g_ops[0]) ), worldCreate, worldDestroy, dumpSettings, resetSettings,
	[]() -> size_t { return (size_t)err::errorCount(); }, []() -> size_t { return (size_t)err::warningCount(); }
};
#ifdef CAT_SECOND
static struct Reg { Reg() { sim::registerSecond( &g_universe ); } } g_reg;
#else
static struct Reg { Reg() { sim::registerUniverse( &g_universe ); } } g_reg;
#endif
