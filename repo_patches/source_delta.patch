From 9d9981b7f800766b3a71f83f9110e2ba776cb437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:31 +0000
Subject: [PATCH 01/38] fix: comparing ellipses or transformations does not
 modify them

---
 homog2d.hpp | 54 +++++++++++++++++++++++------------------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 69d091c..2f7b32c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1576,6 +1576,26 @@ protected:
 		_isNormalized = true;
 	}
 
+/// Returns true if equal, once both are normalized (done on copies, so that the matrices are unchanged)
+	bool p_isEqual( const Matrix_& other, int r, int c ) const
+	{
+		auto m1 = *this;
+		auto m2 = other;
+		if( !m1._isNormalized )
+			m1.p_normalizeMat( r, c );
+		if( !m2._isNormalized )
+			m2.p_normalizeMat( r, c );
+
+		for( int i=0; i<3; i++ )
+			for( int j=0; j<3; j++ )
+				if( std::fabs(
+					static_cast<HOMOG2D_INUMTYPE>( m1._mdata[i][j] ) - m2._mdata[i][j] )
+					>= thr::nullDeter()
+				)
+					return false;
+		return true;
+	}
+
 /// Divide all elements by the value at (r,c), used for normalization.
 /** No need to check value, done by caller */
 	void p_divideBy( size_t r, size_t c ) const
@@ -1984,21 +2004,7 @@ and if one differs more than the threshold, it will return false
 */
 	bool operator == ( const Hmatrix_& h ) const
 	{
-		auto& data = detail::Matrix_<FPT>::_mdata;
-
-		if( !detail::Matrix_<FPT>::isNormalized() )
-			normalize();
-		if( !h.isNormalized() )
-			h.normalize();
-
-		for( int i=0; i<3; i++ )
-			for( int j=0; j<3; j++ )
-				if( std::fabs(
-					static_cast<HOMOG2D_INUMTYPE>( data[i][j] ) - h.value(i,j) )
-					>= thr::nullDeter()
-				)
-					return false;
-		return true;
+		return this->p_isEqual( h, 2, 2 );
 	}
 
 /// Comparison operator. Does normalization if required
@@ -2356,21 +2362,7 @@ public:
 /// Comparison operator. Does normalization if required
 	bool operator == ( const Ellipse_& h ) const
 	{
-		auto& data = detail::Matrix_<FPT>::_mdata;
-
-		if( !detail::Matrix_<FPT>::isNormalized() )
-			detail::Matrix_<FPT>::p_normalizeMat(2,2);
-		if( !h.isNormalized() )
-			h.p_normalizeMat(2,2);
-
-		for( int i=0; i<3; i++ )
-			for( int j=0; j<3; j++ )
-				if( std::fabs(
-					static_cast<HOMOG2D_INUMTYPE>( data[i][j] ) - h.value(i,j) )
-					>= thr::nullDeter()
-				)
-					return false;
-		return true;
+		return this->p_isEqual( h, 2, 2 );
 	}
 
 /// Comparison operator. Does normalization if required
@@ -5427,7 +5419,7 @@ SegVec<SV,FPT>::getPointAt( FPT2 dist ) const
 		return ppts.first;
 	else
 		return ppts.second;
-}
+}
 
 //------------------------------------------------------------------
 /// Returns two parallel segments to the current one in a pair
-- 
2.43.0


From 16bf206edb6ddbca6a34d0b93160767829c5835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:31 +0000
Subject: [PATCH 02/38] fix: a failing Hmatrix_::inverse() leaves the matrix
 unchanged

---
 homog2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 2f7b32c..df1838c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1835,8 +1835,10 @@ Thus some assert can get triggered elsewhere.
 /// Inverse matrix
 	Hmatrix_& inverse()
 	{
-		detail::Matrix_<FPT>::inverse();
-		normalize();
+		auto tmp = *this; // so that we don't change anything if this throws
+		tmp.detail::template Matrix_<FPT>::inverse();
+		tmp.normalize();
+		*this = tmp;
 		return *this;
 	}
 
-- 
2.43.0


From 614f0626dd3e8669f8898a9779c7956365feb72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 03/38] fix: transforming a line never uses an outdated inverse
 of the matrix

---
 homog2d.hpp | 41 +++++------------------------------------
 1 file changed, 5 insertions(+), 36 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index df1838c..5ecc54c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1807,11 +1807,7 @@ Thus some assert can get triggered elsewhere.
 /// Copy-constructor
 	Hmatrix_( const Hmatrix_<M,FPT>& other )
 		: detail::Matrix_<FPT>( other)
-		, _hasChanged   ( true )
-		, _hmt          (  nullptr )
-	{
-		detail::Matrix_<FPT>::getRaw() = other.getRaw();
-	}
+	{}
 
 #ifdef HOMOG2D_USE_OPENCV
 /// Constructor used to initialise with a cv::Mat, call the assignment operator
@@ -1826,9 +1822,7 @@ Thus some assert can get triggered elsewhere.
 /// Assignment operator
 	Hmatrix_& operator = ( const Hmatrix_<M,FPT>& other )
 	{
-		if( this != &other )
-			detail::Matrix_<FPT>::getRaw() = other.getRaw();
-		_hasChanged = true;
+		detail::Matrix_<FPT>::operator = ( other );
 		return *this;
 	}
 
@@ -1902,7 +1896,6 @@ Thus some assert can get triggered elsewhere.
 		mat[0][2] = tx;
 		mat[1][2] = ty;
 		detail::Matrix_<FPT>::_isNormalized = true;
-		_hasChanged = true;
 		return *this;
 	}
 /// Adds a rotation with an angle \c theta (radians) to the matrix
@@ -1926,7 +1919,6 @@ Thus some assert can get triggered elsewhere.
 		mat[1][0] = std::sin(theta);
 		mat[0][1] = -mat[1][0];
 		detail::Matrix_<FPT>::_isNormalized = true;
-		_hasChanged = true;
 		return *this;
 	}
 /// Adds the same scale factor to the matrix
@@ -1945,7 +1937,6 @@ Thus some assert can get triggered elsewhere.
 		Hmatrix_ out;
 		out.setScale( kx, ky );
 		*this = out * *this;
-		_hasChanged = true;
 		return *this;
 	}
 /// Sets the matrix as a scaling transformation (same on two axis)
@@ -1966,7 +1957,6 @@ Thus some assert can get triggered elsewhere.
 		mat[0][0] = kx;
 		mat[1][1] = ky;
 		detail::Matrix_<FPT>::_isNormalized = true;
-		_hasChanged = true;
 		return *this;
 	}
 ///@}
@@ -1980,11 +1970,9 @@ Thus some assert can get triggered elsewhere.
 #endif
 
 /// Homography normalisation
-/// (const because flag \c _hasChanged declared as \c mutable)
 	void normalize() const
 	{
 		detail::Matrix_<FPT>::p_normalizeMat(2,2);
-		_hasChanged = true;
 	}
 
 	void buildFrom4Points( const std::vector<Point2d_<FPT>>&, const std::vector<Point2d_<FPT>>&, int method=1 );
@@ -1995,7 +1983,6 @@ Thus some assert can get triggered elsewhere.
 		Hmatrix_ out;
 		detail::product( out, static_cast<detail::Matrix_<FPT>>(h1), static_cast<detail::Matrix_<FPT>>(h2) ) ;
 		out.normalize();
-		out._hasChanged = true;
 		return out;
 	}
 
@@ -2038,13 +2025,6 @@ private:
 		detail::Matrix_<FPT>::_isNormalized = true;
 	}
 
-//////////////////////////
-//      DATA SECTION    //
-//////////////////////////
-private:
-	mutable bool _hasChanged   = true;
-	mutable std::unique_ptr<detail::Matrix_<FPT>> _hmt; ///< used to store \f$ H^{-1} \f$, but only if required
-
 	friend std::ostream& operator << ( std::ostream& f, const Hmatrix_& h )
 	{
 		f << "Hmatrix:\n"
@@ -9671,22 +9651,11 @@ template<typename T,typename U>
 Line2d_<T>
 operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 {
-	if( h._hmt == nullptr )             // if H^-T	not allocated yet, do it
-	{
-		h._hmt = std::unique_ptr<detail::Matrix_<U>>( new detail::Matrix_<U>() );
-		h._hasChanged = true;
-	}
-
-	if( h._hasChanged )                  // if homography has changed, recompute inverse and transposed
-	{
-		auto hi = h;
-		auto mat_inv = hi.inverse().transpose();
-		*h._hmt = mat_inv;
-		h._hasChanged = false;
-	}
+	auto hi = h;
+	auto mat_inv = hi.inverse().transpose();
 
 	Line2d_<T> out;
-	detail::product( out, *h._hmt, in );
+	detail::product( out, mat_inv, in );
 	out.p_normalizePL();
 	return out;
 }
-- 
2.43.0


From 971b1e1620b69b052485034d4df673e58855fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:14 +0000
Subject: [PATCH 04/38] fix: setting a Point/Line to invalid values leaves it
 unchanged

---
 homog2d.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5ecc54c..8ea4bb2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3868,10 +3868,12 @@ This will call one of the two overloads of \c impl_init_1_Point(), depending on
 		HOMOG2D_CHECK_IS_NUMBER(T0);
 		HOMOG2D_CHECK_IS_NUMBER(T1);
 		HOMOG2D_CHECK_IS_NUMBER(T2);
-		_v[0] = v0;
-		_v[1] = v1;
-		_v[2] = v2;
-		p_normalizePL();
+		LPBase tmp;                // so that we don't change anything if this throws
+		tmp._v[0] = v0;
+		tmp._v[1] = v1;
+		tmp._v[2] = v2;
+		tmp.p_normalizePL();
+		*this = tmp;
 	}
 
 /// Constructor of line from 4 values x1,y1,x2,y2
-- 
2.43.0


From 330eac8027ec35eabfa9d6f62eb753264779e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:03 +0000
Subject: [PATCH 05/38] fix: a failing FRect_::rotate() leaves the rectangle
 unchanged

---
 homog2d.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 8ea4bb2..e75c177 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7602,9 +7602,11 @@ template<typename FPT2>
 void
 FRect_<FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
-	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	auto tmp = *this; // so that we don't change anything if this throws
+	tmp.translate( -refpt.getX(), -refpt.getY() );
+	tmp.rotate( rot );
+	tmp.translate( refpt.getX(), refpt.getY() );
+	*this = tmp;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From ff163d3df65a18a595ff5290fcaef47fc8b91afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:03 +0000
Subject: [PATCH 06/38] fix: the radius check is always enabled again after
 computing a minimum enclosing circle

---
 homog2d.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e75c177..ce77fa2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1254,13 +1254,20 @@ static HOMOG2D_INUMTYPE& nullDeter()
 	return _zeroDeter;
 }
 
-/// This one is used for the Welzl minimum enclosing circle
+/// This one is used for the Welzl minimum enclosing circle (each thread has its own)
 static bool& doNotCheckRadius()
 {
-	static bool _doNotCheckRadius = false;
+	static thread_local bool _doNotCheckRadius = false;
 	return _doNotCheckRadius;
 }
 
+/// Disables the radius checking as long as it lives, whatever the way the scope is left
+struct RadiusCheckDisabler
+{
+	RadiusCheckDisabler()  { doNotCheckRadius() = true; }
+	~RadiusCheckDisabler() { doNotCheckRadius() = false; }
+};
+
 /// Helper function, could be needed
 inline
 void printThresholds( std::ostream& f )
@@ -5731,10 +5738,9 @@ Circle_<FPT>::set( const T& pts )
 //	std::random_shuffle( P_copy.begin(), P_copy.end() ); // ? check: what happens if removed?
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> R;
 
-	h2d::thr::doNotCheckRadius() = true;
+	h2d::thr::RadiusCheckDisabler disabler;
 	auto cir = p_WelzlHelper( P_copy, R, P_copy.size() );
 	set( cir.center(), cir.radius() );
-	h2d::thr::doNotCheckRadius() = false;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From afaa52af4f61c815897fbacc1908d70e573c0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 07/38] fix: svg drawing never loses markup silently, nor
 depends on the global locale

---
 homog2d.hpp | 79 ++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 7 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ce77fa2..b2ddd44 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -40,6 +40,8 @@ See https://github.com/skramm/homog2d
 #include <iomanip>
 #include <cassert>
 #include <sstream>
+#include <locale>
+#include <exception>
 #include <type_traits>
 #include <functional>
 #include <limits>
@@ -467,10 +469,60 @@ genRandomColors( size_t nb, int minval=20, int maxval=250 )
 	return vcol;
 }
 
+/// Holds the markup of a svg image
+/**
+Numbers are always printed the same way (whatever the global locale), and a failing memory allocation
+is reported by an exception (while a std::ostringstream would silently drop the text)
+*/
+class SvgText
+{
+public:
+	/// Removes what has been added since it was built if an exception is thrown, so that we never hold partial markup
+	class Rollback
+	{
+	public:
+		explicit Rollback( SvgText& txt )
+			: _txt(txt), _size(txt._str.size()), _nbExcept(std::uncaught_exceptions())
+		{}
+		~Rollback()
+		{
+			if( std::uncaught_exceptions() > _nbExcept )
+				_txt._str.resize( _size );
+		}
+		Rollback( const Rollback& ) = delete;
+		Rollback& operator = ( const Rollback& ) = delete;
+	private:
+		SvgText& _txt;
+		size_t   _size;
+		int      _nbExcept;
+	};
+
+	SvgText& operator << ( const std::string& s ) { _str += s; return *this; }
+	SvgText& operator << ( const char* s )        { _str += s; return *this; }
+	SvgText& operator << ( char c )               { _str += c; return *this; }
+
+	template<typename T>
+	SvgText& operator << ( const T& value )
+	{
+		std::ostringstream oss;
+		oss.exceptions( std::ios::badbit );
+		oss.imbue( std::locale::classic() );
+		oss << value;
+		_str += oss.str();
+		return *this;
+	}
+
+	const std::string& str() const { return _str; }
+	void clear() { _str.clear(); }
+
+private:
+	std::string _str;
+};
+
 /// A svg image as a wrapper around a string, see manual, "Drawing things" section
 struct SvgImage
 {
-	std::ostringstream _svgString; ///< the svg objects
+	SvgText _svgString; ///< the svg objects
 };
 
 
@@ -690,6 +742,8 @@ So the drawing code checks if user has added some filling, and if so, does not a
 	std::string getSvgRgbColor() const
 	{
 		std::ostringstream oss;
+		oss.exceptions( std::ios::badbit );
+		oss.imbue( std::locale::classic() );
 		oss << "rgb("
 			<< (int)_dpValues._color.r << ','
 			<< (int)_dpValues._color.g << ','
@@ -857,7 +911,6 @@ inline
 void
 Image<SvgImage>::clear( uint8_t, uint8_t, uint8_t )
 {
-	_realImg._svgString.str("");
 	_realImg._svgString.clear();
 }
 
@@ -12014,14 +12067,20 @@ inline
 void
 img::Image<img::SvgImage>::drawText( std::string str, Point2d_<float> pt, img::DrawParams dp )
 {
+	std::ostringstream color;
+	color.exceptions( std::ios::badbit );
+	color.imbue( std::locale::classic() );
+	color << std::hex << std::setfill('0')
+		<< std::setw(2) << (int)dp.color().r
+		<< std::setw(2) << (int)dp.color().g
+		<< std::setw(2) << (int)dp.color().b;
+
+	img::SvgText::Rollback guard( getReal()._svgString );
 	getReal()._svgString << "<text x=\"" << pt.getX()
 		<< "\" y=\"" << pt.getY()
 		<< "\" font-size=\"" << dp._dpValues._fontSize << "px"
-		<< "\" fill=\"#" << std::hex << std::setfill('0')
-			<< std::setw(2) << (int)dp.color().r
-			<< std::setw(2) << (int)dp.color().g
-			<< std::setw(2) << (int)dp.color().b
-		<< std::dec << "\">" << str << "</text>\n";
+		<< "\" fill=\"#" << color.str()
+		<< "\">" << str << "</text>\n";
 }
 
 #ifdef HOMOG2D_USE_OPENCV
@@ -12047,6 +12106,7 @@ template<typename FPT>
 void
 Circle_<FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp ) const
 {
+	img::SvgText::Rollback guard( im.getReal()._svgString );
 	im.getReal()._svgString
 		<< "<circle cx=\"" << center().getX()
 		<< "\" cy=\"" << center().getY()
@@ -12066,6 +12126,7 @@ template<typename FPT>
 void
 Ellipse_<FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp )  const
 {
+	img::SvgText::Rollback guard( im.getReal()._svgString );
 	im.getReal()._svgString << "<ellipse cx=\""
 		<< getCenter().getX()
 		<< "\" cy=\""
@@ -12090,6 +12151,7 @@ template<typename FPT>
 void
 FRect_<FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp ) const
 {
+	img::SvgText::Rollback guard( im.getReal()._svgString );
 	im.getReal()._svgString << "<rect x=\""
 		<< getPts().first.getX()
 		<< "\" y=\""
@@ -12120,6 +12182,7 @@ void drawSvgSeg(
 	std::string    attribs=std::string()
 )
 {
+	img::SvgText::Rollback guard( im.getReal()._svgString );
 	im.getReal()._svgString << "<line x1=\""
 		<< pt1.getX()
 		<< "\" y1=\""
@@ -12155,6 +12218,7 @@ template<typename SV, typename FPT>
 void
 SegVec<SV,FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp ) const
 {
+	img::SvgText::Rollback guard( im.getReal()._svgString );
 	auto group = false;
 	if( dp._dpValues._showPoints || std::is_same_v<SV,typ::IsOSeg> )
 		group = true;
@@ -12281,6 +12345,7 @@ PolylineBase<PLT,FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp )
 	if( size() < 2 ) // nothing to draw
 		return;
 
+	img::SvgText::Rollback guard( im.getReal()._svgString );
 	if( dp._dpValues._showIndex || dp._dpValues._showPoints )
 		im.getReal()._svgString << "<g>\n";
 
-- 
2.43.0


From 6e118c16128b5ad5a6f444ba2f9e65bd4808a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 08/38] fix: writing a svg image to a file throws if it fails

---
 homog2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index b2ddd44..5cf3821 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -895,6 +895,7 @@ Image<SvgImage>::write( std::string fname ) const
 	{
 		HOMOG2D_THROW_ERROR_1( "unable to open output file '" + fname + "'" );
 	}
+	file.imbue( std::locale::classic() );
 	file << "<svg version=\"1.1\" width=\"" << _width
 		<< "\" height=\"" << _height
 		<< "\" style=\"background-color:white;\" xmlns=\"http://www.w3.org/2000/svg\">\n"
@@ -904,6 +905,9 @@ Image<SvgImage>::write( std::string fname ) const
 
 	file << _realImg._svgString.str();
 	file << "</svg>\n";
+	file.close();
+	if( !file )
+		HOMOG2D_THROW_ERROR_1( "failed to write output file '" + fname + "'" );
 }
 
 template <>
-- 
2.43.0


From 72f165e459c223eea1c497f9371c2f3cfb6fc3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 09/38] fix: writing an Opencv image to a file throws if it
 fails

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5cf3821..8c02073 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -939,7 +939,8 @@ inline
 void
 Image<cv::Mat>::write( std::string fname ) const
 {
-	cv::imwrite( fname, _realImg );
+	if( !cv::imwrite( fname, _realImg ) )
+		HOMOG2D_THROW_ERROR_1( "failed to write output file '" + fname + "'" );
 }
 #endif // HOMOG2D_USE_OPENCV
 
-- 
2.43.0


From fec55118c81637abdfde2acbe525500fce77f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 10/38] fix: error and warning counters can be incremented from
 several threads

---
 homog2d.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 8c02073..dafdc8d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -32,6 +32,7 @@ See https://github.com/skramm/homog2d
 #include <algorithm>
 #include <numeric>
 #include <array>
+#include <atomic>
 #include <set>
 #include <list>
 #include <vector>
@@ -250,16 +251,16 @@ this will enable the counting of errors
 
 \todo 20250123: for some reason, the error count is always 42! Need to investigate this.
 */
-inline size_t& errorCount()
+inline std::atomic<size_t>& errorCount()
 {
-	static size_t c_err;
+	static std::atomic<size_t> c_err{0};
 	return c_err;
 }
 
 /// Used in macro HOMOG2D_LOG_WARNING
-inline size_t& warningCount()
+inline std::atomic<size_t>& warningCount()
 {
-	static size_t c_war;
+	static std::atomic<size_t> c_war{0};
 	return c_war;
 }
 
-- 
2.43.0


From bf54c595b0f98fb43e9856df598cd370e9a81468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:04 +0000
Subject: [PATCH 11/38] fix: every reported error gets counted

---
 homog2d.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index dafdc8d..3f922e0 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -139,9 +139,9 @@ See https://github.com/skramm/homog2d
 
 #define HOMOG2D_CHECK_ROW_COL \
 	if( r > 2 ) \
-		throw std::runtime_error( "Error: invalid row value: r=" + std::to_string(r) ); \
+		HOMOG2D_THROW_ERROR_1( "Error: invalid row value: r=" << r ); \
 	if( c > 2 ) \
-		throw std::runtime_error( "Error: invalid col value: r=" + std::to_string(r) )
+		HOMOG2D_THROW_ERROR_1( "Error: invalid col value: c=" << c )
 
 #ifdef HOMOG2D_USE_TTMATH
 #	define HOMOG2D_CHECK_IS_NUMBER(T)
@@ -638,7 +638,7 @@ public:
 	DrawParams& setPointStyle( PtStyle ps )
 	{
 		if( (int)ps > (int)PtStyle::Dot )
-			throw std::runtime_error( "Error: invalid value for point style");
+			HOMOG2D_THROW_ERROR_1( "Error: invalid value for point style" );
 		_dpValues._ptStyle = ps;
 		return *this;
 	}
@@ -4853,7 +4853,7 @@ Hmatrix_<M,FPT>::buildFrom4Points(
 #ifdef HOMOG2D_USE_EIGEN
 		*this = detail::buildFrom4Points_Eigen( vpt1, vpt2 );
 #else
-		throw std::runtime_error( "Unable, build without Eigen support" );
+		HOMOG2D_THROW_ERROR_1( "Unable, build without Eigen support" );
 #endif
 	}
 	else
@@ -4861,7 +4861,7 @@ Hmatrix_<M,FPT>::buildFrom4Points(
 #ifdef HOMOG2D_USE_OPENCV
 		*this = detail::buildFrom4Points_Opencv( vpt1, vpt2 );
 #else
-		throw std::runtime_error( "Unable, build without Opencv support" );
+		HOMOG2D_THROW_ERROR_1( "Unable, build without Opencv support" );
 #endif
 	}
 }
@@ -11681,7 +11681,7 @@ Hmatrix_<W,FPT>::copyTo( cv::Mat& mat, int type ) const
 	auto& data = detail::Matrix_<FPT>::_mdata;
 #ifndef HOMOG2D_NOCHECKS
 	if( type != CV_64F && type != CV_32F )
-		throw std::runtime_error( "invalid OpenCv matrix type" );
+		HOMOG2D_THROW_ERROR_1( "invalid OpenCv matrix type" );
 #endif
 	mat.create( 3, 3, type ); // default:CV_64F
 	size_t i=0;
@@ -11707,11 +11707,11 @@ Hmatrix_<W,FPT>::operator = ( const cv::Mat& mat )
 	auto type = mat.type();
 #ifndef HOMOG2D_NOCHECKS
 	if( mat.rows != 3 || mat.cols != 3 )
-		throw std::runtime_error( "invalid matrix size, rows=" + std::to_string(mat.rows) + " cols=" + std::to_string(mat.cols) );
+		HOMOG2D_THROW_ERROR_1( "invalid matrix size, rows=" << mat.rows << " cols=" << mat.cols );
 	if( mat.channels() != 1 )
-		throw std::runtime_error( "invalid matrix nb channels: " + std::to_string(mat.channels() ) );
+		HOMOG2D_THROW_ERROR_1( "invalid matrix nb channels: " << mat.channels() );
 	if( type != CV_64F && type != CV_32F )
-		throw std::runtime_error( "invalid matrix type" );
+		HOMOG2D_THROW_ERROR_1( "invalid matrix type" );
 #endif
 	size_t i=0;
 
-- 
2.43.0


From db6c0264a2049033662a0debd4f800c051d89a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 12/38] fix: numerical or argument problems throw instead of
 ending the process

---
 homog2d.hpp | 50 +++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 3f922e0..0ba03b9 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -679,7 +679,8 @@ public:
 /// Set font size for drawText()
 	DrawParams& setFontSize( int value /* pixels */ )
 	{
-		assert( value > 1 );
+		if( value < 2 )
+			HOMOG2D_THROW_ERROR_1( "invalid font size, value=" << value );
 		_dpValues._fontSize = value;
 		return *this;
 	}
@@ -4846,7 +4847,8 @@ Hmatrix_<M,FPT>::buildFrom4Points(
 		HOMOG2D_THROW_ERROR_1( "invalid vector size for source points, should be 4, value=" << vpt1.size() );
 	if( vpt2.size() != 4 )
 		HOMOG2D_THROW_ERROR_1( "invalid vector size for dest points, should be 4, value=" << vpt2.size() );
-	assert( method == 0 || method == 1 );
+	if( method != 0 && method != 1 )
+		HOMOG2D_THROW_ERROR_1( "invalid method, should be 0 or 1, value=" << method );
 
 	if( method == 0 )
 	{
@@ -5529,8 +5531,8 @@ SegVec<SV,FPT>::getExtended() const
 
 	auto int1 = li.intersects( c1 );
 	auto int2 = li.intersects( c2 );
-	assert( int1() );
-	assert( int2() );
+	if( !int1() || !int2() )
+		HOMOG2D_THROW_ERROR_1( "unable to extend segment:" << *this );
 	auto ppt1 = int1.get();
 	auto ppt2 = int2.get();
 
@@ -5949,7 +5951,8 @@ getBB_Points( const T& vpts )
 {
 	HOMOG2D_START;
 	using FPT = typename T::value_type::FType;
-	HOMOG2D_DEBUG_ASSERT( static_cast<bool>(vpts.size()), "cannot run with no points" );
+	if( vpts.size() == 0 )
+		HOMOG2D_THROW_ERROR_1( "cannot run with no points" );
 
 	auto mm_x = std::minmax_element(
 		std::begin( vpts ),
@@ -6003,7 +6006,8 @@ getBB_Segments( const T& vsegs )
 	HOMOG2D_START;
 	using FPT = typename T::value_type::FType;
 
-	HOMOG2D_DEBUG_ASSERT( vsegs.size(), "cannot compute bounding box of empty set of segments" );
+	if( vsegs.size() == 0 )
+		HOMOG2D_THROW_ERROR_1( "cannot compute bounding box of empty set of segments" );
 	std::vector<Point2d_<FPT>> vpts( vsegs.size()*2 );
 	auto it = vpts.begin();
 	for( const auto& seg: vsegs )
@@ -6022,7 +6026,8 @@ auto
 getBB_FRect( const std::vector<FRect_<FPT>>& v_rects )
 {
 	HOMOG2D_START;
-	HOMOG2D_DEBUG_ASSERT( v_rects.size(), "cannot compute bounding box of empty set of rectangles" );
+	if( v_rects.size() == 0 )
+		HOMOG2D_THROW_ERROR_1( "cannot compute bounding box of empty set of rectangles" );
 
 	std::vector<Point2d_<FPT>> vpts( v_rects.size()*2 );
 	auto it = vpts.begin();
@@ -6879,7 +6884,8 @@ PolylineBase<PLT,FPT>::set(
 			Segment_<HOMOG2D_INUMTYPE> seg( pt0, pt1 );
 			Line2d_<HOMOG2D_INUMTYPE> li( seg.getCenter() );     // line passing through (0,0) and middle point of segment
 			auto inters_pt = seg.intersects( li ) ;              // intersection point
-			assert( inters_pt() );
+			if( !inters_pt() )
+				HOMOG2D_THROW_ERROR_1( "unable to build regular polygon, radius=" << rad << " nb of points=" << n );
 			radius = Point2d_<HOMOG2D_INUMTYPE>(0,0).distTo( inters_pt.get() );
 		}
 
@@ -7788,8 +7794,8 @@ FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
 		auto xmax = std::max( v[0].getX(), std::max( v[1].getX(),v[2].getX() ) );
 		auto ymax = std::max( v[0].getY(), std::max( v[1].getY(),v[2].getY() ) );
 #ifndef HOMOG2D_DEBUGMODE
-		assert( xmax-xmin > thr::nullOrthogDistance() );
-		assert( ymax-ymin > thr::nullOrthogDistance() );
+		if( xmax-xmin <= thr::nullOrthogDistance() || ymax-ymin <= thr::nullOrthogDistance() )
+			HOMOG2D_THROW_ERROR_1( "unable to compute intersection area of " << *this << " and " << other );
 #else
 		HOMOG2D_DEBUG_ASSERT(
 			( ( xmax-xmin > thr::nullOrthogDistance() )
@@ -7808,7 +7814,8 @@ FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
  If we get to this point, we have 2 intersection points
 ------------------------*/
 #ifndef HOMOG2D_DEBUGMODE
-	assert( inter.size() == 2 );
+	if( inter.size() != 2 )
+		HOMOG2D_THROW_ERROR_1( "unable to compute intersection area of " << *this << " and " << other );
 #else
 /*	HOMOG2D_DEBUG_ASSERT(
 		inter.size() == 2,
@@ -7828,20 +7835,14 @@ FRect_<FPT>::intersectArea( const FRect_<FPT2>& other ) const
 	if( c1==0 && c2==0 ) // unable, rectangles share a segment
 		return detail::RectArea<FPT>();
 
-	assert(
-		( c1==1 && c2==1 )
-		||
-		( c1==0 && c2==2 )
-		||
-		( c2==0 && c1==2 )
-	);
+	if( !( c1==1 && c2==1 ) && !( c1==0 && c2==2 ) && !( c2==0 && c1==2 ) )
+		HOMOG2D_THROW_ERROR_1( "unable to compute intersection area of " << *this << " and " << other );
+
 	if( c1==1 || c2==1 ) // only 1 point inside => the rectangle is defined by the intersection points
 		return detail::RectArea<FPT>( FRect_<FPT>( inter.get().at(0), inter.get().at(1) ) );
 
 // here: 2 points inside, then build rectangle using the 4 points:
 // the 2 inside, and the two intersection points
-	assert( c1 == 2 || c2 == 2 );
-
 	if( c1 == 2 )
 		return detail::RectArea<FPT>(
 			FRect_<FPT>(
@@ -7983,6 +7984,8 @@ parseTable( Table& table )
 	std::vector<PCoord> out;
 	do
 	{
+		if( row > 3 || col > 3 || out.size() > 32 )
+			HOMOG2D_THROW_ERROR_1( "unable to compute the union of the rectangles" );
 		if( table[row][col]._isCorner )
 		{
 			auto new_pair = std::make_pair(row,col);
@@ -10312,7 +10315,8 @@ auto
 getBB_CommonType( const std::vector<CommonType_<FPT>>& v_var )
 {
 	HOMOG2D_START;
-	HOMOG2D_DEBUG_ASSERT( v_var.size(), "cannot compute bounding box of empty set of variant" );
+	if( v_var.size() == 0 )
+		HOMOG2D_THROW_ERROR_1( "cannot compute bounding box of empty set of variant" );
 
 	std::vector<Point2d_<FPT>> vpts;
 	vpts.reserve( v_var.size()*2 );
@@ -11752,8 +11756,8 @@ base::LPBase<LP,FPT>::impl_draw_LP(
 	const detail::BaseHelper<typename typ::IsLine>&
 ) const
 {
-	assert( im.rows() > 2 );
-	assert( im.cols() > 2 );
+	if( im.rows() < 3 || im.cols() < 3 )
+		HOMOG2D_THROW_ERROR_1( "unable to draw line, image is too small" );
 
 	Point2d_<FPT> pt1; // 0,0
 	Point2d_<FPT> pt2( im.cols()-1, im.rows()-1 );
-- 
2.43.0


From 3354011310066f14402999ce24c5f19bee1f21b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 13/38] fix: building a point or line from a vector checks its
 size

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 0ba03b9..4e2c4a6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4000,6 +4000,8 @@ This will call one of the two overloads of \c impl_init_1_Point(), depending on
 	>
 	LPBase( const T& arr )
 	{
+		if( arr.size() != 3 )
+			HOMOG2D_THROW_ERROR_1( "invalid size, should be 3, value=" << arr.size() );
 		_v[0] = static_cast<FPT>(arr[0]);
 		_v[1] = static_cast<FPT>(arr[1]);
 		_v[2] = static_cast<FPT>(arr[2]);
-- 
2.43.0


From 625f2771aae207aab29dcea08c14c652799452f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 14/38] fix: importing a damaged SVG file does not end the
 process

---
 homog2d.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4e2c4a6..bf132b2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12611,7 +12611,7 @@ std::string
 getNextElem( const std::string& str, std::string::const_iterator& it )
 {
 	std::string out;
-	while( *it == ' ' || *it == ',' ) // skip spaces and commas
+	while( it < str.cend() && (*it == ' ' || *it == ',') ) // skip spaces and commas
 		it++;
 
 	if( it >= str.cend() )
@@ -12624,7 +12624,7 @@ getNextElem( const std::string& str, std::string::const_iterator& it )
 	}
 	else
 	{
-		while( isDigit(*it) && it < str.cend() )
+		while( it < str.cend() && isDigit(*it) )
 		{
 			out.push_back( *it );
 			it++;
@@ -12707,10 +12707,8 @@ generateNewPoint(
 		case 'V':
 			assert( nb == 1 );
 		break;
-		case 'Z':
-			assert( nb == 0 );
-		break;
-		default: assert(0);
+		default:
+			HOMOG2D_THROW_ERROR_1( "SVG path command '" << mode._command << "' does not hold values" );
 	}
 
 	Point2d_<double> out;
@@ -12999,6 +12997,8 @@ importSvgPoints( const tinyxml2::XMLElement& e )
 	auto pts_str = svgp::getAttribString( "points", e );
 	auto vec_pts = svgp::parsePoints( pts_str );
 
+	if( vec_pts.empty() )
+		throw std::string("h2d::img::svg Error: no points in tag ") + e.Name();
 	if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
 		vec_pts.pop_back();                  //  point, remove last point
 
@@ -13080,6 +13080,8 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 					for( auto vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
 //					for( const auto& vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
 					{
+						if( vec_pts.empty() )                  // no points: nothing to import
+							continue;
 						if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
 							vec_pts.pop_back();                  //  point, remove last point
 
@@ -13131,6 +13133,8 @@ void
 printFileAttrib( const tinyxml2::XMLDocument& doc )
 {
 	const tinyxml2::XMLElement* root = doc.RootElement();
+	if( !root )
+		HOMOG2D_THROW_ERROR_1( "no root element in SVG file" );
 	const tinyxml2::XMLAttribute* pAttrib = root->FirstAttribute();
 	size_t i=0;
 	while( pAttrib )
@@ -13146,6 +13150,8 @@ auto
 getImgSize( const tinyxml2::XMLDocument& doc )
 {
 	const tinyxml2::XMLElement* root = doc.RootElement();
+	if( !root )
+		HOMOG2D_THROW_ERROR_1( "no root element in SVG file" );
 	const tinyxml2::XMLAttribute* pAttrib = root->FirstAttribute();
 	double w = -1., h = -1.;
 	while( pAttrib )
-- 
2.43.0


From 95ef503be3730c30106a21420770d4dc841dfd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 15/38] fix: SVG path import does not hide a memory shortage

---
 homog2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index bf132b2..d2c8af2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13091,6 +13091,10 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 							_vecVar.emplace_back( OPolylineD(vec_pts) );
 					}
 				}
+				catch( const std::bad_alloc& )
+				{
+					throw;
+				}
 				catch( std::exception& err )    // an unhandled path command will just get the whole path command ignored
 				{
 					HOMOG2D_LOG_WARNING( "Unable to import SVG path command\n -msg="
-- 
2.43.0


From 84e6fca87aaaad3e1638fba4ec705db44bf97d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:22 +0000
Subject: [PATCH 16/38] fix: SVG files can be imported from several threads

---
 homog2d.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d2c8af2..771cec3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12638,20 +12638,21 @@ getNextElem( const std::string& str, std::string::const_iterator& it )
 /// Returns nb of expected values for a given SVG path command.
 /// Ref: https://www.w3.org/TR/SVG2/paths.html
 inline
-std::map<char,int>&
+const std::map<char,int>&
 numberValues()
 {
-	static std::map<char,int> nbval;
-	nbval['M'] = 2; // M-m
-	nbval['L'] = 2; // L-l
-	nbval['H'] = 1; // H-h
-	nbval['V'] = 1; // V-v
-	nbval['C'] = 6; // C-c !NOT HANDLED!
-	nbval['S'] = 4; // S-s !NOT HANDLED!
-	nbval['Q'] = 4; // Q-q !NOT HANDLED!
-	nbval['T'] = 2; // T t !NOT HANDLED!
-	nbval['A'] = 7; // A-a !NOT HANDLED!
-	nbval['Z'] = 0; // Z-z
+	static const std::map<char,int> nbval{
+		{ 'M', 2 }, // M-m
+		{ 'L', 2 }, // L-l
+		{ 'H', 1 }, // H-h
+		{ 'V', 1 }, // V-v
+		{ 'C', 6 }, // C-c !NOT HANDLED!
+		{ 'S', 4 }, // S-s !NOT HANDLED!
+		{ 'Q', 4 }, // Q-q !NOT HANDLED!
+		{ 'T', 2 }, // T t !NOT HANDLED!
+		{ 'A', 7 }, // A-a !NOT HANDLED!
+		{ 'Z', 0 }  // Z-z
+	};
 	return nbval;
 }
 
-- 
2.43.0


From 36820a44f9ebef339055b1aad181d085b307fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:05 +0000
Subject: [PATCH 17/38] fix: moving a polyline discards its stored attributes

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 771cec3..f2c8769 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6464,6 +6464,8 @@ Also use the areCollinear() function
 	{
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
+		_attribs.setBad();
+		_plIsNormalized=false;
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
 	}
@@ -6495,8 +6497,7 @@ Also use the areCollinear() function
 			HOMOG2D_THROW_ERROR_1( "Invalid call, Polyline is empty" );
 		auto dx = new_org.getX() - getPoint(0).getX();
 		auto dy = new_org.getY() - getPoint(0).getY();
-		for( auto& pt: _plinevec )
-			pt.translate( dx, dy );
+		translate( dx, dy );
 	}
 
 /// Set from vector/array/list of points (discards previous points)
-- 
2.43.0


From 1d059b48994b4274e40294a7299114fbf94bb70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:05 +0000
Subject: [PATCH 18/38] fix: printing intersection points writes to the given
 stream only

---
 homog2d.hpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f2c8769..1639f04 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1247,20 +1247,25 @@ namespace priv {
 #endif
 
 template<typename T>
-void printVector( const std::vector<T>& v, std::string msg=std::string(), bool linefeed=false )
+void printVector( std::ostream& f, const std::vector<T>& v, std::string msg=std::string(), bool linefeed=false )
 {
-	std::cout << "vector: ";
+	f << "vector: ";
 	if( !msg.empty() )
-		std::cout << msg;
-	std::cout << " #=" << v.size() << '\n';
+		f << msg;
+	f << " #=" << v.size() << '\n';
 	size_t c=0;
 	for( const auto& elem: v )
 	{
 		if( linefeed )
-			std::cout << c++ << ": ";
-		std::cout << elem << (linefeed?'\n':'-');
+			f << c++ << ": ";
+		f << elem << (linefeed?'\n':'-');
 	}
-	std::cout << '\n';
+	f << '\n';
+}
+template<typename T>
+void printVector( const std::vector<T>& v, std::string msg=std::string(), bool linefeed=false )
+{
+	printVector( std::cout, v, msg, linefeed );
 }
 template<typename T,size_t N>
 void printArray( const std::array<T,N>& v, std::string msg=std::string() )
@@ -2618,7 +2623,7 @@ template<typename FPT>
 class IntersectM
 {
 private:
-	mutable std::vector<Point2d_<FPT>> _vecInters; ///< mutable, because it can get sorted in const functions
+	std::vector<Point2d_<FPT>> _vecInters;
 public:
 	IntersectM() {}
 /// To enable conversions from different floating-point types
@@ -2650,14 +2655,15 @@ public:
 /// Returns the intersection points, sorted
 	std::vector<Point2d_<FPT>> get() const
 	{
-		std::sort( std::begin(_vecInters), std::end(_vecInters) );
-		return _vecInters;
+		auto out( _vecInters ); // the member is left as is: this function is const
+		std::sort( std::begin(out), std::end(out) );
+		return out;
 	}
 	friend std::ostream&
 	operator << ( std::ostream& f, const IntersectM& i )
 	{
 		f << "IntersectM: size=" << i.size() << '\n';
-		priv::printVector( i._vecInters );
+		priv::printVector( f, i.get() );
 		return f;
 	}
 };
-- 
2.43.0


From 3d65edad89538f8ad2e6281484b7ac78724521b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 19/38] fix: stored attributes can be computed from several
 threads

---
 homog2d.hpp | 115 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 75 insertions(+), 40 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1639f04..47501c6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -33,6 +33,7 @@ See https://github.com/skramm/homog2d
 #include <numeric>
 #include <array>
 #include <atomic>
+#include <mutex>
 #include <set>
 #include <list>
 #include <vector>
@@ -2186,6 +2187,65 @@ template<typename ...Args> struct IsVariant<std::variant<Args...>>: std::true_ty
 } // namespace trait
 
 
+//------------------------------------------------------------------
+namespace priv {
+
+/// A POD value that needs some computing, associated with its flag.
+/// Used to be able to retain a value needing complex calculation.
+/**
+The value gets stored by const member functions, that can be called on the same object from several threads.
+*/
+template<typename T>
+class ValueFlag
+{
+private:
+	mutable std::mutex _mutex;
+	T    _value{};
+	bool _valIsCorrect = false;
+public:
+	ValueFlag() = default;
+	ValueFlag( const ValueFlag& other )
+	{
+		std::lock_guard<std::mutex> lock( other._mutex );
+		_value        = other._value;
+		_valIsCorrect = other._valIsCorrect;
+	}
+	ValueFlag& operator = ( const ValueFlag& other )
+	{
+		if( this != &other )
+		{
+			ValueFlag tmp( other );
+			std::lock_guard<std::mutex> lock( _mutex );
+			_value        = tmp._value;
+			_valIsCorrect = tmp._valIsCorrect;
+		}
+		return *this;
+	}
+	void set( const T& v )
+	{
+		std::lock_guard<std::mutex> lock( _mutex );
+		_value = v;
+		_valIsCorrect = true;
+	}
+	T value() const
+	{
+		std::lock_guard<std::mutex> lock( _mutex );
+		return _value;
+	}
+	void setBad()
+	{
+		std::lock_guard<std::mutex> lock( _mutex );
+		_valIsCorrect = false;
+	}
+	bool isBad() const
+	{
+		std::lock_guard<std::mutex> lock( _mutex );
+		return !_valIsCorrect;
+	}
+};
+
+} // namespace priv
+
 //------------------------------------------------------------------
 namespace detail {
 
@@ -2469,16 +2529,17 @@ is indeed a valid ellipse
 		data[1][2] = data[2][1] = E / 2.;
 
 #ifdef HOMOG2D_OPTIMIZE_SPEED
-		_epHasChanged = false;
-		_par.a = a;
-		_par.b = b;
-		_par.a2 = a2;
-		_par.b2 = b2;
-		_par.theta = theta;
-		_par.sint = sin1;
-		_par.cost = cos1;
-		_par.x0 = x0;
-		_par.y0 = y0;
+		detail::EllParams<FPT> par;
+		par.a = a;
+		par.b = b;
+		par.a2 = a2;
+		par.b2 = b2;
+		par.theta = theta;
+		par.sint = sin1;
+		par.cost = cos1;
+		par.x0 = x0;
+		par.y0 = y0;
+		_par.set( par );
 #endif
 	}
 
@@ -2494,8 +2555,7 @@ public:
 private:
 // (matrix holding the data is inherited from base class)
 #ifdef HOMOG2D_OPTIMIZE_SPEED
-	mutable bool _epHasChanged = true;   ///< if true, means we need to recompute parameters
-	mutable detail::EllParams<FPT> _par;
+	mutable priv::ValueFlag<detail::EllParams<FPT>> _par;
 #endif
 }; // class Ellipse
 
@@ -5902,28 +5962,6 @@ Circle_<FPT>::intersects( const Circle_<FPT2>& other ) const
 
 
 namespace priv {
-//------------------------------------------------------------------
-/// A POD value that needs some computing, associated with its flag.
-/// Used to be able to retain a value needing complex calculation.
-template<typename T>
-class ValueFlag
-{
-private:
-	T    _value;
-	bool _valIsCorrect = false;
-public:
-	ValueFlag() = default;
-	void set( T v )
-	{
-		_value = v;
-		_valIsCorrect = true;
-	}
-	T value() const    { return _value; }
-	void setBad()      { _valIsCorrect = false; }
-	bool isBad() const { return !_valIsCorrect; }
-};
-
-
 //------------------------------------------------------------------
 /// Holds attribute of a Polyline, allows storage of last computed value through the use of ValueFlag
 struct PolylineAttribs
@@ -8542,12 +8580,9 @@ detail::EllParams<T>
 Ellipse_<FPT>::p_getParams() const
 {
 #ifdef HOMOG2D_OPTIMIZE_SPEED
-	if( _epHasChanged )
-	{
-		_par = p_computeParams<T>();
-		_epHasChanged = false;
-	}
-	return _par;
+	if( _par.isBad() )
+		_par.set( p_computeParams<T>() );
+	return _par.value();
 #else
 	return p_computeParams<T>();
 #endif // HOMOG2D_OPTIMIZE_SPEED
-- 
2.43.0


From e005d880d8d817420d053837ab9e89ded01ee7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:05 +0000
Subject: [PATCH 20/38] fix: warnings and error messages do not change the
 formatting of std::cerr

---
 homog2d.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 47501c6..7edaddd 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -154,7 +154,11 @@ See https://github.com/skramm/homog2d
 #ifndef HOMOG2D_NOWARNINGS
 #define HOMOG2D_LOG_WARNING( a ) \
 	if( err::printWarnings() == true ) \
-		std::cerr << "homog2d warning (" << ++err::warningCount() << "), l. " << __LINE__ << ": " << a << "\n";
+	{ \
+		std::ostringstream oss_w; /* so that manipulators do not change the state of std::cerr */ \
+		oss_w << "), l. " << __LINE__ << ": " << a << "\n"; \
+		std::cerr << "homog2d warning (" + std::to_string( ++err::warningCount() ) + oss_w.str(); \
+	}
 #else
 #define HOMOG2D_LOG_WARNING
 #endif
@@ -8954,8 +8958,10 @@ LPBase<LP,FPT>::getPoints( const Point2d_<FPT2>& pt, FPT3 dist ) const
 #ifndef HOMOG2D_NOCHECKS
 	if( this->distTo( pt ) > thr::nullDistance() )
 	{
-		std::cerr << "homog2d: distance=" << std::scientific << this->distTo( pt )
+		std::ostringstream msg;     // so that we do not change the formatting of std::cerr
+		msg << "homog2d: distance=" << std::scientific << this->distTo( pt )
 			<< " > null distance (" << thr::nullDistance() << ")\n";
+		std::cerr << msg.str();
 		HOMOG2D_THROW_ERROR_2( "getPoints", "point is not on line" );
 	}
 #endif
@@ -9014,8 +9020,10 @@ LPBase<LP,FPT>::getRotatedLine( const Point2d_<FPT2>& pt, T theta ) const
 #ifndef HOMOG2D_NOCHECKS
 	if( this->distTo( pt ) > thr::nullDistance() )
 	{
-		std::cerr << "homog2d: distance=" << std::scientific << this->distTo( pt )
+		std::ostringstream msg;     // so that we do not change the formatting of std::cerr
+		msg << "homog2d: distance=" << std::scientific << this->distTo( pt )
 			<< "> null distance (" << thr::nullDistance() << ")\n";
+		std::cerr << msg.str();
 		HOMOG2D_THROW_ERROR_2( "getLineAngle", "point is not on line" );
 	}
 #endif
-- 
2.43.0


From 739ecb356ce371a9886b603118dc866cf7a65aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 21/38] fix: a bad SVG point list is reported with a
 std::runtime_error

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 7edaddd..5845a3e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12632,7 +12632,7 @@ parsePoints( const char* pts )
 	{
 		auto v2 = tokenize( pt, ',' );
 		if( v2.size() != 2 )
-			throw "h2d:img::svg: invalid point format in importing svg element: " + s;
+			HOMOG2D_THROW_ERROR_1( "invalid point format in importing svg element: " << s );
 		auto x = std::stod( v2[0] );
 		auto y = std::stod( v2[1] );
 		out.emplace_back( Point2d(x,y) );
-- 
2.43.0


From 83c5c9c423280c34ac8152301079d17c5212f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 22/38] fix: importing a SVG file does not depend on the locale

---
 homog2d.hpp | 85 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 72 insertions(+), 13 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5845a3e..dde00ca 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12582,6 +12582,58 @@ tokenize( const std::string &s, char delim )
 
     return velems;
 }
+//------------------------------------------------------------------
+/// Svg import: returns the numerical value at the beginning of \c s
+/**
+Same as \c std::stod(), except that it does not depend on the current locale
+(in a SVG file, the decimal separator is always a dot), and that only decimal values are accepted.
+*/
+inline
+double
+toDouble( const std::string& s )
+{
+	auto skipDigits = [&s]( size_t pos )
+	{
+		while( pos < s.size() && s[pos] >= '0' && s[pos] <= '9' )
+			pos++;
+		return pos;
+	};
+	auto isSign = [&s]( size_t pos )
+	{
+		return pos < s.size() && ( s[pos] == '-' || s[pos] == '+' );
+	};
+
+	auto start = std::min( s.find_first_not_of( " \t\n\r\f\v" ), s.size() );
+	auto pos1  = isSign( start ) ? start+1 : start;
+	auto end   = skipDigits( pos1 );
+	auto nbDigits = end - pos1;
+	if( end < s.size() && s[end] == '.' )
+	{
+		auto end2 = skipDigits( end+1 );
+		nbDigits += end2 - end - 1;
+		end = end2;
+	}
+	if( nbDigits == 0 )
+		throw std::invalid_argument( "not a numerical value: " + s );
+
+	if( end < s.size() && ( s[end] == 'e' || s[end] == 'E' ) )
+	{
+		auto pos2 = isSign( end+1 ) ? end+2 : end+1;
+		auto end2 = skipDigits( pos2 );
+		if( end2 > pos2 )
+			end = end2;
+	}
+
+	std::istringstream iss;
+	iss.exceptions( std::ios::badbit );
+	iss.imbue( std::locale::classic() );
+	iss.str( s.substr( start, end-start ) );
+	double value = 0.;
+	if( !( iss >> value ) )
+		throw std::out_of_range( "numerical value out of range: " + s );
+	return value;
+}
+
 //------------------------------------------------------------------
 /// Importing rotated ellipse from SVG data
 inline
@@ -12601,9 +12653,9 @@ getEllipseRotateAttr( const char* rot_str )
 			{
 				try  // in case of an incorrect numerical string
 				{
-					auto angle = std::stod( v3[0] );
-					auto x0    = std::stod( v3[1] );
-					auto y0    = std::stod( v3[2] );
+					auto angle = toDouble( v3[0] );
+					auto x0    = toDouble( v3[1] );
+					auto y0    = toDouble( v3[2] );
 					return std::make_pair( Point2d_<HOMOG2D_INUMTYPE>(x0,y0),angle*M_PI/180. );
 				}
 				catch( std::exception& err )
@@ -12633,8 +12685,8 @@ parsePoints( const char* pts )
 		auto v2 = tokenize( pt, ',' );
 		if( v2.size() != 2 )
 			HOMOG2D_THROW_ERROR_1( "invalid point format in importing svg element: " << s );
-		auto x = std::stod( v2[0] );
-		auto y = std::stod( v2[1] );
+		auto x = toDouble( v2[0] );
+		auto y = toDouble( v2[1] );
 		out.emplace_back( Point2d(x,y) );
 	}
 	return out;
@@ -12882,7 +12934,7 @@ struct SvgValuesBuffer
 	}
 	void addValue( std::string elem )
 	{
-		_values.push_back( std::stod(elem) );
+		_values.push_back( toDouble(elem) );
 	}
 };
 
@@ -13019,11 +13071,18 @@ inline
 double
 getAttribValue( const tinyxml2::XMLElement& e, const char* str, std::string e_name )
 {
-	double value=0.;
-	if( tinyxml2::XML_SUCCESS != e.QueryDoubleAttribute( str, &value ) )
-		HOMOG2D_THROW_ERROR_1( "h2d::svg::import error, failed to read attribute '"
-			<< std::string{str} << "' while reading element '" << e_name << "'" );
-	return value;
+	if( const char* txt = e.Attribute( str ) )
+	{
+		try
+		{
+			return toDouble( txt );
+		}
+		catch( const std::logic_error& )  // not a valid number: reported below
+		{
+		}
+	}
+	HOMOG2D_THROW_ERROR_1( "h2d::svg::import error, failed to read attribute '"
+		<< std::string{str} << "' while reading element '" << e_name << "'" );
 }
 
 /// Helper function for SVG import
@@ -13213,9 +13272,9 @@ getImgSize( const tinyxml2::XMLDocument& doc )
 	{
 		auto attr = std::string( pAttrib->Name() );
 		if( attr == "width" )
-			w = std::stod( pAttrib->Value() );
+			w = svgp::toDouble( pAttrib->Value() );
 		if( attr == "height" )
-			h = std::stod( pAttrib->Value() );
+			h = svgp::toDouble( pAttrib->Value() );
 		pAttrib=pAttrib->Next();
 	}
 	if( w == -1. || h == -1. )
-- 
2.43.0


From 2706a5ade90cc1ec4b7a899a07529095516e527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 23/38] fix: angles drawn in a svg image do not depend on the
 locale

---
 homog2d.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index dde00ca..5538bda 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -525,6 +525,18 @@ private:
 	std::string _str;
 };
 
+/// Same as \c std::to_string(), but does not depend on the current locale
+inline
+std::string
+toString( HOMOG2D_INUMTYPE value )
+{
+	std::ostringstream oss;
+	oss.exceptions( std::ios::badbit );
+	oss.imbue( std::locale::classic() );
+	oss << std::fixed << value;
+	return oss.str();
+}
+
 /// A svg image as a wrapper around a string, see manual, "Drawing things" section
 struct SvgImage
 {
@@ -12461,7 +12473,7 @@ PolylineBase<PLT,FPT>::draw( img::Image<img::SvgImage>& im, img::DrawParams dp )
 			auto seg2 = osegs[i+1];
 			auto angle = getAngle( seg1, seg2 );
 //			std::cout << "angle " << i << "=" << angle*180/3.1415 << "\n";
-			drawText( im, std::to_string(angle * 180./M_PI), pts[i+1] );
+			drawText( im, img::toString(angle * 180./M_PI), pts[i+1] );
 		}
 	}
 
-- 
2.43.0


From c85311776f267ff7987e8f1dc07030ff35dac339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 24/38] fix: bounding box of a set only uses its elements, and
 does not hide a memory shortage

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5538bda..cf512f6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10391,9 +10391,10 @@ getBB_CommonType( const std::vector<CommonType_<FPT>>& v_var )
 		{
 			ppair = std::visit( fct::PtPairFunct{}, elem );
 		}
-		catch( const std::exception& err )
+		catch( const std::runtime_error& err )
 		{
 			HOMOG2D_LOG_WARNING( "unable to compute point pair\n -msg=" << err.what() );
+			continue;
 		}
 		vpts.push_back( ppair.first );
 		vpts.push_back( ppair.second );
-- 
2.43.0


From 157f185a2be11a854a2160d6571e8b365dc17f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:48 +0000
Subject: [PATCH 25/38] fix: a failing getBB() counts as a single error

---
 homog2d.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index cf512f6..1344a92 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10589,10 +10589,13 @@ getBB( const T1& elem1, const T2& elem2 )
 			ppair::getPointPair( elem2 )
 		);
 	}
-	catch( const std::exception& err )
+	catch( const std::runtime_error& err ) // this one has been counted already
 	{
-		HOMOG2D_THROW_ERROR_1( "unable to compute bounding box:\n -arg1="
-			<< elem1 << "\n -arg2=" << elem2 << "\n -err=" << err.what() );
+		std::ostringstream oss;
+		oss << "homog2d: line " <<  __LINE__  << ", function:" << __FUNCTION__
+			<< "(): unable to compute bounding box:\n -arg1="
+			<< elem1 << "\n -arg2=" << elem2 << "\n -err=" << err.what();
+		throw std::runtime_error( oss.str() );
 	}
 	return out;
 }
-- 
2.43.0


From 9335e641dd26841febb76da1a2c73048bfc18be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 26/38] fix: getBB() of an element that has no bounding box
 counts as a single error

---
 homog2d.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1344a92..bf195bc 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10582,12 +10582,11 @@ getBB( const T1& elem1, const T2& elem2 )
 			return FRect_<typename T1::FType>( pp );
 	}
 
+	auto pp1 = ppair::getPointPair( elem1 ); // not in the block below: an element that has no
+	auto pp2 = ppair::getPointPair( elem2 ); // bounding box can not be printed either
 	try
 	{
-		out = getBB(
-			ppair::getPointPair( elem1 ),
-			ppair::getPointPair( elem2 )
-		);
+		out = getBB( pp1, pp2 );
 	}
 	catch( const std::runtime_error& err ) // this one has been counted already
 	{
-- 
2.43.0


From d4dc92177e03dcff212e6d85eb5f653e47fab023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:00 +0000
Subject: [PATCH 27/38] fix: minimum enclosing circle of three points is the
 smallest one

---
 homog2d.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index bf195bc..015db59 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5873,12 +5873,6 @@ Circle_<FPT>::set( const T& pts )
 		return;
 	}
 
-	if( pts.size() == 3 ) // todo: convert pts to HOMOG2D_INUMTYPE
-	{
-		set( pts[0], pts[1], pts[2] );
-		return;
-	}
-
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> P_copy( std::begin(pts), std::end(pts) );
 //	std::random_shuffle( P_copy.begin(), P_copy.end() ); // ? check: what happens if removed?
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> R;
-- 
2.43.0


From 36e3dbb90335f563e573c6e863c4924af6af5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 28/38] fix: orientation of ellipses with vertical major axis
 is in radians

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 015db59..f5343a4 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8644,7 +8644,7 @@ Ellipse_<FPT>::p_computeParams() const
 	if( homog2d_abs(B) < thr::nullDenom() )
 	{
 		if( A > C )
-			par.theta = 90.;
+			par.theta = (HOMOG2D_INUMTYPE)M_PI / 2.;
 	}
 	else
 	{
-- 
2.43.0


From 880b21b0900574fb2c2681173b0409390342d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 29/38] fix: convex hull of colinear points does not read an
 empty stack

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f5343a4..f509fa6 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11681,7 +11681,7 @@ convexHull( const std::vector<Point2d_<FPT>>& input )
 		auto r = input.at( v2[idx3] );
 		auto orient = priv::chull::orientation( p, q, r );
 //		HOMOG2D_LOG( "considering pts: " << v2[idx1] << "," << v2[idx2] << "," << v2[idx3] << ": or = " << orient );
-		if( orient != 1 )
+		if( orient != 1 || firstPoint.size() == 1 ) // pivot and first sorted point are always on the hull, only rounding errors (colinear points) can tell something else
 		{
 			hull.push( v2[idx3] );
 			idx1 = idx2;
-- 
2.43.0


From 385aaf9802b6dcde8d814ae2a1ddeb9f467dd39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:24 +0000
Subject: [PATCH 30/38] fix: a failing copy of drawing parameters leaves them
 unchanged

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index f509fa6..201c286 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -594,6 +594,7 @@ class DrawParams
 /// \todo 20240329 maybe we can merge parameters _ptDelta and _pointSize into a single one?
 	struct Dp_values
 	{
+		std::string _attrString;                ///< added attributes (SVG only). First, so that a failing copy does not change the other values
 		Color       _color;
 		int         _lineThickness = 1;
 		int         _pointSize     = 4;
@@ -605,7 +606,6 @@ class DrawParams
 		bool        _showIndex     = false;     ///< show the index as number
 		bool        _showAngles    = false;
 		int         _fontSize      = 20;        ///< font size for drawText()
-		std::string _attrString;                ///< added attributes (SVG only)
 
 /// Returns the point style following the current one
 		PtStyle nextPointStyle() const
-- 
2.43.0


From 3291f2cb02e75666b0b5f3ad4697dee987e33100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:17 +0000
Subject: [PATCH 31/38] fix: circle from three points with two of them close to
 each other

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 201c286..4a8b10a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5742,8 +5742,9 @@ Circle_<FPT>::set(
 #endif
 	auto pts = priv::getLargestDistancePoints( pt1, pt2, pt3 );
 
-	auto seg1 = Segment_<HOMOG2D_INUMTYPE>( pts[0], pts[1] );
-	auto seg2 = Segment_<HOMOG2D_INUMTYPE>( pts[0], pts[2] );
+// pts[2] is the vertex of the largest angle, thus the bisectors are the furthest from being parallel
+	auto seg1 = Segment_<HOMOG2D_INUMTYPE>( pts[2], pts[0] );
+	auto seg2 = Segment_<HOMOG2D_INUMTYPE>( pts[2], pts[1] );
 	auto li1 = seg1.getBisector();
 	auto li2 = seg2.getBisector();
 #ifndef HOMOG2D_NOCHECKS
-- 
2.43.0


From 31f7c07cf5b749c05bb7c925bd7738244edd1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 32/38] fix: splitting SVG attributes does not hide a memory
 shortage

---
 homog2d.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4a8b10a..c9e6bb0 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12585,10 +12585,12 @@ tokenize( const std::string &s, char delim )
 {
 	std::vector<std::string> velems;
 //    std::stringstream ss( TrimSpaces(s) );
-    std::stringstream ss( s );
-    std::string item;
-    while( std::getline( ss, item, delim ) )
-        velems.push_back(item);
+    for( size_t pos = 0; pos < s.size(); ) // no stream here, as these hide a memory shortage
+    {
+        auto end = std::min( s.find( delim, pos ), s.size() );
+        velems.push_back( s.substr( pos, end-pos ) );
+        pos = end + 1;
+    }
 
     return velems;
 }
-- 
2.43.0


From 841a7f365bc03b33cbbe5eca93f619b79ab15e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:39 +0000
Subject: [PATCH 33/38] fix: assigning an Opencv matrix to a homography left it
 marked as normalized, thus comparing it could give a wrong result

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index c9e6bb0..eb19a59 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11794,6 +11794,7 @@ Hmatrix_<W,FPT>::operator = ( const cv::Mat& mat )
 			break;
 		default: assert(0);
 	}
+	detail::Matrix_<FPT>::_isNormalized = false;
 	return *this;
 }
 #endif // HOMOG2D_USE_OPENCV
-- 
2.43.0


From 07fef1835accc8e25663e2a90f8fbdeae3dc2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:41 +0000
Subject: [PATCH 34/38] fix: changing an element of a matrix left it marked as
 normalized, thus comparing it could give a wrong result

---
 homog2d.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index eb19a59..b96fbf3 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1581,7 +1581,11 @@ public:
 		_isNormalized = other._isNormalized;
 	}
 
-	matrix_t<FPT>&       getRaw()       { return _mdata; }
+	matrix_t<FPT>& getRaw()
+	{
+		_isNormalized = false;  // as the caller can change the values
+		return _mdata;
+	}
 	const matrix_t<FPT>& getRaw() const { return _mdata; }
 
 	template<typename T>
@@ -1591,6 +1595,7 @@ public:
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
 		_mdata[r][c] = v;
+		_isNormalized = false;
 	}
 
 	const FPT& value( size_t r, size_t c ) const
@@ -1605,6 +1610,7 @@ public:
 		#ifndef HOMOG2D_NOCHECKS
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
+		_isNormalized = false;  // as the caller can change the value
 		return _mdata[r][c];
 	}
 
-- 
2.43.0


From 3dca406aece1f3447b998082dbb68b6ee77eecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:40 +0000
Subject: [PATCH 35/38] fix: Circle::set() from 3 points gave a null radius if
 the first point was the center of that circle

---
 homog2d.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b96fbf3..2d12d65 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5757,8 +5757,9 @@ Circle_<FPT>::set(
 	if( li1.isParallelTo(li2) )
 		HOMOG2D_THROW_ERROR_1( "unable, bisector lines are parallel" )
 #endif
-	center() = li1 * li2;
-	radius() = center().distTo(pt1);
+	const Point2d_<FPT> ctr = li1 * li2;
+	radius() = ctr.distTo(pt1);   // computed first: one of the points can be the center of this circle
+	center() = ctr;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From e72279ff9b7d037585546409f5fbb02116dbe3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:54 +0000
Subject: [PATCH 36/38] fix: rotating a polyline around one of its own points
 gave a wrong position

---
 homog2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 2d12d65..bb06fc8 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7380,9 +7380,11 @@ template<typename FPT2>
 void
 PolylineBase<PLT,FPT>::rotate( Rotate rot, const Point2d_<FPT2>& refpt )
 {
-	translate( -refpt.getX(), -refpt.getY() );
+	const auto dx = refpt.getX(); // refpt can be one of the points of this polyline
+	const auto dy = refpt.getY();
+	translate( -dx, -dy );
 	this->rotate( rot );
-	translate( refpt.getX(), refpt.getY() );
+	translate( dx, dy );
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 2f13aa27746cd92252c2921e2d88b37d81102a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:06 +0000
Subject: [PATCH 37/38] fix: minimum enclosing circle of a large set of points
 overflowed the stack

---
 homog2d.hpp | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index bb06fc8..13733f9 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5814,6 +5814,8 @@ Circle_<FPT>::p_min_circle_trivial( const std::vector<T>& P ) const
 Returns the MEC using Welzl's algorithm.
 Takes a set of input points P and a set R points on the circle boundary.
 
+The depth of recursion is the number of points in R, so at most 3, whatever the number of points in P.
+
 \c T is the point type
  */
 template<typename FPT>
@@ -5829,26 +5831,28 @@ Circle_<FPT>::p_WelzlHelper(
 	if( n == 0 || R.size() == 3 )
 		return p_min_circle_trivial( R );
 
-	// Pick a random point randomly
-	int idx = std::rand() % n;
-	auto p = P[idx];
-
-	// Put the picked point at the end of P
-	// since it's more efficient than
-	// deleting from the middle of the vector
-	std::swap( P[idx], P[n - 1] );
-
-	// Get the MEC circle d from the set of points P - {p}
-	auto d = p_WelzlHelper( P, R, n - 1 );
-	if( p.isInside( d ) )
-			return d;
+	// Put the points in a random order
+	for( size_t i=n; i>0; i-- )
+	{
+		int idx = std::rand() % i;
+		std::swap( P[idx], P[i - 1] );
+	}
 
-	// Otherwise, must be on the boundary of the MEC
-	R.push_back( p );
+	// Add the points one by one, d being the MEC of those already processed
+	auto d = p_min_circle_trivial( R );
+	for( size_t i=0; i<n; i++ )
+	{
+		auto p = P[i];
+		if( p.isInside( d ) )
+			continue;
 
-	// Return the MEC for P - {p} and R U {p}
-	auto c = p_WelzlHelper( P, R, n - 1 );
-	return c;
+		// Otherwise, must be on the boundary of the MEC:
+		// get the MEC of the previous points with R U {p} on its boundary
+		auto R2 = R;
+		R2.push_back( p );
+		d = p_WelzlHelper( P, R2, i );
+	}
+	return d;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From e798369be2c0d0aaa6b9217a14e36b4e45072d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:28 +0000
Subject: [PATCH 38/38] fix: thresholds and radius check were not shared
 between the source files of a program

---
 homog2d.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 13733f9..d708038 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1308,36 +1308,36 @@ void printVectorPairs( const std::vector<std::pair<T,T>>& v )
 /// Holds threshold values and api to access these
 namespace thr {
 
-static HOMOG2D_INUMTYPE& nullDistance()
+inline HOMOG2D_INUMTYPE& nullDistance()
 {
 	static HOMOG2D_INUMTYPE s_zeroDistance = HOMOG2D_THR_ZERO_DIST;
 	return s_zeroDistance;
 }
-static HOMOG2D_INUMTYPE& nullOrthogDistance()
+inline HOMOG2D_INUMTYPE& nullOrthogDistance()
 {
 	static HOMOG2D_INUMTYPE s_zeroOrthoDistance = HOMOG2D_THR_ZERO_ORTHO_DIST;
 	return s_zeroOrthoDistance;
 }
-static HOMOG2D_INUMTYPE& nullAngleValue()
+inline HOMOG2D_INUMTYPE& nullAngleValue()
 {
 	static HOMOG2D_INUMTYPE s_zeroAngleValue = HOMOG2D_THR_ZERO_ANGLE;
 	return s_zeroAngleValue;
 }
 
-static HOMOG2D_INUMTYPE& nullDenom()
+inline HOMOG2D_INUMTYPE& nullDenom()
 {
 	static HOMOG2D_INUMTYPE _zeroDenom = HOMOG2D_THR_ZERO_DENOM;
 	return _zeroDenom;
 }
 
-static HOMOG2D_INUMTYPE& nullDeter()
+inline HOMOG2D_INUMTYPE& nullDeter()
 {
 	static HOMOG2D_INUMTYPE _zeroDeter = HOMOG2D_THR_ZERO_DETER;
 	return _zeroDeter;
 }
 
 /// This one is used for the Welzl minimum enclosing circle (each thread has its own)
-static bool& doNotCheckRadius()
+inline bool& doNotCheckRadius()
 {
 	static thread_local bool _doNotCheckRadius = false;
 	return _doNotCheckRadius;
-- 
2.43.0

