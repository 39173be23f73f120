// universe with Opencv images: the drawing is done by the real Opencv, files are written by the simulator
#define CAT_CV
#define HOMOG2D_USE_OPENCV
#define HOMOG2D_ENABLE_VRTP
#define NUMT double
#define UNI "cv"
#define BF4P_METHOD 1
#define BF4P_METHODK(k) 1
#define h2d h2d_cv
#include "cat.hpp"
namespace cv {
bool imwrite( const String& name, InputArray img, const std::vector<int>& )
{
	std::string t;
	{
		sim::Pause p;
		cv::Mat m=img.getMat();
		t = "bitmap "+std::to_string( m.cols )+"x"+std::to_string( m.rows )+":";
		uint64_t h=1469598103934665603ull;
		for( int r=0; r<m.rows; r++ ) for( size_t i=0; i<m.cols*m.elemSize(); i++ ) h=( h^m.ptr( r )[i] )*1099511628211ull;
		t += std::to_string( h );
	}
	switch( sim::simImwrite( name.c_str(), t.data(), t.size() ) )
	{
		case 0:  return true;
		case -2: throw cv::Exception( -2, "simulated failure", "imwrite", "sim", 1 );
		default: return false;
	}
}
void imshow( const String&, InputArray ) {}
}
