#define CAT_DEFNUM
#define HOMOG2D_ENABLE_VRTP
#define HOMOG2D_OPTIMIZE_SPEED
#define HOMOG2D_USE_EIGEN
#define HOMOG2D_USE_BOOSTGEOM
#define NUMT double
#define UNI "s"
#define BF4P_METHOD 0
#define BF4P_METHODK(k) ((k)&1)
#define h2d h2d_s
#include "cat.hpp"
