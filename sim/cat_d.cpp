#define CAT_DEFNUM
#define HOMOG2D_USE_SVG_IMPORT
#define HOMOG2D_ENABLE_PRTP
#define NUMT double
#define UNI "d"
#define CAT_SVG
#define BF4P_METHOD 0
#define BF4P_METHODK(k) ((k)&1)
#define h2d h2d_d
#include "cat.hpp"
