#define CAT_DEFNUM
#define HOMOG2D_ENABLE_VRTP
#define HOMOG2D_INUMTYPE long double
#define NUMT long double
#define UNI "l"
#define BF4P_METHOD 0
#define BF4P_METHODK(k) ((k)&1)
#define h2d h2d_l
#include "cat.hpp"
