// Interface between the instrumented operation catalogue (real homog2d code, compiled with
// memory-access instrumentation) and the uninstrumented simulator runtime.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iosfwd>

namespace sim {

// ---- output of an operation: a list of tokens, compared by the driver -------------------
enum TokType : uint8_t { T_NUM=1, T_INT=2, T_BOOL=3, T_STR=4, T_TAG=5 };

void out_num( long double v );
void out_int( long v );
void out_bool( bool v );
void out_str( const char* s, size_t n );
void out_tag( const char* s );

// ---- arguments ---------------------------------------------------------------------------
struct Arg
{
	int         slot = 0;      // slot index, for object arguments
	double      num  = 0.;     // value, for numeric arguments
	const char* str  = nullptr;// text, for text arguments
	size_t      len  = 0;
};

struct Ctx
{
	void*      world;
	const Arg* a;
	int        n;
	std::ostream* os;   // stream given by the simulator (may fail)
};

enum OpFlags : unsigned {
	F_QUERY   = 0,      // observes only
	F_MOD     = 1,      // changes the objects marked '*'
	F_NORM    = 2,      // const, but documented to re-order or re-scale its operands
	F_FACTORY = 4,      // sets an object whatever its previous value
	F_IDEM    = 8,      // repeating it gives the same
	F_RAND    = 16,     // uses the C random generator
	F_GLOBAL  = 32,     // changes process-wide settings
	F_PRINT   = 64,     // writes to c.os
	F_DRAW    = 128,    // draws on an SVG image
	F_IMPORT  = 256,    // SVG import
	F_FILE    = 512,    // file output
	F_HRAW    = 1024,   // raw access to matrix elements
	F_ERR     = 2048,   // meant to fail
	F_BIG     = 4096,   // expensive
	F_MEC     = 8192,
	F_CLOCK   = 16384,
	F_OBS     = 32768,  // value dump
	F_STDIO   = 65536,  // documented to write on standard streams
	F_HIST    = 131072, // result legitimately depends on history: excluded from twin comparison
	F_CANON   = 262144, // with F_NORM: re-orders its operand, but its result does not depend on the order
};

typedef void (*OpFn)( Ctx& );

struct OpDesc
{
	const char* name;
	const char* spec;   // one letter per argument; '*' before a modified object
	unsigned    flags;
	OpFn        fn;
};

struct Universe
{
	const char* name;
	OpDesc*     ops;
	int         nops;
	void*     (*create)();
	void      (*destroy)( void* );
	void      (*settings)();               // dumps all process-wide settings to the output
	void      (*resetGlobals)();
	size_t    (*errorCount)();
	size_t    (*warningCount)();
};

void registerUniverse( const Universe* );
void registerSecond( const Universe* );     // the same operations, in another source file of the same program

constexpr int NBANK = 4;   // bank 0: shared, 1..3: one per thread
constexpr int NSLOT = 3;   // slots per bank and type

bool simReversed();        // objects are placed in the opposite order

// allocation of harness objects outside the fault injection
struct Pause { Pause(); ~Pause(); };

} // namespace sim
